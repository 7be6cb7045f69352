"""The list of properties (source of properties.jsonl and MANIFEST.json)."""

PROPS = [
    dict(
        id="P01",
        title="Converged plant models conserve mass, species and energy",
        statement=(
            "Whenever a simulation reports convergence, total mass flow and "
            "the mass flow of every fluid balance at every component and for "
            "the plant as a whole, except that combustion chambers, engines, "
            "fuel cells and electrolyzers convert fluids strictly according "
            "to the stoichiometry of the reaction, conserving total mass. "
            "The energy of the streams entering and leaving every component "
            "differs exactly by the heat and power the component reports to "
            "exchange, heat exchangers pass on exactly the heat they take "
            "up, and valves, splitters, merges, separators and drums exchange "
            "none. Streams leaving a splitter share the state of the inlet, "
            "and pressures at merges, separators and drums are equal."),
        over=["inputs", "programs"],
        for_all="all valid plant models: component selection, topology, "
                "working fluids, operating states and parameter sets",
        why="The balances must hold for every topology, fluid and "
            "specification set; tests check a few fixed plants.",
        files=["src/tespy/components", "src/tespy/networks/network.py"],
        mechanism=[
            ("mass flow and fluid propagation through branches",
             "networks/network.py propagate_fluid_wrappers, "
             "presolve_massflow_topology"),
            ("energy balance equations",
             "components/*: energy_balance_func, energy_balance_hot_func"),
            ("merge / drum / separator balances", "components/nodes/*"),
            ("reaction balances",
             "components/combustion/*, components/reactors/*"),
        ],
        observe="connection results (m, p, h, fluid) and component results "
                "(Q, P, heat ports) after Network.solve",
        technique="generated plant models (12 templates), invariant oracle "
                  "(balances recomputed from the reported states), shrinking",
        note="about 1500 generated plant models per quick run",
    ),
    dict(
        id="P02",
        title="A converged solution meets every specification the user made",
        statement=(
            "Whenever a simulation reports convergence, every value imposed "
            "on a connection (mass flow, pressure, enthalpy, temperature, "
            "vapour content, volumetric flow, temperature difference to "
            "boiling point, fluid fractions, fluid balance, references to "
            "other connections) and on a component (pressure ratio and loss, "
            "efficiency, power, heat, terminal temperature differences, "
            "effectiveness, heat transfer coefficient, pipe friction, "
            "collector, cogeneration and combustion parameters) is met when "
            "it is recomputed from the solved states with the fluid property "
            "database, within the solver's tolerance."),
        over=["inputs", "programs"],
        for_all="all valid plant models and all selections of specified "
                "quantities that determine them",
        why="Each specification is one equation among many alternatives and "
            "interacts with variable elimination in the presolve; tests "
            "sample single combinations.",
        files=["src/tespy/components", "src/tespy/connections/connection.py",
               "src/tespy/networks/network.py"],
        mechanism=[
            ("connection equations", "connections/connection.py *_func, "
             "*_ref_func, simplify_specifications"),
            ("component equations", "components/*: *_func"),
            ("propagation of fixed values",
             "networks/network.py presolve_*, create_massflow/fluid branches"),
        ],
        observe="solved connection states vs. the values given by the user",
        technique="generated plant models whose solution is constructed "
                  "first (CoolProp), specifications drawn from it, oracle "
                  "recomputes each specified quantity from solved states",
        note="about 1500 generated plant models per quick run",
    ),
    dict(
        id="P03",
        title="Reported results follow from the solved states",
        statement=(
            "After a converged simulation every value reported for a "
            "connection (temperature, volumetric flow, specific volume, "
            "vapour content, entropy, temperature difference to boiling "
            "point, phase) and for a component (power, heat, pressure ratio "
            "and loss, zeta, isentropic efficiency, terminal temperature "
            "differences, logarithmic mean difference, kA, effectiveness, "
            "pinch, coefficients of reactors and combustion) equals its "
            "documented definition evaluated on the solved mass flows, "
            "pressures, enthalpies and compositions. The result tables, the "
            "object attributes and their SI values show the same numbers."),
        over=["inputs", "programs"],
        for_all="all converged plant models",
        why="Result formulas are evaluated for every combination of fluid, "
            "phase and component; tests pin isolated numbers.",
        files=["src/tespy/components", "src/tespy/connections/connection.py",
               "src/tespy/networks/network.py"],
        mechanism=[
            ("post-processing of connections",
             "connections/connection.py calc_results"),
            ("post-processing of components", "components/*: calc_parameters"),
            ("result tables", "networks/network.py postprocessing"),
        ],
        observe="Connection.<prop>.val/.val_SI, Component.<param>.val, "
                "Network.results",
        technique="generated plant models, differential oracle (independent "
                  "re-implementation of the documented definitions on "
                  "CoolProp)",
        note="about 1500 generated plant models per quick run",
    ),
    dict(
        id="P04",
        title="Solutions do not depend on the units the user works in",
        statement=(
            "The same plant, described with the same physical quantities in "
            "any combination of the supported units for mass flow, pressure, "
            "enthalpy, temperature, volumetric flow, specific volume and "
            "entropy, converges to the same physical state. Every reported "
            "connection value is that state expressed in the chosen unit, "
            "also after the units of an existing network are changed."),
        over=["inputs", "programs"],
        for_all="all plant models and all combinations of units",
        why="Units enter at every specification, reference, starting value "
            "and result; tests use one or two unit sets on single plants.",
        files=["src/tespy/tools/helpers.py",
               "src/tespy/tools/global_vars.py",
               "src/tespy/networks/network.py",
               "src/tespy/connections/connection.py"],
        mechanism=[
            ("unit conversion", "tools/helpers.py convert_to_SI, "
             "convert_from_SI; tools/global_vars.py fluid_property_data"),
            ("SI values of specifications and references",
             "networks/network.py init_set_properties, init_val0"),
        ],
        observe="val, val_SI and unit of connection properties",
        technique="generated plant models and unit sets, metamorphic oracle "
                  "against the SI model with an independent unit table",
        note="about 600 generated model pairs per quick run",
    ),
    dict(
        id="P05",
        title="Ill-posed models are rejected, well-posed ones accepted",
        statement=(
            "A model with too few or too many values, with two values for the "
            "same mass flow, with open, doubly used or unknown connectors, "
            "with duplicate labels, missing fluid information or other "
            "structural defects is refused with an error and is never "
            "reported as solved. Repairing the defect in the same network "
            "object afterwards leads to the solution a fresh network yields, "
            "and well-posed models are accepted for every consistent choice "
            "of specified quantities."),
        over=["inputs", "programs", "histories"],
        for_all="all plant models, all positions and kinds of structural "
                "defects, and the repair of the same object",
        why="Whether the counts of equations and variables match depends on "
            "every component, parameter and presolve rule at once.",
        files=["src/tespy/networks/network.py",
               "src/tespy/connections/connection.py",
               "src/tespy/components/component.py"],
        mechanism=[
            ("determination", "networks/network.py solve_determination"),
            ("topology checks", "networks/network.py check_network, "
             "check_conns, check_components, add_conns"),
            ("mass flow presolve",
             "networks/network.py presolve_massflow_topology"),
        ],
        observe="exceptions raised, Network.converged, state after repair",
        technique="generated plant models with one injected defect "
                  "(fault injection), oracle: rejection, then agreement of "
                  "the repaired object with a fresh model",
        note="about 880 generated models per quick run",
    ),
    dict(
        id="P06",
        title="Export and load reproduce the network",
        statement=(
            "A network exported to disk and loaded again contains the same "
            "components, connections, busses, units, ranges and "
            "characteristics with the same specifications, references, "
            "design and off-design lists and flags. It solves to the same "
            "state as the original, and a second export equals the first."),
        over=["inputs", "programs", "histories"],
        for_all="all plant models, parameter sets, unit sets and states of "
                "the network at export (unsolved, solved, re-specified)",
        why="Every attribute of every component and connection takes part; "
            "tests export two networks.",
        files=["src/tespy/networks/network_reader.py",
               "src/tespy/networks/network.py",
               "src/tespy/tools/data_containers.py",
               "src/tespy/connections"],
        mechanism=[
            ("serialisation", "tools/data_containers.py _serialize, "
             "components/component.py _serialize, connections _serialize"),
            ("reconstruction", "networks/network_reader.py load_network"),
        ],
        observe="exported files, specification of the loaded network, "
                "solutions of both networks",
        technique="generated plant models and histories, round-trip oracle "
                  "(specification given by the generator, solution of the "
                  "original, second export)",
        note="about 560 generated networks per quick run",
    ),
    dict(
        id="P07",
        title="Off-design at the design point reproduces the design",
        statement=(
            "If a converged design is saved and an off-design calculation is "
            "run with unchanged boundary conditions, all states equal the "
            "design, whichever parameters are exchanged between design and "
            "off-design, in whichever units, in the same, a rebuilt or a "
            "loaded network, with one or with individual design paths. "
            "Returning to design mode restores the original specification "
            "and solution."),
        over=["inputs", "programs", "histories"],
        for_all="all plant models, exchangeable parameter pairs, units and "
                "ways of providing the design case",
        why="The exchange touches saving, reading, unit conversion, presolve "
            "and every characteristic; tests exercise a few plants.",
        files=["src/tespy/networks/network.py", "src/tespy/components"],
        mechanism=[
            ("saving and reading the design case", "networks/network.py save, "
             "init_offdesign_params, init_conn_design_params"),
            ("exchange of specifications", "networks/network.py init_design, "
             "init_offdesign"),
            ("characteristics relative to the design point",
             "components/*: *_char_func, cone_func, kA_char_group_func"),
        ],
        observe="connection states of design and off-design solutions",
        technique="generated plant models and parameter exchanges, "
                  "metamorphic oracle (identity at the design point), "
                  "histories design -> off-design -> design -> off-design",
        note="about 400 generated design / off-design histories per quick run",
    ),
    dict(
        id="P10",
        title="A reported result can be used as specification",
        statement=(
            "If a quantity specified in a converged model is released and "
            "another reported result (of a connection or of a component) is "
            "imposed with its reported value instead, the model yields the "
            "same solution."),
        over=["inputs", "programs"],
        for_all="all plant models and all independent exchanges of "
                "specified quantities for reported ones",
        why="Specification equation and result formula are separate code "
            "for every quantity and must agree in every operating state.",
        files=["src/tespy/components", "src/tespy/connections/connection.py"],
        mechanism=[
            ("equations", "components/*: *_func; connections *_func"),
            ("results", "components/*: calc_parameters; "
             "connections calc_results"),
        ],
        observe="connection states of both models",
        technique="generated plant models and exchanges, metamorphic oracle "
                  "(both specifications describe one state)",
        note="about 800 generated model pairs per quick run",
    ),
    dict(
        id="P11",
        title="How a plant is written down does not influence the solution",
        statement=(
            "Creation and addition order of components and connections, "
            "labels, alternative names of the same fluid (outside of reactors, which prescribe the names), grouping into "
            "subsystems, starting values near the solution, iteration "
            "controls and numeric types of the values given do not change "
            "the state a model converges to."),
        over=["inputs", "programs"],
        for_all="all plant models and all semantically neutral rewritings",
        why="Ordering and naming interact with branch detection, variable "
            "assignment and data frames in unforeseen combinations.",
        files=["src/tespy/networks/network.py",
               "src/tespy/components/subsystem.py",
               "src/tespy/connections/connection.py",
               "src/tespy/tools/fluid_properties"],
        mechanism=[
            ("branches and variable indices", "networks/network.py "
             "create_massflow_and_fluid_branches, _assign_variable_space"),
            ("assembling of the equation system",
             "networks/network.py solve_components, solve_connections"),
        ],
        observe="connection states of both models",
        technique="generated plant models and rewritings, metamorphic oracle",
        note="about 640 generated model pairs per quick run",
    ),
    dict(
        id="P12",
        title="Scaling the size of a plant scales its flows",
        statement=(
            "Multiplying all extensive specifications (mass and volumetric "
            "flow, heat, power, heat transfer coefficients, areas) by one "
            "factor, with flow-dependent coefficients adapted accordingly, "
            "multiplies all mass flows, heat and power by this factor and "
            "leaves pressures, enthalpies, temperatures and compositions "
            "unchanged."),
        over=["inputs", "programs"],
        for_all="all plant models without size-dependent friction and all "
                "positive factors",
        why="A relation between two solutions for every model; no single "
            "expected value settles it.",
        files=["src/tespy/components", "src/tespy/networks/network.py"],
        mechanism=[
            ("equations homogeneous in the mass flow", "components/*: *_func"),
        ],
        observe="connection states, heat and power of the components",
        technique="generated plant models and factors, metamorphic oracle",
        note="about 640 generated model pairs per quick run",
    ),
    dict(
        id="P13",
        title="Properties of pure fluids agree with the property database",
        statement=(
            "For every fluid of the CoolProp, IAPWS and PYroMat back ends and "
            "every state in range, the property functions (enthalpy, "
            "entropy, temperature, specific volume, viscosity, saturation "
            "and vapour content, phase, isentropic change, physical exergy) "
            "return the values of the database, agree with each other "
            "(inverse functions, dh = T ds + v dp) and their derivative "
            "functions are the derivatives. Neither earlier "
            "evaluations nor other fluids present with zero mass fraction "
            "influence a result."),
        over=["inputs", "histories"],
        for_all="all supported pure fluids, states in their range and "
                "sequences of property calls",
        why="Tests sample a few states of a few fluids; wrong properties in "
            "one region or after a certain call sequence go unnoticed.",
        files=["src/tespy/tools/fluid_properties/wrappers.py",
               "src/tespy/tools/fluid_properties/functions.py"],
        mechanism=[
            ("dispatch to pure fluid or mixture", "functions.py"),
            ("back ends", "wrappers.py: CoolPropWrapper, IAPWSWrapper, "
                          "PyromatWrapper"),
        ],
        observe="return values of the property functions",
        technique="generated states and call sequences, differential oracle "
                  "(CoolProp high level interface) and thermodynamic "
                  "identities",
        note="about 3200 generated call sequences per quick run",
    ),
    dict(
        id="P14",
        title="Properties of mixtures follow the documented mixing rules",
        statement=(
            "For every composition, pressure and temperature in range, "
            "enthalpy, entropy, specific volume and viscosity of a mixture "
            "equal the documented mixing rule (ideal, ideal-cond with water "
            "condensing up to saturation, incompressible) applied to the "
            "pure fluid database. The inverse functions T(p,h), T(p,s) and "
            "the isentropic change invert them from any starting value, the "
            "derivative functions are their derivatives, and neither the "
            "order of the fluids nor fluids with zero fraction matter."),
        over=["inputs"],
        for_all="all mixtures, states and starting values in range",
        why="The functions have kinks at the dew point and iterate inside; "
            "only a search over compositions and states reaches all cases.",
        files=["src/tespy/tools/fluid_properties/mixtures.py",
               "src/tespy/tools/fluid_properties/helpers.py",
               "src/tespy/tools/helpers.py"],
        mechanism=[
            ("mixing rules", "mixtures.py: *_mix_pT_*, cond_check"),
            ("inverse functions", "fluid_properties/helpers.py: "
                                  "inverse_temperature_mixture"),
        ],
        observe="return values of the mixture property functions",
        technique="generated mixtures and states, reference model and "
                  "round-trip oracle",
        note="about 3600 generated mixtures per quick run",
    ),
    dict(
        id="P15",
        title="Characteristic lines and maps interpolate linearly and never change",
        statement=(
            "For every valid set of points, evaluating a characteristic line "
            "or map gives the piecewise linear interpolation at any input, "
            "the boundary value outside of the range (or the linear "
            "continuation where a line extrapolates), and reports exactly "
            "the inputs out of range. Evaluation never alters the stored "
            "points, serialisation and loading of default or custom "
            "characteristics give the same function, and inconsistent data "
            "are refused with a ValueError."),
        over=["inputs", "histories"],
        for_all="all characteristic lines and maps, inputs and sequences of "
                "evaluations",
        why="Off-design results depend on them at arbitrary inputs; tests "
            "evaluate a handful of points of a few fixed curves.",
        files=["src/tespy/tools/characteristics.py"],
        mechanism=[
            ("lines", "characteristics.py: CharLine.evaluate, "
                      "get_domain_errors"),
            ("maps", "characteristics.py: CharMap.evaluate_x, evaluate_y"),
            ("loading", "characteristics.py: load_default_char, "
                        "load_custom_char"),
        ],
        observe="returned values, log messages and the stored points",
        technique="generated characteristics and inputs, reference "
                  "interpolation as oracle",
        note="about 4800 generated characteristics per quick run",
    ),
    dict(
        id="P08",
        title="Off-design operation follows the documented characteristics",
        statement=(
            "In off-design mode, at any load and with any boundary "
            "conditions, isentropic efficiencies, heat transfer "
            "coefficients, turbine flow (cone law), compressor pressure "
            "ratio and efficiency maps with inlet guide vane angle, pump and "
            "valve curves, electrolyzer efficiency, engine heat and fuel "
            "shares and friction coefficients (zeta) equal the design value "
            "times the given or default characteristic, evaluated at the "
            "documented quantity relative to the design (or absolute). This "
            "holds in any units, for the same, a rebuilt or a reloaded "
            "network, for network-wide and local off-design, and for "
            "repeated off-design points."),
        over=["inputs", "histories"],
        for_all="all designs, characteristics, loads and sequences of "
                "off-design points",
        why="Tests evaluate default characteristics at one or two loads of "
            "fixed components.",
        files=["src/tespy/components/component.py",
               "src/tespy/components/turbomachinery",
               "src/tespy/components/heat_exchangers",
               "src/tespy/components/combustion/engine.py",
               "src/tespy/networks/network.py"],
        mechanism=[
            ("expression", "component.py: get_char_expr"),
            ("turbomachines", "turbine.py: cone_func, eta_s_char_func; "
                              "compressor.py: char_map_*_func"),
            ("heat transfer", "base.py, simple.py, condenser.py: kA_char"),
            ("design values", "network.py: init_design, init_offdesign"),
        ],
        observe="solved states of the off-design point",
        technique="generated designs and off-design points, reference "
                  "evaluation of the characteristic on the solved states",
        note="about 640 generated design/off-design sequences per quick run",
    ),
    dict(
        id="P09",
        title="Results do not depend on the history of a network object",
        statement=(
            "Whatever was done with a network before (other specifications "
            "and fluids, interrupted or failed simulations, rejected models, "
            "connections removed, inserted and added again, off-design "
            "runs, saving, exporting and printing), once the specification "
            "is set, a converged simulation gives the solution of a freshly "
            "built network. All reported values and tables are those of the "
            "fresh network as well, no value of an earlier state survives, "
            "and a simulation which does not converge leaves the "
            "specification untouched."),
        over=["histories"],
        for_all="all sequences of operations on a network",
        why="State is kept in components, connections, data containers and "
            "tables; only generated sequences of operations reach the "
            "combinations where something is left over.",
        files=["src/tespy/networks/network.py",
               "src/tespy/connections/connection.py",
               "src/tespy/components/component.py"],
        mechanism=[
            ("initialisation", "network.py: initialise, init_design, "
                               "propagate_fluid_wrappers"),
            ("postprocessing", "network.py: postprocessing; connection.py: "
                               "calc_results"),
            ("topology", "network.py: add_conns, del_conns"),
        ],
        observe="states and result tables after the history compared with a "
                "fresh network",
        technique="stateful generation: random histories on generated "
                  "plants, model-based comparison with a fresh network",
        note="about 480 generated histories per quick run",
    ),
    dict(
        id="P16",
        title="Busses sum up energy flows with their efficiencies",
        statement=(
            "The total of a bus is the sum of the energy flows of its "
            "components, each converted with its constant or load dependent "
            "efficiency relative to the reference case, based on the "
            "component's or on the bus value, and a specified total is met "
            "by the free energy flow. Component value, bus value, efficiency "
            "and reference value are reported accordingly, in design and "
            "off-design, after saving, reloading and changing the load."),
        over=["inputs", "histories"],
        for_all="all components on busses, parameters, characteristics and "
                "loads",
        why="Efficiency curves are inverted iteratively and reference values "
            "travel through files; tests cover single curves at few loads.",
        files=["src/tespy/connections/bus.py",
               "src/tespy/components/component.py",
               "src/tespy/networks/network.py"],
        mechanism=[
            ("energy flows", "bus_func of the components"),
            ("efficiency", "component.py: calc_bus_expr, calc_bus_value"),
            ("reporting", "network.py: process_busses, save, init_offdesign"),
        ],
        observe="bus tables and solved states",
        technique="generated plants, busses and loads, energy flows "
                  "recomputed from the states as oracle",
        note="about 480 generated bus systems per quick run",
    ),
]

NOT_APPLICABLE = []
