"""Writes properties.jsonl and MANIFEST.json from the table below (development tool)."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
E = "src/andromede/expression/"
M = "src/andromede/model/"
S = "src/andromede/simulation/"
ST = "src/andromede/study/"
IC = "src/andromede/input_converter/src/"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note))

ENUM = "bounded exhaustive enumeration on the real code, against an independent reference model"

prop("C01", "Expression text means exactly what is written, or is refused",
 "Parsing a text of the modelling language yields the expression given by the documented grammar: operator precedence and left associativity, time indexing and shifts, window sums, port fields, sum over connections and expectation, with every character accounted for. A text outside the grammar, or naming something the model does not declare, raises a parse error; parsing never silently drops, reorders or invents a part of the text.",
 ["inputs"], "all token strings up to a length bound over the complete token alphabet, and all sentences up to a derivation bound, with several spacings",
 "The tests parse about twenty texts; precedence, associativity and rejection are quantified over all strings.",
 [E+"parsing/parse_expression.py", "grammar/Expr.g4", E+"parsing/antlr/ExprParser.py"],
 [("ExpressionNodeBuilderVisitor", E+"parsing/parse_expression.py"), ("parse_expression", E+"parsing/parse_expression.py")],
 "exhaustive exploration of all token strings up to a bound; reference recursive-descent parser as the model",
 "Complete up to the stated length over the token alphabet. Trusts the reference parser, written from the grammar and the documentation.")

prop("C02", "Expressions built with Python operators mean what they say and are values",
 "Combining expressions and plain numbers with the Python operators, in any order and nesting, gives an expression whose value for every assignment of variables and parameters is the arithmetic value. Building, copying, evaluating, substituting parameters or printing an expression never changes its operands, and a copy or a substitution keeps the value.",
 ["programs", "inputs"], "all operator trees up to a depth over literals, numbers, variables and parameters, evaluated on several assignments",
 "The tests build a dozen expressions; whether some operand order or nesting is mishandled is a statement about all programs.",
 [E+"expression.py", E+"evaluate.py", E+"copy.py", E+"evaluate_parameters.py", E+"visitor.py"],
 [("operator overloads", E+"expression.py"), ("evaluate", E+"evaluate.py"), ("copy_expression", E+"copy.py"), ("resolve_parameters", E+"evaluate_parameters.py")],
 ENUM, "Complete up to the stated depth. Values are exact dyadic numbers; comparison to 1e-12.")

prop("C03", "Expressions are equal exactly when they are structurally identical",
 "Two expressions compare equal exactly when they have the same structure and the same names, numbers (up to the requested tolerance), shifts, bounds and ports; a copy is equal to its original and any single difference anywhere makes them different. The relation is reflexive and symmetric, and models' variables, constraints and parameters compare by the content of their expressions.",
 ["inputs"], "all ordered pairs of expressions up to a size bound, over all node kinds",
 "The tests compare a few pairs; equality is quantified over all pairs and every position of a difference.",
 [E+"equality.py", M+"variable.py", M+"constraint.py"],
 [("EqualityVisitor", E+"equality.py"), ("expressions_equal", E+"equality.py")],
 "explicit enumeration of all pairs of a bounded expression space against the identity of the reference trees",
 "Complete on all pairs up to the stated size.")

prop("C04", "Ill-formed and non-linear model elements are refused",
 "Building a model element that has no meaning as a mixed integer linear program raises an error, when the model is made if it can be seen there and at the latest when the problem is built: non-linear or indexed objective contributions, non-constant bounds of variables, constraints or time operators, bounds that depend on an index which their variable does not have, comparisons combined with explicit bounds, infinite bounds on the wrong side, port field definitions containing comparisons or other port fields, products of variables. Well-formed elements of the same shape are accepted.",
 ["inputs"], "all combinations of element kind, position and expression class up to a size bound",
 "The tests try around ten ill-formed elements; refusal has to hold for all of them, wherever the offending part is nested.",
 [M+"constraint.py", M+"model.py", M+"port.py", M+"variable.py", E+"degree.py", E+"indexing.py", S+"linearize.py"],
 [("Constraint.__post_init__", M+"constraint.py"), ("Model.__post_init__", M+"model.py"), ("PortFieldDefinition", M+"port.py"), ("compute_degree", E+"degree.py")],
 ENUM, "Complete on the stated grid of contexts and nestings; reference classification by degree and indexing.")

prop("C05", "Each constraint becomes exactly the rows that it means",
 "For every component, each constraint of its model contributes one linear row per timestep and scenario on which the expression or its bounds depend (and a single one otherwise), whose coefficients and bounds are the arithmetic value of the written expression with the component's own parameters. No row is lost, duplicated or shared between components, and constants on either side end in the bounds.",
 ["programs", "inputs", "configurations"], "all constraint expressions up to a size, all comparators and bound kinds, all indexings, several numbers of timesteps and scenarios",
 "The tests check optimal values of some twenty hand-made cases; a wrong coefficient at one timestep or scenario usually leaves these optima unchanged.",
 [S+"linearize.py", S+"optimization.py", S+"linear_expression.py", M+"constraint.py", E+"indexing.py"],
 [("linearize_expression", S+"linearize.py"), ("_create_constraints", S+"optimization.py"), ("compute_indexation", E+"indexing.py")],
 ENUM, "The linear program held by the solver is read back and compared row by row with the reference denotation.")

prop("C06", "Shifts, fixed-time evaluation and sums over time select the right timesteps",
 "Inside a block taken cyclically, a shift takes its operand so many steps later or earlier, an evaluation takes it at the given step of the block, a window sum adds its operand over the window around the current step, and a sum over time adds it once for each step of the block; these hold for variables and for parameter data alike, however the operators are nested and whatever the block. A way of handling the borders of the block which is not implemented is refused, never replaced by another one.",
 ["programs", "configurations"], "all nestings of time operators up to a depth, constant and parameter-valued bounds, blocks of all small sizes including offset and non contiguous ones",
 "The tests use a handful of shifts on one block; wrap-around errors appear for particular shifts, nesting orders and block sizes.",
 [E+"operators_expansion.py", S+"linearize.py", S+"optimization.py"],
 [("OperatorsExpansion", E+"operators_expansion.py"), ("get_time_parameter/absolute timesteps", S+"optimization.py")],
 ENUM, "One recorded deviation (a shift applied to an operand already taken at a fixed step).")

prop("C07", "The objective is the expected total of all contributions",
 "The minimized objective is the sum over all components and nodes of their objective contributions selected for the problem, weighted by the probability given to the problem, where an expectation is the plain mean over the scenarios, also when it is nested or applied to only a part of an expression; the operational contributions go to operational problems, the investment contributions to investment problems, and both to the merged problem.",
 ["programs", "configurations"], "all objective expressions up to a size, numbers of scenarios and timesteps, components, strategies and probabilities",
 "The tests observe some objective values; weights per scenario and per contribution are quantified over all of them.",
 [S+"optimization.py", S+"strategy.py", E+"scenario_operator.py", M+"probability_law.py", E+"operators_expansion.py"],
 [("_create_objectives", S+"optimization.py"), ("Expectation", E+"scenario_operator.py"), ("ModelSelectionStrategy/RiskManagementStrategy", S+"strategy.py")],
 ENUM, "Objective coefficients and constant read back from the solver.")

prop("C08", "Port fields carry the definitions of the connected components",
 "A reference to a field of a port means the definition given by the one side that defines it, evaluated in the component that defines it (its variables, its parameters), and a sum over connections means the sum of the definitions of all connections of that port, each counted once per connection, whatever the order and the orientation in which connections are made; an unconnected sum is zero.",
 ["programs", "configurations"], "all connection multigraphs of small networks, all definitions and uses",
 "The tests use a few networks with one or two connections; graph-shaped errors need particular multiplicities and orientations.",
 [E+"port_resolver.py", E+"context_adder.py", S+"optimization.py", ST+"network.py"],
 [("PortResolver", E+"port_resolver.py"), ("add_component_context", E+"context_adder.py"), ("connection fields provider", S+"optimization.py")],
 ENUM, "Complete on the stated graphs.")

prop("C09", "Each variable exists once per index with its own bounds and type",
 "For each component the problem holds exactly one solver variable per variable of its model and per timestep and scenario it depends on (one in total when it depends on neither), continuous, integer or boolean as declared, with the lower and upper bounds evaluated for that component, timestep and scenario. Bounds that contradict each other are refused.",
 ["programs", "configurations"], "all variable kinds, indexings, bound expressions, contexts and problem sizes in the bound",
 "The tests never look at the bounds of individual solver variables.",
 [S+"optimization.py", M+"variable.py"],
 [("_create_variables", S+"optimization.py"), ("get_value of bounds", S+"optimization.py")],
 ENUM, "Variables are read back from the solver with names, bounds and types.")

prop("C10", "The right data value is used at each timestep and scenario",
 "The value of a parameter at a timestep of the block and a scenario is the one its data gives for that absolute timestep and that scenario, whether the data is constant, by time, by scenario or both, and whether it comes from memory or from a series file. Data that is missing for a component or node, or that varies along an index the parameter does not declare, is refused before the problem is built.",
 ["inputs", "configurations"], "all kinds of data and declared indexings, all small blocks in any order, all scenario maps, all file shapes and every missing pair",
 "The tests use constant data or one series; swapped indices or offsets need the particular block and scenario to show.",
 [ST+"data.py", ST+"resolve_components.py", S+"optimization.py"],
 [("DataBase.requirements_consistency", ST+"data.py"), ("get_value", ST+"data.py"), ("load_ts_from_txt", ST+"data.py")],
 ENUM, "Values observed in the coefficients of the built problem and through the data API.")

prop("C11", "Each simulated year uses the scenario chosen by the scenario builder",
 "With a scenario builder file, every parameter that depends on scenarios uses, in each year, the data scenario which the file gives to its own group, or else to the group of its component or node; parameters without a group use the scenario with the number of the year. Groups never leak from one parameter or component to another, and a group or year missing from the file, a year given two different scenarios, or a scenario which the data does not have, is refused.",
 ["inputs", "configurations"], "all maps of two groups, all assignments of groups to components, nodes and parameters, both file orders",
 "The tests use one file with one assignment of groups.",
 [ST+"resolve_components.py", ST+"data.py", ST+"parsing.py"],
 [("build_scenarized_data_base", ST+"resolve_components.py"), ("Scenarization", ST+"data.py"), ("parse_scenario_builder", ST+"parsing.py")],
 ENUM, "Complete on the stated maps and assignments.")

prop("C12", "Connections are accepted exactly when they are well-formed",
 "Connecting two ports is accepted exactly when both ports exist on their components, have the same port type and each field of that type is defined by exactly one of the two sides; otherwise it is refused and the network is left as it was. A network returns exactly the components, nodes and connections put in it, and a replica evolves independently of its original.",
 ["inputs", "histories"], "all pairs of models and ports in the bound, and all histories of additions to a network and its replica",
 "The tests try three refused connections.",
 [ST+"network.py", M+"port.py"],
 [("PortsConnection", ST+"network.py"), ("Network.replicate", ST+"network.py")],
 "exhaustive exploration of all pairs and of all operation histories up to a depth, on the real code, against a reference container model",
 "Complete on the stated pairs and histories.")

prop("C13", "Libraries resolve the same way in any order, and cycles are refused",
 "A set of model libraries with dependencies resolves to the same models whatever the order in which they are given: each model uses the port types of its own library or of the libraries it depends on, directly or not, and models of different libraries are never mixed. Cyclic or missing dependencies and conflicting definitions of a port type are refused, and resolution always terminates.",
 ["inputs", "configurations"], "all dependency digraphs on up to three or four libraries and all orders",
 "The tests resolve two graphs in one order.",
 [M+"resolve_library.py", M+"parsing.py"],
 [("resolve_library", M+"resolve_library.py"), ("_resolve_dependencies", M+"resolve_library.py")],
 "exhaustive exploration of all dependency graphs and orders against reachability in a reference graph model",
 "Complete on the stated graphs.")

prop("C14", "Incomplete, misspelt or duplicated input definitions are refused",
 "A library or system file with an unknown or missing key, a reference to something that does not exist (model, library, port, port type, component, parameter or variable in an expression), or two definitions with the same identifier where one would hide the other, raises an error instead of producing a problem. The same file without the fault is accepted.",
 ["inputs"], "all single faults at every position of reference library and system files",
 "The tests try four faulty files.",
 [M+"parsing.py", M+"resolve_library.py", ST+"parsing.py", ST+"resolve_components.py", M+"model.py"],
 [("parse_yaml_library", M+"parsing.py"), ("resolve_system/consistency_check", ST+"resolve_components.py"), ("duplicate checks", M+"model.py")],
 "enumeration of all single faults at all positions of the input files, run through the real loading chain",
 "Complete for single faults of the listed classes on the reference files.")

prop("C15", "Results give each variable its own optimal value",
 "After solving, the output gives for each component and variable the value of the solution at each timestep and scenario, with the shape of the variable's indexing, and values written by hand are read back the same way. Two outputs are equal exactly when the same components and variables hold the same values (within the tolerance for closeness), except for those explicitly ignored, whatever the order of earlier operations.",
 ["histories", "inputs"], "all shapes, all single differences, all histories of writes, reads and ignore flags up to a depth",
 "The tests compare outputs of two fixed shapes.",
 [S+"output_values.py"],
 [("OutputValues", S+"output_values.py"), ("Component.var / Variable.value", S+"output_values.py")],
 "exhaustive exploration of operation histories on the real object against a dictionary model, plus bijective read-back of solver solutions",
 "Complete up to the stated depth.")

prop("C16", "Linear expressions obey the laws of arithmetic and are never altered",
 "Sums, differences, products by constants, quotients and negations of linear expressions give the expression with the arithmetic value of the operation: terms on the same variable, timestep and scenario are combined, cancelled terms disappear, and constants are kept. No operation changes its operands, products and quotients by non-constant expressions are refused, and equal expressions compare equal whatever the order in which they were built.",
 ["histories", "programs"], "all sequences of operations up to a depth over a small alphabet of expressions",
 "The tests check single operations on a few terms.",
 [S+"linear_expression.py"],
 [("LinearExpression operators", S+"linear_expression.py"), ("Term", S+"linear_expression.py")],
 "explicit-state exploration of all operation sequences, replayed on the real objects against a coefficient-map model",
 "Complete up to the stated depth and alphabet.")

prop("C17", "The Benders decomposition is equivalent to the whole problem",
 "For every decision tree, blocks and scenarios, the master problem together with the sub-problems states exactly the whole problem: each operational constraint, variable and cost appears in exactly one sub-problem with the weight of its decision node, each investment one in the master, and cumulative coupling variables follow the parent-child relation of the tree. Nothing depends on what was decomposed before.",
 ["configurations", "inputs"], "all trees up to a size, with or without coupling, all block partitions and numbers of scenarios in the bound",
 "The tests decompose three trees and look at objective values.",
 [S+"benders_decomposed.py", S+"decision_tree.py", S+"optimization.py", S+"strategy.py"],
 [("build_benders_decomposed_problem", S+"benders_decomposed.py"), ("define_coupling_constraint / create_master_network", S+"decision_tree.py"), ("fusion_problems", S+"optimization.py")],
 "exhaustive enumeration of decision trees; the decomposed problem is read back and compared with a reference decomposition, and its optimum with the extensive form",
 "Complete on the stated trees.")

prop("C18", "Exported Benders files describe the decomposed problem",
 "The files written for the Benders solver describe the problem that was built: one problem file per master and sub-problem with the same columns, rows, bounds and costs, and a structure file that links each investment variable to its column position in the master and in every sub-problem where it appears, and to nothing else. The options file names the master and the structure file that were written and has the requested settings. A tree in which two nodes, or two blocks of a node, have the same identifier is refused.",
 ["configurations"], "all trees and shapes of investment models in the bound",
 "The tests compare one exported structure with a fixed text.",
 [S+"benders_decomposed.py", S+"optimization.py"],
 [("export_structure", S+"benders_decomposed.py"), ("initialise", S+"benders_decomposed.py"), ("export_as_mps", S+"optimization.py")],
 ENUM, "The files are parsed back by an independent reader. Identifiers whose concatenations collide once joined are a recorded limit.")

prop("C19", "Building problems is reproducible and free of side effects",
 "Building, solving, decomposing or exporting a problem leaves the model, network, data and expressions it was built from unchanged, so that any sequence of builds gives each problem exactly as if it had been built alone. When the user changes data, components or connections between two builds, each problem is the one of the inputs at that moment. The same inputs give the same problem, column for column and row for row, in every process.",
 ["histories", "configurations"], "all sequences of builds up to a depth over a set of configurations sharing the same inputs, and several hash seeds",
 "The tests build each problem once, in a fresh state.",
 [S+"optimization.py", S+"benders_decomposed.py", S+"decision_tree.py", ST+"network.py"],
 [("build_problem", S+"optimization.py"), ("OptimizationContext", S+"optimization.py")],
 "exhaustive exploration of all histories of builds up to a depth, each state compared with a fresh build; all hash seeds of a set",
 "Complete up to the stated depth.")

prop("C20", "The order in which a system is written does not change the problem",
 "Permuting components, nodes, connections (or swapping the two ends of a connection), models, or the variables, parameters and constraints within a model gives the same optimization problem up to the order of its columns and rows.",
 ["inputs"], "all permutations of small systems, by the Python API and in files",
 "The tests write each system in one order.",
 [ST+"network.py", ST+"resolve_components.py", M+"resolve_library.py", S+"optimization.py"],
 [("build_network", ST+"resolve_components.py"), ("build_problem", S+"optimization.py")],
 "exhaustive exploration of all permutations, metamorphic comparison of the built problems",
 "Complete on the stated systems.")

prop("C21", "Files and Python API give the same problem",
 "A system described in library, system and series files gives the same optimization problem as the same system described with the Python API, including default values of omitted keys, defined ports, bounds, indexing, and binding constraints. Loading files never depends on what was loaded before.",
 ["inputs", "programs"], "all elements of the modelling language, all combinations of optional keys of variables, parameters and constraints",
 "The tests load a few libraries and compare optimal values.",
 [M+"parsing.py", M+"resolve_library.py", ST+"parsing.py", ST+"resolve_components.py"],
 [("parse_yaml_library", M+"parsing.py"), ("resolve_library", M+"resolve_library.py"), ("build_data_base", ST+"resolve_components.py")],
 ENUM, "Both routes are read back from the solver and compared with each other and with the reference semantics.")

prop("C22", "Running the Benders solver reports failures and restores its environment",
 "Whatever happens to the external Benders programs (missing, failing, crashing, writing no or a malformed solution), a run leaves the working directory and the environment as they were, reports success exactly when the program succeeded, and never presents the solution of an earlier run as the result of a failed one. Any sequence of runs behaves like its last run alone.",
 ["fault_sequences", "histories"], "all sequences of runs up to a depth over all outcomes of the external programs",
 "The tests need the external binaries, and skip without them.",
 [S+"benders_decomposed.py", S+"runner.py", S+"output_values.py"],
 [("BendersDecomposedProblem.run", S+"benders_decomposed.py"), ("CommandRunner", S+"runner.py")],
 "exhaustive enumeration of fault sequences with stand-in programs, against a reference state machine",
 "Stand-ins replace the external programs; complete up to the stated length.")

prop("C23", "Thermal pre-processing gives feasible unit commitment limits",
 "From the nominal capacity, number of units, availability and modulation of a thermal cluster, the converter computes at each timestep and scenario the minimum power, the minimum and maximum number of units and the allowed increase and decrease of units: minimum power never exceeds availability, unit counts are the roundings-up that cover them, and variations are the changes of the maximum between consecutive timesteps, cyclic within each period.",
 ["inputs"], "all small tables over a value alphabet, periods and lengths",
 "The tests use one or two fixed tables.",
 [IC+"data_preprocessing/thermal.py"],
 [("ThermalDataPreprocessing", IC+"data_preprocessing/thermal.py")],
 ENUM, "Complete on the stated tables.")

prop("C24", "Converting an Antares study keeps every area's own data",
 "Converting an Antares study yields a system in which each area, link, load, renewable, thermal cluster, storage and configured binding constraint appears once with its own parameters and series, connected to its own area or areas, whatever the other areas contain. The generated parameters are those of the documented model and the arithmetic operations of the configuration are applied to the right series and properties.",
 ["inputs", "configurations"], "all small studies (areas, links, clusters, storages present or not) in the bound",
 "The tests convert a few fixed studies.",
 [IC+"converter.py", IC+"data_preprocessing/binding_constraints.py"],
 [("AntaresStudyConverter", IC+"converter.py"), ("BindingConstraintsPreprocessing", IC+"data_preprocessing/binding_constraints.py")],
 ENUM, "Identifier choices expected by the existing tests are recorded findings: they make some converted systems unloadable (refused, not wrong).")

prop("C25", "The shipped thermal model enforces unit commitment rules",
 "In the shipped historic library, the feasible schedules of a thermal cluster are exactly those in which the number of running units follows starts and stops within its limits, units once started stay on for the minimum up time and once stopped stay off for the minimum down time (cyclically over the block), and generation lies between the minimum and maximum power of the running units and the cluster's availability.",
 ["inputs", "schedules"], "all commitment schedules of small clusters over short horizons",
 "The tests solve a few studies whose optimum need not exercise the constraints.",
 ["src/andromede/libs/antares_historic/antares_historic.yml"],
 [("thermal model", "src/andromede/libs/antares_historic/antares_historic.yml")],
 "explicit-state enumeration of all schedules; each is a trace validated against the rows built from the shipped library",
 "Complete on all schedules of the stated horizons and parameters.")

prop("C26", "Shipped storage and network models conserve energy and respect limits",
 "In the shipped libraries, every feasible point balances injections and withdrawals at each bus, storages carry their level from one timestep to the next (cyclically) with the declared efficiencies, inflows and losses and stay within their power and level limits, links, electrolysers and demand response follow their limits, and objective contributions are the declared costs.",
 ["inputs", "schedules"], "all models of the shipped libraries, parameter values over an alphabet, all candidate points on a small grid",
 "The tests solve a few studies with one set of parameters.",
 ["src/andromede/libs/antares_historic/antares_historic.yml", "src/andromede/libs/reference_models/andromede_v1_models.yml", "src/andromede/libs/pypsa_models/pypsa_models.yml"],
 [("models", "src/andromede/libs")],
 "explicit enumeration: rows built from the shipped libraries compared with reference equations, and all grid points classified by both",
 "Complete on the stated parameters and grids.")

prop("C27", "The command line solves the given study and reports its average cost",
 "Given libraries, a system, series, a duration and a number of scenarios, the command line solves the problem on exactly the first timesteps and scenarios asked for and prints the solver's status and the average cost of that problem, whatever the order of options and libraries and whether the study is given as a folder or as separate files. Missing or inconsistent arguments or files are reported and nothing is solved.",
 ["inputs", "configurations"], "all combinations of present and missing options, durations, scenario counts and file layouts in the bound",
 "The tests call the command line on one study.",
 ["src/andromede/main/main.py", "src/andromede/study/parsing.py"],
 [("main_cli", "src/andromede/main/main.py"), ("input_libs", "src/andromede/main/main.py")],
 ENUM, "Run in process with captured output, against the reference optimum.")

prop("C28", "The PyPSA converter keeps every component, parameter and series",
 "Converting a PyPSA network yields a system in which every bus, load, generator, link, storage unit, store and global constraint appears once with its own static or time-varying parameters, connected to its own bus or buses, and to every global constraint when it emits; non-extendable capacities are fixed without capital cost; infinite values stay infinite. The features the converter declares unsupported (quadratic costs, inactive components, committable generators, non-cyclic or sign-changed storages, weighted snapshots, investment periods, global constraints other than CO2 limits) are refused.",
 ["inputs", "configurations"], "all small networks in the bound, static or time-varying parameters, extendable or not",
 "The tests need the external package and a few fixed networks.",
 ["src/andromede/pypsa_converter/pypsa_converter.py", "src/andromede/pypsa_converter/utils.py"],
 [("PyPSAStudyConverter", "src/andromede/pypsa_converter/pypsa_converter.py")],
 ENUM, "A stand-in with the same tables replaces the external package.")

prop("C29", "Decision trees carry the probabilities of their paths",
 "In a decision tree, the probability of each node is the product of the conditional probabilities on the path from its root, however and in whatever order its nodes were attached; the probabilities are reported as summing to one over the leaves exactly when the conditional probabilities of each node's children do. A probability outside the unit interval is refused and leaves the tree as it was. Each node keeps the network and the time and scenario configuration it was given, and a traversal visits each node once, level by level.",
 ["inputs", "histories"], "all trees up to a size with conditional probabilities over an alphabet, all construction orders",
 "The tests build two trees.",
 [S+"decision_tree.py"],
 [("DecisionTreeNode", S+"decision_tree.py")],
 "exhaustive enumeration of trees and probabilities against a reference product model",
 "Complete on the stated trees.")

prop("C30", "The converter's command line converts the study it is given",
 "The command line of the Antares converter converts the study given by its option, or else by its configuration file, and writes the system to output.yaml in the output folder given by its option, or else by its configuration file, or else in the study itself; nothing else is overwritten, whatever the order and form of the options and whatever was converted before. Paths which do not exist or are not of the right kind are reported by a failure, and no system is written.",
 ["inputs", "configurations", "histories"], "all ways of giving the study and the output folder in the bound, all orders of the options, sequences of conversions",
 "The tests never run this command line.",
 ["src/andromede/input_converter/src/main.py", "src/andromede/input_converter/src/converter.py", "src/andromede/input_converter/src/utils.py"],
 [("parse_commandline", "src/andromede/input_converter/src/main.py"), ("AntaresStudyConverter.process_all", "src/andromede/input_converter/src/converter.py")],
 ENUM, "Run in process on scratch studies made with antares_craft.")

if __name__ == "__main__":
    done = {p.stem.upper() for p in (ROOT / "mc/checks").glob("c[0-9]*.py")}
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
         "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"]}
        for p in P if p["id"] in done],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in done],
        "notes": "No hooks in /repo: every check observes public behaviour."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(man["checks"]), "checks;", len(man["not_applicable"]), "not yet")
