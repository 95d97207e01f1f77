"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe or [], hook_needed=None)))
M = "numerous/engine/model/"
S = "numerous/engine/system/"
p("C01", "Equation code is translated faithfully or rejected",
  "Every operator, operand, call argument, comparison, conditional expression, list/tuple element, subscript and assignment target that a user writes in an equation appears in the compiled kernel in the position and with the operator the user wrote. A construct the translator does not support (an else branch, a loop, and/or, keyword arguments, chained assignment, slices, ...) makes model assembly fail with an error. It is never silently dropped, truncated or altered.",
  ["programs"], "all equation methods a user can write (all Python syntax trees of a function body)",
  "Tests compile a few dozen sample equations; the space of syntax trees is unbounded and a dropped field only shows for a tree that uses it.",
  [M+"ast_parser/ast_visitor.py", M+"ast_parser/equation_from_graph.py"],
  [("translation of each syntax node into graph nodes and edges", M+"ast_parser/ast_visitor.py AstVisitor.visit_*"),
   ("translation of the graph back into code", M+"ast_parser/equation_from_graph.py node_to_ast")], ["compiled kernel"])
p("C02", "Statements of an equation keep their order and their guards",
  "The assignments of an equation execute in the order in which the user wrote them. A statement under an if executes only when the user's condition holds, and all statements of the guarded body are kept.",
  ["programs", "inputs"], "all equation bodies, all values of the condition",
  "A reordering or a lost guard shows only for bodies with a data dependency between the affected statements and inputs that take the other branch.",
  [M+"ast_parser/ast_visitor.py", M+"ast_parser/equation_from_graph.py"],
  [("body generation over graph nodes in creation order", M+"ast_parser/equation_from_graph.py function_body_from_graph"),
   ("if translation", M+"ast_parser/ast_visitor.py visit_If; equation_from_graph.py process_if_node")], ["compiled kernel"])
p("C03", "Compiled and pure-Python kernels are built by the same rules",
  "A model assembled with native code generation and the same model assembled with Python code generation compute the same kernel: states are loaded from the input vector in state order before any equation runs, every equation call and mapping is emitted once with the same arguments and targets, and derivatives are returned in derivative order. Reading all variables and writing one variable address the same slots in both.",
  ["programs", "configurations"], "all models, both settings of the code-generation option",
  "Tests run a subset of models in both modes; they cannot cover all combinations of argument positions and mapping sizes.",
  [M+"lowering/llvm_builder.py", M+"lowering/ast_builder.py", M+"lowering/equations_generator.py"],
  [("native builder", M+"lowering/llvm_builder.py LLVMBuilder"), ("Python builder", M+"lowering/ast_builder.py ASTBuilder"),
   ("driver choosing the builder", M+"lowering/equations_generator.py EquationGenerator")], ["kernel function, variable reader and writer"])
p("C04", "A mapped variable equals the sum of exactly its sources",
  "A variable with one mapping takes the value of its source; a variable with several mappings or several writing equations takes the sum of all of them. No source is dropped, counted twice, or replaced by another variable, whatever their number and order.",
  ["programs", "inputs"], "all mapping graphs, all source values",
  "Tests use a handful of mapping graphs with few sources; dropped or doubled sources depend on count and order.",
  [M+"graph_representation/mappings_graph.py", M+"lowering/equations_generator.py", M+"lowering/llvm_builder.py", M+"lowering/ast_builder.py", M+"model.py", M+"ast_parser/parser_ast.py"],
  [("collecting mappings in assembly", M+"model.py Model.assemble"), ("mapping edges", M+"ast_parser/parser_ast.py process_mappings"),
   ("sum nodes", M+"graph_representation/mappings_graph.py"), ("sum code", "add_mapping of both builders")], ["kernel"])
p("C05", "Contradictory mappings are rejected",
  "Mapping a variable directly onto itself raises an error and leaves the variable unmapped. Adding a summed mapping to a variable that already has a direct mapping raises an error, and adding a summed mapping otherwise records that source and nothing else.",
  ["programs", "histories"], "all sequences of mapping statements in user code",
  "Tests try one order of the mapping statements; the property is about every order.",
  ["numerous/engine/variables.py", S+"namespace.py"],
  [("mapping operators", "numerous/engine/variables.py MappedValue"), ("assignment into a namespace", S+"namespace.py VariableNamespaceBase.__setattr__")], ["Variable.mapping, Variable.sum_mapping"])
p("C06", "Equations and sums are evaluated after everything they read",
  "In an acyclic model every equation, temporary and mapping sum runs after all equations and sums that produce its inputs, and every one of them runs exactly once per kernel evaluation. A node kind the generator does not know is an error.",
  ["programs"], "all acyclic dependency graphs",
  "Tests exercise a few graph shapes; a wrong in-degree or visiting rule shows only on particular diamonds, fan-ins or chains.",
  [M+"graph_representation/lower_graph.py", M+"graph_representation/graph.py", M+"lowering/equations_generator.py"],
  [("topological sort", M+"graph_representation/lower_graph.py _Graph.topological_sort"), ("emission loop", M+"lowering/equations_generator.py generate_equations")], ["kernel"])
p("C07", "Duplicate registrations are rejected before anything changes",
  "Registering a second item with the same tag in a subsystem, a second namespace with the same tag or an already registered namespace in an item, a second binding with the same name in a connector, a second item on an occupied binding, or an item that already belongs to a set in another set raises an error. The registry keeps its earlier content.",
  ["programs", "histories"], "all sequences of registration calls",
  "Tests cover one duplicate per registry; they do not see a registry mutated before the check or a check bypassed on another path.",
  [S+"subsystem.py", S+"item.py", S+"connector.py", S+"binding.py", S+"namespace.py"],
  [("item registry", S+"subsystem.py Subsystem.register_item"), ("namespace registry", S+"item.py Item.register_namespace"),
   ("binding registry", S+"connector.py Connector.create_binding"), ("binding occupancy", S+"binding.py Binding.add_binding"), ("sets", S+"subsystem.py ItemSet")], ["exceptions from the building API"])
p("C08", "Detected errors are raised, never lost",
  "Whenever the engine detects an invalid request (an unknown binding name, a port for an unregistered item, an external mapping for an unknown variable, an unknown variable in an event, a non-numeric value, ...) the caller gets an exception. No error object is created and dropped, and no broad handler swallows one.",
  ["programs", "inputs"], "all invalid requests to the building and simulation API",
  "A test has to know the specific invalid request; an error that is created but not raised passes every test that does not try it.",
  ["numerous/"], [("all raise sites and handlers", "numerous/**")], ["exceptions"])
p("C09", "Binding an item connects all of its mappings",
  "After a connector is bound to an item, every mapping the connector declared on the binding (direct and summed, from every namespace of the binding) is present on the bound item's own variable of the same name, and every variable of the connector that was mapped to the binding is mapped to the bound item's variable. The binding then gives access to the bound item's namespaces.",
  ["programs"], "all connectors, bindings, namespaces and variables",
  "Tests bind connectors with one or two variables and namespaces.",
  [S+"binding.py", S+"connector_item.py", S+"connector.py"],
  [("transfer of mappings", S+"binding.py Binding.add_binding"), ("rewiring of the connector's own variables", S+"connector_item.py ConnectorItem.bind")], ["Variable.mapping and sum_mapping of bound items"])
p("C10", "Every item of the hierarchy takes part in the model once",
  "Assembling a model includes every item registered in the system at any depth and every item bound to a connector, with all of their namespaces, variables and equations, each item once. Each sub-item's variables are reachable under a path that lists all of its parents.",
  ["programs"], "all item hierarchies of any depth and width",
  "Tests have hierarchies of depth two or three.",
  [M+"model.py", S+"subsystem.py", S+"item.py", S+"namespace.py"],
  [("item traversal", M+"model.py Model.assemble"), ("namespace collection", M+"model.py _create_model_namespaces"), ("path propagation", S+"subsystem.py update_variables_path")], ["model variables and items"])
p("C11", "Hooks of all nested subsystems run",
  "Every after-solve function declared by the system or any subsystem nested in it, at any depth, is called after each completed solve. Every post-step function declared anywhere in the hierarchy is called after each converged solver step.",
  ["programs", "histories"], "all hierarchies and all simulation runs",
  "Tests declare hooks on one level.",
  [S+"subsystem.py", "numerous/engine/simulation/simulation.py", "numerous/engine/simulation/solver_interface.py", M+"compiled_model.py", M+"model.py"],
  [("collection", S+"subsystem.py get_run_after_solve, get_post_step"), ("calls", "simulation.py Simulation.solve; solver_interface.py post_step; compiled_model.py run_post_step")], ["hook calls"])
p("C12", "A variable is reachable under its path and its alias",
  "Every variable of the system is reachable under its full path, and under its alias when the user gave one. The name-to-variable lookups used for results, events, external data and setting values all agree on that same variable.",
  ["programs"], "all variable declarations with and without alias",
  "Tests use few aliases.",
  [M+"model.py", "numerous/engine/variables.py", "numerous/multiphysics/equation_base.py"],
  [("alias table", M+"model.py _assembly_tail"), ("declaration", "numerous/multiphysics/equation_base.py add_*")], ["model.aliases, historian columns"])
p("C13", "The recorder never overflows and never drops a row",
  "Each time the solver reports an output time, a state event or a time event, one row with the time and all variable values is recorded. When the recorder becomes full the run is interrupted so that its content is saved and it is emptied before the next row; content is never discarded without being saved first.",
  ["histories", "configurations"], "all runs, recorder sizes and event patterns",
  "Whether a row is recorded in a full buffer depends on the coincidence of events and buffer boundary.",
  [M+"compiled_model.py", "numerous/engine/simulation/solver_interface.py", "numerous/engine/simulation/simulation.py", M+"model.py", "numerous/utils/historian.py"],
  [("row writer", M+"compiled_model.py historian_update"), ("solver callbacks", "solver_interface.py historian_update, post_*"), ("flush", "solver_interface.py handle_solve_event")], ["model.historian_df"])
p("C14", "Result columns hold the variable they are named after",
  "A result column named by a variable's path or alias contains the values of that variable at the recorded times, for all recorded rows in recording order, including rows saved earlier in the same run. Reading current or initial values by name obeys the same correspondence.",
  ["programs", "histories"], "all models, variable orders and flush counts",
  "An index shift between recorder rows and names shows only for specific variables or after a flush.",
  [M+"model.py", M+"compiled_model.py", M+"aliased_dataframe.py"],
  [("row layout", M+"compiled_model.py historian_update"), ("column construction", M+"model.py create_historian_dict, create_historian_df"), ("alias frame", M+"aliased_dataframe.py")], ["model.historian_df, model.get_variables()"])
p("C15", "Only variables at or above the model's log level are recorded",
  "A variable appears in the results exactly when its own log level is at least the model's log level; a variable without a level counts as the lowest level. All its names (path and alias) follow the same rule.",
  ["configurations", "programs"], "all combinations of the variable's and the model's log level",
  "Tests check one or two level combinations.",
  [M+"model.py"], [("level filter", M+"model.py _assembly_tail")], ["historian columns"])
p("C16", "Resetting a simulation restores the initial situation",
  "Resetting a simulation, or starting a new simulation on a model that was already simulated, gives every model variable its initial value both on the model and in the kernel, empties the recorder and discards saved results, and re-applies external data for the new start time after the variables were restored.",
  ["histories"], "all histories of solve, value changes and reset",
  "Tests reset a few small models once.",
  ["numerous/engine/simulation/simulation.py", M+"model.py", M+"compiled_model.py"],
  [("reset", "numerous/engine/simulation/simulation.py Simulation.reset"), ("variables", M+"model.py _reset")], ["variables and results after reset"])
p("C17", "Exported and cloned models carry everything they need",
  "Loading an exported model gives back exactly the fields that were exported, each in its own place. A clone is only made from a model declared clonable (otherwise an error) and receives the original's variables, variable order, state and derivative positions, initial values, aliases, imports and generated kernel.",
  ["programs", "configurations"], "all models and all export/clone settings",
  "Tests clone small models; a swapped or missing field shows only for models that use it.",
  [M+"model.py"], [("export", M+"model.py lower_model_codegen"), ("load", M+"model.py from_file"), ("clone", M+"model.py clone, _set_functions")], ["simulation of loaded and cloned models"])
p("C18", "Separate models do not share mutable state",
  "Building or simulating one model never changes the behaviour or the data of another, separately built model living in the same process. Default arguments and class-level objects are not used as storage that several models, items or data frames write to.",
  ["histories", "schedules"], "all interleavings of building and simulating several models",
  "Tests build models one after the other in fixed orders.",
  ["numerous/"], [("class attributes, module globals and default arguments written at run time", "numerous/**")], ["results of a model while another is built"])
p("C19", "State events use their own condition, direction and action",
  "For every registered state event the solver evaluates that event's condition, with that event's direction, on the candidate state (leaving the model's state as it was), and when it fires runs that event's action. Item-level and model-level registrations, and internal and external actions, behave alike.",
  ["programs", "histories"], "all numbers and orders of registered events",
  "Tests register one or two events, so an index mix-up between events stays invisible.",
  [M+"events.py", "numerous/engine/simulation/solver_interface.py", M+"model.py", S+"item.py", "numerous/engine/numerous_event.py"],
  [("condition and action dispatchers", M+"events.py"), ("solver event classes", "solver_interface.py EventFactory"), ("registration", "model.py/item.py add_event")], ["event actions during solve"])
p("C20", "Time events fire at the requested times with their own action",
  "A time event is accepted exactly when either timestamps or a periodicity is given, but not both, and timestamps are a list or an array. It is handed to the solver with the user's timestamps or period, an identifier no other event has and its external flag, and when due its own action runs.",
  ["programs", "inputs"], "all combinations of timestamps and periodicity, all numbers of events",
  "Tests register one or two time events.",
  ["numerous/engine/numerous_event.py", "numerous/engine/simulation/solver_interface.py", M+"model.py", S+"item.py"],
  [("validation", "numerous_event.py TimestampEvent"), ("solver event creation", "solver_interface.py create_numerous_solver_event"), ("registration", "add_timestamp_event")], ["event actions during solve"])
p("C21", "What an event changes is what the model sees",
  "Every variable an event action modifies, state or not, has the modified value in the model when the solver continues, and variables the action did not touch keep their values. External actions receive and return values by variable path, relative to the item that registered the event.",
  ["programs", "histories"], "all sets of variables an action writes, all variable orders",
  "An index shift depends on the position of the states among the variables; tests modify one variable.",
  ["numerous/engine/simulation/solver_interface.py", M+"model.py"],
  [("internal actions", "solver_interface.py run_event_action (internal)"), ("external actions", "solver_interface.py run_event_action (external)")], ["variables after an event"])
p("C22", "Event functions are compiled with their own variables and closures",
  "Names used in an event's condition or action resolve to the variables of the item that registered it, and values captured from the surrounding function are those of that event, whichever other events the model has. A reference to an unknown variable is an error.",
  ["programs"], "all sets of events with all closure contents",
  "Tests use one event with a closure at a time.",
  [M+"events.py"], [("closure collection and path replacement", M+"events.py")], ["event actions during solve"])
p("C23", "External data reaches exactly the variable it is mapped to",
  "A variable takes external data exactly when a mapping names its path, and then from the column, data frame and interpolation kind of that mapping, at the current time. Piecewise data hold the last value at or before the time; linear data are interpolated.",
  ["configurations", "inputs"], "all numbers of data frames, columns, interpolation kinds and path names",
  "Tests map one data frame with few columns whose names are no prefixes of each other.",
  [S+"external_mappings/external_mappings.py", M+"compiled_model.py", M+"model.py"],
  [("index tables", S+"external_mappings/external_mappings.py ExternalMapping"), ("mapping per step", M+"compiled_model.py map_external_data")], ["mapped variables during solve"])
p("C24", "External data is refreshed and reloaded when the time leaves the window",
  "External data is applied before the first step and after every step. When the time leaves the loaded window the next batch is loaded and takes effect together with its time bounds; when no data exist for the time the run stops with an error. A coincident recorder flush is performed as well.",
  ["histories", "inputs"], "all relations between time, loaded window and recorder fill",
  "The coincidence of flush and reload, and windows ending exactly at a step, are rare in tests.",
  ["numerous/engine/simulation/solver_interface.py", M+"compiled_model.py", "numerous/engine/simulation/simulation.py", M+"model.py", S+"external_mappings/external_mappings.py"],
  [("post-step decision", "solver_interface.py post_step"), ("reload", "solver_interface.py handle_solve_event"), ("window test", "compiled_model.py is_external_data_update_needed")], ["mapped variables, errors"])
p("C25", "State vector, derivative vector and initial values line up",
  "The solver's state vector lists the states in one fixed order everywhere: initial values, kernel input, reading and writing of states, and the derivative vector (the derivative of the i-th state is the i-th derivative). Declaring a state creates its derivative unless the user opts out.",
  ["programs"], "all models with any number and declaration order of states",
  "A misaligned order is invisible with one state or symmetric equations.",
  [M+"lowering/equations_generator.py", M+"compiled_model.py", M+"model.py", "numerous/multiphysics/equation_base.py"],
  [("index arrays", M+"lowering/equations_generator.py generate_equations"), ("state access", M+"compiled_model.py get_states, set_states"), ("declaration", "equation_base.py add_state")], ["solver state"])
p("C26", "Setting a variable reaches the running kernel",
  "Setting a variable's value, by attribute or through the model's setters, is visible both on the variable and in the kernel's slot for that variable. A value that cannot be converted to a number is refused with an error and changes nothing, and copying values back from the kernel updates every variable.",
  ["inputs", "histories"], "all values, variables and orders of writes",
  "Tests set a few variables.",
  ["numerous/engine/variables.py", M+"model.py", "numerous/engine/simulation/solver_interface.py"],
  [("value setter", "numerous/engine/variables.py Variable.value"), ("model setters", M+"model.py set_variables, update_*")], ["variable values"])
p("C27", "Time and global variables keep their own slot",
  "Equations, also those of an item set, read the current simulation time through the time global, which is updated before every kernel evaluation, and every user-defined global reads its own initial value. The slot a global is compiled to is the slot its value is stored in.",
  ["programs", "histories"], "all sets of global variables in any order",
  "Tests define one or two globals.",
  [M+"model.py", M+"compiled_model.py", M+"lowering/equations_generator.py", M+"lowering/llvm_builder.py", M+"lowering/ast_builder.py", M+"ast_parser/parser_ast.py"],
  [("registration", M+"model.py add_global_variable"), ("time update", M+"compiled_model.py func"), ("lowering", "load_global_arguments / _process_argument")], ["kernel"])
p("C28", "Items of a set keep their own variables",
  "A set rejects an item that is not an instance of the type of its first item. The i-th item of a set uses the i-th entry of each set variable, set variables contain the corresponding variable of every item, and the vectorised call visits all items with arguments in the order the equation expects.",
  ["programs"], "all set sizes and variable counts",
  "Tests use sets of two or three items.",
  [S+"subsystem.py", S+"namespace.py", "numerous/engine/variables.py", M+"lowering/llvm_builder.py", M+"lowering/ast_builder.py", M+"lowering/equations_generator.py", M+"model.py"],
  [("set construction", S+"subsystem.py ItemSet"), ("set variables", "variables.py SetOfVariables; namespace.py SetNamespace"), ("vectorised call", "add_set_call of both builders")], ["kernel"])
p("C29", "FMU calls are made in protocol order and their arguments are not mixed up",
  "Every Real variable of an FMU that is a state, a derivative, an input or an output becomes a variable of the subsystem with its start value. Whenever derivatives and outputs, or event indicators, are read from an FMU, the time and the values of its variables have been set before; at an event, event mode is entered before the discrete states are updated and left again before values are read back. Each value goes to and comes from the variable it belongs to: all derivatives and outputs are assigned, also by an FMU with a single derivative. With call logging switched on the same FMI functions are called with the same arguments as without. The FMU is initialised before it is used and terminated, then freed, after solving.",
  ["configurations", "histories"], "all FMUs, with and without logging",
  "Tests cover two sample FMUs; logging, inputs, outputs and FMUs with one derivative and further results are not run.",
  [S+"fmu_subsystem.py", S+"fmu_system_generator/fmu_functions_wrapper.py", S+"fmu_system_generator/fmu_ast_generator.py"],
  [("call wrappers", S+"fmu_system_generator/fmu_functions_wrapper.py"), ("generated evaluation code", S+"fmu_system_generator/fmu_ast_generator.py"), ("set-up", S+"fmu_subsystem.py")], ["calls into the FMU library"])
p("C30", "The solver's callback contract is fully implemented",
  "Every callback the solver relies on (reading and writing states, derivatives, recording, before and after steps, after events) is implemented and forwards to the running model; each reason for which the solver hands control back is handled. A callback that reports a hand-back reason never reports 'nothing to do' when the recorder is full or external data are exhausted.",
  ["histories", "configurations"], "all solver runs and hand-back reasons",
  "Several hand-back reasons occur only in rare coincidences.",
  ["numerous/engine/simulation/solver_interface.py"],
  [("interface", "solver_interface.py NumerousEngineModelInterface"), ("handler", "solver_interface.py NumerousEngineEventHandler")], ["solver run"])
p("C31", "The compiled model's declared layout matches what it stores",
  "Every field the compiled model assigns is declared with a type in its layout, every declared field that is read is assigned first, and the constructor is called with each value in the position of the parameter it belongs to. The native and Python variants of the compiled model are the same class body.",
  ["configurations"], "all models and both code-generation settings",
  "Fields used only with external data, events or flushes are touched by few tests.",
  [M+"compiled_model.py", M+"model.py"], [("layout table", M+"compiled_model.py numba_model_spec"), ("construction", M+"model.py _generate_compiled_model")], ["simulation"])
p("C32", "CSV data is delivered in order without gaps or repeats between batches",
  "Loading from a chunked CSV file at successive times delivers consecutive rows: nothing is skipped or repeated between the delivered chunks, the delivered window always reaches beyond the requested time if the file does, and asking for an earlier time starts again from the beginning of the file.",
  ["inputs", "histories"], "all files, chunk sizes and request times",
  "Tests use one file and few chunk sizes.", ["numerous/utils/data_loader.py"],
  [("chunk bookkeeping", "numerous/utils/data_loader.py CSVDataLoader")], ["loaded frames"])
p("C33", "Saved results are written to the result file once and completely",
  "A file-backed recorder appends each saved block of results to the file exactly once, writes the header only when the file is created, and keeps all recorded rows. An in-memory recorder sizes its buffer for all output times plus the reserve for events.",
  ["histories", "configurations"], "all sequences of flushes and buffer sizes",
  "No test stores to a file.", ["numerous/utils/historian.py", M+"model.py"],
  [("store", "numerous/utils/historian.py"), ("caller", M+"model.py create_historian_df")], ["result file"])
p("C34", "Bilinear interpolation is exact on grid points and bounded by its cell",
  "The value of a two-dimensional table at a point is the one stored if the point is a grid point. Between grid points it is the bilinear combination of the four corners of the cell around the point (the linear one on a side of the cell), so it lies between their values. Outside the table it is the value at the nearest edge. The table is the one the given index points to. This is meant in exact arithmetic, for positions within the cell that may lie on any of its sides; rounding of the result is not part of it.",
  ["inputs"], "all grids and query points",
  "No test interpolates in two dimensions; the cases are all positions of a point relative to its cell, for tables of any size.", ["numerous/utils/interpolation/bilinear_interpolation.py"],
  [("interpolation", "numerous/utils/interpolation/bilinear_interpolation.py bilinear_interpolation")], ["returned value"])
p("C35", "Simulation results converge to the solution of the user's equations",
  "For a well-posed model the recorded states approach the exact solution of the user's differential equations as tolerances shrink.",
  ["inputs", "programs"], "all models and tolerances",
  "Tests compare a few models with analytic solutions.", ["numerous/engine/simulation/simulation.py"],
  [("integration", "numerous.solver (external)")], ["historian_df"])
p("C36", "A native kernel and a Python kernel return bit-identical derivatives",
  "For equal inputs the two kernels return the same floating point results for all models.",
  ["inputs", "programs"], "all models and inputs", "Infinite inputs.",
  [M+"lowering/llvm_builder.py", M+"lowering/ast_builder.py"], [("kernels", M+"lowering")], ["kernel"])
p("C37", "Cyclic models are detected or solved consistently",
  "A model whose equations depend on each other cyclically is either reported or evaluated to a consistent fixed point.",
  ["programs"], "all cyclic graphs", "Tests have two cyclic models.",
  [M+"graph_representation/graph.py"], [("cycle handling", M+"graph_representation/graph.py topological_nodes")], ["kernel"])
p("C38", "What an equation declares arrives in its namespace",
  "Every variable an equation declares (a state with its derivative, a parameter, a constant) exists under its tag in every namespace the equation is added to, with the declared type, initial value, alias and logger level. Every method marked as an equation belongs to the equations of the namespace and calling it calls the user's function. A namespace may hold several equations, each with variables of its own.",
  ["programs"], "all equation classes and namespaces a user can write",
  "Tests declare a few dozen variables, most of them with default arguments, one equation per namespace; a swapped argument or a lost declaration shows only for the declarations that use it.",
  ["numerous/multiphysics/equation_base.py", "numerous/multiphysics/equation_decorators.py", S+"namespace.py", "numerous/engine/variables.py"],
  [("declaring", "numerous/multiphysics/equation_base.py EquationBase.add_*"), ("marking equation methods", "numerous/multiphysics/equation_decorators.py Equation.__call__"),
   ("creating the variables", S+"namespace.py VariableNamespaceBase.add_equation, create_variable_from_desc")], ["Variable objects of the namespace"])
p("C39", "A recorded row belongs to one moment",
  "All values of a recorded row belong to the time of the row: before a row is recorded, at the start, at an output time and after a state or time event, the derivatives and all other computed variables are evaluated for the states, parameters and external data the model has at that moment. No row mixes values from before and after an event or from a trial step of the solver.",
  ["schedules"], "all models, solvers, output times and events",
  "Tests compare states, or rows far away from events; the values of a row that come from another evaluation differ only where an event or a trial step lies in between.",
  ["numerous/engine/simulation/solver_interface.py", "numerous/engine/model/compiled_model.py"],
  [("recording", "numerous/engine/simulation/solver_interface.py NumerousEngineModelInterface.historian_update, post_state_event, post_time_event"),
   ("evaluation", "numerous/engine/model/compiled_model.py CompiledModel.func")], ["Historian rows"])
p("C40", "Lookups in the hierarchy find exactly what was registered",
  "Looking up an item by its path or its tag, a namespace, a port or a variable by its key returns exactly the object that was registered under that name at that place, or reports that there is none; every item, subsystem and namespace has its own registry. The path of a variable in the hierarchy names the namespace and the subsystems on the way to it. Asking whether all bindings are fulfilled answers yes exactly if an item is bound to every binding of every connector.",
  ["programs"], "all hierarchies of items, all paths and delimiters",
  "Tests look up a few items one or two levels deep with the default delimiter, in hierarchies whose tags are all different.",
  [S+"item_path.py", S+"subsystem.py", S+"item.py", S+"namespace.py", S+"connector.py", S+"binding.py", "numerous/engine/model/model.py"],
  [("paths", S+"item_path.py ItemPath; "+S+"subsystem.py Subsystem.get_item, "+S+"item.py Item.get_item"),
   ("registries", "numerous/utils/dict_wrapper.py _DictWrapper; "+S+"subsystem.py Subsystem.register_items, add_port"),
   ("bindings", "numerous/engine/model/model.py Model.validate_bindings; "+S+"connector.py Connector.get_binded_items")], ["return values of the lookups"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
