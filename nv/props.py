"""The properties; `python3 nv/manifest.py` writes properties.jsonl and MANIFEST.json from this file."""
TECH = 'runtime monitoring: reference-model oracle over executions of generated and hostile systems'
M = 'numerous/engine/model/'
NOT_APPLICABLE = {}
PROPS = [
 dict(id='C01', title='A compiled equation computes what its Python source computes',
  statement='For every equation the engine accepts, one evaluation of the assembled model gives every variable the equation assigns the value '
            'that running the same source as ordinary Python on the current variable values would give: operator precedence, conditionals '
            '(if/elif/else, nested, conditional expressions, chained comparisons), tuple and augmented assignments, locals, lists, calls to '
            'registered functions and global variables included. This holds for every instance of every item at any depth, for repeated '
            'evaluations, and for both code generators (interpreted AST and LLVM).',
  over=['programs', 'inputs', 'configurations'],
  forall='every accepted equation source, every number and nesting of items using it, every state and global value, both back ends',
  why='equations are re-parsed, turned into graphs, merged, rewritten and regenerated; the tests check a few dozen fixed sources at one or two points each',
  files=[M + 'ast_parser/parser_ast.py', M + 'ast_parser/ast_visitor.py', M + 'ast_parser/equation_from_graph.py', M + 'lowering/equations_generator.py',
         M + 'lowering/ast_builder.py', M + 'lowering/llvm_builder.py', M + 'graph_representation/mappings_graph.py', 'numerous/multiphysics/equation_decorators.py'],
  mech=[('source to graph', M + 'ast_parser/ast_visitor.py'), ('graph to function', M + 'ast_parser/equation_from_graph.py'),
        ('kernel generation', M + 'lowering/equations_generator.py')],
  note='Held on every generated and hand-written program run: about 730 per quick run, 12000 per thorough run, each evaluated at several points and compared variable by variable with Python running the same source. Trusts the plain-Python reference in nv/gen.py and floating-point equality to 1e-9.'),
 dict(id='C02', title='A mapped variable always has the current value of its source',
  statement='After every evaluation of the model, and in every recorded time step of a simulation after the first, a variable mapped to another variable '
            'has exactly the value its source has, whatever the length of the mapping chain, the number of targets of one source, the depth and '
            'class of the items on both sides, and the order in which items are registered and mappings declared. The source value is the '
            'one computed in the same evaluation, never that of an earlier one.',
  over=['programs', 'inputs', 'histories'],
  forall='every acyclic mapping graph between items, namespaces and subsystems, every registration and declaration order, every state',
  why='execution order is derived from a graph built from mappings and equations; the tests use a handful of two- or three-item systems in one order',
  files=[M + 'graph_representation/mappings_graph.py', M + 'graph_representation/graph.py', M + 'lowering/equations_generator.py', M + 'model.py',
         'numerous/engine/variables.py', 'numerous/engine/system/namespace.py'],
  mech=[('mapping declaration', 'numerous/engine/system/namespace.py'), ('topological ordering', M + 'graph_representation/graph.py'),
        ('mapping code', M + 'lowering/equations_generator.py')],
  note='Held on the systems run (about 600 per quick run): target and source compared exactly after every evaluation and in the recorded rows of simulations, and both against the reference value.'),
 dict(id='C03', title='A summation target is exactly the sum of its contributions',
  statement='A variable given contributions with += has after every evaluation exactly the sum of the current values of all of them, each counted as '
            'often as it was added, plus the value its own equation assigns to it if there is one. Nothing accumulates from one evaluation to the next, '
            'the initial value is not a contribution, and this holds for parameters and derivatives, for sums of sums, for any number of '
            'contributions and for both code generators.',
  over=['programs', 'inputs', 'histories'],
  forall='every set of summation mappings over acyclic systems, every number of repeated evaluations',
  why='sums are rewritten with temporary variables and merged into equation calls; tests fix two or three contributions',
  files=[M + 'graph_representation/mappings_graph.py', M + 'lowering/equations_generator.py', M + 'model.py', 'numerous/engine/variables.py'],
  mech=[('sum declaration', 'numerous/engine/variables.py'), ('own equation value kept in a temporary', M + 'graph_representation/mappings_graph.py'),
        ('sum code', M + 'lowering/equations_generator.py')],
  note='Held on the systems run (about 600 per quick run): every target compared with the sum of the observed sources and with the reference.'),
 dict(id='C04', title='Simulated trajectories solve the declared differential equations',
  statement='For a system whose right-hand sides are smooth, the states recorded by Simulation at every requested time are the solution of the declared '
            'differential equations from the declared initial values, within the accuracy of the chosen method, however the equations are spread '
            'over items, namespaces, mappings and summations, and whatever the start time. The recorded derivatives are those of the recorded states.',
  over=['programs', 'inputs', 'configurations'],
  forall='every accepted system with smooth right-hand sides, every initial value, start time, number of output times and integration method',
  why='a state wired to the derivative of another, a stale intermediate or a shifted time gives plausible trajectories; tests compare a few closed forms',
  files=[M + 'model.py', M + 'compiled_model.py', 'numerous/engine/simulation/solver_interface.py', 'numerous/engine/simulation/simulation.py'],
  mech=[('states to derivatives', M + 'model.py'), ('one evaluation', M + 'compiled_model.py'), ('solver glue', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the simulations run (about 270 per quick run, 4000 per thorough run), compared with an independent integration by scipy of the same source run as Python, and with closed forms.'),
 dict(id='C05', title='The interpreted and the LLVM code generators agree',
  statement='For the same system and the same states, parameters and global variables, the model built with the LLVM code generator and the one '
            'built with the interpreted code generator expose the same variables and give them the same values, and return the same derivatives for '
            'the same states, evaluation after evaluation and over a whole simulated trajectory. Writing one variable through either changes that '
            'variable and no other, and reading it back gives the value written.',
  over=['programs', 'inputs', 'configurations'],
  forall='every accepted system, every state vector and global value, every sequence of evaluations and single-variable writes',
  why='two independent lowerings of the same graph; the tests that run both compare a few systems and most use only one',
  files=[M + 'lowering/llvm_builder.py', M + 'lowering/ast_builder.py', M + 'lowering/equations_generator.py', M + 'model.py'],
  mech=[('LLVM lowering', M + 'lowering/llvm_builder.py'), ('AST lowering', M + 'lowering/ast_builder.py')],
  note='Held on the pairs run (260 per quick run, 4000 per thorough run). The LLVM kernel is driven through the Python solver, as the jitted solver does not build with the installed numba.'),
 dict(id='C06', title='A set of items computes what the same items compute one by one',
  statement='Registering items as a set (ItemsStructure.SET) changes how they are computed, not what: every variable of every item of the set has after each evaluation the value its equations and mappings give that item alone, '
            'with mappings and sums from, into, within and between sets, whole, partial or permuted. Items inside items of the set, several sets of one class, states, functions and global variables are included, '
            'and events of the items happen as they do in a list of items, with both code generators.',
  over=['programs', 'inputs', 'configurations'],
  forall='every class of items, size and number of sets, and acyclic mapping of members, for every state and both back ends',
  why='sets share one call, combined variables and an index of mappings; the tests map a few sets one way, and mistakes show only for certain sizes, orders, partial mappings or second sets',
  files=[M + 'lowering/equations_generator.py', M + 'graph_representation/mappings_graph.py', M + 'ast_parser/parser_ast.py', M + 'model.py',
         'numerous/engine/system/subsystem.py', 'numerous/engine/system/namespace.py', 'numerous/engine/variables.py'],
  mech=[('sets', 'numerous/engine/system/subsystem.py'), ('calls and mappings of sets', M + 'lowering/equations_generator.py')],
  note='Held on the systems run (about 1500 per quick run, 8000 per thorough run): all variables compared with the equations of every single item run by Python, and with the list of the same items for events.'),
 dict(id='C07', title='The history has every requested time once, each row evaluated there',
  statement='After solve the history has exactly one row for each requested time, in increasing order (plus one for each internal event), and in every '
            'row all variables - states, derivatives, parameters, mapped and summed ones and those that depend on time or global variables - have the values the '
            'equations give at the time and the states of that very row. This holds for systems without states, for values that are NaN or '
            'infinite, after a second solve and after a reset.',
  over=['programs', 'inputs', 'configurations', 'histories'],
  forall='every accepted system, integration method, start time, number of output times and number of runs',
  why='solver stages, interpolation and buffer handling decide what a row shows; tests look at states or at the last row',
  files=[M + 'model.py', M + 'compiled_model.py', 'numerous/engine/simulation/solver_interface.py', M + 'aliased_dataframe.py', 'numerous/utils/historian.py'],
  mech=[('history buffer', M + 'compiled_model.py'), ('history frame', M + 'model.py'), ('when a row is recorded', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the histories checked (about 260 per quick run); every row of every variable compared with the reference evaluated at the states recorded in that row.'),
 dict(id='C08', title='Bounded and file-backed histories hold exactly the unbounded rows',
  statement='With a historian that keeps only a limited number of rows in memory, or writes them to a file, the rows obtained altogether are those an '
            'unbounded historian records for the same simulation: none lost, none twice, same order, same values, whatever the size of the buffer, the number of '
            'rows, the way the simulation is driven (solve, steps, with events) and whether the file is appended to.',
  over=['inputs', 'histories', 'configurations'],
  forall='every buffer size from one row up, every number of rows relative to it, every driver',
  why='loss or repetition appears only at certain relations of buffer size and number of rows; tests use one or two sizes',
  files=['numerous/utils/historian.py', M + 'compiled_model.py', M + 'model.py', 'numerous/engine/simulation/solver_interface.py'],
  mech=[('historian', 'numerous/utils/historian.py'), ('store when full', M + 'compiled_model.py'), ('append to the history', M + 'model.py')],
  note='Held on the pairs of runs compared row by row (180 per quick run, 3000 per thorough run).'),
 dict(id='C09', title='Variables mapped to external data follow their table',
  statement='In every recorded row a variable mapped to a column of a table has the value of that column at the time of the row: interpolated linearly or held '
            'from the last table row, as requested for that variable, with the time multiplier and start row of its table. Everything computed from it uses that value, variables not '
            'mapped keep theirs, and this holds for several tables, for names that contain each other, from the first row on, after resets, for simulations that '
            'start late and for mappings set after the model was built.',
  over=['inputs', 'programs', 'configurations', 'histories'],
  forall='every table, column, interpolation type, multiplier, start row, set of mapped variables, start time and driver',
  why='the tests map few variables of one table from time 0; mixed tables, types, names, zero values and resets are not sampled',
  files=['numerous/engine/system/external_mappings/external_mappings.py', M + 'compiled_model.py', M + 'model.py', 'numerous/engine/simulation/simulation.py',
         'numerous/engine/simulation/solver_interface.py'],
  mech=[('table to arrays', 'numerous/engine/system/external_mappings/external_mappings.py'), ('interpolation', M + 'compiled_model.py')],
  note='Held on the simulations run (200 per quick run, 3000 per thorough run); every row of every mapped, derived and unmapped variable compared with the tables.'),
 dict(id='C10', title='External data loaded in batches act as the whole table would',
  statement='Whatever the chunk size of a CSV loader, or the window a custom loader returns, every recorded row has the values the whole table gives, for several files or '
            'one file used by several mappings, after resets, second runs and for a loader used by another model before. A simulation that stays within the data '
            'never fails for lack of data, and one that runs beyond them ends with the error that says so after recording correct rows.',
  over=['inputs', 'configurations', 'histories'],
  forall='every chunk size, table length, column order, number of files, sequence of runs, start and stop time',
  why='batch boundaries meet solver steps, recorded times and resets in ways a fixed test does not; tests use chunks of one row or one chunk of one file',
  files=['numerous/utils/data_loader.py', 'numerous/engine/system/external_mappings/external_mappings.py', 'numerous/engine/simulation/solver_interface.py',
         'numerous/engine/simulation/simulation.py', M + 'compiled_model.py'],
  mech=[('chunks of a file', 'numerous/utils/data_loader.py'), ('next batch', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the simulations run (200 per quick run, 2500 per thorough run), each with up to dozens of batches.'),
 dict(id='C11', title='State events fire once at every crossing of their condition',
  statement='The action of a state event runs exactly once for every zero crossing of its condition in the declared direction (both without one), at the time of the crossing, and '
            'never otherwise, whether the condition uses states, variables computed by equations, parameters or branches, belongs to the model or an item, and is internal or external. '
            'Rows before a crossing do not show the action, rows after it do, and this holds for several events, steps and resets.',
  over=['inputs', 'programs', 'configurations', 'histories'],
  forall='every condition with crossings that are not closer than the solver step, every direction, number of events, owner of the event and driver',
  why='the tests have a bouncing ball; wrong indices, stale variables, lost directions or lost events show only for other layouts, conditions and runs',
  files=[M + 'events.py', M + 'model.py', 'numerous/engine/simulation/solver_interface.py', 'numerous/engine/numerous_event.py', 'numerous/engine/system/item.py'],
  mech=[('condition functions', M + 'events.py'), ('evaluation at trial states', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the simulations run (220 per quick run, 3000 per thorough run); crossing times come from closed-form solutions. Conditions with an explicit time term are out of scope: the solver package refires them.'),
 dict(id='C12', title='Time events fire once at each of their times, and only there',
  statement='The action of an event with timestamps runs exactly once at each timestamp within the simulated time, the action of a periodic event once at each multiple of its period, and neither at any '
            'other time, at whatever recorded times, in whatever order timestamps are given, internal or external, alone or together with other events. '
            'The action of an internal event gets its own recorded row, and resets, steps and late starts do not change the times.',
  over=['inputs', 'programs', 'configurations', 'histories'],
  forall='every set of timestamps and periods, start and stop time, grid of recorded times, mix of internal and external events and driver',
  why='the tests use one event with sorted times from time 0; skipped, repeated and early firing depend on other events, breaks of the solver loop and the start',
  files=['numerous/engine/numerous_event.py', 'numerous/engine/simulation/solver_interface.py', 'numerous/engine/simulation/simulation.py', M + 'model.py', 'numerous/engine/system/item.py'],
  mech=[('timestamps', 'numerous/engine/numerous_event.py'), ('next time of an event', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the simulations run (240 per quick run, 3000 per thorough run): counters, times and sums of times written by actions compared with the declared times in every row.'),
 dict(id='C13', title='Event actions change what their code says, and nothing else',
  statement='When an event fires, its action works like the same Python code on the variables of that time: it reads states, parameters and computed variables as they are then, reads its own writes, addresses items '
            'by the names relative to its owner, and writes exactly the variables it names. Computed variables follow at once, later events and rows see the changes, and everything else is untouched, for '
            'internal and external, item and model events, simultaneous or not, with branches, loops, closures and names held in variables.',
  over=['inputs', 'programs', 'configurations', 'histories'],
  forall='every action code in the supported language, set of events, owner of the events, layout of items and driver',
  why='the tests have actions of one or two lines; wrong variable indices, stale values, lost or extra writes depend on names, layouts, orders and values',
  files=[M + 'events.py', M + 'model.py', 'numerous/engine/simulation/solver_interface.py', 'numerous/engine/numerous_event.py', 'numerous/engine/system/item.py'],
  mech=[('names to indices', M + 'events.py'), ('running actions', 'numerous/engine/simulation/solver_interface.py')],
  note='Held on the simulations run (260 per quick run, 3500 per thorough run): every variable of every row compared with the action code run by Python on closed-form states.'),
 dict(id='C14', title='Reset and new simulations repeat the first run, whatever happened before',
  statement='After Simulation.reset, or in a new Simulation of the same model, all variables have their initial values and the history is empty, and the run repeats the first one row by row, with the same calls of event actions. '
            'It does not matter what happened before: other runs, single steps, writes to variables, simulations of other times, or runs ended by an error. A model built anew gives the same rows.',
  over=['inputs', 'configurations', 'histories', 'crash points'],
  forall='every system, method, set of events and sequence of earlier runs, steps, writes and aborted runs',
  why='state can survive in the kernel, the model, the events, the historian or the solver, and only certain sequences show it; the tests reset once after a plain run',
  files=['numerous/engine/simulation/simulation.py', M + 'model.py', M + 'compiled_model.py', 'numerous/engine/simulation/solver_interface.py'],
  mech=[('reset', 'numerous/engine/simulation/simulation.py'), ('initial values', M + 'model.py')],
  note='Held on the histories run (200 per quick run, 3000 per thorough run), comparing every row with the first run. Variables updated from their own previous evaluation are out of scope, their values depend on the number of evaluations.'),
 dict(id='C15', title='A simulation driven by single steps is the simulation, with writes in between',
  statement='Each step_solve starts at the states the last one ended with, honours every value written since to parameters, constants or states by any of the ways to write, ends at the time asked for, and leaves all variables '
            'evaluated there. The steps record each end once, sizes may vary, go beyond the declared end or outnumber the declared rows, and steps without writes give what solve gives.',
  over=['inputs', 'configurations', 'histories'],
  forall='every system, method, sequence of step sizes and writes between steps',
  why='the tests drive one system with equal steps and no writes; lost or late writes and stale values depend on which variable is written, how and when',
  files=['numerous/engine/simulation/simulation.py', M + 'model.py', M + 'compiled_model.py', 'numerous/engine/simulation/solver_interface.py', 'numerous/engine/variables.py'],
  mech=[('steps', 'numerous/engine/simulation/simulation.py'), ('writes', 'numerous/engine/variables.py')],
  note='Held on the histories run (220 per quick run, 3500 per thorough run): states after each step compared with an independent integration from the written values, all other variables with Python.'),
 dict(id='C16', title='Models and simulations side by side do not influence each other',
  statement='Building, evaluating, writing, stepping, solving and resetting models in any interleaved order shows for each of them exactly what the same operations on that model alone, in a process of its own, show: values, '
            'history rows and the set of variables. This holds for models of the same classes, tags and names, with Python or LLVM kernels, event functions, external data, global variables and default arguments.',
  over=['inputs', 'configurations', 'histories', 'interleavings'],
  forall='every set of models in one process and interleaving of the operations on them',
  why='the engine keeps classes, generated functions, symbols, registries and default arguments shared by models; the tests never operate two models in turns',
  files=[M + 'model.py', M + 'compiled_model.py', M + 'lowering/llvm_builder.py', 'numerous/engine/system/item.py', 'numerous/utils/historian.py', 'numerous/engine/simulation/simulation.py'],
  mech=[('building kernels', M + 'model.py'), ('kernels', M + 'compiled_model.py')],
  note='Held on the interleavings run (120 per quick run, 2000 per thorough run), comparing every shown value with a run of that model alone in a forked process.'),
 dict(id='C17', title='Every variable has its path from the root, and every path its variable',
  statement='Each variable of the system has one column, key and value under its path through the hierarchy, whatever the order items are registered in, how deep they lie, or how tags, namespaces and names repeat or prefix one another. '
            'Every path or alias finds that variable and no other for reading, writing, lookups, external mappings and logging: the recorded columns are exactly those of the logger level. '
            'An item in two subsystems is found by all its paths.',
  over=['programs', 'inputs', 'configurations'],
  forall='every hierarchy of items and subsystems, tags, namespaces, variable names, aliases, logger levels and order of registration',
  why='paths are strings extended while items are registered; the tests register bottom-up with distinct names, other orders and repeated names show lost or exchanged variables',
  files=['numerous/engine/variables.py', 'numerous/engine/system/subsystem.py', 'numerous/engine/system/item.py', M + 'model.py', 'numerous/utils/logger_levels.py'],
  mech=[('paths', 'numerous/engine/variables.py'), ('registration', 'numerous/engine/system/subsystem.py'), ('aliases and logged variables', M + 'model.py')],
  note='Held on the hierarchies run (220 per quick run, 4000 per thorough run): every variable has a value of its own, and all ways to find it are compared with the hierarchy.'),
 dict(id='C19', title='Connectors join exactly the items bound to them',
  statement='In a network of items joined by connectors, every mapping or sum made to or from a binding acts on the item bound to it, and only on that: values are those of the network with the items in place of the bindings. '
            'This holds for all kinds of connectors and ports, for mappings made before or after binding, binding by method or assignment, shared or set items, chains and nesting. '
            'Unknown bindings, second items for one binding and missing variables are refused.',
  over=['programs', 'inputs', 'configurations'],
  forall='every network of connectors and items without algebraic loops, kind of connector, order of binding, mapping and registration',
  why='bindings are stand-ins replaced while items are bound, in each mapping and namespace; a missed one silently keeps the stand-in or another item; the tests wire few networks in one order',
  files=['numerous/engine/system/connector.py', 'numerous/engine/system/connector_item.py', 'numerous/engine/system/binding.py', 'numerous/engine/system/namespace.py', 'numerous/engine/system/subsystem.py', M + 'model.py'],
  mech=[('replacing bindings', 'numerous/engine/system/connector.py'), ('bindings', 'numerous/engine/system/binding.py'), ('ports', 'numerous/engine/system/subsystem.py')],
  note='Held on the networks run (220 per quick run, 4000 per thorough run), each compared with the network computed in plain Python.'),
 dict(id='C18', title='What the engine cannot translate or connect it refuses',
  statement='An equation with a statement or expression outside the supported language, anywhere in its body, is refused, or it computes what Python computes; no statement is skipped or run where Python would not run it. '
            'A malformed system is refused: self-mappings, sources outside the system, equal tags, items in two or mixed sets, unknown variables, columns or globals, values that are no numbers. '
            'The same system without the flaw is accepted.',
  over=['programs', 'inputs', 'configurations'],
  forall='every Python statement and expression in an equation, at every place in it, every structural flaw in every system, and both code generators',
  why='a construct the translators do not know is silently dropped unless something refuses it, and the model then computes plausible numbers; the tests check four constructs',
  files=[M + 'ast_parser/ast_visitor.py', M + 'ast_parser/parser_ast.py', 'numerous/engine/system/subsystem.py', 'numerous/engine/system/item.py', 'numerous/engine/system/namespace.py', 'numerous/engine/variables.py', M + 'events.py'],
  mech=[('unsupported statements', M + 'ast_parser/ast_visitor.py'), ('registration', 'numerous/engine/system/subsystem.py'), ('values and mappings', 'numerous/engine/variables.py')],
  note='Held on the systems run (333 per quick run, 6800 per thorough run): about 115 constructs at four places and 35 flaws, each beside its twin without the flaw.'),
 dict(id='C20', title='Hooks of subsystems run when they are due, with the values of that moment',
  statement='The functions a subsystem names in run_after_solve are each called exactly once after every solve, when the history is complete, and those named in post_step exactly once after every accepted solver step, with '
            'the values of that step. The calls are in the order of the hierarchy and of the names, for every subsystem however deep or in a set. '
            'Functions that write nothing change no result.',
  over=['programs', 'configurations', 'histories'],
  forall='every hierarchy of subsystems with hooks, solver method, number of output points, and sequence of solves, resets and steps',
  why='hooks are called from the solver loop and after it; the tests have one subsystem with one hook that is solved once',
  files=['numerous/engine/system/subsystem.py', 'numerous/engine/simulation/simulation.py', 'numerous/engine/simulation/solver_interface.py', M + 'compiled_model.py'],
  mech=[('post-step hooks', 'numerous/engine/simulation/solver_interface.py'), ('after-solve hooks', 'numerous/engine/simulation/simulation.py')],
  note='Held on the simulations run, each hook call logged with the values it saw and compared with the history and with the same simulation without hooks.'),
 dict(id='C21', title='Clones and reloaded models are the model they were made of, and independent',
  statement='A clone of a model, or a model loaded from the file it was exported to, has the same variables, paths, aliases, states, initial values, global variables and events, and computes the same values for all inputs. '
            'Writing, evaluating or solving one of them changes none of the others.',
  over=['programs', 'inputs', 'histories', 'configurations'],
  forall='every system, chain of clones and reloads (in the same or a fresh process), and sequence of operations on them',
  why='clones share the items, loaded models rebuild everything from a pickle; the tests compare two states of one model without events or globals',
  files=[M + 'model.py', M + 'lowering/llvm_builder.py', M + 'lowering/equations_generator.py', 'numerous/engine/model/utils.py'],
  mech=[('cloning and export', M + 'model.py'), ('saved code', M + 'lowering/llvm_builder.py')],
  note='Held on the models run, compared value by value and row by row with a model built from the same source alone in a process of its own; LLVM kernels are run from the Python solver here.'),
 dict(id='C22', title='Imported functions and tables compute in equations what they compute in Python',
  statement='A compiled function imported into a model, by itself or with a table, gives in equations, event conditions and actions what Python computes with it, for every argument, name and module, and a missing one is refused. '
            'Models with imports of the same name do not share them. '
            'Bilinear interpolation gives the interpolating surface, with the table values at its grid points.',
  over=['programs', 'inputs', 'configurations'],
  forall='every imported function, alias, table and place of use, and every grid and point of bilinear interpolation',
  why='imports are written into generated modules by name, and a table look-up has edge cases at every grid line; the tests use one function and one table at interior points',
  files=[M + 'utils.py', M + 'model.py', M + 'lowering/utils.py', M + 'lowering/llvm_builder.py', M + 'ast_parser/equation_from_graph.py', M + 'events.py', 'numerous/utils/interpolation/bilinear_interpolation.py'],
  mech=[('imports', M + 'utils.py'), ('events', M + 'events.py'), ('interpolation', 'numerous/utils/interpolation/bilinear_interpolation.py')],
  note='Held on the systems run (150 per quick run), each compared with the same functions called in plain Python.'),
 dict(id='C23', title='However variables and equations are declared, the system is the one declared',
  statement='The variables of a namespace have the types, initial values and aliases of their declarations, and its equations compute what their Python source does, in the order their values need. '
            'This is so for methods, inherited or overridden methods, host functions, inline sources, integrated parameters, several or shared equation objects, repeated declarations (constant < parameter < state) and every layout of the source.',
  over=['programs', 'configurations'], forall='every set of variables and equations, and every mixture of forms of declaring them',
  why='declarations are collected from classes, objects and source text; the tests use a method of a class, declared once, laid out in one way',
  files=['numerous/multiphysics/equation_base.py', 'numerous/multiphysics/equation_decorators.py', 'numerous/engine/system/namespace.py', 'numerous/engine/variables.py', 'numerous/engine/model/ast_parser/parser_ast.py'],
  mech=[('collection of equations', 'numerous/multiphysics/equation_base.py'), ('equations from source', 'numerous/engine/model/ast_parser/parser_ast.py'), ('variables of a namespace', 'numerous/engine/system/namespace.py')],
  note='Held on the systems run (240 per quick run), each compared with the same equations run as Python.'),
]
