#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 spec.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique='', note='', na=''):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    P.append(dict(row={'id': id, 'title': title, 'statement': statement,
                       'quantifier': {'over': list(over), 'text': qtext},
                       'why_tests_cant': why, 'anchors': anchors},
                  technique=technique, note=note, na=na))


prop('C02', 'Non-matches and lookarounds consume nothing; no parser moves backwards',
     'A parser that does not match leaves the reading position exactly where it was called, and a lookahead or '
     'lookbehind leaves it there even when it matches. A parser that matches never reports an end position in '
     'front of the position it started from.',
     ['inputs', 'programs'],
     'every grammar built from the parser classes of the package, every document, every position, with or '
     'without memoisation, tracing, left recursion and error resumption',
     'The tests parse a fixed set of small documents; a combinator that leaks a moved position does so only for '
     'a particular nesting of optional, repeated and failing parts that no test happens to contain.',
     ['DHParser/parse.py', 'DHParser/trace.py'],
     [('matching routines of all parser classes', 'parse.py:*._parse'),
      ('common guard incl. memoising and error catching', 'parse.py:Parser.__call__'),
      ('tracing proxy', 'trace.py:trace_history')],
     observe=['end position and text of every result tree', 'errors "Parser stopped before end"'],
     technique='abstract interpretation over a domain of order facts between reading positions (assume-guarantee '
               'per parser class)',
     note='All paths of every matching routine of the package, to a fixpoint, under the assumption that called '
          'sub-parsers keep the same contract (induction over call depth). Custom parse functions are outside.')

prop('C03', 'Parsing terminates: every repetition and retry makes progress',
     'Parsing any finite document with any grammar comes to an end. Repetitions stop when their content matched '
     'without consuming text, left-recursive symbols re-enter at the same position only a bounded, strictly '
     'decreasing number of times, and the driver that resumes after a stop moves forward or gives up each time.',
     ['inputs', 'programs'],
     'every grammar built from the parser classes of the package and every document, including grammars that '
     'repeat parsers matching the empty string and grammars with direct or indirect left recursion',
     'A missing-progress bug shows up only for the particular grammar that repeats an empty match at that '
     'combinator; the tests contain a handful of such grammars, and an endless loop cannot be "sampled" away.',
     ['DHParser/parse.py'],
     [('loops of the repeating parsers', 'parse.py:ZeroOrMore/OneOrMore/Counted/Interleave._parse'),
      ('left-recursion counters', 'parse.py:Forward.__call__, Ref.__call__'),
      ('driver loop', 'parse.py:Grammar.__call__')],
     technique='abstract interpretation: loop-progress (ranking by reading position) and counter typestate',
     note='Termination modulo the induction over call depth; regular-expression engines and user functions are '
          'assumed to terminate; recursion without left-recursion support ends in the interpreter\'s limit.')

prop('C04', 'A grammar object can be reused; instances of a grammar do not affect each other',
     'Parsing a document with a grammar object that has been used before - for other documents, with other start '
     'parsers, after errors or a cancellation, or by the static analysis - yields the same tree and the same errors '
     'as parsing it with a new object of the same grammar. All state that a parse leaves in the grammar object or '
     'its parsers (memoised results, variables, counters, rollback and history data) is renewed before the next '
     'parse, and creating or using one instance of a grammar class does not change another instance.',
     ['inputs', 'histories', 'programs'],
     'every sequence of documents and start parsers given to a grammar object, and every grammar class',
     'The tests parse with fresh objects or repeat one document; state that survives becomes visible only for a '
     'particular pair of successive documents.',
     ['DHParser/parse.py', 'DHParser/trace.py'],
     [('reset of the grammar object', 'parse.py:Grammar._reset__'), ('reset of parsers', 'parse.py:*.reset'),
      ('driver', 'parse.py:Grammar.__call__'), ('construction of instances', 'parse.py:Grammar.__init__')],
     technique='side-effect analysis (writes reachable from a parse vs. must-assigned by the reset routines) and '
               'typestate of the driver',
     note='All functions reachable from a parse, all 39 parser classes. Structural caches that depend on the grammar '
          'only are an audited list. Two known findings.')

prop('C24', 'Deep copies of parsers, grammars and trees are complete and independent',
     'A deep copy of a parser, a grammar object or a syntax tree behaves like the original: everything the '
     'constructor was given, every setting and everything that was attached afterwards (names, positions, '
     'attributes, errors, stage, dropping and tree-reduction flags) is taken over. The copy does not share '
     'containers, sub-parsers or child nodes with the original, so that changing one does not change the other, and '
     'a parser that is referred to from several places in the original is still one parser in the copy.',
     ['inputs', 'programs'],
     'every object of a class of the package with a copy routine of its own, in whatever state it is',
     'A forgotten attribute only matters for objects that do not have the default value there and only after the '
     'copy is used; the tests copy a few objects.',
     ['DHParser/parse.py', 'DHParser/nodetree.py', 'DHParser/ebnf.py'],
     [('copy routines', 'parse.py, nodetree.py: __deepcopy__'),
      ('shared helpers', 'parse.py:copy_parser_base_attrs, copy_combined_parser_attrs')],
     technique='attribute-flow analysis (symbolic interpretation of copy routines with constructors inlined, checked '
               'against the attribute dependencies of the constructors)',
     note='All 45 classes that use one of the copy routines. Caches and back references are an audited list.')

prop('C25', 'Temporarily changed settings are restored however the operation ends',
     'A function that changes a setting of its surroundings for its own purposes - configuration values, opened '
     'configuration presets, logging that is switched over or suspended, the working directory, the import path, '
     'the tracking flags of a grammar object - has put the previous value back when it is left, no matter whether '
     'it returns normally, early, or with an exception.',
     ['faults', 'histories', 'inputs'],
     'every function of the package that changes such a setting other than as its documented purpose, and every '
     'way through it, exceptions at any call included',
     'An exception has to be raised at one particular call to see the setting stay changed, and then only in what '
     'runs afterwards; the tests do not inject exceptions.',
     ['DHParser/configuration.py', 'DHParser/log.py', 'DHParser/dsl.py', 'DHParser/testing.py', 'DHParser/ebnf.py',
      'DHParser/parse.py', 'DHParser/trace.py', 'DHParser/nodetree.py', 'DHParser/server.py'],
     [('presets protocol', 'configuration.py:access_presets, finalize_presets'),
      ('logging context managers', 'log.py:local_log_dir'),
      ('compilation of grammars', 'dsl.py:grammar_provider, compileDSL'),
      ('test runner', 'testing.py:grammar_unit, runner, run_path')],
     technique='path-sensitive typestate analysis with exceptional paths (save / change / restore per resource)',
     note='All functions of DHParser/*.py that change one of the resources. One known finding.')

prop('C08', 'Reading, searching, comparing and serialising a tree does not change it',
     'Queries on a tree or path (content, selection, navigation, comparison, attribute and error look-up) and all '
     'serialisations (S-expression, SXML, XML, HTML, JSON, unist, ElementTree, indented tree), with whatever options, '
     'leave the tree as it is: names, content, children, attributes, positions and recorded errors of all its nodes, '
     'and the paths, node lists and mappings passed to them.',
     ['inputs', 'histories'],
     'every tree, every reading function of the node classes, the path functions, the content mapping and the '
     'predicates of the transformation module, every combination of options',
     'The tests compare the result of a reading function and throw the tree away; a change to the tree becomes visible '
     'only for particular node shapes and options, and only to whoever uses the tree afterwards.',
     ['DHParser/nodetree.py', 'DHParser/transform.py'],
     [('serialisers', 'nodetree.py:Node._tree_repr, as_sxpr, as_xml, to_json_obj, as_etree'),
      ('selection and navigation', 'nodetree.py:Node.select_if, select_path_if, prev_path, next_path'),
      ('content mapping', 'nodetree.py:ContentMapping')],
     technique='side-effect (mod) analysis: access-path summaries over the whole package, closures and function '
               'arguments included',
     note='171 reading functions. Converting leaf text to str in place and the lazy creation of an empty attribute '
          'dictionary are not counted as changes. Match functions passed by the user are outside.')

prop('C23', 'Lists, dictionaries and sets passed by the caller are left alone',
     'No public function or method changes a list, dictionary or set that is passed to it as an argument, and no object '
     'later changes one it was constructed with, unless handing back a result through the argument or changing it in '
     'place is the documented purpose.',
     ['inputs', 'histories'],
     'every public function of the package and every container argument',
     'The tests pass literals that are not looked at afterwards; the damage shows when the caller uses the same '
     'container for a second call.',
     ['DHParser/nodetree.py', 'DHParser/pipeline.py', 'DHParser/server.py', 'DHParser/transform.py',
      'DHParser/toolkit.py', 'DHParser/ebnf.py', 'DHParser/dsl.py', 'DHParser/error.py'],
     [('markup', 'nodetree.py:ContentMapping'), ('junctions and stages', 'pipeline.py:connection, run_pipeline'),
      ('procedure table', 'server.py:Server.__init__')],
     technique='side-effect (mod) analysis with access-path summaries; escape of constructor arguments',
     note='All public functions present in the pinned tree (checks/api.txt); 16 audited parameters. Trees and paths '
          'given to transformations are meant to be changed and are outside.')

prop('C27', 'Opened files, connections and worker pools are released in every case',
     'A function that opens a file, connects to a server, creates an event loop or a pool of workers, or acquires a '
     'lock, has closed, shut down or released it again when it is left - normally, early or by an exception - unless it '
     'hands it over to its caller. If an object keeps it, the closing routine of that object (shutdown, close, '
     'leaving its with-block) releases all of them, each whether or not the others were ever used.',
     ['faults', 'histories', 'inputs'],
     'every function of the package that opens such a resource, every way through it, exceptions at any call included',
     'A leaked handle shows only when an exception is raised between opening and closing, and then only as a locked '
     'file or a process that does not end; tests run to the end of the process and collect nothing.',
     ['DHParser/dsl.py', 'DHParser/server.py', 'DHParser/configuration.py', 'DHParser/toolkit.py', 'DHParser/testing.py',
      'DHParser/log.py', 'DHParser/preprocess.py', 'DHParser/ebnf.py'],
     [('compilation on disk, batch processing', 'dsl.py:compile_on_disk, batch_process'),
      ('worker pools', 'server.py:ExecutionEnvironment.shutdown, Server.serve; testing.py:grammar_suite'),
      ('caches and presets', 'toolkit.py:cached_load, configuration.py:access_presets'),
      ('connections', 'server.py:probe_tcp_server, send_stop_server, asyncio_run')],
     technique='path-sensitive typestate analysis with ownership transfer and exceptional paths',
     note='All opening calls of DHParser/*.py. Closing calls are assumed not to raise. detach_server() is exempt: its '
          'purpose is a process that outlives the caller.')

prop('C28', 'Threads have their own parsers, compilers and settings; shared state is locked',
     'The factories (get_ebnf_grammar, get_ebnf_compiler, ThreadLocalSingletonFactory, the stages of a pipeline ...) '
     'never hand the same parser, transformer or compiler object to two threads, and a setting changed by one thread '
     '(set_config_value) is not seen by others. What threads do share - module- and class-level variables, lazily '
     'created worker pools, stream buffers - is changed at import only, or under its lock (with the condition tested '
     'again once the lock is held), or by publishing a finished value; a function never waits for a lock that it holds '
     'itself. The protocol for changing presets and the counters of chain-IDs are documented as not thread-safe.',
     ['schedules', 'histories'],
     'every interleaving of threads using the package; every write to shared state in DHParser/*.py',
     'A race shows only if two threads meet within a few instructions; the tests run single-threaded or start a few '
     'threads once.',
     ['DHParser/configuration.py', 'DHParser/toolkit.py', 'DHParser/ebnf.py', 'DHParser/pipeline.py', 'DHParser/parse.py',
      'DHParser/server.py', 'DHParser/testing.py'],
     [('thread-local store and settings', 'configuration.py:access_thread_locals, _config_dict, get_config_value'),
      ('factories', 'toolkit.py:ThreadLocalSingletonFactory; ebnf.py:get_ebnf_grammar, get_ebnf_compiler; pipeline.py'),
      ('first instantiation of grammars', 'parse.py:Grammar._assign_parser_names__'),
      ('worker pools and buffers', 'server.py:ExecutionEnvironment; testing.py:MockStream')],
     technique='lock-set and escape analysis over side-effect summaries and the call graph',
     note='All writes to module- and class-level state in DHParser/*.py. Single dictionary and list operations are taken '
          'to be atomic (GIL). Not covered: objects that the caller itself passes from one thread to another.')

prop('C15', 'Results do not depend on hash seed, object addresses, clock or directory order',
     'The same input gives the same output in every run: trees and their serialisations, errors, their order and their '
     'texts, generated parser code, test reports and the messages of exceptions do not depend on the hash seed, on the '
     'iteration order of sets, on object identities and addresses, on the order in which the operating system lists '
     'files, on the clock or on random numbers. Exempt are things that only have to be unique or that are meant to record '
     'the time: time stamps in HTTP headers, in logs and in the reports about test duration, names of connections, '
     'streams, anonymous test units and thread-local singletons, object addresses in the texts of internal assertions.',
     ['inputs', 'histories'],
     'every hash seed and every iteration order of every set or dictionary filled from one; all functions in DHParser/*.py',
     'A test run sees one hash seed; small integers and few short strings often come in the same order by chance, and the '
     'tests compare sets or sort before they compare.',
     ['DHParser/ebnf.py', 'DHParser/parse.py', 'DHParser/nodetree.py', 'DHParser/pipeline.py', 'DHParser/dsl.py',
      'DHParser/testing.py', 'DHParser/configuration.py', 'DHParser/compile.py', 'DHParser/transform.py', 'DHParser/server.py'],
     [('generated code and error messages', 'ebnf.py:EBNFCompiler'),
      ('visiting the parsers of a grammar', 'parse.py:Parser.descendants, Grammar.static_analysis__, unconnected_parsers__'),
      ('errors of a tree', 'nodetree.py:RootNode.node_errors, errors_sorted'),
      ('order of stages', 'pipeline.py:run_pipeline, as_graph'),
      ('test reports and batch processing', 'testing.py:grammar_unit, unit_from_file; dsl.py:process_file')],
     technique='taint analysis of iteration order and object identity (interprocedural, type-directed)',
     note='All functions of DHParser/*.py. Code written by users (compilers, transformation functions) is taken to be '
          'deterministic itself. Sort keys with several different, not merely numeric components are taken to be keys; '
          'loops looking for an element equal to a given value are taken to find at most one. The order in which '
          'cross-process results of a worker pool arrive is covered only where it is written out.')

prop('C07', 'Content and children of a node stay in step; results are texts or node tuples',
     'The result of a node is always either a text or a tuple of nodes, and its children are exactly that tuple, or '
     'empty if the result is a text. This holds after every operation of the package that creates or changes nodes: '
     'parsing, error recovery, constructors, assignments, insertion and removal of children, transformations, markup and '
     'splitting, copying, reading of serialised trees. A result is never a list, a generator, None, a number, or a tuple '
     'containing anything but nodes, and a node created as leaf never holds children.',
     ['inputs', 'histories'],
     'every tree and every sequence of operations of the package on it; every value assigned to a result in DHParser/*.py',
     'A wrong kind of result goes unnoticed as long as the code that happens to run next treats a list like a tuple; '
     'the tests follow few combinations of operations, and compare serialisations, which read only one of the two fields.',
     ['DHParser/nodetree.py', 'DHParser/transform.py', 'DHParser/parse.py', 'DHParser/ebnf.py', 'DHParser/compile.py'],
     [('fields of nodes', 'nodetree.py:Node.__init__, Node._set_result, FrozenNode.__init__, RootNode.swallow, RootNode.__deepcopy__'),
      ('changing children', 'nodetree.py:Node.__setitem__, __delitem__, insert, remove, replace_by; markup and split functions'),
      ('transformations', 'transform.py:flatten, merge_adjacent, keep_children, delimit_children ...'),
      ('nodes returned by parsers', 'parse.py:CombinedParser._return_value*, Synonym, SmartRE'),
      ('reading trees', 'nodetree.py:parse_sxpr, parse_xml, from_json_obj, from_etree')],
     technique='flow-sensitive kind inference with narrowing, path-by-path pairing of field writes',
     note='All functions of DHParser/*.py. Annotations of parameters are trusted and checked against the arguments; '
          'values of unknown kind (results of user-supplied callbacks) are taken to be what they should be.')

prop('C14', 'A fatal error stops processing, and no error gets lost on the way',
     'compile_source, process_tree, run_pipeline and full_pipeline call no further stage (preprocessor, parser, '
     'transformer, compiler, junction) once a fatal error has been reported, and leave none out as long as there is none. '
     'An exception raised by a tree-processing stage becomes a fatal error among the results if an error had been '
     'reported before, and passes through to the caller otherwise. The errors of all stages that were run, those of the '
     'preprocessor included, are among the returned errors. Every error added to a tree is recorded in it, unless it has an '
     'equal one already, and the error flag of a tree is never below the code of any of its errors. is_error, is_fatal '
     'and has_errors decide by the codes alone: notices from 1, warnings from 100, errors from 1000, fatal errors from 10000.',
     ['inputs', 'faults'],
     'every combination of stages, of errors of any level reported by each of them, and of crashes of any stage',
     'The tests run stages that succeed or fail with syntax errors; fatal errors and crashes in the middle of the chain, or '
     'a fatal error that is followed by a warning, hardly occur in them.',
     ['DHParser/compile.py', 'DHParser/pipeline.py', 'DHParser/nodetree.py', 'DHParser/error.py'],
     [('drivers', 'compile.py:compile_source, process_tree; pipeline.py:run_pipeline, full_pipeline'),
      ('recording of errors', 'nodetree.py:RootNode.add_error, RootNode.new_error'),
      ('levels', 'error.py:is_error, is_fatal, has_errors')],
     technique='path-sensitive abstract execution (typestate over error levels), helpers and handlers followed',
     note='The four drivers, RootNode.add_error/new_error and the predicates; all writes of the errors and of the flag of '
          'a tree. What the stages themselves do with errors (carrying them over to a new tree) is outside.')

prop('C22', 'A cancel query that answers yes stops the processing, and only that run',
     'A cancel query given to compile_source, run_pipeline, full_pipeline, a Grammar or Compiler object or batch_process '
     'reaches every stage: each driver hands it to the parser, transformer, compiler or junction it calls and polls it between '
     'the tree-processing stages, leaf parsers poll it at regular intervals, also while being traced, and a compiler polls it before '
     'every node; every function that takes a cancel query passes it on to those it calls. Once the query has answered yes, '
     'no further stage, node or parser is started, the result contains the fatal error CANCELED, and the exceptions that '
     'stop parsers and compilers are neither swallowed on the way nor do they leave Grammar.__call__ or Compiler.__call__. '
     'batch_process then waits for no further result and cancels the files that have not been started. A query never has '
     'an effect on a later run that was started without it.',
     ['inputs', 'schedules'],
     'every point at which a query may answer yes, every sequence of runs with and without a query',
     'The tests cancel a handful of runs at points that are convenient to reach; the query has to be polled, passed on and '
     'forgotten at every stage, call and exit.',
     ['DHParser/compile.py', 'DHParser/pipeline.py', 'DHParser/parse.py', 'DHParser/trace.py', 'DHParser/dsl.py',
      'DHParser/templates/DSLParser.pyi'],
     [('drivers', 'compile.py:compile_source; pipeline.py:run_pipeline, full_pipeline; dsl.py:batch_process'),
      ('parser', 'parse.py:Grammar.__call__, Grammar.set_cancel_query__, cancel_proxy; trace.py:trace_history'),
      ('compiler', 'compile.py:Compiler.__call__, Compiler.compile')],
     technique='path-sensitive abstract execution (typestate of the query and its polls); call-graph exception flow; '
               'dataflow of the query through calls',
     note='How long a single regular expression, preprocessor or compilation method of a user runs between two polls is not '
          'bounded. Files that a pool has already started are finished.')

prop('C05', 'Captured variables follow the parse; nothing that depends on them is memoised',
     'Capture pushes the text it has matched on the stack of its variable, Pop takes the last value off when it matches, '
     'Retrieve changes nothing; without a match variables stay as they are. When the parse goes back to or before the place '
     'where a variable was changed, the change is undone before anything is parsed or looked up in a memo table there, latest '
     'change first, each exactly once and no other change (a capture of the empty string counts as lying before its location, '
     'so that it survives the parsers that follow there). A result that depends on captured variables is never '
     'memoised by any parser that contributed to it, whether it is a match, a failure or an error caught on the way, and parsing '
     'the rest of the caller does not turn memoisation on again. When left recursion is grown, the captures of the '
     'attempt that is discarded are undone and those of the accepted one are kept; after an attempt that failed without being '
     'memoised, or that was left by a parsing error, the same parser can be tried again at the same place.',
     ['inputs', 'histories'],
     'every sequence of matches, failures, errors and backtracking, every relation between the location and those of captures',
     'The tests contain some grammars with captures; whether a capture is undone or a result memoised depends on the '
     'order in which alternatives are tried and on what failed before.',
     ['DHParser/parse.py'],
     [('guards', 'parse.py:Parser.__call__, LeafParser.__call__, NoMemoizationParser.__call__, Forward.__call__, Ref.__call__'),
      ('stack of changes', 'parse.py:Grammar.push_rollback__, Grammar.rollback_to__'),
      ('parsers', 'parse.py:Capture, Retrieve, Pop')],
     technique='path-sensitive abstract execution (typestate of the rollback stack, the memoisation flag and the recursion '
               'counter); effect summaries of rollback functions compared with the changes they undo',
     note='Known findings: Forward and Ref memoise results that depend on variables if memoisation was on when they were called, '
          'and lose captures when left recursion is grown. RecursionError is not followed. What user-supplied match functions '
          'do is assumed.')

prop('C29', 'Options a caller passes reach the functions they are meant for',
     'An option (a parameter with a default value) that a caller of the package passes is observed all the way down: the '
     'function reads it, does not replace it by something else before it has been read, and hands it on under its name '
     'to every function, method, recursive call, inherited constructor or method, or thread that it calls for the '
     'purpose and that has the same option (or, as listed, the corresponding option of a different name) - at the right '
     'parameter and not left to the default there, unless the call stands in a branch that depends on the option. '
     'Options kept by a constructor are used when the object works. Not included: what a function computes from an '
     'option, and options documented or listed as kept for the interface only.',
     ['inputs'],
     'every combination of options of every function in DHParser/*.py that has optional parameters (about 600 options)',
     'Tests call functions mostly with default options; an option that gets lost two calls further down, in a '
     'recursion or in one of several branches shows only with a value other than the default.',
     ['DHParser/nodetree.py', 'DHParser/transform.py', 'DHParser/toolkit.py', 'DHParser/pipeline.py', 'DHParser/dsl.py',
      'DHParser/testing.py', 'DHParser/server.py', 'DHParser/parse.py', 'DHParser/compile.py', 'DHParser/error.py'],
     [('selection and serialisation of trees', 'nodetree.py:Node.select, pick, as_sxpr, as_xml, as_etree; LocalContentMapping'),
      ('regular expressions and strings', 'toolkit.py; stringview.py:StringView'),
      ('factories and pipelines', 'pipeline.py:create_junction, full_pipeline, run_pipeline'),
      ('compilation and testing', 'dsl.py:recompile_grammar, create_scripts; testing.py:grammar_unit, grammar_suite'),
      ('server', 'server.py:Server.run_tcp_server, spawn_tcp_server, ExecutorWrapper')],
     technique='data-dependence analysis of parameters over resolved calls',
     note='All functions of DHParser/*.py with optional parameters. Parameters of the same name are taken to mean the same in '
          'caller and called function (a listed handful of exceptions); a value computed from an option is taken to be the '
          'right one. Calls through function values that the analysis cannot resolve are not covered.')

prop('C13', 'Traversals visit every node once, in order, with the right path',
     'Node.walk_tree and Node.walk_tree_paths yield every node of the tree (its path) exactly once, parents before their '
     'children and the children from left to right (reversed if asked for), the root only with include_root. '
     'Node.select_if (select) and select_path_if (select_path) do the same for the nodes (paths) that match, and leave '
     'out exactly the descendants of nodes (paths) for which the skip-function is true; select_children yields every '
     'matching child once in the direction asked for. A path that has been yielded is not changed afterwards. '
     'transform.traverse() visits every child that the filters let through once and before its parent and calls for '
     'every node the transformations of "<", then those of its key or else of "*", then those of ">" with the path of '
     'the node, the same whether or not they come from the cache, and those of "<<<" and ">>>" once at the beginning '
     'and the end. Compiler.compile() calls the one method of the node with self.path ending with the node and then the '
     'visitors of each of its attributes once; fallback_compiler() compiles every child once, from left to right. '
     'Node.evaluate() and evaluate_path() evaluate every node once, children first, with its path. A path that a '
     'function lengthens is as before when it returns, and self.path of a compiler is restored where an exception that '
     'passed through a compilation is handled. Not included: moving from a path to its neighbours.',
     ['inputs'],
     'every tree and every combination of match, skip, root and direction; every transformation table; every compiler',
     'Tests traverse a few small trees in a few modes; an error for nodes that are skipped and match, for the second '
     'node of a type, for a path kept by the caller or after a handled exception shows on other trees only.',
     ['DHParser/nodetree.py', 'DHParser/transform.py', 'DHParser/compile.py', 'DHParser/ebnf.py'],
     [('iterating and selecting', 'nodetree.py:Node.walk_tree, select_if, walk_tree_paths, select_path_if, '
       'select_children; select_path_if'),
      ('evaluation', 'nodetree.py:Node.evaluate, _new_evaluate, evaluate_path, _inner_evaluate_path, _eval'),
      ('transformation', 'transform.py:traverse, flatten, collapse'),
      ('compilation', 'compile.py:Compiler.compile, visit_attributes, fallback_compiler; ebnf.py:EBNFCompiler')],
     technique='abstract interpretation of the traversal functions over a generic tree',
     note='Each traversal function is interpreted for an arbitrary node with arbitrary children; that the recursion '
          'covers the tree follows by induction. Match and skip-functions and transformations are taken not to change '
          'the path. Traversals written with an explicit stack instead of a recursion are not followed.')

prop('C30', 'Every name that is read has a value on every path',
     'In every function of the package (its scripts and its code templates included), whatever the input: a name that is '
     'read is a local variable, a variable of an enclosing function, a global variable of the module or a builtin; a '
     'local variable has been assigned on every path that reaches the place where it is read - also if a loop runs zero '
     'times, an exception leaves a try-block at any of its statements, a branch is not taken, or the variable has been '
     'deleted or was the variable of an exception-handler that has ended; a global variable that functions read has a '
     'value once the module has been imported. Names that are imported or listed in __all__ exist. No run ever ends '
     'in a NameError, UnboundLocalError or ImportError of the package\'s own making.',
     ['inputs', 'faults'],
     'every path through every function',
     'Tests execute most statements, but not most paths: error branches, empty sequences and exceptions in the middle of '
     'a try-block are where a missing assignment or a misspelt name shows.',
     ['DHParser/*.py', 'DHParser/templates', 'DHParser/scripts', 'DHParser/parsers'],
     [('all functions', 'DHParser/*.py'), ('generated scripts', 'ebnf.py:DHPARSER_IMPORTS; templates/*.pyi')],
     technique='scope analysis and path-sensitive definite-assignment analysis',
     note='A variable may be justified by the data (6 audited places, listed in checks/c30.py). Variables of an enclosing '
          'function are checked where the inner function is called by name, not where it escapes. Third-party code '
          '(externallibs, typing_extensions and its shims) is not analysed.')

prop('C31', 'Calls fit the signatures; attributes, messages and tuples fit too',
     'Whatever branch is taken: a function, method, constructor or lambda-function is called with as many arguments as '
     'it takes, with keywords it knows and with all required parameters (methods: whichever of the overriding methods '
     'is meant; the same for builtin and standard library functions, for functions handed to an executor with their '
     'arguments and for partial application); arguments and return values are not of another kind than the annotated '
     'one (a number, a text, a node, a tuple, a function); an attribute that is read exists in the class or module it '
     'is read from, and attributes that methods read on self have been set on every path through the constructor; '
     'format strings have as many placeholders, of the right kind, as there are values; tuples and other results have '
     'the length they are unpacked to; what is raised is an exception. No run ever ends in a TypeError, AttributeError '
     'or unpacking error of that origin.',
     ['inputs', 'faults'],
     'every call, attribute access, format string and unpacking in every branch of every function',
     'Tests reach the call sites of the main paths. Error messages, rarely used options, serializations and callbacks '
     'are where a call that does not fit its target stays unnoticed until a user gets a TypeError instead of the error '
     'message that was meant.',
     ['DHParser/*.py'],
     [('all functions', 'DHParser/*.py'), ('signatures', 'DHParser/nodetree.py; DHParser/parse.py; DHParser/server.py')],
     technique='type inference, call binding against signatures, must-initialisation analysis of constructors',
     note='Type annotations and type comments are taken to be true. Objects whose type is not known (a quarter of the '
          'attribute accesses) are only checked by name: some class must have the attribute, some method of that name '
          'must fit the call. Whether an optional value is None when an attribute of it is read is not decided.')

prop('C32', 'Configuration variables exist, hold allowed values, and these are understood',
     'A configuration variable that any part of the code, a generated script or a template reads or sets is one that '
     'configuration.py defines. Variables with a restricted range hold only allowed values: the preset is allowed, '
     'whatever is set has been checked under the name it is stored under and is rejected if any part of it is not '
     'allowed (and only then), values written in the code are allowed and of the type of the preset. Every allowed value is understood where '
     'the variable is used: it is only compared with values it can have, and no allowed value ends in an "unknown '
     'value" error. A value that a thread has set is never replaced by the preset; presets are read and changed only '
     'while they are opened, and a changed preset is marked, so that it reaches processes that are started later.',
     ['inputs', 'histories'],
     'every value of every configuration variable, whichever way and in whichever order it is set and read',
     'Tests set a handful of variables to a handful of values. A misspelled value in a comparison silently switches an '
     'option off; a value that one dispatch does not know crashes a rarely used format.',
     ['DHParser/configuration.py', 'DHParser/*.py'],
     [('presets, validation', 'DHParser/configuration.py'), ('uses', 'DHParser/*.py')],
     technique='finite-set constant propagation of configuration values, path-sensitive typestate analysis of the stores',
     note='Variables without a table of allowed values are checked for existence and type only. Comparisons whose other '
          'side is not a literal are not judged.')

prop('C33', 'Regular expressions: well formed, groups exist, no blow-up, matches tested',
     'Every regular expression the source fixes (in calls of re, in LazyRE, RegExp and SmartRE, in class and module '
     'attributes) is well formed, and none backtracks exponentially: no text can be read by a loop in exponentially '
     'many ways before the expression fails. Groups asked for by number, by name, by unpacking or in a replacement '
     'text exist in the expression that matched. What can be None - the result of match, search and fullmatch, a '
     'group that need not take part in a match - is tested before it is used. Positions of a match made on a '
     'StringView refer to the text behind the view and are mapped by index() or indices() before they are used in or '
     'compared with positions of the view. A LazyRE behaves like the expression compiled with its flags, whichever '
     'of its methods or properties is used first.',
     ['inputs'],
     'every text that is matched, whatever it contains and wherever a view begins',
     'Tests match the texts that are expected. The failing match, the view that does not begin at 0, the unset group '
     'and the long, almost matching text are the ones that are not sampled.',
     ['DHParser/*.py'],
     [('expressions', 'DHParser/*.py'), ('LazyRE', 'DHParser/toolkit.py'), ('views', 'DHParser/stringview.py')],
     technique='constant folding of patterns, ambiguity analysis of their automata, path-sensitive analysis of match objects',
     note='Expressions that are made at run time (from grammars, parameters) are not judged; polynomial backtracking is '
          'not judged. A match object handed to another function is not followed.')

prop('C34', 'No collection is changed while looped over; one-shot iterators are used once',
     'While a list, a dictionary, a set or one of their views is looped over, no element is added to it or removed '
     'from it before the next step of the loop: not by the body of the loop, not by the functions and methods it '
     'calls, not by user-supplied visitors that are handed the owner of the collection, and not by other tasks '
     'while the body awaits something. What can be gone through only once - generators, the results of zip, map, '
     'filter, reversed and finditer, and arguments that are only promised to be iterable - is gone through at most '
     'once on every path; such iterators are not measured, subscripted or tested for emptiness, not kept in attributes '
     'or global variables, and not returned where a list, tuple or set is promised.',
     ['inputs', 'schedules'],
     'every loop and every iterator of the package, on every path and for every argument that fits its annotation',
     'A list works in place of a generator, and a loop that loses its place or raises RuntimeError needs an element '
     'to be removed at the right moment: tests pass lists and rarely remove anything while looping.',
     ['DHParser/*.py'],
     [('loops', 'DHParser/*.py'), ('visitors of attributes', 'DHParser/compile.py:Compiler.visit_attributes'),
      ('tasks', 'DHParser/server.py:Connection'), ('junctions', 'DHParser/pipeline.py')],
     technique='identity of collections, side-effect summaries of callees, path-sensitive use counts of iterators',
     note='Replacing the item of an existing key or index is allowed. Collections reached under two unrelated names '
          'are not recognised as one; iterators handed to another function count as used there.')

# ---------------------------------------------------------------------------------------------------------
NA = [
    ('C80', 'Parse trees conform to the grammar',
     'The tree returned for a document is the one the grammar prescribes for it (PEG semantics with the '
     'documented extensions).',
     'quantifies over the meaning of arbitrary grammars on arbitrary documents; a functional-correctness '
     'statement about runtime values that no sound static argument in reach decides'),
    ('C81', 'EBNF compilation preserves the meaning of the grammar',
     'The Python parser generated from an EBNF grammar accepts exactly the documents the grammar describes, '
     'in each of the supported notations.',
     'translation correctness of generated code depends on the value of the generated program text'),
    ('C82', 'Serialised trees read back as the same tree',
     'Reading an S-expression, XML or JSON serialisation of a tree with the package\'s own reader yields an equal '
     'tree.',
     'an equality between runtime strings and trees that goes through hand-written scanners and regular '
     'expressions'),
    ('C83', 'Optimised regular expressions match like the parsers they replace',
     'Replacing combinations of parsers by a single regular expression changes neither what is accepted nor '
     'the resulting tree.',
     'equivalence of two matching semantics over all inputs'),
    ('C84', 'Parsing time is linear in the document for memoised grammars',
     'With memoisation on, each parser is run at most once per position, so parsing time grows linearly.',
     'a quantitative bound on runtime behaviour; memoisation is suspended dynamically for '
     'context-sensitive parsers'),
]


def write():
    P.sort(key=lambda p: p['row']['id'])
    rows = [p['row'] for p in P]
    na = [{'property': p['row']['id'], 'reason': p['na']} for p in P if p['na']]
    for id, title, st, reason in NA:
        rows.append({'id': id, 'title': title, 'statement': st,
                     'quantifier': {'over': ['inputs', 'programs'], 'text': 'all grammars and documents'},
                     'why_tests_cant': 'The tests compare results for a fixed set of grammars and documents.',
                     'anchors': {'files': ['DHParser'], 'mechanism': []}})
        na.append({'property': id, 'reason': reason})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        if p['na']:
            continue
        id = p['row']['id']
        checks.append({'property': id, 'quick_cmd': f'python3 run.py {id}',
                       'thorough_cmd': f'python3 run.py {id} --thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 -B -c "import sa.src, sa.absint, sa.effects, sa.report"',
         'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: every check parses /repo/DHParser/*.py on every run and decides rules over '
                  'the syntax tree, call graph and abstract states; nothing of DHParser is imported or executed. '
                  'Known findings: known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(rows), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    write()
