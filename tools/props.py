"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique, note, observe=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why, 'anchors': a}, technique, note, na))


AI = 'path-sensitive interprocedural abstract interpretation of the source (constant propagation + provenance terms + typestate of locks/context variables), no execution, no solver'
FLF = 'polog/loggers/auto/function_logger.py'

prop('C01', 'Decorating a function does not change what its callers see',
     'A function or coroutine function decorated for logging is called exactly once per call, with exactly the arguments of the caller, and the caller gets exactly the object it returned. This holds for every form of the decorator, every configuration of the library and every outcome of the call, and the decorated object keeps its name and stays a coroutine function exactly if it was one.',
     ['inputs', 'configurations', 'programs'], 'all functions, argument lists, results, forms of decoration and settings values',
     'Tests call a few sample functions under one configuration; the guarantee is over all argument lists, results and settings.',
     [FLF, 'polog/loggers/router.py', 'polog/loggers/partial.py', 'polog/core/utils/pony_names_generator.py'],
     [('synchronous and coroutine wrappers', FLF), ('dispatch of the decorator forms', 'polog/loggers/router.py')],
     AI, 'Obligation per abstract path of each decorator form x sync/async: number of calls of the opaque user function, identity of argument pack and of the result, no foreign exception, awaited. Handlers and engine are cut at the hand-over (C08); encoding helpers are terms (C27).')

prop('C02', 'Exceptions of decorated functions propagate unless suppressed',
     'An exception raised by a decorated function reaches the caller as the same object unless the decorator was told to suppress it; when suppression was asked for without classes every error is suppressed, when asked for with classes exactly the errors of those classes are (their subclasses included only if so configured), and a suppressed call returns None. Exceptions that are not errors (keyboard interrupt, system exit, cancellation) always pass through unchanged.',
     ['inputs', 'configurations', 'fault_sequences'], 'all exceptions, suppression lists and settings',
     'Tests raise a handful of exception classes; the guarantee is over all classes, instances and settings.',
     [FLF, 'polog/loggers/finalizer.py', 'polog/core/utils/exception_is_suppressed.py', 'polog/core/utils/get_traceback.py'],
     [('error branch of the wrappers', FLF), ('the suppression decision', 'polog/core/utils/')],
     AI, 'The relation between raised and propagated exception is decided on every abstract path, with class relations left open (subclass facts are split on demand).')

prop('C03', 'Context managers record and pass on the outcome of their body',
     'A logging context manager runs its body once, writes exactly one record if the level of the outcome is not below the threshold and none otherwise, and the record carries the given message, the level, the success flag and the name and text of the exception of the body. Arguments given inside the body to the object that the statement binds replace and extend those given before. The exception leaves the context as the same object exactly if it is not to be suppressed by the arguments or settings, and nested contexts each write their own record in the order in which they are left.',
     ['inputs', 'configurations', 'histories'], 'all forms of the context manager, bodies, exceptions and settings',
     'Tests exercise few bodies and settings; nesting and rejected arguments are hardly reached.',
     ['polog/loggers/finalizer.py', 'polog/loggers/router.py', 'polog/loggers/handle/handle_log.py'],
     [('context manager protocol', 'polog/loggers/finalizer.py'), ('stack of open contexts', 'polog/loggers/router.py')],
     AI, 'Eleven public forms of the context manager over an opaque body; record and exception obligations on every path; two nested contexts and one after them.')

prop('C04', 'Every logged event yields exactly one record or none',
     'A decorated call that returns, and one that fails with an error, yields exactly one record when the level of the outcome is not below the threshold and none otherwise; exceptions that are not errors yield none. A manual log call yields one record under the same rule. With deduplication on, one exception passing through any nesting of decorated calls is recorded exactly once, by the innermost call whose level passes the threshold; with deduplication off by each such call.',
     ['inputs', 'configurations', 'histories'], 'all decorator forms, outcomes, levels and nestings of decorated calls',
     'Tests sample level combinations and one nesting; the rule is over all orderings of levels and threshold.',
     [FLF, 'polog/loggers/handle/handle_log.py', 'polog/loggers/finalizer.py'],
     [('level comparison and hand-over of the record', FLF), ('deduplication mark', FLF)],
     AI, 'Number of hand-overs to the engine on every path against the level specification, over all orderings of the opaque levels; nesting to depth three, sync and async.')

prop('C05', 'Levels of records follow the documented precedence',
     'The level of the record of a successful event is the one given to the logger (a number, or the number registered for a name), otherwise the default level. The level of an error is the errors level given to the decorator, otherwise the greatest of the given level, the default level and the default errors level; for manual records it is the given level, otherwise the default errors level. An unknown level name is treated by decorators as if none was given, and an explicitly passed level wins over a level named by attribute access.',
     ['inputs', 'configurations'], 'all level numbers, names, registries of names and default levels',
     'Tests sample a few numbers; precedence must hold for all orderings of the values and all registries.',
     [FLF, 'polog/core/stores/levels.py', 'polog/loggers/handle/handle_log.py', 'polog/loggers/partial.py'],
     [('level resolution of decorators', FLF), ('level resolution of manual logs', 'polog/loggers/handle/'), ('attribute levels', 'polog/loggers/partial.py')],
     AI, 'The level field of every record is compared with the specification expression on every path; the registry of names and all numbers are opaque, orderings are split exhaustively.')

prop('C06', 'A record describes its own call and nothing else',
     'The record of a decorated call states that it is automatic, the function, module and (for methods) class, the message given to the decorator, the service name, the moment the call started, the time between start and end, the arguments of this very call, encoded in the record and as they are at its side, and its outcome: the encoded result, or the name and text of the exception with traceback and local variables, never a mix of the two. Consecutive or concurrent calls cannot influence each other\'s records, because a call keeps its own data in no object shared between calls.',
     ['inputs', 'schedules', 'histories'], 'all calls, arguments, results, exceptions and interleavings of calls',
     'Tests run one call at a time with constant arguments; cross-talk needs concurrent calls.',
     [FLF, 'polog/core/utils/time_limit.py', 'polog/utils/json_vars.py'],
     [('record assembly', FLF)],
     AI, 'Field-by-field provenance of the record on every path; effect analysis: no store of call-dependent data into objects that existed before the call (hence no cross-talk under any schedule).')

prop('C07', 'Functions excluded from logging stay silent, and only they',
     'A function excluded from logging, by itself or as a method of an excluded class, never produces records of its own, whatever the order in which it is excluded and decorated, and still behaves like the original towards its callers. While it runs, records of nested events are dropped exactly if full exclusion is in effect (its own argument, else the setting), the innermost excluded function deciding; afterwards, whether it returned or raised, the previous situation is restored. Other threads and tasks are never affected.',
     ['inputs', 'configurations', 'schedules', 'histories'], 'all orders of decoration, nestings, outcomes, settings and concurrent contexts',
     'Tests cover a few orders of decoration and no exceptions in nested excluded functions.',
     ['polog/unlog.py', 'polog/core/stores/registering_functions.py', FLF, 'polog/loggers/handle/handle_log.py'],
     [('exclusion status kept per context', 'polog/unlog.py'), ('registry of decorated functions', 'polog/core/stores/registering_functions.py')],
     AI, 'Six orders of decoration x three forms x sync/async; nested pairs of excluded functions around four kinds of events; at every call of user code the program is also analysed from a second context that sees the same heap but fresh context variables.')

prop('C08', 'Every handler gets every record once, and failures stay contained',
     'Processing a record calls each handler attached to it (the global ones, or the own ones of the decorator including every handler of a named branch) exactly once, with the same record. No exception of a handler or of a field extractor, error or interrupt, reaches the logged program, keeps other handlers from being called or other extractors from being run: the value of each extractor that succeeded is a field of the record, and a field whose extractor failed is absent.',
     ['inputs', 'configurations', 'fault_sequences'], 'all sets of handlers and extractors, all subsets of them failing, decorated calls and manual records',
     'Tests let one handler fail at a time; containment is over every combination of failures.',
     ['polog/core/log_item.py', 'polog/core/stores/handlers.py', 'polog/data_structures/trees/named_tree/tree.py', 'polog/core/engine/engine.py'],
     [('calling the handlers and extracting fields', 'polog/core/log_item.py'), ('own handlers of a decorator', FLF)],
     AI, 'Opaque handlers and extractors that may return or raise independently, attached in five ways; the calls on every path are compared with the expected multiset.')

prop('C09', 'A record is a read-only mapping ordered by time',
     'For every record reading by index, get, membership, length, iteration, keys, values and items agree with each other; a missing key gives the default of get and a KeyError on indexing; assigning or deleting any field raises the dedicated rewriting error and changes nothing. Records compare by their time in all six comparisons, equal records have equal hashes, and ordering a record against another object is a TypeError.',
     ['inputs', 'histories'], 'all records, keys, defaults and pairs of times',
     'Tests use hand-made records; agreement of all views must hold for records of every origin.',
     ['polog/core/log_item.py'], [('the record class', 'polog/core/log_item.py')],
     AI, 'Records of three origins reach a handler in the analysed program; agreement of the views and effects of writes are evaluated in the abstract domain for opaque keys; comparisons over all orderings of opaque times.')

prop('C10', 'In the asynchronous mode no record is lost or processed twice',
     'With a pool of workers, each record is put exactly once into a queue bounded by the configured size, blocking the writer when the queue is full and never dropping the record or processing it in the thread of the writer. Every record taken from the queue is processed exactly once by one worker; workers survive every error of a handler and end only after they were told to stop and found the queue empty. Stopping the engine tells workers to stop only once all accepted records have been processed, and waits for every worker.',
     ['schedules', 'fault_sequences', 'configurations'], 'all pool sizes, queue sizes, schedules of workers, handler failures',
     'Tests sleep and count records; a lost wake-up, a dropped record or a worker killed by an error depends on the schedule.',
     ['polog/core/engine/real_engines/multithreaded/pool.py', 'polog/core/engine/real_engines/multithreaded/worker.py', 'polog/core/engine/real_engines/multithreaded/engine.py'],
     [('pool, queue and stopping', 'polog/core/engine/real_engines/multithreaded/pool.py'), ('loop of a worker', 'polog/core/engine/real_engines/multithreaded/worker.py')],
     AI, 'Typestate of queue, stop flag and threads: the worker loop is analysed with opaque outcomes of every queue operation and handler; puts, gets, task_done, joins and flag stores are ordered on every path.')

prop('C11', 'The engine is loaded once, on the first record; reloading it loses no records',
     'The engine is created with the first record (once, even when several threads write their first records simultaneously) and an exit handler is registered once that blocks new records while it stops the engine, and cancels the timer for the interpreter exit; records written after it (by other exit handlers) are still processed, once, and wait for nothing. A reload after a change of the engine settings stops the old engine completely before the new one is loaded while writers wait; writers that waited hand their record to the new engine exactly once. Errors while stopping or loading never leave the writers blocked.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of first records, reloads and exit with writers',
     'Tests reload in one thread; the guarantee concerns interleavings of writers and reloads.',
     ['polog/core/engine/engine.py', 'polog/core/stores/settings/actions/reload_engine.py', 'polog/core/engine/real_engines/fabric.py'],
     [('engine facade with block and reload', 'polog/core/engine/engine.py')],
     AI, 'Before every lock acquisition of a writer the analysis also lets another thread complete a first record or a reload; engine typestate (loaded, stopped) along every path. The in-flight race of an unlocked writer is a known finding.')

prop('C12', 'Settings accept exactly their documented values, atomically',
     'Assigning a setting succeeds exactly for the values of its documented domain (type, range, compatibility with related settings); the setting then reads back as assigned and no other setting changes. Any other value, and any unknown setting name, is refused with a ValueError, TypeError or KeyError and leaves all settings as they were. No assignment, accepted or refused, leaves a lock taken. Until it is assigned a setting has the default the documentation gives for it.',
     ['inputs', 'histories'], 'all settings, all values of all types, all states of the other settings',
     'Tests try a few good and bad values per setting; domain and atomicity are over all values and states.',
     ['polog/core/stores/settings/settings_store.py', 'polog/core/stores/settings/setting_point.py', 'polog/config.py'],
     [('declaration of settings', 'polog/core/stores/settings/settings_store.py'), ('checks and storing of one setting', 'polog/core/stores/settings/setting_point.py')],
     AI, 'For each setting an opaque value partitioned by type tests and comparisons; acceptance, stored term and effect on all other settings are compared with the documented domain on every path.')

prop('C13', 'Settings that depend on each other never get into a forbidden combination',
     'A queue limit without a worker pool, and disabled integration with the standard logging together with disabled standard output of logging, are never reached by any sequence or interleaving of assignments: checks of related settings and the store form one critical section common to all related settings. The engine is reloaded exactly when the pool size or the queue size changes its value, the new engine sees the new value, and readers of these settings wait until the reload is over.',
     ['schedules', 'histories', 'configurations'], 'all sequences and interleavings of assignments and readers',
     'Tests assign in one thread; forbidden combinations arise from two interleaved assignments.',
     ['polog/core/stores/settings/settings_store.py', 'polog/core/stores/settings/setting_point.py', 'polog/core/stores/settings/actions/reload_engine.py'],
     [('conflict checks and shared locks', 'polog/core/stores/settings/setting_point.py')],
     AI, 'Lock-set analysis of the conflict checks and stores of every pair of related settings, typestate of the engine around the store, and the sequential reachability of the forbidden combinations.')

prop('C14', 'No operation deadlocks, keeps a lock, or breaks on a registry changed meanwhile',
     'Every public operation (writing records, decorating, excluding, settings, handlers, fields, levels, reloading, exit), whether it succeeds or fails, releases every lock it took; it never waits for a lock it holds itself; and no two operations take the same locks in opposite orders, so operations of several threads cannot wait for each other for ever. No operation iterates over a shared registry (handlers, fields, levels, settings, decorated functions) that another operation may change at the same moment without a common lock.',
     ['schedules', 'fault_sequences', 'histories'], 'all pairs of public operations in all interleavings, all failures inside them',
     'Deadlocks and "changed size during iteration" need two operations at particular moments; tests run operations one after another.',
     ['polog/core/stores/settings/setting_point.py', 'polog/core/engine/engine.py', 'polog/data_structures/trees/named_tree/tree.py', 'polog/core/stores/handlers.py', 'polog/core/stores/levels.py', 'polog/core/stores/registering_functions.py', 'polog/core/log_item.py'],
     [('locks of settings', 'polog/core/stores/settings/setting_point.py'), ('block of writers', 'polog/core/engine/engine.py'), ('tree of handlers', 'polog/data_structures/trees/named_tree/tree.py')],
     AI, 'Lock-order graph over all public operations, split by the phase of the engine; lock balance on every path; lock sets of iterations against lock sets of size-changing writes.')

FDIR = 'polog/handlers/file/'
prop('C15', 'Accesses to the log file exclude each other as configured',
     'For every lock type of the file handler, each write, flush, move, close and reopening of the log file runs while exactly the configured locks are held: one thread lock common to all accesses of the handler, and an exclusive lock between processes on one separate lock file, taken and given back inside the thread lock. Whatever fails, including the locking itself, no lock stays taken and none is given back twice. Locks that were not asked for are not used and leave no files behind; unknown or repeated lock types are refused with ValueError.',
     ['schedules', 'fault_sequences', 'configurations'], 'all lock types, all failures of the file system, any number of threads and processes',
     'Tests write from a few threads and count lines; a window between two accesses or a lock left after a failed call shows up only in rare schedules.',
     [FDIR + 'file_dependency_wrapper.py', FDIR + 'locks/double_lock.py', FDIR + 'locks/file_lock.py', FDIR + 'locks/thread_lock.py'],
     [('both locks as one', FDIR + 'locks/double_lock.py'), ('accesses to the file', FDIR + 'file_dependency_wrapper.py')],
     AI, 'Lock-set analysis: the handler is analysed with opaque file-system calls each of which may fail; on every path the locks held at each access are compared with the configuration.')

prop('C16', 'Rotation never loses a record',
     'Before each record the rules of rotation are checked; the file is rotated exactly if at least one rule asks for it: its buffer is written out, the file is moved to a new name in the directory of archives (created if missing) that no other rotation uses, and a new file is opened at the old place, as one critical section, before the record is written. The record is written exactly once, as the formatter returned it and whatever characters it contains, to the current open file and flushed if asked for, whatever fails during the rotation. If formatting or writing fails, the alternative handler gets the record once.',
     ['histories', 'fault_sequences', 'schedules'], 'all file sizes, all subsets of failing file operations, all threads rotating at once',
     'Tests rotate on a working file system; failures of single operations and simultaneous checks of the rules are not covered.',
     [FDIR + 'writer.py', FDIR + 'rotation/rotator.py', FDIR + 'file_dependency_wrapper.py'],
     [('decision and rotation', FDIR + 'rotation/rotator.py'), ('moving and reopening', FDIR + 'file_dependency_wrapper.py')],
     AI, 'Every file-system call may fail independently; file handles have a typestate (open, flushed, moved, closed); the size of the file is an opaque number compared with the limit.')

prop('C17', 'Rules of rotation and arguments of the file handler mean what is documented',
     'A rule "number unit" with any documented unit, short, full or plural, fires exactly when the size of the file has reached number times the unit (powers of 1024); several rules separated by commas or semicolons fire if one of them does; archives go to the directory after ">>", or "logs". Every malformed rule, a rule without a file to rotate, and arguments of wrong types are refused with ValueError when the handler is made. Records go to the file given by name (appended, UTF-8), to the given file object, or to the standard output.',
     ['inputs', 'configurations'], 'all units, all sizes of the file, lists of rules, kinds of malformed rules',
     'Tests check single rules at a few sizes.',
     [FDIR + 'rotation/parser.py', FDIR + 'rotation/rules/rules_elector.py', FDIR + 'rotation/rules/rules/file_size_rule.py', FDIR + 'rotation/rules/rules/tokenization/tokens/size_token.py', FDIR + 'rotation/rules/rules/tokenization/tokens/tokens_group.py', FDIR + 'writer.py'],
     [('size rule', FDIR + 'rotation/rules/rules/file_size_rule.py'), ('validation of arguments', FDIR + 'writer.py')],
     AI, 'Constant propagation of a table of rule texts (all units, separators, malformed shapes) through the parser, for an opaque file size; opaque argument values partitioned by type.')


prop('C18', 'Handlers of the library deliver a record or pass it to their alternative',
     'A handler built on the base class does exactly one of two things with a record: it makes the content of that record once and acts on that content once, or hands the record itself to its alternative once, if it has one. The record is not acted on exactly if the handler is restricted to errors and the record is successful, or the filter, which answers True or False, returned False for this record; a filter is asked once and only about records the first restriction lets through. If the filter, the content or the action raises an error the alternative gets the record and the error does not leave the handler. Arguments of wrong types (including those declared by derived classes) are refused with ValueError when the handler is made.',
     ['inputs', 'configurations', 'fault_sequences'], 'all records, filters, alternatives, contents and failures, for the base class and the handlers of the library',
     'Tests use working filters and formatters with one or two records.',
     ['polog/handlers/abstract/base.py', 'polog/handlers/file/writer.py', 'polog/handlers/smtp/sender.py'],
     [('template of handlers', 'polog/handlers/abstract/base.py')],
     AI, 'Filter, alternative, content and action are opaque callables that return anything or raise; on every path their calls, arguments and order are compared with the documented table. Quantified over every combination of options of four handlers.')

prop('C19', 'Mail is sent once per record and every session is closed',
     'For a record the mail handler opens one session with the configured server, logs in with the configured credentials and sends one letter from the configured sender to the configured recipient, whose text and subject come from the record or the given assemblers. Whatever operation of the session fails, the session is closed and the alternative gets the record once. Sessions of several records never share state. The password is not shown in the representation of the handler.',
     ['fault_sequences', 'inputs', 'schedules'], 'all failures of every network operation, all records and options',
     'Tests replace the network by a working stand-in; failures in the middle of a session are not exercised.',
     ['polog/handlers/smtp/sender.py', 'polog/handlers/smtp/smtp_dependency_wrapper.py'],
     [('session', 'polog/handlers/smtp/smtp_dependency_wrapper.py'), ('letter', 'polog/handlers/smtp/sender.py')],
     AI, 'Every call of smtplib is opaque and may fail; typestate of the session (opened, logged in, sent, closed) on every path; provenance of the letter.')

prop('C20', 'Threads logging at the same time do not disturb each other',
     'When two threads write records at the same time - by decorated functions, context managers, manual calls, messages, the standard logging, excluded functions or nested combinations - each of them writes the records it would have written alone, with its own message, level, extra fields, exception and outcome, and gets the result it would have got alone; this includes the very first records of the process. The same holds for coroutines taking turns in one thread and for tasks and callbacks that inherit the context of the code that started them.',
     ['schedules', 'histories'], 'all pairs of logging operations, switched at every access to shared state',
     'Tests of several threads sample few schedules; a shared variable shows only if the switch happens between two particular operations.',
     ['polog/loggers/auto/function_logger.py', 'polog/loggers/handle/message.py', 'polog/loggers/finalizer.py', 'polog/core/engine/engine.py', 'polog/unlog.py'],
     [('context variables', 'polog/loggers/auto/function_logger.py'), ('first record', 'polog/core/engine/engine.py')],
     AI + '; abstract exploration (two switches) of pairs of operations with footprint reduction', 'Serialisability rule: for each pair of operations and each access to shared state, the outcome of running the second operation there must equal that of one of the two serial orders. Bounded to two threads and two switches (A - B - A - B): B is stopped at each of its own shared accesses and resumed after A.')

prop('C21', 'Registering handlers, fields and levels from several threads is atomic',
     'Adding, replacing, deleting and listing handlers, extra fields and levels, choosing handlers by name, writing records and creating the in-memory handler may happen in several threads at once: the outcome (results, refusals with an error, the final content of the registries and which handlers get a record) equals that of some order of these operations one after the other.',
     ['schedules', 'histories'], 'all pairs of registry operations, switched at every access to shared state',
     'Check-then-act windows between two threads are not reached by tests that run one after the other.',
     ['polog/config.py', 'polog/data_structures/trees/named_tree/tree.py', 'polog/data_structures/trees/named_tree/projector.py', 'polog/core/stores/levels.py', 'polog/core/stores/fields.py', 'polog/handlers/memory/saver.py'],
     [('handlers', 'polog/config.py'), ('tree of handlers', 'polog/data_structures/trees/named_tree/tree.py')],
     AI + '; abstract exploration (two switches) of pairs of operations', 'The same serialisability rule as C20 for the registries. Bounded to two operations and two switches.')

prop('C22', 'A decorated class or repeatedly decorated function writes one record per call',
     'A function under any number of logging decorators writes one record per call, that of the outermost one. Decorating a class logs each of its methods (static and class methods included), or only the chosen ones, leaves its other attributes, double-underscore methods and nested classes as they were, and returns the same class; a decorator placed on a method itself wins over those of the class, a later class decorator over earlier ones, and an exclusion over all. Decorating a child class never changes what its parents or its siblings write, and results, arguments and exceptions of all these calls are those of the original method.',
     ['programs', 'configurations', 'histories'], 'all orders of decorating functions, methods, classes, parents and children',
     'Tests decorate in a few orders; which decorator wins depends on registries shared by all functions and on the history of decorations.',
     ['polog/loggers/auto/class_logger.py', FLF, 'polog/core/stores/registering_functions.py', 'polog/core/utils/unpack_method.py', 'polog/unlog.py'],
     [('registry of wrapped functions', 'polog/core/stores/registering_functions.py'), ('class decorator', 'polog/loggers/auto/class_logger.py'), ('static and class methods', 'polog/core/utils/unpack_method.py')],
     AI, 'Thirty-odd programs of class and function decoration (orders of decoration, inheritance, chosen methods, exclusions), each interpreted from the decoration to the call of every kind of method with opaque arguments; number, message and level of the records and identity of results decided on every path.')

prop('C23', 'A manual record carries exactly what it was given',
     'A manual log call writes one record with the given message, level, extra fields and exception details (an exception object gives the name of its class and its text and makes the record unsuccessful, a text is taken as the name), the success flag given or implied, and nothing of other events; arguments are passed by their names or documented short names. With silent internal exceptions off, wrong arguments (unknown, of the wrong type, given twice by alias) raise the documented error and write nothing; with them on, nothing is raised and a record is still written with the arguments that are right.',
     ['inputs', 'configurations'], 'all argument combinations of manual records and settings values',
     'Tests pass a few argument combinations; the rules are over all values and both modes.',
     ['polog/loggers/handle/handle_log.py', 'polog/loggers/handle/abstract.py', 'polog/core/log_item.py'],
     [('argument checks and aliases', 'polog/loggers/handle/abstract.py'), ('the record', 'polog/loggers/handle/handle_log.py')],
     AI, 'Every documented argument with an opaque value of every possible type, alone and in pairs, in both modes; content of the record handed over and the exception leaving the call decided on every path.')

prop('C24', 'An edit of the record of the running call reaches that record only',
     'Inside a decorated function, the message function replaces exactly the given fields of the record of the innermost running decorated call, and only that record: not those of outer, nested, earlier or later calls, of other tasks or of manual records written meanwhile. A later edit of a field wins over an earlier one, fields that were never given keep the values of the decorator, an exception given as an argument is described by its class name and text, wrong arguments are refused as for manual records, and an edit outside of any decorated call changes nothing.',
     ['inputs', 'histories', 'configurations'], 'all arguments and all nestings of decorated calls and edits',
     'Tests edit one record in one call; leaks between records appear only with particular nestings and failures.',
     ['polog/loggers/handle/message.py', FLF, 'polog/core/log_item.py'],
     [('the edit', 'polog/loggers/handle/message.py'), ('context variable of the running call', FLF)],
     AI, 'Programs nesting decorated calls, coroutines and edits (before, after, inside, failing) with opaque arguments; every field of every record decided on every path.')

prop('C25', 'The object returned by log(...) writes one record exactly if otherwise unused',
     'Calling log with a message or other arguments returns an object that can be dropped, used as a decorator or used as a context manager. Dropped at once it writes exactly one record with its message, level and other arguments, and nothing in the library keeps it alive; used as a decorator or context manager it writes none of its own - only those of the decorated calls or the context - however and whenever it is collected. Using it for something it does not support is refused with the documented error.',
     ['histories', 'inputs', 'configurations'], 'all orders of creating, using and collecting the object',
     'What is written depends on when the garbage collector drops the object; tests only see the immediate drop.',
     ['polog/loggers/finalizer.py', 'polog/loggers/router.py'],
     [('finalizer of the object', 'polog/loggers/finalizer.py'), ('dispatch', 'polog/loggers/router.py')],
     AI + '; heap reachability of the object from the roots of the library', 'Registration and detachment of the finalizer on every path, a heap reachability rule (no root of the library and no finalizer argument reaches the object), the record written when the finalizer fires.')

prop('C26', 'Extra fields are taken from the extractors that apply and from no others',
     'A record gets every registered extra field once: fields of the place where it was written before it is handed over, engine fields when it is processed. A decorator with fields of its own replaces the registered ones of that kind for its records only, unless it names them with an ellipsis, in which case both apply and its own win. Each extractor is called once with the record, its result goes through the converter of the field if there is one and is otherwise kept as it is, fields do not overwrite what the record already has unless that was allowed, an extractor that fails spoils no other field, and wrong extractors are refused when the decorator is created.',
     ['inputs', 'configurations', 'histories'], 'all sets of registered and own fields, extractors and settings',
     'Tests use one or two fields; precedence is over all combinations, orders of registration and outcomes of extractors.',
     [FLF, 'polog/core/log_item.py', 'polog/field.py', 'polog/data_structures/wrappers/fields_container/container.py'],
     [('own fields of a decorator', FLF), ('extraction', 'polog/core/log_item.py'), ('converter', 'polog/field.py')],
     AI, 'Programs registering, replacing and deleting fields around decorators of every form; which opaque extractor was called how often with what and where its result went is decided on every path, at the hand-over and after processing.')

prop('C27', 'Values and exceptions are encoded faithfully and never break the logged call',
     'The encoded form of arguments, results and local variables contains each of them exactly once, in place, with the name of its type: booleans, numbers and texts as they are, other objects as their text. A value without a text, or one the json module cannot encode, is replaced by a placeholder without affecting the other values; an exception without a text, or a traceback that cannot be formatted, likewise. The logged call, context manager or manual record is never broken by any of them and still gets its record.',
     ['inputs', 'fault_sequences'], 'all values, and failures of str(), of the json module and of traceback formatting',
     'Tests encode a few well-behaved values; hostile objects and encoder failures are not sampled.',
     ['polog/utils/json_vars.py', 'polog/core/utils/exception_to_dict.py', 'polog/core/utils/get_traceback.py', FLF],
     [('encoding of variables', 'polog/utils/json_vars.py'), ('description of exceptions', 'polog/core/utils/exception_to_dict.py'), ('traceback and locals', 'polog/core/utils/get_traceback.py')],
     AI, 'Opaque values with their types split exhaustively over the base types, str() and the json module failing or not per value: the data handed to the json module is compared with the specification on every path; decorated calls with such values are unbroken on every path.')

prop('C28', 'Records of the logging module are copied faithfully and exactly once',
     'While the integration is on, every record of the root logger of the standard logging module gives exactly one polog record with its message text, level, time, success flag (false from the warning level on), place in the code, thread, process and exception details, and none while the integration is off, however often it is switched. The logging module itself goes on as before: the record reaches its own handlers exactly if blocking of them is off. No record, whatever its message, arguments, level or exception, breaks the program that wrote it.',
     ['inputs', 'configurations', 'histories'], 'all records of the logging module and all sequences of switching the integration',
     'Tests log a few texts; messages, arguments, levels and exceptions are arbitrary objects, some of them hostile.',
     ['polog/core/stores/settings/actions/integration_with_logging.py', 'polog/core/stores/settings/settings_store.py'],
     [('filter on the root logger', 'polog/core/stores/settings/actions/integration_with_logging.py'), ('the two settings', 'polog/core/stores/settings/settings_store.py')],
     AI, 'The filter is interpreted on an opaque record (every field open, conversions failing or not); registrations of the filter are followed through all short switching histories; number and content of records and the result of the filter decided on every path.')

prop('C29', 'A smart assertion fails or is recorded exactly when it should be',
     'In debug mode a smart assertion raises AssertionError exactly if its condition is false, with the text of the given message or, without one, of the condition; otherwise it never raises. A false condition is recorded once, as an error with that text, when debug mode is off, or always if so configured; a true condition is never recorded. Conditions without a truth value and conditions or messages without a text break nothing else, and further arguments are refused with TypeError unless internal errors are silenced.',
     ['inputs', 'configurations'], 'all conditions, messages, modes and policies',
     'Tests use a few plain values; the rule is over all objects and all settings.',
     ['polog/loggers/handle/smart_assert.py', 'polog/core/stores/settings/settings_store.py'],
     [('the assertion', 'polog/loggers/handle/smart_assert.py'), ('the policy setting', 'polog/core/stores/settings/settings_store.py')],
     AI, 'Opaque condition and message, truth value and text failing or not, under every history of the policy setting; exception, number and content of records decided on every path.')

prop('C30', 'The namespace of handlers is a faithful map and its projections stay live',
     'A handler is registered under a dotted name, given or made up, that is free; taken or impossible names, objects that are not handlers and a handler object that is already registered are refused with an exception and without effect. Deleting by name or by object removes exactly that handler and leaves those below it; deleting what is not there raises. Lookup, size, iteration (breadth first) and delivery of records always agree with what is registered. A function bound to branches of the namespace delivers its records to its own handlers and to exactly the handlers that are registered in those branches at the time of the record, whatever was added and deleted since it was decorated.',
     ['histories', 'inputs'], 'all histories of registering and deleting handlers, before and after functions are bound to branches',
     'The tree keeps, prunes and shares nodes depending on the whole history; tests run a few short ones.',
     ['polog/config.py', 'polog/data_structures/trees/named_tree/tree.py', 'polog/data_structures/trees/named_tree/projector.py', 'polog/data_structures/trees/named_tree/walker.py', FLF],
     [('registration and deletion', 'polog/config.py'), ('the tree', 'polog/data_structures/trees/named_tree/tree.py'), ('branches bound to a function', 'polog/data_structures/trees/named_tree/projector.py')],
     AI + '; fixpoint over abstract heap shapes', 'Exploration to a fixpoint of all abstract heap shapes of the tree that histories over five names (three levels and the root) and the handlers can reach, from six ways of binding functions first; at every shape each operation and each observation is compared with a map from names to handlers. Made up names are covered by separate short histories.')

prop('C31', 'Names of levels and of extra fields mean what was last registered',
     'After any history of config.levels() and config.standard_levels() a registered name stands for the number last given to it, in every form of the loggers, and a number is called by a name that stands for it now: the last one given if that one still does, its digits if there is none. Names that are not public identifiers, negative or non-integer numbers and names of attributes of the loggers themselves are refused with an exception and without effect. Extra fields are a map from names to fields in the same sense: what was added last, until it is deleted; the names of the fields of the library itself and objects that are not fields are refused without effect.',
     ['histories', 'inputs'], 'all histories of registering level names and of adding and deleting extra fields, and all names and values',
     'Renaming a level, giving a number several names and colliding names only show after particular histories; tests register a few names once.',
     ['polog/config.py', 'polog/core/stores/levels.py', 'polog/core/stores/fields.py', 'polog/core/utils/name_manager.py'],
     [('registry of levels', 'polog/core/stores/levels.py'), ('possible names', 'polog/core/utils/name_manager.py'), ('registration', 'polog/config.py')],
     AI + '; fixpoint over abstract heap shapes', 'Exploration to a fixpoint of the heap shapes that histories of registrations reach, compared at every shape with a map; one registration of an opaque name and value; every attribute the loggers have or are asked for by the library is tried as a name of a level, every field the library writes as a name of an extra field.')

prop('C32', 'The line of a record in a file has one form and loses no field',
     'By default the file handler turns every record into one text: the time in square brackets, the name of the level (its number if it has none), SUCCESS, ERROR or UNKNOWN, AUTO or MANUAL, then what there is of the message in quotes, the place (service, module, class, function; a question mark for an unknown function), the time of work in seconds without superfluous zeros, the input variables, local variables and result with their types, the exception and the traceback, then every other field as "name: value" (texts in quotes) in the order of the record; these are separated by " | " and ended by the separator, once. Columns are padded, never cut. Fields that are absent or None are left out. A value that cannot be turned into text never loses the line, the letter or the other fields.',
     ['inputs', 'configurations', 'fault_sequences'], 'all records: every combination of fields, values with and without a text, and registries of levels',
     'Tests compare a few sample records; values without a text, names registered late and unusual combinations of fields are not sampled.',
     ['polog/handlers/file/base_formatter.py', 'polog/handlers/file/base_formatter_fields_extractors.py', 'polog/handlers/file/writer.py', 'polog/handlers/smtp/sender.py'],
     [('the line', 'polog/handlers/file/base_formatter.py'), ('parts of the line', 'polog/handlers/file/base_formatter_fields_extractors.py'), ('the letter', 'polog/handlers/smtp/sender.py')],
     AI, 'The written text is a term over opaque field values; it is compared with the term of the specification for every field alone, for all of them together and for all combinations of the place; conversions of values to text fail or not on separate paths. The texts the json module made are decoded to structures with opaque leaves. Durations and levels are compared for listed numbers only.')

prop('C33', 'Whatever is accepted as a handler can be called with a record',
     'A callable that is accepted as a handler, filter, alternative, formatter, assembler of letters, extractor or converter of a field can be called with one positional argument; every callable with exactly one required positional parameter and no others is accepted; anything that cannot be called with one positional argument, or not called at all, is refused with an exception when it is given, without being registered.',
     ['inputs'], 'all signatures of functions, methods, classes and callable objects, at every place that takes one',
     'Tests try a few signatures at a few places; a wrongly accepted one fails silently at every record.',
     ['polog/core/utils/signature_matcher.py', 'polog/config.py', 'polog/core/stores/handlers.py', 'polog/handlers/abstract/base.py', 'polog/handlers/file/writer.py', 'polog/handlers/smtp/sender.py', 'polog/field.py', FLF],
     [('comparison of signatures', 'polog/core/utils/signature_matcher.py'), ('validation at the entry points', 'polog/config.py')],
     AI, 'Every list of up to three parameters (all kinds, with and without an opaque default) in five forms of callables is offered to thirteen entry points; acceptance is compared with the binding rules of the language.')

prop('C34', 'Logging keeps nothing of the program alive',
     'With the synchronous engine, once a call, a manual log, a block, or a decoration is over, nothing in the library or the handlers it made refers to the function, the wrapper, the class, the arguments, the result, the exception, the record, or the context manager any more, except what the program itself registered (handlers, fields) and what the user still holds; waiting for an object to be collected never holds that object. The registry that remembers which functions are decorated is a faithful map of the living entries: what was put in and not removed or replaced is found again, an entry whose key or value was collected is as if it had never been there, and collecting one entry never disturbs another.',
     ['histories', 'inputs'], 'all functions, classes and calls; all histories of the registry and all moments at which its objects are collected',
     'Leaks grow over histories of any length and collection may happen at any point; tests hold their objects and look at a few entries.',
     ['polog/core/stores/registering_functions.py', 'polog/data_structures/wrappers/weak_linked/dictionary.py', 'polog/loggers/handle/function_logger.py', 'polog/loggers/router.py'],
     [('registry of functions', 'polog/core/stores/registering_functions.py'), ('weak dictionary', 'polog/data_structures/wrappers/weak_linked/dictionary.py')],
     AI, 'Reachability over the abstract heap at the end of every path, from the modules of the library and its context variables, weak references not followed; the registry is explored to a fixpoint of heap shapes up to renaming with two keys and two values, collection included as an operation. Objects held by the interpreter itself (frames, tracebacks, caches of standard modules) are not modelled.')

prop('C35', 'A time limit changes nothing but the time',
     'A function under a time limit (such as the exit handler, limited by max_delay_before_exit) is called exactly once with the arguments of the caller, and its result or exception reaches the caller, except that an interrupt during a limited call becomes TimeoutError. The timer runs for exactly the number of seconds asked for at the moment of the call, does nothing but interrupt the main thread, is started before the call and is cancelled after it on every path. A limit that cannot be obtained or is not a positive number means no limit and no timer; wrong arguments are refused with ValueError when the limit is made.',
     ['inputs', 'fault_sequences'], 'all functions, arguments, outcomes and delays, all outcomes of obtaining the delay',
     'Tests sleep for a few chosen delays; a timer left running interrupts the program at some later moment.',
     ['polog/core/utils/time_limit.py', 'polog/core/engine/engine.py'],
     [('the limit', 'polog/core/utils/time_limit.py')],
     AI, 'Opaque function, arguments and delay (number or function, returning anything or raising); calls of the function and of the timer on every path. How long a limited function really runs is not decided.')

prop('C36', 'log is a built-in name exactly while the setting says so',
     'After any history of config.set(log_is_built_in=...) the name log is available everywhere without import if the last value was True, and is the very object polog.log; it is not available if the last value was False or nothing was set. Setting it never raises for the values True and False.',
     ['histories'], 'all histories of the setting',
     'Tests switch it on once; switching off, repeating and switching back are particular histories.',
     ['polog/core/stores/settings/actions/set_log_as_built_in.py', 'polog/core/stores/settings/actions/decorator.py', 'polog/core/stores/settings/settings_store.py'],
     [('the action of the setting', 'polog/core/stores/settings/actions/set_log_as_built_in.py')],
     AI, 'Every history of up to three assignments; the state is one boolean and one name, so longer histories reach no new state.')

prop('C37', 'The memory handler holds the records since the last cleaning',
     'Every way to make a memory_saver gives the same object. After any history of records, cleanings and makings, its list of all records is exactly the records received since the last cleaning, in the order in which they were received, and its last record is the latest of them or None; making it again loses and repeats nothing, and no lock stays taken.',
     ['histories'], 'all histories of records, cleanings and makings',
     'Tests read the list after one or two records; making the handler again in the middle of a history is what a second module does.',
     ['polog/handlers/memory/saver.py', 'polog/core/utils/read_only_singleton.py'],
     [('the handler', 'polog/handlers/memory/saver.py')],
     AI, 'Every history of up to four operations with opaque records (five in the thorough tier) against a list. Two threads are the subject of C21.')

prop('C38', 'Decorators leave no trace in tracebacks',
     'The traceback of an exception that leaves a decorated function or coroutine (also a method, a decorated class, nested or recursive decorated calls) always shows every frame of the program, in order. With traceback_cutting on it shows no frame of the library: it is what it would be without the decorator. With traceback_cutting off the frames of the library are left in it. The traceback stored in the record of a failed decorated call starts with the decorated function and has all the frames below it.',
     ['inputs', 'schedules'], 'all decorated functions and coroutines, all exceptions of the Exception family, all settings',
     'Tests count the lines of the traceback of a single decorated call; how frames add up depends on nesting and on the way the exception is passed on.',
     ['polog/core/utils/cut_traceback.py', 'polog/core/utils/get_traceback.py', FLF],
     [('cutting', 'polog/core/utils/cut_traceback.py'), ('traceback of the record', 'polog/core/utils/get_traceback.py'), ('wrappers', FLF)],
     AI, 'Each exception carries the frames it has passed: a frame joins where it is raised by value and at every call it leaves, a bare raise adds none, and an assignment of the traceback replaces them (as in CPython since 3.11). 14 shapes of programs, both kinds of functions, opaque exceptions, every path. The texts of the lines are not modelled.')

prop('N01', 'The program waits at exit no longer than configured',
     'The time from the start of the exit handler to its end is at most max_delay_before_exit seconds, and shorter if all records are processed earlier.',
     ['schedules', 'inputs'], 'all workloads, handlers and delays', 'Tests measure a few runs.', ['polog/core/engine/engine.py', 'polog/core/utils/time_limit.py'], [('exit handler', 'polog/core/engine/engine.py')], '', '',
     na='It bounds wall-clock time that depends on the scheduler, on the code of the handlers and on when the interpreter delivers an interrupt; no static argument over the source bounds these. The structure around it (timer started, cancelled, what it does) is decided by C11 and C35.')

prop('N02', 'Logging costs little',
     'The overhead of a decorated call that is not recorded because of its level is bounded by a constant independent of its arguments.',
     ['inputs'], 'all calls', 'Benchmarks sample.', [FLF], [('wrappers', FLF)], '', '',
     na='A quantitative bound on running time; the costs of the interpreter and of user-defined conversions are runtime quantities outside static reach.')

prop('N03', 'Every duration is printed as its nearest decimal',
     'The duration in the line of a record is the duration of the record rounded to eight decimal places without superfluous zeros, for every number.',
     ['inputs'], 'all floating point numbers', 'Tests print a few numbers.', ['polog/handlers/file/base_formatter_fields_extractors.py'], [('duration', 'polog/handlers/file/base_formatter_fields_extractors.py')], '', '',
     na='The rounding of binary floating point numbers by the format operation is a numeric fact about all doubles that an abstract domain of terms cannot express; C32 decides the form of the text and the listed numbers.')

prop('N04', 'The language of rotation rules is exactly the documented one',
     'A text is accepted as rules of rotation if and only if it is a sentence of the documented grammar, over all texts.',
     ['inputs'], 'all texts', 'Tests try a few texts.', ['polog/handlers/file/rotation/parser.py'], [('parser', 'polog/handlers/file/rotation/parser.py')], '', '',
     na='The tokens are matched by a regular-expression engine at runtime against unbounded texts; deciding language equality of that program needs a model of the engine and of user-extensible tokens. C17 decides a table of shapes by constant propagation.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p, *_ in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
    for p, tech, note, na in P:
        i = p['id']
        if na:
            m['not_applicable'].append({'property': i, 'reason': na})
            continue
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': tech, 'level': 'other', 'level_note': note})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
