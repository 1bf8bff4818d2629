"""Writes properties.jsonl and MANIFEST.json.  Run by hand after editing; the checks do not use it."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['polog/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'polog/' + w} for n, w in mechanism],
                          'state': [{'name': n, 'meaning': m, 'where': 'polog/' + w} for n, m, w in state],
                          'observe_at': list(observe)}})


prop('C01', 'A logged callable behaves exactly like the original',
     'Decorating a function, coroutine function, method or class with the logger changes nothing a caller can observe except that records are '
     'made: it is called exactly once per call with exactly the given arguments, returns the very object or raises the very exception it would '
     'have without the decorator, and keeps its kind, name and documentation. This holds for any values (also ones that cannot be printed, compared or '
     'modified), any settings and any behaviour of handlers and field extractors.',
     ['inputs', 'configurations', 'programs'], 'for every callable, arguments, result, exception, levels and failing handlers',
     'Tests use a few friendly values; objects whose conversion or modification fails, and all level relations, are not reached.',
     ['loggers/auto/function_logger.py', 'loggers/auto/class_logger.py', 'loggers/router.py', 'utils/json_vars.py',
      'core/utils/exception_to_dict.py', 'core/utils/get_traceback.py'],
     [('function decorator', 'loggers/auto/function_logger.py'), ('class decorator', 'loggers/auto/class_logger.py')],
     observe=['return value, exception object and arguments seen by the decorated callable'])
prop('C02', 'Exactly the chosen exceptions are swallowed',
     'An exception leaves a logged block, or a logged function with suppression, unless its class was chosen to be suppressed: chosen explicitly, or '
     'as a subclass of a chosen class when the setting for subclasses is on, or, when no class was chosen, by asking for all or (for blocks) by the setting of suppression by default. Every exception that is not '
     'chosen goes on as the same object, and a suppressed one makes the call return None.',
     ['inputs', 'configurations'], 'for every set of chosen classes, exception class and combination of settings',
     'Tests check a few pairs of classes with one setting each; the relation is over all combinations.',
     ['loggers/finalizer.py', 'core/utils/exception_is_suppressed.py', 'loggers/router.py', 'loggers/auto/function_logger.py'],
     [('decision', 'core/utils/exception_is_suppressed.py'), ('block exit', 'loggers/finalizer.py')])
prop('C03', 'An event is recorded iff its level reaches the global level',
     'A manual record, a call of a logged function or a logged block is recorded exactly once if its level is at least the global level, and not at all '
     'otherwise. The level is the one given for the event (a number or a registered name) or else the default level; for a failed call, the one given for errors or else the highest of the '
     'two default levels and the level of the call; the record carries it.',
     ['inputs', 'configurations'], 'for every global, default, default error, named and per-event level',
     'Tests compare a handful of constants; boundary equality and the mix of names, numbers and defaults are not covered.',
     ['loggers/auto/function_logger.py', 'loggers/handle/abstract.py', 'loggers/finalizer.py', 'core/utils/get_errors_level.py', 'core/stores/levels.py'],
     [('gate of decorators', 'loggers/auto/function_logger.py'), ('gate of manual records', 'loggers/handle/abstract.py')])
prop('C04', 'Every record reaches each of its handlers exactly once',
     'Every record is given exactly once to every handler registered at that time (or exactly to those chosen for its source), as the same complete '
     'record, whatever the other handlers do: fail with any exception, try to change the record, or compare equal to each other. A failing handler never '
     'disturbs the program or the next records.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'], 'for every set of handlers, every subset of them failing, every sequence of records',
     'Tests use one or two handlers that work; the product of failing handlers, places in the tree and sources of records is not tested.',
     ['core/engine/real_engines/abstract.py', 'core/engine/real_engines/singlethreaded/engine.py', 'core/engine/engine.py', 'core/log_item.py'],
     [('loop over handlers', 'core/engine/real_engines/abstract.py')])
prop('C05', 'A record is a read-only mapping ordered by its time',
     'A handler cannot change, add or remove fields of a record; reading it as a mapping (keys, values, items, length, membership, get, missing '
     'keys) always agrees with the fields it was made with. Records that have a time compare, sort and are equal exactly as their times are.',
     ['inputs', 'histories'], 'for every set of fields and every triple of times',
     'Tests compare single pairs of records; order laws and the mapping interface are universal statements.',
     ['core/log_item.py'], [('record', 'core/log_item.py')])
prop('C06', 'Extra fields: exactly the chosen ones, a failing one drops only itself',
     'A record has exactly the automatic fields and the registered or locally chosen extra fields, each with the (converted) value its extractor returned for '
     'this very event. An extractor or converter that fails drops its field only; an extra field replaces an automatic one only when intersections '
     'are allowed.',
     ['inputs', 'configurations', 'fault_sequences'], 'for every mix of global and local fields, colliding names and failing extractors',
     'Tests use one field at a time; collisions, shapes of local lists and failures are combinatorial.',
     ['core/log_item.py', 'field.py', 'core/stores/fields.py', 'data_structures/wrappers/fields_container/container.py', 'loggers/auto/function_logger.py'],
     [('extraction', 'core/log_item.py'), ('field', 'field.py')])
prop('C07', 'A record about a call describes that call',
     'The record of a call or block has the function, module, class, arguments, result or exception, success flag, start time and duration of that very call, also when '
     'calls are nested or coroutines overlap. A manual record has exactly the given fields, with a given exception described by its type and text.',
     ['inputs', 'histories'], 'for every arguments, result, exception, duration and nesting of calls',
     'Tests look at one field for one constant input; overlap and arbitrary values are not covered.',
     ['loggers/auto/function_logger.py', 'utils/json_vars.py', 'core/utils/exception_to_dict.py', 'loggers/handle/handle_log.py', 'loggers/handle/abstract.py'],
     [('collection of data', 'loggers/auto/function_logger.py'), ('manual record', 'loggers/handle/handle_log.py')])
prop('C08', 'Unlogged code records nothing and only it is left out',
     'A function, coroutine, method or class marked as unlogged is never recorded wherever the mark stands among other decorators, and in the full mode nothing is recorded while '
     'it runs. Everything outside of it (the callers, what runs after it returns or raises, parallel tasks) is recorded as usual, and the marked code behaves as before.',
     ['programs', 'histories', 'configurations', 'schedules'], 'for every nesting, exit, mode and interleaving of tasks',
     'Tests check single calls; nesting, failing bodies and parallel tasks are not reached.',
     ['unlog.py', 'core/stores/registering_functions.py', 'loggers/auto/class_logger.py', 'loggers/handle/abstract.py'],
     [('unlog decorator', 'unlog.py'), ('table of decorated functions', 'core/stores/registering_functions.py')])
prop('C09', 'Every logged block gives exactly one record, its own',
     'Each block under the logging context manager gives exactly one record with the fields, level, outcome and duration of that very block, in any nesting, sequence or '
     'interleaving of tasks. A logger object used as a decorator or a block gives no further record, and one that is never used gives exactly one manual record.',
     ['programs', 'histories', 'schedules'], 'for every nesting and interleaving of blocks, every outcome and field value',
     'Tests open one block at a time; nested and interleaved blocks are not tested.',
     ['loggers/router.py', 'loggers/finalizer.py', 'loggers/partial.py'],
     [('router', 'loggers/router.py'), ('block', 'loggers/finalizer.py')])
prop('C10', 'In-call edits change exactly the record of their own call',
     'An edit of the message, level, exception or fields made inside a logged call changes exactly the record of that call and nothing else: not the records of '
     'its callers, callees, later calls or parallel tasks, and not its result or exception. Fields that are not edited stay as they were.',
     ['histories', 'inputs', 'schedules'], 'for every edit, call chain, history and interleaving of tasks',
     'Tests edit one call; leaks between calls and tasks need histories.',
     ['loggers/handle/message.py', 'loggers/auto/function_logger.py', 'loggers/handle/abstract.py'],
     [('edit', 'loggers/handle/message.py'), ('use of the edit', 'loggers/auto/function_logger.py')])
prop('C11', 'An exception passing through logged calls is recorded once',
     'With deduplication on, an exception that passes through several logged calls is recorded by the first of them whose level suffices and by no other; with it off, by every such '
     'call. Different exceptions never hide each other, and the exception still reaches the caller.',
     ['programs', 'inputs', 'configurations'], 'for every chain of calls, levels, exceptions and settings',
     'Tests use a chain of two functions with equal levels.',
     ['loggers/auto/function_logger.py', 'core/utils/get_errors_level.py'], [('mark on the exception', 'loggers/auto/function_logger.py')])
prop('C12', 'Of several logging decorators exactly one works',
     'However many logging decorators are stacked on a function, method or class, one call gives one record, made by the outermost; a method\'s own decorator has priority over its class\'s, and the '
     'nearest decorated class over its bases. A class decorator touches exactly the chosen methods and leaves everything else in the class as it was.',
     ['programs', 'histories'], 'for every mix of decorators, versions of one function, method lists and inheritance',
     'Tests stack two decorators; trees of versions and inheritance are not covered.',
     ['core/stores/registering_functions.py', 'loggers/auto/function_logger.py', 'loggers/auto/class_logger.py', 'core/utils/class_attributes.py'],
     [('registry', 'core/stores/registering_functions.py'), ('class decorator', 'loggers/auto/class_logger.py')])
prop('C13', 'The tree of handler names agrees with what was registered',
     'After any history of additions and removals, exactly the handlers that were added and not removed are registered, each found under exactly its dotted name; taken, malformed and '
     'unknown names are refused and change nothing. A branch chosen for a decorator means exactly the handlers at and below that name now.',
     ['histories', 'inputs'], 'for every history of additions and removals over dotted names',
     'Tests check single operations; the agreement is an invariant over histories.',
     ['data_structures/trees/named_tree/tree.py', 'data_structures/trees/named_tree/walker.py', 'data_structures/trees/named_tree/projector.py', 'config.py', 'core/utils/pony_names_generator.py'],
     [('tree', 'data_structures/trees/named_tree/tree.py')])
prop('C14', 'Settings accept only right values; a refused change changes nothing',
     'A setting takes a value iff it is of the right type and range and does not conflict with the other settings; an accepted value is what is read and acted on '
     'afterwards, and a refused one leaves every setting as it was (settings given in one call are set one after another, up to the refused one). No history of changes reaches a forbidden combination.',
     ['inputs', 'histories', 'configurations'], 'for every value of every setting and every history of changes',
     'Tests try a few values per setting; ranges and histories are not enumerable.',
     ['core/stores/settings/settings_store.py', 'core/stores/settings/setting_point.py', 'config.py'],
     [('setting', 'core/stores/settings/setting_point.py'), ('store', 'core/stores/settings/settings_store.py')])
prop('C15', 'Level names always mean the number they were last given',
     'After any history of registrations a level name means exactly the number it was last given, in every place a level can be named, and a number is shown under a name that currently means it, or as '
     'the number itself. Invalid names or numbers are refused, and an unregistered name never records under a wrong level.',
     ['histories', 'inputs'], 'for every history of registrations of names and numbers',
     'Tests register names once; renaming histories are not covered.',
     ['core/stores/levels.py', 'config.py', 'handlers/file/base_formatter_fields_extractors.py'], [('level store', 'core/stores/levels.py')])
prop('C16', 'Manual records: wrong arguments are never fatal in the silent mode',
     'A manual record with right arguments is made with exactly these fields; with wrong ones it is, in the silent mode, made from the right part of the arguments without any exception '
     'and, in the other mode, refused with an exception. The mode never changes what right arguments give.',
     ['inputs', 'configurations'], 'for every combination of right and wrong arguments, levels and modes',
     'Tests try single wrong arguments in one mode.',
     ['loggers/handle/abstract.py', 'loggers/handle/handle_log.py', 'core/utils/exception_escaping.py'],
     [('validation', 'loggers/handle/abstract.py')])
prop('C17', 'A failed logged assertion is reported exactly once',
     'The logged assertion does nothing when its condition is true; when false, it raises an assertion error with the given text in the debug mode, and records exactly one failure with that text outside the debug '
     'mode or, by the setting, always; never more than one, and only if the level lets it through. The condition may be any object.',
     ['inputs', 'configurations'], 'for every condition, text, level and mode',
     'Tests use constants; truthiness of arbitrary objects and level relations are not covered.',
     ['loggers/handle/smart_assert.py'], [('assertion', 'loggers/handle/smart_assert.py')])
prop('C18', 'Copying of the standard logging is complete and harmless',
     'With the integration on, every call of the standard logging that reaches the root logger, or a logger given the documented filter, gives exactly one record with its level, text and exception, and no legal call '
     'raises or changes its own effect because of it. With it off, nothing is copied, and turning it on and off any number of times leaves the standard logging as it was.',
     ['inputs', 'histories', 'configurations'], 'for every logging call, level and history of switching',
     'Tests make one plain call; formats, exceptions, levels and switching histories are not covered.',
     ['core/stores/settings/actions/integration_with_logging.py'], [('interception', 'core/stores/settings/actions/integration_with_logging.py')])
prop('C19', 'A handler with a filter and an alternative never drops a record silently',
     'For every record a base handler either writes it or, when its error-only choice or its filter refuses it or anything in filtering, converting or writing fails, gives it to the alternative, if there is one, '
     'exactly once; never both, and never neither. No such failure reaches the program.',
     ['fault_sequences', 'inputs', 'configurations'], 'for every outcome of the filter, the conversion, the writing and the alternative',
     'Tests check single outcomes; the product of failures is not covered.',
     ['handlers/abstract/base.py', 'handlers/file/writer.py', 'handlers/smtp/sender.py', 'handlers/memory/saver.py'],
     [('base handler', 'handlers/abstract/base.py')])
prop('C20', 'Rotation happens exactly when the file reaches the written limit',
     'A rotation rule is accepted iff it reads as a positive number and a unit of size, and then the file is rotated before a record exactly when its size is at least that number of '
     'units (of 1024), whichever of several rules fires. The destination written after the arrow is used; anything else is refused.',
     ['inputs', 'configurations'], 'for every number, unit, writing of the rule, file size and number of rules',
     'Tests parse a few strings; numbers, sizes and spellings are unbounded.',
     ['handlers/file/rotation/rotator.py', 'handlers/file/rotation/parser.py', 'handlers/file/rotation/rules/rules/file_size_rule.py',
      'handlers/file/rotation/rules/rules/tokenization/tokens/size_token.py', 'handlers/file/rotation/rules/rules/tokenization/tokens/tokens_group.py'],
     [('rule', 'handlers/file/rotation/rules/rules/file_size_rule.py'), ('tokens', 'handlers/file/rotation/rules/rules/tokenization/tokenizator.py')])
prop('C21', 'A line of the log file tells what the record holds',
     'Every record gives exactly one entry, ended by the separator, that has every present field, in the fixed order, with its value; an absent field leaves no trace, a field chosen by the user is shown '
     'by the user\'s converter. No value of any field makes the line disappear.',
     ['inputs', 'configurations'], 'for every subset of fields and every value of them',
     'Tests format a few records; optional parts combine in hundreds of ways and number formatting has corner values.',
     ['handlers/file/base_formatter.py', 'handlers/file/base_formatter_fields_extractors.py', 'handlers/file/writer.py'],
     [('formatter', 'handlers/file/base_formatter.py'), ('values', 'handlers/file/base_formatter_fields_extractors.py')])
prop('C22', 'A callable is accepted as handler or extractor iff its signature fits',
     'A callable is accepted as a handler, filter, extractor or converter iff it takes exactly one required positional argument and nothing else (none defaulted, variadic or keyword-only), whatever kind of callable it '
     'is; everything else is refused at once with an error, and what was accepted never fails later because of how it is called.',
     ['programs', 'inputs'], 'for every signature: positional, defaulted, variadic and keyword-only parameters, methods, classes and partial objects',
     'Tests list a few signatures; the relation is over all of them.',
     ['core/utils/signature_matcher.py', 'config.py', 'field.py'], [('matcher', 'core/utils/signature_matcher.py')])
prop('C23', 'No record is lost or doubled when the engine starts or is reloaded',
     'Every record made by any thread is given to the handlers exactly once whatever the schedule, also while the very first records start the engine and while settings that rebuild the '
     'engine are being changed by another thread. No schedule makes the writing threads or the change wait for ever.',
     ['schedules', 'histories'], 'for every interleaving of writers and changes of settings',
     'Tests run threads without control of the schedule.',
     ['core/engine/engine.py', 'core/engine/real_engines/multithreaded/engine.py', 'core/stores/settings/actions/reload_engine.py'],
     [('engine', 'core/engine/engine.py')])
prop('C24', 'Stopping the pool of threads writes everything accepted before',
     'Every record accepted by the multithreaded engine is given to its handlers exactly once before the stop returns, whatever handlers do, unless the configured delay on exit '
     'has run out. The stop always returns and leaves no thread behind.',
     ['schedules', 'fault_sequences', 'histories'], 'for every interleaving of writers, workers and the stop, with failing handlers',
     'Tests cannot choose the moment of the stop between the steps of a worker.',
     ['core/engine/real_engines/multithreaded/pool.py', 'core/engine/real_engines/multithreaded/worker.py', 'core/engine/real_engines/multithreaded/engine.py', 'core/utils/time_limit.py'],
     [('pool', 'core/engine/real_engines/multithreaded/pool.py'), ('worker', 'core/engine/real_engines/multithreaded/worker.py')])
prop('C25', 'Concurrent changes of linked settings keep them consistent',
     'Whatever the schedule of concurrent changes and reads of settings, no forbidden combination of linked settings is ever reached, no accepted change is lost, a reader sees only values that '
     'were set, and no schedule ends in a deadlock.',
     ['schedules', 'configurations'], 'for every interleaving of two or three threads that change linked settings',
     'Tests do not control schedules.',
     ['core/stores/settings/setting_point.py', 'core/stores/settings/settings_store.py'],
     [('locks of settings', 'core/stores/settings/setting_point.py')])
prop('C26', 'Lines of concurrent writers are whole and none is lost by a rotation',
     'With any number of threads and handlers that write to one file, every record gives exactly one whole line in the file or in exactly one archive, also when rotations happen in between. '
     'Lock holders exclude each other, every lock is released whatever fails, and no schedule ends in a deadlock.',
     ['schedules', 'fault_sequences'], 'for every interleaving of writers, rotations and failing operations',
     'Tests do not control schedules and never make the file system fail.',
     ['handlers/file/writer.py', 'handlers/file/locks/double_lock.py', 'handlers/file/locks/file_lock.py', 'handlers/file/locks/thread_lock.py',
      'handlers/file/file_dependency_wrapper.py', 'handlers/file/rotation/rotator.py'],
     [('double lock', 'handlers/file/locks/double_lock.py'), ('move of the file', 'handlers/file/file_dependency_wrapper.py')])
prop('C27', 'A rotation keeps every byte and overwrites no archive',
     'Whatever times, sizes and existing files, a rotation moves the whole content of the log file to a new file in the destination and never overwrites an existing one; the log file then '
     'goes on empty and receives the next records.',
     ['inputs', 'histories', 'fault_sequences'], 'for every history of records and rotations, clock values and files already present',
     'Tests rotate once with different times.',
     ['handlers/file/rotation/rotator.py', 'handlers/file/file_dependency_wrapper.py'],
     [('destination', 'handlers/file/rotation/rotator.py'), ('move', 'handlers/file/file_dependency_wrapper.py')])
prop('C28', 'Shared stores have one instance whatever the schedule',
     'Concurrent first uses of the shared objects of the logger (settings, the engine, the registries) all get one and the same fully initialised object.',
     ['schedules'], 'for every interleaving of the first uses',
     'Tests create the objects in one thread.',
     ['core/utils/read_only_singleton.py', 'core/stores/settings/settings_store.py', 'core/engine/engine.py'],
     [('singleton', 'core/utils/read_only_singleton.py')])

exec(open(os.path.join(HERE, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more.py')) else None

built = {f[:-3] for f in os.listdir(os.path.join(HERE, 'harness')) if f.startswith('C') and f.endswith('.py')}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
        assert len(p['title']) <= 80, p['title']
SCHED = {'C23', 'C24', 'C25', 'C26', 'C28', 'C29', 'C30', 'C31'}
checks, missing = [], []
for p in P:
    if p['id'] not in built:
        missing.append({'property': p['id'], 'reason': 'the check is not built yet'})
        continue
    sched = p['id'] in SCHED
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': ('symbolic execution of the real threads with a symbolic scheduler (z3), counterexample schedules replayed' if sched else
                      'symbolic execution of the instrumented real source (z3), counterexamples replayed on the plain code'),
        'level': 'other',
        'level_note': ('Bounded: every feasible path of the real code under the harness is followed with symbolic inputs%s, and the solver decides every branch and '
                       'assertion on it for all values within the bounds printed in the evidence. Trusts the instrumentation, the models of built-ins '
                       'and the stand-ins listed in DESIGN.md; every reported violation is first confirmed by a replay on the unmodified code.'
                       % (' and a symbolic scheduler' if sched else '')),
    })
manifest = {'version': 1, 'setup_cmd': 'python3-vt run.py --selftest', 'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks in /repo; the encoding is regenerated from the source in /repo on every run.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
