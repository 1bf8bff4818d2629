prop('C29', 'Registering in one thread never disturbs records or registering in others',
     'Concurrent registrations and removals of level names, handlers, fields and logged functions have the effect of some order of them one after another: none is lost, taken names are refused, none fails because of the others. A record made '
     'meanwhile is made exactly once, reaches every handler that stays registered, has every field that stays registered, and raises nothing into the program.',
     ['schedules', 'histories'], 'for every interleaving of two threads that register, remove and record',
     'Tests register everything in one thread before the first record.',
     ['config.py', 'core/stores/levels.py', 'core/stores/registering_functions.py', 'data_structures/trees/named_tree/tree.py', 'data_structures/trees/named_tree/walker.py',
      'data_structures/trees/named_tree/projector.py', 'data_structures/wrappers/fields_container/container.py', 'core/log_item.py'],
     [('registration', 'config.py'), ('tree', 'data_structures/trees/named_tree/tree.py'), ('levels', 'core/stores/levels.py')])
prop('C30', 'Every record given to the mail handler is one letter',
     'Every record the mail handler writes is exactly one letter from the given sender to the given address over a connection of its own, with the outcome in its subject and every field in its text (or as the given functions tell), and the connection is closed '
     'afterwards. When a step of the mailing fails, the record goes to the alternative, and no other letter, earlier, later or of another thread, is disturbed.',
     ['schedules', 'fault_sequences', 'inputs'], 'for every failing step, history of letters and interleaving of threads',
     'Tests replace the whole mailing by a stand-in and use one thread.',
     ['handlers/smtp/sender.py', 'handlers/smtp/smtp_dependency_wrapper.py', 'handlers/abstract/base.py'],
     [('mailing', 'handlers/smtp/smtp_dependency_wrapper.py'), ('letter', 'handlers/smtp/sender.py')])
prop('C31', 'The memory handler holds exactly the records since its last cleaning',
     'The handler that keeps records in memory holds exactly the records given to it since it was last cleaned, each once and in the order they were given, and names the last of them as the last one. Records and cleanings from several threads act as '
     'some order of them one after another.',
     ['schedules', 'histories'], 'for every history of records and cleanings and every interleaving of threads',
     'Tests clean the handler between single records of one thread.',
     ['handlers/memory/saver.py', 'handlers/abstract/base.py', 'core/utils/read_only_singleton.py'],
     [('keeping', 'handlers/memory/saver.py')])
prop('C32', 'A file handler writes where it was told and only adds',
     'A file handler made with a path, with an object of a file or with nothing writes every record exactly there (standard output for nothing), after everything the target already had, and each record is seen there at once unless forced flushing was turned off. '
     'It takes exactly the chosen locks for every record and leaves none behind whatever fails; wrong arguments are refused at once and leave what files hold as it was.',
     ['inputs', 'fault_sequences', 'histories'], 'for every old content, history of records, wording of the lock and failing step',
     'Tests write to fresh files, with the usual words for the locks and no failures.',
     ['handlers/file/writer.py', 'handlers/file/file_dependency_wrapper.py', 'handlers/file/locks/double_lock.py', 'handlers/file/locks/file_lock.py', 'handlers/file/locks/thread_lock.py', 'handlers/abstract/base.py'],
     [('target', 'handlers/file/file_dependency_wrapper.py'), ('locks', 'handlers/file/locks/double_lock.py'), ('arguments', 'handlers/file/writer.py')])
prop('C33', 'The logger keeps nothing of the program alive',
     'When the program forgets a logged or unlogged function, class or object, the arguments, result or exception of a logged call, a logger object, or a handler or field that was removed, the logger does not keep it: it is freed, whatever was recorded, suppressed, '
     'edited or failed before. New functions are never taken for forgotten ones.',
     ['histories', 'inputs'], 'for every stack of decorators, level, outcome and history of decorating and forgetting',
     'Tests hold their functions in modules and look at single weak references of the registry.',
     ['core/stores/registering_functions.py', 'data_structures/wrappers/weak_linked/dictionary.py', 'loggers/auto/function_logger.py', 'loggers/auto/class_logger.py', 'loggers/finalizer.py', 'unlog.py', 'core/log_item.py', 'config.py'],
     [('registry', 'core/stores/registering_functions.py'), ('weak references', 'data_structures/wrappers/weak_linked/dictionary.py'), ('wrappers', 'loggers/auto/function_logger.py')])
