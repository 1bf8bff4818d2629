"""Settings: only right values get in, a refused value changes nothing, and no forbidden combination is reachable."""
import builtins
import json
import types

from harness.common import log, config, sink, HI
from polog.core.stores.settings.settings_store import SettingsStore

CASES = ['numbers', 'flags', 'queue', 'logging', 'history', 'names', 'levels', 'unknown', 'modules', 'builtin', 'started', 'order']
BOUNDS = ('every setting with any integer in -10**9..10**9, a real in -10**6..10**6, booleans, None and texts of up to 3 characters; pairs of linked '
          'settings with any integers; histories of 4 changes; before and after the first record')
OUTSIDE = 'numbers that are not finite; concurrent changes (see the property about concurrent changes)'
ASSUMPTIONS = ['settings are read through the settings storage']
MARKS = {'numbers': ['accepted', 'refused'], 'queue': ['accepted', 'conflict'], 'logging': ['accepted', 'conflict']}


def try_set(**kw):
    try:
        config.set(**kw)
        return True
    except (ValueError, KeyError):
        return False


def read(name):
    return SettingsStore().force_get(name)


def value(sx, kinds):
    kind = sx.choice('kind', kinds)
    if kind == 'int':
        return kind, sx.int('int', -HI, HI)
    if kind == 'real':
        return kind, sx.real('real', -10 ** 6, 10 ** 6)
    if kind == 'text':
        return kind, sx.str('text', 3, alphabet='ab1_ .')
    if kind == 'bool':
        return kind, sx.flag('bool')
    if kind == 'list':
        return kind, [1]
    return kind, None


# setting -> accepted kinds and the condition on the value
NUMBERS = {
    'pool_size': (('int',), lambda v: v >= 0),
    'max_queue_size': (('int',), lambda v: v == 0),       # pool_size is 0 here
    'max_delay_before_exit': (('int', 'real'), lambda v: v >= 0),
    'delay_on_exit_loop_iteration_in_quants': (('int',), lambda v: v > 0),
    'time_quant': (('int', 'real'), lambda v: v > 0),
    'level': (('int',), lambda v: v >= 0),
    'default_level': (('int',), lambda v: v >= 0),
    'default_error_level': (('int',), lambda v: v >= 0),
}


def numbers(sx):
    name = sx.choice('name', sorted(NUMBERS))
    kinds, condition = NUMBERS[name]
    kind, v = value(sx, ['int', 'real', 'text', 'none', 'list'])
    before = read(name)
    ok = try_set(**{name: v}) if kind in ('int', 'real') else None
    if ok is None:
        try:
            config.set(**{name: v})
            ok = True
        except Exception:
            ok = False
    want = kind in kinds and condition(v)
    if want:
        sx.check(ok, 'a right value is accepted', (name, kind))
        sx.check(read(name) == v, 'the setting has the new value', name)
        sx.mark('accepted')
    else:
        sx.check(not ok, 'a wrong value is refused', (name, kind))
        sx.check(read(name) == before, 'a refused value changes nothing', (name, kind))
        sx.mark('refused')


FLAGS = ['silent_internal_exceptions', 'debug_mode', 'fields_intersection', 'unknown_fields_in_handle_logs', 'deduplicate_errors',
         'log_is_built_in', 'full_unlog', 'suppress_by_default', 'suppress_exception_subclasses', 'traceback_cutting', 'logging_off']


def flags(sx):
    name = sx.choice('name', FLAGS)
    kind, v = value(sx, ['bool', 'int', 'text', 'none', 'real'])
    before = read(name)
    try:
        config.set(**{name: v})
        ok = True
    except ValueError:
        ok = False
    sx.check(ok == (kind == 'bool'), 'a flag takes booleans and nothing else', (name, kind))
    sx.check(read(name) is (v if ok else before), 'a refused value changes nothing', (name, kind))
    if ok:
        other = not v
        config.set(**{name: other})
        sx.check(read(name) is other, 'a flag can be changed again')
    if name == 'log_is_built_in':
        config.set(log_is_built_in=False)


def queue(sx):
    """A queue with a limit needs threads: no sequence of changes ends with a limit and no threads."""
    for i in range(4 if sx.thorough else 3):
        name = sx.choice('name%d' % i, ['pool_size', 'max_queue_size'])
        v = sx.int('v%d' % i, -3, HI)
        before = (read('pool_size'), read('max_queue_size'))
        ok = try_set(**{name: v})
        after = (read('pool_size'), read('max_queue_size'))
        wanted = (v, before[1]) if name == 'pool_size' else (before[0], v)
        legal = v >= 0 and not (wanted[0] == 0 and wanted[1] != 0)
        if legal:
            sx.mark('accepted')
            sx.check(ok, 'a change without a conflict is accepted')
            sx.check(after[0] == wanted[0] and after[1] == wanted[1], 'an accepted change takes effect')
        else:
            sx.mark('conflict')
            sx.check(not ok, 'a change with a conflict is refused')
            sx.check(after[0] == before[0] and after[1] == before[1], 'a refused change changes nothing')
        sx.check(not (after[0] == 0 and after[1] != 0), 'a limit of the queue never stays without threads')


def logging(sx):
    """The standard logging is never silenced while its records are not copied."""
    for i in range(4):
        name = sx.choice('name%d' % i, ['integration_with_logging', 'logging_off'])
        v = sx.flag('v%d' % i)
        before = {n: read(n) for n in ('integration_with_logging', 'logging_off')}
        ok = try_set(**{name: v})
        wanted = dict(before)
        wanted[name] = v
        legal = not (wanted['logging_off'] and not wanted['integration_with_logging'])
        sx.mark('accepted' if legal else 'conflict')
        sx.check(ok == legal, 'a change is accepted iff it makes no conflict', (before, name, v))
        now = {n: read(n) for n in before}
        sx.check(now == (wanted if legal else before), 'a refused change changes nothing', (before, now))
    config.set(integration_with_logging=True)


def history(sx):
    """Different settings do not influence each other."""
    pool = ['level', 'default_level', 'default_error_level', 'full_unlog', 'deduplicate_errors', 'max_delay_before_exit', 'pool_size']
    model = {n: read(n) for n in pool + ['max_queue_size', 'suppress_by_default', 'time_quant']}
    for i in range(3):
        name = sx.choice('name%d' % i, pool)
        if name in ('full_unlog', 'deduplicate_errors'):
            v = sx.flag('v%d' % i)
            good = True
        else:
            v = sx.int('v%d' % i, -HI, HI)
            good = v >= 0
        ok = try_set(**{name: v})
        sx.check(ok == good, 'a change is accepted iff the value is right', name)
        if good:
            model[name] = v
        for n, want in model.items():
            sx.check(read(n) == want, 'a change touches only its setting', (name, n))


def names(sx):
    """The name of the service."""
    kind, v = value(sx, ['text', 'none', 'int', 'bool'])
    before = read('service_name')
    try:
        config.set(service_name=v)
        ok = True
    except ValueError:
        ok = False
    if kind == 'text':
        good = len(v) > 0
        for n, ch in enumerate(v):
            if not (ch in 'ab_' or (ch == '1' and n > 0)):
                good = False
    else:
        good = kind == 'none'
    sx.check(ok == good, 'a name of the service is an identifier or nothing', (kind, v))
    s = sink()
    log('text')
    if sx.check(s.count() == 1, 'one record'):
        sx.check(s.items[0].get('service_name') == (v if ok else before), 'records have the name of the service')


def levels(sx):
    """Levels by name."""
    a = sx.int('a', 0, HI)
    config.levels(alpha=a)
    name = sx.choice('name', ['level', 'default_level', 'default_error_level'])
    given = sx.choice('given', ['alpha', 'beta', '', 'Alpha'])
    before = {n: read(n) for n in ('level', 'default_level', 'default_error_level')}
    ok = try_set(**{name: given})
    sx.check(ok == (given == 'alpha'), 'a level is given by a registered name', given)
    for n in before:
        sx.check(read(n) == (a if ok and n == name else before[n]), 'the setting has the number of the level, the others are as before')
    b = sx.int('b', 0, HI)
    config.levels(alpha=b)
    sx.check(read(name) == (a if ok else before[name]), 'a name given to another number does not change the setting')


def unknown(sx):
    name = sx.choice('name', ['nothing', 'Level', 'level_', '__class__', 'lock', 'points', 'set'])
    before = {n: read(n) for n in SettingsStore().points}
    try:
        config.set(**{name: sx.choice('value', [0, True, None, 'text'])})
        sx.check(False, 'an unknown setting is refused')
    except KeyError:
        pass
    sx.check({n: read(n) for n in SettingsStore().points} == before, 'a refused change changes nothing')
    sx.check(name not in SettingsStore(), 'an unknown setting does not appear')


def modules(sx):
    """The json module, the policy of asserts, the engine."""
    name = sx.choice('name', ['json_module', 'smart_assert_politic'])
    if name == 'json_module':
        good = types.ModuleType('good')
        good.dumps = lambda x: 'd'
        good.loads = lambda x: 'l'
        half = types.ModuleType('half')
        half.dumps = lambda x: 'd'
        wrong = types.ModuleType('wrong')
        wrong.dumps, wrong.loads = lambda x: 'd', 5

        class Fake:
            dumps = loads = staticmethod(lambda x: 'd')
        v, ok = sx.choice('value', [(json, True), (good, True), (half, False), (wrong, False), (Fake, False), (None, False), (5, False)])
    else:
        v, ok = sx.choice('value', [('all', True), ('if_debug', True), ('ALL', False), ('', False), (None, False), (5, False), ('if', False)])
    before = read(name)
    got = try_set(**{name: v})
    sx.check(got == ok, 'a value is accepted iff it is right', (name, v))
    if not ok:
        sx.check(read(name) is before, 'a refused value changes nothing')
    elif name == 'json_module':
        sx.check(read(name) is v, 'the setting has the new value')
        s = sink()
        log('text')(lambda x: x)(5)
        if v is good:
            sx.check(s.items[0]['result'] == 'd' and s.items[0]['input_variables'] == 'd', 'records are made with the chosen module')


def builtin(sx):
    """log as a built-in name follows the setting."""
    for i in range(3):
        v = sx.flag('v%d' % i)
        config.set(log_is_built_in=v)
        sx.check(hasattr(builtins, 'log') == v, 'log is a built-in name iff the setting is on', (i, v))
        if v:
            sx.check(builtins.log is log, 'the built-in name is the logger')
    config.set(log_is_built_in=False)


def started(sx):
    """The first record starts the engine once; the mark of the start cannot be taken back or set twice."""
    s = sink()
    early = sx.choice('early', [False, True])
    if early:
        log('text')
        sx.check(read('started') is True, 'the first record starts the engine')
        for v in (False, True):
            try:
                SettingsStore()['started'] = v
                sx.check(False, 'the engine cannot be started twice or marked as not started')
            except Exception:
                pass
        sx.check(read('started') is True, 'the engine stays started')
    else:
        try:
            SettingsStore()['started'] = sx.choice('value', [False, 1, None, 'yes'])
            sx.check(False, 'a wrong value is refused')
        except ValueError:
            pass
        sx.check(read('started') is False, 'a refused value changes nothing')
    level = sx.int('level', 0, HI)
    sx.check(try_set(level=level, default_level=level), 'settings can be changed before and after the first record')
    sx.check(read('level') == level, 'the setting has the new value')
    n = s.count()
    log('text', level=level)
    sx.check(s.count() == n + 1, 'records are made with the new settings')


def order(sx):
    """Several settings in one call are set one after another, up to the refused one."""
    names = ['pool_size', 'max_queue_size', 'level', 'default_level', 'full_unlog']
    model = {n: read(n) for n in names}
    if sx.flag('threads before'):
        config.set(pool_size=2, max_queue_size=sx.choice('limit before', [0, 3]))
        model = {n: read(n) for n in names}
    given = {}
    for i in range(3):
        name = sx.choice('name%d' % i, [n for n in names if n not in given])
        if name == 'full_unlog':
            given[name] = sx.choice('v%d' % i, [False, 'wrong'])
        else:
            given[name] = sx.int('v%d' % i, -1, 4)
    ok = True
    for name, v in given.items():
        new = dict(model)
        new[name] = v
        good = v is False if name == 'full_unlog' else v >= 0 and not (new['pool_size'] == 0 and new['max_queue_size'] != 0)
        if not good:
            ok = False
            break
        model = new
    sx.check(try_set(**given) == ok, 'settings are accepted iff each is right after those before it', list(given))
    for n in names:
        sx.check(read(n) == model[n], 'settings are set one after another, up to the refused one', n)
    if read('pool_size') != 0:
        try_set(max_queue_size=0)
        try_set(pool_size=0)
