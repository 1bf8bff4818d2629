"""Settings: concurrent changes of linked settings are like changes one after another."""
import builtins
import itertools
import logging

from symx import conc
conc.install()

from polog import log, config, field
from polog.core.stores.settings.settings_store import SettingsStore
from polog.core.log_item import LogItem

CASES = ['pool', 'working', 'standard', 'builtin', 'intersection', 'single', 'readers']
YIELD_IN = ['polog.core.stores.settings', 'polog.core.log_item', 'polog.config', 'polog.core.engine.engine']
YIELD_NOT = ['action', 'conflicts', 'proves', 'store', 'name', 'get', 'fields', '_handlers', 'extra_fields', '_function_input_data', 'points_are_informed', 'lock', 'settings']
BOUNDS = ('2 threads with 1 or 2 changes each (3 threads in the case of readers) of pool_size 0..2 and max_queue_size 0..2, of the copying of the standard logging and its suppression, of the built-in logger, of '
          'the intersection of fields, and of any single setting; every schedule with at most 2 forced switches (3 in the thorough tier) at any statement of the settings that touches a changing attribute and at any '
          'operation of a lock; any number of free choices when a thread waits or ends')
OUTSIDE = 'more forced switches; settings changed by handlers and by custom engines'
ASSUMPTIONS = ['locks and threads are stand-ins with the documented meaning']
MARKS = {'pool': ['done', 'refused', 'accepted'], 'working': ['done'], 'standard': ['done', 'refused'], 'builtin': ['done'], 'intersection': ['done'], 'single': ['done'], 'readers': ['done']}


def change(name, value, results):
    """Make a change; what came out of it."""
    def do():
        try:
            config.set(**{name: value})
            results.append((name, value, True))
        except ValueError:
            results.append((name, value, False))
    return do


def orders(first, second):
    """All the ways to put two sequences one into another."""
    n = len(first) + len(second)
    for places in itertools.combinations(range(n), len(first)):
        a, b = iter(first), iter(second)
        yield [(0, next(a)) if i in places else (1, next(b)) for i in range(n)]


def serial(sx, start, rule, plans, results, final, label):
    """Is there an order of the changes that gives these results and this final state?"""
    for order in orders(*plans):
        state, got = dict(start), ([], [])
        for who, (name, value) in order:
            new = dict(state)
            new[name] = value
            ok = rule(state, new, name)
            got[who].append((name, value, ok))
            if ok:
                state = new
        if list(got) == [list(r) for r in results] and state == final:
            sx.check(True, label)
            return
    sx.check(False, label, (plans, results, final))


def threads(sx, plans, results, preemptions=None, before=None, after=None, more=(), free=None):
    def worker(i):
        def work():
            for name, value in plans[i]:
                change(name, value, results[i])()
        work.__name__ = 'changer %d' % i
        return work
    return conc.run(sx, [worker(0), worker(1)] + list(more), preemptions=preemptions or (3 if sx.thorough else 2), before=before, after=after, free=free)


def pool_rule(old, new, name):
    if name == 'max_queue_size':
        return not (new['max_queue_size'] != 0 and new['pool_size'] == 0)
    return not (new['pool_size'] == 0 and new['max_queue_size'] != 0)


def pools(sx, started):
    start = sx.choice('start', [(0, 0), (1, 0), (1, 1)] if not started else [(1, 0)])
    plans = [[('pool_size', sx.choice('a', [0, 1, 2] if not started else [0, 2]))], [('max_queue_size', sx.choice('b', [0, 1, 2] if not started else [0, 1]))]]
    if sx.thorough and not started:
        plans[0].append(('pool_size', sx.choice('a2', [0, 1])))
    results = ([], [])
    start = {'pool_size': start[0], 'max_queue_size': start[1]}

    def before():
        config.set(pool_size=start['pool_size'])
        config.set(max_queue_size=start['max_queue_size'], level=0)
        if started:
            log('zero')

    threads(sx, plans, results, before=before, free=1 if started else None, preemptions=(2 if sx.thorough else 1) if started else None)
    store = SettingsStore()
    final = {name: store.force_get(name) for name in start}
    for r in results[0] + results[1]:
        sx.mark('accepted' if r[2] else 'refused')
    sx.check(not (final['pool_size'] == 0 and final['max_queue_size'] != 0), 'a queue of a limited size never goes without a pool', final)
    serial(sx, start, pool_rule, plans, results, final, 'concurrent changes of the pool and the queue are like changes one after another')


def pool(sx):
    pools(sx, False)


def working(sx):
    pools(sx, True)


def standard(sx):
    def rule(old, new, name):
        return not (new['logging_off'] and not new['integration_with_logging'])

    start = sx.choice('start', [(True, True), (True, False), (False, False)])
    plans = [[('integration_with_logging', sx.flag('a'))], [('logging_off', sx.flag('b'))]]
    if sx.flag('other order'):
        plans[1] = [('integration_with_logging', sx.flag('c'))]
    results = ([], [])
    start = {'integration_with_logging': start[0], 'logging_off': start[1]}
    old = list(logging.root.filters)

    def before():
        config.set(logging_off=False)
        config.set(integration_with_logging=start['integration_with_logging'])
        config.set(logging_off=start['logging_off'])

    threads(sx, plans, results, before=before)
    store = SettingsStore()
    final = {name: store.force_get(name) for name in start}
    for r in results[0] + results[1]:
        sx.mark('accepted' if r[2] else 'refused')
    serial(sx, start, rule, plans, results, final, 'concurrent changes of the copying of logging are like changes one after another')
    got = []
    config.add_handlers(lambda item: got.append(item['message']))
    config.set(level=0)
    logging.getLogger().warning('text')
    sx.check(len(got) == int(final['integration_with_logging']), 'the standard logging is copied iff the setting says so', got)


def builtin(sx):
    start = sx.flag('start')
    plans = [[('log_is_built_in', sx.flag('a'))], [('log_is_built_in', sx.flag('b'))]]
    results = ([], [])
    threads(sx, plans, results, before=lambda: config.set(log_is_built_in=start))
    final = SettingsStore().force_get('log_is_built_in')
    sx.check(hasattr(builtins, 'log') == final, 'the built-in logger is there iff the setting says so', final)
    serial(sx, {'log_is_built_in': start}, lambda *a: True, plans, results, {'log_is_built_in': final}, 'concurrent changes are like changes one after another')
    if hasattr(builtins, 'log'):
        del builtins.log


def intersection(sx):
    """The very first record is made while the setting is changed."""
    value = sx.choice('values', [[True], [True, False], [False, True]])
    plans = [[('fields_intersection', v) for v in value], []]
    results = ([], [])

    def first():
        LogItem()

    threads(sx, plans, results, more=[first])
    item = LogItem()
    item.set_data({'module': 'old'})
    item.set_extra_fields({'module': field(lambda log_item: 'new', converter=None)})
    item()
    sx.check(item['module'] == ('new' if value[-1] else 'old'), 'a record obeys the accepted value of the setting', item['module'])


def single(sx):
    """Two changes of one setting and a reader."""
    name, options = sx.choice('setting', [('debug_mode', [True, False]), ('level', [3, 5]), ('service_name', ['a', 'b']), ('time_quant', [0.5, 2.0])])
    plans = [[(name, options[0])], [(name, options[1])]]
    results = ([], [])
    store = SettingsStore()
    old = store.force_get(name)
    seen = []

    def reader():
        seen.append(store[name])
        seen.append(store[name])

    threads(sx, plans, results, more=[reader])
    sx.check(store[name] in options, 'the final value is one of those that were set', store[name])
    sx.check(all(v == old or v in options for v in seen), 'a reader sees only values that were set', seen)
    sx.check(results == ([(name, options[0], True)], [(name, options[1], True)]), 'right values are accepted')


def readers(sx):
    """Readers of settings whose reading waits for the end of a change, also while the engine works."""
    started = sx.flag('started')
    store = SettingsStore()
    seen = []
    results = ([], [])
    plans = [[('pool_size', 2)], []]

    def before():
        config.set(pool_size=1, level=0)
        if started:
            log('zero')

    def reader():
        seen.append((store['pool_size'], store['max_queue_size']))

    threads(sx, plans, results, before=before, more=[reader], preemptions=2 if sx.thorough else 1, free=2)
    sx.check(all(p in (1, 2) and q == 0 for p, q in seen) and len(seen) == 1, 'a reader sees only values that were set', seen)
    sx.check(store.force_get('pool_size') == 2, 'the change is not lost')
