"""Singletons: concurrent first uses get one fully initialised object."""
import importlib
import sys

from symx import conc
conc.install()

import polog
from polog.core.utils.read_only_singleton import ReadOnlySingleton
from polog.core.log_item import LogItem
from polog.handlers.memory.saver import memory_saver

CASES = ['own', 'settings', 'engine', 'memory', 'records']
YIELD_IN = ['polog.core.utils.read_only_singleton', 'polog.handlers.memory', 'polog.core.engine.engine', 'polog.core.stores.settings.settings_store', 'polog.core.log_item']
YIELD_INIT = True
BOUNDS = ('2 and 3 threads that use each shared object for the first time; every schedule with at most 2 forced switches for 2 threads and 1 for 3 (one more in the thorough tier), at any statement of the classes under test that touches an attribute, an item or a '
          'call and at any operation of a lock, and any number of switches when a thread waits or ends')
OUTSIDE = 'settings other than 5 of them in the store (they are made by the same code); singletons that inherit from other singletons; more forced switches; switches inside of one expression or inside of built-in operations; signal handlers'
ASSUMPTIONS = ['locks, semaphores and threads are stand-ins with the documented meaning', 'pool_size=0']
MARKS = {'own': ['done'], 'settings': ['done'], 'engine': ['done'], 'memory': ['done'], 'records': ['done']}


def fresh(name):
    """The module once more, as it is before the first use of anything in it."""
    old = sys.modules.pop(name)
    try:
        return importlib.import_module(name)
    finally:
        sys.modules[name] = old
        parent, _, short = name.rpartition('.')
        setattr(sys.modules[parent], short, old)


def uses(sx, use, number):
    """Run `use` in several threads; what they got."""
    got = []

    def one():
        got.append(use(0))

    def two():
        got.append(use(1))

    def three():
        got.append(use(2))

    result = conc.run(sx, [one, two, three][:number], preemptions=4 - number + sx.thorough)
    sx.check(len(got) == number, 'every first use gets an object', result)
    return got


def own(sx):
    number = sx.choice('threads', [2, 3])

    class First(ReadOnlySingleton):
        pass

    class Second(ReadOnlySingleton):
        pass

    plan = [First] + [sx.choice('class%d' % i, [First, Second]) for i in range(1, number)]
    got = uses(sx, lambda i: (plan[i], plan[i]()), number)
    for cls, item in got:
        sx.check(type(item) is cls, 'a first use gives an object of its own class', type(item))
        for other, second in got:
            sx.check((item is second) == (cls is other), 'all first uses of a class get one object')
    for cls, item in got:
        sx.check(cls() is item, 'later uses get the same object')


def settings(sx):
    number = sx.choice('threads', [2, 3])
    module = fresh('polog.core.stores.settings.settings_store')
    values = [False, True, False]
    points = getattr(module.SettingsStore, 'points', {})
    for name in list(points):       # fewer settings make fewer schedules
        if name not in ('pool_size', 'max_queue_size', 'started', 'debug_mode', 'time_quant'):
            del points[name]

    def use(i):
        store = module.SettingsStore()
        # reading and changing need everything in place
        store['debug_mode'] = values[i]
        store['max_queue_size'] = 0
        return store, store['time_quant']

    got = uses(sx, use, number)
    sx.check(all(s is got[0][0] for s, _ in got), 'all first uses of the settings get one object')
    sx.check(all(t == 0.01 for _, t in got), 'every first use sees the settings')
    sx.check(module.SettingsStore() is got[0][0], 'later uses get the same object')


def engine(sx):
    number = sx.choice('threads', [2, 3])
    module = fresh('polog.core.engine.engine')
    done = []

    def use(i):
        e = module.Engine()
        e.write(lambda: done.append(i))
        return e

    got = uses(sx, use, number)
    sx.check(all(e is got[0] for e in got), 'all first uses of the engine get one object')
    sx.check(module.Engine() is got[0], 'later uses get the same object')
    sx.check(sorted(done) == list(range(number)), 'no record is lost or doubled by the first uses of the engine', done)
    sx.check(getattr(got[0], 'serial_number', 1) == 1 and getattr(got[0], 'active', True), 'the engine is started once')


def memory(sx):
    number = sx.choice('threads', [2, 3])

    def use(i):
        s = memory_saver()
        s(i)
        return s

    got = uses(sx, use, number)
    sx.check(all(s is got[0] for s in got), 'all first uses of the memory handler get one object')
    sx.check(sorted(got[0].all) == list(range(number)), 'no record is lost by the first uses of the memory handler', got[0].all)
    sx.check(got[0].last == got[0].all[-1] if got[0].all else False, 'the last record is the last one')


def records(sx):
    """The class of records prepares itself when the first one is made."""
    number = sx.choice('threads', [2, 3])
    got = []

    def use(i):
        item = LogItem()
        item.set_data({'message': i})
        item.set_handlers([got.append])
        item()
        return item

    made = uses(sx, use, number)
    sx.check(len({id(x) for x in made}) == number, 'every record is an object of its own')
    sx.check(sorted(x['message'] for x in got) == list(range(number)), 'every one of the first records gets to its handler once', [x['message'] for x in got])
