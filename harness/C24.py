"""The pool of threads: a stop writes everything accepted before and leaves no thread."""
import atexit

from symx import conc
conc.install()
at_exit = []
atexit.register = lambda f, *a, **k: at_exit.append(f) or f

from polog import log, config
from polog.core.engine.engine import Engine
from polog.core.engine.real_engines.multithreaded.engine import MultiThreadedRealEngine
from polog.core.stores.settings.settings_store import SettingsStore
from polog.core.log_item import LogItem

CASES = ['drain', 'faults', 'late', 'limit', 'again']
YIELD_IN = ['polog.core.engine', 'polog.core.stores.settings.setting_point']
YIELD_NOT = ['lock', 'action', 'conflicts', 'proves', 'store', 'settings', 'name', 'get', 'daemon', 'value', 'changed']
BOUNDS = ('pools of 1 and 2 threads, queues of any length and of length 1, up to 3 records, handlers that work, raise an exception or leave the interpreter, one writing thread besides the one that stops the pool; '
          'histories of 3 sizes of the pool; every schedule with at most 2 forced switches (1 with 2 threads in the pool, failing handlers, the delay on exit and histories; one more in the thorough tier) and at most 3 free choices other than the first ready thread; the time of a timed wait and the delay on exit may run out at any moment')
OUTSIDE = 'more forced switches; handlers that themselves log or change settings'
ASSUMPTIONS = ['locks, queues, threads, timers and sleeping are stand-ins with the documented meaning', 'the interrupt of the delay on exit reaches the main thread when it waits or sleeps']
MARKS = {'drain': ['done'], 'faults': ['done'], 'late': ['done', 'late'], 'limit': ['done', 'in time', 'out of time'], 'again': ['done']}


class Records:
    def __init__(self):
        self.seen = []
        self.made = []
        self.gate = conc.Event()

    def item(self, name, kind='fine'):
        def handler(item):
            conc.point('handler')
            self.seen.append(item['message'])
            if kind == 'raises':
                raise ValueError('a handler fails')
            if kind == 'leaves':
                raise SystemExit(1)
            if kind == 'stuck':
                self.gate.wait()
        item = LogItem()
        item.set_data({'message': name})
        item.set_handlers([handler])
        return item


def settings(pool, queue):
    config.set(pool_size=pool, level=0)
    if queue:
        config.set(max_queue_size=queue)
    return SettingsStore()


def everything(sx, records, label):
    sx.check(sorted(records.seen) == sorted(records.made), label, (records.seen, records.made))


def stopping(sx, pool, queue, kinds, preemptions, free):
    records = Records()
    state = {}

    def before():
        state['engine'] = MultiThreadedRealEngine(settings(pool, queue))

    def main():
        for i, kind in enumerate(kinds):
            records.made.append(str(i))
            state['engine'].write(records.item(str(i), kind))
        state['engine'].stop()
        everything(sx, records, 'everything accepted is given to its handler exactly once before the stop returns')
        sx.check(not conc.alive(), 'the stop leaves no thread', conc.alive())

    conc.run(sx, [main], preemptions=preemptions, before=before, free=free)
    everything(sx, records, 'nothing is given to a handler after the stop')


def drain(sx):
    if sx.thorough:
        pool, queue, number, preemptions = sx.choice('sizes', [(1, 0, 2, 3), (1, 1, 2, 3), (2, 0, 2, 2), (2, 1, 2, 2), (2, 0, 3, 1), (2, 1, 3, 1)])
    else:
        pool, queue, number, preemptions = sx.choice('sizes', [(1, 0, 2, 2), (1, 1, 2, 2), (2, 0, 2, 1), (2, 1, 2, 1)])
    stopping(sx, pool, queue, ['fine'] * number, preemptions, None if sx.thorough else 3)


def faults(sx):
    kinds = [sx.choice('kind%d' % i, ['fine', 'raises', 'leaves']) for i in range(3)]
    stopping(sx, sx.choice('pool', [1, 2]), 0, kinds, 2 if sx.thorough else 1, 1)


def late(sx):
    """One thread writes while another stops the pool."""
    pool = sx.choice('pool', [1, 2] if sx.thorough else [1])
    queue = sx.choice('queue', [0, 1])
    records = Records()
    state = {}

    def before():
        state['engine'] = MultiThreadedRealEngine(settings(pool, queue))

    def writer():
        for i in range(2):
            records.made.append(str(i))
            if 'stopped' in state:
                sx.mark('late')
            state['engine'].write(records.item(str(i)))

    def main():
        accepted = list(records.made[:-1])      # the write of the last one may not have returned yet
        state['engine'].stop()
        state['stopped'] = True
        sx.check(not conc.alive(), 'the stop leaves no thread', conc.alive())
        sx.check(all(x in records.seen for x in accepted), 'everything accepted before is given to its handler before the stop returns', (accepted, records.seen))

    conc.run(sx, [writer, main], preemptions=2, before=before, free=None if sx.thorough else 3)
    everything(sx, records, 'every record is given to its handler exactly once although the pool was stopped')


def limit(sx):
    """The program ends; handlers may be stuck; the delay on exit may run out at any moment."""
    conc.Timer.fires = True
    stuck = sx.choice('stuck', ['no', 'yes', 'for a while'])
    records = Records()
    out = []

    def before():
        settings(1, 0)
        log('zero')

    def main():
        for i in range(2):
            records.made.append(str(i))
            Engine().write(records.item(str(i), 'stuck' if i == 0 and stuck != 'no' else 'fine'))
        for f in reversed(at_exit):
            if (getattr(f, '__module__', None) or '').startswith('polog'):
                try:
                    f()
                except BaseException as e:
                    out.append(e)
        records.made.append('late')
        Engine().write(records.item('late'))

    def opener():
        if stuck != 'yes':
            records.gate.set()

    conc.run(sx, [main, opener], preemptions=2 if sx.thorough else 1, before=before, free=None if sx.thorough else 3)
    sx.check(not out, 'leaving the program raises nothing', out)
    sx.check('late' in records.seen, 'a record made after the exit began is written')
    sx.check(len(set(records.seen)) == len(records.seen), 'nothing is written twice', records.seen)
    sx.mark('in time' if sorted(records.seen) == sorted(records.made) else 'out of time')


def again(sx):
    """A history of sizes of the pool, with records in between."""
    records = Records()
    sizes = [sx.choice('size%d' % i, [0, 1, 2]) for i in range(3)]
    made = [[records.item('%d.%d' % (i, k)) for k in range(1 + (i == 1))] for i in range(len(sizes))]

    def main():
        for i, size in enumerate(sizes):
            old = len(conc.alive())
            config.set(pool_size=size, level=0)
            if i:
                if size != sizes[i - 1]:
                    everything(sx, records, 'everything accepted is written when the pool is replaced')
                sx.check(len(conc.alive()) == size, 'the replaced pool leaves no thread', (old, size, conc.alive()))
            for item in made[i]:
                records.made.append(item['message'])
                Engine().write(item)
        config.set(pool_size=0 if sizes[-1] else 1)
        everything(sx, records, 'everything accepted is written when the pool is replaced')
        sx.check(len(conc.alive()) == (0 if sizes[-1] else 1), 'the replaced pool leaves no thread', conc.alive())

    conc.run(sx, [main], preemptions=2 if sx.thorough else 1, free=0 if not sx.thorough else 1)
    everything(sx, records, 'nothing is written twice')
