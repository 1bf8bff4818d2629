"""The engine: concurrent first records, reloads and the exit of the program lose and double nothing."""
import atexit

from symx import conc
conc.install()
at_exit = []
register = atexit.register
atexit.register = lambda f, *a, **k: at_exit.append(f) or f

from polog import log, config
from polog.core.engine.engine import Engine
from polog.core.log_item import LogItem

CASES = ['first', 'reload', 'resize', 'start', 'leave']
YIELD_IN = ['polog.core.engine', 'polog.core.stores.settings.setting_point']
YIELD_NOT = ['lock', 'action', 'conflicts', 'proves', 'store', 'settings', 'name', 'get', 'daemon']
BOUNDS = ('1 writing thread (2 or 3 in the case of first records) with 1 or 2 records each, one thread that changes pool_size (0, 1, 2 threads) or max_queue_size (0, 1), or leaves the program; every schedule with at most 2 forced switches '
          '(3 in the thorough tier) at any statement of the engine and of a setting that touches an attribute, an item or a call, at any operation of a lock, queue, thread, event or sleep, and any number of free choices of the next thread when one waits or ends (at most 2 other than the first ready one in the cases reload and resize); '
          'the time of a timed wait may run out at any moment')
OUTSIDE = 'more forced switches; handlers that themselves log or change settings; several processes'
ASSUMPTIONS = ['locks, queues, threads and sleeping are stand-ins with the documented meaning', 'the delay on exit is not reached']
MARKS = {'first': ['done'], 'reload': ['done', 'pool'], 'resize': ['done'], 'start': ['done'], 'leave': ['done', 'leaving']}


class Run:
    def __init__(self, sx):
        self.sx = sx
        self.seen = []
        self.made = []

    def handler(self, item):
        conc.point('handler')
        self.seen.append(item['message'])

    def writer(self, name, number):
        def write():
            for i in range(number):
                text = '%s%d' % (name, i)
                self.made.append(text)
                log(text)
        write.__name__ = 'writer ' + name
        return write

    def direct(self, name, number):
        """The same without the logger: fewer steps."""
        items = []
        for i in range(number):
            item = LogItem()
            item.set_data({'message': '%s%d' % (name, i)})
            item.set_handlers([self.handler])
            items.append(item)

        def write():
            for item in items:
                self.made.append(item['message'])
                Engine().write(item)
        write.__name__ = 'writer ' + name
        return write

    def finish(self):
        """Everything accepted is written when the engine is rebuilt."""
        config.set(max_queue_size=0)
        config.set(pool_size=1)
        config.set(pool_size=0)
        log('last')

    def verdict(self):
        want = sorted(self.made + ['last'])
        self.sx.check(sorted(self.seen) == want, 'every record is given to the handler exactly once', sorted(self.seen))


def first(sx):
    """Nothing has been logged before."""
    run = Run(sx)
    number = sx.choice('writers', [2, 3])
    pool = sx.choice('pool', [0, 1])

    def before():
        config.add_handlers(run.handler)
        config.set(pool_size=pool, level=0)

    conc.run(sx, [run.writer('abc'[i], 1) for i in range(number)], preemptions=(4 if sx.thorough else 3) - number + (not pool), before=before, after=run.finish)
    run.verdict()


def reload(sx):
    """The engine is working; one thread changes what it is made of."""
    run = Run(sx)
    old, new = sx.choice('pools', [(0, 1), (1, 0)])
    if old:
        sx.mark('pool')

    def before():
        config.add_handlers(run.handler)
        config.set(pool_size=old, level=0)
        run.made.append('zero')
        log('zero')

    def change():
        config.set(pool_size=new)

    conc.run(sx, [run.direct('a', 1), change], preemptions=3 if sx.thorough else 2, free=None if sx.thorough else 2, before=before, after=run.finish)
    run.verdict()


def resize(sx):
    """The pool of threads is replaced by another one."""
    run = Run(sx)
    queue = sx.choice('queue', [0, 1])
    what = sx.choice('what', ['pool', 'queue'])

    def before():
        config.add_handlers(run.handler)
        config.set(pool_size=1, level=0)
        config.set(max_queue_size=queue)
        run.made.append('zero')
        log('zero')

    def change():
        if what == 'queue':
            config.set(max_queue_size=1 - queue)
        else:
            config.set(pool_size=2)

    conc.run(sx, [run.direct('a', 2), change], preemptions=2 if sx.thorough else 1, free=3 if sx.thorough else 2, before=before, after=run.finish)
    run.verdict()


def start(sx):
    """The first record and the change come together."""
    run = Run(sx)
    old, new = sx.choice('pools', [(0, 1), (1, 0)])

    def before():
        config.add_handlers(run.handler)
        config.set(pool_size=old, level=0)

    def change():
        config.set(pool_size=new)

    conc.run(sx, [run.direct('a', 1), change], preemptions=3 if sx.thorough else 2, before=before, after=run.finish)
    run.verdict()


def leave(sx):
    """The program ends while a thread still logs."""
    run = Run(sx)
    pool = sx.choice('pool', [0, 1])

    def before():
        config.add_handlers(run.handler)
        config.set(pool_size=pool, level=0)
        del at_exit[:]
        run.made.append('zero')
        log('zero')

    def leaving():
        for f in reversed(at_exit):
            if (getattr(f, '__module__', None) or '').startswith('polog'):
                sx.mark('leaving')
                f()
        run.made.append('late')
        log('late')

    conc.run(sx, [run.direct('a', 1), leaving], preemptions=3 if sx.thorough else 2, before=before, after=run.finish)
    run.verdict()
