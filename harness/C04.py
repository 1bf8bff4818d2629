"""Every record reaches every handler attached to its source exactly once, whatever handlers do."""
from harness.common import log, config, Sink, run_coroutine, HI, field

CASES = ['broadcast', 'local', 'history', 'mutation']
BOUNDS = ('up to 4 handlers at symbolic places of the namespace (depth up to 2), each of them working or raising any of 5 '
          'classes (also BaseException subclasses); up to 4 records per history from manual calls, functions and blocks')
OUTSIDE = 'handlers added or removed by a handler while it is being called'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'broadcast': ['someone failed'], 'history': ['added', 'removed']}


class Recorder:
    def __init__(self, name, journal, fails=None):
        self.name, self.journal, self.fails = name, journal, fails

    def __call__(self, item):
        self.journal.append((self.name, item))
        if self.fails is not None:
            raise self.fails('handler ' + self.name)

    def __bool__(self):
        return False


class Equal(Recorder):
    """Handlers that compare equal are still different handlers."""

    def __eq__(self, other):
        return type(other) is Equal

    def __hash__(self):
        return 1


ERRORS = [None, ValueError, KeyboardInterrupt, SystemExit, RecursionError]


def emit(sx, how, text):
    if how == 'manual':
        log(text)
    elif how == 'function':
        log(text)(lambda: 5)()
    elif how == 'block':
        with log(text):
            pass
    elif how == 'error':
        try:
            log(text)(lambda: 1 / 0)()
        except ZeroDivisionError:
            pass
    else:
        async def co():
            return 5
        run_coroutine(log(text)(co)())


def broadcast(sx):
    journal = []
    kind = Equal if sx.flag('equal') else Recorder
    first = kind('a', journal, sx.choice('fails_a', ERRORS))
    second = kind('b', journal, sx.choice('fails_b', ERRORS[:3]))
    third = kind('c', journal, sx.choice('fails_c', ERRORS[:2]))
    place = sx.choice('place', ['flat', 'nested', 'mixed', 'anonymous'])
    if place == 'flat':
        config.add_handlers(a=first, b=second, c=third)
    elif place == 'nested':
        config.add_handlers({'x.a': first, 'x.b': second, 'y.c': third})
    elif place == 'mixed':
        config.add_handlers({'x': first, 'x.b': second, 'x.b.c': third})
    else:
        config.add_handlers(first, second, third)
    emit(sx, sx.choice('how', ['manual', 'function', 'block', 'error', 'coroutine']), 'text')
    if first.fails or second.fails or third.fails:
        sx.mark('someone failed')
    for h in (first, second, third):
        got = [i for n, i in journal if n == h.name]
        if sx.check(len(got) == 1, 'every handler gets the record exactly once', (h.name, len(got))):
            sx.check(got[0]['message'] == 'text' and got[0] is journal[0][1], 'all handlers get the same record')


def local(sx):
    """Handlers given to a decorator replace the global ones for that function only."""
    journal = []
    g = [Recorder(n, journal, sx.choice('fails_' + n, ERRORS[:2])) for n in ('g1', 'g2')]
    config.add_handlers({'one': g[0], 'two.three': g[1]})
    own = Recorder('own', journal, sx.choice('fails_own', ERRORS[:2]))
    own2 = Recorder('own2', journal)
    given, want = sx.choice('given', [
        (None, ('g1', 'g2')), ((), ()), (('own',), ('own',)), (('own', 'own2'), ('own', 'own2')), (('one',), ('g1',)),
        (('two',), ('g2',)), (('two.three', 'own'), ('g2', 'own')), (('own', 'one', 'two'), ('own', 'g1', 'g2'))])
    objects = {'own': own, 'own2': own2}
    kw = {}
    if given is not None:
        kw['handlers'] = [objects.get(x, x) for x in given]
        if sx.flag('as_tuple'):
            kw['handlers'] = tuple(kw['handlers'])

    @log('text', **kw)
    def function():
        return 5

    @log('other')
    def other():
        return 6
    later = sx.flag('handler_added_later')
    if later:
        config.add_handlers({'two.four': Recorder('g3', journal)})
    function()
    want = list(want)
    if later and (given is None or 'two' in given):
        want.append('g3')
    got = [n for n, i in journal]
    sx.check(sorted(got) == sorted(want), 'exactly the handlers of the function get its record, once each', (got, want))
    journal.clear()
    other()
    got = [n for n, i in journal]
    sx.check(sorted(got) == sorted(['g1', 'g2'] + (['g3'] if later else [])),
             'a function without its own handlers uses the global ones', got)


def history(sx):
    """Handlers come and go between records."""
    journal = []
    live, n = {}, 0
    steps = 4
    for i in range(steps):
        op = sx.choice('op%d' % i, ['add', 'add child', 'remove', 'record'])
        if op == 'add':
            h = Recorder('h%d' % i, journal, ERRORS[i % 2])
            config.add_handlers({'n%d' % i: h})
            live['n%d' % i] = h
            sx.mark('added')
        elif op == 'add child':
            parent = sorted(live)[-1] if live else 'free'
            h = Recorder('h%d' % i, journal)
            config.add_handlers({parent + '.c%d' % i: h})
            live[parent + '.c%d' % i] = h
        elif op == 'remove':
            if live:
                name = sorted(live)[sx.choice('which%d' % i, [0, -1])]
                config.delete_handlers(name)
                del live[name]
                sx.mark('removed')
        else:
            journal.clear()
            log('record %d' % i)
            n += 1
            got = [name for name, item in journal]
            want = [h.name for h in live.values()]
            sx.check(sorted(got) == sorted(want), 'a record goes to the handlers registered at that time', (got, want))
    journal.clear()
    log('last')
    got = [name for name, item in journal]
    want = [h.name for h in live.values()]
    sx.check(sorted(got) == sorted(want), 'a record goes to the handlers registered at that time', (got, want))
    sx.check(all(i['message'] == 'last' for _, i in journal), 'a handler gets the record that was made')


def mutation(sx):
    """What a handler does to the record is not seen by the next handler."""
    seen = []

    def vandal(item):
        how = sx.choice('how', ['set', 'delete', 'set then raise'])
        try:
            if how == 'delete':
                del item['message']
            else:
                item['message'] = 'changed'
        except Exception:
            pass
        if how == 'set then raise':
            item['level'] = 0
    config.add_handlers(a=vandal)
    config.add_handlers(b=lambda item: seen.append((item['message'], item['level'])))
    lv = sx.int('level', 0, HI)
    emit_kind = sx.choice('emit', ['manual', 'function'])
    if emit_kind == 'manual':
        log('text', level=lv)
    else:
        log('text', level=lv)(lambda: 5)()
    if sx.check(len(seen) == 1, 'the next handler still gets the record'):
        sx.check(seen[0][0] == 'text' and seen[0][1] == lv, 'the next handler gets the record as it was made')
