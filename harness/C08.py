"""Unlogged code records nothing; everything outside of it is recorded as usual."""
import contextvars

from harness.common import log, config, sink, unlog, flog, run_coroutine, Suspend, handle_log, message, HI

CASES = ['scope', 'mode', 'stack', 'restore', 'nesting', 'classes', 'tasks', 'escape']
BOUNDS = ('unlogged functions, coroutines, methods and classes with mode full, not full or by the setting; 6 ways to record inside '
          'and outside; nesting of 3 scopes; 3 interleaved tasks; bodies that return or raise (also BaseException)')
OUTSIDE = ('an unlogged scope with full=False inside one with full=True (the documentation does not say which wins); third-party '
           'decorators between log and unlog; threads started inside an unlogged function')
ASSUMPTIONS = ['pool_size=0']
MARKS = {'scope': ['silent'], 'mode': ['silent', 'not full'], 'nesting': ['inner raised']}

RAISES = [None, ValueError, KeyboardInterrupt]


@log('decorated')
def decorated():
    return 1


@log('failing')
def failing():
    raise ValueError('x')


@log('coroutine')
async def coroutine():
    await Suspend()
    return 1


def record(how):
    if how == 'manual':
        log('manual')
    elif how == 'handle':
        handle_log('manual')
    elif how == 'decorated':
        decorated()
    elif how == 'failing':
        try:
            failing()
        except ValueError:
            pass
    elif how == 'block':
        with log('block'):
            pass
    elif how == 'coroutine':
        run_coroutine(coroutine())
    elif how == 'failed block':
        try:
            with log('block'):
                raise ValueError('x')
        except ValueError:
            pass


WAYS = ['manual', 'handle', 'decorated', 'failing', 'block', 'coroutine', 'failed block']


def attempt(f, *args):
    try:
        return f(*args)
    except BaseException as e:
        return type(e)


def scope(sx):
    """One unlogged call: nothing inside, everything before and after."""
    s = sink()
    how = sx.choice('how', WAYS)
    raises = sx.choice('raises', RAISES)
    deep = sx.flag('deep')
    kind = sx.choice('kind', ['unlog', 'unlog()', '-log', 'coroutine'])
    x = sx.int('x', -HI, HI)

    def body(v):
        if deep:
            (lambda: record(how))()
        else:
            record(how)
        if raises is not None:
            raise raises('x')
        return v

    async def async_body(v):
        record(how)
        await Suspend()
        record(how)
        if raises is not None:
            raise raises('x')
        return v
    if kind == 'unlog':
        f = unlog(body)
    elif kind == 'unlog()':
        f = unlog()(body)
    elif kind == '-log':
        f = (-log)(body)
    else:
        inner = unlog(async_body)
        f = lambda v: run_coroutine(inner(v))
    record(how)
    sx.check(s.count() == 1, 'an event outside of unlogged code is recorded', s.count())
    got = attempt(f, x)
    sx.check(s.count() == 1, 'nothing is recorded inside an unlogged function', [i['message'] for i in s.items])
    sx.mark('silent')
    sx.check(got is raises if raises is not None else got == x, 'an unlogged function returns and raises what it did before')
    record(how)
    sx.check(s.count() == 2, 'recording goes on after an unlogged function', s.count())


def mode(sx):
    """full given locally, given by the setting, changed between the calls."""
    s = sink()
    given = sx.choice('full', ['absent', True, False])
    f = (unlog if given == 'absent' else unlog(full=given))(lambda: record(how))
    how = sx.choice('how', WAYS)
    for i in range(2):
        setting = sx.choice('setting%d' % i, [True, False, None])
        if setting is not None:
            config.set(full_unlog=setting)
            current = setting
        elif i == 0:
            current = True
        silent = current if given == 'absent' else given
        before = s.count()
        f()
        sx.check(s.count() - before == (0 if silent else 1), 'the mode decides whether events inside are recorded',
                 (given, current, s.count() - before))
        sx.mark('silent' if silent else 'not full')
        record('manual')
        sx.check(s.count() - before == (1 if silent else 2), 'recording goes on after an unlogged function')


def stack(sx):
    """unlog among logging decorators in any order: the function itself is never recorded."""
    s = sink()
    layers = sx.choice('layers', [3, 2]) if sx.thorough else 3
    text = sx.flag('text')
    raises = sx.choice('raises', RAISES[:2])
    full = sx.choice('full', [None, True, False])
    place = sx.choice('place', list(range(layers)))
    manual = sx.flag('manual')

    def body():
        if manual:
            log('manual')
        if raises is not None:
            raise raises('x')
        return 7

    async def async_body():
        return body()
    is_async = sx.flag('async')
    f = async_body if is_async else body
    for i in range(layers):
        if i == place:
            f = unlog(f) if full is None else unlog(full=full)(f)
        elif text:
            f = log('text')(f)
        else:
            f = log(f)
    got = attempt(lambda: run_coroutine(f()) if is_async else f())
    sx.check(got is raises if raises is not None else got == 7, 'the function works as before', got)
    want = 1 if manual and full is False else 0
    sx.check(s.count() == want, 'an unlogged function is not recorded wherever unlog stands among the decorators',
             [(i['message'] if 'message' in i else None) for i in s.items])


def restore(sx):
    """A history of calls of logged and unlogged functions one after another."""
    s = sink()
    want = 0
    full = unlog(full=True)(lambda e: body(e))
    part = unlog(full=False)(lambda e: body(e))

    def body(e):
        log('inside')
        if e is not None:
            raise e('x')
    for i in range(4):
        step = sx.choice('step%d' % i, ['full', 'part', 'record'])
        if step == 'record':
            record('manual')
            want += 1
        else:
            error = sx.choice('raises%d' % i, RAISES)
            attempt(full if step == 'full' else part, error)
            want += step == 'part'
        sx.check(s.count() == want, 'only events in unlogged code are left out', (i, s.count(), want))


def nesting(sx):
    """Scopes inside scopes."""
    s = sink()
    depth = 3
    kinds = [sx.choice('kind%d' % i, ['full', 'part', 'plain', 'logged', 'setting']) for i in range(depth)]
    setting = sx.flag('setting') if 'setting' in kinds else True
    config.set(full_unlog=setting)
    kinds_now = [('full' if setting else 'part') if k == 'setting' else k for k in kinds]
    silent = False
    for i, k in enumerate(kinds_now):
        if k == 'part' and silent:
            return
        silent = silent or k == 'full'
    raises_at = sx.choice('raises_at', [None, 2, 1])
    expected = []

    def call(level, silent):
        if level == depth:
            return

        def body():
            inside = silent or kinds_now[level] == 'full'
            log('before')
            if not inside:
                expected.append('before')
            try:
                call(level + 1, inside)
            except ValueError:
                sx.mark('inner raised')
            log('after')
            if not inside:
                expected.append('after')
            if raises_at == level:
                raise ValueError('x')
        f = {'full': unlog(full=True), 'part': unlog(full=False), 'setting': unlog, 'plain': lambda x: x,
             'logged': lambda x: log('call')(x)}[kinds[level]](body)
        try:
            f()
        finally:
            if kinds[level] == 'logged' and not silent:
                expected.append('call')
    attempt(call, 0, False)
    sx.check([i['message'] for i in s.items] == expected, 'exactly the events outside of unlogged code are recorded',
             ([i['message'] for i in s.items], expected))


def classes(sx):
    s = sink()
    how = sx.choice('how', ['class', 'log over unlog', 'unlog over log', 'method', 'method part'])

    def define():
        class Thing:
            @(unlog if how == 'method' else unlog(full=False) if how == 'method part' else (lambda x: x))
            def method(self, x):
                log('manual')
                return (self, x)

            @staticmethod
            def static(x):
                log('manual')
                return x

            @classmethod
            def of_class(cls, x):
                log('manual')
                return (cls, x)

            async def coroutine(self, x):
                log('manual')
                return x
        return Thing
    Thing = define()
    if how == 'class':
        Thing = unlog(Thing)
    elif how == 'log over unlog':
        Thing = log(unlog(Thing))
    elif how == 'unlog over log':
        Thing = unlog(log(Thing))
    elif how in ('method', 'method part'):
        Thing = log(Thing)
    which = sx.choice('which', ['method', 'static', 'of_class', 'coroutine'])
    x = sx.int('x', -HI, HI)
    thing = Thing()
    got = getattr(thing, which)(x)
    if which == 'coroutine':
        got = run_coroutine(got)
    value = got[1] if which in ('method', 'of_class') else got
    sx.check(value == x, 'a method works as before')
    if which == 'method':
        sx.check(got[0] is thing, 'a method gets its object')
    if which == 'of_class':
        sx.check(got[0] is Thing, 'a class method gets its class')
    unlogged = how not in ('method', 'method part') or which == 'method'
    want = (1 if how == 'method part' else 0) if unlogged else 2
    sx.check(s.count() == want, 'methods of an unlogged class are not recorded, the others are', (how, which, s.count()))


def tasks(sx):
    """Interleaved tasks: the scope of one task does not reach another."""
    s = sink()
    count = 3 if sx.thorough else 2
    kinds = [sx.choice('kind%d' % i, ['full', 'part', 'plain']) for i in range(count)]
    done = []

    def make(i):
        async def body():
            log('task %d' % i)
            await Suspend()
            log('task %d' % i)
            await Suspend()
            log('task %d' % i)
        f = {'full': unlog(full=True), 'part': unlog(full=False), 'plain': lambda x: x}[kinds[i]](body)

        async def whole():
            await f()
            log('after %d' % i)
        return whole()
    contexts = [contextvars.copy_context() for _ in kinds]
    running = [contexts[i].run(make, i) for i in range(count)]
    alive = set(range(count))
    step = 0
    while alive:
        options = sorted(alive)
        i = options[0] if len(options) == 1 else sx.choice('turn%d' % step, options)
        step += 1
        try:
            contexts[i].run(running[i].send, None)
        except StopIteration:
            alive.discard(i)
    got = [i['message'] for i in s.items]
    for i, k in enumerate(kinds):
        sx.check(got.count('task %d' % i) == (0 if k == 'full' else 3), 'events of a task depend on its own scope only', (i, k, got))
        sx.check(got.count('after %d' % i) == 1, 'a task records again when it leaves the scope', (i, k, got))


def escape(sx):
    """Records prepared outside or finished outside of the scope, and message edits inside of it."""
    s = sink()
    how = sx.choice('how', ['decorate inside', 'message', 'decorated calls unlogged', 'recursion'])
    kept = []
    if how == 'decorate inside':
        kept.append(unlog(lambda: log('made inside')(lambda: 5))())
        kept[0]()
        want = ['made inside']
    elif how == 'message':
        @log('outer')
        def outer():
            unlog(lambda: message('edited'))()
            return 5
        outer()
        want = None
        sx.check(s.count() == 1, 'a logged function that calls an unlogged one is recorded')
    elif how == 'decorated calls unlogged':
        @log('outer')
        def outer():
            unlog(lambda: decorated())()
            return 5
        outer()
        want = ['outer']
    else:
        @unlog
        def secret(n):
            log('secret')
            if n:
                secret(n - 1)
            log('secret')
        secret(2)
        log('after')
        want = ['after']
    if want is not None:
        sx.check([i['message'] for i in s.items] == want, 'only events outside of unlogged code are recorded',
                 [i['message'] for i in s.items])
