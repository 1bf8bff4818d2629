"""An exception that passes through several logged calls is recorded once (or every time, by the setting)."""
from harness.common import log, config, sink, unlog, run_coroutine, Suspend, HI, ChildError, FrozenError, GetError, AnyError

CASES = ['chain', 'levels', 'separate', 'switch', 'wrapped', 'revived']
BOUNDS = ('chains of 4 calls, each logged, coroutine, plain, method or unlogged, any levels on three of them; exceptions caught and raised again, '
          'replaced, or raised anew; the setting on, off and changed in between')
OUTSIDE = 'exceptions whose dictionary of attributes cannot be reached; one exception object raised again by an unrelated call'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'chain': ['deduplicated', 'every time'], 'levels': ['recorded', 'not recorded']}


def chain(sx):
    s = sink()
    dedup = sx.choice('deduplicate', ['default', True, False])
    if dedup != 'default':
        config.set(deduplicate_errors=dedup)
    depth = 4
    kinds = [sx.choice('kind%d' % i, ['logged', 'plain', 'coroutine', 'method'] if i in (0, 2) else ['logged', 'plain', 'suppressing'])
             for i in range(depth)]
    kind = sx.choice('error', [ValueError, ChildError, OSError, FrozenError, GetError, AnyError])
    how = sx.choice('passes', ['falls', 'caught and raised'])
    error = kind('bad')

    def make(i):
        def body(*a):
            if i + 1 == depth:
                raise error
            if how == 'falls':
                return calls[i + 1]()
            try:
                return calls[i + 1]()
            except Exception as e:
                if e is error:
                    raise
                raise

        async def coroutine():
            await Suspend()
            return body()

        class Thing:
            method = log('call %d' % i)(body)
        if kinds[i] == 'logged':
            return log('call %d' % i)(body)
        if kinds[i] == 'suppressing':
            return log('call %d' % i).suppress(KeyError)(body)
        if kinds[i] == 'coroutine':
            f = log('call %d' % i)(coroutine)
            return lambda: run_coroutine(f())
        if kinds[i] == 'method':
            return Thing().method
        return body
    calls = [make(i) for i in range(depth)]
    s.items.clear()
    try:
        calls[0]()
        sx.check(False, 'the exception reaches the caller')
    except Exception as e:
        sx.check(e is error, 'the exception reaches the caller')
    logged = [i for i in reversed(range(depth)) if kinds[i] != 'plain']
    want = logged if dedup is False else logged[:1]
    got = [item['message'] for item in s.items]
    sx.check(got == ['call %d' % i for i in want], 'an exception is recorded by the first logged call it meets', (got, want))
    sx.mark('every time' if dedup is False else 'deduplicated')
    for item in s.items:
        sx.check(item['success'] is False and item['exception_type'] == kind.__name__, 'the record has the exception')


def levels(sx):
    """A call whose level is too low does not count as having recorded the exception."""
    s = sink()
    g = sx.int('global', 0, HI)
    config.set(level=g)
    lv = [sx.int('level%d' % i, 0, HI) for i in range(3)]
    hidden = sx.choice('unlogged', [None, 1])
    error = ValueError('bad')

    def make(i):
        def body():
            if i == 2:
                raise error
            return calls[i + 1]()
        f = log('call %d' % i, errors_level=lv[i])(body)
        if hidden == i:
            return unlog(full=True)(body)
        return f
    calls = [make(i) for i in range(3)]
    try:
        calls[0]()
    except ValueError:
        pass
    want = None
    for i in (2, 1, 0):
        if hidden is not None and i >= hidden:
            continue
        if lv[i] >= g:
            want = i
            break
    got = [item['message'] for item in s.items]
    if want is None:
        sx.check(got == [], 'no call of a sufficient level, no record', got)
        sx.mark('not recorded')
    else:
        sx.check(got == ['call %d' % want], 'the first call of a sufficient level records the exception', (got, want))
        sx.check(s.items[0]['level'] == lv[want], 'the record has the level of its call') if s.items else None
        sx.mark('recorded')


def separate(sx):
    """Different exceptions are recorded each."""
    s = sink()
    def body(n):
        if n is not None:
            raise made[n]
        return 5
    f = log('call')(body)
    made = [ValueError('same'), ValueError('same'), KeyError('other')]
    steps = [sx.choice('step%d' % i, [None, 0, 1, 2]) for i in range(3)]
    used = set()
    want = []
    for n in steps:
        if n in used:
            return
        if n is not None:
            used.add(n)
        want.append(n)
        try:
            f(n)
        except (ValueError, KeyError) as e:
            sx.check(e is made[n], 'the exception reaches the caller')
    got = [(i['success'], i.get('exception_type')) for i in s.items]
    sx.check(got == [(n is None, None if n is None else type(made[n]).__name__) for n in want], 'every call has its record', got)


def switch(sx):
    """The setting is changed while the exception is on its way."""
    s = sink()
    first, second = sx.flag('first'), sx.flag('second')
    config.set(deduplicate_errors=first)

    @log('inner')
    def inner():
        raise ValueError('x')

    @log('outer')
    def outer():
        try:
            inner()
        except ValueError:
            config.set(deduplicate_errors=second)
            raise
    try:
        outer()
    except ValueError:
        pass
    got = [i['message'] for i in s.items]
    sx.check(got == (['inner'] if second else ['inner', 'outer']), 'the setting in force when the call ends decides', got)


def wrapped(sx):
    """A new exception raised because of a recorded one is a new exception."""
    s = sink()
    how = sx.choice('how', ['from', 'in except', 'from None', 'after'])
    same_type = sx.flag('same_type')

    @log('inner')
    def inner():
        raise ValueError('x')

    @log('outer')
    def outer():
        new = ValueError('new') if same_type else KeyError('new')
        try:
            inner()
        except ValueError as e:
            if how == 'from':
                raise new from e
            if how == 'from None':
                raise new from None
            if how == 'in except':
                raise new
        raise new
    try:
        outer()
    except (ValueError, KeyError):
        pass
    got = [i['message'] for i in s.items]
    sx.check(got == ['inner', 'outer'], 'different exceptions are recorded each', got)
    sx.check('new' in s.items[-1]['exception_message'], 'each record has its own exception')


def revived(sx):
    """An exception that no logged call has seen is recorded by the first that sees it, whatever was raised because of it."""
    s = sink()
    how = sx.choice('how', ['from', 'in except', 'from None', 'group', 'argument', 'attribute'])
    first, second = ValueError('first'), KeyError('second')

    @log('outer')
    def outer():
        try:
            raise first
        except ValueError as e:
            if how == 'from':
                raise second from e
            if how == 'from None':
                raise second from None
            if how == 'in except':
                raise second
            if how == 'group':
                raise ExceptionGroup('group', [first, second])
            if how == 'argument':
                raise RuntimeError(first)
            second.reason = e
            raise second

    @log('later')
    def later():
        raise first
    caught = []
    for f in (outer, later):
        try:
            f()
        except Exception as e:
            caught.append(e)
    sx.check(caught[-1] is first, 'the exception reaches the caller')
    got = [i['message'] for i in s.items]
    sx.check(got == ['outer', 'later'], 'different exceptions never hide each other', got)
