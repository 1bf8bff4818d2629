"""A logged callable behaves exactly like the original."""
import asyncio
import inspect

from harness.common import (log, config, sink, field, unlog, run_coroutine, Suspend, Unprintable, FrozenError, DumbError,
                            SlotError, Stubborn, Liar, GetError, AnyError, HI)

CASES = ['arguments', 'results', 'exceptions', 'chains', 'coroutine', 'driven', 'looks', 'methods', 'hostile']
BOUNDS = ('0..2 positional and 0..2 keyword arguments out of 10 kinds of object (also ones that fail at every operation, misstate their class or are too large to be printed), results out of 12 kinds, exceptions out of 9 '
          'kinds; global/default/event levels any integer 0..10**9; decorator forms: bare, called, named level, with message, '
          'suppression of another class; functions, coroutine functions, instance/static/class methods')
OUTSIDE = 'generator functions, more than 4 arguments, decorators applied to callables that are not functions'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'exceptions': ['raised'], 'results': ['returned'], 'hostile': ['raised', 'returned']}


class Given:
    """Awaitable that gives what it is sent."""

    def __await__(self):
        return (yield 'given')


def levels(sx):
    if not sx.flag('levels_given'):
        return
    config.set(level=sx.int('global_level', 0, HI), default_level=sx.int('default_level', 0, HI),
               default_error_level=sx.int('default_error_level', 0, HI))


def decorate(sx, function, forms):
    form = sx.choice('form', forms)
    if form == 'bare':
        return log(function)
    if form == 'called':
        return log()(function)
    if form == 'text':
        return log('text', level=sx.int('level', 0, HI), errors_level=sx.int('errors_level', 0, HI))(function)
    if form == 'named':
        config.levels(alpha=sx.int('alpha', 0, HI))
        return log.alpha(function)
    if form == 'unknown':
        return log(level='never_registered', errors_level='never_registered')(function)
    if form == 'handlers':
        return log(handlers=[sink()])(function)
    if form == 'fields':
        return log(extra_fields=[..., {'own': field(lambda item: 1 / 0)}],
                   extra_engine_fields={'own2': field(lambda item: 1 / 0)})(function)
    if form == 'suppress':
        return log('text').suppress(ZeroDivisionError)(function)
    return log(log(function))


def value(sx, name, kinds=('number', 'object', 'unprintable', 'none', 'list', 'function', 'text', 'stubborn', 'liar', 'huge')):
    kind = sx.choice(name, kinds)
    return {'number': lambda: sx.int(name + '#n'), 'object': object, 'unprintable': Unprintable, 'none': lambda: None,
            'list': lambda: [1, [2]], 'function': lambda: (lambda: 5), 'text': lambda: 'text', 'false': lambda: False,
            'error': lambda: ValueError('returned'), 'stubborn': Stubborn, 'liar': Liar, 'huge': lambda: 10 ** 5000}[kind]()


def same_call(sx, calls, args, kwargs):
    if not sx.check(len(calls) == 1, 'the function is called exactly once', len(calls)):
        return
    got_args, got_kwargs = calls[0]
    ok = len(got_args) == len(args) and list(got_kwargs) == list(kwargs)
    ok = ok and all(a is b for a, b in zip(got_args, args)) and all(got_kwargs[k] is kwargs[k] for k in kwargs)
    sx.check(ok, 'the function receives exactly the arguments of the call')


def arguments(sx):
    sink()
    levels(sx)
    calls = []
    fails = sx.flag('fails')
    error, result = ValueError('bad'), object()

    def original(*args, **kwargs):
        "doc"
        calls.append((args, kwargs))
        if fails:
            raise error
        return result
    function = decorate(sx, original, ['bare', 'text', 'fields'])
    args = [value(sx, 'arg%d' % i, (('number', 'object', 'unprintable', 'none', 'list', 'function', 'text', 'stubborn', 'liar', 'huge'), ('number', 'stubborn'))[i])
            for i in range(sx.choice('nargs', [0, 1, 2]))]
    names = sx.choice('names', [(), ('message', 'level'), ('self', 'args'), ('function', 'suppress_all', 'kwargs')])
    kwargs = {k: value(sx, 'kw_' + k, ('number', 'stubborn')) for k in names[:1]}
    kwargs.update({k: object() for k in names[1:]})
    try:
        r = function(*args, **kwargs)
        sx.check(not fails and r is result, 'the result is the object that the function returned')
    except ValueError as e:
        sx.check(fails and e is error, 'the exception is the one that the function raised')
    same_call(sx, calls, args, kwargs)
    sx.check(all(a == [1, [2]] for a in args if type(a) is list), 'the arguments are not changed')
    sx.check(function.__name__ == 'original' and function.__doc__ == 'doc', 'the name and the documentation are kept')
    sx.check(not inspect.iscoroutinefunction(function), 'a function does not become a coroutine function')


def results(sx):
    sink()
    levels(sx)
    n = [0]
    r = value(sx, 'result', ('number', 'object', 'unprintable', 'none', 'list', 'function', 'text', 'false', 'error', 'stubborn', 'liar', 'huge'))

    def original(x):
        n[0] += 1
        return r
    function = decorate(sx, original, ['bare', 'called', 'text', 'named', 'unknown', 'handlers', 'suppress', 'twice'])
    times = sx.choice('times', [1, 2])
    for i in range(times):
        got = function(5)
        sx.check(got is r, 'the result is the object that the function returned', got is None)
    sx.check(n[0] == times, 'the function is called exactly once per call', n[0])
    sx.mark('returned')


def make_error(sx, name='error'):
    return sx.choice(name, [ValueError, FrozenError, DumbError, SlotError, GetError, AnyError, KeyboardInterrupt, GeneratorExit, StopIteration])('bad')


def exceptions(sx):
    sink()
    levels(sx)
    config.set(traceback_cutting=sx.flag('cutting'), deduplicate_errors=sx.flag('deduplicate'),
               suppress_by_default=sx.flag('suppress_by_default'))
    error = make_error(sx)
    cause = KeyError('cause')
    n = [0]

    def original(x):
        n[0] += 1
        raise error from cause
    function = decorate(sx, original, ['bare', 'text', 'named', 'unknown', 'handlers', 'suppress', 'twice'])
    for i in range(sx.choice('times', [1, 2])):
        try:
            function(5)
            sx.check(False, 'an exception of the function reaches the caller')
        except BaseException as e:
            sx.check(e is error, 'the exception is the very object that the function raised', type(e))
            sx.check(error.__cause__ is cause and error.args == ('bad',), 'the exception is not modified')
            sx.mark('raised')
    sx.check(n[0] == i + 1, 'the function is called exactly once per call', n[0])


def reference(function, *args):
    """What a call does: its result or exception with everything attached to it."""
    try:
        return ('returned', function(*args))
    except BaseException as e:
        last, here = None, e.__traceback__
        while here is not None:
            last, here = (here.tb_frame.f_code.co_name, here.tb_lineno), here.tb_next
        return ('raised', e, e.__cause__, e.__context__, e.__suppress_context__, getattr(e, '__notes__', None), e.args, last)


def chains(sx):
    """What is attached to an exception is what the original attaches; the exceptions of the caller are not touched."""
    sink()
    levels(sx)
    config.set(deduplicate_errors=sx.flag('deduplicate'))
    how = sx.choice('how', ['plain', 'from', 'from None', 'while handling', 'note', 'again'])
    inside = sx.flag('called_while_handling')
    old, other, error = KeyError('old'), TypeError('other'), ValueError('bad')

    def original():
        if how == 'plain':
            raise error
        if how == 'from':
            raise error from other
        if how == 'note':
            error.__notes__ = ['note']
            raise error
        try:
            raise other
        except TypeError:
            if how == 'again':
                raise
            if how == 'from None':
                raise error from None
            raise error

    def clear():
        for e in (old, other, error):
            e.__context__ = e.__cause__ = e.__traceback__ = None
            e.__suppress_context__ = False
            vars(e).clear()

    def call(function):
        clear()
        if not inside:
            return reference(function)
        try:
            raise old
        except KeyError as e:
            got = reference(function)
            sx.check(e.__context__ is None, 'the exceptions of the caller are not touched')
            return got
    if sx.flag('asynchronous'):
        async def coroutine():
            return original()
        want = call(lambda: run_coroutine(coroutine()))
        decorated = decorate(sx, coroutine, ['bare', 'text', 'suppress', 'twice'])
        got = call(lambda: run_coroutine(decorated()))
    else:
        want = call(original)
        got = call(decorate(sx, original, ['bare', 'text', 'suppress', 'twice']))
    sx.check(len(got) == len(want) and all(a is b for a, b in zip(got[:5], want[:5])) and got[5:] == want[5:],
             'the exception has the causes, notes and origin that the original gives', (got, want))


def driven(sx):
    """Values and exceptions that are sent into a waiting coroutine; a coroutine that is closed."""
    sink()
    levels(sx)
    what = sx.choice('what', ['send', 'throw', 'close', 'throw caught', 'throw at start', 'close at start'])
    kind = sx.choice('kind', [ValueError, KeyboardInterrupt, asyncio.CancelledError]) if what.startswith('throw') else ValueError
    sent, thrown, result = object(), kind('thrown'), object()
    seen = []

    async def original(x):
        try:
            seen.append(await Given())
        except ValueError as e:
            seen.append(e)
            if what != 'throw caught':
                raise
        except BaseException as e:
            seen.append(e)
            raise
        finally:
            seen.append('finally')
        return result

    def drive(function):
        del seen[:]
        co = function(5)
        if not what.endswith('at start'):
            first = co.send(None)
            sx.check(first == 'given', 'the coroutine waits for what the original waits for')
        try:
            if what == 'send':
                co.send(sent)
            elif what.startswith('throw'):
                co.throw(thrown)
            else:
                co.close()
                return ['closed'] + [type(x) for x in seen]
        except StopIteration as e:
            return ['returned', e.value] + seen
        except BaseException as e:
            return ['raised', e] + seen
        return ['waits again'] + seen
    want = drive(original)
    got = drive(decorate(sx, original, ['bare', 'text', 'suppress']))
    sx.check(len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want)), 'a waiting coroutine gets what is sent to it', (what, got, want))


def looks(sx):
    """What can be seen of a function without calling it."""
    sink()

    def original(a, b: int = 5, *args, c, d=7, **kwargs) -> str:
        "doc"

    async def waiting(a, b: int = 5, *args, c, d=7, **kwargs) -> str:
        "doc"
    f = sx.choice('kind', [original, waiting])
    f.own = [1]
    g = decorate(sx, f, ['bare', 'called', 'text', 'named', 'handlers', 'fields', 'suppress', 'twice'])
    for name in ('__name__', '__qualname__', '__module__', '__doc__', '__annotations__', 'own'):
        sx.check(getattr(g, name) == getattr(f, name), 'the look of the function is kept', name)
    sx.check(inspect.signature(g) == inspect.signature(f), 'the signature of the function is kept')
    sx.check(inspect.iscoroutinefunction(g) == inspect.iscoroutinefunction(f), 'a coroutine function stays a coroutine function')
    sx.check(callable(g) and g.own is f.own, 'the look of the function is kept')


def coroutine(sx):
    sink()
    levels(sx)
    fails = sx.flag('fails')
    error = make_error(sx) if fails else None
    r = value(sx, 'result', ('number', 'object', 'stubborn', 'none', 'huge')) if not fails else None
    calls = []
    waits = sx.choice('waits', [0, 1, 2])

    async def original(*args, **kwargs):
        calls.append((args, kwargs))
        for i in range(waits):
            await Suspend()
        if fails:
            raise error
        return r
    function = decorate(sx, original, ['bare', 'text', 'unknown', 'suppress'])
    args, kwargs = [object()], {'message': object()}
    sx.check(inspect.iscoroutinefunction(function), 'a coroutine function stays a coroutine function')
    co = function(*args, **kwargs)
    sx.check(not calls, 'the body of a coroutine does not start before it is awaited')
    suspended = 0
    try:
        while True:
            try:
                co.send(None)
            except StopIteration as e:
                if type(e) is StopIteration and not (fails and e is error):
                    sx.check(not fails and e.value is r, 'the result is the object that the coroutine returned')
                    break
                raise
            suspended += 1
    except BaseException as e:
        if type(error) is StopIteration:
            sx.check(isinstance(e, RuntimeError), 'the exception is the one that the coroutine raised')
        else:
            sx.check(fails and e is error, 'the exception is the one that the coroutine raised', type(e))
    sx.check(suspended == waits, 'the coroutine is suspended as often as the original', suspended)
    same_call(sx, calls, args, kwargs)


def methods(sx):
    sink()
    levels(sx)
    fails = sx.flag('fails')
    error = ValueError('bad')
    r = object()
    calls = []

    def body(*args):
        calls.append(args)
        if fails:
            raise error
        return r

    class Base:
        def plain(self, x):
            return body(self, x)

        @staticmethod
        def static(x):
            return body(x)

        @classmethod
        def cls(cls, x):
            return body(cls, x)

        def __call__(self, x):
            return body(self, x)
    how = sx.choice('how', ['class', 'class called', 'methods', 'unlog'])
    if how == 'class':
        Class = log(Base)
    elif how == 'class called':
        Class = log('text', level=sx.int('level', 0, HI))(Base)
    elif how == 'methods':
        Class = log(methods=['plain', 'static', 'cls'])(Base)
    else:
        Class = unlog(Base)
    sx.check(Class is Base, 'a decorated class is the same class')
    obj = Class()
    marker = object()
    which = sx.choice('which', ['plain', 'static', 'cls', 'call'])
    via = sx.choice('via', ['instance', 'class'])
    want = {'plain': (obj, marker), 'static': (marker,), 'cls': (Class, marker), 'call': (obj, marker)}[which]
    name = '__call__' if which == 'call' else which
    try:
        if via == 'instance':
            got = getattr(obj, name)(marker)
        elif which in ('plain', 'call'):
            got = getattr(Class, name)(obj, marker)
        else:
            got = getattr(Class, name)(marker)
        sx.check(not fails and got is r, 'the result is the object that the method returned')
    except ValueError as e:
        sx.check(fails and e is error, 'the exception is the one that the method raised')
    ok = len(calls) == 1 and len(calls[0]) == len(want) and all(a is b for a, b in zip(calls[0], want))
    sx.check(ok, 'the method receives exactly the arguments of the call')


def hostile(sx):
    """Handlers and fields that fail, whatever they raise, do not reach the caller."""
    kind = sx.choice('kind', [ValueError, RecursionError, SystemExit, KeyboardInterrupt, DumbError])
    where = sx.choice('where', ['handler', 'two handlers', 'field', 'engine field', 'local field', 'all'])
    s = sink()

    def bad(item):
        raise kind('from the logger')
    extra = {}
    if where in ('handler', 'two handlers', 'all'):
        config.add_handlers(bad)
    if where in ('two handlers', 'all'):
        config.add_handlers(bad2=lambda item: bad(item))
    if where in ('field', 'all'):
        config.add_fields(broken=field(bad))
    if where in ('engine field', 'all'):
        config.add_engine_fields(broken2=field(bad))
    if where in ('local field', 'all'):
        extra = {'extra_fields': {'broken3': field(bad)}, 'extra_engine_fields': {'broken4': field(bad)}}
    fails = sx.flag('fails')
    error = ValueError('bad')

    @log(**extra)
    def function():
        if fails:
            raise error
        return 5
    try:
        sx.check(function() == 5 and not fails, 'the result is the object that the function returned')
        sx.mark('returned')
    except BaseException as e:
        sx.check(fails and e is error, 'the exception is the one that the function raised', type(e))
        sx.mark('raised')
    sx.check(s.count() == 1, 'the other handler still gets the record', s.count())
