"""Which exceptions the logger swallows."""
from harness.common import log, config, sink, run_coroutine, ChildError, FrozenError, DumbError, HI

CASES = ['context', 'decorator', 'stacked']
BOUNDS = ('blocks and decorated functions (also coroutine functions) with 0..3 suppressed classes given in one or two calls, '
          'exceptions of 9 classes including subclasses of the listed ones and other classes with the same names, both suppression settings, any global level')
OUTSIDE = 'exceptions that are not subclasses of Exception where all are to be suppressed'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'context': ['suppressed', 'raised', 'no exception'], 'decorator': ['suppressed', 'raised', 'no exception']}


class GrandChildError(ChildError):
    pass


class LiarError(Exception):
    __class__ = property(lambda self: ValueError)


def twin(parent):
    class ChildError(parent):
        pass
    return ChildError


# other classes with the names of listed ones
Stranger, Cousin = twin(Exception), twin(ValueError)


LISTS = [((),), ((ValueError,),), ((ChildError,),), ((KeyError, ChildError),), ((KeyError,), (ValueError,)),
         ((KeyError, 'not an exception', ValueError),), ((LookupError, FrozenError, GrandChildError),), ((Exception,),), ((5, 'text'),)]


def settings(sx):
    config.set(suppress_by_default=sx.flag('by_default'), suppress_exception_subclasses=sx.flag('subclasses'),
               silent_internal_exceptions=True, level=sx.int('global_level', 0, HI))


def raised(sx):
    return sx.choice('raised', [None, ValueError, ChildError, GrandChildError, KeyError, FrozenError, DumbError, LiarError, Stranger, Cousin, KeyboardInterrupt])


def swallowed(subclasses, calls, kind, otherwise):
    if kind is None:
        return False
    if calls is None:
        return otherwise
    if () in calls:
        return True
    listed = [c for call in calls for c in call if isinstance(c, type)]
    if not listed:
        return otherwise
    if subclasses:
        return any(issubclass(kind, c) for c in listed)
    return kind in listed


def settled(kind, want):
    """What suppressing everything means for exceptions like the interrupt from the keyboard is left open."""
    return kind is not KeyboardInterrupt or not want


def apply(manager, calls):
    for call in calls or ():
        manager = manager.suppress(*call)
    return manager


def verdict(sx, got, error, want):
    if error is None:
        sx.check(got is None, 'nothing is raised when the body raises nothing')
        sx.mark('no exception')
    elif want:
        sx.check(got is None, 'a suppressed exception does not leave')
        sx.mark('suppressed')
    else:
        sx.check(got is error, 'any other exception leaves as it is')
        sx.mark('raised')


def context(sx):
    s = sink()
    settings(sx)
    config.levels(alpha=5)
    form = sx.choice('form', ['bare', 'text', 'fields', 'partial', 'partial text', 'level', 'level text', 'inside'])
    calls = None if form == 'bare' else sx.choice('calls', [None] + LISTS)
    kind = raised(sx)
    error = None if kind is None else kind('bad')
    if form == 'bare':
        manager = log
    elif form == 'text' or form == 'inside':
        manager = log('text')
    elif form == 'fields':
        manager = log(message='text', level=3)
    elif form == 'level':
        manager = log.alpha
    elif form == 'level text':
        manager = log.alpha('text')
    else:
        manager = log
    if form != 'inside':
        manager = apply(manager, calls)
    if form == 'partial text' and (calls is None or len(calls) == 1):
        manager = manager('text')
    got, after = None, False
    try:
        with manager as m:
            if form == 'inside':
                apply(m, calls)
            if error is not None:
                raise error
        after = True
    except BaseException as e:
        got = e
    want = swallowed(config_value('suppress_exception_subclasses'), calls, kind, config_value('suppress_by_default'))
    if not settled(kind, want):
        return
    verdict(sx, got, error, want)
    sx.check(after == (error is None or want), 'execution goes on after the block iff nothing left it')


def config_value(name):
    from polog.core.stores.settings.settings_store import SettingsStore
    return SettingsStore()[name]


def decorator(sx):
    s = sink()
    settings(sx)
    calls = sx.choice('calls', [None] + LISTS)
    kind = raised(sx)
    error = None if kind is None else kind('bad')
    written = sx.choice('written', ['text', 'partial', 'level', 'partial text', 'partial level'])
    form = sx.choice('form', ['function', 'coroutine', 'class'] if written == 'text' else ['function', 'class'] if written == 'partial' else ['function'])
    if written == 'text':
        factory = apply(log('text', level=7), calls)
    elif written == 'level':
        config.levels(alpha=7)
        factory = apply(log.alpha, calls)
    else:
        factory = apply(log, calls)
        if written != 'partial' and (calls is None or len(calls) == 1):
            factory = factory('text') if written == 'partial text' else factory(level=7)

    def body():
        if error is not None:
            raise error
        return 5
    if form == 'function':
        call = factory(body)
    elif form == 'coroutine':
        async def co():
            return body()
        decorated = factory(co)
        call = lambda: run_coroutine(decorated())
    else:
        class Holder:
            def method(self):
                return body()
        call = factory(Holder)().method
    got, result = None, 'nothing'
    try:
        result = call()
    except BaseException as e:
        got = e
    want = swallowed(config_value('suppress_exception_subclasses'), calls, kind, False)
    if not settled(kind, want):
        return
    verdict(sx, got, error, want)
    if error is None:
        sx.check(result == 5, 'the result is returned when nothing is raised')
    elif want:
        sx.check(result is None, 'a call whose exception was suppressed returns None')


def stacked(sx):
    """The rules of one block or function do not affect another one."""
    sink()
    settings(sx)
    inner, outer = sx.choice('inner', LISTS[1:4] + [None]), sx.choice('outer', LISTS[:4] + [None])
    kind = raised(sx)
    error = None if kind is None else kind('bad')
    how = sx.choice('how', ['blocks', 'functions', 'reuse'])
    sub, default = config_value('suppress_exception_subclasses'), config_value('suppress_by_default')
    got = None
    if how == 'blocks':
        reached = False
        try:
            with apply(log('outer'), outer):
                with apply(log('inner'), inner):
                    if error is not None:
                        raise error
                reached = True
        except BaseException as e:
            got = e
        in_ = swallowed(sub, inner, kind, default)
        if not settled(kind, in_ or swallowed(sub, outer, kind, default)):
            return
        sx.check(reached == (error is None or in_), 'the inner block decides first')
        verdict(sx, got, error, in_ or swallowed(sub, outer, kind, default))
    elif how == 'functions':
        @apply(log('inner'), inner)
        def function():
            if error is not None:
                raise error

        @apply(log('outer'), outer)
        def caller():
            function()
        try:
            caller()
        except BaseException as e:
            got = e
        want = swallowed(sub, inner, kind, False) or swallowed(sub, outer, kind, False)
        if settled(kind, want):
            verdict(sx, got, error, want)
    else:
        # an earlier block with its own rules
        try:
            with apply(log('first'), outer):
                raise ChildError('first')
        except BaseException:
            pass
        try:
            with apply(log('second'), inner):
                if error is not None:
                    raise error
        except BaseException as e:
            got = e
        want = swallowed(sub, inner, kind, default)
        if settled(kind, want):
            verdict(sx, got, error, want)
