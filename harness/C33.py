"""The logger keeps nothing of the program alive."""
import asyncio
import gc
import logging
import weakref

from harness.common import log, config, field, unlog, HI, Sink
from polog.data_structures.wrappers.weak_linked.dictionary import LockedWeakKeyValueDictionary

CASES = ['functions', 'arguments', 'edits', 'blocks', 'classes', 'registered', 'standard', 'again', 'dictionary']
BOUNDS = ('functions, coroutine functions, methods and classes under up to 3 decorators out of 4, called 0..2 times with a result or an exception, at any level and global level, '
          'with and without suppression, deduplication, fields, handlers that fail; histories of 4 (thorough: 5) operations on the dictionary of weak references with 2 keys and 2 values')
OUTSIDE = 'the record a thread of the pool handled last; what handlers and extractors of the user keep; interpreters without collection of cycles'
ASSUMPTIONS = ['pool_size=0', 'the garbage collector of the interpreter runs before objects are looked for']
MARKS = {'functions': ['recorded', 'left out', 'failed'], 'arguments': ['recorded', 'left out', 'failed'], 'dictionary': ['died', 'removed']}


class Thing:
    pass


class Trouble(Exception):
    pass


class Last(Trouble):
    pass


def gone(sx, refs, label, *detail):
    gc.collect()
    left = sorted(name for name, ref in refs.items() if ref() is not None)
    sx.check(not left, label, (left,) + detail)


def decorators(sx, n, kinds=('log', 'named', 'suppressing', 'unlog')):
    return [sx.choice('decorator%d' % i, list(kinds)) for i in range(n)]


def decorate(function, kinds, **kw):
    refs = {}
    for i, kind in enumerate(kinds):
        if kind == 'unlog':
            function = unlog(function)
        elif kind == 'named':
            function = log('text', **kw)(function)
        elif kind == 'suppressing':
            function = log(**kw).suppress(Last)(function)
        else:
            function = log(**kw)(function) if kw else log(function)
        refs['wrapper %d' % i] = weakref.ref(function)
    return function, refs


def observed(sx, level, given):
    sx.mark('recorded' if given >= level else 'left out')


def functions(sx):
    """A function and all its wrappers are freed when the program forgets them."""
    level = sx.int('global level', 0, HI)
    given = sx.int('level', 0, HI)
    config.set(level=level, deduplicate_errors=sx.flag('deduplicate'))
    config.add_handlers(lambda item: item.get('function'))
    observed(sx, level, given)
    kinds = decorators(sx, sx.choice('decorators', [1, 2, 3] if sx.thorough else [1, 2]))
    coroutine = sx.flag('coroutine')
    fails = sx.choice('outcome', ['not called', 'result', 'error'])

    def scene():
        refs = {}
        if coroutine:
            async def function(x):
                if fails == 'error':
                    raise Trouble(x)
                return x
        else:
            def function(x):
                if fails == 'error':
                    raise Trouble(x)
                return x
        refs['function'] = weakref.ref(function)
        wrapper, more = decorate(function, kinds, level=given)
        refs.update(more)
        thing = Thing()
        refs['argument'] = weakref.ref(thing)
        if fails != 'not called':
            for i in range(2):
                try:
                    asyncio.run(wrapper(thing)) if coroutine else wrapper(thing)
                except Trouble as e:
                    sx.mark('failed')
                    refs['exception %d' % i] = weakref.ref(e)
        return refs
    refs = scene()
    gone(sx, refs, 'what the program has forgotten is freed', kinds, fails)


def arguments(sx):
    """The wrapper lives on; arguments, results and exceptions of its calls do not."""
    level = sx.int('global level', 0, HI)
    given = sx.int('level', 0, HI)
    config.set(level=level, deduplicate_errors=sx.flag('deduplicate'), suppress_exception_subclasses=True)
    observed(sx, level, given)
    kinds = decorators(sx, 2, ('log', 'unlog'))
    suppressed = sx.flag('suppressed')
    broken = sx.choice('broken', ['nothing', 'handler', 'extractor'])

    def bad(item):
        raise Last(item)
    config.add_handlers(bad if broken == 'handler' else (lambda item: None))
    if broken == 'extractor':
        config.add_fields(extra=field(bad))
    if sx.flag('as fields'):
        config.add_fields(held=field(lambda item: Thing()))

    def inner(x, y=None):
        local = Thing()
        if x.fails:
            raise Trouble(x, local)
        return x

    def middle(x, y=None):
        return first(x, y=y)
    first, _ = decorate(inner, kinds[:1], level=given)
    if suppressed:
        outer = log(level=given).suppress(Trouble)(middle)
    else:
        outer, _ = decorate(middle, kinds[1:], level=given)

    def call(i):
        x, y = Thing(), Thing()
        x.fails = sx.flag('fails%d' % i)
        refs = {'argument': weakref.ref(x), 'named argument': weakref.ref(y)}
        try:
            outer(x, y=y)
        except Trouble as e:
            sx.mark('failed')
            refs['exception'] = weakref.ref(e)
            refs['local variable'] = weakref.ref(e.args[1])
        return refs
    for i in range(2):
        gone(sx, call(i), 'the arguments, the result and the exception of a call are freed', i, kinds, broken)


def edits(sx):
    """Neither an edit of a record nor a manual record keeps what it was given."""
    kind = sx.choice('kind', ['message', 'message in coroutine', 'manual', 'manual with wrong', 'block'])
    config.set(level=sx.choice('global level', [0, 5]), silent_internal_exceptions=True)
    config.add_handlers(lambda item: None)

    def scene():
        thing = Thing()
        error = Trouble(thing)
        refs = {'thing': weakref.ref(thing), 'exception': weakref.ref(error)}

        def body():
            log.message('edited', exception=error, level=3, local_variables=thing)

        async def later():
            body()
            await asyncio.sleep(0)
            body()
        if kind == 'message':
            log(body)()
        elif kind == 'message in coroutine':
            asyncio.run(log(later)())
        elif kind == 'manual':
            log('text', exception=error, level=3)
        elif kind == 'manual with wrong':
            log('text', exception=thing, unknown=thing, level=error)
        else:
            with log('text', level=3) as block:
                block('other', exception=error)
        return refs
    gone(sx, scene(), 'what was given to a record is freed', kind)
    gone(sx, scene(), 'what was given to a record is freed, also the next time', kind)


def blocks(sx):
    """Objects of loggers and exceptions of blocks."""
    config.set(level=sx.choice('global level', [0, 5]), deduplicate_errors=sx.flag('deduplicate'))
    config.add_handlers(lambda item: None)
    suppress = sx.flag('suppress')
    nested = sx.flag('nested')
    outcome = sx.choice('outcome', ['result', 'error', 'never entered', 'decorator'])

    def scene():
        refs = {}
        thing = Thing()
        refs['thing'] = weakref.ref(thing)
        logger = log('text', level=3)
        refs['logger'] = weakref.ref(logger)
        if suppress:
            logger = logger.suppress(Trouble)
            refs['suppressing logger'] = weakref.ref(logger)
        if outcome == 'decorator':
            function = logger(lambda: thing)
            refs['wrapper'] = weakref.ref(function)
            function()
        elif outcome != 'never entered':
            try:
                with logger:
                    if nested:
                        with log('inside', level=3):
                            thing.value = 1
                    if outcome == 'error':
                        raise Trouble(thing)
            except Trouble as e:
                refs['exception'] = weakref.ref(e)
        return refs
    gone(sx, scene(), 'a logger object and what happened in its block are freed', outcome, suppress, nested)


def classes(sx):
    """Classes, their methods and their objects."""
    config.set(level=sx.choice('global level', [0, 5]))
    config.add_handlers(lambda item: None)
    how = sx.choice('how', ['log', 'with text', 'of names', 'unlog', 'twice'])
    own = sx.choice('own', ['no', 'log', 'unlog'])
    derived = sx.flag('derived')
    fails = sx.flag('fails')

    def scene():
        refs = {}

        class Base:
            def method(self, x):
                if fails:
                    raise Trouble(self)
                return x

            def other(self):
                return self
        if own == 'log':
            Base.other = log(Base.other)
        elif own == 'unlog':
            Base.other = unlog(Base.other)
        made = {'log': log, 'with text': log('text'), 'of names': log(methods=('method',)), 'unlog': unlog, 'twice': lambda c: log(log('text')(c))}[how](Base)
        refs['class'] = weakref.ref(made)
        refs['method'] = weakref.ref(made.__dict__['method'])
        if derived:
            @log
            class Derived(made):
                def method(self, x):
                    return super().method(x)
            made = Derived
            refs['derived class'] = weakref.ref(made)
        thing = made()
        refs['object'] = weakref.ref(thing)
        try:
            thing.method(thing)
        except Trouble as e:
            refs['exception'] = weakref.ref(e)
        thing.other()
        return refs
    gone(sx, scene(), 'a class and its objects are freed', how, own, derived)


def registered(sx):
    """Handlers, fields and values of settings that were removed or replaced."""
    what = sx.choice('what', ['handler', 'named handler', 'branch', 'field', 'engine field', 'local handler', 'local field'])
    used = sx.flag('used')

    def scene():
        def handler(item):
            return None
        refs = {what: weakref.ref(handler)}
        if what == 'handler':
            config.add_handlers(handler)
        elif what == 'named handler':
            config.add_handlers(name=handler)
        elif what == 'branch':
            config.add_handlers(**{'some.name': handler})
        elif what == 'field':
            config.add_fields(name=field(handler))
        elif what == 'engine field':
            config.add_engine_fields(name=field(handler))
        elif what == 'local handler':
            log('text', handlers=[handler])(lambda: None)()
        else:
            log('text', extra_fields={'name': field(handler)})(lambda: None)()
        if used:
            log('text')
            with log('other'):
                pass
        if what == 'handler':
            config.delete_handlers(handler)
        elif what == 'named handler':
            config.delete_handlers('name')
        elif what == 'branch':
            config.delete_handlers('some.name')
        elif what == 'field':
            config.delete_fields('name')
        elif what == 'engine field':
            config.delete_engine_fields('name')
        return refs
    config.add_handlers(lambda item: None)
    gone(sx, scene(), 'what was removed is freed', what)


def standard(sx):
    """Copies of the standard logging."""
    config.set(level=sx.choice('global level', [0, 50]), integration_with_logging=True, logging_off=False)
    config.add_handlers(lambda item: None)
    off = sx.flag('off')
    kind = sx.choice('kind', ['argument', 'error', 'wrong'])
    root = logging.getLogger()
    root.handlers[:] = [logging.NullHandler()]

    def scene():
        thing = Thing()
        error = Trouble(thing)
        refs = {'thing': weakref.ref(thing), 'exception': weakref.ref(error)}
        if kind == 'argument':
            logging.error('text %s', thing)
        elif kind == 'error':
            try:
                raise error
            except Trouble:
                logging.exception('text')
        else:
            logging.error(thing, error)
        return refs
    refs = scene()
    if off:
        config.set(integration_with_logging=False)
    gone(sx, refs, 'what was given to the standard logging is freed', kind)


def again(sx):
    """New functions in the place of forgotten ones are what they are."""
    sink = Sink()
    config.add_handlers(sink)
    config.set(level=0)
    want = []
    for i in range(4 + sx.thorough):
        kind = sx.choice('kind%d' % i, ['logged', 'unlogged', 'plain'])

        def function():
            return i
        plain = function
        if kind == 'logged':
            function = log('text %d' % i)(function)
        elif kind == 'unlogged':
            function = log('text %d' % i)(unlog(function))
        sx.check(function() == i, 'the result of a function', i)
        if kind == 'logged':
            want.append('text %d' % i)
        del function, plain
        gc.collect()
        sx.check([item['message'] for item in sink.items] == want, 'exactly the logged calls are recorded', i)


def dictionary(sx):
    """The dictionary of weak references against a simple one, whatever dies."""
    real = LockedWeakKeyValueDictionary()
    keys, values = [Thing() for i in range(2)], [Thing() for i in range(2)]
    want = {}                   # number of key -> number of value
    for step in range(4 + sx.thorough):
        what = sx.choice('step%d' % step, ['set 0 0', 'set 0 1', 'set 1 0', 'set 1 1', 'del 0', 'pop 1', 'kill key 0', 'kill value 0', 'kill value 1'])
        words = what.split()
        if words[0] == 'set':
            k, v = int(words[1]), int(words[2])
            if keys[k] is None or values[v] is None:
                continue
            real[keys[k]] = values[v]
            want[k] = v
        elif words[0] in ('del', 'pop'):
            k = int(words[1])
            if keys[k] is None:
                continue
            try:
                if words[0] == 'del':
                    del real[keys[k]]
                    result = None
                else:
                    result = real.pop(keys[k])
                sx.mark('removed')
                sx.check(k in want, 'an absent key cannot be removed', what)
                sx.check(words[0] == 'del' or result is values[want[k]], 'the removed value is given back', what)
                result = None
                want.pop(k, None)
            except KeyError:
                sx.check(k not in want, 'a present key can be removed', what)
        elif words[1] == 'key':
            sx.mark('died')
            keys[int(words[2])] = None
            want.pop(int(words[2]), None)
        else:
            sx.mark('died')
            v = int(words[2])
            values[v] = None
            want = {a: b for a, b in want.items() if b != v}
        gc.collect()
        sx.check(len(real) == len(want), 'exactly the pairs with both ends alive are held', (what, len(real)))
        for k in range(2):
            if keys[k] is not None:
                sx.check((keys[k] in real) == (k in want), 'membership', what)
                sx.check(real.get(keys[k]) is (values[want[k]] if k in want else None), 'the value last given', what)
        sx.check(len(list(real.keys())) == len(want) and len(list(real.values())) == len(want) and len(list(real)) == len(want), 'iteration', what)
        for key, value in list(real.items()):
            sx.check(any(keys[a] is key and values[b] is value for a, b in want.items()), 'pairs', what)
        key = value = None
