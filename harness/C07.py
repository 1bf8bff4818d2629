"""A record about a call describes that call."""
import datetime
import json

from harness.clock import Clock
from harness.common import log, config, sink, run_coroutine, Suspend, HI, Unprintable

CASES = ['arguments', 'result', 'failure', 'identity', 'duration', 'manual', 'block', 'nested', 'overlap', 'repeated']
BOUNDS = ('calls with up to 2 positional and 2 keyword arguments of 8 kinds with any integer values (|x| <= 10**9), texts of up to '
          '3 characters, results of 8 kinds, exceptions of 4 kinds with texts of up to 3 characters, any duration, any level, '
          'functions, methods, static and class methods, lambdas, coroutines; nesting 3 and two overlapping coroutines')
OUTSIDE = 'generators; the exact wording of tracebacks; time zones'
ASSUMPTIONS = ['the clock is a parameter (time.time is replaced by it)', 'pool_size=0']
MARKS = {'arguments': ['positional', 'keyword'], 'failure': ['failed']}


class Thing:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'thing %d' % self.n


class Sub(ValueError):
    pass


def value(sx, name, kinds):
    """-> the object, what the record must say about it."""
    kind = sx.choice(name + '_kind', kinds)
    if kind == 'number':
        x = sx.int(name, -HI, HI)
        return x, (x, 'int')
    if kind == 'bool':
        x = sx.flag(name)
        return x, (x, 'bool')
    if kind == 'text':
        x = sx.str(name, 2, alphabet='a"\\\n{')
        return x, (x, 'str')
    if kind == 'float':
        return 1.5, (1.5, 'float')
    if kind == 'none':
        return None, ('None', 'NoneType')
    if kind == 'list':
        return [1, 'x'], ("[1, 'x']", 'list')
    if kind == 'object':
        return Thing(7), ('thing 7', 'Thing')
    return Unprintable(), (None, 'Unprintable')


def described(sx, got, want, label):
    sx.check(got['type'] == want[1], label, (got, want))
    if want[0] is not None:
        sx.check(got['value'] == want[0], label, (got, want))


def one(sx, s, label='one call, one record'):
    return s.items[0] if sx.check(s.count() == 1, label, s.count()) else None


def arguments(sx):
    s = sink()
    fails = sx.flag('fails')
    positional = [value(sx, 'p%d' % i, (['number', 'text', 'bool', 'none', 'object', 'unprintable', 'list', 'float'], ['number', 'object'])[i])
                  for i in range(sx.choice('positional', [0, 1, 2]))]
    names = sx.choice('keywords', [(), ('key',), ('args', 'kwargs')])
    keyword = {n: value(sx, n, ['number', 'object']) for n in names}

    @log
    def function(*args, **kwargs):
        if fails:
            raise ValueError('bad')
        return 5
    try:
        function(*[v for v, _ in positional], **{k: v for k, (v, _) in keyword.items()})
    except ValueError:
        pass
    item = one(sx, s)
    if item is None:
        return
    sx.check(item['success'] == (not fails), 'the record tells whether the call succeeded')
    if not positional and not keyword:
        sx.check(item.get('input_variables') is None, 'a call without arguments has no arguments in its record')
        return
    data = json.loads(item['input_variables'])
    sx.check(len(data.get('args', [])) == len(positional), 'the record has the positional arguments')
    sx.check(sorted(data.get('kwargs', {})) == sorted(keyword), 'the record has the keyword arguments')
    for got, (_, want) in zip(data.get('args', []), positional):
        described(sx, got, want, 'the record has the positional arguments in their order')
        sx.mark('positional')
    for k, (_, want) in keyword.items():
        described(sx, data['kwargs'][k], want, 'the record has the keyword arguments under their names')
        sx.mark('keyword')


def result(sx):
    s = sink()
    v, want = value(sx, 'result', ['number', 'text', 'bool', 'none', 'object', 'unprintable', 'list', 'float'])
    level = sx.int('level', 0, HI)
    service = sx.choice('service', [None, 'svc'])
    config.set(service_name=service)

    if sx.flag('coroutine'):
        async def function():
            await Suspend()
            return v
        run_coroutine(log('text', level=level)(function)())
    else:
        log('text', level=level)(lambda: v)()
    item = one(sx, s)
    if item is None:
        return
    described(sx, json.loads(item['result']), want, 'the record has the result of the call')
    sx.check(item['success'] is True and item['auto'] is True, 'a record of a successful call says so')
    sx.check(item['level'] == level and item['message'] == 'text', 'the record has the level and the message of the decorator')
    sx.check(item.get('service_name') == service, 'the record has the name of the service')
    sx.check('exception_type' not in item and 'exception_message' not in item and 'traceback' not in item,
             'a record of a successful call has no exception')


def failure(sx):
    s = sink()
    kind = sx.choice('error', [ValueError, Sub, KeyError, OSError])
    text = sx.str('text', 2, alphabet='a"\n')
    n = sx.int('n', -HI, HI)
    level = sx.int('level', 0, HI)
    deep = sx.flag('deep')

    def inner(x):
        inner_local = x
        raise kind(text)

    def body(x):
        own_local = x
        if deep:
            inner(x + 1)
        raise kind(text)

    async def coroutine(x):
        own_local = x
        await Suspend()
        if deep:
            inner(x + 1)
        raise kind(text)
    suppress = sx.flag('suppress')
    decorator = log('text', level=level, errors_level=level)
    if suppress:
        decorator = decorator.suppress(kind)
    try:
        if sx.flag('coroutine'):
            run_coroutine(decorator(coroutine)(n))
        else:
            decorator(body)(n)
    except kind:
        pass
    item = one(sx, s)
    if item is None:
        return
    sx.mark('failed')
    sx.check(item['success'] is False, 'a record of a failed call says so')
    sx.check(item['exception_type'] == kind.__name__, 'the record has the type of the exception', item['exception_type'])
    sx.check(item['exception_message'] == str(kind(text)), 'the record has the text of the exception')
    sx.check('result' not in item, 'a record of a failed call has no result')
    sx.check(item['level'] == level and item['message'] == 'text', 'the record has the level and the message of the decorator')
    variables = json.loads(item['local_variables'])['kwargs']
    sx.check('own_local' in variables and variables['own_local']['value'] == n, 'the record has the local variables of the function')
    sx.check(json.loads(item['input_variables'])['args'][0]['value'] == n, 'the record has the arguments of the call')
    trace = json.loads(item['traceback'])
    sx.check(len(trace) == (2 if deep else 1), 'the traceback has the frames of the function and of nothing else', trace)


def identity(sx):
    """Which function, which module, which class."""
    s = sink()
    how = sx.choice('how', ['function', 'lambda', 'method', 'class', 'static', 'classmethod', 'coroutine', 'inner class', 'odd name'])
    if how == 'function':
        @log
        def sample():
            return 1
        sample()
        want = ('sample', None)
    elif how == 'coroutine':
        @log
        async def sample():
            return 1
        run_coroutine(sample())
        want = ('sample', None)
    elif how == 'lambda':
        log(lambda: 1)()
        want = ('<lambda>', None)
    elif how == 'method':
        class Owner:
            @log
            def sample(self):
                return 1
        Owner().sample()
        want = ('sample', 'Owner')
    elif how == 'odd name':
        name = sx.choice('name', ['owner', '_Owner', '__owner', 'x', 'КлассЪ', 'locals', 'Owner2'])

        def sample(self):
            return 1
        sample.__qualname__ = 'identity.<locals>.%s.sample' % name
        Owner = type(name, (), {'sample': log(sample), '__module__': __name__})
        Owner().sample()
        want = ('sample', name)
    elif how == 'inner class':
        class Owner:
            class Inner:
                @log
                def sample(self):
                    return 1
        Owner.Inner().sample()
        want = ('sample', 'Inner')
    else:
        @log
        class Owner:
            def sample(self):
                return 1

            @staticmethod
            def fixed():
                return 1

            @classmethod
            def of_class(cls):
                return 1
        name = {'class': 'sample', 'static': 'fixed', 'classmethod': 'of_class'}[how]
        getattr(Owner(), name)()
        want = (name, 'Owner')
    item = one(sx, s)
    if item is None:
        return
    sx.check(item['function'] == want[0], 'the record has the name of the function', item['function'])
    sx.check(item['module'] == identity.__module__, 'the record has the module of the function', item.get('module'))
    sx.check(item.get('class') == want[1], 'the record has the class of the method', item.get('class'))


def duration(sx):
    s = sink()
    d = sx.real('duration', 0, 10 ** 6)
    start = 1600000000.25
    fails = sx.flag('fails')
    how = sx.choice('how', ['function', 'coroutine', 'block'])

    def work():
        Clock.now = Clock.now + d
        if fails:
            raise ValueError('bad')

    def function():
        work()

    async def coroutine():
        await Suspend()
        work()
    Clock.now = start - sx.choice('made_before', [0, 7.5])
    made = log(function) if how == 'function' else log(coroutine) if how == 'coroutine' else log('text')
    if how == 'coroutine':
        made = made()
    Clock.now = start
    try:
        if how == 'function':
            made()
        elif how == 'coroutine':
            run_coroutine(made)
        else:
            with made:
                work()
    except ValueError:
        pass
    Clock.now = None
    item = one(sx, s)
    if item is None:
        return
    delta = item['time_of_work'] - d
    sx.check(delta < 0.001, 'the record has the duration of the call')
    sx.check(delta > -0.001, 'the record has the duration of the call')
    sx.check(item['time'] == datetime.datetime.fromtimestamp(start), 'the time of the record is the start of the call', item['time'])


def manual(sx):
    s = sink()
    Clock.now = 1600000000.25
    level = sx.int('level', 0, HI)
    text = sx.str('text', 3, alphabet='a"\n')
    mine = sx.int('mine', -HI, HI)
    service = sx.choice('service', [None, 'svc'])
    config.set(service_name=service)
    with_error = sx.choice('error', ['no', 'instance', 'name', 'caught'])
    kw = {}
    if with_error == 'instance':
        kw['exception'] = Sub(text)
    elif with_error == 'name':
        kw['e'] = 'Sub'
    success = sx.choice('success', [None, True, False])
    if success is not None:
        kw['success'] = success
    function = sx.choice('function', [None, 'name', Thing.__str__])
    if function is not None:
        kw['function'] = function
    if with_error == 'caught':
        try:
            marker = mine
            raise Sub(text)
        except Sub as e:
            log(text, level=level, mine=mine, exception=e, **kw)
    else:
        log(text, level=level, mine=mine, **kw)
    Clock.now = None
    item = one(sx, s)
    if item is None:
        return
    sx.check(item['message'] == text and item['level'] == level and item['mine'] == mine, 'a manual record has the given fields')
    sx.check(item['auto'] is False, 'a manual record is marked as manual')
    sx.check(item['time'] == datetime.datetime.fromtimestamp(1600000000.25), 'a manual record has its time')
    sx.check(item.get('service_name') == service, 'the record has the name of the service')
    if with_error == 'no':
        sx.check(item.get('success') == success and 'exception_type' not in item, 'a manual record without an exception has none')
    else:
        sx.check(item['success'] is False, 'a record about an exception is a record about a failure')
        sx.check(item['exception_type'] == 'Sub', 'the record has the type of the exception')
        sx.check('exception' not in item, 'the exception itself is not kept')
        if with_error != 'name':
            sx.check(item['exception_message'] == text, 'the record has the text of the exception')
        if with_error == 'caught':
            variables = json.loads(item['local_variables'])['kwargs']
            sx.check(variables['marker']['value'] == mine, 'the record has the local variables')
    if function is not None:
        sx.check(item['function'] == ('name' if function == 'name' else '__str__'), 'the record has the name of the function')


def block(sx):
    s = sink()
    level = sx.int('level', 0, HI)
    text = sx.str('text', 2, alphabet='a"\n')
    mine, later = sx.int('mine', -HI, HI), sx.int('later', -HI, HI)
    kind = sx.choice('error', [None, ValueError, Sub, KeyError])
    rewrite = sx.choice('rewrite', ['no', 'same', 'other', 'message'])
    try:
        with log('first', level=level, mine=mine) as context:
            if rewrite == 'same':
                context(mine=later)
            elif rewrite == 'other':
                context(other=later)
            elif rewrite == 'message':
                context('second', level=level)
            if kind is not None:
                raise kind(text)
    except ValueError:
        pass
    except KeyError:
        pass
    item = one(sx, s)
    if item is None:
        return
    sx.check(item['message'] == ('second' if rewrite == 'message' else 'first'), 'the record of a block has its message')
    sx.check(item['level'] == level, 'the record of a block has its level')
    sx.check(item['mine'] == (later if rewrite == 'same' else mine), 'the record of a block has its fields')
    if rewrite == 'other':
        sx.check(item['other'] == later, 'the record of a block has the added fields')
    sx.check(item['success'] == (kind is None), 'the record of a block tells whether the block succeeded')
    if kind is None:
        sx.check('exception_type' not in item, 'a successful block has no exception')
    else:
        sx.check(item['exception_type'] == kind.__name__ and item['exception_message'] == str(kind(text)),
                 'the record of a failed block has the exception')
        sx.check(len(json.loads(item['traceback'])) == 1, 'the record of a failed block has the traceback')


def nested(sx):
    """Every call of a chain of logged calls has its own record."""
    s = sink()
    config.set(deduplicate_errors=False)
    depth = 3
    values = [sx.int('v%d' % i, -HI, HI) for i in range(depth)]
    recursive = sx.flag('recursive')
    fails_at = sx.choice('fails_at', [None, 0, 1, 2])
    caught_at = sx.choice('caught_at', [None, 0, 1])

    def body(n):
        if n + 1 < depth:
            if caught_at == n:
                try:
                    functions[n + 1](n + 1)
                except ValueError:
                    pass
            else:
                functions[n + 1](n + 1)
        if fails_at == n:
            raise ValueError('at %d' % n)
        return values[n]
    if recursive:
        functions = [log('same')(body)] * depth
    else:
        functions = [log('number %d' % i)(lambda n: body(n)) for i in range(depth)]
    try:
        functions[0](0)
    except ValueError:
        pass
    if not sx.check(s.count() == depth, 'every logged call has its own record', s.count()):
        return
    for i, item in enumerate(reversed(s.items)):
        sx.check(json.loads(item['input_variables'])['args'][0]['value'] == i, 'records come as calls end', i)
        failed = fails_at is not None and fails_at >= i and not (caught_at is not None and i <= caught_at < fails_at)
        sx.check(item['success'] == (not failed), 'every record tells about its own call', (i, fails_at, caught_at))
        sx.check(item['message'] == ('same' if recursive else 'number %d' % i), 'every record has its own message')
        if not failed:
            sx.check(json.loads(item['result'])['value'] == values[i], 'every record has the result of its own call')
        else:
            sx.check(item['exception_message'] == 'at %d' % fails_at, 'every record has the exception of its own call')


def overlap(sx):
    """Two coroutines of the same function run at the same time."""
    s = sink()
    a, b = sx.int('a', -HI, HI), sx.int('b', -HI, HI)
    fails = [sx.flag('a_fails'), sx.flag('b_fails')]

    @log('text')
    async def function(which, x):
        await Suspend()
        if fails[which]:
            raise ValueError('bad')
        await Suspend()
        return x
    running = [function(0, a), function(1, b)]
    alive = [True, True]
    Clock.now = 1600000000
    started, ended = [None, None], [None, None]
    for step in range(8):
        options = [i for i in (0, 1) if alive[i]]
        if not options:
            break
        i = options[0] if len(options) == 1 else sx.choice('turn%d' % step, options)
        Clock.now += 3 ** step
        if started[i] is None:
            started[i] = Clock.now
        try:
            running[i].send(None)
        except (StopIteration, ValueError):
            alive[i] = False
            ended[i] = Clock.now
    Clock.now = None
    if sx.check(s.count() == 2, 'one record per coroutine', s.count()):
        for item in s.items:
            data = json.loads(item['input_variables'])['args']
            which = data[0]['value']
            sx.check(data[1]['value'] == (a, b)[which], 'every record has the arguments of its own call')
            sx.check(item['success'] == (not fails[which]), 'every record tells about its own call')
            sx.check(item['time_of_work'] == ended[which] - started[which], 'every record has the duration of its own call',
                     (item['time_of_work'], ended[which] - started[which]))
            sx.check(item['time'].timestamp() == started[which], 'every record has the time of its own call')
            if not fails[which]:
                sx.check(json.loads(item['result'])['value'] == (a, b)[which], 'every record has the result of its own call')
        sx.check(json.loads(s.items[0]['input_variables'])['args'][0]['value']
                 != json.loads(s.items[1]['input_variables'])['args'][0]['value'], 'one record per coroutine')


VALUES = [1, True, 1.0, '1', 0, False, 0.0, '', None]


def repeated(sx):
    """Calls of one function one after another: equal, but different values, failures in between."""
    s = sink()
    steps = [sx.choice('step%d' % i, ['value', 'number', 'fails']) for i in range(3)]
    values = [sx.choice('value%d' % i, VALUES) if steps[i] == 'value' and (i < 2 or sx.thorough) else sx.int('n%d' % i, -HI, HI) if steps[i] == 'number' else i for i in range(3)]
    how = sx.choice('how', ['function', 'keyword', 'coroutine'])

    def body(v=None, **kw):
        v = kw.get('key', v)
        if steps[len(s.items)] == 'fails':
            raise ValueError('bad %d' % len(s.items))
        return v

    async def coroutine(v):
        return body(v)
    f = log('text')(coroutine if how == 'coroutine' else body)
    for i, v in enumerate(values):
        try:
            if how == 'keyword':
                f(key=v)
            elif how == 'coroutine':
                run_coroutine(f(v))
            else:
                f(v)
        except ValueError:
            pass
    if not sx.check(s.count() == 3, 'one call, one record', s.count()):
        return
    for i, item in enumerate(s.items):
        v = values[i]
        want = ('None', 'NoneType') if v is None else (v, 'int' if steps[i] == 'number' else type(v).__name__)
        data = json.loads(item['input_variables'])
        described(sx, data['kwargs']['key'] if how == 'keyword' else data['args'][0], want, 'the record has the arguments of its own call')
        if steps[i] == 'fails':
            sx.check(item['success'] is False and item['exception_message'] == 'bad %d' % i and 'result' not in item, 'the record has the exception of its own call', i)
        else:
            sx.check(item['success'] is True and 'exception_type' not in item, 'the record has the outcome of its own call', i)
            described(sx, json.loads(item['result']), want, 'the record has the result of its own call')
