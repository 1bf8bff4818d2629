"""Every block under a logging context manager gives exactly one record, its own."""
import contextvars
import datetime

from harness.clock import Clock
from harness.common import log, config, sink, Suspend, HI
from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheContextManagerError, IncorrectUseOfTheDecoratorError

CASES = ['forms', 'history', 'nested', 'tasks', 'roles', 'fields', 'partial']
BOUNDS = ('6 ways to open a block, bodies that return or raise one of 4 classes, up to 4 blocks in any nesting or sequence, 2 tasks '
          'with 2 nested blocks each in every interleaving; field values any integer')
OUTSIDE = 'blocks opened in one thread and closed in another'
ASSUMPTIONS = ['pool_size=0', 'the clock is a parameter (time.time is replaced by it)']
MARKS = {'forms': ['failed', 'succeeded'], 'roles': ['manual', 'decorator', 'block']}

ERRORS = [None, ValueError, KeyError, KeyboardInterrupt, GeneratorExit]


def open_block(how, text, level):
    """-> the context manager; its record can be told by the 'mark' field set inside."""
    if how == 'bare':
        return log
    if how == 'text':
        return log(text)
    if how == 'empty':
        return log()
    if how == 'level':
        return log.alpha
    if how == 'level call':
        return log.alpha(text)
    if how == 'suppress':
        return log.suppress()
    if how == 'text suppress':
        return log(text).suppress()
    return log.alpha.suppress()


WAYS = ['bare', 'text', 'empty', 'level', 'level call', 'suppress', 'text suppress', 'level suppress']


def forms(sx):
    s = sink()
    alpha, default, default_error = sx.int('alpha', 0, HI), sx.int('default', 0, HI), sx.int('default_error', 0, HI)
    config.levels(alpha=alpha)
    config.set(default_level=default, default_error_level=default_error)
    how = sx.choice('how', WAYS)
    error = sx.choice('error', ERRORS)
    value = sx.int('value', -HI, HI)
    entered = []
    Clock.now = 1600000000.25
    made = open_block(how, 'text', alpha)
    Clock.now = start = Clock.now + sx.choice('made_before', [0, 7.5])
    try:
        with made as block:
            entered.append(s.count())
            block(mark=value)
            Clock.now = Clock.now + 2.5
            if error is not None:
                raise error('x')
        raised = None
    except BaseException as e:
        raised = type(e)
    Clock.now = None
    suppress = 'suppress' in how
    sx.check(entered == [0], 'the body of the block is executed once and before its record')
    sx.check(raised is (None if suppress else error), 'the exception of the block goes on unless it is suppressed', (raised, error))
    if not sx.check(s.count() == 1, 'one block, one record', s.count()):
        return
    item = s.items[0]
    sx.check(item['mark'] == value, 'the record has the fields given inside the block')
    sx.check(item['success'] == (error is None), 'the record tells whether the block succeeded')
    sx.mark('succeeded' if error is None else 'failed')
    if how in ('text', 'level call', 'text suppress'):
        sx.check(item.get('message') == 'text', 'the record has the message of the block')
    else:
        sx.check('message' not in item, 'the record has no message if none was given')
    want = alpha if 'level' in how else default if error is None else default_error
    sx.check(item['level'] == want, 'the record has the level of the block')
    sx.check(item['time_of_work'] == 2.5 and item['auto'] is False, 'the record has the duration of the block')
    sx.check(item['time'] == datetime.datetime.fromtimestamp(start), 'the record has the time the block was entered')


def history(sx):
    """Blocks one after another and inside each other through the same object."""
    s = sink()
    stack, expected = [], []
    steps = 6 if sx.thorough else 5
    for i in range(steps):
        op = sx.choice('op%d' % i, ['open bare', 'open text', 'close', 'close with error'])
        if op.startswith('open'):
            manager = log if op == 'open bare' else log('text')
            block = manager.__enter__()
            block(mark=i)
            stack.append((manager, i))
        elif stack:
            manager, n = stack.pop()
            if op == 'close':
                got = manager.__exit__(None, None, None)
                expected.append((n, True))
            else:
                e = ValueError('x')
                got = manager.__exit__(ValueError, e, None)
                expected.append((n, False))
                sx.check(not got, 'the exception of the block goes on')
        sx.check([(x['mark'], x['success']) for x in s.items] == expected, 'each closed block has its own record, once',
                 ([(x['mark'], x['success']) for x in s.items], expected))
    while stack:
        manager, n = stack.pop()
        manager.__exit__(None, None, None)
        expected.append((n, True))
    sx.check([(x['mark'], x['success']) for x in s.items] == expected, 'each closed block has its own record, once')
    try:
        log.__exit__(None, None, None)
        sx.check(False, 'leaving a block that was not entered is an error')
    except IncorrectUseOfTheContextManagerError:
        pass


def nested(sx):
    s = sink()
    config.levels(alpha=3)
    outer, inner = sx.choice('outer', WAYS), sx.choice('inner', WAYS)
    error = sx.choice('error', ERRORS[:3])
    a, b, c = sx.int('a', -HI, HI), sx.int('b', -HI, HI), sx.int('c', -HI, HI)
    try:
        with open_block(outer, 'outer', 3) as first:
            first(mark=a)
            try:
                with open_block(inner, 'inner', 3) as second:
                    second(mark=b)
                    if error is not None:
                        raise error('x')
            except (ValueError, KeyError):
                pass
            first(more=c)
    except (ValueError, KeyError):
        sx.check(False, 'a caught exception does not come back')
    if sx.check(s.count() == 2, 'one record per block', s.count()):
        sx.check(s.items[0]['mark'] == b and s.items[1]['mark'] == a, 'each record has the fields of its own block')
        sx.check('more' not in s.items[0] and s.items[1]['more'] == c, 'each record has the fields of its own block')
        sx.check(s.items[0]['success'] == (error is None) and s.items[1]['success'] is True, 'each record tells about its own block')
        sx.check('exception_type' not in s.items[1], 'an exception caught inside the outer block is not its exception')


def tasks(sx):
    """Two tasks with nested blocks, every interleaving."""
    s = sink()
    fails = [sx.flag('fails0'), False]
    values = {k: sx.int(k, -HI, HI) for k in ('o0', 'i0', 'o1', 'i1')}
    shared = sx.flag('opened_before_the_tasks')

    def make(n):
        async def body():
            try:
                with log as outer:
                    await Suspend()
                    outer(who='o%d' % n, mark=values['o%d' % n])
                    with log as inner:
                        inner(who='i%d' % n, mark=values['i%d' % n])
                        await Suspend()
                        if fails[n]:
                            raise ValueError('x')
                    await Suspend()
            except ValueError:
                pass
        return body()

    def run():
        contexts = [contextvars.copy_context() for _ in range(2)]
        running = [contexts[n].run(make, n) for n in range(2)]
        alive = {0, 1}
        step = 0
        while alive:
            options = sorted(alive)
            n = options[0] if len(options) == 1 else sx.choice('turn%d' % step, options)
            step += 1
            try:
                contexts[n].run(running[n].send, None)
            except StopIteration:
                alive.discard(n)
    if shared:
        with log as whole:
            whole(who='w')
            run()
    else:
        run()
    got = [i.get('who') for i in s.items]
    want = ['o0', 'i0', 'o1', 'i1'] + (['w'] if shared else [])
    sx.check(sorted(str(x) for x in got) == sorted(want), 'one record per block in every task', got)
    for item in s.items:
        who = item.get('who')
        if who in values:
            sx.check(item['mark'] == values[who], 'each record has the fields of its own block')
            sx.check(item['success'] == (not fails[int(who[1])]), 'each record tells about its own block', who)


def roles(sx):
    """One call of log(...) gives one manual record, or one decorator, or one block - never two of them."""
    s = sink()
    value = sx.int('value', -HI, HI)
    role = sx.choice('role', ['manual', 'kept then dropped', 'decorator', 'block', 'decorator twice', 'block twice',
                              'block then decorator', 'decorator then block', 'wrong decorator', 'class'])
    obj = log('text', level=5) if 'decorator' in role or role == 'class' else log('text', level=5, mark=value)
    if role in ('manual', 'kept then dropped'):
        sx.check(s.count() == 0, 'the record is made when the object is dropped')
        del obj
        sx.check(s.count() == 1 and s.items[0]['mark'] == value, 'a dropped object gives one manual record', s.count())
        sx.mark('manual')
        return
    if role.startswith('decorator'):
        f = obj(lambda: 5)
        sx.check(s.count() == 0, 'decorating records nothing')
        f()
        sx.check(s.count() == 1, 'a call is recorded once')
        sx.mark('decorator')
        if role == 'decorator twice':
            try:
                obj(lambda: 6)
                sx.check(False, 'the object cannot be used again')
            except IncorrectUseOfTheDecoratorError:
                pass
        elif role == 'decorator then block':
            try:
                obj.__enter__()
                sx.check(False, 'the object cannot be used again')
            except IncorrectUseOfTheContextManagerError:
                pass
        del obj, f
        sx.check(s.count() == 1, 'a used object gives no manual record', s.count())
        return
    if role == 'class':
        @obj
        class Thing:
            def method(self):
                return 5
        sx.check(s.count() == 0, 'decorating records nothing')
        Thing().method()
        del obj
        sx.check(s.count() == 1, 'a call is recorded once')
        return
    if role == 'wrong decorator':
        try:
            obj(5)
            sx.check(False, 'only functions and classes can be decorated')
        except IncorrectUseOfTheDecoratorError:
            pass
        return
    with obj:
        pass
    sx.check(s.count() == 1, 'one block, one record')
    sx.mark('block')
    if role == 'block twice':
        try:
            with obj:
                pass
            sx.check(False, 'the object cannot be used again')
        except IncorrectUseOfTheContextManagerError:
            pass
    elif role == 'block then decorator':
        obj('ignored')
    del obj
    sx.check(s.count() == 1, 'a used object gives no manual record', s.count())


def fields(sx):
    """The last value given for a field wins; the exception of the block is always told."""
    s = sink()
    order, last = [], {}
    level = None
    with log('m0', a=sx.int('a0', -HI, HI)) as block:
        last['message'] = 'm0'
        last['a'] = sx.int('a00', -HI, HI)
        block(a=last['a'])
        for i in range(3):
            op = sx.choice('op%d' % i, ['a', 'b', 'message', 'level', 'message twice'] + (['two texts', 'no text', 'other message'] if i == 1 else ['success'] if i == 0 else []))
            v = sx.int('v%d' % i, 0, HI)
            if op in ('two texts', 'no text', 'other message'):
                try:
                    if op == 'two texts':
                        block('wrong', 'wrong')
                    elif op == 'no text':
                        block(v)
                    else:
                        block('wrong', message='other')
                    sx.check(False, 'wrong arguments are refused', op)
                except IncorrectUseLoggerError:
                    pass
            elif op == 'success':
                # the outcome of the block is not for editing
                block(success=False)
                last['success'] = True
            elif op == 'message twice':
                block('m', message='m')
                last['message'] = 'm'
            elif op == 'message':
                block('m%d' % (i + 1))
                last['message'] = 'm%d' % (i + 1)
            elif op == 'level':
                block(level=v)
                level = v
            else:
                block(**{op: v})
                last[op] = v
    if sx.check(s.count() == 1, 'one block, one record'):
        item = s.items[0]
        for k, v in last.items():
            sx.check(item[k] == v, 'the last value given for a field wins', k)
        if level is not None:
            sx.check(item['level'] == level, 'the last level given wins')
        if 'b' not in last:
            sx.check('b' not in item, 'no other fields')


def partial(sx):
    """A logger with a level kept in a variable and used many times: each use has its own fields."""
    s = sink()
    alpha = sx.int('alpha', 0, HI)
    config.levels(alpha=alpha)
    info = log.alpha
    want = []
    for i in range(3):
        how = sx.choice('how%d' % i, ['manual', 'block', 'function', 'bare block'])
        own = how != 'bare block' and sx.flag('own%d' % i)
        text = how != 'bare block' and sx.flag('text%d' % i)
        fields = {'own%d' % i: i} if own and how != 'function' else {}
        args = ('text %d' % i,) if text else ()
        if how == 'manual':
            info(*args, **fields)
        elif how == 'block':
            with info(*args, **fields):
                pass
        elif how == 'function':
            info(*args)(lambda: 5)()
        else:
            with info:
                pass
        want.append((args[0] if args else None, fields))
        if not sx.check(s.count() == i + 1, 'one use, one record', (how, s.count())):
            return
    for item, (text, fields) in zip(s.items, want):
        sx.check(item['level'] == alpha, 'each record has the level')
        sx.check(item.get('message') == text, 'each record has its own message', (item.get('message'), text))
        for i in range(3):
            sx.check(('own%d' % i in item) == ('own%d' % i in fields), 'each record has its own fields', i)
