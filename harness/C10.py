"""message() edits exactly the record of the logged function it is called from."""
import contextvars

from harness.common import log, config, sink, message, run_coroutine, Suspend, HI, field

CASES = ['edit', 'calls', 'history', 'tasks', 'children', 'levels', 'outside', 'bad']
BOUNDS = ('any field values; calls that return, raise or are suppressed; chains of 3 logged calls with an edit before or after the '
          'inner call on each level; histories of 3 calls; 2 tasks in every interleaving; functions and coroutines')
OUTSIDE = 'two edits in one call (the second replaces the first one as a whole); edits inside unlogged functions; threads'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'edit': ['edited', 'failed'], 'calls': ['before', 'after'], 'levels': ['not recorded', 'recorded']}

HOW = ['message', 'log.message']


def do(how, *args, **kwargs):
    (message if how == 'message' else log.message)(*args, **kwargs)


def edit_fields(sx, what, v, how):
    """One edit -> the fields the record must have."""
    if what == 'text':
        do(how, 'new')
        return {'message': 'new'}
    if what == 'level':
        do(how, level=v)
        return {'level': v}
    if what == 'named':
        do(how, 'new', level='alpha', success=True)
        return {'message': 'new', 'level': 7, 'success': True}
    if what == 'exception':
        do(how, e=KeyError('k'))
        return {'exception_type': 'KeyError', 'exception_message': "'k'"}
    if what == 'class':
        do(how, class_='Other', module='other', locals='x = 1')
        return {'class': 'Other', 'module': 'other', 'local_variables': 'x = 1'}
    if what == 'field':
        do(how, mine=v)
        return {'mine': v}
    return {}


WHAT = ['text', 'level', 'named', 'exception', 'class', 'field', 'nothing']


def edit(sx):
    s = sink()
    config.levels(alpha=7)
    config.add_fields(mine=field(lambda item: 'automatic'))
    what = sx.choice('what', WHAT)
    v = sx.int('v', 0, HI)
    how = sx.choice('how', HOW)
    fails = sx.choice('fails', ['no', 'yes', 'suppressed'])
    want = {}

    def body():
        want.update(edit_fields(sx, what, v, how))
        if fails != 'no':
            raise ValueError('bad')
        return 5

    async def coroutine():
        await Suspend()
        want.update(edit_fields(sx, what, v, how))
        await Suspend()
        if fails != 'no':
            raise ValueError('bad')
        return 5
    is_async = sx.flag('async')
    decorator = log('old', level=3, errors_level=3)
    if fails == 'suppressed':
        decorator = decorator.suppress(ValueError)
    f = decorator(coroutine if is_async else body)
    try:
        got = run_coroutine(f()) if is_async else f()
        sx.check(fails != 'yes' and got == (5 if fails == 'no' else None), 'an edit does not change the result')
    except ValueError:
        sx.check(fails == 'yes', 'an edit does not change the exception')
    if not sx.check(s.count() == 1, 'one call, one record', s.count()):
        return
    sx.mark('failed' if fails != 'no' else 'edited')
    item = s.items[0]
    base = {'message': 'old', 'level': 3, 'success': fails == 'no', 'mine': 'automatic', 'function': 'coroutine' if is_async else 'body'}
    if fails != 'no':
        base.update({'exception_type': 'ValueError', 'exception_message': 'bad'})
    base.update(want)
    for k, x in base.items():
        sx.check(k in item and item[k] == x, 'the record has the edited fields and keeps the others', (k, what))


def calls(sx):
    """A chain of logged calls; every level may edit before and after the inner call."""
    s = sink()
    config.set(deduplicate_errors=False)
    depth = 3
    plan = [sx.choice('plan%d' % i, ['no', 'before', 'after']) for i in range(depth)]
    fails_at = sx.choice('fails_at', [None, 1, 2])
    catch = sx.flag('caught')
    values = [sx.int('v%d' % i, 0, HI) for i in range(depth)]
    gated = sx.choice('gated', [None, 1])
    config.set(level=2)

    def make(i):
        def body():
            if plan[i] == 'before':
                do(HOW[i % 2], 'edited %d' % i, mine=values[i])
                sx.mark('before')
            if i + 1 < depth:
                try:
                    functions[i + 1]()
                except ValueError:
                    if not catch:
                        raise
            if plan[i] == 'after':
                do(HOW[i % 2], 'edited %d' % i, mine=values[i])
                sx.mark('after')
            if fails_at == i:
                raise ValueError('x')
            return i
        lv = 1 if gated == i else 5
        return log('plain %d' % i, level=lv, errors_level=lv, extra_fields={'who': field(lambda item: i), 'mine': field(lambda item: -1)})(body)
    functions = [make(i) for i in range(depth)]
    try:
        functions[0]()
    except ValueError:
        pass
    edits = {}
    for i in range(depth):
        reached = plan[i] == 'before' or not (fails_at is not None and fails_at > i and not catch)
        edits[i] = plan[i] != 'no' and reached
    got = {}
    for item in s.items:
        sx.check(item['who'] not in got, 'one record per call')
        got[item['who']] = item
    for i in range(depth):
        if gated == i:
            sx.check(i not in got, 'a call below the level is not recorded')
            continue
        if sx.check(i in got, 'one record per call', i):
            if edits[i]:
                sx.check(got[i]['message'] == 'edited %d' % i and got[i]['mine'] == values[i], 'an edit reaches the record of its own call', i)
            else:
                sx.check(got[i]['message'] == 'plain %d' % i and got[i]['mine'] == -1, 'a record is not changed by edits of other calls',
                         (i, got[i]['message']))


def history(sx):
    """Calls one after another: an edit never reaches the next one."""
    s = sink()
    config.set(level=2)
    for i in range(3):
        how = sx.choice('call%d' % i, ['edits', 'plain', 'edits and fails', 'edits, not recorded', 'edits, interrupted',
                                       'edits, refused'])
        v = sx.int('v%d' % i, 0, HI)

        def body():
            if how == 'edits, refused':
                config.set(silent_internal_exceptions=False)
                try:
                    message('new', 'extra')
                except ValueError:
                    pass
                finally:
                    config.set(silent_internal_exceptions=True)
            elif how != 'plain':
                message('edited', vars=str(i))
            if how == 'edits and fails':
                raise ValueError('x')
            if how == 'edits, interrupted':
                raise KeyboardInterrupt('x')
        lv = 1 if how == 'edits, not recorded' else 5
        f = log('plain', level=lv, errors_level=lv)(body)
        s.items.clear()
        try:
            f()
        except BaseException:
            pass
        if how in ('edits, not recorded', 'edits, interrupted'):
            sx.check(s.count() == 0, 'no record')
            continue
        if not sx.check(s.count() == 1, 'one call, one record', (how, s.count())):
            return
        item = s.items[0]
        if how in ('plain', 'edits, refused'):
            sx.check(item['message'] == 'plain' and 'local_variables' not in item, 'an edit does not reach another call', item['message'])
        else:
            sx.check(item['message'] == 'edited' and item['local_variables'] == str(i), 'an edit reaches the record of its own call')


def tasks(sx):
    s = sink()
    edits = [sx.choice('edit%d' % i, ['no', 'first', 'second']) for i in range(2)]
    values = [sx.int('v%d' % i, 0, HI) for i in range(2)]

    def make(n):
        @log('plain %d' % n, extra_fields={'who': field(lambda item: n)})
        async def body():
            if edits[n] == 'first':
                message('edited %d' % n, level=values[n])
            await Suspend()
            if edits[n] == 'second':
                message('edited %d' % n, level=values[n])
            await Suspend()
            return n
        return body()
    contexts = [contextvars.copy_context() for _ in range(2)]
    running = [contexts[n].run(make, n) for n in range(2)]
    alive, step = {0, 1}, 0
    while alive:
        options = sorted(alive)
        n = options[0] if len(options) == 1 else sx.choice('turn%d' % step, options)
        step += 1
        try:
            contexts[n].run(running[n].send, None)
        except StopIteration:
            alive.discard(n)
    if sx.check(s.count() == 2, 'one record per task', s.count()):
        for item in s.items:
            n = item['who']
            if edits[n] == 'no':
                sx.check(item['message'] == 'plain %d' % n, 'a record is not changed by edits of other tasks')
            else:
                sx.check(item['message'] == 'edited %d' % n and item['level'] == values[n], 'an edit reaches the record of its own task')


def children(sx):
    """A task started inside of a logged call has its own edits."""
    s = sink()
    before, after = sx.flag('before'), sx.flag('after')
    v, w = sx.int('v', 0, HI), sx.int('w', 0, HI)
    logged, edits, fails = sx.flag('logged_child'), sx.flag('child_edits'), sx.flag('fails')
    order = sx.choice('order', ['at once', 'later'])

    def child():
        if edits:
            message('child edited', level=w)
    if logged:
        child = log('child', level=5)(child)

    @log('parent', level=6, errors_level=7)
    def parent():
        if before:
            message('edited', level=v)
        own = contextvars.copy_context()
        if order == 'at once':
            own.run(child)
        if after:
            message('edited', level=v)
        if order == 'later':
            own.run(child)
        if fails:
            raise ValueError('bad')
    try:
        parent()
    except ValueError:
        pass
    if sx.check(s.count() == 1 + logged, 'one record per call', s.count()):
        item = s.items[-1]
        if before or after:
            sx.check(item['message'] == 'edited' and item['level'] == v, 'an edit reaches the record of its own call', item['message'])
        else:
            sx.check(item['message'] == 'parent' and item['level'] == (7 if fails else 6), 'a record is not changed by edits of other tasks', item['message'])
        if logged:
            item = s.items[0]
            if edits:
                sx.check(item['message'] == 'child edited' and item['level'] == w, 'an edit reaches the record of its own task')
            else:
                sx.check(item['message'] == 'child' and item['level'] == 5, 'a record is not changed by edits of the caller')


def levels(sx):
    """The edited level is what the record carries; whether it is made is decided by the decorator."""
    s = sink()
    g, lv, new = sx.int('global', 0, HI), sx.int('level', 0, HI), sx.int('new', 0, HI)
    config.set(level=g)
    log('text', level=lv)(lambda: message('m', level=new))()
    if lv >= g:
        sx.mark('recorded')
        if sx.check(s.count() == 1, 'an event at or above the global level is recorded'):
            sx.check(s.items[0]['level'] == new and s.items[0]['message'] == 'm', 'the record has the edited fields')
    else:
        sx.mark('not recorded')
        sx.check(s.count() == 0, 'an event below the global level is not recorded')


def outside(sx):
    """message() where there is nothing to edit changes nothing."""
    s = sink()
    message('lost', level=9)
    sx.check(s.count() == 0, 'message() alone records nothing')
    how = sx.choice('how', ['function', 'manual', 'block', 'coroutine'])
    if how == 'function':
        log('text')(lambda: 5)()
    elif how == 'manual':
        log('text')
    elif how == 'block':
        with log('text'):
            message('lost')
    else:
        async def co():
            await Suspend()
        run_coroutine(log('text')(co)())
    if sx.check(s.count() == 1, 'one record'):
        sx.check(s.items[0]['message'] == 'text' and s.items[0]['level'] != 9, 'an edit made outside does not reach a record',
                 s.items[0]['message'])


def bad(sx):
    """A wrong edit: an error in the debugging mode, ignored field by field in the silent one."""
    s = sink()
    silent = sx.flag('silent')
    config.set(silent_internal_exceptions=silent, unknown_fields_in_handle_logs=False)
    what, kind = sx.choice('what', [(dict(level=1.5), ValueError), (dict(function='f'), KeyError), (dict(unknown=1), KeyError),
                                    (dict(success=1), ValueError), (dict(module=5), ValueError), (dict(level='nope'), KeyError)])
    raised = []

    def body():
        try:
            message('new', **what)
        except Exception as e:
            raised.append(type(e))
        return 5
    log('text', level=4)(body)()
    if sx.check(s.count() == 1, 'one record'):
        item = s.items[0]
        if silent:
            sx.check(not raised, 'a wrong edit does not raise in the silent mode', raised)
            sx.check(item['message'] == 'new', 'the right part of an edit is used')
        else:
            sx.check(raised == [kind], 'a wrong edit raises in the debugging mode', raised)
            sx.check(item['message'] == 'text', 'a refused edit changes nothing')
        sx.check(item['level'] == 4 and item['function'] == 'body' and item['success'] is True and 'unknown' not in item,
                 'a wrong value does not get to the record')
