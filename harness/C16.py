"""Manual records: right arguments give exactly their fields, wrong ones are dropped (silent mode) or refused (the other mode)."""
from harness.common import log, config, handle_log, sink, HI, Unprintable, Stubborn

CASES = ['basics', 'failures', 'places', 'aliases', 'unknown', 'count', 'modes', 'sequence']
BOUNDS = ('manual records with each field omitted, right (any level -10**9..10**9, texts up to 2 characters, any flag) or wrong in 2-3 ways, '
          'three fields at a time; both modes; both ways to make a manual record; unknown fields allowed or not')
OUTSIDE = 'wrong types of the positional message; the text of the errors'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'basics': ['right', 'wrong silent', 'wrong loud'], 'aliases': ['right', 'wrong silent', 'wrong loud']}


ANY = object()


class Klass:
    pass


def named():
    pass


class Expect:
    """What the record must have, built next to the arguments."""

    def __init__(self, sx):
        self.sx, self.args, self.kwargs, self.fields, self.wrong = sx, [], {}, {}, 0

    def put(self, key, value, field=None, result=None):
        self.kwargs[key] = value
        field = field or key
        if field not in self.fields:
            self.fields[field] = value if result is None else result
        else:
            self.wrong += 1

    def bad(self, key, value):
        self.kwargs[key] = value
        self.wrong += 1


KNOWN = ['message', 'level', 'success', 'exception_type', 'exception_message', 'function', 'module', 'class', 'local_variables', 'extra']


def run(sx, e, d, de, silent, via=None):
    s = sink()
    config.set(silent_internal_exceptions=silent, default_level=d, default_error_level=de)
    via = via or sx.choice('via', ['log', 'handle_log'])
    raised = None
    try:
        (log if via == 'log' else handle_log)(*e.args, **e.kwargs)
    except Exception as x:
        raised = x
    if e.wrong and not silent:
        sx.mark('wrong loud')
        sx.check(s.count() == 0, 'wrong arguments give no record in the loud mode', sorted(e.kwargs))
        if via == 'handle_log':
            sx.check(raised is not None, 'wrong arguments are refused in the loud mode', sorted(e.kwargs))
        return
    sx.mark('wrong silent' if e.wrong else 'right')
    sx.check(raised is None, 'right arguments, and any arguments in the silent mode, are accepted', repr(raised))
    want = dict(e.fields)
    exception = want.pop('exception', None)
    if exception is not None:
        want['success'] = False
        if isinstance(exception, str):
            want['exception_type'] = exception
        else:
            want['exception_type'] = type(exception).__name__
            want['exception_message'] = str(exception)
    if 'level' not in want:
        want['level'] = d if want.get('success', True) else de
    if not sx.check(s.count() == 1, 'one manual record', s.count()):
        return
    item = s.items[0]
    for name in KNOWN:
        if name in want:
            if sx.check(name in item, 'a right argument is in the record', name):
                sx.check(want[name] is ANY or item[name] == want[name], 'a field has the given value', name)
        else:
            sx.check(name not in item, 'a field that was not given, or given wrong, is absent', name)
    sx.check(item['auto'] == False, 'a manual record is marked as manual')  # noqa: E712


def defaults(sx):
    return sx.int('default_level', 0, HI), sx.int('default_error_level', 0, HI)


def put_level(sx, e):
    how = sx.choice('level_how', ['omitted', 'number', 'name', 'unknown', 'real', 'flag', 'None', 'stubborn'])
    if how == 'number':
        v = sx.int('level', -HI, HI)
        if v >= 0:
            e.put('level', v)
        else:
            e.bad('level', v)
    elif how == 'name':
        v = sx.int('named', 0, HI)
        config.levels(alpha=v)
        e.put('level', 'alpha', result=v)
    elif how != 'omitted':
        e.bad('level', {'unknown': 'nobody', 'real': 1.5, 'flag': True, 'None': None, 'stubborn': Stubborn()}[how])


def put_success(sx, e):
    how = sx.choice('success_how', ['omitted', 'flag', 'number', 'None', 'stubborn'])
    if how == 'flag':
        e.put('success', sx.flag('success'))
    elif how != 'omitted':
        e.bad('success', {'number': 1, 'None': None, 'stubborn': Stubborn()}[how])


def basics(sx):
    """Message, level and success."""
    d, de = defaults(sx)
    e = Expect(sx)
    how = sx.choice('message_how', ['positional', 'keyword', 'both', 'both same', 'both stubborn', 'stubborn', 'wrong', 'omitted'])
    if how in ('positional', 'both', 'both same', 'both stubborn'):
        e.args.append('text')
        e.fields['message'] = 'text'
    if how == 'keyword':
        e.put('message', sx.str('message', 2))
    elif how == 'both':
        e.bad('message', 'other')
    elif how == 'both same':
        e.kwargs['message'] = 'text' if sx.flag('one object') else ''.join(['te', 'xt'])
    elif how == 'wrong':
        e.bad('message', 5)
    elif how in ('stubborn', 'both stubborn'):
        e.bad('message', Stubborn())
    put_level(sx, e)
    put_success(sx, e)
    run(sx, e, d, de, sx.flag('silent'))


def failures(sx):
    """Exceptions given as objects, names or something else."""
    d, de = defaults(sx)
    e = Expect(sx)
    e.args.append('text')
    e.fields['message'] = 'text'
    key = sx.choice('key', ['exception', 'e'])
    how = sx.choice('exception_how', ['object', 'name', 'class', 'number', 'stop', 'stubborn'])
    if how == 'object':
        x = ValueError('bad')
        e.put(key, x, 'exception')
    elif how == 'name':
        e.put(key, 'SomeError', 'exception')
    else:
        e.bad(key, {'class': ValueError, 'number': 5, 'stop': KeyboardInterrupt(), 'stubborn': Stubborn()}[how])
    put_level(sx, e)
    put_success(sx, e)
    run(sx, e, d, de, sx.flag('silent'))


def places(sx):
    """Function, class, module and variables."""
    d, de = defaults(sx)
    e = Expect(sx)
    e.args.append('text')
    e.fields['message'] = 'text'
    how = sx.choice('module', ['omitted', 'text', 'wrong'])
    if how == 'text':
        e.put('module', sx.str('module_name', 2))
    elif how == 'wrong':
        e.bad('module', 5)
    how = sx.choice('function', ['omitted', 'text', 'function', 'stubborn', 'wrong'])
    if how == 'text':
        e.put('function', 'some')
    elif how == 'function':
        e.put('function', named, result='named')
        e.fields['module'] = named.__module__
    elif how == 'stubborn':
        e.put('function', Stubborn(), result=ANY)
        e.fields['module'] = Stubborn.__module__
    elif how == 'wrong':
        e.bad('function', 5)
    how = sx.choice('class', ['omitted', 'text', 'class', 'wrong'])
    key = sx.choice('class_key', ['class', 'class_'])
    if how == 'text':
        e.put(key, 'Some', 'class')
    elif how == 'class':
        e.put(key, Klass, 'class', 'Klass')
    elif how == 'wrong':
        e.bad(key, sx.choice('wrong class', [5, Stubborn()]))
    how = sx.choice('vars', ['omitted', 'text', 'wrong'])
    key = sx.choice('vars_key', ['vars', 'locals', 'local_variables'])
    if how == 'text':
        e.put(key, 'a = 5', 'local_variables')
    elif how == 'wrong':
        e.bad(key, {'a': 5})
    run(sx, e, d, de, sx.flag('silent'), 'handle_log')


def aliases(sx):
    """One field under two names at once."""
    d, de = defaults(sx)
    e = Expect(sx)
    pairs = [('vars', 'locals', 'local_variables'), ('vars', 'local_variables', 'local_variables'), ('locals', 'vars', 'local_variables'),
             ('e', 'exception', 'exception'), ('class_', 'class', 'class'), ('class', 'class_', 'class')]
    a, b, field = sx.choice('pair', pairs)
    first, second = sx.str('first', 1, minlen=1), sx.str('second', 1, minlen=1)
    how = sx.choice('how', ['both', 'first wrong', 'second wrong', 'both wrong'])
    if how in ('first wrong', 'both wrong'):
        e.bad(a, 5)
    else:
        e.kwargs[a] = first
        e.fields[field] = first
    if how in ('second wrong', 'both wrong'):
        e.bad(b, 5)
    else:
        e.kwargs[b] = second
        if field not in e.fields:
            e.fields[field] = second
        elif first != second:
            e.wrong += 1
    run(sx, e, d, de, sx.flag('silent'))


def unknown(sx):
    """Fields nobody knows: allowed by the setting."""
    d, de = defaults(sx)
    e = Expect(sx)
    allowed = sx.flag('allowed')
    via = sx.choice('via', ['log', 'handle_log'])
    config.set(unknown_fields_in_handle_logs=allowed)
    if sx.flag('message'):
        e.args.append('text')
        e.fields['message'] = 'text'
    value = sx.choice('value', ['number', 'text', 'None'])
    v = {'number': sx.int('number', -HI, HI), 'text': 'abc', 'None': None}[value]
    if not allowed and via == 'handle_log':
        e.bad('extra', v)
    elif v is None:
        e.kwargs['extra'] = None
    else:
        e.put('extra', v)
    put_level(sx, e)
    run(sx, e, d, de, sx.flag('silent'), via)


def count(sx):
    """Too many positional arguments."""
    d, de = defaults(sx)
    e = Expect(sx)
    n = sx.choice('n', [0, 1, 2, 3])
    e.args = ['text', 'second', 'third'][:n]
    if n:
        e.fields['message'] = 'text'
    if n > 1:
        e.wrong += 1
    put_level(sx, e)
    run(sx, e, d, de, sx.flag('silent'), 'handle_log')


def modes(sx):
    """The mode changes nothing for right arguments; several records in a row."""
    s = sink()
    level = sx.int('level', 0, HI)
    d = sx.int('default_level', 0, HI)
    config.set(default_level=d)
    for i in range(3):
        config.set(silent_internal_exceptions=sx.flag('silent%d' % i))
        log('text', level=level)
        try:
            handle_log('text', success='wrong')
        except ValueError:
            pass
    right = [i for i in s.items if i['level'] == level]
    sx.check(len(right) >= 3, 'right arguments give a record in both modes', len(right))


def sequence(sx):
    """Manual records one after another: each has its own fields, whatever came before."""
    d, de = defaults(sx)
    config.set(silent_internal_exceptions=True, default_level=d, default_error_level=de)
    s = sink()
    want = []
    for i in range(3):
        how = sx.choice('how%d' % i, ['text', 'level', 'exception', 'failed', 'wrong level', 'wrong name', 'extra', 'function'])
        via = log if how in ('extra',) else handle_log
        level = sx.int('level%d' % i, 0, HI)
        text = 'text %d' % i
        fields = {'text': {}, 'level': {'level': level}, 'exception': {'exception': KeyError('key %d' % i)}, 'failed': {'success': False}, 'wrong level': {'level': 'nobody'},
                  'wrong name': {'function': 5}, 'extra': {'extra': i}, 'function': {'function': named}}[how]
        via(text, **fields)
        w = {'message': text, 'level': level if how == 'level' else de if how in ('exception', 'failed') else d}
        if how == 'exception':
            w.update(success=False, exception_type='KeyError', exception_message=repr('key %d' % i), local_variables=ANY)
        elif how == 'failed':
            w['success'] = False
        elif how == 'extra':
            w['extra'] = i
        elif how == 'function':
            w.update(function='named', module=named.__module__)
        want.append(w)
    if not sx.check(s.count() == 3, 'one manual record per call', s.count()):
        return
    for item, w in zip(s.items, want):
        for name in KNOWN:
            if name in w:
                if w[name] is not ANY:
                    sx.check(name in item and item[name] == w[name], 'a field has the given value', name)
            else:
                sx.check(name not in item, 'a field that was not given is absent', name)
    sx.check(s.items[0]['time'] <= s.items[1]['time'] <= s.items[2]['time'], 'records have the times they were made at')
