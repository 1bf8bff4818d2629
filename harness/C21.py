"""Lines of the log file."""
import datetime
import json

from harness.common import log, config, HI, Unprintable, DumbError, Stubborn, Liar
from harness import vfs
from polog import file_writer
from polog.core.log_item import LogItem

CASES = ['where', 'optional', 'exception', 'duration', 'marks', 'variables', 'traceback', 'extra', 'hostile', 'calls', 'lines', 'formatter', 'characters']
BOUNDS = ('all subsets of the optional fields, texts of up to 2 characters (thorough: 3) of any printable ASCII, any integers as extra values, 12 durations, 1 to 2 variables and frames; 23 kinds of '
          'hostile values for every field; sequences of 3 records')
OUTSIDE = 'alignment inside of a part of the line; extra fields with the name "exception"; texts with line breaks'
ASSUMPTIONS = ['pool_size=0', 'the file is an object of the harness; records with any fields are made by LogItem.set_data']
MAX_PATHS = 60000


class File:
    def __init__(self):
        self.lines = []

    def write(self, text):
        self.lines.append(text)

    def read(self):
        return ''

    def flush(self):
        pass

    close = flush


class Lost:
    def __init__(self):
        self.items = []

    def __call__(self, item):
        self.items.append(item)


class State:
    fields = {}
    handler = None


def start(separator=None, **kw):
    f, lost = File(), Lost()
    if separator is not None:
        kw['separator'] = separator
    State.handler = file_writer(f, alt=lost, **kw)
    config.add_handlers(State.handler)
    State.fields = {}
    return f, lost


def put(**values):
    """Fields of the records made by emit()."""
    State.fields.update(values)


def emit(message=None, **fields):
    """A record with exactly these fields."""
    item = LogItem()
    data = {'level': 1, 'auto': False}
    if message is not None:
        data['message'] = message
    data.update(State.fields)
    data.update(fields)
    item.set_data(data)
    State.handler(item)


def line(sx, f, lost, separator='\n'):
    """The only line, by parts; None when there is not exactly one."""
    if not sx.check(len(f.lines) == 1 and not lost.items, 'a record gives one line', (len(f.lines), len(lost.items))):
        return None
    return f.lines[0]


def body(sx, f, lost, first, rest, separator='\n'):
    """Checks the line: the time, `first` aligned parts, then exactly `rest`."""
    text = line(sx, f, lost, separator)
    if text is None:
        return
    want = ' | '.join(rest) + separator
    head = '[2020-01-02 03:04:05] | ' + ' | '.join(first)
    sx.check(text == head + ' | ' + want, 'the line has every present field in order, with its value', (first, len(rest)))


def stamp():
    put(time=datetime.datetime(2020, 1, 2, 3, 4, 5))


HEAD = ['   1   ', 'UNKNOWN', 'MANUAL']


def where(sx):
    """Function, class, module and service in any combination."""
    f, lost = start()
    stamp()
    values = {}
    for name in ('function', 'class', 'module'):
        kind = sx.choice(name, ['absent', 'text', 'none'])
        if kind == 'text':
            values[name] = sx.str(name + ' text', 2, minlen=1)
        elif kind == 'none':
            values[name] = None
    put(**values)
    names = [values.get('module'), values.get('class')]
    service = sx.choice('service', ['none', 'set', 'changed', 'removed'])
    if service == 'set':
        config.set(service_name='some_service')
        names = ['some_service'] + names
    elif service != 'none':
        # The record was made when the service had another name.
        config.set(service_name='other_service' if service == 'changed' else None)
        put(service_name='some_service')
        names = ['some_service'] + names
    emit('text')
    place = '.'.join([i for i in names if i is not None])
    if values.get('function') is not None:
        place = 'where: ' + (place + '.' if place else '') + values['function'] + '()'
    else:
        place = 'where: ' + (place + '.' if place else '') + '?'
    body(sx, f, lost, HEAD, ['"text"', place])


def optional(sx):
    """All subsets of the optional parts, in the fixed order."""
    f, lost = start()
    stamp()
    values, parts = {}, ['"some text"', 'where: ?']
    if sx.flag('duration'):
        values['time_of_work'] = 0.5
        parts.append('time of work: 0.5 sec.')
    if sx.flag('input'):
        values['input_variables'] = json.dumps({'args': [{'value': 75, 'type': 'int'}]})
        parts.append('input variables: 75 (int)')
    if sx.flag('local'):
        values['local_variables'] = json.dumps({'kwargs': {'a': {'value': 'b', 'type': 'str'}}})
        parts.append('local variables: a = "b" (str)')
    if sx.flag('result'):
        values['result'] = json.dumps({'value': 'None', 'type': 'NoneType'})
        parts.append('result: None (NoneType)')
    if sx.flag('exception'):
        values['exception_type'] = 'ValueError'
        values['exception_message'] = 'bad'
        parts.append('exception: ValueError("bad")')
    if sx.flag('traceback'):
        values['traceback'] = json.dumps([])
        parts.append('no traceback')
    if sx.flag('extra'):
        values['extra'] = 'value'
        parts.append('extra: "value"')
    if sx.flag('nothing'):
        values['nothing'] = None
    put(**values)
    emit('some text')
    body(sx, f, lost, HEAD, parts)


def exception(sx):
    """Types and texts of exceptions."""
    f, lost = start()
    stamp()
    values, part = {}, None
    if sx.flag('type'):
        values['exception_type'] = t = sx.str('type text', 2, minlen=0)
        part = 'exception: ' + t + '()'
    if sx.flag('message'):
        values['exception_message'] = m = sx.str('message text', 2, minlen=0)
        if part is not None:
            part = 'exception: ' + t + '("' + m + '")'
        else:
            part = 'exception: "' + m + '"'
    put(**values)
    emit('text')
    body(sx, f, lost, HEAD, ['"text"', 'where: ?'] + ([part] if part is not None else []))


DURATIONS = [0, 0.0, 1, 100, 10.0, 0.1, 12.5, 1e-08, 1.5e-07, 0.00001192, 123456.00000001, 3600, 1e-12, 100000.1]


def duration(sx):
    """The time of work has eight digits after the point, without the last zeros."""
    f, lost = start()
    stamp()
    value = sx.choice('duration', DURATIONS)
    put(time_of_work=value)
    emit('text')
    text = line(sx, f, lost)
    if text is None:
        return
    parts = text.split(' | ')
    shown = parts[6] if len(parts) == 7 else parts[-1]
    sx.check(shown.startswith('time of work: ') and shown.rstrip('\n').endswith(' sec.'), 'the line has the duration', shown)
    number = shown.rstrip('\n')[len('time of work: '):-len(' sec.')]
    sx.check(abs(float(number) - value) < 0.6e-8, 'the duration is exact to eight digits', number)
    sx.check('.' not in number or number[-1] not in '0.', 'no last zeros', number)
    sx.check('e' not in number, 'the duration is a plain number', number)


def marks(sx):
    """Level, success and origin."""
    f, lost = start()
    level = sx.choice('level', [0, 1, 7, 40, 99999999])
    config.levels(alpha=7, beta=40, gamma=40)
    if sx.flag('long'):
        config.levels(a_very_long_name=7)
    success = sx.choice('success', ['absent', True, False])
    if success != 'absent':
        log('text', level=level, success=success)
    else:
        log('text', level=level)
    text = line(sx, f, lost)
    if text is None:
        return
    parts = [i.strip() for i in text.split(' | ')]
    names = {7: ['alpha', 'a_very_long_name'], 40: ['gamma', 'beta']}.get(level, [str(level)])
    sx.check(parts[1] in names, 'the line has the level', parts[1])
    sx.check(parts[2] == {'absent': 'UNKNOWN', True: 'SUCCESS', False: 'ERROR'}[success], 'the line tells about success', parts[2])
    sx.check(parts[3] == 'MANUAL' and parts[4] == '"text"', 'the line tells about the origin', parts[3])


def variables(sx):
    """Texts of variables."""
    f, lost = start()
    stamp()
    place = sx.choice('place', ['input_variables', 'local_variables'])

    def variable(name):
        kind = sx.choice(name, ['text', 'number', 'other', 'none'] if name == 'arg0' or sx.thorough else ['other', 'none'])
        if kind == 'text':
            s = sx.str(name + ' text', 2, 'ab1 ')
            return {'value': s, 'type': 'str'}, '"' + s + '" (str)'
        if kind == 'number':
            n = sx.int(name + ' number', -HI, HI)
            return {'value': n, 'type': 'int'}, '%s (int)' % n if not sx.symbolic else str(n) + ' (int)'
        if kind == 'other':
            return {'value': '[1, 2]', 'type': 'list'}, '[1, 2] (list)'
        return {'value': 'None', 'type': 'NoneType'}, 'None (NoneType)'
    data, texts = {}, []
    number = sx.choice('args', [0, 1, 2])
    if number:
        data['args'] = []
        for i in range(number):
            v, t = variable('arg%d' % i)
            data['args'].append(v)
            texts.append(t)
    if sx.flag('kwargs'):
        v, t = variable('kwarg')
        data['kwargs'] = {'name': v}
        texts.append('name = ' + t)
    put(**{place: json.dumps(data)})
    emit('text')
    if texts:
        label = 'input variables: ' if place == 'input_variables' else 'local variables: '
        body(sx, f, lost, HEAD, ['"text"', 'where: ?', label + ', '.join(texts)])
    else:
        line(sx, f, lost)


def traceback(sx):
    """Frames, also with paths and code of any form."""
    f, lost = start()
    stamp()
    frames, texts = [], []
    number = sx.choice('frames', [0, 1, 2])
    for i in range(number):
        path = sx.choice('path%d' % i, ['/dir with spaces/file.py', '/dir/a, line 5, in b/file.py'] if i and not sx.thorough else
                         ['/dir/file.py', '/dir with spaces/file.py', '<string>', '/dir/a, line 5, in b/file.py'])
        n = sx.choice('number%d' % i, [1] if i else [1, 75])
        name = sx.choice('name%d' % i, ['function', '<module>'])
        code = sx.choice('code%d' % i, [None, 'return a / b', 'x = 1  # in a, line 3', 'raise ValueError("lol")'])
        frames.append('  File "%s", line %d, in %s\n' % (path, n, name) + ('' if code is None else '    %s\n' % code))
        texts.append('%s ("%s", line %d, in %s)' % (' '.join((code or '').split()), path, n, name))
    put(traceback=json.dumps(frames))
    emit('text')
    part = 'traceback: ' + '; '.join(texts) if frames else 'no traceback'
    body(sx, f, lost, HEAD, ['"text"', 'where: ?', part])


def extra(sx):
    """Extra fields in any number and of any type."""
    f, lost = start()
    stamp()
    parts = []
    for name in ('one', 'two', 'three')[:3 if sx.thorough else 2]:
        kind = sx.choice(name, ['absent', 'text', 'number', 'none', 'list', 'false', 'zero', 'empty'])
        if kind == 'absent':
            continue
        value = {'none': None, 'list': [1, 'a'], 'false': False, 'zero': 0, 'empty': ''}.get(kind)
        if kind == 'text':
            value = sx.str(name + ' text', 2)
        elif kind == 'number':
            value = sx.int(name + ' number', -HI, HI)
        put(**{name: value})
        if kind in ('text', 'empty'):
            parts.append(name + ': "' + value + '"')
        elif kind == 'number':
            parts.append(name + ': ' + str(value))
        elif kind != 'none':
            parts.append(name + ': ' + str(value))
    message = sx.str('message', 3 if sx.thorough else 2)
    emit(message)
    body(sx, f, lost, HEAD, ['"' + message + '"', 'where: ?'] + parts)


class Odd(str):
    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __format__ = __str__


NAMES = ['time', 'level', 'success', 'auto', 'message', 'function', 'class', 'module', 'time_of_work', 'input_variables', 'local_variables', 'result', 'exception_type',
         'exception_message', 'traceback', 'own']


def hostile(sx):
    """No value of any field makes the line disappear or spoils the other fields."""
    f, lost = start()
    put(first='1')
    name = sx.choice('name', NAMES)
    value = sx.choice('value', [Unprintable(), Odd('x'), None, '', 0, -1, 5.5, [], {}, '{', '75', '[1]', '{"args": 5}', '["x"]', True, DumbError('x'), object, b'x', float('nan'), Stubborn(), Liar(), 10 ** 5000, '\ud800'])
    put(**{name: value})
    put(last='2')
    emit('text')
    emit('text')
    if sx.check(len(f.lines) == 2 and not lost.items, 'no value of a field makes the line disappear', (name, len(f.lines), len(lost.items))):
        for text in f.lines:
            sx.check('first: "1"' in text and 'last: "2"' in text, 'other fields are shown as usual', name)
            if name != 'message':
                sx.check('"text"' in text, 'other fields are shown as usual', name)
            sx.check(text.endswith('\n'), 'the line ends', name)


def calls(sx):
    """Calls of logged functions."""
    f, lost = start()

    def function(a, b):
        if fails:
            raise ValueError('bad')
        return a
    fails = sx.flag('fails')
    n = sx.choice('n', [-5, 0, 7, 10 ** 30])
    place = sx.choice('place', ['function', 'method'])
    if place == 'function':
        decorated = log(function)
    else:
        class Some:
            def method(self, a, b):
                return function(a, b)
        decorated = log(Some)().method
    try:
        decorated(n, b='x')
    except ValueError:
        pass
    text = line(sx, f, lost)
    if text is None:
        return
    sx.check((str(n) + ' (int)') in text, 'the line has the arguments')
    sx.check('b = "x" (str)' in text, 'the line has the arguments')
    sx.check((' | result: ' + str(n) + ' (int)') in text if not fails else 'result' not in text, 'the line has the result')
    sx.check(('exception: ValueError("bad")' in text) == fails, 'the line has the exception')
    sx.check(('SUCCESS' in text) != fails and ('ERROR' in text) == fails and 'AUTO' in text, 'the line tells about success')
    sx.check(('.function()' if place == 'function' else '.Some.method()') in text, 'the line tells where')


def lines(sx):
    """Each record gives its own line."""
    separator = sx.choice('separator', ['\n', '', '\r\n', '---'])
    f, lost = start(separator if separator != '\n' else None)
    stamp()
    want = []
    for i in range(3):
        extra = sx.flag('extra%d' % i)
        if extra:
            emit('text %d' % i, extra=i)
        else:
            emit('text %d' % i)
        want.append('[2020-01-02 03:04:05] |    1    | UNKNOWN | MANUAL | "text %d" | where: ?' % i + (' | extra: %d' % i if extra else '') + separator)
    sx.check(f.lines == want, 'every record gives its own line, in order', len(f.lines))


def formatter(sx):
    """An own formatter replaces all of this."""
    got = []

    def own(item):
        got.append(item)
        return text
    text = sx.str('text', 2)
    f, lost = start('-' if sx.flag('separator') else None, formatter=own)
    log('message')
    if line(sx, f, lost) is not None:
        sx.check(f.lines[0] == text, 'the line is what the formatter made')
        sx.check(len(got) == 1 and got[0]['message'] == 'message', 'the formatter gets the record')


CHARACTERS = ['\ud800', 'a\udcffb', '\u0416', '\U0001f600', '\x00', '\x85', '\ufffe', '\u202e']


def characters(sx):
    """Any characters reach a file on the disk."""
    fs = vfs.install()
    fs.make('/vfs/dir')
    lost = Lost()
    text = sx.choice('text', CHARACTERS)
    place = sx.choice('place', ['message', 'extra', 'argument', 'exception', 'own formatter'])
    rotated = sx.flag('rotated')
    own = (lambda item: item['message'] + '\n') if place == 'own formatter' else None
    config.add_handlers(file_writer('/vfs/dir/some.log', alt=lost, formatter=own, rotation='1 b >> /vfs/arch' if rotated else None))

    @log('text')
    def function(x):
        if place == 'exception':
            raise ValueError(x)
    for i in range(2):
        if place in ('message', 'own formatter'):
            log(text)
        elif place == 'extra':
            log('text', extra=text)
        else:
            try:
                function(text)
            except ValueError:
                pass
    written = [''.join(fs.content(p)) for p in fs.files() if p.startswith('/vfs/dir/some.log') or p.startswith('/vfs/arch/')]
    sx.check(not lost.items and ''.join(written).count('\n') == 2, 'no characters make the line disappear', (len(lost.items), written))
