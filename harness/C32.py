"""Where a file handler writes, what it leaves alone, which locks it takes."""
import io
import sys

from harness import vfs
from harness.common import log, config, HI, Callable
from polog import file_writer

CASES = ['target', 'together', 'flush', 'wording', 'letters', 'locks', 'objects', 'wrong', 'unopened']
BOUNDS = ('a new file or one with old content of any size, an object of a file, standard output; sequences of 3 records of any level; up to 2 handlers of 2 targets; '
          'a lock written as up to 3 words with any spaces, and as any text of up to 6 characters (thorough: 7) over an alphabet of 6; objects that have or lack each of 3 methods; wrong values of each argument; failures of opening')
OUTSIDE = 'other processes that write to the file; files removed by other programs; how long a lock is waited for'
ASSUMPTIONS = ['pool_size=0', 'files live in the in-memory file system of harness/vfs.py, which is put under the os module']
MARKS = {'target': ['recorded', 'left out'], 'wording': ['accepted', 'refused'], 'letters': ['accepted', 'refused'], 'objects': ['accepted', 'refused'], 'flush': ['seen', 'kept']}
LOG = '/vfs/dir/some.log'
TEXT = lambda record: record['message']


class Target:
    """An object of a file."""

    def __init__(self):
        self.pieces, self.shown, self.closed = [], [], False

    def write(self, text):
        if self.closed:
            raise ValueError('closed')
        self.pieces.append(text)

    def read(self):
        raise OSError('not for reading')

    def flush(self):
        self.shown = list(self.pieces)

    def close(self):
        self.closed = True

    def __len__(self):
        return len(self.pieces)


def make(sx, fs, kind, old=None, path=LOG, **kw):
    """A handler and a function that tells what its target has."""
    if kind == 'path':
        if old is not None:
            fs.put(path, old)
        else:
            fs.make('/vfs/dir')
        handler = file_writer(path, formatter=TEXT, **kw)
        return handler, lambda: list(fs.nodes[path].pieces)
    target = Target()
    if old is not None:
        target.pieces.append(old)
        target.shown.append(old)
    if kind == 'object':
        handler = file_writer(target, formatter=TEXT, **kw)
    else:
        before, sys.stdout = sys.stdout, target
        try:
            handler = file_writer(formatter=TEXT, **kw)
        finally:
            sys.stdout = before
    return handler, lambda: list(target.shown)


def target(sx):
    """The old content stays, records are added in their order, nothing else is touched."""
    fs = vfs.install()
    kind = sx.choice('kind', ['path', 'object', 'stdout'])
    old = vfs.Block(sx.int('size', 0, 10 ** 9)) if sx.flag('old') else None
    other = fs.put('/vfs/dir/other.log', 'foreign')
    again = kind == 'path' and sx.flag('made twice')
    handler, content = make(sx, fs, kind, old, lock_type=sx.choice('lock', ['thread', None, 'file', 'file+thread']))
    sx.check(content() == ([] if old is None else [old]), 'the making of a handler writes nothing and erases nothing')
    config.add_handlers(handler)
    level = sx.int('global level', 0, HI)
    config.set(level=level)
    want = [] if old is None else [old]
    for i in range(3):
        if again and i == 2:
            config.delete_handlers(handler)
            handler = file_writer(LOG, formatter=TEXT)
            config.add_handlers(handler)
        given = sx.int('level%d' % i, 0, HI)
        log('line %d\n' % i, level=given)
        if given >= level:
            sx.mark('recorded')
            want.append('line %d\n' % i)
            sx.check(content() == want, 'the target has its old content and the records, in their order', i)
        else:
            sx.mark('left out')
    sx.check(content() == want, 'an event below the level writes nothing')
    sx.check(other.pieces == ['foreign'], 'no other file is touched')


def together(sx):
    """Two handlers: each writes to its own target."""
    fs = vfs.install()
    kinds = [sx.choice('kind%d' % i, ['path', 'object', 'stdout']) for i in range(2)]
    made = [make(sx, fs, kind, path='/vfs/dir/%d.log' % i, only_errors=bool(i)) for i, kind in enumerate(kinds)]
    config.add_handlers(made[0][0], made[1][0])
    want = [[], []]
    for i in range(3):
        success = sx.flag('success%d' % i)
        log('line %d\n' % i, success=success)
        want[0].append('line %d\n' % i)
        if not success:
            want[1].append('line %d\n' % i)
    sx.check(made[0][1]() == want[0], 'the first target has every record', kinds)
    sx.check(made[1][1]() == want[1], 'the second target has the records of errors', kinds)


def flush(sx):
    """A record can be seen at once, unless this was turned off."""
    fs = vfs.install()
    kind = sx.choice('kind', ['path', 'object', 'stdout'])
    how = sx.choice('how', ['default', True, False])
    kw = {} if how == 'default' else {'forced_flush': how}
    handler, content = make(sx, fs, kind, **kw)
    config.add_handlers(handler)
    for i in range(2):
        log('line %d\n' % i)
        if how:
            sx.mark('seen')
            sx.check(content() == ['line %d\n' % j for j in range(i + 1)], 'every record is seen in the target at once', i)
        else:
            sx.mark('kept')
            if kind == 'path':
                sx.check(fs.content(LOG) == ['line %d\n' % j for j in range(i + 1)], 'every record is written', i)


WORDS = ['file', 'thread', '', 'File', 'other']


def meaning(text):
    """The locks of a text, None for a wrong one."""
    if text.strip() == '':
        return None
    words = [w.strip() for w in text.split('+') if w.strip() != '']
    return sorted(words) if all(w in ('file', 'thread') for w in words) and len(set(words)) == len(words) else None


def locks_of(sx, fs, lock, **kw):
    """The locks taken while a record is written: seen in the file system."""
    fs.make('/vfs/dir')
    before = len(fs.operations)
    try:
        handler = file_writer(LOG, formatter=TEXT, lock_type=lock, **kw)
    except ValueError:
        return None
    config.add_handlers(handler)
    held = []

    def hook(operation, name):
        if operation == 'write' and name == LOG:
            node = fs.nodes.get(LOG + '.lock')
            held.append(node is not None and node.holder is not None)
    fs.hook = hook
    log('line\n')
    fs.hook = None
    sx.check(fs.content(LOG) == ['line\n'], 'the record is written')
    sx.check(len(held) == 1, 'the record is written once', len(held))
    node = fs.nodes.get(LOG + '.lock')
    sx.check(node is None or node.holder is None, 'the lock of the file is released')
    return held[0], node is not None


def wording(sx):
    """Words in any order, with any spaces."""
    fs = vfs.install()
    n = sx.choice('words', [1, 2, 3])
    space = sx.choice('space', ['', ' ', '\t '])
    text = '+'.join(space + sx.choice('word%d' % i, WORDS) + space for i in range(n))
    want = meaning(text)
    result = locks_of(sx, fs, text)
    if want is None:
        sx.mark('refused')
        sx.check(result is None, 'a wrong lock is refused', text)
    elif want:
        sx.mark('accepted')
        sx.check(result == ('file' in want, 'file' in want), 'exactly the chosen locks are taken', (text, result))


def letters(sx):
    """Any text."""
    fs = vfs.install()
    text = sx.str('text', 6 + sx.thorough, 'file+ ', minlen=0)
    wrong = False
    words, word, ended = [], '', False
    for c in text:
        if c == '+':
            words.append(word)
            word, ended = '', False
        elif c == ' ':
            ended = word != ''
        else:
            if ended:
                wrong = True
            word = word + c
    words.append(word)
    words = [w for w in words if w != '']
    blank = all(c == ' ' for c in text)
    wrong = wrong or blank or any(w != 'file' for w in words) or len(words) > 1
    if not wrong and not words:
        return  # only signs of addition: nothing is said about it
    result = locks_of(sx, fs, text)
    sx.mark('refused' if wrong else 'accepted')
    sx.check((result is None) == wrong, 'a lock is accepted iff it is written right')


def locks(sx):
    """The locks are taken for every record, and a lock that fails is never left behind."""
    fs = vfs.install()
    fs.make('/vfs/dir')
    lock = sx.choice('lock', ['default', 'thread', None, 'file', 'thread+file'])
    alt = []
    kw = {} if lock == 'default' else {'lock_type': lock}
    handler = file_writer(LOG, formatter=TEXT, alt=lambda item: alt.append(item['message']), **kw)
    config.add_handlers(handler)
    file = lock is not None and 'file' in lock
    sx.check((LOG + '.lock' in fs.nodes) == file, 'there is a file of the lock iff the lock is chosen', lock)
    bad = sx.choice('fails', ['nothing', 'lock', 'write', 'flush'])
    if bad != 'nothing':
        fs.fail[bad] = OSError
    log('first\n')
    fs.fail.clear()
    failed = bad == 'write' or bad == 'flush' or (bad == 'lock' and file)
    sx.check(alt == (['first\n'] if failed else []), 'a record that could not be written goes to the alternative', (lock, bad, alt))
    log('second\n')
    want = ['second\n'] if failed and bad != 'flush' else ['first\n', 'second\n']
    sx.check(fs.nodes[LOG].pieces == want, 'the handler goes on after a failure', (lock, bad, fs.nodes[LOG].pieces))
    if file:
        sx.check(fs.nodes[LOG + '.lock'].holder is None, 'the lock is released')


def objects(sx):
    """An object is taken for a file iff it can read, write and close."""
    vfs.install()
    pieces = []
    have = {name: sx.choice(name, ['method', 'no', 'not callable']) for name in ('read', 'write', 'close')}
    content = {'flush': lambda self: None}
    for name, how in have.items():
        if how != 'no':
            content[name] = (lambda self, *a: pieces.append(a[0]) if a else '') if how == 'method' else 5
    thing = type('Thing', (), content)()
    good = all(how == 'method' for how in have.values())
    try:
        config.add_handlers(file_writer(thing, formatter=TEXT))
    except ValueError:
        sx.mark('refused')
        sx.check(not good, 'an object of a file is accepted')
        return
    sx.mark('accepted')
    sx.check(good, 'an object that is not a file is refused', have)
    log('line\n')
    sx.check(pieces == ['line\n'], 'the record is written to the object')


def wrong(sx):
    """Wrong arguments are refused, and the file stays as it was."""
    fs = vfs.install()
    old = vfs.Block(sx.int('size', 0, 10 ** 9))
    node = fs.put(LOG, old)
    name, value = sx.choice('argument', [
        ('file', None), ('file', 5), ('file', b'/vfs/dir/some.log'), ('file', ['a']), ('file', 0), ('file', False), ('file', ()), ('files', 2), ('forced_flush', 1), ('forced_flush', None), ('forced_flush', 'yes'),
        ('separator', None), ('separator', 5), ('separator', b'x'), ('formatter', 5), ('formatter', 'text'), ('formatter', lambda: 'x'), ('formatter', lambda a, b: 'x'), ('rotation', 5), ('rotation', b'1 kb >> /vfs/old'),
        ('rotation', 'text'), ('lock_type', 5), ('lock_type', True), ('lock_type', ['thread']), ('lock_type', ''), ('lock_type', b'file'), ('only_errors', 1), ('only_errors', None), ('filter', 5), ('filter', lambda: True), ('alt', 5),
        ('alt', lambda a, b: None)])
    files, kw = [LOG], {}
    if name == 'file':
        files = [value]
    elif name == 'files':
        files = [LOG, '/vfs/dir/second.log']
    else:
        kw[name] = value
    try:
        file_writer(*files, **kw)
        sx.check(False, 'a wrong argument is refused', (name, value))
    except ValueError:
        pass
    sx.check(fs.nodes.get(LOG) is node and node.pieces == [old], 'a refused handler leaves the file as it was', (name, value))
    sx.check('/vfs/dir/second.log' not in fs.nodes, 'a refused handler makes no other file')


def unopened(sx):
    """A file that cannot be opened is told about at once."""
    fs = vfs.install()
    how = sx.choice('how', ['fails', 'no directory', 'directory', 'lock fails'])
    path, kw = LOG, {}
    if how != 'no directory':
        fs.put(LOG, 'old\n')
    if how == 'fails':
        fs.fail['open'] = PermissionError
    elif how == 'directory':
        path = '/vfs/dir'
    elif how == 'lock fails':
        kw['lock_type'] = 'file'
        fs.make(LOG + '.lock')
    try:
        file_writer(path, formatter=TEXT, **kw)
        sx.check(False, 'a file that cannot be opened is an error at once', how)
    except OSError:
        pass
    fs.fail.clear()
    if how != 'no directory':
        sx.check(fs.nodes[LOG].pieces == ['old\n'], 'the file stays as it was', how)
        config.add_handlers(file_writer(LOG, formatter=TEXT))
        log('line\n')
        sx.check(fs.nodes[LOG].pieces == ['old\n', 'line\n'], 'the next handler works', how)
