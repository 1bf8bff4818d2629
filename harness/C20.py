"""Rotation rules: what is accepted, and exactly when the file is rotated."""
from harness import vfs
from harness.common import log, config, HI
from polog import file_writer

CASES = ['limit', 'units', 'several', 'destination', 'spelling', 'text', 'nofile', 'sequence']
BOUNDS = ('numbers of up to 5 digits (any digits, signs, zeros), all 18 units, files of any size up to 10**21 bytes, 1 or 2 rules with every separator, '
          'with and without destination; any text of up to 4 characters (thorough: 5) over an alphabet of 10; sequences of 3 records')
OUTSIDE = 'numbers written with non-ASCII digits or underscores; a destination of spaces only; file systems without rename'
ASSUMPTIONS = ['pool_size=0', 'files live in the in-memory file system of harness/vfs.py, which is put under the os module']
MARKS = {'limit': ['rotated', 'kept'], 'several': ['rotated', 'kept'], 'text': ['accepted', 'refused']}
UNITS = {}
for _i, (_short, _long) in enumerate([('b', 'byte'), ('kb', 'kilobyte'), ('mb', 'megabyte'), ('gb', 'gigabyte'), ('tb', 'terabyte'), ('pb', 'petabyte')]):
    for _name in (_short, _long, _long + 's'):
        UNITS[_name] = 1024 ** _i
LOG = '/vfs/dir/some.log'


def handler(rotation, fs, size=None):
    old = vfs.Block(size) if size is not None else None
    if old is not None:
        fs.put(LOG, old)
    else:
        fs.make('/vfs/dir')
    h = file_writer(LOG, rotation=rotation, formatter=lambda record: 'line\n')
    config.add_handlers(h)
    return old


def verdict(sx, fs, old, limit, size, to, label=''):
    """After one record."""
    archives = [p for p in fs.files() if p != LOG]
    if size >= limit:
        sx.mark('rotated')
        if sx.check(len(archives) == 1 and archives[0].startswith(to + '/'), 'a file that has reached the limit is rotated to the destination' + label, archives):
            sx.check(fs.content(archives[0]) == [old], 'the archive has the whole old content' + label)
            sx.check(fs.content(LOG) == ['line\n'], 'the record goes to the cleared file' + label)
    else:
        sx.mark('kept')
        sx.check(not archives, 'a file below the limit is not rotated' + label, archives)
        sx.check(fs.content(LOG) == [old, 'line\n'], 'the record is added to the file' + label)


def number(sx, name='n', digits=3):
    text = sx.str(name, digits, '0123456789', minlen=1)
    value = 0
    for c in text:
        value = value * 10 + (ord(c) - 48)
    return text, value


def make(sx, rule, fs, size=None):
    try:
        return handler(rule, fs, size), True
    except ValueError:
        return None, False


def limit(sx):
    """Any number and any size; the boundary is exact."""
    fs = vfs.install()
    text, value = number(sx, digits=5)
    unit = sx.choice('unit', ['b', 'kilobyte', 'pb'])
    size = sx.int('size', 0, 10 ** 21)
    old, ok = make(sx, text + ' ' + unit + ' >> /vfs/arch', fs, size)
    sx.check(ok == (value > 0), 'a rule is accepted iff its number is positive')
    if ok:
        log('text')
        verdict(sx, fs, old, value * UNITS[unit], size, '/vfs/arch')


def units(sx):
    """All the units."""
    fs = vfs.install()
    unit = sx.choice('unit', sorted(UNITS))
    n = sx.choice('number', [1, 2, 100, 2 ** 53 + 1])
    size = sx.int('size', 0, 10 ** 40)
    old, ok = make(sx, '%d %s >> /vfs/arch' % (n, unit), fs, size)
    if sx.check(ok, 'every unit is known', unit):
        log('text')
        verdict(sx, fs, old, n * UNITS[unit], size, '/vfs/arch')


def several(sx):
    """Two rules: the first that fires."""
    fs = vfs.install()
    one, n1 = number(sx, 'n1', 2)
    two, n2 = number(sx, 'n2', 2)
    u1, u2 = sx.choice('u1', ['b', 'kb']), sx.choice('u2', ['bytes', 'megabyte'])
    separator = sx.choice('separator', [',', ';', ' , ', ', ;', ';;'])
    size = sx.int('size', 0, 10 ** 9)
    old, ok = make(sx, one + ' ' + u1 + separator + two + ' ' + u2 + '>>/vfs/arch', fs, size)
    right = n1 > 0 and n2 > 0
    sx.check(ok == right, 'rules are accepted iff all of them are right')
    if ok:
        log('text')
        a, b = n1 * UNITS[u1], n2 * UNITS[u2]
        verdict(sx, fs, old, a if a <= b else b, size, '/vfs/arch')


def destination(sx):
    """Where the file goes."""
    fs = vfs.install()
    how = sx.choice('how', ['plain', 'no spaces', 'spaces', 'deep', 'existing', 'two arrows', 'empty rule', 'default', 'nothing after the arrow', 'relative', 'slash', 'dot', 'dotted', 'inner spaces'])
    size = sx.int('size', 0, 10 ** 6)
    rule = {'plain': '1 kb >> /vfs/arch', 'no spaces': '1 kb>>/vfs/arch', 'spaces': ' 1  kb  >>   /vfs/arch  ', 'deep': '1 kb >> /vfs/a/b/c',
            'existing': '1 kb >> /vfs/dir', 'two arrows': '1 kb >> /vfs/arch >> /vfs/other', 'empty rule': ' >> /vfs/arch',
            'default': '1 kb', 'nothing after the arrow': '1 kb >>', 'relative': '1 kb >> arch', 'slash': '1 kb >> /vfs/arch/', 'dot': '1 kb >> .', 'dotted': '1 kb >> ./arch',
            'inner spaces': '1 kb >> /vfs/some dir, x; y'}[how]
    old, ok = make(sx, rule, fs, size)
    sx.check(ok == (how != 'two arrows'), 'one arrow at most', how)
    if ok:
        log('text')
        to = {'deep': '/vfs/a/b/c', 'existing': '/vfs/dir', 'default': '/vfs/cwd/logs', 'nothing after the arrow': '/vfs/cwd/logs',
              'relative': '/vfs/cwd/arch', 'dot': '/vfs/cwd', 'dotted': '/vfs/cwd/arch', 'inner spaces': '/vfs/some dir, x; y'}.get(how, '/vfs/arch')
        verdict(sx, fs, old, 10 ** 12 if how == 'empty rule' else 1024, size, to)


def spelling(sx):
    """Rules that differ from right ones in their form."""
    fs = vfs.install()
    kind = sx.choice('kind', ['swapped', 'glued', 'no unit', 'no number', 'three', 'unknown unit', 'upper', 'fraction', 'words', 'twice', 'sbytes', 'kbs', 'spaces', 'tab', 'plus'])
    text, value = number(sx, digits=2)
    rule = {'swapped': 'kb ' + text, 'glued': text + 'kb', 'no unit': text, 'no number': 'kb', 'three': text + ' kb kb', 'unknown unit': text + ' xb',
            'upper': text + ' KB', 'fraction': text + '.5 kb', 'words': 'one kb', 'twice': text + ' ' + text + ' kb', 'sbytes': text + ' bytess', 'kbs': text + ' kbs',
            'spaces': '   ' + text + '    kb   ', 'tab': text + '\tkb', 'plus': '+' + text + ' kb'}[kind]
    size = sx.int('size', 0, 10 ** 6)
    old, ok = make(sx, rule + ' >> /vfs/arch', fs, size)
    right = kind in ('spaces', 'tab', 'plus') and value > 0
    sx.check(ok == right, 'a rule is accepted iff it is a positive number and a unit', kind)
    if ok:
        log('text')
        verdict(sx, fs, old, value * 1024, size, '/vfs/arch')


def reads(text):
    """The meaning of a text without arrows: (is it right, the limits)."""
    limits = []
    for part in text.replace(';', ',').split(','):
        words = part.split()
        if not words:
            continue
        if len(words) != 2 or words[1] not in UNITS:
            return False, []
        digits = words[0][1:] if words[0][0] in '+-' else words[0]
        if not digits or not all(c in '0123456789' for c in digits) or words[0][0] == '-' or int(digits) <= 0:
            return False, []
        limits.append(int(digits) * UNITS[words[1]])
    return True, limits


def text(sx):
    """Any short text."""
    fs = vfs.install()
    rule = sx.str('rule', 5 if sx.thorough else 4, '01 bk;-x')
    size = sx.int('size', 0, 10 ** 6)
    right, limits = reads(rule)
    old, ok = make(sx, rule, fs, size)
    sx.check(ok == right, 'a rule is accepted iff it is a positive number and a unit')
    sx.mark('accepted' if ok else 'refused')
    if ok and right and not limits:
        log('text')
        sx.check(fs.content(LOG) == [old, 'line\n'] and fs.files() == [LOG], 'without rules nothing is rotated')


def nofile(sx):
    """Rotation without a file has no sense."""
    vfs.install()
    f = sx.choice('file', ['console', 'object'])

    class Object:
        def read(self):
            pass
        write = close = flush = read
    args = [] if f == 'console' else [Object()]
    rule = sx.choice('rule', ['1 kb', '1 kb >> logs', '>> logs', None])
    try:
        file_writer(*args, rotation=rule)
        ok = True
    except ValueError:
        ok = False
    sx.check(ok == (rule is None), 'rotation without a file is refused')
    wrong = sx.choice('wrong', [75, [], True, b'1 kb'])
    try:
        file_writer(LOG, rotation=wrong)
        sx.check(False, 'a rule that is not a text is refused')
    except (ValueError, FileNotFoundError):
        pass


def sequence(sx):
    """The size is looked at before every record."""
    fs = vfs.install()
    n = sx.choice('number', [1, 10, 15, 20])
    block = vfs.Block(sx.int('size', 0, 40))
    fs.put(LOG, block)

    def formatter(record):
        return record['message']
    h = file_writer(LOG, rotation='%d b >> /vfs/arch' % n, formatter=formatter)
    config.add_handlers(h)
    archives, current, size = [], [block], block.size
    for i in range(3):
        line = '%d234567\n' % i
        log(line)
        if size >= n:
            archives.append(current)
            current, size = [], 0
        current = current + [line]
        size = size + len(line)
    sx.check(fs.content(LOG) == current, 'the file has exactly what came since the last rotation')
    found = [fs.content(p) for p in fs.files() if p != LOG]
    sx.check(len(found) == len(archives) and all(a in found for a in archives), 'the archives have exactly what was rotated', (len(found), len(archives)))
