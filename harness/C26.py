"""Files: concurrent writers give whole lines, and a rotation in between loses none."""
from symx import conc
conc.install()

from harness import vfs
from polog import file_writer, config
from polog.core.log_item import LogItem
from polog.handlers.file.locks.double_lock import DoubleLock

CASES = ['exclusion', 'processes', 'lines', 'rotation', 'handlers', 'failures', 'fragile']
YIELD_IN = ['polog.handlers.file', 'polog.handlers.abstract']
YIELD_NOT = ['active', 'types', 'thread_lock', 'file_lock', 'acquire', 'release']
BOUNDS = ('2 threads (3 in the case of exclusion) that write 1 or 2 records each to one file by one handler, or by two handlers that stand for two processes; locks "thread", "file" and "thread+file"; flush after every record or never; '
          'rotations before every record; any operation of the file system fails once for one of the threads; every schedule with at most 2 forced switches (3 in the thorough tier) at any statement of the handler '
          'that touches a changing attribute, at any operation of a lock or of the file system and in the middle of a write, any free choices of the next thread when one waits or ends')
OUTSIDE = ('two rotations in one microsecond by different handlers; a log file that cannot be opened again after a rotation; one handler with the lock "file" alone used by several threads (such a lock is only for processes)')
ASSUMPTIONS = ['the file system in memory of harness/vfs.py; flock() excludes opened files from each other', 'locks and threads are stand-ins with the documented meaning',
               'an unlocked write may be torn']
MARKS = {'exclusion': ['done'], 'processes': ['done'], 'lines': ['done'], 'rotation': ['done', 'archives'], 'handlers': ['done', 'archives'], 'failures': ['done', 'failed'], 'fragile': ['done', 'failed']}
LOG = '/vfs/work/file.log'


def files(sx):
    fs = vfs.install()
    fs.make('/vfs/work')
    fs.hook = lambda operation, name: conc.point(operation)
    fs.wait = lambda condition: conc._wait(condition, False, 'the lock of a file')
    fs.torn = True
    return fs


def record(text):
    item = LogItem()
    item.set_data({'message': text})
    return item


def text_of(name, long=False):
    return name * (1200 if long else 4)


def make(rotation=None, **kwargs):
    return file_writer(LOG, formatter=lambda item: item['message'] + '\n', rotation=rotation, **kwargs)


def everything(fs):
    """All the lines of all the files but those of locks."""
    lines = []
    for path in fs.files():
        if path.endswith('.lock'):
            continue
        content = ''.join(fs.content(path))
        if content and not content.endswith('\n'):
            lines.append('unfinished')
        lines += [line for line in content.split('\n') if line]
    return sorted(lines)


def archives(sx, fs):
    if [p for p in fs.files() if p != LOG and not p.endswith('.lock')]:
        sx.mark('archives')


def short(lines):
    return [x if len(x) < 20 else x[:6] + '...%d' % len(x) for x in lines]


def exclusion(sx):
    """One lock and several threads."""
    fs = files(sx)
    lock = DoubleLock(LOG, sx.choice('type', ['thread', 'thread+file']))
    number = sx.choice('threads', [2, 3])
    inside, worst = [0], [0]

    def body():
        with lock:
            inside[0] += 1
            worst[0] = max(worst[0], inside[0])
            conc.point('inside')
            worst[0] = max(worst[0], inside[0])
            inside[0] -= 1

    def one():
        body()

    def two():
        body()
        body()

    def three():
        body()

    conc.run(sx, [one, two, three][:number], preemptions=3 if sx.thorough else 2)
    sx.check(worst[0] == 1, 'threads that hold the lock exclude each other', worst[0])


def processes(sx):
    """Two locks of one file stand for two processes."""
    fs = files(sx)
    kinds = [sx.choice('type%d' % i, ['file', 'thread+file']) for i in range(2)]
    locks = [DoubleLock(LOG, kind) for kind in kinds]
    inside, worst = [0], [0]

    def body(lock):
        with lock:
            inside[0] += 1
            worst[0] = max(worst[0], inside[0])
            conc.point('inside')
            worst[0] = max(worst[0], inside[0])
            inside[0] -= 1

    def one():
        body(locks[0])
        body(locks[0])

    def two():
        body(locks[1])
        body(locks[1])

    def three():
        body(locks[1])

    more = [three] if kinds[1] == 'thread+file' and sx.flag('another thread') else []
    conc.run(sx, [one, two] + more, preemptions=3 if sx.thorough else 2)
    sx.check(worst[0] == 1, 'processes that hold the lock of a file exclude each other', worst[0])


def writing(sx, fs, handlers, long, preemptions, numbers=(1, 1), free=None, strict=True, after=None):
    made = []
    items = []
    for i, number in enumerate(numbers):
        items.append([record(text_of('abcdef'[i * 2 + k], long)) for k in range(number)])
        made += [x['message'] for x in items[-1]]

    def one():
        for item in items[0]:
            handlers[0](item)

    def two():
        for item in items[1]:
            handlers[-1](item)

    conc.run(sx, [one, two], preemptions=preemptions, free=free, after=after)
    if strict:
        got = everything(fs)
        sx.check(got == sorted(made), 'every record gives exactly one whole line', (short(got), short(sorted(made))))
    return made


def lines(sx):
    """Threads and no rotation."""
    fs = files(sx)
    lock = sx.choice('lock', ['thread', 'thread+file'])
    flush = sx.flag('flush')
    handler = make(lock_type=lock, forced_flush=flush)
    writing(sx, fs, [handler], False, 3 if sx.thorough else 2, (2, 1))


def rotation(sx):
    """Every record is longer than the limit."""
    fs = files(sx)
    lock = sx.choice('lock', ['thread', 'thread+file'] if sx.thorough else ['thread'])
    flush = sx.flag('flush')
    fs.make('/vfs/work/old')
    old = sx.flag('old content')
    if old:
        fs.put(LOG, text_of('z', True) + '\n')
    handler = make(lock_type=lock, forced_flush=flush, rotation='1 kilobyte >> /vfs/work/old')
    made = writing(sx, fs, [handler], True, 3 if sx.thorough and lock == 'thread' else 2, (2, 1), strict=False, free=None if sx.thorough else 2)
    got = everything(fs)
    want = sorted(made + [text_of('z', True)] * old)
    sx.check(got == want, 'every record gives exactly one whole line in the file or in an archive', (short(got), short(want)))
    archives(sx, fs)


def handlers(sx):
    """Two handlers of one file."""
    fs = files(sx)
    kind = sx.choice('lock', ['file', 'thread+file'])
    fs.make('/vfs/work/old')
    fs.put(LOG, text_of('z', True) + '\n')
    rules = sx.choice('rules', ['both', 'one'])
    rule = '1 kilobyte >> /vfs/work/old'
    two = [make(lock_type=kind, rotation=rule), make(lock_type=kind, rotation=rule if rules == 'both' else None)]
    made = writing(sx, fs, two, True, 3 if sx.thorough else 2, (1, 1) if not sx.thorough else (2, 1), strict=False, free=None if sx.thorough else 2)
    got = everything(fs)
    want = sorted(made + [text_of('z', True)])
    sx.check(got == want, 'every record gives exactly one whole line in the file or in an archive', (short(got), short(want)))
    archives(sx, fs)


def failing(sx, fs, operations):
    """One operation of the first thread fails once."""
    operation = sx.choice('operation', operations)
    left = [1]

    def hook(name, path):
        conc.point(name)
        s = conc.scheduler()
        me = s.me() if s is not None else None
        if name == operation and left[0] and me is not None and me.name == 'one':
            left[0] -= 1
            sx.mark('failed')
            raise OSError(5, 'failed by the harness', path)
    fs.hook = hook


def failures(sx):
    """A failure of one thread releases every lock and harms no line of the others."""
    fs = files(sx)
    lock = sx.choice('lock', ['thread', 'thread+file'])
    alt = []
    handler = make(lock_type=lock, alt=lambda item: alt.append(item['message']))
    failing(sx, fs, ['write', 'flush', 'lock', 'unlock'])
    last = record('last')
    made = writing(sx, fs, [handler], False, 3 if sx.thorough else 2, strict=False, after=lambda: handler(last))
    got = everything(fs)
    sx.check(got.count(made[1]) == 1, 'a failure in one thread does not harm the line of another', short(got))
    sx.check(got.count('last') == 1, 'the handler works after a failure', short(got))
    sx.check(set(got) <= set(made) | {'last'}, 'every line is whole', short(got))
    sx.check(len(got) == len(set(got)), 'no line comes twice', short(got))
    sx.check(made[0] in got or made[0] in alt, 'the record of the failed thread goes to the file or to the alternative', (short(got), alt))


def fragile(sx):
    """The same with a rotation that fails."""
    fs = files(sx)
    lock = sx.choice('lock', ['thread', 'thread+file'])
    alt = []
    fs.put(LOG, text_of('z', True) + '\n')
    there = sx.flag('folder is there')
    if there:
        fs.make('/vfs/work/old')
    handler = make(lock_type=lock, rotation='1 kilobyte >> /vfs/work/old', alt=lambda item: alt.append(item['message']))
    failing(sx, fs, ['rename', 'stat', 'flush', 'lock', 'unlock'] + ([] if there else ['mkdir']))
    last = record('last')
    made = writing(sx, fs, [handler], True, 2 if sx.thorough else 1, strict=False, free=None if sx.thorough else 1, after=lambda: handler(last))
    got = everything(fs)
    sx.check(got.count(made[1]) == 1, 'a failure in one thread does not harm the line of another', short(got))
    sx.check(got.count('last') == 1, 'the handler works after a failure', short(got))
    sx.check(got.count(text_of('z', True)) == 1, 'the old line is kept', short(got))
    sx.check(set(got) <= set(made) | {'last', text_of('z', True)}, 'every line is whole', short(got))
    sx.check(len(got) == len(set(got)), 'no line comes twice', short(got))
    sx.check(made[0] in got or made[0] in alt, 'the record of the failed thread goes to the file or to the alternative', (short(got), alt))
