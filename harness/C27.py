"""A rotation keeps every byte and overwrites nothing."""
import os
import datetime as _datetime

_real = _datetime.datetime


class _Kind(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real)


class Clock(_real, metaclass=_Kind):
    """datetime.datetime with a clock that is a parameter."""
    moment = None

    @classmethod
    def now(cls, tz=None):
        return cls.moment or _real.now(tz)


_datetime.datetime = Clock

from harness import vfs
from harness.common import log, config, HI
from polog import file_writer

CASES = ['history', 'present', 'two_handlers', 'faults', 'other_device', 'many']
BOUNDS = ('histories of 4 records (thorough: 5) with 1 restart, old content of any size, limits of 4 kinds, 2 clock values in any order (also equal and going back); up to 12 rotations '
          'in one moment; names of archives already taken; failures of each file operation; a destination on another device; two handlers of one file')
OUTSIDE = 'crashes inside of one system call; other programs that write to the archives; two rotations in one microsecond by different threads'
ASSUMPTIONS = ['pool_size=0', 'files live in the in-memory file system of harness/vfs.py, which is put under the os module', 'datetime.datetime.now is the clock']
MARKS = {'history': ['rotated', 'kept'], 'faults': ['failed', 'worked']}
LOG = '/vfs/dir/some.log'
TIMES = [_real(2020, 1, 2, 3, 4, 5, 600), _real(2020, 1, 2, 3, 4, 5), _real(2021, 1, 1)]
MARKS = {'history': ['rotated', 'kept']}


def handler(n, to='/vfs/arch', **kw):
    h = file_writer(LOG, rotation='%d b >> %s' % (n, to), formatter=lambda record: record['message'], **kw)
    return h


class Watch:
    """Remembers archives and checks that they never change."""

    def __init__(self, sx, fs):
        self.sx, self.fs = sx, fs
        self.known = {}

    def look(self, label=''):
        for path, (node, pieces) in self.known.items():
            self.sx.check(self.fs.nodes.get(path) is node, 'an archive is never replaced or removed' + label, path)
            self.sx.check(node.pieces == pieces, 'an archive never changes' + label, path)
        for path in self.fs.files():
            if path != LOG and path not in self.known:
                self.known[path] = (self.fs.nodes[path], list(self.fs.nodes[path].pieces))

    def archives(self):
        return [pieces for node, pieces in self.known.values()]


def everything(fs):
    return [piece for path in fs.files() for piece in fs.content(path)]


def same(found, wanted):
    """The same pieces, each once."""
    if len(found) != len(wanted):
        return False
    return all(sum(1 for f in found if f is w or (isinstance(f, str) and isinstance(w, str) and f == w)) == 1 for w in wanted)


def history(sx):
    """Records, rotations, restarts, any clock."""
    fs = vfs.install()
    block = vfs.Block(sx.int('size', 0, 30))
    fs.put(LOG, block)
    n = sx.choice('limit', [1, 8, 9, 16])
    watch = Watch(sx, fs)
    restart = sx.choice('restart', [0, 1, 2])
    Clock.moment = TIMES[0]
    flush = sx.flag('flush')
    fs.keep = 0
    h = handler(n, forced_flush=flush)
    config.add_handlers(h)
    current, size, done, archives = [block], block.size, [block], []
    for i in range(5 if sx.thorough else 4):
        if i:
            Clock.moment = sx.choice('time%d' % i, TIMES[:2])
        if restart and i == restart:
            config.delete_handlers(h)
            h = handler(n, forced_flush=flush)
            config.add_handlers(h)
        line = '%d234567\n' % i
        log(line)
        if size >= n:
            sx.mark('rotated')
            archives.append(current)
            current, size = [], 0
        else:
            sx.mark('kept')
        current = current + [line]
        size = size + len(line)
        done.append(line)
        watch.look()
        sx.check(fs.content(LOG) == current, 'the log file has what came since the last rotation', i)
    sx.check(same(everything(fs), done), 'every line is in the file or in one archive')
    found = watch.archives()
    sx.check(len(found) == len(archives) and all(a in found for a in archives), 'every rotation gives an archive of its own', (len(found), len(archives)))


def present(sx):
    """The names of archives are taken by files of others."""
    fs = vfs.install()
    Clock.moment = sx.choice('time', TIMES)
    fs.put(LOG, 'first\n')
    config.add_handlers(handler(1))
    log('second\n')
    taken = [p for p in fs.files() if p != LOG]
    if not sx.check(len(taken) == 1, 'the file is rotated', len(taken)):
        return
    names = [taken[0]]
    more = sx.int('more', 0, 3)
    for i in range(1, 4):
        if i <= more:
            fs.put('%s.%d' % (taken[0], i), 'foreign %d\n' % i)
    if sx.flag('directory'):
        fs.make(taken[0] + '.4')
    watch = Watch(sx, fs)
    watch.look()
    before = everything(fs)
    log('third\n')
    watch.look()
    sx.check(same(everything(fs), before + ['third\n']), 'nothing is lost')
    sx.check(fs.content(LOG) == ['third\n'], 'the log file goes on empty')
    sx.check(all(os.path.dirname(p) == '/vfs/arch' for p in fs.files() if p != LOG), 'an archive is a new file in the destination')


def two_handlers(sx):
    """Two handlers of one file."""
    fs = vfs.install()
    block = vfs.Block(sx.int('size', 0, 30))
    fs.put(LOG, block)
    Clock.moment = TIMES[0]
    same_place = sx.flag('same place')
    config.add_handlers(handler(sx.choice('one', [1, 10])), handler(sx.choice('two', [1, 8, 19]), to='/vfs/arch' if same_place else '/vfs/other'))
    done = [block]
    nodes = {}
    for i in range(3):
        line = '%d234567\n' % i
        if i and sx.flag('tick%d' % i):
            Clock.moment = TIMES[i]
        log(line)
        done.extend([line, line])
        for path, node in nodes.items():
            sx.check(fs.nodes.get(path) is node, 'an archive is never replaced or removed', path)
        nodes.update({p: fs.nodes[p] for p in fs.files() if p != LOG})
    found = everything(fs)
    sx.check(len(found) == len(done) and found.count(block) == 1 and all(found.count(i) == 2 for i in done[1:]), 'every line is somewhere as often as it was written', len(found))


def faults(sx):
    """Operations of the file system that fail during the rotation."""
    fs = vfs.install()
    block = vfs.Block(sx.int('size', 0, 30))
    fs.put(LOG, block)
    Clock.moment = TIMES[0]
    made = sx.flag('made')
    if made:
        fs.make('/vfs/arch')
    lost = []
    config.add_handlers(handler(10, alt=lambda record: lost.append(record['message']), forced_flush=sx.flag('flush')))
    what = sx.choice('what', ['mkdir', 'rename', 'stat', 'nothing'])
    if what != 'nothing':
        fs.fail[what] = OSError
        if what == 'rename':
            fs.fail['open'] = OSError
    watch = Watch(sx, fs)
    log('first\n')
    watch.look()
    failed = what in ('rename', 'stat') or (what == 'mkdir' and not made)
    if block.size >= 10 and not failed:
        sx.check(fs.content(LOG) == ['first\n'], 'the log file goes on empty')
    else:
        sx.check(fs.content(LOG) == [block, 'first\n'], 'without a rotation the record is added to the file', fs.operations)
    fs.fail.clear()
    log('second\n')
    watch.look()
    sx.check(same(everything(fs), [block, 'first\n', 'second\n']) and not lost, 'nothing is lost')


def other_device(sx):
    """The destination is on another device: the file is copied and removed."""
    fs = vfs.install()
    block = vfs.Block(sx.int('size', 0, 30))
    fs.put(LOG, block)
    Clock.moment = TIMES[0]
    fs.keep = sx.choice('buffer', [None, 0, 1, 2])
    config.add_handlers(handler(10, forced_flush=sx.flag('flush')))
    fs.fail['rename'] = OSError
    done = [block]
    for i in range(4):
        log('%d234567\n' % i)
        done.append('%d234567\n' % i)
        sx.check(same(everything(fs), done), 'every line is in the file or in one archive', i)


def many(sx):
    """Many rotations in one moment."""
    fs = vfs.install()
    Clock.moment = TIMES[1]
    fs.put(LOG, vfs.Block(sx.int('size', 1, HI)))
    config.add_handlers(handler(1))
    watch = Watch(sx, fs)
    for i in range(12):
        log('line %d\n' % i)
        watch.look()
    sx.check(len(watch.known) == 12, 'every rotation gives an archive of its own', len(watch.known))
