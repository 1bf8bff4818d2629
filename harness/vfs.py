"""A file system in memory under /vfs/ (relative names are under /vfs/cwd/), below the functions of the os module that real code ends in.

Contents are lists of pieces; a piece is a text or an opaque block of any (symbolic) size.  Everything outside of /vfs/
goes to the real functions.  Opened files keep pointing to their file when it is renamed, as in POSIX, and writes stay in
the buffer of the opened file until it is flushed or closed."""
import builtins
import errno
import fcntl
import io
import os
import stat as st

ROOT = '/vfs'
REAL = {name: getattr(os, name) for name in ('stat', 'lstat', 'mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'listdir', 'fstat', 'truncate', 'access', 'link', 'fsync', 'utime', 'chmod', 'listxattr')}
REAL_OPEN = builtins.open


class Block:
    """Old content of the given size."""

    def __init__(self, size, name='block'):
        self.size = size
        self.name = name


class Pieces(list):
    """What is read from a file: given to write() it puts the same pieces."""


class Node:
    def __init__(self, fs, is_dir=False):
        fs.count += 1
        self.number = fs.count
        self.is_dir = is_dir
        self.pieces = []
        self.holder = None          # the opened file that has flock()

    def size(self):
        total = 0
        for piece in self.pieces:
            total = total + (piece.size if isinstance(piece, Block) else len(piece))
        return total


class Stat:
    def __init__(self, node):
        self.st_mode = (st.S_IFDIR if node.is_dir else st.S_IFREG) | 0o644
        self.st_size = node.size()
        self.st_ino = node.number
        self.st_dev = 99
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_atime = self.st_mtime = self.st_ctime = 0.0
        self.st_atime_ns = self.st_mtime_ns = self.st_ctime_ns = 0


class File:
    """What open() gives."""
    encoding = 'utf-8'
    newlines = None
    errors = 'strict'

    def __init__(self, fs, name, mode, node):
        self.fs, self.name, self.mode, self.node = fs, name, mode, node
        self.buffer = []
        self.closed = False
        self.position = 0
        fs.number += 1
        self.descriptor = fs.number
        fs.opened[self.descriptor] = self

    def _alive(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, text):
        self.fs.step('write', self.name)
        self._alive()
        if type(text) is str:
            text = text.encode('utf-8', self.errors).decode('utf-8')
        if isinstance(text, Pieces):
            self.buffer.extend(text)
        elif self.fs.torn and len(text) > 1:
            self.buffer.append(text[:len(text) // 2])
            self.fs.pause('write', self.name)
            self.buffer.append(text[len(text) // 2:])
        else:
            self.buffer.append(text)
        keep = self.fs.keep
        if keep is not None and len(self.buffer) > keep:
            full = len(self.buffer) - keep
            self.node.pieces.extend(self.buffer[:full])
            del self.buffer[:full]
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self.fs.step('flush', self.name)
        self._alive()
        self._flush()

    def _flush(self):
        pieces, self.buffer = self.buffer, []
        if self.fs.torn:
            for piece in pieces:
                self.node.pieces.append(piece)
                self.fs.pause('flush', self.name)
        else:
            self.node.pieces.extend(pieces)

    def read(self, n=-1):
        self._alive()
        result = Pieces(self.node.pieces[self.position:])
        self.position = len(self.node.pieces)
        return result

    def seek(self, position, whence=0):
        self.position = 0 if whence == 0 else len(self.node.pieces)

    def tell(self):
        return self.node.size()

    def truncate(self, size=None):
        self.node.pieces.clear()

    def fileno(self):
        self._alive()
        if 'b' in self.mode:
            raise OSError(errno.EBADF, 'a file in memory')
        return self.descriptor

    def readable(self):
        return True

    def writable(self):
        return True

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self.fs.step('close', self.name)
            self._flush()
            self.closed = True
            self.fs.opened.pop(self.descriptor, None)
            if self.node.holder is self:
                self.node.holder = None
            self.fs.forget(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS:
    current = None

    def __init__(self):
        self.count = 0
        self.number = 100000
        self.opened = {}
        self.nodes = {ROOT: Node(self, True), ROOT + '/cwd': Node(self, True)}
        self.fail = {}              # operation -> exception class
        self.hook = None            # called before every operation
        self.operations = []
        self.torn = False           # can a switch of threads come into the middle of a write?
        self.wait = None            # called with a condition to wait for
        self.keep = None            # how many writes a buffer holds; None: any number

    def forget(self, file):
        pass

    def step(self, operation, name):
        self.operations.append((operation, name))
        if self.hook is not None:
            self.hook(operation, name)
        error = self.fail.get(operation)
        if error is not None:
            raise error(errno.EIO, 'failed by the harness', name)

    def pause(self, operation, name):
        if self.hook is not None:
            self.hook(operation, name)

    def mine(self, path):
        if isinstance(path, int) and not isinstance(path, bool):
            return path if path in self.opened else None
        if type(path) is bytes:
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if not isinstance(path, str):
            return None
        if not path.startswith('/'):
            path = ROOT + '/cwd/' + path
        path = os.path.normpath(path)
        return path if path == ROOT or path.startswith(ROOT + '/') else None

    def get(self, path):
        if isinstance(path, int):
            return self.opened[path].node
        node = self.nodes.get(path)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        return node

    def parent(self, path):
        node = self.nodes.get(os.path.dirname(path))
        if node is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if not node.is_dir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        return node

    # ------------------------------------------------------------ operations
    def stat(self, path, *a, **k):
        self.step('stat', path)
        return Stat(self.get(path))

    def mkdir(self, path, *a, **k):
        self.step('mkdir', path)
        self.parent(path)
        if path in self.nodes:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        self.nodes[path] = Node(self, True)

    def rename(self, source, target):
        self.step('rename', source)
        node = self.get(source)
        self.parent(target)
        old = self.nodes.get(target)
        if old is not None and old.is_dir:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', target)
        del self.nodes[source]
        self.nodes[target] = node

    def link(self, source, target):
        self.step('link', source)
        node = self.get(source)
        self.parent(target)
        if target in self.nodes:
            raise FileExistsError(errno.EEXIST, 'File exists', target)
        self.nodes[target] = node

    def unlink(self, path):
        self.step('unlink', path)
        self.get(path)
        del self.nodes[path]

    def rmdir(self, path):
        self.step('rmdir', path)
        self.get(path)
        del self.nodes[path]

    def listdir(self, path):
        return [os.path.basename(i) for i in self.nodes if os.path.dirname(i) == path]

    def truncate(self, path, size):
        self.step('truncate', path)
        self.get(path).pieces.clear()

    def flock(self, file, operation):
        self.step('unlock' if operation & fcntl.LOCK_UN else 'lock', file.name)
        node = file.node
        if operation & fcntl.LOCK_UN:
            if node.holder is file:
                node.holder = None
            return
        if node.holder is not None and node.holder is not file:
            if operation & fcntl.LOCK_NB or self.wait is None:
                raise BlockingIOError(errno.EWOULDBLOCK, 'Resource temporarily unavailable')
            self.wait(lambda: node.holder is None)
        if operation & fcntl.LOCK_EX:   # a shared lock keeps nobody out
            node.holder = file

    def open(self, path, mode='r', errors='strict'):
        self.step('open', path)
        node = self.nodes.get(path)
        if node is not None and node.is_dir:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        if 'r' in mode:
            node = self.get(path)
        else:
            if node is None:
                self.parent(path)
                node = self.nodes[path] = Node(self)
            elif 'x' in mode:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            if 'w' in mode:
                node.pieces.clear()
        file = File(self, path, mode, node)
        file.errors = errors
        return file

    # ------------------------------------------------------------ for the harness
    def put(self, path, *pieces):
        directory = os.path.dirname(path)
        if directory not in self.nodes:
            self.make(directory)
        node = self.nodes[path] = Node(self)
        node.pieces.extend(pieces)
        return node

    def make(self, directory):
        if directory not in self.nodes:
            self.make(os.path.dirname(directory))
            self.nodes[directory] = Node(self, True)

    def content(self, path):
        """The pieces of the file with what is still in buffers."""
        node = self.nodes[path]
        pieces = list(node.pieces)
        for file in self.opened.values():
            if file.node is node:
                pieces.extend(file.buffer)
        return pieces

    def files(self, directory=None):
        return [p for p, n in self.nodes.items() if not n.is_dir and (directory is None or os.path.dirname(p) == directory)]


def _one(name):
    real = REAL[name]

    def call(path, *a, **k):
        fs = FS.current
        if fs is not None:
            mine = fs.mine(path)
            if mine is not None:
                return getattr(fs, {'lstat': 'stat', 'fstat': 'stat', 'remove': 'unlink'}.get(name, name))(mine, *a, **k)
        return real(path, *a, **k)
    return call


def _two(name):
    real = REAL[name]

    def call(source, target, **k):
        fs = FS.current
        if fs is not None:
            s, t = fs.mine(source), fs.mine(target)
            if s is not None and t is not None:
                return getattr(fs, {'replace': 'rename'}.get(name, name))(s, t)
        return real(source, target, **k)
    return call


def _access(path, mode, **k):
    fs = FS.current
    if fs is not None and fs.mine(path) is not None:
        return fs.mine(path) in fs.nodes
    return REAL['access'](path, mode, **k)


def _open(path, mode='r', buffering=-1, encoding=None, errors=None, *a, **k):
    fs = FS.current
    if fs is not None:
        mine = fs.mine(path)
        if mine is not None and not isinstance(mine, int):
            return fs.open(mine, mode, errors or 'strict')
    return REAL_OPEN(path, mode, buffering, encoding, errors, *a, **k)


def _nothing(name):
    def call(path, *a, **k):
        fs = FS.current
        if fs is not None and fs.mine(path) is not None:
            return [] if name == 'listxattr' else None
        return REAL[name](path, *a, **k)
    return call


def _fsync(fd):
    fs = FS.current
    if fs is not None and fs.mine(fd) is not None:
        fs.opened[fd]._flush()
        return
    return REAL['fsync'](fd)


REAL_FLOCK = fcntl.flock


def _flock(file, operation):
    fs = FS.current
    number = file if isinstance(file, int) else file.fileno()
    if fs is not None and number in fs.opened:
        return fs.flock(fs.opened[number], operation)
    return REAL_FLOCK(file, operation)


def install():
    """A fresh, empty file system."""
    for name in ('stat', 'lstat', 'fstat', 'mkdir', 'rmdir', 'unlink', 'remove', 'listdir', 'truncate'):
        setattr(os, name, _one(name))
    for name in ('rename', 'replace', 'link'):
        setattr(os, name, _two(name))
    for name in ('utime', 'chmod', 'listxattr'):
        setattr(os, name, _nothing(name))
    os.access = _access
    fcntl.flock = _flock
    os.fsync = _fsync
    builtins.open = io.open = _open
    FS.current = FS()
    return FS.current
