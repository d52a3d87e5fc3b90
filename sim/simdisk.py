"""A simulated disk behind os, open and io.open: an in-memory file system with faults.

While a Disk is active every path outside the code itself is on it, so nothing that the code under test writes or removes is real.
A write is buffered as in a real file object: what was not flushed is lost in a crash."""
import errno
import os
import stat as st_
import sys
import __builtin__
import io
import boot

CUR = [None]
_real = {}
READ_ONLY = ('/usr/share/', '/opt/vp/', '__pyclasspath__')


class Node(object):
    def __init__(self, kind, data=''):
        self.kind = kind                # 'dir', 'file' or 'link'
        self.data = data
        self.kids = {}
        self.mtime = 1700000000


def err(e, path=None, cls=OSError):
    n = getattr(errno, e)
    if path is None:
        return cls(n, os.strerror(n))
    return cls(n, os.strerror(n), path)


class Disk(object):
    """faults: list of dicts {op, n, err[, part]}: the n-th (from 0) operation of that kind fails (part: fraction of the data of a write that
    still gets there); op 'any' counts every operation that can fail.  capacity: bytes that fit, None for no limit."""

    def __init__(self, env, faults=(), capacity=None, rng=None, cwd='/work'):
        self.env = env
        self.root = Node('dir')
        self.faults = [dict(f) for f in faults]
        self.count = {}
        self.capacity = capacity
        self.used = 0
        self.rng = rng
        self.cwd = cwd
        self.log = []                   # (operation, path) of everything that changed the disk
        self.failed = 0
        self.cleanup_failed = False        # a fault kept something from being removed
        self.open_files = []
        self.limit = None               # called with a path before each change
        for d in ('/tmp', '/work'):
            self.root.kids[d[1:]] = Node('dir')

    # ---- paths
    def parts(self, path):
        path = text(path)
        if '\0' in path:
            raise TypeError('must be encoded string without NULL bytes, not str')
        if not path:
            raise err('ENOENT', path)
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        return [p for p in path.split('/') if p not in ('', '.')], path.endswith('/')

    def find(self, path, follow=True, depth=0):
        """The node at a path, or None; the directories on the way must exist."""
        parts, slash = self.parts(path)
        return self.walk(parts, follow or slash, depth, slash)

    def walk(self, parts, follow=True, depth=0, want_dir=False):
        if depth > 20:
            raise err('ELOOP')
        stack = [self.root]
        for i, p in enumerate(parts):
            if stack[-1].kind != 'dir':
                raise err('ENOTDIR', '/' + '/'.join(parts))
            if p == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            if len(p) > 255:
                raise err('ENAMETOOLONG', '/' + '/'.join(parts))
            n = stack[-1].kids.get(p)
            if n is None:
                return None
            if n.kind == 'link' and (follow or i < len(parts) - 1):
                t = n.data if n.data.startswith('/') else '/' + '/'.join(parts[:i]) + '/' + n.data
                n = self.find(t, True, depth + 1)
                if n is None:
                    return None
            stack.append(n)
        if want_dir and stack[-1].kind != 'dir':
            raise err('ENOTDIR', '/' + '/'.join(parts))
        return stack[-1]

    def place(self, path):
        """The directory and name for a path that is made or removed."""
        parts, slash = self.parts(path)
        if not parts:
            raise err('EEXIST', path)
        if parts[-1] == '..':
            raise err('ENOTEMPTY', path)
        d = self.walk(parts[:-1])
        if d is None:
            raise err('ENOENT', path)
        if d.kind != 'dir':
            raise err('ENOTDIR', path)
        if len(parts[-1]) > 255:
            raise err('ENAMETOOLONG', path)
        return d, parts[-1]

    def full(self, path):
        """The absolute path after .. and symbolic links of the directories on the way, for the log."""
        out = []
        for p in self.parts(path)[0]:
            if p == '..':
                out = out[:-1]
            else:
                out.append(p)
        return '/' + '/'.join(out)

    def need(self, path, follow=True):
        n = self.find(path, follow)
        if n is None:
            raise err('ENOENT', path)
        return n

    # ---- faults
    def op(self, kind, path, cls=OSError):
        """Counts an operation and fails it when its time has come; returns the fault of a write that fails part way."""
        if self.env is None:
            return None
        # os.path's predicates take a failed stat for an absent file, so 'any' leaves those alone
        for k in (kind, 'any') if kind != 'stat' else (kind,):
            n = self.count[k] = self.count.get(k, -1) + 1
            for f in self.faults:
                if f['op'] == k and (f['n'] == n or f.get('stay') and n >= f['n']):
                    self.failed += 1
                    self.env.fault('disk_%s_%s' % (kind, f['err']))
                    fr = sys._getframe(1)
                    while fr is not None:
                        if fr.f_code.co_name == 'rmtree':
                            self.cleanup_failed = True
                        fr = fr.f_back
                    if kind == 'write':
                        return f
                    if f['err'] == 'CRASH':
                        raise Crash()
                    raise err(f['err'], path, cls)
        return None

    def change(self, what, path):
        self.log.append((what, self.full(path)))

    def grow(self, n):
        """How many of n more bytes fit."""
        if self.capacity is None:
            return n
        fit = max(0, min(n, self.capacity - self.used))
        return fit

    # ---- os
    def stat(self, path, follow=True):
        self.op('stat', path)
        n = self.need(path, follow)
        mode = {'dir': st_.S_IFDIR | 0755, 'file': st_.S_IFREG | 0644, 'link': st_.S_IFLNK | 0777}[n.kind]
        return _real['stat_result']((mode, id(n) & 0xffffff, 1, 1, 0, 0, len(n.data), n.mtime, n.mtime, n.mtime))

    def listdir(self, path):
        self.op('listdir', path)
        n = self.need(path)
        if n.kind != 'dir':
            raise err('ENOTDIR', path)
        names = sorted(n.kids)
        if self.rng is not None:
            self.rng.shuffle(names)
        if isinstance(path, unicode):
            r = []
            for x in names:
                try:
                    r.append(x.decode('utf-8'))
                except UnicodeDecodeError:
                    r.append(x)
            return r
        return names

    def mkdir(self, path, mode=0777):
        self.op('mkdir', path)
        d, name = self.place(path)
        if name in d.kids:
            raise err('EEXIST', path)
        self.change('mkdir', path)
        d.kids[name] = Node('dir')

    def rmdir(self, path):
        self.op('rmdir', path)
        d, name = self.place(path)
        n = d.kids.get(name)
        if n is None:
            raise err('ENOENT', path)
        if n.kind != 'dir':
            raise err('ENOTDIR', path)
        if n.kids:
            raise err('ENOTEMPTY', path)
        self.change('rmdir', path)
        del d.kids[name]

    def remove(self, path):
        self.op('remove', path)
        d, name = self.place(path)
        n = d.kids.get(name)
        if n is None:
            raise err('ENOENT', path)
        if n.kind == 'dir':
            raise err('EISDIR', path)
        self.change('remove', path)
        del d.kids[name]
        self.used -= len(n.data)

    def rename(self, a, b):
        self.op('rename', a)
        d, name = self.place(a)
        e, other = self.place(b)
        n = d.kids.get(name)
        if n is None:
            raise err('ENOENT', a)
        o = e.kids.get(other)
        if o is not None and (o.kind == 'dir') != (n.kind == 'dir'):
            raise err('EISDIR' if o.kind == 'dir' else 'ENOTDIR', b)
        if o is not None and o.kids:
            raise err('ENOTEMPTY', b)
        self.change('rename', a)
        self.change('rename to', b)
        del d.kids[name]
        e.kids[other] = n

    def chdir(self, path):
        n = self.need(path)
        if n.kind != 'dir':
            raise err('ENOTDIR', path)
        self.cwd = self.full(path)

    def readlink(self, path):
        n = self.need(path, False)
        if n.kind != 'link':
            raise err('EINVAL', path)
        return n.data

    def symlink(self, target, path):
        d, name = self.place(path)
        if name in d.kids:
            raise err('EEXIST', path)
        self.change('symlink', path)
        d.kids[name] = Node('link', text(target))

    def chmod(self, path, mode):
        self.need(path)

    def utime(self, path, times):
        self.need(path)

    def access(self, path, mode):
        try:
            return self.find(path) is not None
        except OSError:
            return False

    def open(self, path, mode='r', *args):
        m = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
        try:
            self.op('open' if m[0] == 'r' else 'create', path, IOError)
            n = self.find(path)
            if n is None and m[0] != 'r':
                d, name = self.place(path)
                if path.endswith('/'):
                    raise err('EISDIR', path)
                self.change('create', path)
                n = d.kids[name] = Node('file')
            elif n is None:
                raise err('ENOENT', path)
            elif n.kind == 'dir':
                raise err('EISDIR', path)
            elif m[0] == 'w':
                self.change('truncate', path)
                self.used -= len(n.data)
                n.data = ''
        except OSError, e:
            raise IOError(e.errno, e.strerror, path)
        f = SimFile(self, n, path, m)
        self.open_files.append(f)
        return f

    # ---- for the harness
    def tree(self, path='/', skip=()):
        """Everything below a path: {relative path: data of a file, None for a directory, ('link', target)}."""
        r = {}

        def go(n, pre):
            for k in n.kids:
                c = n.kids[k]
                p = pre + k
                if c.kind == 'dir':
                    r[p] = None
                    go(c, p + '/')
                else:
                    r[p] = c.data if c.kind == 'file' else ('link', c.data)
        top = self.find(path)
        if top is not None:
            go(top, '')
        return r

    def put(self, path, data):
        """Puts a file, or a directory when data is None, with the directories above it."""
        parts = self.parts(path)[0]
        n = self.root
        for p in parts[:-1]:
            n = n.kids.setdefault(p, Node('dir'))
        n.kids[parts[-1]] = Node('dir') if data is None else Node('file', data)
        self.used += len(data or '')

    def crash(self):
        """The process is gone: so is what its files had not written."""
        for f in self.open_files:
            f.buf = []
            f.closed = True
            f.dead = True

    def __enter__(self):
        self.outer = CUR[0]
        CUR[0] = self
        return self

    def __exit__(self, *a):
        CUR[0] = self.outer


class Crash(BaseException):
    """The process ends here."""


def text(path):
    if isinstance(path, unicode):
        return path.encode('utf-8')
    if not isinstance(path, str):
        raise TypeError('coercing to Unicode: need string, %s type found' % type(path).__name__)
    return path


class SimFile(object):
    BUF = 8192
    newlines = None
    encoding = None
    softspace = 0

    def __init__(self, disk, node, name, mode):
        self.disk, self.node, self.name, self.mode = disk, node, name, mode
        self.pos = len(node.data) if mode[0] == 'a' else 0
        self.buf = []
        self.n = 0
        self.closed = False
        self.dead = False

    def check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, s):
        self.check()
        if self.mode == 'r':
            raise err('EBADF', cls=IOError)
        if isinstance(s, unicode):
            s = s.encode('ascii')
        s = str(s) if not isinstance(s, str) else s
        self.buf.append(s)
        self.n += len(s)
        if self.n >= self.BUF:
            self.flush()

    def writelines(self, l):
        for s in l:
            self.write(s)

    def flush(self):
        self.check()
        if not self.buf:
            return
        s = ''.join(self.buf)
        self.buf, self.n = [], 0
        f = self.disk.op('write', self.name, IOError)
        ok = len(s)
        e = None
        if f is not None:
            ok, e = int(len(s) * f.get('part', 0)), f['err']
        d = self.node.data
        at = len(d) if self.mode[0] == 'a' else self.pos
        more = max(0, at + ok - len(d))
        fit = self.disk.grow(more)
        if fit < more:
            ok -= more - fit
            e = 'ENOSPC'
            self.disk.failed += 1
            self.disk.env.fault('disk_full')
        self.disk.used += min(fit, more)
        d = d + '\0' * (at - len(d))
        self.node.data = d[:at] + s[:ok] + d[at + ok:]
        self.pos = at + ok
        self.disk.change('write', self.name)
        if e == 'CRASH':
            raise Crash()
        if e:
            raise err(e, cls=IOError)

    def take(self, n):
        self.check()
        if self.mode in ('w', 'a'):
            raise err('EBADF', cls=IOError)
        self.flush()
        self.disk.op('read', self.name, IOError)
        d = self.node.data
        r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    read = lambda self, n=-1: self.take(n)

    def readline(self, n=-1):
        d = self.node.data
        i = d.find('\n', self.pos)
        end = len(d) if i < 0 else i + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        return self.take(end - self.pos)

    def readlines(self, n=0):
        return list(self)

    def __iter__(self):
        return self

    def next(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def seek(self, pos, whence=0):
        self.check()
        self.flush()
        p = pos + (0, self.pos, len(self.node.data))[whence]
        if p < 0:
            raise err('EINVAL', cls=IOError)
        self.pos = p

    def tell(self):
        self.check()
        return self.pos + self.n

    def truncate(self, n=None):
        self.flush()
        self.node.data = self.node.data[:self.pos if n is None else n]

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
            if self.mode != 'r':
                self.disk.op('close', self.name, IOError)
        finally:
            self.closed = True

    def isatty(self):
        return False

    def fileno(self):
        raise err('EBADF', cls=IOError)

    def readable(self):
        return self.mode[0] == 'r' or '+' in self.mode

    def writable(self):
        return self.mode != 'r'

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def ours(path):
    """True for a path on the simulated disk."""
    if CUR[0] is None:
        return False
    if not isinstance(path, basestring):
        return True
    p = text(path)
    if p.startswith(READ_ONLY) or p.startswith((boot.SRC + '/', boot.HERE + '/')) or '$py.class' in p or '.jar' in p:
        return False
    return True


def install():
    def hook(mod, name, method):
        real = getattr(mod, name)
        _real[mod.__name__ + '.' + name] = real

        def f(path, *args, **kw):
            if ours(path):
                return method(CUR[0], path, *args, **kw)
            if CUR[0] is not None and name not in ('stat', 'lstat', 'open', 'listdir', 'access', 'readlink'):
                raise AssertionError('%s of a real path: %r' % (name, path))
            if CUR[0] is not None and name == 'open' and [m for m in args[:1] if m[:1] != 'r' or '+' in m]:
                raise AssertionError('write to a real path: %r' % path)
            return real(path, *args, **kw)
        f.__name__ = name
        setattr(mod, name, f)
    _real['stat_result'] = getattr(os, 'stat_result')
    hook(os, 'stat', lambda d, p: d.stat(p))
    hook(os, 'lstat', lambda d, p: d.stat(p, False))
    for n in ('listdir', 'mkdir', 'rmdir', 'remove', 'rename', 'chdir', 'readlink', 'chmod', 'utime', 'access'):
        hook(os, n, getattr(Disk, n).im_func)
    if hasattr(os, 'symlink'):
        hook(os, 'symlink', lambda d, t, p: d.symlink(t, p))
    hook(os, 'unlink', Disk.remove.im_func)
    for n in ('getcwd', 'getcwdu'):
        def cwd(real=getattr(os, n), u=n[-1] == 'u'):
            if CUR[0] is None:
                return real()
            return CUR[0].cwd.decode('utf-8') if u else CUR[0].cwd
        setattr(os, n, cwd)

    def refuse(name):
        real = getattr(os, name)

        def f(*a, **kw):
            if CUR[0] is not None:
                raise AssertionError('os.%s is not simulated: %r' % (name, a))
            return real(*a, **kw)
        setattr(os, name, f)
    for n in ('open', 'link', 'system', 'popen', 'mkfifo', 'chown', 'tmpfile', 'mknod', 'removexattr', 'lchmod', 'fdopen'):
        if hasattr(os, n):
            refuse(n)
    hook(__builtin__, 'open', Disk.open.im_func)
    hook(io, 'open', Disk.open.im_func)
    import tempfile
    tempfile.tempdir = '/tmp'
    # names are random numbers: seeded ones
    import random

    class Names(object):
        def __iter__(self):
            return self

        def next(self):
            return ''.join([boot.urandom.rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for i in range(6)])
    tempfile._get_candidate_names = Names
