"""A simulated disk below /simdisk: page cache, journal and platter in memory, with every system call a fault point.

Nothing below /simdisk exists on the real file system, so code under test cannot damage anything through it.  Every call on
a path or descriptor of the disk counts as one step; faults are planned at steps:

  kill      the process dies before the step, or in the middle of a write: what it had handed to the kernel survives, what
            was still buffered in the process does not, and no clean-up code has any effect any more
  power     the same, and of the page cache only what was synced is sure to survive: of the rest the seed decides
  error     the call fails with an errno (EIO, ENOSPC, EMFILE, EACCES, EDQUOT, EINTR is retried by Python itself)
  short     a write takes only part of the data
  capacity  the disk is full after so many bytes

Crash model of the platter: the content of a file is what was last synced plus a seed-chosen part of the writes since (none,
all, a prefix, or pages in any combination); directory operations reach the journal in order, a power loss keeps a
seed-chosen prefix of those not yet committed; fsync of a file or a directory commits the journal.
"""
import builtins
import errno
import io
import os
import stat as _stat

from .core import HarnessError

ROOT = '/simdisk'
PAGE = 512
FD0 = 1 << 20


class SimKill(BaseException):
    """the simulated process is gone"""


class Inode:
    _n = 0

    def __init__(self, is_dir=False):
        Inode._n += 1
        self.ino = 1000 + Inode._n
        self.is_dir = is_dir
        self.data = bytearray()        # page cache
        self.synced = b''              # on the platter for sure
        self.log = []                  # writes since: ('w', offset, bytes) | ('t', size)
        self.lost = False              # an fsync failed: the pages are clean and gone
        self.entries = {} if is_dir else None
        self.mode = 0o755 if is_dir else 0o644

    def write(self, off, b):
        if off > len(self.data):
            self.data.extend(b'\0' * (off - len(self.data)))
        self.data[off:off + len(b)] = b
        self.log.append(('w', off, bytes(b)))

    def truncate(self, n):
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(b'\0' * (n - len(self.data)))
        self.log.append(('t', n))

    def sync(self):
        self.synced = bytes(self.data)
        self.log = []


def apply(base, log):
    d = bytearray(base)
    for rec in log:
        if rec[0] == 't':
            n = rec[1]
            if n < len(d):
                del d[n:]
            else:
                d.extend(b'\0' * (n - len(d)))
        else:
            _, off, b = rec
            if off > len(d):
                d.extend(b'\0' * (off - len(d)))
            d[off:off + len(b)] = b
    return bytes(d)


class Plan:
    """one fault: kind, the step (counted from arming) it hits, and its parameter"""

    def __init__(self, kind, step, arg=None, op=None):
        self.kind, self.step, self.arg, self.op = kind, step, arg, op
        self.fired = None

    def __repr__(self):
        return '{}{} at step {}{}{}'.format(self.kind, '' if self.arg is None else '({})'.format(self.arg), self.step,
                                            ' of kind ' + self.op if self.op else '',
                                            '' if self.fired is None else ' [hit {}]'.format(self.fired))


class Raw(io.RawIOBase):
    def __init__(self, fs, fd, name, readable, writable, append):
        self.fs, self.fd, self.name = fs, fd, name
        self._r, self._w, self._a = readable, writable, append
        self.mode = ('rb+' if readable else 'wb') if writable else 'rb'
        fs.raws.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        self._checkClosed()
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        d = self.fs.os_read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = b''
        while True:
            d = self.fs.os_read(self.fd, 1 << 16)
            if not d:
                return out
            out += d

    def write(self, b):
        return self.fs.os_write(self.fd, bytes(b))

    def seek(self, off, whence=0):
        return self.fs.os_lseek(self.fd, off, whence)

    def tell(self):
        return self.fs.os_lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.fs.os_ftruncate(self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.fd in self.fs.fds:
                self.fs.os_close(self.fd)


class Fd:
    def __init__(self, node, path, flags):
        self.node, self.path, self.flags, self.pos = node, path, flags, 0


class Disk:
    """with Disk(sim) as d: ..."""

    def __init__(self, sim):
        self.sim = sim
        self.root = Inode(True)
        self.journal = []               # directory operations not yet committed
        self.committed = {}             # path -> inode, as the journal on the platter has it
        self.fds, self.nfd, self.raws = {}, FD0, []
        self.plan, self.steps, self.dead, self.capacity = None, 0, False, None
        self.trace = []
        self.quiet = 0

    # ------------------------------------------------------------------ steps and faults
    def arm(self, plan):
        self.plan, self.steps, self.trace = plan, 0, []
        self.capacity = plan.arg if plan is not None and plan.kind == 'capacity' else None

    def disarm(self):
        self.plan, self.capacity = None, None

    def hit(self, op, n=0):
        """one system call: (bytes that may be written or None, error to raise before anything happens)"""
        if self.dead:
            if op in ('write', 'close', 'lseek', 'fstat', 'read'):
                return 'ignore'
            raise SimKill()
        if self.quiet:
            return None
        p = self.plan
        mine = p is None or p.op is None or p.op == op
        k = self.steps
        if mine:
            self.steps += 1
        self.trace.append(op)
        self.sim.event('disk', op)
        if p is None or p.fired is not None or not mine or k != p.step:
            return None
        if p.kind in ('kill', 'power'):
            p.fired = op
            self.sim.fault('disk-' + p.kind)
            if op == 'write' and p.arg:
                return ('part', n * p.arg // 8)
            self.die()
        if p.kind == 'error':
            p.fired = op
            if op == 'fstat' or op == 'lseek':
                return None
            self.sim.fault('disk-error-{}'.format(errno.errorcode[p.arg]))
            if op == 'write' and p.arg in (errno.ENOSPC, errno.EDQUOT):
                return ('part-error', n // 3, p.arg)
            raise OSError(p.arg, os.strerror(p.arg), 'injected')
        if p.kind == 'short' and op == 'write':
            p.fired = op
            self.sim.fault('disk-short-write')
            return ('short', max(n // 2, 1))
        return None

    def die(self):
        self.dead = True
        raise SimKill()

    def used(self):
        seen, n = set(), 0
        for _, node in self.walk():
            if not node.is_dir and id(node) not in seen:
                seen.add(id(node))
                n += len(node.data)
        for f in self.fds.values():
            if id(f.node) not in seen and not f.node.is_dir:
                seen.add(id(f.node))
                n += len(f.node.data)
        return n

    def walk(self, node=None, path=ROOT):
        node = node or self.root
        for k in sorted(node.entries):
            v = node.entries[k]
            yield path + '/' + k, v
            if v.is_dir:
                yield from self.walk(v, path + '/' + k)

    # ------------------------------------------------------------------ crashes
    def restart(self, power=False):
        """what a new process finds"""
        sim = self.sim
        self.fds, self.dead, self.raws_dead = {}, False, self.raws
        self.raws = []
        self.disarm()
        if not power:
            return
        files = dict(self.committed)
        keep = sim.choose(len(self.journal) + 1, 'journal kept') if self.journal else 0
        for rec in self.journal[:keep]:
            play(files, rec)
        nodes, out = {}, Inode(True)
        for node in sorted(files.values(), key=lambda n: n.ino):
            if id(node) not in nodes:
                nodes[id(node)] = self.settle(node)
        for path in sorted(files):
            node = files[path]
            parts = path[len(ROOT) + 1:].split('/')
            d = out
            for q in parts[:-1]:
                d = d.entries.setdefault(q, Inode(True))
            if node.is_dir:
                d.entries.setdefault(parts[-1], Inode(True))
            else:
                d.entries[parts[-1]] = nodes[id(node)]
        self.root, self.journal = out, []
        self.committed = dict(self.walk())

    def settle(self, node):
        if node.is_dir:
            return Inode(True)
        new = Inode()
        log = [] if node.lost else node.log
        how = self.sim.pick(['all', 'none', 'prefix', 'pages'], 'pages kept') if log else 'all'
        if how == 'all':
            d = apply(node.synced, log)
        elif how == 'none':
            d = node.synced
        elif how == 'prefix':
            d = apply(node.synced, log[:self.sim.choose(len(log) + 1, 'writes kept')])
        else:
            full = apply(node.synced, log)
            old = node.synced[:len(full)].ljust(len(full), b'\0')
            bits = self.sim.subseed('page bits')
            d = b''.join((full if (bits >> (i % 30)) & 1 else old)[i * PAGE:(i + 1) * PAGE]
                         for i in range(-(-len(full) // PAGE)))
        if log:
            self.sim.event('settled', how)
        new.data = bytearray(d)
        new.synced = bytes(d)
        return new

    # ------------------------------------------------------------------ paths
    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            try:
                p = os.fsdecode(p)
            except UnicodeDecodeError:
                return None
        if p == ROOT or p.startswith(ROOT + '/'):
            return [q for q in p[len(ROOT):].split('/') if q and q != '.']
        return None

    def find(self, parts, path=''):
        n = self.root
        for q in parts:
            if not n.is_dir:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            if q not in n.entries:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            n = n.entries[q]
        return n

    def parent(self, parts, path):
        d = self.find(parts[:-1], path)
        if not d.is_dir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return d

    @staticmethod
    def full(parts):
        return '/'.join([ROOT] + parts)

    def log_op(self, *rec):
        self.journal.append(rec)

    # ------------------------------------------------------------------ system calls
    def os_open(self, parts, path, flags, mode=0o777):
        self.hit('open')
        d = self.parent(parts, path) if parts else None
        node = self.root if not parts else d.entries.get(parts[-1])
        if node is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            node = Inode()
            node.mode = mode & 0o755
            d.entries[parts[-1]] = node
            self.log_op('set', self.full(parts), node)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        acc = flags & os.O_ACCMODE
        if node.is_dir and acc != os.O_RDONLY:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY and len(node.data):
            node.truncate(0)
        self.nfd += 1
        self.fds[self.nfd] = Fd(node, path, flags)
        return self.nfd

    def fd(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self.fds[fd]

    def os_write(self, fd, b):
        r = self.hit('write', len(b))
        if r == 'ignore':
            return len(b)
        f = self.fd(fd)
        n = len(b)
        if r:
            n = min(n, r[1])
        room = None
        if self.capacity is not None and not self.quiet:
            room = max(self.capacity - self.used(), 0)
            if n > room:
                n = room
                if self.plan.fired is None:
                    self.plan.fired = 'write'
                    self.sim.fault('disk-full')
        if f.flags & os.O_APPEND:
            f.pos = len(f.node.data)
        if n:
            f.node.write(f.pos, b[:n])
            f.pos += n
        if r and r[0] == 'part':
            self.die()
        if r and r[0] == 'part-error' and n == 0:
            raise OSError(r[2], os.strerror(r[2]), f.path)
        if r and r[0] == 'part-error':
            self.plan.fired = None             # the next write finds no room at all
            self.plan.step = self.steps
            return n
        if n == 0 and len(b):
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), f.path)
        return n

    def os_read(self, fd, n):
        if self.hit('read', n) == 'ignore':
            return b''
        f = self.fd(fd)
        if f.node.is_dir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR))
        d = bytes(f.node.data[f.pos:f.pos + n])
        f.pos += len(d)
        return d

    def os_lseek(self, fd, off, whence=0):
        if self.hit('lseek') == 'ignore':
            return 0
        f = self.fd(fd)
        f.pos = off if whence == 0 else f.pos + off if whence == 1 else len(f.node.data) + off
        return f.pos

    def os_ftruncate(self, fd, n):
        self.hit('truncate')
        self.fd(fd).node.truncate(n)

    def os_fsync(self, fd):
        f = self.fd(fd) if not self.dead else None
        try:
            self.hit('fsync')
        except OSError:
            f.node.lost = not f.node.is_dir
            raise
        if f.node.lost:
            # the kernel reported the error once and forgot the pages: a second fsync succeeds and saves nothing
            return
        if not f.node.is_dir:
            f.node.sync()
        self.commit()

    def commit(self):
        for rec in self.journal:
            play(self.committed, rec)
        self.journal = []

    def sync(self):
        self.hit('fsync')
        for _, n in self.walk():
            if not n.is_dir and not n.lost:
                n.sync()
        self.commit()

    def os_close(self, fd):
        f = self.fds.pop(fd, None)
        if f is None and not self.dead:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self.hit('close')

    def rename(self, a, b, pa, pb):
        self.hit('rename')
        da, db = self.parent(a, pa), self.parent(b, pb)
        node = self.find(a, pa)
        old = db.entries.get(b[-1])
        if old is not None and old.is_dir != node.is_dir:
            raise OSError(errno.EISDIR if old.is_dir else errno.ENOTDIR, 'rename', pb)
        if node is old:
            return
        if node.is_dir and old is not None and old.entries:
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), pb)
        del da.entries[a[-1]]
        db.entries[b[-1]] = node
        self.log_op('move', self.full(a), self.full(b))

    def link(self, a, b, pa, pb):
        self.hit('link')
        node, db = self.find(a, pa), self.parent(b, pb)
        if b[-1] in db.entries:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), pb)
        db.entries[b[-1]] = node
        self.log_op('set', self.full(b), node)

    def unlink(self, a, pa):
        self.hit('unlink')
        d = self.parent(a, pa)
        if self.find(a, pa).is_dir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), pa)
        del d.entries[a[-1]]
        self.log_op('del', self.full(a))

    def mkdir(self, a, pa, mode=0o777):
        self.hit('mkdir')
        d = self.parent(a, pa)
        if a[-1] in d.entries:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), pa)
        d.entries[a[-1]] = Inode(True)
        self.log_op('set', self.full(a), d.entries[a[-1]])

    def rmdir(self, a, pa):
        self.hit('rmdir')
        if self.find(a, pa).entries:
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), pa)
        del self.parent(a, pa).entries[a[-1]]
        self.log_op('del', self.full(a))

    def stat(self, node):
        kind = _stat.S_IFDIR if node.is_dir else _stat.S_IFREG
        return os.stat_result((kind | node.mode, node.ino, 77, 1, 0, 0, len(node.data), 0, 0, 0))

    # ------------------------------------------------------------------ what Python code calls
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        plus, kind = '+' in mode, [c for c in 'rwxa' if c in mode]
        if len(kind) != 1:
            raise ValueError('invalid mode: {!r}'.format(mode))
        kind = kind[0]
        flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'x': os.O_CREAT | os.O_EXCL, 'a': os.O_CREAT | os.O_APPEND}[kind]
        flags |= os.O_RDWR if plus else os.O_RDONLY if kind == 'r' else os.O_WRONLY
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
        else:
            fd = self.os_open(self.mine(file), os.fspath(file), flags, 0o666)
        if self.fd(fd).node.is_dir:
            self.os_close(fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        raw = Raw(self, fd, file, plus or kind == 'r', plus or kind != 'r', kind == 'a')
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if plus else io.BufferedReader(raw, size) if kind == 'r' else io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)

    def __enter__(self):
        self.saved = []
        fs = self
        real_open = builtins.open

        def patch(mod, name, new):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)

        def opener(file, mode='r', *a, **kw):
            op = a[5] if len(a) > 5 else kw.get('opener')
            mine = fs.mine(file) is not None if not isinstance(file, int) else file in fs.fds
            if not mine and op is None:
                return real_open(file, mode, *a, **kw)
            if not mine:
                # tempfile opens the directory's name with an opener that returns our descriptor
                fd = op(file, os.O_RDWR | os.O_CREAT)
                if fd in fs.fds:
                    kw.pop('opener', None)
                    return fs.open(fd, mode, *a[:5], **kw)
                return real_open(fd, mode, *a[:5], **{k: v for k, v in kw.items() if k != 'opener'})
            return fs.open(file, mode, *a, **kw)
        patch(builtins, 'open', opener)
        patch(io, 'open', opener)

        def by_path(name, new):
            real = getattr(os, name)

            def f(path, *a, **kw):
                if isinstance(path, int):
                    if path in fs.fds and name in ('stat', 'chmod', 'truncate', 'utime', 'chown'):
                        return new(fs.fds[path].node, None, path, *a, **kw)
                    return real(path, *a, **kw)
                parts = fs.mine(path)
                if parts is None:
                    return real(path, *a, **kw)
                return new(None, parts, os.fspath(path), *a, **kw)
            f.__name__ = name
            patch(os, name, f)

        def node_of(node, parts, path):
            if fs.dead:
                raise SimKill()
            return node if node is not None else fs.find(parts, path)
        by_path('open', lambda n, parts, path, flags, mode=0o777, **kw: fs.os_open(parts, path, flags, mode))
        by_path('stat', lambda n, parts, path, **kw: fs.stat(node_of(n, parts, path)))
        by_path('lstat', lambda n, parts, path, **kw: fs.stat(node_of(n, parts, path)))
        by_path('access', lambda n, parts, path, mode, **kw: exists(parts, path))
        by_path('unlink', lambda n, parts, path, **kw: fs.unlink(parts, path))
        by_path('remove', lambda n, parts, path, **kw: fs.unlink(parts, path))
        by_path('mkdir', lambda n, parts, path, mode=0o777, **kw: fs.mkdir(parts, path, mode))
        by_path('rmdir', lambda n, parts, path, **kw: fs.rmdir(parts, path))
        by_path('listdir', lambda n, parts, path='.': sorted(node_of(n, parts, path).entries))
        by_path('chmod', lambda n, parts, path, mode, **kw: setattr(node_of(n, parts, path), 'mode', mode))
        by_path('chown', lambda n, parts, path, *a, **kw: None)
        by_path('utime', lambda n, parts, path, *a, **kw: None)
        by_path('listxattr', lambda n, parts, path, **kw: [])
        by_path('truncate', lambda n, parts, path, size: (fs.hit('truncate'), node_of(n, parts, path).truncate(size))[1])
        by_path('readlink', lambda n, parts, path, **kw: not_a_link(path))
        by_path('scandir', lambda n, parts, path='.': refuse('scandir'))

        def refuse(what):
            raise HarnessError('the simulated disk has no {}'.format(what))

        def not_a_link(path):
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), path)

        def exists(parts, path):
            try:
                fs.find(parts, path)
                return True
            except OSError:
                return False

        def by_two(name, new):
            real = getattr(os, name)

            def f(a, b, **kw):
                pa, pb = fs.mine(a), fs.mine(b)
                if pa is None and pb is None:
                    return real(a, b, **kw)
                if pa is None or pb is None:
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
                return new(pa, pb, os.fspath(a), os.fspath(b))
            patch(os, name, f)
        by_two('rename', self.rename)
        by_two('replace', self.rename)
        by_two('link', self.link)

        def by_fd(name, new):
            real = getattr(os, name)

            def f(fd, *a, **kw):
                if isinstance(fd, int) and fd >= FD0:
                    return new(fd, *a, **kw)
                return real(fd, *a, **kw)
            patch(os, name, f)
        by_fd('write', lambda fd, b: fs.os_write(fd, bytes(b)))
        by_fd('read', fs.os_read)
        by_fd('close', fs.os_close)
        by_fd('fsync', fs.os_fsync)
        by_fd('fdatasync', fs.os_fsync)
        by_fd('lseek', fs.os_lseek)
        by_fd('ftruncate', fs.os_ftruncate)
        by_fd('fstat', lambda fd: fs.stat(fs.fd(fd).node))
        by_fd('fchmod', lambda fd, mode: setattr(fs.fd(fd).node, 'mode', mode))
        by_fd('fchown', lambda fd, *a: None)
        by_fd('isatty', lambda fd: False)
        by_fd('posix_fallocate', lambda fd, off, n: None)
        by_fd('posix_fadvise', lambda fd, *a: None)
        by_fd('writev', lambda fd, bs: fs.os_write(fd, b''.join(bytes(b) for b in bs)))
        by_fd('pwrite', lambda fd, b, off: refuse('pwrite'))
        by_fd('sendfile', lambda *a, **kw: not_a_link('sendfile'))
        by_fd('fdopen', lambda fd, mode='r', buffering=-1, encoding=None, *a, **kw: fs.open(fd, mode, buffering, encoding, *a, **kw))
        patch(os, 'sync', self.sync)
        import tempfile
        names = iter(range(10 ** 9))
        patch(tempfile, '_get_candidate_names', lambda: ('t{:07d}'.format(i) for i in names))
        import fcntl
        for name in ('flock', 'lockf', 'fcntl'):
            real = getattr(fcntl, name)
            patch(fcntl, name, lambda fd, *a, _real=real, **kw: None if (fd if isinstance(fd, int) else fd.fileno()) >= FD0
                  else _real(fd, *a, **kw))
        return self

    def __exit__(self, *a):
        for mod, name, old in reversed(self.saved):
            setattr(mod, name, old)
        # nothing may be written by a garbage collector later
        self.dead = True
        return False

    # ------------------------------------------------------------------ for the harness
    def content(self, path):
        try:
            return bytes(self.find(self.mine(path), path).data)
        except OSError:
            return None

    def files(self):
        return [p for p, n in self.walk() if not n.is_dir]


def play(files, rec):
    if rec[0] == 'set':
        files[rec[1]] = rec[2]
    elif rec[0] == 'del':
        files.pop(rec[1], None)
    else:
        src, dst = rec[1], rec[2]
        for p in sorted(files):
            if p == src or p.startswith(src + '/'):
                files[dst + p[len(src):]] = files.pop(p)
