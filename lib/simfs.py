"""Simulator B: a simulated POSIX machine for Python code.

Real Python threads play the tasks of simulated processes; exactly one runs at a time and the scheduler below decides which.
File system, file locks, threading locks, clocks, sleep and random bytes come from here.  Paths under /simfs and file
descriptors from FD0 on are simulated while a task is running; everything else passes through."""
import builtins, errno, fcntl, io, os, random, stat as stat_, sys, tempfile, threading, time, _thread

ROOT = "/simfs"
FD0 = 100000
EPOCH = 1.7e9
MACHINE = None          # the machine in use
CUR = None              # the running task


class Killed(BaseException):
    pass


# ---------------------------------------------------------------- file system

class Inode:
    __slots__ = ("ino", "kind", "data", "kids", "nlink", "plock", "flocks", "base", "log", "mtime", "mode")

    def __init__(self, fs, kind):
        fs.ino += 1
        self.ino, self.kind, self.nlink, self.mtime = fs.ino, kind, 1, 0.0
        self.data = bytearray() if kind == "f" else None
        self.kids = {} if kind == "d" else None
        self.plock = {}      # process -> "x" or "s" (POSIX locks, whole file)
        self.flocks = {}     # open file -> "x" or "s"
        self.base = b"" if kind == "f" else {}   # what has reached the disk
        self.log = []        # what has not: ("w", offset, bytes), ("t", size) or {name: inode or None}
        self.mode = 0o644 if kind == "f" else 0o755

    def sync(self):
        self.base = bytes(self.data) if self.kind == "f" else dict(self.kids)
        self.log = []


class FS:
    def __init__(self):
        self.ino = 0
        self.root = Inode(self, "d")

    def split(self, path):
        p = os.path.normpath(path)
        return [x for x in p[len(ROOT):].split("/") if x]

    def walk(self, parts):
        n = self.root
        for x in parts:
            if n.kind != "d":
                raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
            if x not in n.kids:
                raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
            n = n.kids[x]
        return n

    def find(self, path):
        return self.walk(self.split(path))

    def parent(self, path):
        p = self.split(path)
        if not p:
            raise OSError(errno.EBUSY, os.strerror(errno.EBUSY))
        d = self.walk(p[:-1])
        if d.kind != "d":
            raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
        return d, p[-1]

    def change(self, d, changes):
        """one atomic directory update"""
        for n, i in changes.items():
            if i is None:
                d.kids.pop(n, None)
            else:
                d.kids[n] = i
        d.log.append(dict(changes))

    def sync_all(self, n=None):
        n = n or self.root
        n.sync()
        if n.kind == "d":
            for k in n.kids.values():
                self.sync_all(k)

    def files(self, path):
        """{name: bytes} of one directory, or None"""
        try:
            d = self.find(path)
        except OSError:
            return None
        return {k: bytes(v.data) for k, v in d.kids.items() if v.kind == "f"}

    def put(self, path, data):
        """durable, unsimulated write"""
        n = self.root
        parts = self.split(path)
        for x in parts[:-1]:
            if x not in n.kids:
                n.kids[x] = Inode(self, "d")
                n.sync()
            n = n.kids[x]
        i = n.kids[parts[-1]] = Inode(self, "f")
        i.data = bytearray(data)
        i.sync()
        n.sync()

    def power_loss(self, rng, prefix):
        """what a disk may hold after a power failure.  Data written since the last fsync may be lost, cut, zeroed or kept, write by write;
        of the directory updates since the last fsync of the directory a prefix, or (prefix=False) any subset survives."""
        stat = {"kept": 0, "lost": 0, "torn": 0}

        def rec(n):
            if n.kind == "f":
                d = bytearray(n.base)
                how = rng.choice(("none", "all", "mixed", "mixed", "sizes"))
                for e in n.log:
                    x = how if how != "mixed" else rng.choice(("none", "all", "torn", "zero"))
                    if e[0] == "t":
                        if x != "none":
                            del d[e[1]:]
                            d.extend(bytes(e[1] - len(d)))
                            stat["kept"] += 1
                        else:
                            stat["lost"] += 1
                        continue
                    off, b = e[1], e[2]
                    if x == "none":
                        stat["lost"] += 1
                        continue
                    if x == "torn":
                        b = b[:rng.randint(0, len(b))]
                        stat["torn"] += 1
                    elif x in ("zero", "sizes"):
                        b = bytes(len(b))
                        stat["torn"] += 1
                    else:
                        stat["kept"] += 1
                    if len(d) < off:
                        d.extend(bytes(off - len(d)))
                    d[off:off + len(b)] = b
                n.data = d
            else:
                k = dict(n.base)
                cut = rng.randint(0, len(n.log))
                for j, ch in enumerate(n.log):
                    if (j < cut) if prefix else rng.random() < .5:
                        stat["kept"] += 1
                        for name, i in ch.items():
                            if i is None:
                                k.pop(name, None)
                            else:
                                k[name] = i
                    else:
                        stat["lost"] += 1
                n.kids = k
                for i in k.values():
                    rec(i)
            n.plock, n.flocks = {}, {}
            n.sync()
        rec(self.root)
        return stat


class OpenFile:
    __slots__ = ("inode", "pos", "flags", "proc", "path", "nolock")

    def __init__(self, inode, flags, proc, path):
        self.nolock = False
        self.inode, self.pos, self.flags, self.proc, self.path = inode, 0, flags, proc, path


# ---------------------------------------------------------------- tasks and scheduler

class Proc:
    def __init__(self, pid, module=None):
        self.pid, self.module = pid, module
        self.nops = 0
        self.dead = False
        self.tasks = []
        self.fds = set()


class Task:
    def __init__(self, tid, proc, fn):
        self.tid, self.proc, self.fn = tid, proc, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "new"
        self.wake = None
        self.nops = 0
        self.prio = 0
        self.waits = None
        self.faults = []
        proc.tasks.append(self)


class Machine:
    def __init__(self, fs, plan=None):
        p = plan or {}
        self.fs = fs
        self.now = 0.0
        self.nops = 0
        self.tasks = []
        self.fds = {}
        self.next_fd = FD0
        self.rng = random.Random("sched:%s" % p.get("sseed", 0))
        self.urng = random.Random("bytes:%s" % p.get("sseed", 0))
        self.mode = p.get("mode", "rand")
        self.psw = p.get("psw", .2)
        self.depth = p.get("depth", 3)
        self.trace_in = {int(a): b for a, b in p.get("trace", ())}
        self.trace = []
        self.errs = {(t, n): e for t, n, e in p.get("errs", ())}
        self.crash = {pr: (n, torn) for pr, n, torn in p.get("crashes", ())}
        self.stalls = {(t, n): d for t, n, d in p.get("stalls", ())}
        self.full = p.get("full", ())          # [first, last] global operation numbers with a full disk
        self.nofd = p.get("nofd", ())          # the same for exhausted file descriptors
        self.power = p.get("power")
        self.cap = p.get("cap", 60000)
        self.tcap = p.get("tcap", 600.0)
        self.cost = p.get("cost", 50e-6)
        self.fired = {}
        self.switches = 0
        self.hash = 0
        self.stop = None
        self.ctl = _thread.allocate_lock()
        self.ctl.acquire()
        self.direct = True
        self.kinds = {}
        self.broken = []
        self.changepoints = set()
        if self.mode == "pct":
            self.changepoints = {self.rng.randint(1, p.get("span", 400)) for _ in range(self.depth)}

    # -------- lifecycle
    def spawn(self, proc, fn):
        t = Task(len(self.tasks), proc, fn)
        t.prio = self.rng.random() + 1
        self.tasks.append(t)
        return t

    def _main(self, t):
        t.lock.acquire()
        try:
            t.fn(t)
        except Killed:
            pass
        except BaseException as e:      # an error of the harness, or one the code under test must not raise
            self.broken.append("%s: %s" % (type(e).__name__, e))
        t.state = "done"
        self._next(t)

    def run(self):
        """runs all tasks; returns None, or why it stopped: deadlock, stuck (no progress), power"""
        global CUR
        self.direct = False
        for t in self.tasks:
            if t.state == "new":
                t.state = "run"
                _thread.start_new_thread(self._main, (t,))
        self._next(None)
        self.ctl.acquire()
        CUR = None
        self.direct = True
        return self.stop

    def _finish(self, why):
        self.stop = why
        self.ctl.release()

    def _runnable(self):
        return [t for t in self.tasks if t.state == "run"]

    def _next(self, me):
        """hand over to the next task; me: the calling task, or None"""
        global CUR
        while True:
            r = self._runnable()
            if r:
                break
            s = [t for t in self.tasks if t.state == "sleep"]
            if not s:
                b = [t for t in self.tasks if t.state == "blocked"]
                self._finish("deadlock" if b else None)
                if me is not None and me.state not in ("done", "dead"):
                    me.lock.acquire()
                return
            t = min(s, key=lambda t: (t.wake, t.tid))
            if t.wake > self.tcap:
                self._finish("stuck")
                if me is not None and me.state not in ("done", "dead"):
                    me.lock.acquire()
                return
            self.now = max(self.now, t.wake)
            for t in s:
                if t.wake <= self.now:
                    t.state = "run"
        t = self._pick(me, r)
        if t is me:
            return
        self.switches += 1
        self.hash = (self.hash * 1000003 + self.nops * 31 + t.tid) & 0xffffffffffff
        self.trace.append((self.nops, t.tid))
        CUR = t
        if t.proc.module is not None:
            sys.modules["minorminer.busclique"] = t.proc.module
        t.lock.release()
        if me is not None and me.state not in ("done",):
            me.lock.acquire()

    def _pick(self, me, r):
        if me is not None and me.state != "run":
            me = None
        if self.mode == "trace":
            w = self.trace_in.get(self.nops)
            if w is not None:
                for t in r:
                    if t.tid == w:
                        return t
            return me or min(r, key=lambda t: t.tid)
        if self.mode == "seq":
            return me or min(r, key=lambda t: t.tid)
        if self.mode == "pct":
            if me is not None and self.nops in self.changepoints:
                me.prio = self.rng.random() * .5 - self.nops
            return max(r, key=lambda t: t.prio)
        if self.mode == "rr":
            return r[(r.index(me) + 1) % len(r)] if me is not None else r[0]
        if me is not None and self.rng.random() >= self.psw:
            return me
        return self.rng.choice(r)

    # -------- what a task does at every operation
    def point(self, kind, writes=0):
        """scheduling and fault point before an operation; returns None or a fault directive"""
        t = CUR
        if t is None or self.direct:
            return None
        if t.proc.dead:
            self._park(t)
        for x in self.tasks:       # sleepers whose time has come
            if x.state == "sleep" and x.wake <= self.now:
                x.state = "run"
        self.nops += 1
        self.now += self.cost
        t.nops += 1
        if self.nops > self.cap:
            t.state = "dead"
            self._finish("stuck")
            t.lock.acquire()
        d = self.stalls.get((t.tid, t.nops))
        if d:
            self.fire("stall")
            self.sleep(d)
        self._next(t)
        t.proc.nops += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.power is not None and self.nops >= self.power:
            self.fire("power_loss")
            t.state = "dead"
            self._finish("power")
            t.lock.acquire()
        c = self.crash.get(t.proc.pid)
        if c and t.proc.nops >= c[0]:
            self.fire("crash")
            if c[1] and writes > 1:
                self.fire("torn_write_at_crash")
                return ("torn", c[1])
            self.kill(t.proc)
            self._park(t)
        e = self.errs.get((t.tid, t.nops))
        if e:
            x = self._applicable(kind, e, writes)
            if x:
                self.fire("%s:%s" % (kind, x))
                t.faults.append("%s:%s" % (kind, x))
                if x in ("short", "shortw"):
                    return (x, 0)
                return ("err", getattr(errno, x))
        if self.full and self.full[0] <= self.nops <= self.full[1] and kind in ("write", "creat", "mkdir", "fsync"):
            self.fire("disk_full")
            t.faults.append("disk_full")
            return ("err", errno.ENOSPC)
        if self.nofd and self.nofd[0] <= self.nops <= self.nofd[1] and kind in ("open", "creat"):
            self.fire("no_file_descriptors")
            t.faults.append("no_file_descriptors")
            return ("err", errno.EMFILE)
        return None

    KINDS = {
        "open": ("EIO", "EMFILE", "ENFILE"), "creat": ("EIO", "ENOSPC", "EMFILE", "EDQUOT"), "write": ("ENOSPC", "EIO", "shortw", "EDQUOT"),
        "read": ("EIO", "short"), "close": ("EIO",), "stat": ("EIO",), "rename": ("EIO", "ENOSPC"), "unlink": ("EIO", "EROFS"), "mkdir": ("ENOSPC", "EIO"),
        "lock": ("ENOLCK", "EIO"), "fsync": ("EIO", "ENOSPC"), "list": ("EIO", "EMFILE"), "trunc": ("EIO",), "seek": (), "unlock": (), "tlock": (), "sleep": (), "rmdir": ("EIO",), "link": ("EIO",),
    }

    def _applicable(self, kind, e, writes):
        a = self.KINDS.get(kind, ())
        if e in a:
            return e
        if not a:
            return None
        return a[sum(map(ord, e)) % len(a)]

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def _park(self, t):
        t.state = "dead"
        self._next(t)
        t.lock.acquire()          # for ever

    def kill(self, proc):
        proc.dead = True
        for fd in list(proc.fds):
            self._close_fd(fd)
        for t in proc.tasks:
            if t.state not in ("done",):
                t.state = "dead"

    def sleep(self, d):
        t = CUR
        t.state = "sleep"
        t.wake = self.now + max(d, 1e-6)
        self._next(t)

    # -------- descriptors
    def _new_fd(self, inode, flags, path):
        fd = self.next_fd
        self.next_fd += 1
        pr = CUR.proc if CUR is not None else None
        self.fds[fd] = OpenFile(inode, flags, pr, path)
        if pr is not None:
            pr.fds.add(fd)
        return fd

    def _close_fd(self, fd):
        of = self.fds.pop(fd)
        if of.proc is not None:
            of.proc.fds.discard(fd)
            if not of.nolock:
                of.inode.plock.pop(of.proc, None)      # POSIX: closing any descriptor of a file drops the process's locks on it
        of.inode.flocks.pop(of, None)

    def of(self, fd):
        o = self.fds.get(fd)
        if o is None or (o.proc is not None and CUR is not None and o.proc is not CUR.proc):
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return o


def err(no, path=None, path2=None):
    if path is None:
        raise OSError(no, os.strerror(no))
    raise OSError(no, os.strerror(no), path) if path2 is None else OSError(no, os.strerror(no), path, None, path2)


def fault(d, path=None):
    if d and d[0] == "err":
        err(d[1], path)


# ---------------------------------------------------------------- system calls

def s_open(path, flags, mode=0o777):
    m = MACHINE
    creating = bool(flags & os.O_CREAT)
    fault(m.point("creat" if creating else "open"), path)
    try:
        d, name = m.fs.parent(path)
    except OSError as e:
        if e.errno == errno.EBUSY:
            d, name = None, None
        else:
            err(e.errno, path)
    n = m.fs.root if d is None else d.kids.get(name)
    if n is None:
        if not creating:
            err(errno.ENOENT, path)
        n = Inode(m.fs, "f")
        n.mtime = m.now
        m.fs.change(d, {name: n})
    elif creating and flags & os.O_EXCL:
        err(errno.EEXIST, path)
    elif n.kind == "d" and (flags & (os.O_WRONLY | os.O_RDWR)):
        err(errno.EISDIR, path)
    elif n.kind == "f" and flags & os.O_DIRECTORY:
        err(errno.ENOTDIR, path)
    elif flags & os.O_TRUNC and n.kind == "f" and len(n.data):
        n.data = bytearray()
        n.log.append(("t", 0))
    return m._new_fd(n, flags, path)


def s_close(fd):
    m = MACHINE
    m.of(fd)
    d = m.point("close")
    if d and d[0] == "torn":
        d = None
    m._close_fd(fd)
    fault(d)


def s_read(fd, n, at=None):
    m = MACHINE
    o = m.of(fd)
    d = m.point("read")
    fault(d)
    if o.inode.kind == "d":
        err(errno.EISDIR)
    if (o.flags & 3) == os.O_WRONLY:
        err(errno.EBADF)
    pos = o.pos if at is None else at
    b = bytes(o.inode.data[pos:pos + n])
    if d and d[0] == "short" and len(b) > 1:
        b = b[:max(1, len(b) // 3)]
    if at is None:
        o.pos += len(b)
    return b


def s_write(fd, b, at=None):
    m = MACHINE
    o = m.of(fd)
    b = bytes(b)
    d = m.point("write", len(b))
    fault(d)
    if (o.flags & 3) == os.O_RDONLY:
        err(errno.EBADF)
    if d and d[0] == "shortw" and len(b) > 1:
        b = b[:max(1, len(b) // 2)]
    if d and d[0] == "torn":
        b = b[:int(len(b) * d[1])]
    i = o.inode
    pos = len(i.data) if o.flags & os.O_APPEND else (o.pos if at is None else at)
    if len(i.data) < pos:
        i.data.extend(bytes(pos - len(i.data)))
    i.data[pos:pos + len(b)] = b
    i.log.append(("w", pos, b))
    i.mtime = m.now
    if at is None:
        o.pos = pos + len(b)
    if d and d[0] == "torn":
        m.kill(CUR.proc)
        m._park(CUR)
    return len(b)


def s_lseek(fd, off, whence):
    m = MACHINE
    o = m.of(fd)
    base = {0: 0, 1: o.pos, 2: len(o.inode.data) if o.inode.kind == "f" else 0}[whence]
    if base + off < 0:
        err(errno.EINVAL)
    o.pos = base + off
    return o.pos


def s_truncate(fd, size):
    m = MACHINE
    o = m.of(fd)
    fault(m.point("trunc"))
    i = o.inode
    del i.data[size:]
    i.data.extend(bytes(size - len(i.data)))
    i.log.append(("t", size))


def s_fsync(fd):
    m = MACHINE
    o = m.of(fd)
    d = m.point("fsync")
    fault(d)
    o.inode.sync()


def statres(n, m):
    size = len(n.data) if n.kind == "f" else 4096
    mode = (stat_.S_IFREG if n.kind == "f" else stat_.S_IFDIR) | n.mode
    t = EPOCH + n.mtime
    return os.stat_result((mode, n.ino, 4242, n.nlink, 0, 0, size, int(t), int(t), int(t)))


def s_stat(path):
    m = MACHINE
    fault(m.point("stat"), path)
    try:
        return statres(m.fs.find(path), m)
    except OSError as e:
        err(e.errno, path)


def s_fstat(fd):
    return statres(MACHINE.of(fd).inode, MACHINE)


def s_rename(a, b):
    m = MACHINE
    fault(m.point("rename"), a)
    try:
        d, x = m.fs.parent(a)
        e, y = m.fs.parent(b)
        if x not in d.kids:
            err(errno.ENOENT)
    except OSError as ex:
        err(ex.errno, a, b)
    n = d.kids[x]
    o = e.kids.get(y)
    if o is n:
        return
    if o is not None:
        if o.kind == "d" and n.kind == "f":
            err(errno.EISDIR, a, b)
        if o.kind == "d" and o.kids:
            err(errno.ENOTEMPTY, a, b)
        if o.kind == "f" and n.kind == "d":
            err(errno.ENOTDIR, a, b)
    if d is e:
        m.fs.change(d, {x: None, y: n})
    else:
        m.fs.change(e, {y: n})
        m.fs.change(d, {x: None})


def s_unlink(path):
    m = MACHINE
    fault(m.point("unlink"), path)
    try:
        d, x = m.fs.parent(path)
        if x not in d.kids:
            err(errno.ENOENT)
        if d.kids[x].kind == "d":
            err(errno.EISDIR)
    except OSError as e:
        err(e.errno, path)
    d.kids[x].nlink -= 1
    m.fs.change(d, {x: None})


def s_link(a, b):
    m = MACHINE
    fault(m.point("link"), a)
    try:
        n = m.fs.find(a)
        d, x = m.fs.parent(b)
        if x in d.kids:
            err(errno.EEXIST)
    except OSError as e:
        err(e.errno, a, b)
    n.nlink += 1
    m.fs.change(d, {x: n})


def s_mkdir(path, mode=0o777):
    m = MACHINE
    fault(m.point("mkdir"), path)
    try:
        d, x = m.fs.parent(path)
        if x in d.kids:
            err(errno.EEXIST)
    except OSError as e:
        err(errno.EEXIST if e.errno == errno.EBUSY else e.errno, path)
    m.fs.change(d, {x: Inode(m.fs, "d")})


def s_rmdir(path):
    m = MACHINE
    fault(m.point("rmdir"), path)
    try:
        d, x = m.fs.parent(path)
        if x not in d.kids:
            err(errno.ENOENT)
        if d.kids[x].kind != "d":
            err(errno.ENOTDIR)
        if d.kids[x].kids:
            err(errno.ENOTEMPTY)
    except OSError as e:
        err(e.errno, path)
    m.fs.change(d, {x: None})


def s_listdir(path):
    m = MACHINE
    fault(m.point("list"), path)
    try:
        n = m.fs.find(path)
    except OSError as e:
        err(e.errno, path)
    if n.kind != "d":
        err(errno.ENOTDIR, path)
    return list(n.kids)


def s_lockf(fd, cmd, posix):
    """LOCK_EX / LOCK_SH / LOCK_UN (with LOCK_NB); whole files only"""
    m = MACHINE
    o = m.of(fd)
    # unlocking never fails. Where locking fails, fasteners leaves the descriptor to the garbage collector, whose
    # late close would drop a lock that another thread has got since; that is the lock library's affair
    d = m.point("unlock" if cmd & fcntl.LOCK_UN else "lock")
    if d and d[0] == "err":
        o.nolock = True
    fault(d)
    tab = o.inode.plock if posix else o.inode.flocks
    own = o.proc if posix else o
    if cmd & fcntl.LOCK_UN:
        tab.pop(own, None)
        return
    want = "x" if cmd & fcntl.LOCK_EX else "s"
    while True:
        if all(k is own or (want == "s" and v == "s") for k, v in tab.items()):
            tab[own] = want
            return
        if cmd & fcntl.LOCK_NB:
            m.fire("lock_contended")
            err(errno.EAGAIN)
        if m.direct:
            err(errno.EDEADLK)
        m.sleep(.001)


class SimRaw(io.RawIOBase):
    def __init__(self, fd, flags, name, mode, closefd=True):
        self._fd, self._flags, self.name, self._mode, self._cfd = fd, flags, name, mode, closefd

    @property
    def mode(self):
        return self._mode

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def fileno(self):
        self._chk()
        return self._fd

    def readable(self):
        self._chk()
        return (self._flags & 3) != os.O_WRONLY

    def writable(self):
        self._chk()
        return (self._flags & 3) != os.O_RDONLY

    def seekable(self):
        self._chk()
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation("File not open for reading")
        x = s_read(self._fd, len(b))
        b[:len(x)] = x
        return len(x)

    def write(self, b):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation("File not open for writing")
        return s_write(self._fd, b)

    def seek(self, off, whence=0):
        self._chk()
        return s_lseek(self._fd, off, whence)

    def tell(self):
        self._chk()
        return s_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self.tell()
        s_truncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                if CUR is not None and CUR.proc.dead:
                    return
                if self._cfd:
                    s_close(self._fd)
            finally:
                super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    modes = set(mode)
    text = "b" not in modes
    plus = "+" in modes
    base = [c for c in "rwax" if c in modes]
    if len(base) != 1 or modes - set("rwax+bt") or len(mode) > len(modes) or ("t" in modes and not text):
        raise ValueError("invalid mode: %r" % mode)
    b = base[0]
    flags = (os.O_RDWR if plus else os.O_RDONLY if b == "r" else os.O_WRONLY) | os.O_CLOEXEC
    flags |= {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[b]
    if isinstance(file, int):
        fd = file
        MACHINE.of(fd)
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = s_open(os.fsdecode(file), flags, 0o666)
    if fd < FD0:
        return _real["open"](fd, mode, buffering, encoding, errors, newline, closefd)
    if MACHINE.of(fd).inode.kind == "d":
        if closefd:
            MACHINE._close_fd(fd)
        err(errno.EISDIR, file if not isinstance(file, int) else None)
    raw = SimRaw(fd, flags, file, ("rb+" if plus else {"r": "rb", "w": "wb", "a": "ab", "x": "xb"}[b]), closefd)
    if b == "a":
        s_lseek(fd, 0, 2)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else MACHINE_BUF
    buf = io.BufferedRandom(raw, size) if plus else io.BufferedReader(raw, size) if b == "r" else io.BufferedWriter(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


MACHINE_BUF = 4096


class SimDirEntry:
    def __init__(self, d, name, inode):
        self.name, self.path, self._i = name, os.path.join(d, name), inode

    def is_dir(self, follow_symlinks=True):
        return self._i.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._i.kind == "f"

    def is_symlink(self):
        return False

    def inode(self):
        return self._i.ino

    def stat(self, follow_symlinks=True):
        return s_stat(self.path)

    def __fspath__(self):
        return self.path


class SimScandir:
    def __init__(self, path):
        names = s_listdir(path)
        d = MACHINE.fs.find(path)
        self._it = iter([SimDirEntry(path, n, d.kids[n]) for n in names if n in d.kids])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ---------------------------------------------------------------- locks

class SimLock:
    """threading.Lock / RLock of the code under test"""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        m, t = MACHINE, CUR
        if m is None or t is None or m.direct:
            if self.owner is not None and not (self.reentrant and self.owner is t):
                if not blocking:
                    return False
                raise RuntimeError("simulated lock is already held")
            self.owner, self.count = t or "direct", self.count + 1
            return True
        m.point("tlock")
        if self.reentrant and self.owner is t:
            self.count += 1
            return True
        end = None if timeout is None or timeout < 0 else m.now + timeout
        while self.owner is not None:
            m.fire("lock_contended")
            if not blocking:
                return False
            if end is not None:
                if m.now >= end:
                    return False
                m.sleep(min(.001, end - m.now))
                continue
            t.state, t.waits = "blocked", self
            m._next(t)
        self.owner, self.count = t, 1
        return True

    def release(self):
        m, t = MACHINE, CUR
        if self.owner is None or (self.reentrant and self.owner is not t and t is not None):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count > 0:
            return
        self.owner, self.count = None, 0
        if m is not None:
            for x in m.tasks:
                if x.state == "blocked" and x.waits is self:
                    x.state, x.waits = "run", None
            if t is not None and not m.direct:
                m.point("tlock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is not None and self.owner is CUR

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True


# ---------------------------------------------------------------- interposition

_real = {}


def active():
    return CUR is not None and MACHINE is not None


def ours(p):
    if isinstance(p, (bytes, str)) or hasattr(p, "__fspath__"):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p == ROOT or p.startswith(ROOT + "/") else None
    return None


def install():
    """patches the standard library; to be called before the code under test is imported"""
    if _real:
        return
    R = _real
    R["open"] = builtins.open
    for n in ("open close read write pread pwrite lseek fsync fdatasync ftruncate truncate stat lstat fstat replace rename remove unlink mkdir rmdir listdir scandir access utime chmod link "
              "getpid urandom fdopen sendfile readv writev sync").split():
        R["os." + n] = getattr(os, n)
    for n in ("lockf", "flock", "fcntl"):
        R["fcntl." + n] = getattr(fcntl, n)
    for n in "time monotonic perf_counter sleep time_ns monotonic_ns perf_counter_ns".split():
        R["time." + n] = getattr(time, n)
    R["Lock"], R["RLock"], R["alloc"] = threading.Lock, threading.RLock, threading._allocate_lock

    def p_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if active():
            if isinstance(file, int):
                if file >= FD0:
                    return sim_open(file, mode, buffering, encoding, errors, newline, closefd)
            elif ours(file):
                return sim_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = io.open = p_open

    def path1(name, sim):
        real = R["os." + name]

        def f(path, *a, **k):
            if active():
                if isinstance(path, int) and path >= FD0:
                    return {"stat": s_fstat, "truncate": s_truncate}[name](path, *a)
                p = ours(path)
                if p:
                    return sim(p, *a, **k)
            return real(path, *a, **k)
        setattr(os, name, f)

    path1("open", lambda p, flags, mode=0o777, dir_fd=None: s_open(p, flags, mode))
    path1("stat", lambda p, dir_fd=None, follow_symlinks=True: s_stat(p))
    path1("lstat", lambda p, dir_fd=None: s_stat(p))
    path1("remove", lambda p, dir_fd=None: s_unlink(p))
    path1("unlink", lambda p, dir_fd=None: s_unlink(p))
    path1("mkdir", lambda p, mode=0o777, dir_fd=None: s_mkdir(p))
    path1("rmdir", lambda p, dir_fd=None: s_rmdir(p))
    path1("utime", lambda p, *a, **k: None)
    path1("chmod", lambda p, *a, **k: None)

    def s_access(p, mode, **k):
        try:
            s_stat(p)
            return True
        except OSError:
            return False
    path1("access", s_access)

    def s_trunc_path(p, n):
        fd = s_open(p, os.O_WRONLY)
        s_truncate(fd, n)
        s_close(fd)
    path1("truncate", s_trunc_path)

    def path2(name, sim):
        real = R["os." + name]

        def f(a, b, **k):
            if active() and ours(a) and ours(b):
                return sim(ours(a), ours(b))
            return real(a, b, **k)
        setattr(os, name, f)
    path2("replace", s_rename)
    path2("rename", s_rename)
    path2("link", s_link)

    def p_listdir(path="."):
        if active() and ours(path):
            return s_listdir(ours(path))
        return R["os.listdir"](path)
    os.listdir = p_listdir

    def p_scandir(path="."):
        if active() and ours(path):
            return SimScandir(ours(path))
        return R["os.scandir"](path)
    os.scandir = p_scandir

    def fd1(name, sim):
        real = R["os." + name]

        def f(fd, *a, **k):
            if active() and isinstance(fd, int) and fd >= FD0:
                return sim(fd, *a)
            return real(fd, *a, **k)
        setattr(os, name, f)
    fd1("close", s_close)
    fd1("read", s_read)
    fd1("write", s_write)
    fd1("pread", lambda fd, n, off: s_read(fd, n, off))
    fd1("pwrite", lambda fd, b, off: s_write(fd, b, off))
    fd1("lseek", lambda fd, o, w: s_lseek(fd, o, w))
    fd1("ftruncate", s_truncate)
    fd1("fstat", s_fstat)

    def p_fsync(fd):
        if active():
            n = fd if isinstance(fd, int) else fd.fileno()
            if n >= FD0:
                return s_fsync(n)
        return R["os.fsync"](fd)
    os.fsync = os.fdatasync = p_fsync

    def p_sync():
        if active():
            MACHINE.fs.sync_all()
            return
        return R["os.sync"]()
    os.sync = p_sync

    def p_sendfile(out, inp, off, count, *a, **k):
        if active() and (out >= FD0 or inp >= FD0):
            err(errno.EINVAL)
        return R["os.sendfile"](out, inp, off, count, *a, **k)
    os.sendfile = p_sendfile

    def p_fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
        return p_open(fd, mode, buffering, encoding, *a, **k)
    os.fdopen = p_fdopen

    def p_getpid():
        return 5000 + CUR.proc.pid if active() else R["os.getpid"]()
    os.getpid = p_getpid

    def p_urandom(n):
        return MACHINE.urng.randbytes(n) if active() else R["os.urandom"](n)
    os.urandom = p_urandom

    def flock_like(name, posix):
        real = R["fcntl." + name]

        def f(fd, cmd, *a):
            if active():
                n = fd if isinstance(fd, int) else fd.fileno()
                if n >= FD0:
                    return s_lockf(n, cmd, posix)
            return real(fd, cmd, *a)
        setattr(fcntl, name, f)
    flock_like("lockf", True)
    flock_like("flock", False)

    def clock(name, off, scale):
        real = R["time." + name]

        def f():
            if active() and not MACHINE.direct:
                x = off + MACHINE.now
                return int(x * 1e9) if scale else x
            return real()
        setattr(time, name, f)
    for n, o in (("time", EPOCH), ("monotonic", 100.), ("perf_counter", 10.)):
        clock(n, o, 0)
        clock(n + "_ns", o, 1)

    def p_sleep(d):
        if active() and not MACHINE.direct:
            MACHINE.point("sleep")
            return MACHINE.sleep(d)
        return R["time.sleep"](d)
    time.sleep = p_sleep

    def mk(cls, real):
        # locks created by the modules under test while they are imported, or by tasks, are simulated
        def f():
            if IMPORTING or active():
                l = cls()
                if IMPORTING:
                    LOCKS.append(l)
                return l
            return real()
        return f
    threading.Lock = mk(SimLock, R["Lock"])
    threading.RLock = mk(SimRLock, R["RLock"])
    threading._allocate_lock = mk(SimLock, R["alloc"])

    class Names(tempfile._RandomNameSequence):
        @property
        def rng(self):
            if active():
                return MACHINE.urng
            return super().rng
    tempfile._RandomNameSequence = Names


IMPORTING = False
LOCKS = []


def load_module(path, name="minorminer.busclique"):
    """a private copy of an extension module: the module-level state of one simulated process"""
    global IMPORTING
    import importlib.util, importlib.machinery
    IMPORTING = True
    try:
        loader = importlib.machinery.ExtensionFileLoader(name, path)
        spec = importlib.util.spec_from_file_location(name, path, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        loader.exec_module(mod)
    finally:
        IMPORTING = False
    return mod


class direct:
    """with direct(fs, proc): file operations go to fs at once, without scheduling or faults"""

    def __init__(self, fs, module):
        self.m = Machine(fs)
        self.p = Proc(99, module)
        self.t = Task(0, self.p, None)

    def __enter__(self):
        global MACHINE, CUR
        self.old = MACHINE, CUR
        MACHINE, CUR = self.m, self.t
        if self.p.module is not None:
            sys.modules["minorminer.busclique"] = self.p.module
        return self.m

    def __exit__(self, *a):
        global MACHINE, CUR
        MACHINE, CUR = self.old
