#!/usr/bin/env python3
"""Deterministic simulation of /repo/utilities/select_silos.py (property C25).

The script's text is compiled from /repo's working tree and run, unmodified,
in this process.  Its only ways out - os, shutil, time, open, the environment
and the cryptography package - are a simulated world: file system, clock and
failures are decided by one seed.  A run is killed by raising in the system
call and ignoring everything it does from then on; only the simulated file
system survives it.

backup.py run SEED SECS [STEP]      search; one JSON report per violation
backup.py one SEED [FILE]           one episode, optionally written as replay
backup.py replay FILE               run a replay file
"""
import sys, os, io, json, types, random, hashlib, hmac as _hmac, time, errno, posixpath, stat as _stat, builtins, copy

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AA_REPO", "/repo")
SRC = os.path.join(REPO, "utilities", "select_silos.py")

class Killed(BaseException):
    pass
class Unsimulated(BaseException):
    pass

# ---------------------------------------------------------------- contents
_streams = {}
def content(key, n):
    """The first n bytes of a silo: silos only ever grow."""
    s = _streams.get(key, b"")
    if len(s) < n:
        s = hashlib.shake_128(repr(key).encode()).digest(max(n, 2 * len(s), 4096))
        _streams[key] = s
    return s[:n]

def keystream(key, iv, n):
    return hashlib.shake_128(b"AES-CTR" + bytes(key) + b"/" + bytes(iv)).digest(n)

def xor(a, b):
    n = len(a)
    return (int.from_bytes(a, "big") ^ int.from_bytes(b[:n], "big")).to_bytes(n, "big")

# ---------------------------------------------------------------- world
class Node:
    __slots__ = ("d", "b", "ino", "silo", "mtime")
    def __init__(self, isdir, ino):
        self.d = {} if isdir else None
        self.b = None if isdir else bytearray()
        self.ino = ino
        self.silo = None
        self.mtime = 1690000000.0

class World:
    def __init__(self):
        self.inos = 1
        self.root = Node(True, 1)
        self.clock = 1700000000.0
        self.step = 0
        self.dead = False
        self.hung = False
        self.plan = {}
        self.fired = []
        self.trace = hashlib.sha256()
        self.watch = None
        self.touched = None
        self.env = {}
        self.log = None
        self.last = None
        self.fds = {}
        self.hook = None
        self.random = random.Random(0)
        self.calls = 0
    def node(self, isdir):
        self.inos += 1
        return Node(isdir, self.inos)
    # the seam: every call of the script comes through here
    def sys(self, call, path="", mut=False, real=True):
        if self.dead:
            raise Killed()
        self.step += 1
        self.calls += 1
        if self.step > 50000:
            self.dead = self.hung = True
            raise Killed()
        self.clock += 0.004
        self.trace.update(("%s %s\n" % (call, path)).encode())
        if self.log is not None:
            self.log.append("%4d %s %s" % (self.step, call, path))
        act = self.plan.get(self.step)
        if act:
            do = act["do"]
            if do == "kill":
                self.fired.append("kill")
                self.dead = True
                raise Killed()
            if do == "error" and call not in ("time", "umask", "close"):
                self.fired.append("error")
                e = act["errno"]
                raise OSError(e, os.strerror(e), path)
            if do == "full" and call == "write":
                self.fired.append("full")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            if do in ("grow", "growlast", "clock", "new"):
                self.fired.append(do)
                self.hook(act)
        if call == "openr" and path.endswith(".warc.gz"):
            self.last = path
        if mut and self.watch and (path == self.watch or path.startswith(self.watch + "/")):
            self.touched = "%s of %s" % (call, path)
    def abs(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        if not p:
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        return posixpath.normpath(posixpath.join("/home/stevedore", p))
    def err(self, e, p):
        return OSError(e, os.strerror(e), p)
    def find(self, p, must=True):
        n = self.root
        for c in self.abs(p).split("/"):
            if not c:
                continue
            if n.d is None:
                raise self.err(errno.ENOTDIR, p)
            n = n.d.get(c)
            if n is None:
                if must:
                    raise self.err(errno.ENOENT, p)
                return None
        return n
    def parent(self, p):
        a = self.abs(p)
        n = self.find(posixpath.dirname(a))
        if n.d is None:
            raise self.err(errno.ENOTDIR, p)
        return n, posixpath.basename(a)
    # used by the environment, not by the script
    def put(self, p, data=None):
        n = self.root
        parts = [c for c in self.abs(p).split("/") if c]
        for c in parts[:-1]:
            n = n.d.setdefault(c, None) or n.d.__setitem__(c, self.node(True)) or n.d[c]
        if data is None:
            if parts[-1] not in n.d:
                n.d[parts[-1]] = self.node(True)
        else:
            f = self.node(False)
            f.b[:] = data
            n.d[parts[-1]] = f
        return n.d[parts[-1]]

class Raw(io.RawIOBase):
    def __init__(self, w, node, path, r, wr, app):
        self.w, self.n, self.p, self.r, self.wr, self.app, self.o = w, node, path, r, wr, app, 0
        w.inos += 1
        self.fd = w.inos
        w.fds[self.fd] = self
        self.name, self.mode = path, "wb" if wr else "rb"
    def readable(self): return self.r
    def writable(self): return self.wr
    def seekable(self): return True
    def fileno(self): return self.fd
    def isatty(self): return False
    def readinto(self, b):
        self.w.sys("read", self.p)
        d = self.n.b[self.o:self.o + len(b)]
        b[:len(d)] = d
        self.o += len(d)
        return len(d)
    def write(self, b):
        act = self.w.plan.get(self.w.step + 1)
        d = bytes(b)
        if act and act["do"] == "short" and len(d) > 1 and not self.w.dead:
            d = d[:max(1, len(d) // 2)]
            self.w.fired.append("short")
        self.w.sys("write", self.p, True)
        if self.app:
            self.o = len(self.n.b)
        if len(self.n.b) < self.o:
            self.n.b.extend(b"\0" * (self.o - len(self.n.b)))
        self.n.b[self.o:self.o + len(d)] = d
        self.o += len(d)
        return len(d)
    def seek(self, off, whence=0):
        self.o = off if whence == 0 else self.o + off if whence == 1 else len(self.n.b) + off
        return self.o
    def tell(self): return self.o
    def truncate(self, size=None):
        size = self.o if size is None else size
        self.w.sys("truncate", self.p, True)
        del self.n.b[size:]
        self.n.b.extend(b"\0" * (size - len(self.n.b)))
        return size
    def close(self):
        if not self.closed:
            self.w.fds.pop(self.fd, None)
        super().close()

def sim_open(w):
    def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            raise Unsimulated("open of a descriptor")
        p = w.abs(file)
        m = mode.replace("t", "").replace("U", "")
        bin_ = "b" in m
        m = m.replace("b", "")
        plus = "+" in m
        m = m.replace("+", "")
        if m not in ("r", "w", "a", "x"):
            raise ValueError("invalid mode: %r" % mode)
        w.sys("open" + m, p, m != "r")
        d, name = w.parent(p)
        n = d.d.get(name)
        if n is None:
            if m == "r":
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
            n = d.d[name] = w.node(False)
        else:
            if m == "x":
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), file)
            if n.d is not None:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
            if m == "w":
                del n.b[:]
        raw = Raw(w, n, p, m == "r" or plus, m != "r" or plus, m == "a")
        if buffering == 0 and bin_:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        b = io.BufferedRandom(raw, size) if plus else io.BufferedReader(raw, size) if m == "r" else io.BufferedWriter(raw, size)
        if bin_:
            return b
        return io.TextIOWrapper(b, encoding or "utf-8", errors, newline, buffering == 1)
    return open_

def fake_modules(w):
    fs = {}
    def stat(p, *, dir_fd=None, follow_symlinks=True):
        if isinstance(p, int):
            n = w.fds[p].n
            w.sys("fstat", w.fds[p].p)
        else:
            a = w.abs(p)
            w.sys("stat", a)
            n = w.find(a)
        m = (0o40755 if n.d is not None else 0o100640)
        return os.stat_result((m, n.ino, 1, 1, 700, 700, 4096 if n.d is not None else len(n.b), n.mtime, n.mtime, n.mtime))
    def listdir(p="."):
        a = w.abs(p)
        w.sys("listdir", a)
        n = w.find(a)
        if n.d is None:
            raise w.err(errno.ENOTDIR, p)
        l = sorted(n.d)
        w.random.shuffle(l)
        return l
    class Entry:
        def __init__(self, d, name):
            self.name = name
            self.path = posixpath.join(d, name)
            self.n = w.find(self.path)
        def is_dir(self, *, follow_symlinks=True): return self.n.d is not None
        def is_file(self, *, follow_symlinks=True): return self.n.d is None
        def is_symlink(self): return False
        def inode(self): return self.n.ino
        def stat(self, *, follow_symlinks=True): return stat(self.path)
        def __fspath__(self): return self.path
    class Scan:
        def __init__(self, p): self.i = iter([Entry(os.fspath(p), x) for x in listdir(p)])
        def __iter__(self): return self.i
        def __next__(self): return next(self.i)
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass
    def walk(top, topdown=True, onerror=None, followlinks=False):
        top = os.fspath(top)
        try:
            l = listdir(top)
        except OSError as e:
            if onerror is not None:
                onerror(e)
            return
        dirs = [x for x in l if w.find(posixpath.join(top, x)).d is not None]
        files = [x for x in l if x not in dirs]
        if topdown:
            yield top, dirs, files
        for x in dirs:
            yield from walk(posixpath.join(top, x), topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files
    def mkdir(p, mode=0o777, *, dir_fd=None):
        a = w.abs(p)
        w.sys("mkdir", a, True)
        d, name = w.parent(a)
        if name in d.d:
            raise w.err(errno.EEXIST, p)
        d.d[name] = w.node(True)
    def makedirs(name, mode=0o777, exist_ok=False):
        a = w.abs(name)
        if w.find(posixpath.dirname(a), False) is None:
            makedirs(posixpath.dirname(a), exist_ok=True)
        try:
            mkdir(a, mode)
        except OSError:
            n = w.find(a, False)
            if not exist_ok or n is None or n.d is None:
                raise
    def rename(a, b, *, src_dir_fd=None, dst_dir_fd=None):
        a, b = w.abs(a), w.abs(b)
        w.sys("rename", a + " " + b)
        s, sn = w.parent(a)
        n = s.d.get(sn)
        if n is None:
            raise w.err(errno.ENOENT, a)
        t, tn = w.parent(b)
        o = t.d.get(tn)
        if o is n:
            return
        if o is not None:
            if n.d is None and o.d is not None:
                raise w.err(errno.EISDIR, b)
            if n.d is not None and o.d is None:
                raise w.err(errno.ENOTDIR, b)
            if o.d:
                raise w.err(errno.ENOTEMPTY, b)
        del s.d[sn]
        t.d[tn] = n
    def unlink(p, *, dir_fd=None):
        a = w.abs(p)
        w.sys("unlink", a, True)
        d, name = w.parent(a)
        n = d.d.get(name)
        if n is None:
            raise w.err(errno.ENOENT, p)
        if n.d is not None:
            raise w.err(errno.EISDIR, p)
        del d.d[name]
    def rmdir(p, *, dir_fd=None):
        a = w.abs(p)
        w.sys("rmdir", a, True)
        d, name = w.parent(a)
        n = d.d.get(name)
        if n is None:
            raise w.err(errno.ENOENT, p)
        if n.d is None:
            raise w.err(errno.ENOTDIR, p)
        if n.d:
            raise w.err(errno.ENOTEMPTY, p)
        del d.d[name]
    def link(a, b, **k):
        a, b = w.abs(a), w.abs(b)
        w.sys("link", a + " " + b, False)
        n = w.find(a)
        t, tn = w.parent(b)
        if tn in t.d:
            raise w.err(errno.EEXIST, b)
        t.d[tn] = n
    def nothing(name):
        def f(*a, **k):
            w.sys(name)
            return 0o22 if name == "umask" else None
        return f
    def access(p, m, **k):
        w.sys("access", w.abs(p))
        return w.find(p, False) is not None
    pure = {"fspath", "fsencode", "fsdecode", "strerror", "get_exec_path", "PathLike", "stat_result"}
    o = types.ModuleType("os")
    def refuse(name):
        def f(*a, **k):
            raise Unsimulated("os." + name)
        return f
    for k in dir(os):
        v = getattr(os, k)
        if k.startswith("__"):
            continue
        setattr(o, k, refuse(k) if callable(v) and not isinstance(v, type) and k not in pure else v)
    for f in (stat, listdir, walk, mkdir, makedirs, rename, unlink, rmdir, link, access):
        setattr(o, f.__name__, f)
    o.lstat, o.fstat, o.scandir, o.replace, o.remove = stat, stat, Scan, rename, unlink
    for k in ("umask", "fsync", "fdatasync", "sync", "chmod", "chown", "utime", "nice", "setgid", "setuid", "close"):
        setattr(o, k, nothing(k))
    o.getcwd = lambda: "/home/stevedore"
    o.getpid = lambda: 4711
    o.getuid = o.geteuid = o.getgid = lambda: 700
    o.environ = w.env
    o.getenv = lambda k, d=None: w.env.get(k, d)
    pa = types.ModuleType("posixpath")
    for k in dir(posixpath):
        setattr(pa, k, getattr(posixpath, k))
    def test(fn):
        def f(p):
            w.sys("stat", w.abs(p))
            try:
                n = w.find(p, False)
            except OSError:
                return False
            return n is not None and fn(n)
        return f
    pa.exists = pa.lexists = test(lambda n: True)
    pa.isdir, pa.isfile, pa.islink, pa.ismount = test(lambda n: n.d is not None), test(lambda n: n.d is None), test(lambda n: False), test(lambda n: False)
    pa.getsize = lambda p: stat(p).st_size
    pa.getmtime = pa.getctime = pa.getatime = lambda p: stat(p).st_mtime
    pa.abspath = pa.realpath = lambda p, **k: w.abs(p)
    o.path = pa
    sh = types.ModuleType("shutil")
    def rmtree(path, ignore_errors=False, onerror=None, *, onexc=None, dir_fd=None):
        def rm(p):
            try:
                l = listdir(p)
            except OSError as e:
                bad(p, e)
                return
            for x in l:
                q = posixpath.join(p, x)
                if w.find(q).d is not None:
                    rm(q)
                else:
                    try:
                        unlink(q)
                    except OSError as e:
                        bad(q, e)
            try:
                rmdir(p)
            except OSError as e:
                bad(p, e)
        def bad(p, e):
            if ignore_errors:
                return
            if onerror is not None:
                onerror(None, p, (type(e), e, None))
            elif onexc is not None:
                onexc(None, p, e)
            else:
                raise e
        path = os.fspath(path)
        try:
            n = w.find(path, False)
        except OSError:
            n = None
        if n is None or n.d is None:
            w.sys("stat", w.abs(path))
            bad(path, w.err(errno.ENOENT, path))
            return
        rm(path)
    op = sim_open(w)
    def copyfile(a, b, **k):
        with op(a, "rb") as f, op(b, "wb") as g:
            while True:
                x = f.read(65536)
                if not x:
                    return b
                g.write(x)
    def copy_(a, b, **k):
        n = w.find(b, False)
        return copyfile(a, posixpath.join(b, posixpath.basename(a)) if n is not None and n.d is not None else b)
    def move(a, b, **k):
        rename(a, b)
        return b
    import shutil as _sh
    sh.rmtree, sh.copyfile, sh.copy, sh.copy2, sh.move, sh.copyfileobj, sh.Error = rmtree, copyfile, copy_, copy_, move, _sh.copyfileobj, OSError
    tm = types.ModuleType("time")
    for k in dir(time):
        if not k.startswith("__"):
            setattr(tm, k, getattr(time, k))
    def now():
        w.sys("time")
        return w.clock
    def sleep(s):
        w.sys("time")
        w.clock += s
    tm.time, tm.sleep = now, sleep
    tm.time_ns = lambda: int(now() * 1e9)
    tm.monotonic = now
    # cryptography: hashes and HMAC are real, AES-CTR is a stand-in stream cipher
    def need(b):
        if not isinstance(b, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required")
        return bytes(b)
    class SHA256: name = "sha256"
    class Hash:
        def __init__(self, a, backend=None):
            assert isinstance(a, SHA256)
            self.h = hashlib.sha256()
        def update(self, d): self.h.update(need(d))
        def finalize(self):
            h, self.h = self.h, None
            return h.digest()
    class HMAC:
        def __init__(self, key, a, backend=None):
            assert isinstance(a, SHA256)
            self.h = _hmac.new(need(key), b"", hashlib.sha256)
        def update(self, d): self.h.update(need(d))
        def finalize(self):
            h, self.h = self.h, None
            return h.digest()
        def verify(self, s):
            if self.finalize() != s:
                raise ValueError("InvalidSignature")
    class AES:
        def __init__(self, key):
            self.key = need(key)
            if len(self.key) not in (16, 24, 32):
                raise ValueError("Invalid key size")
    class CTR:
        def __init__(self, nonce):
            self.nonce = need(nonce)
            if len(self.nonce) != 16:
                raise ValueError("Invalid nonce size")
    class Ctx:
        def __init__(self, key, iv): self.key, self.iv, self.o, self.end = key, iv, 0, False
        def update(self, d):
            d = need(d)
            if self.end:
                raise ValueError("AlreadyFinalized")
            k = keystream(self.key, self.iv, self.o + len(d))[self.o:]
            self.o += len(d)
            return xor(d, k) if d else b""
        def finalize(self):
            self.end = True
            return b""
    class Cipher:
        def __init__(self, a, m, backend=None): self.a, self.m = a, m
        def encryptor(self): return Ctx(self.a.key, self.m.nonce)
        decryptor = encryptor
    mods = {}
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        mods[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(mods[p], c, m)
        return m
    mod("cryptography")
    mod("cryptography.exceptions", InvalidSignature=ValueError)
    mod("cryptography.hazmat")
    mod("cryptography.hazmat.backends", default_backend=lambda: None)
    mod("cryptography.hazmat.primitives")
    mod("cryptography.hazmat.primitives.hashes", SHA256=SHA256, Hash=Hash)
    mod("cryptography.hazmat.primitives.hmac", HMAC=HMAC)
    mod("cryptography.hazmat.primitives.ciphers", Cipher=Cipher)
    mod("cryptography.hazmat.primitives.ciphers.algorithms", AES=AES)
    mod("cryptography.hazmat.primitives.ciphers.modes", CTR=CTR)
    fio = types.ModuleType("io")
    for k in dir(io):
        if not k.startswith("__"):
            setattr(fio, k, getattr(io, k))
    fio.open = op
    fsys = types.ModuleType("sys")
    for k in dir(sys):
        if not k.startswith("__"):
            setattr(fsys, k, getattr(sys, k))
    fsys.argv = ["select_silos.py"]
    fsys.stdout = fsys.stderr = io.StringIO()
    mods.update({"os": o, "os.path": pa, "posixpath": pa, "shutil": sh, "time": tm, "io": fio, "sys": fsys})
    ok = {"math", "hashlib", "struct", "re", "json", "errno", "functools", "itertools", "collections", "contextlib", "operator", "binascii", "base64", "string", "typing", "dataclasses", "stat", "heapq", "enum", "hmac", "__future__", "argparse", "types", "datetime"}
    real = builtins.__import__
    def imp(name, g=None, l=None, fromlist=(), level=0):
        if name in mods:
            if fromlist:
                return mods[name]
            return mods[name.split(".")[0]]
        if name.split(".")[0] in ok:
            return real(name, g, l, fromlist, level)
        raise Unsimulated("import " + name)
    b = dict(vars(builtins))
    b["open"], b["__import__"] = op, imp
    b["print"] = lambda *a, **k: None
    return b

_code = {}
def program():
    if SRC not in _code:
        _code[SRC] = compile(open(SRC, encoding="utf-8").read(), "select_silos.py", "exec")
    return _code[SRC]

def run_script(w, plan):
    """One run of the script: returns 'ok', 'failed: ...' or 'killed'."""
    w.step, w.dead, w.plan, w.fired = 0, False, {p["at"]: p for p in plan}, []
    import gc
    res = "ok"
    ns = {"__name__": "__main__", "__builtins__": fake_modules(w), "__file__": "select_silos.py"}
    try:
        exec(program(), ns)
    except Killed:
        res = "killed"
    except SystemExit as e:
        if e.code not in (None, 0):
            res = "failed: exit %s" % (e.code,)
    except Exception as e:
        res = "failed: %s: %s" % (type(e).__name__, e)
        e.__traceback__ = None
        del e
    if res == "killed" or w.dead:
        w.dead = True
        res = "killed"
    # the interpreter ends: files still open are flushed and closed, unless it was killed
    ns.clear()
    del ns
    gc.collect()
    if w.dead:
        res = "does not end" if w.hung else "killed"
    w.fds.clear()
    w.plan = {}
    return res

# ---------------------------------------------------------------- episodes
def generate(seed):
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4, 6, 9, 14]) if r.random() > 0.02 else 0
    big = r.choice([300, 3000, 70000, 140000])
    def size():
        x = r.random()
        return r.choice([1, 65535, 65536, 65537, 131072, 8192, 4096]) if x < 0.2 else r.randrange(1, big)
    silos, num = [], 0
    for i in range(n):
        num += 1 if r.random() < 0.85 else r.choice([r.randrange(1, 150), r.randrange(1, 150), r.randrange(9900, 10300)])
        silos.append({"n": num - 1, "size": size()})
    dflt = r.random() < 0.15
    top = max([s["size"] for s in silos] + [10000 if not silos else 0])
    total = sum(s["size"] for s in silos)
    ep = {"backup": 1, "seed": seed, "silos": silos, "default_env": dflt, "junk": r.random() < 0.6,
          "quota": r.choice([total * 3 + 200000, int(total * 1.2) + 1, max(top, total // 2), max(top, total // 3), total, top]), "runs": []}
    faulty = r.random() < 0.75
    steady = r.random() < 0.75
    for i in range(r.randrange(1, 8)):
        pre, plan = [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.7:
                pre.append({"do": "grow", "i": r.randrange(100), "by": r.choice([1, 100, 5000, r.randrange(1, big)])})
            else:
                pre.append({"do": "new", "gap": r.choice([1, 1, 1, 2, 40]), "size": size()})
        pre.append({"do": "clock", "by": (86400.0 if steady else r.choice([86400.0, 3600.0, 0.0, -86400.0 * 3, -5.0, 86400.0 * 400]))})
        if faulty and r.random() < 0.7:
            what = r.random()
            at = r.randrange(1, 40 + 30 * n) if r.random() < 0.6 else None
            if what < 0.5:
                plan.append({"at": at or -r.randrange(0, 25), "do": "kill"})
            elif what < 0.8:
                plan.append({"at": at or -r.randrange(0, 25), "do": "error", "errno": r.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.ENOMEM])})
            elif what < 0.9:
                # the disk is full from here on
                plan.append({"at": at or -r.randrange(0, 25), "do": "full", "for": r.choice([1, 3, 1000])})
            else:
                plan.append({"at": at or -r.randrange(0, 25), "do": "short"})
        if r.random() < 0.4:
            plan.append({"at": r.randrange(1, 30 + 12 * n), "do": r.choice(["grow", "growlast"]), "i": r.randrange(100), "by": r.choice([1, 5000, 5000])})
        ep["runs"].append({"pre": pre, "plan": plan, "shuffle": r.randrange(1 << 30)})
    return ep

def expand(plan, length):
    """Resolve positions counted from the end of the run; a full disk stays full."""
    out = []
    for p in plan:
        at = p["at"] if p["at"] > 0 else max(1, length + p["at"])
        if p["do"] == "full":
            out += [{"at": a, "do": "full"} for a in range(at, at + p["for"])]
        else:
            out.append(dict(p, at=at))
    return out

class Episode:
    def __init__(self, ep, log=False):
        self.ep, self.fails, self.w = ep, [], World()
        self.stats = {"runs": 0, "faults": {}, "results": {}, "calls": 0, "selection_checks": 0, "staged_verified": 0, "liveness_runs": 0, "sim_s": 0.0}
        self.log = [] if log else None
        self.states = set()
    def fail(self, cls, msg):
        self.fails.append({"class": cls, "msg": msg, "run": self.runno})
    def setup(self):
        w, ep = self.w, self.ep
        self.runno = -1
        r = random.Random(ep["seed"] ^ 0x5bd1e995)
        self.key, self.skey = bytes(r.randrange(256) for _ in range(32)), bytes(r.randrange(256) for _ in range(16))
        if ep["default_env"]:
            self.staging, self.dir = "/tmp/BackupStaging", "/bitstore/BitStore"
            self.quota = 10 << 30
        else:
            self.staging, self.dir = "/var/spool/aa/Staging", "/data/silos"
            self.quota = ep["quota"]
            w.env.update({"AA_STAGING": self.staging, "AA_SILODIR": self.dir, "AA_QUOTA": str(self.quota)})
        w.put("/home/stevedore/secrets.txt", (self.key.hex() + ("\n" if r.random() < 0.5 else " ") + self.skey.hex() + "\n").encode())
        w.put(self.dir)
        w.put(posixpath.dirname(self.staging))
        self.silos = {}
        for s in ep["silos"]:
            self.new(s["n"], s["size"])
        if ep["junk"]:
            for f, d in (("index.sorted", b"Aa" * 500), ("index.appendix", b"x" * 64), ("_.cache", b"\0" * 8), ("index.hold", b""),
                         ("0/%02d.junk" % 3, b"j"), ("0/99999999.warc.gz.hold", b"unfinished"), ("0/00000000.warc.gz_", b"rebuilt")):
                w.put(self.dir + "/" + f, d)
        w.hook = self.env
        self.pub = {}      # silo -> size in the last published staging which had it
        self.rec = {}      # silo -> (least, greatest size which may be noted as staged, time or None if uncertain)
        self.now = {}
        self.steady = True
    def fn(self, n):
        return "%08u.warc.gz" % n
    def dirof(self, n):
        return "0/" if n < 100 else "1/%02u/" % (n // 100) if n < 10000 else "2/%02u/%02u/" % (n // 10000 % 100, n // 100 % 100)
    def new(self, n, size):
        d = self.dirof(n)
        node = self.w.put(self.dir + "/" + d + self.fn(n), content(n, size))
        node.silo = n
        node.mtime = self.w.clock
        self.silos[n] = node
    def env(self, a):
        if a["do"] == "clock":
            self.w.clock += a["by"]
            if a["by"] < 3600:
                self.steady = False
        elif a["do"] in ("grow", "growlast"):
            if not self.silos:
                return
            n = sorted(self.silos)[a["i"] % len(self.silos)]
            if a["do"] == "growlast":
                # the silo opened last, if it is one
                m = [x for x in self.silos if self.w.last and self.w.last.endswith("/" + self.fn(x))]
                n = m[0] if m else n
            s = self.silos[n]
            size = len(s.b) + a["by"]
            if size <= self.quota:
                s.b[:] = content(n, size)
                s.mtime = self.w.clock
                self.grown = True
        elif a["do"] == "new":
            if a["size"] <= self.quota:
                self.new(max(self.silos, default=-1) + a["gap"], a["size"])
                self.grown = True
    def verify(self, where, sizes0=None):
        """Every file of a staging directory is what it should be; returns {silo: size} or None."""
        d = self.w.find(where, False)
        if d is None or d.d is None:
            return None
        out, want = {}, set()
        byname = {self.fn(n): n for n in self.silos}
        for f in sorted(d.d):
            if not f.endswith(".warc.gz.bin"):
                continue
            src = f[:-4]
            if src not in byname:
                self.fail("staged-foreign", "%s/%s is not a silo" % (where, f))
                continue
            n = byname[src]
            data = bytes(d.d[f].b)
            want |= {f, f + ".sha256", f + ".hmac"}
            iv = _hmac.new(self.skey, src.encode(), hashlib.sha256).digest()[:16]
            plain = xor(data, keystream(self.key, iv, len(data))) if data else b""
            if plain != content(n, len(plain)) or len(plain) > len(self.silos[n].b):
                self.fail("staged-content", "%s/%s does not decrypt to the silo's content (%d bytes)" % (where, f, len(data)))
            for suf, exp in ((".sha256", "SHA256 (%s) = %s\n" % (f, hashlib.sha256(data).hexdigest())),
                             (".hmac", _hmac.new(self.skey, data, hashlib.sha256).hexdigest() + "\n")):
                g = d.d.get(f + suf)
                got = None if g is None or g.d is not None else bytes(g.b)
                if got is None:
                    self.fail("staged-missing", "%s/%s%s is missing" % (where, f, suf))
                elif got.split() != exp.encode().split():
                    self.fail("staged-digest", "%s/%s%s is %r, not %r" % (where, f, suf, got[:120], exp))
            out[n] = len(data)
            self.stats["staged_verified"] += 1
        extra = sorted(set(d.d) - want)
        if extra:
            self.fail("staged-extra", "%s holds %s" % (where, extra[:4]))
        return out
    def expected(self, sizes):
        """Selection by the documented rule, or None if something is uncertain."""
        if any(n in self.rec and (self.rec[n][2] is None or self.rec[n][0] != self.rec[n][1]) for n in sizes) or not self.steady:
            return None
        k = lambda n: (-abs(sizes[n] - (self.rec[n][0] if n in self.rec else 0)), self.rec[n][2] if n in self.rec else 0.0)
        order = sorted(sizes, key=k)
        keys = [k(n) for n in order]
        for a, b in zip(keys, keys[1:]):
            if a[0] == b[0] and abs(a[1] - b[1]) < 1.0:
                # a tie: any order; only judge if everything fits
                return set(sizes) if sum(sizes.values()) <= self.quota else None
        q, out = 0, set()
        for n in order:
            if q + sizes[n] > self.quota:
                break
            q += sizes[n]
            out.add(n)
        return out
    def one(self, pre, plan, shuffle):
        w = self.w
        self.runno += 1
        for a in pre:
            self.env(a)
        sizes0 = {n: len(s.b) for n, s in self.silos.items()}
        before = self.verify(self.staging)
        self.grown = False
        w.random = random.Random(shuffle)
        w.watch, w.touched = self.staging, None
        if self.log is not None:
            w.log = []
        t0 = w.clock
        if any(p["at"] <= 0 for p in plan):
            # positions counted from the end: measure an unfaulted copy first
            keep = copy.deepcopy((w.root, w.clock, w.inos))
            save, w.log = w.log, None
            tr = w.trace.copy()
            run_script(w, [])
            length = w.step
            w.root, w.clock, w.inos = keep
            w.log, w.trace = save, tr
            w.random = random.Random(shuffle)
            w.touched = None
            for n in list(self.silos):
                d = self.dirof(n)
                self.silos[n] = w.find(self.dir + "/" + d + self.fn(n))
        else:
            length = 0
        res = run_script(w, expand(plan, length))
        self.stats["runs"] += 1
        self.stats["calls"] += w.step
        self.stats["sim_s"] += max(0.0, w.clock - t0)
        k = res.split(":")[0]
        self.stats["results"][k] = self.stats["results"].get(k, 0) + 1
        for f in w.fired:
            self.stats["faults"][f] = self.stats["faults"].get(f, 0) + 1
        hard = [f for f in w.fired if f in ("kill", "error", "full")]
        if self.log is not None:
            self.log += ["--- run %d: %s%s" % (self.runno, res, " after " + ", ".join(w.fired) if w.fired else "")] + w.log
        nf = len(self.fails)
        # nothing but the staging area and the script's own notes is ever changed
        for n, s in self.silos.items():
            d = self.dirof(n)
            x = w.find(self.dir + "/" + d + self.fn(n), False)
            if x is not s or bytes(s.b) != content(n, len(s.b)) or len(s.b) < sizes0.get(n, 0):
                self.fail("silo-changed", "silo %d was changed or removed by the run" % n)
        if w.touched:
            self.fail("staging-touched", "the staging directory was changed under its final name: %s" % w.touched)
        after = self.verify(self.staging)
        if res == "ok":
            if after is None:
                self.fail("not-staged", "the run ended well, but there is no %s" % self.staging)
                after = {}
            if not hard:
                for x in (".new", ".old"):
                    if w.find(self.staging + x, False) is not None:
                        self.fail("leftover", "%s%s is left behind" % (self.staging, x))
            for n, z in after.items():
                if z < sizes0.get(n, 0):
                    self.fail("staged-content", "silo %d was staged with %d bytes, but had %d before the run" % (n, z, sizes0[n]))
            if not hard and not self.grown:
                tot = sum(after.values())
                if tot > self.quota:
                    self.fail("quota", "%d bytes staged with a quota of %d" % (tot, self.quota))
                exp = self.expected(sizes0)
                if exp is not None:
                    self.stats["selection_checks"] += 1
                    if exp != set(after):
                        self.fail("selection", "staged %s, but by growth and age it should be %s (sizes %s, known %s, quota %d)" % (sorted(after), sorted(exp), sizes0, self.rec, self.quota))
                else:
                    # what surely grew more comes before what surely grew less
                    rng = lambda n: (sizes0[n] - self.rec[n][1], sizes0[n] - self.rec[n][0]) if n in self.rec else (sizes0[n], sizes0[n])
                    least = min([rng(a)[1] for a in after if a in sizes0] or [0])
                    for b in sizes0:
                        if b not in after and rng(b)[0] > least:
                            self.fail("growth-forgotten", "silo %d (%d bytes, %s staged) is passed over, though one which grew by at most %d is staged" % (b, sizes0[b], self.pub.get(b), least))
                            break
                    self.stats["partial_checks"] = self.stats.get("partial_checks", 0) + 1
            for n, z in after.items():
                self.pub[n] = z
                self.rec[n] = (min(z, sizes0.get(n, 0)), z, w.clock)
        else:
            if not hard:
                self.fail("run-failed", "the run %s without any failure" % res)
            if after is None and before is not None:
                old = self.verify(self.staging + ".old")
                if old is None or set(old) != set(before):
                    self.fail("staging-lost", "the run %s and left neither %s nor its predecessor" % (res, self.staging))
            if after is not None and before is not None and after != before or after is not None and before is None:
                for n, z in after.items():
                    # it may have kept its notes or not
                    self.pub[n] = z
                    self.rec[n] = (min(z, self.rec[n][0] if n in self.rec else 0), z, None)
            # Not published: what it meant to stage still has to be offered (rec is unchanged).
        self.states.add(hashlib.sha256(repr((sorted((after or {}).items()), sorted(sizes0.items()), k)).encode()).hexdigest()[:16])
        return res, len(self.fails) == nf
    def run(self):
        self.setup()
        hook = sys.unraisablehook
        sys.unraisablehook = lambda a: None
        try:
            for r in self.ep["runs"]:
                res, good = self.one(r["pre"], r["plan"], r["shuffle"])
                if not good:
                    break
            else:
                # Failures have stopped: every silo is staged, as it is now, within so many runs
                seen, n = set(), 0
                total = sum(len(s.b) for s in self.silos.values())
                while len(seen) < len(self.silos):
                    n += 1
                    res, good = self.one([{"do": "clock", "by": 86400.0}], [], n)
                    self.stats["liveness_runs"] += 1
                    if not good:
                        break
                    d = self.verify(self.staging) or {}
                    seen |= {k for k, z in d.items() if z == len(self.silos[k].b)}
                    if n > 3 * len(self.silos) + 6:
                        if self.steady:
                            self.fail("never-staged", "after %d undisturbed runs silos %s were not staged" % (n, sorted(set(self.silos) - seen)))
                        break
        finally:
            sys.unraisablehook = hook
        return self.fails

def judge(ep, log=False):
    e = Episode(ep, log)
    e.run()
    return e

def minimise(ep, cls, secs):
    end = time.time() + secs
    cur = copy.deepcopy(ep)
    def bad(x):
        try:
            return any(f["class"] == cls for f in judge(x).fails)
        except Exception:
            return False
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for i in range(len(cur["runs"]) - 1, -1, -1):
            x = copy.deepcopy(cur); del x["runs"][i]; cands.append(x)
        for i in range(len(cur["runs"])):
            for part in ("plan", "pre"):
                for j in range(len(cur["runs"][i][part])):
                    x = copy.deepcopy(cur); del x["runs"][i][part][j]; cands.append(x)
        for i in range(len(cur["silos"])):
            if len(cur["silos"]) > 1:
                x = copy.deepcopy(cur); del x["silos"][i]; cands.append(x)
        for k in ("junk", "default_env"):
            if cur[k]:
                x = copy.deepcopy(cur); x[k] = False; cands.append(x)
        for i, s in enumerate(cur["silos"]):
            for z in (1, s["size"] // 2):
                if 0 < z < s["size"]:
                    x = copy.deepcopy(cur); x["silos"][i]["size"] = z; cands.append(x)
        for x in cands:
            if time.time() > end:
                break
            if bad(x):
                cur, changed = x, True
                break
    return cur

def main():
    cmd = sys.argv[1]
    if cmd == "run":
        seed, secs, step = int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1
        end, n = time.time() + secs, 0
        st = {"n": 0, "stats": {}, "hashes": [], "states": [], "inter": [], "samples": []}
        hashes, states = set(), set()
        def add(a, b):
            for k, v in b.items():
                if isinstance(v, dict):
                    add(a.setdefault(k, {}), v)
                else:
                    a[k] = a.get(k, 0) + v
        while time.time() < end:
            ep = generate(seed)
            e = judge(ep)
            st["n"] += 1
            add(st["stats"], e.stats)
            hashes.add(e.w.trace.hexdigest()[:16])
            states |= e.states
            if len(st["samples"]) < 2:
                st["samples"].append({"seed": seed, "silos": len(ep["silos"]), "quota": ep["quota"], "runs": ep["runs"][:2], "results": e.stats["results"]})
            if e.fails:
                print(json.dumps({"t": "fail", "seed": seed, "fails": e.fails}), flush=True)
            seed += step
        st.update(t="stats", hashes=sorted(hashes), states=sorted(states))
        print(json.dumps(st), flush=True)
    elif cmd in ("one", "replay"):
        ep = generate(int(sys.argv[2])) if cmd == "one" else json.load(open(sys.argv[2]))
        if cmd == "one" and len(sys.argv) > 3 and sys.argv[3] != "-v":
            json.dump(ep, open(sys.argv[3], "w"), indent=1)
        e = judge(ep, "-v" in sys.argv)
        if e.log:
            sys.stderr.write("\n".join(e.log) + "\n")
        print(json.dumps({"seed": ep["seed"], "hash": e.w.trace.hexdigest()[:16], "fails": e.fails}))
    elif cmd == "minimise":
        ep = json.load(open(sys.argv[2]))
        json.dump(minimise(ep, sys.argv[4], float(sys.argv[5])), open(sys.argv[3], "w"), indent=1)

if __name__ == "__main__":
    try:
        main()
    except Unsimulated as e:
        sys.stderr.write("not simulated: %s\n" % e)
        sys.exit(4)
