# Starts the built yrmcdsd on free loopback ports and talks to it.
import atexit, os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, time
REPO = os.getcwd()
class Server:
    def __init__(self, extra="", workers=2, vip="127.0.0.1", wait=True, bindip=None):
        self.dir = tempfile.mkdtemp(prefix="yrdemo"); os.chmod(self.dir, 0o755)
        for _ in range(50):
            base = random.randrange(20000, 32000)
            if all(free(base + i) for i in range(3)): break
        self.port, self.repl, self.cnt = base, base + 1, base + 2
        conf = os.path.join(self.dir, "c.conf")
        open(conf, "w").write("port = %d\nrepl_port = %d\nvirtual_ip = %s\nworkers = %d\nbuckets = 101\ntemp_dir = %s\nlog.threshold = warning\n"
                              "counter.port = %d\n%s\n" % (self.port, self.repl, vip, workers, self.dir, self.cnt, extra))
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen([os.path.join(REPO, "yrmcdsd"), "-f", conf], stdout=self.log, stderr=self.log)
        atexit.register(self.kill)
        if wait:
            for _ in range(200):
                try: socket.create_connection(("127.0.0.1", self.port), 1).close(); break
                except OSError: time.sleep(0.05)
            else: print("server did not start"); sys.exit(2)
    def c(self, port=None, timeout=10): return Client(port or self.port, timeout)
    def fds(self): return len(os.listdir("/proc/%d/fd" % self.p.pid))
    def logtext(self): return open(os.path.join(self.dir, "log"), "rb").read().decode("latin1")
    def alive(self): return self.p.poll() is None
    def term(self, timeout=20):
        self.p.send_signal(signal.SIGTERM)
        try: return self.p.wait(timeout)
        except subprocess.TimeoutExpired: return "timeout"
    def kill(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
def free(port):
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try: s.bind(("127.0.0.1", port)); return True
    except OSError: return False
    finally: s.close()
class Client:
    def __init__(self, port, timeout=10, rcvbuf=0):
        self.s = socket.socket(); self.s.settimeout(timeout)
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.connect(("127.0.0.1", port)); self.b = b""
    def send(self, d): self.s.sendall(d if isinstance(d, bytes) else d.encode())
    def fill(self):
        try: d = self.s.recv(1 << 16)
        except (socket.timeout, TimeoutError): raise SystemExit("TIMEOUT waiting for a reply, have %r" % self.b[-200:])
        except OSError: d = b""
        if not d: raise EOFError
        self.b += d
    def recv(self, n):
        while len(self.b) < n: self.fill()
        r, self.b = self.b[:n], self.b[n:]; return r
    def until(self, t):
        t = t.encode() if isinstance(t, str) else t
        while t not in self.b: self.fill()
        i = self.b.index(t) + len(t); r, self.b = self.b[:i], self.b[i:]; return r
    def cmd(self, d, t="\r\n"): self.send(d); return self.until(t).decode("latin1")
    def set(self, k, v, flags=0, exp=0, verb="set"): return self.cmd("%s %s %d %d %d\r\n%s\r\n" % (verb, k, flags, exp, len(v), v))
    def val(self, k):
        self.send("get %s\r\n" % k); h = self.until("\r\n")
        if h == b"END\r\n": return None
        n = int(h.split()[3]); v = self.recv(n); self.recv(7); return v.decode("latin1")
    def cas(self, k):
        self.send("gets %s\r\n" % k); h = self.until("\r\n")
        if h == b"END\r\n": return None
        f = h.split(); self.recv(int(f[3]) + 7); return int(f[4])
    def stat(self, name, arg=""):
        self.send("stats %s\r\n" % arg); t = self.until("END\r\n").decode()
        for l in t.split("\r\n"):
            f = l.split(" ", 2)
            if len(f) == 3 and f[1] == name: return f[2]
    def eof(self, timeout=10):
        self.s.settimeout(timeout)
        try:
            while True:
                d = self.s.recv(1 << 16)
                if not d: return True
                self.b += d
        except (socket.timeout, TimeoutError): return False
        except OSError: return True
    def quiet(self, t=1.0):
        self.s.settimeout(t); out = self.b; self.b = b""
        try:
            while True:
                d = self.s.recv(1 << 16)
                if not d: break
                out += d
        except OSError: pass
        self.s.settimeout(10); return out
    def rst(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()
    def close(self): self.s.close()
    # binary protocol
    def bput(self, op, key="", ext=b"", val=b"", cas=0, opaque=0):
        k = key.encode(); v = val if isinstance(val, bytes) else val.encode()
        self.send(struct.pack(">BBHBBHIIQ", 0x80, op, len(k), len(ext), 0, 0, len(k) + len(ext) + len(v), opaque, cas) + ext + k + v)
    def bresp(self):
        m, op, kl, el, dt, st, tl, opq, cas = struct.unpack(">BBHBBHIIQ", self.recv(24)); body = self.recv(tl)
        return dict(op=op, status=st, opaque=opq, cas=cas, ext=body[:el], key=body[el:el + kl].decode(), val=body[el + kl:].decode("latin1"))
    def bcall(self, *a, **k): self.bput(*a, **k); return self.bresp()
    # counter protocol
    def cput(self, op, body=b"", opaque=0): self.send(struct.pack(">BBBBII", 0x90, op, 0, 0, len(body), opaque) + body)
    def cresp(self):
        m, op, st, r, bl, opq = struct.unpack(">BBBBII", self.recv(12)); return op, st, self.recv(bl)
    def ccall(self, op, body=b""): self.cput(op, body); return self.cresp()
    def cget(self, n): n = n.encode(); return self.ccall(1, struct.pack(">H", len(n)) + n)
    def cacq(self, n, r, m): n = n.encode(); return self.ccall(2, struct.pack(">IIH", r, m, len(n)) + n)
    def crel(self, n, r): n = n.encode(); return self.ccall(3, struct.pack(">IH", r, len(n)) + n)
Get, Set, Add, Replace, Delete, Incr, Decr, Quit, Flush, GetQ, Noop, Version, GetK, GetKQ, Append, Prepend, Stat = range(17)
Touch, GaT, Lock, LockQ, Unlock, UnlockQ, UnlockAll, UnlockAllQ, LaG, LaGQ, LaGK, LaGKQ, RaU, RaUQ = 0x1c, 0x1d, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b
def repl_ops(b):
    """parses the replication stream: list of (op, key, ext, val) and the rest"""
    out = []
    while len(b) >= 24:
        m, op, kl, el, dt, st, tl, opq, cas = struct.unpack(">BBHBBHIIQ", b[:24])
        if len(b) < 24 + tl: break
        x = b[24:24 + tl]; out.append((op, x[el:el + kl].decode("latin1"), x[:el], x[el + kl:].decode("latin1"))); b = b[24 + tl:]
    return out, b
def check(c, msg):
    if not c: print("FAILED: " + msg); sys.exit(1)
