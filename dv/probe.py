"""Runs the real crate (probe crate, path dependency on /repo) on concrete inputs."""
import os, struct, subprocess, fcntl, select, time
import dump

VERIF = dump.VERIF
FEATURES = {"all": ["--features", "all"], "default": []}


class Dead(Exception):
    pass


def build(cfg):
    td = os.path.join(dump.BUILD, "p-" + cfg)
    os.makedirs(dump.BUILD, exist_ok=True)
    with open(os.path.join(dump.BUILD, "lock-p"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dump.run(["cargo", "build", "--offline", "--target-dir", td] + FEATURES[cfg],
                 cwd=os.path.join(VERIF, "probe"), env=dump.env_base())
        # a private copy: another build may replace the binary while this run uses it
    return os.path.join(td, "debug", "probe")


_built = {}


class Probe:
    def __init__(self, cfg):
        if cfg not in _built:
            _built[cfg] = build(cfg)
        self.cfg = cfg
        self.bin = _built[cfg]
        self.p = None
        self.calls = 0

    def start(self):
        self.p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def ask(self, cmd, timeout=60):
        """(ok, text); a panic gives (False, message), a crash or timeout Dead"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        self.p.stdin.write((cmd + "\n").encode())
        buf = []
        t0 = time.time()
        while True:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.01, timeout - (time.time() - t0)))
            if not r:
                self.p.kill()
                self.p.wait()
                self.p = None
                raise Dead("timeout")
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                rc = self.p.wait()
                self.p = None
                raise Dead("process ended with %s" % rc)
            buf.append(b)
            if b.endswith(b"\n"):
                break
        s = b"".join(buf).decode().rstrip("\n")
        if s.startswith("OK"):
            return True, s[3:]
        return False, s[6:]

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def fl(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def hexf(x):
    return "0x" + struct.pack(">d", float(x)).hex()


def unpairs(toks):
    return [(fl(t[:16]), fl(t[16:])) for t in toks]


def rule(p, name, n, al=0.0, be=0.0, timeout=60):
    """(declared degree, pairs) or raises Panic"""
    ok, s = p.ask("rule %s %d %s %s" % (name, n, hexf(al), hexf(be)), timeout)
    if not ok:
        raise Panic(s)
    t = s.split()
    return int(t[0]), unpairs(t[2:])


class Panic(Exception):
    pass
