"""C28: the REPL server, run in a process of its own and driven over TCP by concurrent scripted clients with unique payloads."""
import json
import os
import re
import select
import socket
import subprocess
import sys
import threading
import time
import unpythonic
from vp.core import section, outcome, Inconclusive
from unpythonic.net import server as srv
from unpythonic.net.ptyproxy import PTYSocketProxy
from unpythonic.net.common import ApplevelProtocolMixin
from unpythonic.net.msg import MessageDecoder
from unpythonic.net.util import socketsource

REPO = os.path.dirname(os.path.dirname(os.path.abspath(unpythonic.__file__)))
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "helpers", "replchild.py")
PS1, PS2 = b">>>> ", b".... "

def free_ports(n):
    ss = []
    for _ in range(n):
        s = socket.socket(); s.bind(("127.0.0.1", 0)); ss.append(s)
    ports = [s.getsockname()[1] for s in ss]
    for s in ss: s.close()
    return ports

class Child:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, "-u", "-W", "ignore", CHILD, REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8"))
        self.lines, self.replies, self.cv = [], [], threading.Condition()
        self.t = threading.Thread(target=self.read, daemon=True); self.t.start()
        self.reply()
    def read(self):
        for raw in self.p.stdout:
            line = raw.decode("utf-8", "replace")
            i = line.find("@@")
            with self.cv:
                if i >= 0:
                    if line[:i]: self.lines.append(line[:i])
                    self.replies.append(json.loads(line[i + 2:]))
                else: self.lines.append(line)
                self.cv.notify_all()
        with self.cv: self.replies.append(["dead"]); self.cv.notify_all()
    def reply(self):
        with self.cv:
            if not self.cv.wait_for(lambda: self.replies, 30): raise TimeoutError("the server process does not answer")
            return self.replies.pop(0)
    def __call__(self, *cmd):
        self.p.stdin.write(json.dumps(cmd).encode() + b"\n"); self.p.stdin.flush()
        return self.reply()
    def start(self, ns=None):
        for _ in range(10):
            self.rp, self.cp = free_ports(2)
            r = self("start", self.rp, self.cp, ns or {})
            if r[0] == "ok": return r
        raise RuntimeError(f"cannot start the server: {r}")
    def stdout(self):
        with self.cv: return "".join(self.lines)
    def close(self):
        self.p.kill(); self.p.wait(); self.t.join(10); self.p.stdin.close(); self.p.stdout.close()

class Timeout(Exception): pass

class Client:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=45)
        self.buf = b""
        hello = self.read(PS1)
        m = re.match(rb"REPL session (\d+) connected\.\n", hello)
        self.id = int(m.group(1)) if m else None
    def read(self, *ends, eof=False):
        """Read up to a prompt (or to the end of the connection)."""
        end = time.monotonic() + 45
        while True:
            if not eof and any(self.buf.endswith(e) for e in ends):
                # a prompt is followed by nothing until we send something
                if not select.select([self.s], [], [], 0)[0]:
                    r, self.buf = self.buf, b""; return r
            if time.monotonic() > end: raise Timeout(self.buf[-200:])
            if not select.select([self.s], [], [], 0.5)[0]: continue
            try: d = self.s.recv(65536)
            except ConnectionError: d = b""
            if not d:
                r, self.buf = self.buf, b""
                return r + (b"" if eof else b"<EOF>")
            self.buf += d
    def send(self, data, rng=None):
        if rng is None or rng.random() < 0.7: self.s.sendall(data)
        else:
            while data:
                k = rng.randrange(1, len(data) + 1)
                self.s.sendall(data[:k]); data = data[k:]
                time.sleep(rng.random() * 0.002)
    def extra(self, t=0.05):
        """Whatever arrives without having been asked for."""
        out = b""
        while select.select([self.s], [], [], t)[0]:
            d = self.s.recv(65536)
            if not d: break
            out += d
        return out
    def close(self): self.s.close()

class Control(ApplevelProtocolMixin):
    def __init__(self, port):
        self.sock = socket.create_connection(("127.0.0.1", port), timeout=45)
        self.decoder = MessageDecoder(socketsource(self.sock))
    def __call__(self, req):
        self._send(req); return self._recv()
    def close(self): self.sock.close()

# ---------------------------------------------------------------------------------------
def gen_step(rng, tok, mine):
    """(lines to send, expected bytes up to and including the prompt or a predicate on them, text expected on the server's stdout)"""
    p = PS1
    k = rng.choice(["expr", "var", "print", "unicode", "stderr", "big", "for", "def", "exc", "syntax", "input", "server", "shared", "thread", "job", "doc", "nothing", "partial", "try", "pipelined", "name"])
    e = lambda s: s.encode("utf-8")
    if k == "expr":
        a, b = rng.randrange(1000), rng.randrange(1000)
        return k, f"{a} * {b}, '{tok}'\n", e(f"({a * b}, '{tok}')\n") + p, ""
    if k == "var":
        mine["v"] = tok
        return k, f"{mine['name']} = '{tok}'\n", p, ""
    if k == "name":
        if "v" not in mine: return k, f"{mine['name']}_undefined\n", (lambda b: b.endswith(e(f"NameError: name '{mine['name']}_undefined' is not defined\n") + p)), ""
        return k, f"{mine['name']}\n", e(f"'{mine['v']}'\n") + p, ""
    if k == "print":
        n = rng.randrange(1, 6)
        return k, f"print('{tok}', {n}, sep='\\n')\n", e(f"{tok}\n{n}\n") + p, ""
    if k == "unicode":
        s = "".join(rng.choice("äöλ→漢字🐍x ") for _ in range(rng.randrange(1, 40)))
        return k, f"print('{tok}{s}')\n", e(tok + s + "\n") + p, ""
    if k == "stderr": return k, f"import sys; print('{tok}', file=sys.stderr)\n", e(tok + "\n") + p, ""
    if k == "big":
        n = rng.choice([100, 4096, 5000, 20000, 70000])
        return k, f"print('{tok}' * {n // len(tok)})\n", e(tok * (n // len(tok)) + "\n") + p, ""
    if k == "for":
        n = rng.randrange(1, 5)
        return k, f"for i in range({n}):\n    print('{tok}', i)\n\n", PS2 + PS2 + e("".join(f"{tok} {i}\n" for i in range(n))) + p, ""
    if k == "def": return k, f"def fun_{tok}(x):\n    return ('{tok}', x)\n\nfun_{tok}(3)\n", PS2 + PS2 + p + e(f"('{tok}', 3)\n") + p, ""
    if k == "exc":
        return k, f"raise ValueError('{tok}')\n", (lambda b: b.startswith(b"Traceback") and b.endswith(e(f"ValueError: {tok}\n") + p)), ""
    if k == "syntax": return k, f"'{tok}' +\n", (lambda b: b"SyntaxError" in b and b.endswith(p)), ""
    if k == "input": return k, f"input('q')\n{tok}\n", e(f"q'{tok}'\n") + p, ""
    if k == "server": return k, f"server_print('{tok}')\n", p, tok + "\n"
    if k == "shared": return k, f"shared.append('{tok}')\n", p, ""
    if k == "thread": return k, f"import threading; t_{tok} = threading.Thread(target=lambda: print('{tok}')); t_{tok}.start(); t_{tok}.join()\n", p, tok + "\n"
    if k == "job": return k, f"j_{tok} = bg(lambda: '{tok}'); j_{tok}.join(); fg(j_{tok})\n", e(f"'{tok}'\n") + p, ""
    if k == "doc": return k, f"def d_{tok}():\n    '''{tok}\n\n        more'''\n\ndoc(d_{tok})\n", (lambda b: e(f"{tok}\n\nmore\n") + p in b), ""
    if k == "partial": return k, f"import sys; _ = sys.stdout.write('{tok}')\n", e(tok) + p, ""
    if k == "try": return k, f"try:\n    raise KeyError('{tok}')\nexcept KeyError as err:\n    print(err.args)\nelse:\n    print('no')\nfinally:\n    print('fin')\n\n", PS2 * 8 + e(f"('{tok}',)\nfin\n") + p, ""
    if k == "pipelined":
        n = rng.randrange(2, 6)
        return k, "".join(f"print('{tok}', {i})\n" for i in range(n)), b"".join(e(f"{tok} {i}\n") + p for i in range(n)), ""
    return k, "\n", p, ""

def count_prompts(b): return b.count(PS1) + b.count(PS2)

@section(quick=24, thorough=240, deadline=200, require={"steps": 250, "sessions": 40, "disconnects": 8, "server lines": 12})
def sessions(ctx, rng):
    """Concurrent sessions: each client gets exactly the output of its own lines."""
    ch = Child()
    errors, elock = [], threading.Lock()
    served, shared, counts = [], [], {"steps": 0, "sessions": 0, "disconnects": 0}
    try:
        ch.start({"shared": []})
        n = rng.randrange(2, 5)
        seeds = [rng.getrandbits(32) for _ in range(n)]
        kinds = set()
        def client(i):
            import random
            r = random.Random(seeds[i])
            mine = {"name": f"var{i}"}
            order = []
            c = Client(ch.rp); counts["sessions"] += 1
            if c.id is None: raise AssertionError("no greeting")
            for j in range(r.randrange(6, 14)):
                tok = f"T{i}x{j}q"
                k, line, want, out = gen_step(r, tok, mine)
                kinds.add(k)
                c.send(line.encode("utf-8"), r)
                got = b""
                if callable(want):
                    got = c.read(PS1)
                    while got.count(PS1) < 1 or not got.endswith(PS1): got += c.read(PS1)
                    if k == "doc":
                        while count_prompts(got) < 6: got += c.read(PS1, PS2)
                    ok = want(got)
                else:
                    while len(got) < len(want): 
                        d = c.read(PS1, PS2)
                        got += d
                        if d.endswith(b"<EOF>"): break
                    ok = got == want
                counts["steps"] += 1
                if not ok:
                    with elock: errors.append(dict(kind=k, line=line, got=got[-400:], want=want if isinstance(want, bytes) else None))
                    return
                with elock:
                    if out: served.append(out)
                    if k == "shared": order.append(tok)
                if r.random() < 0.12:
                    how = r.choice(["quit", "quitout", "close", "exit"])
                    if how == "close": c.close()
                    else:
                        n = r.choice([1, 3000, 30000])
                        c.send({"quit": "quit()\n", "exit": "exit()\n", "quitout": f"print('{tok}' * {n}); quit()\n"}[how].encode())
                        tail = c.read(eof=True)
                        w = (tok * n + "\n").encode() if how == "quitout" else b""
                        if tail != w:
                            with elock: errors.append(dict(kind=how, got=(len(tail), tail[:100]), want=(len(w), w[:100])))
                            return
                        c.close()
                    counts["disconnects"] += 1; counts["sessions"] += 1
                    c = Client(ch.rp)
            x = c.extra()
            if x:
                with elock: errors.append(dict(kind="unexpected output", got=x[:300]))
            if r.random() < 0.5: c.send(b"quit()\n"); c.read(eof=True)
            c.close()
            with elock: shared.append(order)
        def guarded(i):
            try: client(i)
            except BaseException as e:
                with elock: errors.append(dict(kind="client failed", client=i, error=repr(e)))
        ts = [threading.Thread(target=guarded, args=(i,)) for i in range(n)]
        for t in ts: t.start()
        said = []
        for j in range(3):
            said.append(f"M{j}main"); ch("say", f"M{j}main", f"M{j}err", f"M{j}thread"); time.sleep(rng.random() * 0.05)
        for t in ts: t.join(120)
        for k, v in counts.items(): ctx.event(k, v)
        ctx.event("server lines", len(served))
        for k in kinds: ctx.event("kind " + k)
        ctx.check(not errors, "a client did not get exactly the output of its own lines", errors=errors[:2])
        # sessions end
        end = time.monotonic() + 45
        while time.monotonic() < end:
            st = ch("state")
            if not st[3]: break
            time.sleep(0.05)
        ctx.check(st[0] == "ok" and not st[3], "sessions of disconnected clients are still active", state=st)
        got = ch("eval", "shared")
        ctx.check(got[0] == "ok" and sorted(got[1]) == sorted(x for o in shared for x in o), "the shared namespace lost or duplicated an update", got=got, want=shared)
        for o in shared: ctx.check([x for x in got[1] if x in o] == o, "the lines of a session were not executed in order", got=got, want=o)
        r = ch("stop")
        ctx.check(r == ["ok"], "stop failed", got=r)
        time.sleep(0.05)
        text = ch.stdout()
        toks = re.findall(r"T\d+x\d+q", text)
        ctx.check(sorted(toks) == sorted(x.strip() for x in served), "the server's stdout does not contain exactly what was printed there", got=sorted(toks), want=sorted(served))
        for j in range(3):
            for w in (f"M{j}main", f"M{j}err", f"M{j}thread"): ctx.check(text.count(w) == 1, "output of another thread of the server process was lost", want=w)
    finally: ch.close()
    ctx.seen(tuple(seeds))

# ---------------------------------------------------------------------------------------
@section(quick=12, thorough=120, deadline=200, require={"requests": 100, "interrupts": 6, "completions": 25, "failed": 20})
def control(ctx, rng):
    ch = Child()
    cs, cl = [], []
    try:
        ch.start({"alpha1": 1, "alpha2": "s", "alphabet": [1], "beta": {"x": 1}, "stop": []})
        for _ in range(rng.randrange(1, 4)): cl.append(Client(ch.rp))
        for _ in range(rng.randrange(1, 4)): cs.append(Control(ch.cp))
        paired = {}
        dead = set()
        for _ in range(rng.randrange(12, 30)):
            c = rng.choice(cs)
            k = rng.choice(["describe", "pair", "pair", "badpair", "complete", "complete", "complete", "interrupt", "interrupt", "bad", "batch", "bye"])
            ctx.event("requests")
            if k == "describe":
                r = c({"command": "DescribeServer"})
                ctx.check(r["status"] == "ok" and r["prompts"] == {"ps1": ">>>> ", "ps2": ".... "} and isinstance(r["control_protocol_version"], str)
                          and set(r["supported_commands"]) == {"DescribeServer", "PairWithSession", "TabComplete", "KeyboardInterrupt"}, "bad description of the server", got=r)
            elif k == "pair":
                x = rng.choice(cl)
                r = c({"command": "PairWithSession", "id": x.id})
                if x in dead:
                    ctx.check(r["status"] == "failed", "paired with a session that has ended", got=r)
                else:
                    ctx.check(r == {"status": "ok"}, "pairing failed", got=r)
                    paired[c] = x
            elif k == "badpair":
                r = c(rng.choice([{"command": "PairWithSession", "id": 10**6 + rng.randrange(9)}, {"command": "PairWithSession"}, {"command": "PairWithSession", "id": "1"}, {"command": "PairWithSession", "id": None}]))
                ctx.event("failed")
                ctx.check(r["status"] == "failed" and isinstance(r["reason"], str), "bad pairing request accepted", got=r)
            elif k == "complete":
                text = rng.choice(["alph", "alpha", "beta.", "beta.k", "alpha2.up", "pri", "imp", "zzz", "nope.x", "le", "alphabet.", "server_p", "x y", "1.", "alphabe"])
                st = rng.choice([0, 0, 1, 2, 5, 50])
                # the completer keeps the matches of state 0, so ask for the states from 0 on, like readline does
                for i in range(st + 1): r = c({"command": "TabComplete", "text": text, "state": i})
                w = ch("complete", text, st)
                ctx.event("completions")
                ctx.check(r == {"status": "ok", "result": w[1]}, "another completion than that of the standard completer", got=r, want=w, text=text, state=st)
            elif k == "interrupt":
                x = paired.get(c)
                if x is None or x in dead:
                    r = c({"command": "KeyboardInterrupt"})
                    ctx.event("failed")
                    ctx.check(r["status"] == "failed" and "reason" in r, "Ctrl+C without a paired active session", got=r)
                    continue
                alive = [y for y in cl if y not in dead]
                ch("eval", "stop.clear()")
                rnd = rng.getrandbits(60)   # a counter of this round
                for y in alive:
                    y.send(f"import time\nn{y.id}_{rnd} = 0\nwhile not stop:\n    n{y.id}_{rnd} += 1\n    time.sleep(0.001)\n\n'end' + '{y.id}'\n".encode())
                for y in alive:
                    end = time.monotonic() + 45
                    while ch("eval", f"n{y.id}_{rnd} if 'n{y.id}_{rnd}' in globals() else 0")[1] in (0, None) and time.monotonic() < end: time.sleep(0.005)
                r = c({"command": "KeyboardInterrupt"})
                ctx.event("interrupts")
                ctx.check(r == {"status": "ok"}, "remote Ctrl+C failed", got=r)
                got = b""
                while b"end%d'\n" % x.id + PS1 not in got: got += x.read(PS1, PS2)
                ctx.check(b"KeyboardInterrupt" in got, "the paired session was not interrupted", got=got[-300:])
                for y in alive:
                    if y is not x:
                        z = y.extra(0.01)
                        ctx.check(b"KeyboardInterrupt" not in z and b"end" not in z, "another session was interrupted", got=z[-300:])
                ch("eval", "stop.append(1)")
                for y in alive:
                    if y is not x:
                        got = b""
                        while b"end%d'\n" % y.id + PS1 not in got: got += y.read(PS1, PS2)
                        ctx.check(b"KeyboardInterrupt" not in got, "another session was interrupted", got=got[-300:])
            elif k == "bad":
                q = rng.choice([{"command": "Nope"}, {"x": 1}, {}, {"command": "TabComplete"}, {"command": "TabComplete", "text": "a"}, {"command": "TabComplete", "state": 0}, {"command": None}, {"command": "describeserver"}])
                r = c(q)
                ctx.event("failed")
                ctx.check(r is not None and r["status"] == "failed" and isinstance(r["reason"], str), "invalid request was not answered with an error", got=r, request=q)
            elif k == "batch":   # several requests at once: one reply each, in order
                qs = [rng.choice([("d", {"command": "DescribeServer"}), ("n", {"command": "No%d" % i}), ("t", {"command": "TabComplete", "text": "alphabe", "state": 0})]) for i in range(rng.randrange(2, 6))]
                for _, q in qs: c._send(q)
                rs = [c._recv() for _ in qs]
                for (t, q), r in zip(qs, rs):
                    ok = {"d": "prompts" in r, "n": q["command"] in r.get("reason", ""), "t": r.get("result") == "alphabet"}[t]
                    ctx.check(ok, "replies do not match the requests in order", requests=qs, replies=rs)
                ctx.check(not select.select([c.sock], [], [], 0)[0], "more replies than requests")
            elif k == "bye" and rng.random() < 0.4 and len(dead) < len(cl) - 1:
                x = rng.choice([y for y in cl if y not in dead])
                x.send(b"quit()\n"); x.read(eof=True); x.close(); dead.add(x)
                end = time.monotonic() + 45
                while x.id in ch("state")[3] and time.monotonic() < end: time.sleep(0.01)
        for c in cs: ctx.check(not select.select([c.sock], [], [], 0)[0], "an unrequested reply")
        for x in cl:
            if x not in dead:
                x.send(b"40 + 2\n"); g = x.read(PS1)
                ctx.check(g == b"42\n" + PS1, "a session does not work any more", got=g)
    finally:
        for x in cl + cs: x.close()
        ch.close()
    ctx.seen(len(cl), len(cs), rng.random())

# ---------------------------------------------------------------------------------------
def refused(port):
    try: socket.create_connection(("127.0.0.1", port), timeout=5).close(); return False
    except OSError: return True

@section(quick=24, thorough=200, deadline=150, require={"starts": 12, "stops": 8, "failed starts": 3})
def lifecycle(ctx, rng):
    ch = Child()
    try:
        pristine = ch("state")
        ctx.check(pristine[1] == [True] * 3, "importing the server replaced a standard stream", got=pristine)
        running = False
        for _ in range(rng.randrange(6, 14)):
            k = rng.choice(["start", "start", "stop", "again", "busy", "use"])
            if k == "start" and not running:
                ch.start({"y": 5}); running = True; ctx.event("starts")
            elif k == "stop":
                r = ch("stop"); ctx.event("stops", running)
                ctx.check(r == ["ok"], "stop failed", got=r)
                ctx.check(ch("state")[:3] == pristine[:3], "stop did not restore the standard streams and prompts", got=ch("state"), want=pristine)
                if running:
                    ctx.check(refused(ch.rp) and refused(ch.cp), "a port is still served after stop")
                    for p in (ch.rp, ch.cp):
                        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                        try: s.bind(("127.0.0.1", p))
                        except OSError as e: ctx.violate("a port is not free after stop", error=repr(e))
                        finally: s.close()
                running = False
            elif k == "again" and running:
                a, b = free_ports(2)
                r = ch("start", a, b, {})
                ctx.check(r[:2] == ["exc", "RuntimeError"], "a second server in the same process was not refused", got=r)
                ch("eval", "None")
            elif k == "busy" and not running:
                s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen()
                busy = s.getsockname()[1]
                free, = free_ports(1)
                r = ch("start", *rng.choice([(busy, free), (free, busy)]), {})
                ctx.event("failed starts")
                ctx.check(r[0] == "exc", "start on a busy port succeeded", got=r)
                st = ch("state")
                ctx.check(st[:3] == pristine[:3], "a failed start left the standard streams or prompts replaced", got=st, want=pristine)
                ctx.check(refused(free), "a failed start left a server behind")
                s.close()
            elif k == "use" and running:
                c = Client(ch.rp)
                for i in range(3):
                    c.send(b"z = 7\n"); c.read(PS1)
                    c.send(b"z * 6\n"); g = c.read(PS1)
                    ctx.check(g == b"42\n" + PS1, "session", got=g)
                ctx.check(ch("eval", "z")[1] == 7, "the session does not use the given namespace")
                c.send(b"quit()\n"); c.read(eof=True); c.close()
                end = time.monotonic() + 45
                while ch("state")[3] and time.monotonic() < end: time.sleep(0.01)
                ctx.check(not ch("state")[3], "the session did not end", got=ch("state"))
    finally: ch.close()
    ctx.seen(rng.random())

# ---------------------------------------------------------------------------------------
@section(quick=60, thorough=1000, deadline=120, require={"bytes": 200000})
def proxy(ctx, rng):
    """PTYSocketProxy forwards each byte once, in order, both ways, up to what was written before stop."""
    a, b = socket.socketpair()
    events = []
    px = PTYSocketProxy(a, lambda p: events.append("socket"), lambda p: events.append("slave"))
    px.start()
    ctx.check(outcome(px.start) == ("exc", RuntimeError), "started twice")
    down = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 100, 4096, 4097, 20000]))) if rng.random() < 0.5 else b"x" * rng.choice([10, 5000, 60000])
    up = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 100, 4096, 9000])))
    got, slave = [], px.slave
    def write():
        d = down
        while d:
            k = rng2.randrange(1, min(len(d), 9000) + 1)
            n = os.write(slave, d[:k]); d = d[n:]
    import random
    rng2 = random.Random(rng.getrandbits(32))
    t = threading.Thread(target=write); t.start()
    def reader():
        while True:
            d = b.recv(rng2.choice([100, 4096, 65536]))
            if not d: return
            got.append(d)
    tr = threading.Thread(target=reader); tr.start()
    back = b""
    d = up
    while d or len(back) < len(up):
        if d:
            k = rng.randrange(1, min(len(d), 3000) + 1)
            b.sendall(d[:k]); d = d[k:]
        if select.select([slave], [], [], 5)[0]: back += os.read(slave, 65536)
        elif not d: break
    ctx.check(back == up, "bytes from the socket did not arrive at the PTY once and in order", got=len(back), want=len(up))
    t.join(30)
    ending = rng.choice(["stop", "stop", "client"])
    if ending == "client":
        end = time.monotonic() + 45
        while len(b"".join(got)) < len(down) and time.monotonic() < end: time.sleep(0.002)
        b.shutdown(socket.SHUT_WR)
        end = time.monotonic() + 45
        while not events and time.monotonic() < end: time.sleep(0.002)
        ctx.check(events == ["socket"], "the disconnect of the client was not reported once", got=events)
    m = px.master
    px.stop()
    a.shutdown(socket.SHUT_WR); tr.join(20)
    ctx.check(b"".join(got) == down, "bytes written to the PTY before the proxy was stopped did not arrive at the socket once and in order", got=len(b"".join(got)), want=len(down))
    ctx.check(px.master is None and px.slave is None and events in ([], ["socket"]), "state after stop", events=events)
    px.stop()
    ctx.event("bytes", len(down) + len(up))
    a.close(); b.close()
    ctx.seen(len(down), len(up), ending)

# ---------------------------------------------------------------------------------------
class Err(Exception): pass

@section(quick=300, thorough=5000, require={"jobs": 1500, "failures": 200, "running": 200})
def jobs(ctx, rng):
    """bg and fg: each job's own result, exactly once."""
    live = []
    for i in range(rng.randrange(3, 20)):
        if rng.random() < 0.65 or not live:
            gate = threading.Event() if rng.random() < 0.4 else None
            val = rng.choice([("v", i), None, 0, Err(i)])
            def thunk(gate=gate, val=val):
                if gate is not None: gate.wait(20)
                if isinstance(val, Err): raise val
                return val
            t = srv.bg(thunk)
            ctx.check(isinstance(t, threading.Thread), "bg does not return a thread")
            ctx.event("jobs")
            if gate is None:
                r = outcome(srv.fg, t) if rng.random() < 0.2 else None
                if r is not None:
                    if r == ("ok", t): live.append((t, gate, val))
                    else: verify(ctx, r, val)
                    continue
                if rng.random() < 0.7: t.join(20)
            live.append((t, gate, val))
        else:
            t, gate, val = live.pop(rng.randrange(len(live)))
            if gate is not None:
                r = outcome(srv.fg, t)
                ctx.event("running")
                ctx.check(r == ("ok", t), "fg of a running job is not the thread", got=r)
                gate.set()
            t.join(20)
            verify(ctx, outcome_exc(srv.fg, t), val)
            ctx.event("failures", isinstance(val, Err))
            ctx.check(outcome(srv.fg, t) == ("exc", ValueError), "the result of a job can be popped twice")
    for t, gate, val in live:
        if gate is not None: gate.set()
        t.join(20)
        verify(ctx, outcome_exc(srv.fg, t), val)
    ctx.check(outcome(srv.fg, rng.choice([42, None, "t", object()])) == ("exc", TypeError), "fg of something that is no thread")
    ctx.check(outcome(srv.fg, threading.Thread(target=lambda: None)) == ("exc", ValueError), "fg of a thread that is no job")
    ctx.seen(rng.random())

def outcome_exc(f, *a):
    try: return ("ok", f(*a))
    except Exception as e: return ("exc", e)

def verify(ctx, r, val):
    if isinstance(val, Err): ctx.check(r[0] == "exc" and (r[1] is val or r[1] is Err), "the exception of the job is not raised", got=r, want=val)
    else: ctx.check(r == ("ok", val), "not the result of this job", got=r, want=val)

# ---------------------------------------------------------------------------------------
@section(quick=6, thorough=60, deadline=150, require={"lines": 20})
def client_program(ctx, rng):
    """The command line client shows what its session prints."""
    ch = Child()
    try:
        ch.start({})
        toks = [f"C{i}k" for i in range(rng.randrange(5, 10))]
        lines, want = [], []
        for t in toks:
            k = rng.randrange(4)
            if k == 0: lines.append(f"print('{t}')"); want.append(t)
            elif k == 1: lines += [f"for i in range(2):", f"    print('{t}', i)", ""]; want += [f"{t} 0", f"{t} 1"]
            elif k == 2: lines.append(f"'{t}' * 2"); want.append(repr(t * 2))
            else: lines.append(f"v = '{t}'"); lines.append("v"); want.append(repr(t))
        p = subprocess.run([sys.executable, "-u", "-W", "ignore", "-m", "unpythonic.net.client", "127.0.0.1", str(ch.rp), str(ch.cp)], input="\n".join(lines) + "\n", text=True,
                           capture_output=True, timeout=60, env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8"))
        out = p.stdout.replace(">>>> ", "").replace(".... ", "")
        got = [x for x in out.splitlines() if re.search(r"C\d+k", x)]
        ctx.event("lines", len(want))
        ctx.check(got == want, "the client does not show the output of its session", got=got, want=want, stderr=p.stderr[-300:])
        end = time.monotonic() + 45
        while ch("state")[3] and time.monotonic() < end: time.sleep(0.01)
        ctx.check(not ch("state")[3], "the session did not end with its client")
    finally: ch.close()
    ctx.seen(tuple(lines))

@section(quick=2, deadline=60, require={"cut": 1})
def cut_in_block(ctx, rng):
    ch = Child()
    try:
        ch.start({})
        c = Client(ch.rp); c.send(b"def f():\n"); c.read(PS2); c.close()
        end = time.monotonic() + 3
        while ch("state")[3] and time.monotonic() < end: time.sleep(0.05)
        ctx.event("cut")
        ctx.check(not ch("state")[3], "a session whose client disconnects in the middle of a block never ends", key="disconnect-in-block")
        d = Client(ch.rp); d.send(b"1 + 1\n"); ctx.check(d.read(PS1) == b"2\n" + PS1, "other sessions stopped working"); d.close()
    finally: ch.close()

# -- the server program: halt() takes effect when the last client disconnects, halt(False) cancels it ---
MAIN = """import sys
sys.path.insert(0, sys.argv[1])
from unpythonic.net import server
start = server.start
server.start = lambda *a, **kw: start(*a, **{**kw, "repl_port": int(sys.argv[2]), "control_port": int(sys.argv[3])})
server.main()
"""
@section(quick=6, thorough=60, deadline=120, require={"halts": 4, "cancelled": 2, "ended": 6})
def halting(ctx, rng):
    a, b = free_ports(2)
    p = subprocess.Popen([sys.executable, "-u", "-W", "ignore", "-c", MAIN, REPO, str(a), str(b)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8"))
    clients = []
    try:
        for _ in range(600):
            if not refused(b): break
            if p.poll() is not None: raise Inconclusive(f"the server program did not start: {p.stdout.read()!r}")
            time.sleep(0.05)
        else: raise Inconclusive("the server program does not listen")
        pending, log = False, []
        clients = [Client(a)]
        for k in range(rng.randrange(3, 8)):
            op = rng.choice(["halt", "cancel", "connect", "leave"])
            if op == "connect": clients.append(Client(a))
            elif op == "leave" and len(clients) > 1:
                c = clients.pop(rng.randrange(len(clients))); c.send(b"quit()\n"); c.read(eof=True); c.close()
            elif op in ("halt", "cancel"):
                c = rng.choice(clients); pending = op == "halt"
                c.send(b"halt()\n" if pending else b"halt(False)\n"); g = c.read(PS1)
                ctx.check((b"Halt requested" if pending else b"Halt canceled") in g, "halt was not acknowledged", got=g)
                ctx.event("halts" if pending else "cancelled")
            log.append(op)
        if rng.random() < 0.5 and not pending or not any(x in ("halt", "cancel") for x in log):
            c = clients[0]; c.send(b"halt()\n"); c.read(PS1); ctx.event("halts")
            c.send(b"halt(False)\n"); c.read(PS1); ctx.event("cancelled"); pending = False; log += ["halt", "cancel"]
        if not pending and rng.random() < 0.5:
            c = clients[0]; c.send(b"halt()\n"); c.read(PS1); ctx.event("halts"); pending = True; log += ["halt"]
        if pending:
            time.sleep(2.5)      # the server looks once a second
            c = clients[0]; c.send(b"5 * 5\n"); g = c.read(PS1); ctx.check(g == b"25\n" + PS1, "a session ended before its client left", got=g, log=log)
        ctx.check(p.poll() is None, "the server ended while clients were connected", log=log)
        for c in clients: c.send(b"quit()\n"); c.read(eof=True); c.close()
        clients = []
        if not pending:
            time.sleep(2.5)
            ctx.check(p.poll() is None, "the server ended although no halt is pending", log=log)
            c = Client(a); clients.append(c)
            c.send(b"6 * 7\n"); g = c.read(PS1); ctx.check(g.endswith(b"42\n" + PS1), "the server does not answer after a cancelled halt", got=g)
            c.send(b"halt()\n"); c.read(PS1); c.send(b"quit()\n"); c.read(eof=True); c.close(); clients = []
        try: p.wait(20); ctx.event("ended")
        except subprocess.TimeoutExpired: ctx.violate("the server goes on after halt() and the end of the last session", log=log)
        ctx.seen(tuple(log), pending)
    finally:
        for c in clients: c.close()
        p.kill(); p.wait(); p.stdout.close()
