"""Transition tool service simulation (C18, C19).

Real: `ethereum_spec_tools.evm_tools` from its command line entry (`daemon`),
the standard HTTP server on top of which it is built, argument parsing, the
tool itself and its tracers.  Simulated: Unix sockets, readiness polling, time,
threads.  The answers the service must give come from a pristine process that
was forked before the service started and runs every request as a one-shot
command line in a copy of the same directory tree.
"""
import errno
import io
import json
import os
import shutil
import socket
import sys
import tempfile
import urllib.parse

from dst import tsim
from dst.core import HarnessError
from dst.scen import t8nsim as T

RUN = None
_real_socket = socket.socket


def setup(env):
    T.setup(env)
    import http.server  # noqa: F401

    import ethereum_spec_tools.evm_tools.daemon  # noqa: F401


# ---------------------------------------------------------------- pristine
class Pristine:
    """A process in which the tool never ran; answers lists of one-shot runs."""

    def __init__(self, root):
        self.root = root
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                with os.fdopen(a, "rb") as f:
                    todo = json.loads(f.read() or b"[]")
                out = json.dumps([self.one(x) for x in todo]).encode()
                with os.fdopen(b, "wb") as f:
                    f.write(out)
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def one(self, x):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.chdir(self.root)
                out = io.StringIO()
                ok = True
                try:
                    with T.quiet():
                        rc = T.TOOLS.main(list(x["args"]), out, io.StringIO(x["text"]))
                    ok = rc in (0, None)
                except BaseException as e:  # noqa: B902
                    ok = f"{type(e).__name__}: {e}"
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps({"ok": ok, "out": out.getvalue()}).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return json.loads(data)

    def run(self, todo):
        with os.fdopen(self.w, "wb") as f:
            f.write(json.dumps(todo).encode())
        with os.fdopen(self.r, "rb") as f:
            data = f.read()
        os.waitpid(self.pid, 0)
        if not data:
            raise HarnessError("no answer from the pristine process")
        return json.loads(data)

    def drop(self):
        try:
            self.run([])
        except (OSError, HarnessError, ValueError):
            pass


# ----------------------------------------------------------------- sockets
class Pipe:
    """One direction of a connection."""

    def __init__(self, cap):
        self.buf, self.cap, self.eof, self.broken = bytearray(), cap, False, False


class Conn:
    def __init__(self, run, who):
        self.run, self.who = run, who
        self.up, self.down = Pipe(1 << 30), Pipe(run.capacity)
        self.t_connect = tsim.sim().now
        self.t_accept = self.t_end = None
        self.client_gone = False

    def client_close(self):
        self.client_gone = True
        self.up.eof = True
        self.down.broken = True

    def server_close(self):
        if self.t_end is None:
            self.t_end = tsim.sim().now
        self.down.eof = True
        self.up.broken = True


class SimSocket:
    """What the service gets instead of a Unix stream socket."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, conn=None):
        self.family, self.type, self.proto = family, type, proto
        self.conn, self.path, self.queue, self.limit, self._timeout = conn, None, [], None, None
        self.closed, self.refs, self.want_close = False, 0, False
        self.fd = RUN.next_fd()
        RUN.fds[self.fd] = self

    def bind(self, path):
        path = os.fspath(path)
        if os.path.lexists(path):
            raise OSError(errno.EADDRINUSE, "Address already in use")
        with open(path, "x"):
            pass
        self.path = os.path.abspath(path)

    def listen(self, backlog=128):
        self.limit = max(1, backlog + 1)
        RUN.listeners[self.path] = self

    def ready(self):
        return bool(self.queue) if self.limit is not None else bool(
            self.conn and (self.conn.up.buf or self.conn.up.eof))

    def accept(self):
        if not tsim.sim().wait(lambda: self.queue or self.closed, self._timeout) or not self.queue:
            raise (TimeoutError("timed out") if not self.closed else OSError(errno.EBADF, "closed"))
        conn = self.queue.pop(0)
        conn.t_accept = tsim.sim().now
        RUN.accepted.append(conn)
        return SimSocket(self.family, self.type, conn=conn), ""

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getsockname(self):
        return self.path or ""

    def getpeername(self):
        return ""

    def fileno(self):
        return -1 if self.closed else self.fd

    def recv_into(self, b, nbytes=0, flags=0):
        p = self.conn.up
        s = tsim.sim()
        if not s.wait(lambda: p.buf or p.eof, self._timeout):
            raise TimeoutError("timed out")
        if not p.buf:
            return 0
        n = min(nbytes or len(b), len(p.buf), RUN.segment)
        b[:n] = p.buf[:n]
        del p.buf[:n]
        return n

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self.recv_into(memoryview(b))
        return bytes(b[:k])

    def send(self, data, flags=0):
        p = self.conn.down
        s = tsim.sim()
        data = bytes(data)
        if not s.wait(lambda: p.broken or len(p.buf) < p.cap, self._timeout):
            raise TimeoutError("timed out")
        if p.broken or p.eof:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        n = min(len(data), p.cap - len(p.buf))
        p.buf += data[:n]
        return n

    def sendall(self, data, flags=0):
        data = memoryview(data).tobytes()
        while data:
            data = data[self.send(data):]

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        raw = SimRaw(self, mode)
        self.refs += 1
        if buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (None, -1) else buffering
        buf = io.BufferedReader(raw, size) if "r" in mode and "w" not in mode else io.BufferedWriter(raw, size)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

    def shutdown(self, how):
        if self.conn is None:
            return
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self.conn.down.eof = True
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            self.conn.up.eof = True

    def unref(self):
        self.refs -= 1
        if self.want_close and self.refs <= 0:
            self.really_close()

    def close(self):
        self.want_close = True
        if self.refs <= 0:
            self.really_close()

    def detach(self):
        self.closed = True
        return self.fd

    def really_close(self):
        if self.closed:
            return
        self.closed = True
        RUN.fds.pop(self.fd, None)
        if self.conn is not None:
            self.conn.server_close()
        elif self.limit is not None:
            for x in self.queue:
                x.server_close()
                x.t_end = None
            self.queue.clear()
            if RUN.listeners.get(self.path) is self:
                del RUN.listeners[self.path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimRaw(io.RawIOBase):
    def __init__(self, sock, mode):
        self.sock, self.mode = sock, mode

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "w" in self.mode

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        return self.sock.send(b)

    def fileno(self):
        return self.sock.fileno()

    def close(self):
        if not self.closed:
            super().close()
            self.sock.unref()


class SimSelector:
    """Readiness polling over simulated descriptors."""

    def __init__(self):
        self.keys = {}

    def register(self, obj, events, data=None):
        fd = obj if isinstance(obj, int) else obj.fileno()
        key = (obj, fd, events, data)
        self.keys[fd] = key
        return key

    def unregister(self, obj):
        return self.keys.pop(obj if isinstance(obj, int) else obj.fileno(), None)

    def found(self):
        return [(k, k[2]) for fd, k in self.keys.items() if fd in RUN.fds and RUN.fds[fd].ready()]

    def select(self, timeout=None):
        tsim.sim().wait(self.found, timeout)
        return self.found()

    def get_map(self):
        return self.keys

    def close(self):
        self.keys.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_patched = False


def patch():
    global _patched
    if _patched:
        return
    _patched = True
    import selectors
    tsim.install()
    socket.socket = SimSocket
    for n in ("DefaultSelector", "PollSelector", "SelectSelector", "EpollSelector"):
        setattr(selectors, n, SimSelector)
    # what bound the primitives when it was first imported is imported again
    stub = T.TOOLS.subprocess
    for n in [n for n in sys.modules if n in ("socketserver", "http.server") or n.startswith("ethereum_spec_tools.evm_tools")]:
        del sys.modules[n]
    import ethereum_spec_tools.evm_tools as tools
    tools.subprocess = stub
    T.TOOLS = tools
    real_main = T.TOOLS.main

    def main(args=None, *a, **k):
        args = list(args) if args is not None else None
        if RUN is None or not args or args[0] == "daemon":
            return real_main(args, *a, **k)
        return RUN.on_main(real_main, args, a, k)
    T.TOOLS.main = main


# ---------------------------------------------------------------- requests
class Req:
    """One client: what it sends, how it behaves, and what came of it."""
    kind = "good"          # good / failing / malformed / cut
    args = text = None     # the one-shot run it stands for
    private = None         # directory nobody else uses
    raw = b""
    cut_at = None          # hangs up after that many bytes sent
    leave_after = None     # or after that many bytes received
    half_close = False
    conn = None
    refused = None
    done_at = None
    what = ""

    def __init__(self, n):
        self.n, self.got = n, bytearray()


class Shim:
    """The run's context under another fork and mode."""

    def __init__(self, ctx, fork, mode):
        self._ctx = ctx
        self.params = dict(ctx.params, fork=fork, mode=mode)

    def __getattr__(self, n):
        return getattr(self._ctx, n)


def http(c, path, body, length=None, method="POST", version=None):
    head = f"{method} {path} {version or c.choice(['HTTP/1.1', 'HTTP/1.0'])}\r\n"
    hs = ["Host: localhost", "Accept: */*"][:c.draw(3)]
    if length is not False:
        hs.append(f"{c.choice(['Content-Length', 'content-length'])}: {len(body) if length is None else length}")
    if c.bool(0.3):
        hs.append("Content-Type: application/json")
    return (head + "".join(h + "\r\n" for h in hs) + "\r\n").encode() + body


class Run:
    def __init__(self, ctx):
        self.ctx, self.c = ctx, ctx.c
        self.fds, self.listeners, self.accepted = {}, {}, []
        self.fd = 10000
        self.capacity = ctx.c.choice([65536, 4096, 1 << 20])
        self.segment = ctx.c.choice([1 << 20, 4096, 17])
        self.calls = []
        self.durations = []
        self.exit_at = None
        self.daemon_error = None

    def next_fd(self):
        self.fd += 1
        return self.fd

    def on_main(self, real, args, a, k):
        s = tsim.sim()
        before, after = self.durations.pop(0) if self.durations else (0, 0)
        self.ctx.log("tool starts", round(s.now - s.t0, 3))
        if before:
            s.sleep(before)
        try:
            return real(args, *a, **k)
        finally:
            if after and not s.dead:
                s.sleep(after)

    # --------------------------------------------------------------- clients
    def client(self, q):
        """Body of one client's thread."""
        s, c = tsim.sim(), self.c
        s.sleep(q.at)
        if self.path not in self.listeners:
            q.refused = s.now
            self.ctx.log("refused", q.n)
            return
        li = self.listeners[self.path]
        s.wait(lambda: li.closed or len(li.queue) < li.limit)
        if li.closed:
            q.refused = s.now
            return
        conn = q.conn = Conn(self, q.n)
        li.queue.append(conn)
        self.ctx.log("connect", q.n, q.kind, round(s.now - s.t0, 3))
        data = q.raw if q.cut_at is None else q.raw[:q.cut_at]
        k = 0
        for size, delay in q.chunks:
            if conn.up.broken:
                break
            conn.up.buf += data[k:k + size]
            k += size
            if k >= len(data):
                break
            s.sleep(delay)
        if k < len(data) and not conn.up.broken:
            conn.up.buf += data[k:]
        if q.cut_at is not None:
            if q.linger:
                s.sleep(q.linger)
            conn.client_close()
            self.ctx.log("hang up", q.n)
            q.done_at = s.now
            return
        if q.half_close:
            conn.up.eof = True
        p = conn.down
        give_up = s.now + q.patience
        while not (p.eof and not p.buf):
            s.wait(lambda: p.buf or p.eof, max(0.0, give_up - s.now))
            if q.read_delay:
                s.sleep(q.read_delay)
            n = min(len(p.buf), q.read_size)
            q.got += p.buf[:n]
            del p.buf[:n]
            if q.leave_after is not None and len(q.got) >= q.leave_after:
                break
            if s.now >= give_up and not p.buf:
                break
        q.closed_by_server = p.eof and not p.buf
        conn.client_close()
        q.done_at = s.now
        self.ctx.log("done", q.n, len(q.got), round(s.now - s.t0, 3))

    def manners(self, q, idle):
        """How the client behaves on the wire."""
        c = self.c
        n = len(q.raw) if q.cut_at is None else q.cut_at
        if c.bool(0.5):
            q.chunks = []
        else:
            q.chunks = [(c.choice([1, 7, 100, max(1, n // 2), max(1, n - 1)]), c.choice([0.0, 0.01, 0.5, 3, 20]))
                        for _ in range(c.int(1, 4))]
            self.ctx.fault("slow_sender")
        q.read_delay = c.choice([0, 0, 0, 0.01, 1.0])
        q.read_size = max(c.choice([1 << 20, 3000, 100000]), 1)
        if q.read_delay:
            q.read_size = max(q.read_size, 3000)
            self.ctx.fault("slow_reader")
        q.linger = c.choice([0, 0, 0.001, 5.0])
        q.patience = 1e6 if q.kind in ("good", "failing") else c.choice([5.0, 40.0, 130.0])

    def answer(self, q):
        """-> (status, body) or None."""
        raw = bytes(q.got)
        if b"\r\n\r\n" not in raw:
            return None
        head, body = raw.split(b"\r\n\r\n", 1)
        f = head.split(b"\r\n")[0].split(b" ")
        if len(f) < 2 or not f[0].startswith(b"HTTP/"):
            return None
        return int(f[1]), body

    # ------------------------------------------------------------------ sim
    def serve(self, argv):
        """The service's process; its daemon threads die with it."""
        s = tsim.sim()
        try:
            self.status = T.TOOLS.main(argv)
        except SystemExit as e:
            self.status = e.code
        except Exception as e:
            self.daemon_error = e
        s.wait(lambda: all(t.done or t.daemon for t in s.threads if t not in self.world))
        self.exit_at = s.now
        for x in list(self.fds.values()):
            x.refs = 0
            x.close()
        self.ctx.log("service ends", round(s.now - s.t0, 3), type(self.daemon_error).__name__)

    def simulate(self, argv, clients, limit, clocks=(), preempt=0):
        """Run service and clients; stop `limit` seconds after the last of them is done."""
        ctx, c = self.ctx, self.c
        s = tsim.start(ctx, max_steps=200000, max_time=1e7)
        self.world = []
        if preempt:
            s.enable_line_preemption(("evm_tools/daemon.py", "socketserver.py"), preempt, 400)

        class Over(Exception):
            pass

        def world():
            self.world.append(s.current)
            self.world.append(s.spawn("service", lambda: self.serve(argv), daemon=True))
            for q in clients:
                self.world.append(s.spawn(f"client{q.n}", lambda q=q: self.client(q), daemon=True))
            for at, skew in clocks:
                def jump(at=at, skew=skew):
                    s.sleep(at)
                    s.wall_skew = skew
                    ctx.fault("clock_jump")
                self.world.append(s.spawn("clock", jump, daemon=True))
            mine = [t for t in self.world[2:]]
            s.wait(lambda: all(t.done for t in mine))
            for t in mine:
                if t.error is not None:
                    raise t.error
            self.clients_done = s.now
            # the service may still be at work for clients that left
            s.wait(lambda: self.exit_at is not None or all(x.t_end is not None for x in self.accepted))
            s.wait(lambda: self.exit_at is not None, limit)
            raise Over
        err = sys.stderr, sys.stdout
        sys.stderr = sys.stdout = io.StringIO()
        try:
            main = s.run(lambda: s_fail(s, world))
        except Over:
            pass
        except tsim.TimeLimit as e:
            ctx.check(False, "never-answered", str(e))
        except tsim.Deadlock as e:
            ctx.check(False, "never-answered", f"service and clients wait for each other: {e}")
        finally:
            tsim.finish()
            self.messages = sys.stderr.getvalue()
            sys.stderr, sys.stdout = err
        ctx.probe("thread_switches", s.switches)
        ctx.state("schedule", s.sched_hash)
        self.t0 = s.t0

    def build_payload(self, fork):
        sim = T.Sim(Shim(self.ctx, fork, "files"))
        case = sim.build(sim.gen, self.c.bool(0.5))
        return sim, case, sim.request(case, self.c.bool(0.4))


def s_fail(s, fn):
    try:
        fn()
    except tsim.Killed:
        raise
    except BaseException as e:  # noqa: B902
        s.fail(e)


def cli(content, extra):
    """The one-shot command line of a request."""
    st = content["state"]
    a = ["t8n", "--input.env=stdin", "--input.alloc=stdin", "--input.txs=stdin", "--output.result=stdout",
         "--output.body=stdout", "--output.alloc=stdout", f"--state.fork={st['fork']}", f"--state.chainid={st['chainid']}",
         f"--state.reward={st['reward']}"]
    if content.get("trace"):
        a += ["--trace", "--trace.memory", "--trace.returndata", f"--output.basedir={content['output-basedir']}"]
    if content.get("count-opcodes"):
        a += ["--opcode.count", "stdout"]
    return a + list(extra)


def arg_path(c, extra):
    path = c.choice(["/", "/t8n", "/x/y"])
    if extra:
        path += "?" + urllib.parse.urlencode([("arg", x) for x in extra])
    elif c.bool(0.1):
        path += "?other=1"
    return path


def make_request(r, n, root):
    """A drawn client of the isolation scenario."""
    ctx, c = r.ctx, r.c
    q = Req(n)
    q.kind = c.weighted([(10, "good"), (3, "failing"), (3, "malformed"), (3, "cut")])
    fork = c.choice(ctx.params["forks"])
    if r.payloads and c.bool(0.35):
        sim, case, req = c.choice(r.payloads)
        ctx.fault("payload_repeated")
    else:
        sim, case, req = r.build_payload(fork)
        r.payloads.append((sim, case, req))
    content = {"input": json.loads(json.dumps(req)),
               "state": {"fork": T.fork_name(c, sim.m.name, case.blk.number), "chainid": sim.rules.chain_id,
                         "reward": case.reward if case.reward is not None else c.choice([0, -1, 5 * 10**18, 2 * 10**18])}}
    if c.bool(0.5) or q.kind == "cut":
        content["trace"] = True
        content["output-basedir"] = f"own/{n}" if q.kind == "cut" else c.choice(["out/a", "out/b"])
    elif c.bool(0.3):
        content["trace"] = False
    if c.bool(0.3):
        content["count-opcodes"] = True
    extra = []
    if q.kind != "cut" and c.bool(0.35):
        extra = c.choice([["--state-test"], ["--trace.nostack"], ["--output.result=result.json"], ["--opcode.count=counts.json"],
                          ["--output.body=b.rlp", "--output.alloc=al.json"], ["--state.reward=7"],
                          ["--trace", "--output.basedir=out/b"], ["--state.fork=Berlin"], ["--verbose"]])
        if case.state_test and c.bool(0.5):
            extra = ["--state-test"]
        ctx.fault("extra_arguments")
    elif case.state_test:
        extra = ["--state-test"]
    if q.kind == "failing":
        q.what = c.choice(["fork", "env", "alloc", "basedir", "number", "help", "badarg", "txs", "path"])
        if q.what == "fork":
            content["state"]["fork"] = c.choice(["Nope", "", "Cancun2"])
        elif q.what in ("env", "alloc", "txs"):
            del content["input"][q.what]
        elif q.what == "basedir":
            content["trace"], content["output-basedir"] = True, "no/such/place"
        elif q.what == "number":
            content["input"]["env"]["currentNumber"] = c.choice(["zz", None, "-1"])
        elif q.what == "help":
            extra = [c.choice(["--help", "--state.chainid", "--state.reward=x"])]
        elif q.what == "badarg":
            extra = ["--opcode.count=no/such/file"]
        elif q.what == "path":
            a = next(iter(content["input"]["alloc"]), None)
            if a:
                content["input"]["alloc"][a]["balance"] = "0xzz"
        ctx.fault("failing_request_" + q.what)
    body = json.dumps(content).encode()
    path = arg_path(c, extra)
    q.raw = http(c, path, body)
    if q.kind in ("good", "failing"):
        q.args, q.text = cli(content, extra), json.dumps(content["input"])
    elif q.kind == "cut":
        q.args, q.text, q.private = cli(content, extra), json.dumps(content["input"]), f"own/{n}"
        k = c.draw(4)
        if k == 0:
            q.cut_at = c.draw(len(q.raw))
        elif k == 1:
            q.cut_at = len(q.raw)
        elif k == 2:
            q.leave_after = c.choice([1, 20, 200, 5000])
        else:
            q.raw = http(c, path, body, length=len(body) + c.choice([1, 100]))
            q.half_close = c.bool(0.5)
        ctx.fault(["request_cut", "hang_up_after_request", "hang_up_in_answer", "length_too_long"][k])
    else:
        k = c.draw(12)
        q.what = k
        if k == 0:
            q.raw = http(c, path, body, length=c.draw(len(body)))
        elif k == 1:
            q.raw = http(c, path, body, length=False)
        elif k == 2:
            q.raw = http(c, path, body, length=c.choice(["-1", "x", "", "1e3"]))
            if b": -1\r" in q.raw:
                q.raw = http(c, path, body[:-1], length=-1)
        elif k == 3:
            q.raw = http(c, path, body, method=c.choice(["GET", "PUT", "HEAD", "FOO"]))
        elif k == 4:
            q.raw = c.choice([b"\0\1\2\r\n\r\n", b"garbage", b"POST\r\n\r\n", b"\r\n", b"POST / HTTP/9.9\r\n\r\n", b"", b"POST / HTTP/x\r\n\r\n",
                              b"A" * 70000, b"POST / HTTP/1.1\r\n" + b"x: y\r\n" * 200 + b"\r\n"])
        elif k == 5:
            x = c.choice([b"[]", b"null", b"17", b'"x"', b"{}", b"{", b"\xff\xfe", b'{"input": 1}'])
            q.raw = http(c, path, x)
        elif k == 6:
            bad = dict(content)
            del bad[c.choice(["input", "state"])]
            q.raw = http(c, path, json.dumps(bad).encode())
        elif k == 7:
            bad = dict(content, state=dict(content["state"]))
            del bad["state"][c.choice(["fork", "chainid", "reward"])]
            q.raw = http(c, path, json.dumps(bad).encode())
        elif k == 8:
            bad = dict(content, trace=True)
            bad["output-basedir"] = c.choice([None, ""])
            q.raw = http(c, path, json.dumps(bad).encode())
        elif k == 9:
            q.raw = http(c, c.choice(["/?arg", "/?=&&x", "/?a=%zz&b", "/?arg=%ff"]), body)
        elif k == 10:
            bad = dict(content, state=c.choice([None, [], "x"]))
            q.raw = http(c, path, json.dumps(bad).encode())
        else:
            x = bytearray(body)
            x[c.draw(len(x))] = 0
            q.raw = http(c, path, bytes(x))
        ctx.fault("malformed_request")
    return q


def prepare(root, private, stale):
    for d in ["out/a", "out/b"] + private:
        os.makedirs(os.path.join(root, d))
    for name, data in stale.items():
        with open(os.path.join(root, name), "wb") as f:
            f.write(data)


def isolate(ctx):
    global RUN
    c = ctx.c
    top = os.path.realpath(tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH")))
    live, mirror = os.path.join(top, "live"), os.path.join(top, "mirror")
    os.mkdir(live)
    os.mkdir(mirror)
    cwd = os.getcwd()
    pristine = Pristine(mirror)
    used = False
    try:
        r = RUN = Run(ctx)
        r.payloads = []
        clients = [make_request(r, n, live) for n in range(c.int(2, 7))]
        at = 0.0
        for q in clients:
            at += c.choice([0.0, 0.0, 0.1, 1.0, 30.0])
            q.at = at + 0.01
            r.manners(q, None)
        stale = {}
        for n in range(c.draw(3)):
            stale[c.choice(["out/a/", "out/b/"]) + c.choice([f"trace-{n}-0x{'00' * 32}.jsonl", "notes.txt", "result.json"])] = b"old"
        private = [q.private for q in clients if q.private]
        for d in (live, mirror):
            prepare(d, private, stale)
        r.path = os.path.join(top, "daemon.sock")
        if c.bool(0.3):
            with open(r.path, "w"):
                pass
            ctx.fault("stale_socket_file")
        r.durations = [(c.choice([0, 0, 0.5, 40]), c.choice([0, 0, 0.5])) for _ in range(8)]
        os.chdir(live)
        patch()
        argv = ["daemon", "--uds", r.path] + c.choice([["--timeout", "0"], ["--timeout", "100000"], []])
        r.simulate(argv, clients, 5.0, preempt=c.choice([0, 0, 3]))
        os.chdir(cwd)
        ctx.check(r.exit_at is None, "service-died",
                  f"{type(r.daemon_error).__name__} {r.daemon_error} after {[(q.kind, q.what) for q in clients]}")
        by = {q.n: q for q in clients}
        order = [by[x.who] for x in r.accepted]
        todo = [q for q in order if q.args]
        used = True
        answers = pristine.run([{"args": q.args, "text": q.text} for q in todo])
        hist = [f"{q.n}:{q.kind}{q.what if q.what != '' else ''}" for q in order]
        for q, a in zip(todo, answers):
            tag = f"request {q.n} of {hist}: {' '.join(x for x in q.args[7:])}"
            got = r.answer(q)
            if q.kind in ("good", "failing"):
                ctx.check(got is not None, "no-answer", f"{tag}: got {bytes(q.got)[:200]!r}, one-shot {a['ok']} {a['out'][:100]}")
                code, body = got
                ctx.probe("oneshot_ok" if a["ok"] is True else "oneshot_failed")
                if a["ok"] is True:
                    ctx.check(code == 200 and body.decode() == a["out"], "answer-differs",
                              f"{tag}: status {code}, {first_diff(body.decode(), a['out'])}")
                else:
                    ctx.check(code != 200 or body.decode() == a["out"], "answer-differs",
                              f"{tag}: one-shot fails with {a['ok']}, service says {code} {body[:200]!r}")
            elif got is not None and got[0] == 200 and a["ok"] is True:
                ctx.check(a["out"].encode().startswith(got[1]), "answer-differs", f"{tag} cut: {first_diff(got[1].decode(), a['out'])}")
                ctx.probe("cut_answer_prefix")
            ctx.state(q.kind, q.what, a["ok"] is True, "--trace" in q.args, len(order))
        for q in order:
            if q.kind == "malformed":
                got = r.answer(q)
                ctx.check(got is None or not is_report(got[1]), "answer-to-malformed",
                          f"request {q.n} of {hist}: {q.raw[:80]!r} answered {got and got[1][:100]}")
        lt, mt = T.tree(live), T.tree(mirror)
        start = dict(stale)
        for q in clients:
            if not q.private:
                continue
            x, y = [{k: v for k, v in t.items() if k.startswith(q.private + "/")} for t in (lt, mt)]
            ctx.check(not x or x == y, "files-differ", f"interrupted request {q.n} of {hist}: {file_diff(x, y)}")
            ctx.probe("interrupted_executed" if x else "interrupted_not_executed")
        for t in (lt, mt, start):
            for k in [k for k in t if k.startswith("own/")]:
                del t[k]
        ctx.check(lt == mt, "files-differ", f"{hist}: {file_diff(lt, mt)}")
        ctx.log("isolate", len(order), [a["ok"] is True for a in answers], len(lt))
        ctx.nontrivial = bool(answers)
    finally:
        RUN = None
        os.chdir(cwd)
        if not used:
            pristine.drop()
        shutil.rmtree(top, ignore_errors=True)


def is_report(body):
    try:
        x = json.loads(body)
    except ValueError:
        return False
    return isinstance(x, dict) and "result" in x


def first_diff(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"differs at {k} of {len(a)}/{len(b)}: {a[max(0, k - 40):k + 60]!r} against {b[max(0, k - 40):k + 60]!r}"


def file_diff(a, b):
    return "; ".join(f"{k}: service {describe(a.get(k))}, one-shot {describe(b.get(k))}"
                     for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:600]


def describe(x):
    return "no file" if x is None else f"{len(x)} bytes {T.R.keccak(x).hex()[:8]}"


# -------------------------------------------------------------------- idle


def tiny():
    """The smallest request."""
    return {"input": {"env": {"currentCoinbase": "0x" + "11" * 20, "currentDifficulty": "0x20000", "currentGasLimit": "0x5208",
                              "currentNumber": "0x1", "currentTimestamp": "0x1"}, "alloc": {}, "txs": []},
            "state": {"fork": "Frontier", "chainid": 1, "reward": 0}}


def idle(ctx):
    global RUN
    c = ctx.c
    top = os.path.realpath(tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH")))
    cwd = os.getcwd()
    try:
        r = RUN = Run(ctx)
        limit = c.choice([10, 60, 1, 5, 11, 12, 22, 30, 120, 3600, 0, None])
        forever = not limit
        body = json.dumps(tiny()).encode()
        clients = []
        at = 0.0
        for n in range(c.draw(6)):
            q = Req(n)
            q.kind = c.weighted([(8, "good"), (2, "malformed"), (2, "cut")])
            q.raw = http(c, "/", body)
            if q.kind == "malformed":
                q.raw = c.choice([http(c, "/", b"{"), b"junk\r\n\r\n", http(c, "/", body, length=False), http(c, "/?x", body),
                                  http(c, "/", body, method="GET")])
                ctx.fault("malformed_request")
            elif q.kind == "cut":
                if c.bool(0.5):
                    q.cut_at = c.draw(len(q.raw) + 1)
                else:
                    q.leave_after = 1
                ctx.fault("interrupted_request")
            lim = float(limit or 30)
            at += c.choice([0.0, 0.0, 0.5, lim / 2, lim * 0.99, max(0.0, lim - 0.5), max(0.0, lim - 11), lim, lim + 0.5, lim + 5, lim + 11,
                            11.0, 60.0, 61.0, 60 + lim, 60 + lim * 0.99])
            if c.bool(0.3):
                at += c.choice([0.001, 0.25, 1.7, 6.0])
            q.at = at + 0.01
            r.manners(q, limit)
            clients.append(q)
        lim = float(limit or 30)
        r.durations = [(c.choice([0, 0, 0, 1, 11, 12, lim, lim + 1, lim + 12, 3 * lim + 40]), c.choice([0, 0, 0, 5, lim + 11.5]))
                       for _ in range(8)]
        for a, b in r.durations[:len(clients)]:
            if a + b > lim:
                ctx.fault("tool_slower_than_idle_limit")
        clocks = []
        for _ in range(c.weighted([(3, 0), (1, 1), (1, 3)])):
            clocks.append((c.choice([1.0, 30.0, 65.0, at, at + lim]), c.choice([-500000.0, 3600.0, 1e8, -7.0, 100.0])))
        r.path = os.path.join(top, "daemon.sock")
        if c.bool(0.2):
            with open(r.path, "w"):
                pass
            ctx.fault("stale_socket_file")
        os.chdir(top)
        patch()
        argv = ["daemon", "--uds", r.path] + ([] if limit is None else ["--timeout", str(limit)])
        slack = 30.0
        r.simulate(argv, clients, 20000.0 if forever else 60 + lim + 2 * slack, clocks, preempt=c.choice([0, 2, 6]))
        os.chdir(cwd)
        t0 = r.t0
        story = ([f"{q.n}:{q.kind} {conn_text(q, t0)}" for q in clients],
                 f"exit {None if r.exit_at is None else round(r.exit_at - t0, 2)}", f"limit {limit}")
        ctx.check(r.daemon_error is None, "service-died", f"{type(r.daemon_error).__name__} {r.daemon_error}: {story}")
        # every request that reached the service in time is answered
        ends = [x.t_end for x in r.accepted if x.t_end is not None]
        late = False
        deadline = t0 + lim
        wellformed_end = t0
        for q in sorted((q for q in clients if q.conn or q.refused), key=lambda q: q.conn.t_connect if q.conn else q.refused):
            when = q.conn.t_connect if q.conn else q.refused
            if not forever and when >= deadline - 1e-6:
                late = True
                ctx.probe("request_after_idle_limit")
            if not late and q.kind == "good":
                got = r.answer(q)
                ctx.check(got is not None and got[0] == 200 and is_report(got[1]), "request-unanswered",
                          f"request {q.n} at {round(when - t0, 3)} got {bytes(q.got)[:80]!r}; {story}")
                ctx.probe("answered")
            if q.conn and q.conn.t_end is not None:
                if q.kind == "good":
                    wellformed_end = max(wellformed_end, q.conn.t_end)
                    deadline = max(deadline, q.conn.t_end + lim)
                elif not late:
                    # whether a malformed request counts is left open
                    pass
        for x in r.accepted:
            # whatever was taken up is ended, and never by the service's own end
            ctx.check(x.t_end is not None, "answer-cut", f"request {x.who}: {story}")
        q_of = {q.n: q for q in clients}
        for x in r.accepted:
            q = q_of[x.who]
            if q.kind == "good":
                got = r.answer(q)
                ctx.check(got is not None and got[0] == 200 and is_report(got[1]), "answer-cut", f"request {q.n} was taken up; {story}")
        if forever:
            ctx.check(r.exit_at is None, "stopped-without-limit", f"{story}")
            ctx.probe("kept_running")
        else:
            last = max([t0 + 60.0] + ends)
            ctx.check(r.exit_at is not None and r.exit_at <= last + lim + slack, "never-stops", f"{story}")
            if r.exit_at is not None:
                ctx.check(r.exit_at >= wellformed_end + lim - 1e-6, "stopped-early",
                          f"{round(r.exit_at - wellformed_end, 3)} s after the last request; {story}")
                ctx.probe("stopped_idle")
        ctx.state("idle", limit, len(r.accepted), late, [q.kind for q in clients])
        ctx.log("idle", limit, len(r.accepted), late, r.exit_at and round(r.exit_at - t0, 3))
        ctx.nontrivial = True
    finally:
        RUN = None
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def conn_text(q, t0):
    if q.conn is None:
        return f"refused {round((q.refused or t0) - t0, 2)}"
    x = q.conn
    return "/".join("-" if t is None else str(round(t - t0, 2)) for t in (x.t_connect, x.t_accept, x.t_end))


def run(ctx):
    mode = ctx.params["mode"]
    try:
        if mode == "isolate":
            isolate(ctx)
        elif mode == "idle":
            idle(ctx)
        else:
            raise HarnessError(mode)
    except T.E.Unsupported:
        ctx.count("unsupported_input")
