"""Drives the built ethersync binary (cwd is the repository) inside a scratch directory."""
import atexit, json, os, re, shutil, signal, socket, subprocess, sys, tempfile, time

BINARY = os.path.join(os.getcwd(), "daemon/target/debug/ethersync")
scratch = tempfile.mkdtemp(prefix="esync-demo.")
started = []


def cleanup():
    for d in started:
        if d.poll() is None:
            d.kill()
            d.wait()
    shutil.rmtree(scratch, ignore_errors=True)


atexit.register(cleanup)
signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))


def fail(why):
    print("FAIL:", why)
    sys.exit(1)


def wait_for(what, f, seconds=20):
    end = time.time() + seconds
    while time.time() < end:
        r = f()
        if r:
            return r
        time.sleep(0.02)
    fail("timeout: " + what)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


class Daemon:
    def __init__(self, name, files=None, peer=None, secret=None):
        self.name = name
        self.dir = os.path.join(scratch, name)
        os.makedirs(os.path.join(self.dir, ".ethersync"), exist_ok=True)
        self.run = os.path.join(scratch, "run-" + name)
        os.makedirs(self.run, exist_ok=True)
        os.chmod(self.run, 0o700)
        self.peer = peer
        self.port = free_port()
        self.process = None
        if secret is not None:
            self.write(".ethersync/config", "secret=%s\n" % secret)
        for f, content in (files or {}).items():
            self.write(f, content)

    def path(self, f):
        return os.path.join(self.dir, f)

    def write(self, f, content):
        os.makedirs(os.path.dirname(self.path(f)), exist_ok=True)
        with open(self.path(f), "w", newline="") as h:
            h.write(content)

    def read(self, f):
        try:
            with open(self.path(f), newline="") as h:
                return h.read()
        except OSError:
            return None

    def uri(self, f):
        return "file://" + self.path(f)

    def env(self):
        env = dict(os.environ)
        env.update(XDG_RUNTIME_DIR=self.run, ETHERSYNC_SOCKET="sock", USER="root", RUST_BACKTRACE="0")
        return env

    def start(self, init=False, wait=True):
        args = [BINARY, "daemon", self.dir, "--port", str(self.port)]
        if self.peer:
            args += ["--peer", "/ip4/127.0.0.1/tcp/%d" % self.peer.port]
        if init:
            args.append("--init")
        sock = os.path.join(self.run, "sock")
        if os.path.exists(sock):
            os.unlink(sock)
        self.log = open(os.path.join(scratch, "log-%s-%f" % (self.name, time.time())), "w+")
        self.process = subprocess.Popen(args, env=self.env(), stdin=subprocess.DEVNULL,
                                        stdout=self.log, stderr=subprocess.STDOUT)
        started.append(self.process)
        if wait:
            wait_for("socket of " + self.name, lambda: os.path.exists(sock) or not self.alive())
            wait_for("port of " + self.name, lambda: self.listening() or not self.alive())
        return self

    def listening(self):
        try:
            socket.create_connection(("127.0.0.1", self.port), 1).close()
            return True
        except OSError:
            return False

    def alive(self):
        return self.process.poll() is None

    def output(self):
        self.log.flush()
        with open(self.log.name) as h:
            return h.read()

    def stop(self, sig=signal.SIGINT):
        self.process.send_signal(sig)
        self.process.wait(20)

    def kill(self):
        self.stop(signal.SIGKILL)


class Editor:
    """Speaks the editor protocol. Nothing is read before someone asks."""

    def __init__(self, daemon):
        self.daemon = daemon
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.connect(os.path.join(daemon.run, "sock"))
        self.buffer = b""
        self.next_id = 0
        self.pending = []

    def send_raw(self, data):
        self.sock.sendall(data)

    def request(self, method, params, id=None):
        self.next_id += 1
        self.send_raw(json.dumps({"jsonrpc": "2.0", "id": self.next_id, "method": method, "params": params}).encode() + b"\n")
        return self.next_id

    def message(self, timeout=10):
        """The next message of the daemon, or None."""
        if self.pending:
            return self.pending.pop(0)
        return self.receive(timeout)

    def receive(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buffer:
            left = end - time.time()
            if left <= 0:
                return None
            self.sock.settimeout(left)
            try:
                data = self.sock.recv(65536)
            except (socket.timeout, ConnectionError):
                return None
            if not data:
                return None
            self.buffer += data
        line, self.buffer = self.buffer.split(b"\n", 1)
        return json.loads(line)

    def call(self, method, params, timeout=10):
        """Sends a request and returns its response; other messages are kept."""
        id = self.request(method, params)
        end = time.time() + timeout
        while time.time() < end:
            m = self.receive(end - time.time())
            if m is None:
                return None
            if m.get("id") == id and "method" not in m:
                return m
            self.pending.append(m)
        return None

    def open(self, f):
        r = self.call("open", {"uri": self.daemon.uri(f)})
        if r is None or "error" in r:
            fail("opening %s: %r" % (f, r))

    def close_file(self, f):
        return self.call("close", {"uri": self.daemon.uri(f)})

    def edit(self, f, revision, start, end, text):
        op = {"range": {"start": pos(start), "end": pos(end)}, "replacement": text}
        return self.call("edit", {"uri": self.daemon.uri(f), "revision": revision, "delta": [op]})

    def notify_edit(self, f, revision, start, end, text):
        op = {"range": {"start": pos(start), "end": pos(end)}, "replacement": text}
        return self.request("edit", {"uri": self.daemon.uri(f), "revision": revision, "delta": [op]})

    def cursor(self, f, ranges):
        return self.call("cursor", {"uri": self.daemon.uri(f),
                                    "ranges": [{"start": pos(a), "end": pos(b)} for a, b in ranges]})

    def drop(self):
        self.sock.close()


def pos(p):
    return {"line": p[0], "character": p[1]}


def offset(text, p):
    lines = text.split("\n")
    if p["line"] >= len(lines):
        return len(text)
    return sum(len(l) + 1 for l in lines[: p["line"]]) + min(p["character"], len(lines[p["line"]]))


def apply(text, delta):
    """Applies the operations of one edit; all positions refer to the text before."""
    spans = sorted(((offset(text, op["range"]["start"]), offset(text, op["range"]["end"]), op["replacement"]) for op in delta),
                   key=lambda s: s[:2])
    result, at = "", 0
    for start, end, replacement in spans:
        result += text[at:start] + replacement
        at = max(at, end)
    return result + text[at:]


class Buffer:
    """A buffer of an editor that follows the protocol (see docs)."""

    def __init__(self, editor, f, content):
        self.e, self.f, self.text = editor, f, content
        self.seen = 0
        self.sent = 0
        editor.open(f)

    def type(self, start, end, replacement, wait=True):
        op = {"range": {"start": pos(start), "end": pos(end)}, "replacement": replacement}
        self.text = apply(self.text, [op])
        self.sent += 1
        params = {"uri": self.e.daemon.uri(self.f), "revision": self.seen, "delta": [op]}
        if wait:
            r = self.e.call("edit", params)
            if r is None or "error" in r:
                fail("edit refused: %r" % r)
        else:
            self.e.request("edit", params)

    def take(self, timeout=0.5):
        """Handles messages until the daemon is quiet."""
        while True:
            m = self.e.message(timeout)
            if m is None:
                return self.text
            if m.get("method") == "edit" and m["params"]["uri"] == self.e.daemon.uri(self.f):
                p = m["params"]
                if p["revision"] == self.sent:
                    self.text = apply(self.text, p["delta"])
                    self.seen += 1
