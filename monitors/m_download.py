"""C28: tools/download_sumo_datasets.py against a scripted server, with faults and crashes."""
import http.server
import io
import json
import os
import signal
import socket
import socketserver
import struct
import subprocess
import sys
import threading
import time
import urllib.parse
import zipfile
import zlib

from core import scenario
import gen

TOOL = os.path.join(os.environ["VERIF_TREE"], "..", "tools", "download_sumo_datasets.py")
RUNNER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "run_tool.py")
PLENTY = 1 << 45
ATTEMPTS = 3          # as the tool documents (MAX_RETRIES): tries of one run before giving up
WAIT_S = 120         # wall clock of one run of the tool (typical: 1 s)


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def __init__(self, files):
        http.server.HTTPServer.__init__(self, ("127.0.0.1", 0), Handler)
        self.files, self.plan, self.log, self.on_half, self.lock = files, {}, [], None, threading.Lock()
        threading.Thread(target=self.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True).start()

    def handle_error(self, request, client_address):
        pass

    @property
    def url(self):
        return "http://127.0.0.1:%d" % self.server_port

    def stop(self):
        self.shutdown()
        self.server_close()

    def fetched(self):
        with self.lock:
            return list(self.log)


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_GET(self):
        s = self.server
        path = urllib.parse.unquote(urllib.parse.urlsplit(self.path).path)
        with s.lock:
            s.log.append(path)
            todo = s.plan.get(path)
            how = todo.pop(0) if todo else "ok"
        data = s.files.get(path)
        if how == "refuse":
            self.close_connection = True
            return
        if how in ("404", "500", "403") or data is None:
            self.send_response(int(how) if how.isdigit() else 404)
            body = b"no such file"
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)
            return
        if how == "html":
            data = b"<html>please log in</html>" * 40
        elif how == "cut":
            data = data[:len(data) * 2 // 3]
        elif how == "damaged":
            data = damaged(data)
        self.send_response(200)
        self.send_header("Content-Type", "application/json" if path.endswith(".json") else "application/zip")
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        half = len(data) // 2
        if how in ("short", "reset", "kill", "slow"):
            if how == "short" and s.half:
                half = s.half(len(data))
            self.wfile.write(data[:half])
            self.wfile.flush()
            if how == "kill":
                time.sleep(0.05)
                s.on_half()
                self.close_connection = True
                return
            if how == "slow":
                time.sleep(0.15)
                self.wfile.write(data[half:])
                return
            if how == "reset":
                self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                self.connection.close()
            self.close_connection = True
            return
        self.wfile.write(data)


def damaged(data):
    """The zip file <data> with one byte of a member's contents changed, or None if that changes nothing."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for i in z.infolist():
            if i.file_size:
                at = i.header_offset + 30 + len(i.filename.encode("utf-8")) + i.compress_size // 2
                bad = data[:at] + bytes([data[at] ^ 0x40]) + data[at + 1:]
                try:
                    if zipfile.ZipFile(io.BytesIO(bad)).testzip() is None:
                        continue
                except (zipfile.BadZipFile, zlib.error, EOFError):
                    pass
                return bad
    return None


def member_name(rng, k):
    return gen.pick(rng, ["scene_%03d/input.tif", "scene_%03d/ground_truth/objects/%%d.glb", "scene_%03d.xml", "a b/%03d.bin", "d%03d/é.txt", "%03d"]) % k


def make_zip(rng, k, big):
    """-> (bytes, {member: bytes})"""
    out, members = io.BytesIO(), {}
    with zipfile.ZipFile(out, "w", gen.pick(rng, [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for j in range(int(rng.integers(0 if k else 1, 5))):
            n = "%d_" % k + member_name(rng, j) if rng.integers(2) else "shared/%d_%d.dat" % (k, j)
            data = bytes(rng.integers(0, 256, int(gen.pick(rng, [0, 1, 100, 5000, 300000 if big else 9000])), dtype="uint8"))
            if n in members:
                continue
            z.writestr(n, data)
            members[n] = data
        if rng.integers(3) == 0:
            z.writestr("folder_%d/" % k, b"")
    return out.getvalue(), members


class Dataset(object):
    def __init__(self, rng, big=False):
        n, m = int(gen.pick(rng, [1, 2, 3, 5])), int(gen.pick(rng, [0, 1, 2, 4]))
        if rng.integers(8) == 0:
            n = 0
        kind = int(rng.integers(4))
        self.names = [gen.pick(rng, ["sumo_input_%02d.zip", "input.%02d.zip", "Set %02d.zip", "é_%02d.zip"] if kind == 0 else ["sumo_input_%02d.zip"]) % k for k in range(n)]
        self.names += ["sumo_ground_truth_%02d.zip" % k for k in range(m)]
        self.zips, self.members = {}, {}
        for k, name in enumerate(self.names):
            self.zips[name], self.members[name] = make_zip(rng, k, big)
        self.config = dict(training_input=self.names[:n], training_ground_truth=self.names[n:])
        if rng.integers(2):
            self.config["evaluation_input"] = ["later.zip"]
        self.files = {"/config/sumochallenge.json": json.dumps(self.config).encode()}
        for name, data in self.zips.items():
            self.files["/training/" + name] = data
        self.everything = {}
        for m in self.members.values():
            self.everything.update(m)

    def digestible(self):
        return [(n, self.zips[n]) for n in self.names]


DESTS = ["data", "data", "a b", "d[1]", "x*y", "down.zip", "my.cache", "deep/er/data", "é", "[a-z]", "q?"]
OWN = {"mine.txt": b"notes", "mine.zip": None, "old/scene.xml": b"<x/>", "sumo_input_00.txt": b"1", ".hidden": b"h", "other.part": b"p"}


def own_zip():
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        z.writestr("from_mine.txt", "do not extract")
    return out.getvalue()


def put_own(rng, dest):
    """Files of the user's own in the destination -> {name: bytes}"""
    own = {}
    if rng.integers(3) == 0:
        return own
    for n, data in OWN.items():
        if rng.integers(2):
            own[n] = own_zip() if data is None else data
            p = os.path.join(dest, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(own[n])
    return own


def tree(dest):
    out = {}
    for d, _, ns in os.walk(dest):
        for n in ns:
            p = os.path.join(d, n)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, dest)] = fh.read()
    return out


class Run(object):
    """One process group of the tool."""

    def __init__(self, ctx, dest, url, crash_at=None, sig=signal.SIGKILL, free=PLENTY, chunk=65536, cwd=None):
        self.ctx = ctx
        self.watch = os.path.abspath(os.path.join(cwd or os.getcwd(), dest))
        self.count = os.path.join(ctx.tmp(), "count")
        open(self.count, "w").close()
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p), VERIF_FREE=str(free), VERIF_CHUNK=str(chunk),
                   VERIF_WATCH=self.watch, VERIF_COUNT=self.count, VERIF_SIGNAL=str(int(sig)), NO_PROXY="*", no_proxy="*")
        if crash_at:
            env["VERIF_CRASH_AT"] = str(crash_at)
        self.err = open(os.path.join(ctx.tmp(), "log"), "w+b")
        self.p = subprocess.Popen([sys.executable, RUNNER, TOOL, dest, url], env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self, sig):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass

    def wait(self, ctx, interrupted=False):
        """<interrupted>: after Ctrl-C the pool of multiprocessing may rarely block (a lock held by a process
        that was ended), so a run that stays is ended here and only what it left behind is judged."""
        try:
            self.p.wait(6 if interrupted else WAIT_S)
            ended = True
        except subprocess.TimeoutExpired:
            ended = interrupted
            if interrupted:
                ctx.count("blocked_after_interrupt")
            else:
                os.kill(self.p.pid, signal.SIGUSR1)
                time.sleep(1)
        self.kill(signal.SIGKILL)
        self.p.wait()
        time.sleep(0.01)
        self.err.seek(0)
        self.text = self.err.read().decode("utf-8", "replace")
        self.err.close()
        with open(self.count) as fh:
            self.events = fh.read().split("\n")[:-1]
        ctx.check(ended, "no-termination:download", "the tool still ran after %d s" % WAIT_S, log=self.text[-1500:])
        ctx.count("runs")
        return self


def settled(ctx, dest, data, own, key, log="", without=(), partly=()):
    """The destination holds exactly what was published (except the zips <without>) and what it had;
    of the zips <partly> there may be files."""
    got = tree(dest)
    want = dict(own)
    for n in data.names:
        if n not in without:
            want.update(data.members[n])
    for n, b in want.items():
        ctx.check(n in got, key + ":file-missing", file=n, log=log[-1500:])
        ctx.check(got[n] == b, key + ":file-differs", file=n, got=len(got[n]), expected=len(b), log=log[-1500:])
    may = {m for n in partly for m in data.members[n]}
    rest = sorted(n for n in got if n not in want and n not in may and os.path.dirname(n) != ".cache")
    ctx.check(not rest, key + ":other-files-left", got=rest[:10], log=log[-1500:])
    ctx.count("files_compared", len(want))


def markers_honest(ctx, dest, data, key):
    """At any moment: a zip noted as done has all its files in place, and a .zip that is there is whole."""
    got = tree(dest)
    for n in data.names:
        if os.path.join(".cache", n.replace(".zip", ".cache")) in got:
            ctx.count("markers_checked")
            for m, b in data.members[n].items():
                ctx.check(got.get(m) == b, key + ":noted-as-done-but-incomplete", zip=n, file=m)
        if n in got:
            ctx.count("zips_checked")
            ctx.check(got[n] == data.zips[n], key + ":partial-zip-under-its-final-name", zip=n, got=len(got[n]), expected=len(data.zips[n]))


def again(ctx, dest, data, own, srv, cwd, shown):
    """A further run downloads nothing and changes nothing."""
    before, n = tree(dest), len(srv.fetched())
    r = Run(ctx, shown, srv.url, cwd=cwd).wait(ctx)
    new = srv.fetched()[n:]
    ctx.check([p for p in new if not p.startswith("/config/")] == [], "repeated-run-downloads-again", got=new, log=r.text[-1500:])
    ctx.check(tree(dest) == before, "repeated-run-changes-files", got=sorted(set(tree(dest)) ^ set(before)))
    ctx.count("repeated")


def place(rng, ctx):
    """-> (working directory, destination as given, destination)"""
    base = ctx.tmp()
    name = gen.pick(rng, DESTS)
    k = int(rng.integers(4))
    dest = os.path.join(base, name)
    shown = [dest, name, dest + "/", "./" + name][k]
    return base, shown, dest


def server(ctx, data, rng):
    s = Server(dict(data.files))
    cut = float(rng.random())
    s.half = lambda n: gen.pick(rng, [0, n // 2, max(0, n - 1), int(n * cut)])
    return s


def url_of(rng, srv):
    return srv.url + gen.pick(rng, ["", "", "/", "//"])


@scenario(quick=64)
def complete_runs(rng, ctx):
    """Also with passing faults (fewer than the tool's tries), everything published arrives."""
    data = Dataset(rng, big=True)
    base, shown, dest = place(rng, ctx)
    own = {}
    if rng.integers(2):
        os.makedirs(dest)
        own = put_own(rng, dest)
    srv = server(ctx, data, rng)
    try:
        faults = {}
        if rng.integers(3):
            for n in data.names:
                if rng.integers(2):
                    faults[n] = [gen.pick(rng, ["404", "500", "short", "short", "reset", "refuse", "slow"]) for _ in range(int(rng.integers(1, ATTEMPTS)))]
                    srv.plan["/training/" + n] = list(faults[n])
        ctx.case(data.digestible(), shown, sorted(faults.items()), sorted(own), trivial=not data.names)
        r = Run(ctx, shown, url_of(rng, srv), cwd=base, chunk=gen.pick(rng, [1000, 65536, 1 << 20])).wait(ctx)
        log = srv.fetched()
        settled(ctx, dest, data, own, "complete", r.text)
        markers_honest(ctx, dest, data, "complete")
        for n in data.names:
            failed = sum(f != "slow" for f in faults.get(n, []))
            # ends of a connection with no answer may be repeated below the tool
            if "refuse" not in faults.get(n, []) and "reset" not in faults.get(n, []):
                got = log.count("/training/" + n)
                first_good = next((i for i, f in enumerate(faults.get(n, [])) if f == "slow"), failed)
                ctx.check(got == first_good + 1, "requests-per-file", zip=n, got=got, expected=first_good + 1, faults=faults.get(n))
        ctx.count("faults", sum(len(f) for f in faults.values()))
        ctx.check(not [p for p in log if p not in data.files], "requests-for-unlisted-files", got=log)
        again(ctx, dest, data, own, srv, base, shown)
    finally:
        srv.stop()


@scenario(quick=160)
def crashes(rng, ctx):
    """Killed or interrupted at some point, then run again: nothing partial is ever taken for whole."""
    data = Dataset(rng)
    if not data.names:
        ctx.case(trivial=True)
        return
    base, shown, dest = place(rng, ctx)
    os.makedirs(dest)
    own = put_own(rng, dest)
    srv = server(ctx, data, rng)
    try:
        plans = []
        for turn in range(int(gen.pick(rng, [1, 1, 2, 3]))):
            sig = gen.pick(rng, [signal.SIGKILL, signal.SIGKILL, signal.SIGINT])
            srv.plan.clear()
            if rng.integers(3) == 0:
                victim = gen.pick(rng, data.names)
                plans.append((int(sig), victim))
                hold = threading.Event()
                box = {}

                def on_half():
                    hold.wait(20)
                    box["run"].kill(sig)
                srv.on_half = on_half
                srv.plan["/training/" + victim] = ["kill"]
                box["run"] = r = Run(ctx, shown, srv.url, cwd=base, chunk=1000)
                hold.set()
                how = "during_a_transfer"
            else:
                at = int(rng.integers(1, 6 + 9 * len(data.names)))
                plans.append((int(sig), at))
                r = Run(ctx, shown, srv.url, crash_at=at, sig=sig, cwd=base)
                how = "at_a_file_operation"
            if turn == 0:
                ctx.case(data.digestible(), shown, plans, sorted(own))
            r.wait(ctx, sig == signal.SIGINT)
            ended = r.p.returncode != 0 or "interrupted" in r.text
            ctx.count("ended_" + how if ended else "ran_through")
            if ended and how == "at_a_file_operation" and len(r.events) >= at:
                ctx.count("at:" + r.events[at - 1].strip().replace(" ", "_"))
            markers_honest(ctx, dest, data, "crash")
        srv.plan.clear()
        r = Run(ctx, shown, url_of(rng, srv), cwd=base).wait(ctx)
        markers_honest(ctx, dest, data, "resumed")
        settled(ctx, dest, data, own, "resumed", r.text)
        ctx.count("resumed")
        again(ctx, dest, data, own, srv, base, shown)
    finally:
        srv.stop()


@scenario(quick=48)
def lasting_faults(rng, ctx):
    """What the server never gives does not hold up the rest, and comes when the server is repaired."""
    data = Dataset(rng)
    base, shown, dest = place(rng, ctx)
    os.makedirs(dest)
    own = put_own(rng, dest)
    srv = server(ctx, data, rng)
    try:
        bad = {n: gen.pick(rng, ["404", "500", "403", "short", "short", "reset", "missing", "html", "cut", "damaged", "damaged"]) for n in data.names if rng.integers(3) == 0}
        bad = {n: "html" if f == "damaged" and not damaged(data.zips[n]) else f for n, f in bad.items()}
        for n, f in bad.items():
            if f == "missing":
                del srv.files["/training/" + n]
            else:
                srv.plan["/training/" + n] = [f] * 50
        ctx.case(data.digestible(), sorted(bad.items()), shown, sorted(own), trivial=not bad)
        r = Run(ctx, shown, url_of(rng, srv), cwd=base).wait(ctx)
        log = srv.fetched()
        markers_honest(ctx, dest, data, "lasting")
        settled(ctx, dest, data, own, "lasting", r.text, without=bad, partly=[n for n, f in bad.items() if f == "damaged"])
        for n, f in bad.items():
            ctx.count("lasting_" + f)
            if f == "damaged":
                ctx.check(1 <= log.count("/training/" + n) <= ATTEMPTS, "tries-before-giving-up", zip=n, got=log.count("/training/" + n))
            elif f != "reset":
                ctx.check(log.count("/training/" + n) == ATTEMPTS, "tries-before-giving-up", zip=n, got=log.count("/training/" + n), expected=ATTEMPTS)
            ctx.check(n in r.text, "failure-not-reported", zip=n, log=r.text[-1500:])
        ctx.count("lasting_faults", len(bad))
        srv.plan.clear()
        srv.files = dict(data.files)
        r = Run(ctx, shown, srv.url, cwd=base).wait(ctx)
        settled(ctx, dest, data, own, "repaired", r.text)
        fresh = srv.fetched()[len(log):]
        ctx.check(sorted(p for p in fresh if p.startswith("/training/")) == sorted("/training/" + n for n in bad), "repaired-run-downloads", got=fresh, expected=sorted(bad))
    finally:
        srv.stop()


@scenario(quick=24)
def blocked_extraction(rng, ctx):
    """A zip whose contents cannot be put in place does not hold up the others, and is not lost or noted as done."""
    data = Dataset(rng)
    if not any(data.members.values()):
        ctx.case(trivial=True)
        return
    base, shown, dest = place(rng, ctx)
    os.makedirs(dest)
    own = put_own(rng, dest)
    victim = gen.pick(rng, [n for n in data.names if data.members[n]])
    m = gen.pick(rng, sorted(data.members[victim]))
    os.makedirs(os.path.join(dest, m))
    block = os.path.join(m, "mine.txt")
    with open(os.path.join(dest, block), "wb") as fh:
        fh.write(b"in the way")
    ctx.case(data.digestible(), victim, m, shown, sorted(own))
    srv = server(ctx, data, rng)
    try:
        r = Run(ctx, shown, srv.url, cwd=base).wait(ctx)
        log = srv.fetched()
        for n in data.names:
            ctx.check(log.count("/training/" + n) == 1, "blocked:requests-per-file", zip=n, got=log.count("/training/" + n))
        markers_honest(ctx, dest, data, "blocked")
        got = tree(dest)
        ctx.check(got.get(victim) == data.zips[victim], "blocked:zip-lost", zip=victim, log=r.text[-1500:])
        settled(ctx, dest, data, dict(own, **{block: b"in the way", victim: data.zips[victim]}), "blocked", r.text, without=[victim], partly=[victim])
        ctx.check("unable to extract" in r.text.lower(), "blocked:failure-not-reported", log=r.text[-1500:])
        os.unlink(os.path.join(dest, block))
        os.rmdir(os.path.join(dest, m))
        r = Run(ctx, shown, srv.url, cwd=base).wait(ctx)
        settled(ctx, dest, data, own, "unblocked", r.text)
        again(ctx, dest, data, own, srv, base, shown)
        ctx.check([p for p in srv.fetched()[len(log):] if p.startswith("/training/")] == [], "unblocked:downloads-again")
        ctx.count("unblocked")
    finally:
        srv.stop()


@scenario(quick=36)
def refusals(rng, ctx):
    """No file list, or not enough room: nothing is downloaded and nothing is touched."""
    data = Dataset(rng)
    base, shown, dest = place(rng, ctx)
    os.makedirs(dest)
    own = put_own(rng, dest)
    srv = server(ctx, data, rng)
    try:
        k = ctx.index % 6
        free = PLENTY
        gb = 1 << 30
        need = (6 * len(data.names) + 10) * gb   # documented in the tool: 6 GB for each zip and 10 GB to extract
        if k == 0:
            srv.plan["/config/sumochallenge.json"] = [gen.pick(rng, ["404", "500", "refuse"])] * 9
        elif k == 1:
            srv.files["/config/sumochallenge.json"] = gen.pick(rng, [b"", b"{", b"[]", b"<html>", b'{"training_input": []}', b'{"training_ground_truth": []}'])
        elif k == 2:
            srv.stop()
        else:
            free = int(gen.pick(rng, [0, gb, need - gb, need // 2, need - 10 * gb]))
        ctx.case(k, free, data.digestible(), shown, sorted(own))
        r = Run(ctx, shown, srv.url, cwd=base, free=free).wait(ctx)
        got = {n: b for n, b in tree(dest).items() if os.path.dirname(n) != ".cache"}
        ctx.check(got == own, "refused-run-changed-files", kind=k, got=sorted(set(got) ^ set(own)))
        ctx.check(not [p for p in srv.fetched() if p.startswith("/training/")], "refused-run-downloads", kind=k, free=free, got=srv.fetched())
        ctx.check("error" in r.text.lower(), "refusal-not-reported", kind=k, log=r.text[-1500:])
        ctx.count("refused_%d" % min(k, 3))
        if k >= 3:
            # room for what is missing is enough
            r = Run(ctx, shown, srv.url, cwd=base, free=need + gb).wait(ctx)
            settled(ctx, dest, data, own, "enough-room", r.text)
            r = Run(ctx, shown, srv.url, cwd=base, free=11 * gb).wait(ctx)
            ctx.check("GB" not in r.text, "nothing-left-to-download-needs-room", log=r.text[-800:])
            ctx.count("enough_room")
    finally:
        if k != 2:
            srv.stop()
