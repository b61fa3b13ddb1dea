"""Downloads under injected faults: what is left on disk, what was sent to whom."""
import builtins
import contextlib
import gzip
import io
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback
from urllib.parse import urlparse
import zipfile
from pathlib import Path

from vlib import gen
from vlib.httpfault import Redirected, Server

PROPERTY = "S01"
EXT = None
RULE = ("one case = one constructor call of a data manager against a hostile loopback server (or with a fault or kill at the k-th file-system or network "
        "operation), followed by a directory audit and a clean retry; non-trivial when the fault was delivered; distinct by manager, fault, cut point and options")
ASSUMPTIONS = ["a text file (NeuMF, Amazon ratings) cut short by a server that announces no length cannot be recognised and is not tried",
               "an empty answer without an announced length in place of the gzip file of Amazon is not tried (gzip reads it as empty)",
               "temporary files may remain after SIGKILL; SIGINT arrives while the transfer waits for data",
               "TLS is replaced by plain TCP on the loopback interface"]
HF, AZ = "huggingface.co", "mind201910small.blob.core.windows.net"
S = {}


def setup(ctx):
    signal.signal(signal.SIGINT, signal.default_int_handler)          # a check started in the background inherits an ignored SIGINT
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    S["server"] = Server()
    S["fault"] = None
    sys.addaudithook(audit)


# ---- faults at file-system and network operations, delivered by an audit hook

POINTS = {"os.rename", "os.link", "tempfile.mkstemp", "tempfile.mkdtemp", "urllib.Request", "socket.connect", "shutil.move", "shutil.copyfile", "os.truncate"}


def audit(event, args):
    f = S["fault"]
    if f is None:
        return
    if event == "open":
        p = args[0]
        if not isinstance(p, (str, bytes)) or f["root"] not in os.path.abspath(os.fsdecode(p)):
            return
    elif event not in POINTS and not (event == "os.remove" and f["how"] == "kill"):
        return
    f["n"] += 1
    if f["n"] == f["at"]:
        f["hit"] = event
        if f["how"] == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise f["how"]("injected")


def zip_bytes(rng, big=None, comment=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        n = int(big or gen.pick(rng, [10, 700, 30_000, 200_000]))
        z.writestr("x/data", rng.bytes(n), compress_type=gen.pick(rng, [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        z.writestr("x/more", rng.bytes(40))
        if comment:
            z.comment = b"c" * 300
    return b.getvalue()


class Target:
    """A data manager, the URLs it fetches and what must be on disk afterwards."""

    def __init__(self, rng, root, kind=None, where=None):
        import irspack.dataset as ds
        self.kind = kind or gen.pick(rng, ["single", "single", "amazon", "neumf", "mind", "mind"])
        self.rng = rng
        self.dir = os.path.join(root, "d")
        os.makedirs(self.dir, exist_ok=True)
        self.opts = {}
        name = where or gen.pick(rng, ["a.zip", "a", "with space.zip", ".hidden.zip", "a.b.c", "é.zip"])
        self.path = os.path.join(self.dir, name)
        give = self.path if rng.random() < 0.5 else Path(self.path)
        if self.kind == "single":
            self.cls = gen.pick(rng, [ds.MovieLens100KDataManager, ds.MovieLens1MDataManager, ds.MovieLens20MDataManager, ds.CiteULikeADataManager])
            u = urlparse(self.cls.DOWNLOAD_URL)
            self.body = zip_bytes(rng, comment=rng.random() < 0.2)
            self.parts = {(u.hostname, u.path): self.body}
            self.binary = set(self.parts)
            self.files = [self.path]
            self.make = lambda **k: self.cls(give, **k)
        elif self.kind == "amazon":
            self.cls = ds.AmazonMusicDataManager
            self.ratings = b"".join(b"u%d,B%d,%d.0,%d\n" % (i, i * 7, i % 5, 10 ** 9 + i) for i in range(int(gen.pick(rng, [1, 40, 9000]))))
            self.meta = b"".join(b"{'asin': 'B%d', 'title': 't%s'}\n" % (i, rng.bytes(8).hex().encode()) for i in range(int(gen.pick(rng, [1, 40, 3000]))))
            h, base = "snap.stanford.edu", "/data/amazon/productGraph/categoryFiles/"
            g = (h, base + "meta_Digital_Music.json.gz")
            self.parts = {(h, base + "ratings_Digital_Music.csv"): self.ratings, g: gzip.compress(self.meta)}
            self.binary = {g}
            self.files = [self.path]
            self.make = lambda **k: self.cls(give, **k)
        elif self.kind == "neumf":
            self.cls = gen.pick(rng, [ds.NeuMFML1MDownloader, ds.NeuMFMPinterestDownloader])
            self.train = b"".join(b"%d\t%d\t3\t%d\n" % (i, i * 3, 10 ** 9) for i in range(int(gen.pick(rng, [1, 50, 9000]))))
            self.test = b"".join(b"(%d,%d)\t%d\t%d\n" % (i, 9, 5, 6) for i in range(int(gen.pick(rng, [1, 50, 9000]))))
            a, b = (urlparse(x) for x in (self.cls.TRAIN_URL, self.cls.NEGATIVE_URL))
            self.parts = {(a.hostname, a.path): self.train, (b.hostname, b.path): self.test}
            self.binary = set()
            self.files = [self.path]
            self.make = lambda **k: self.cls(give, **k)
        else:
            self.cls = ds.MINDDataManager
            self.size = gen.pick(rng, ["small", "large"])
            self.source = gen.pick(rng, ["huggingface", "huggingface", "azure"])
            host, base = (HF, "/datasets/yjw1029/MIND/resolve/main") if self.source == "huggingface" else (AZ, "/release")
            sub = gen.pick(rng, ["", "new/deep"])
            self.files = [os.path.join(self.dir, sub, s + name) for s in ("tr", "dev")]
            self.urls = [(host, f"{base}/MIND{self.size}_{s}.zip") for s in ("train", "dev")]
            self.bodies = [zip_bytes(rng, comment=rng.random() < 0.2), zip_bytes(rng)]
            self.parts = dict(zip(self.urls, self.bodies))
            self.binary = set(self.parts)
            self.token = None
            f = self.files if rng.random() < 0.5 else [Path(x) for x in self.files]
            self.make = lambda **k: self.cls(*f, size=self.size, download_source=self.source,
                                             **({"hf_token": self.token} if self.token and "hf_token" not in k else {}), **k)
        self.desc = f"{self.cls.__name__} {sorted(os.path.basename(f) for f in self.files)}"

    def plan(self, over=None):
        how = lambda: gen.pick(self.rng, ["length", "length", "close", "chunked"])
        p = {k: dict(kind="ok", body=v, how=how(), pieces=int(self.rng.integers(1, 6))) for k, v in self.parts.items()}
        p.update(over or {})
        return p

    def complete(self, i=0):
        """Is file i present and exactly what the server has?"""
        f = self.files[i]
        try:
            if self.kind == "single":
                return open(f, "rb").read() == self.body
            if self.kind == "mind":
                return open(f, "rb").read() == self.bodies[i]
            with zipfile.ZipFile(f) as z:
                want = ({"amazon-music/ratings.csv": self.ratings, "amazon-music/music-meta.json": self.meta} if self.kind == "amazon"
                        else {"train": self.train, "test": self.test})
                return {n: z.read(n) for n in z.namelist()} == want
        except (OSError, zipfile.BadZipFile, KeyError, zipfile.error, ValueError):
            return False


def listing(root):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)


def close(m):
    try:
        if hasattr(m, "zf"):
            m.zf.close()
        elif hasattr(m, "close"):
            m.close()
    except Exception:
        pass


@contextlib.contextmanager
def scratch():
    root = tempfile.mkdtemp(prefix="s01-")
    tmp = os.path.join(root, "tmp")
    os.makedirs(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        with Redirected(S["server"]):
            yield root
    finally:
        tempfile.tempdir = old
        shutil.rmtree(root, ignore_errors=True)


def attempt(t, plan, output=None, **kw):
    """Run the constructor; returns (manager or None, exception or None)."""
    S["server"].reset(plan)
    out = output if output is not None else io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            m = t.make(**{"force_download": True, **kw})
        return m, None
    except BaseException as e:      # KeyboardInterrupt is one of the faults
        return None, e


def requests():
    return [(h, p) for h, p, _ in S["server"].log]


def audit_failure(case, t, root, e, what, before=()):
    case.check(e is not None, "failure-not-reported", what)
    for i, f in enumerate(t.files):
        if os.path.exists(f):
            case.check(f in before or t.complete(i), "partial-file-at-destination", f"{f} {os.path.getsize(f)} bytes {what}")
    left = [x for x in listing(root) if x not in t.files and x not in before]
    case.check(not left, "temporary-files-remain", f"{left} {what}")


def retry(case, t, what, remains=()):
    """A later run starts afresh and ends with the complete data."""
    need = [i for i, f in enumerate(t.files) if not os.path.exists(f)]
    m, e = attempt(t, t.plan())
    case.check(e is None, "retry-failed", lambda: f"{type(e).__name__}: {e} {what}")
    close(m)
    case.check(all(t.complete(i) for i in range(len(t.files))), "stored-data-differ", what)
    want = set(t.parts) if t.kind != "mind" else {t.urls[i] for i in need}
    if need:
        case.check(set(requests()) == want, "retry-did-not-start-afresh", f"{requests()} {what}")
    else:
        case.check(not requests(), "downloaded-again", what)
    case.check(set(t.files) <= set(listing(t.dir)) <= set(t.files) | set(remains), "temporary-files-remain", f"{listing(t.dir)} {what}")


def network(case):
    """A fault of the network at a random request and byte."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        key = gen.pick(rng, sorted(t.parts))
        body = t.parts[key]
        cut = int(gen.pick(rng, [0, 1, len(body) // 2, len(body) - 1, max(0, len(body) - 23), int(rng.integers(0, len(body)))]))
        kinds = ["short", "short", "short_chunked", "reset", "status", "status", "garbage", "hangup", "sigint"]
        if key in t.binary:
            kinds += ["html"]
            if t.kind != "amazon":
                kinds += ["empty"]
            elif cut == 0:
                cut = 5
            if not (t.kind == "single" or t.kind == "mind") or b"c" * 200 not in body:
                kinds += ["short_close", "short_close"]
        kind = gen.pick(rng, kinds)
        a = dict(kind=kind, body=body, cut=cut)
        if kind == "status":
            a["code"] = int(gen.pick(rng, [401, 403, 404, 409, 416, 429, 500, 503]))
        elif kind == "html":
            a = dict(kind="ok", body=b"<html>log in first</html>" * int(gen.pick(rng, [1, 5000])))
        elif kind == "empty":
            a = dict(kind="ok", body=b"", how=gen.pick(rng, ["length", "close", "chunked"]))
        elif kind == "sigint":
            a["pid"] = os.getpid()
        if t.kind == "mind" and rng.random() < 0.5:
            t.token = "hf_Sec" + rng.bytes(9).hex()
        what = f"{t.desc} {key[0]}{key[1]} {kind} {a.get('code', '')} cut {cut}/{len(body)}"
        out = io.StringIO()
        m, e = attempt(t, t.plan({key: a}), out)
        close(m)
        case.check(key in requests(), "request-not-made", f"{requests()} {what}")
        audit_failure(case, t, root, e, what)
        if kind == "sigint":
            case.check(isinstance(e, KeyboardInterrupt), "interrupt-swallowed", f"{type(e).__name__} {what}")
        if t.kind == "mind" and t.token:
            no_token(case, t.token, e, out, what)
        case.count("fault_" + kind)
        retry(case, t, what)
        case.seen(t.cls.__name__, kind, a.get("code"), cut, len(body), os.path.basename(t.path), manager=t.cls.__name__, fault=kind, cut=cut, of=len(body))


def no_token(case, token, e, out, what):
    texts = ["".join(traceback.format_exception(e))] if e is not None else []
    x, seen = e, set()
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        texts += [str(x), repr(x), repr(x.args)]
        x = x.__cause__ or x.__context__
    texts.append(out.getvalue())
    case.check(not any(token in s for s in texts), "token-disclosed", what)
    case.count("messages_searched", len(texts))


def disk(case):
    """The disk is full after some bytes (file size limit)."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        total = max(len(b) for b in t.parts.values())
        lim = int(gen.pick(rng, [0, 1, 100, total // 2, max(0, total - 1)]))
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        plan = t.plan()
        what = f"{t.desc} file size limit {lim} of {total}"
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        try:
            m, e = attempt(t, plan)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        close(m)
        if e is None:       # a compressed archive may fit
            case.check(all(t.complete(i) for i in range(len(t.files))), "stored-data-differ", what)
        else:
            audit_failure(case, t, root, e, what)
            case.count("writes_refused")
            case.seen(t.cls.__name__, lim, total, manager=t.cls.__name__, limit=lim, of=total)
        retry(case, t, what)


def injected(case):
    """An exception at the k-th file-system or network operation."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        at = int(rng.integers(1, 14))
        exc = gen.pick(rng, [OSError, OSError, KeyboardInterrupt, MemoryError])
        S["fault"] = dict(n=0, at=at, how=exc, hit=None, root=root)
        try:
            m, e = attempt(t, t.plan())
        finally:
            f, S["fault"] = S["fault"], None
        close(m)
        what = f"{t.desc} {exc.__name__} at operation {at} ({f['hit']})"
        if f["hit"] is None:
            case.check(e is None and all(t.complete(i) for i in range(len(t.files))), "stored-data-differ", f"{e!r} {what}")
        elif e is not None:
            audit_failure(case, t, root, e, what)
            case.count("faults_injected")
            case.seen(t.cls.__name__, at, exc.__name__, f["hit"], manager=t.cls.__name__, at=at, operation=f["hit"])
        else:           # survived, so the result has to be complete
            case.check(all(t.complete(i) for i in range(len(t.files))), "stored-data-differ", what)
        retry(case, t, what)


def killed(case):
    """SIGKILL in the middle of a transfer or at the k-th operation."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        plan, how = t.plan(), "operation"
        at = int(rng.integers(1, 16))
        child = [None]
        if rng.random() < 0.4:
            how = "transfer"
            key = gen.pick(rng, sorted(t.parts))
            cut = int(gen.pick(rng, [0, len(t.parts[key]) // 2, len(t.parts[key]) - 1]))
            plan[key] = dict(kind="sigkill", body=t.parts[key], cut=cut, pid=lambda: child[0] or os._exit(9))
        r, w = os.pipe()
        S["server"].reset(plan)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.read(r, 1)
                if how == "operation":
                    S["fault"] = dict(n=0, at=at, how="kill", hit=None, root=root)
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    t.make(force_download=True)
                os._exit(0)
            except BaseException:
                os._exit(1)
        child[0] = pid
        os.write(w, b"x")
        os.close(r), os.close(w)
        _, status = os.waitpid(pid, 0)
        what = f"{t.desc} killed at {how} {at}"
        was = os.WIFSIGNALED(status)
        if not was:
            case.check(os.WEXITSTATUS(status) == 0 and how == "operation", "child-failed", f"status {status} {what}")
        for i, f in enumerate(t.files):
            if os.path.exists(f):
                case.check(t.complete(i), "partial-file-at-destination", f"{os.path.getsize(f)} bytes {what}")
            else:
                case.check(was, "stored-data-differ", what)
        remains = set(listing(root)) - set(t.files)         # of a killed process: allowed, but never used by a later run
        if rng.random() < 0.4:
            for f in remains:
                os.unlink(f)
            remains = set()
        case.count("remains_of_a_kill", len(remains))
        retry(case, t, what, remains)
        if was:
            case.count("kills")
            case.seen(t.cls.__name__, how, at, plan is None, manager=t.cls.__name__, how=how, at=at)


def watched(case):
    """At every step of the download, wherever a crash could fall, each destination is absent or complete."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        over = {}
        if rng.random() < 0.3:
            key = gen.pick(rng, sorted(t.parts))
            over = {key: dict(kind="short", body=t.parts[key], cut=int(rng.integers(0, len(t.parts[key]))))}
        steps, last, bad = [0], [None] * len(t.files), []

        def look(frame, event, arg):
            steps[0] += 1
            for i, f in enumerate(t.files):
                try:
                    st = os.stat(f)
                except FileNotFoundError:
                    last[i] = None
                    continue
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if key != last[i] and not bad:
                    last[i] = key
                    if not t.complete(i):
                        bad.append(f"{os.path.basename(f)} {st.st_size} bytes at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} ({event})")
            return look
        before = sys.gettrace(), sys.getprofile()
        sys.settrace(look)
        sys.setprofile(look)
        try:
            m, e = attempt(t, t.plan(over))
        finally:
            sys.settrace(before[0])
            sys.setprofile(before[1])
        close(m)
        what = f"{t.desc} {'cut short' if over else 'clean'}"
        case.check(not bad, "partial-file-at-destination", f"{bad} {what}")
        case.check((e is not None) == bool(over), "outcome", f"{e!r} {what}")
        case.count("steps_watched", steps[0])
        retry(case, t, what)
        case.seen(t.cls.__name__, bool(over), sum(map(len, t.parts.values())), manager=t.cls.__name__, steps=steps[0], fault=bool(over))


def existing(case):
    """Archives that are there already are used as they are."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        for f in t.files:
            os.makedirs(os.path.dirname(f), exist_ok=True)
        have = list(range(len(t.files)))
        if t.kind == "mind":
            have = gen.pick(rng, [[0], [1], [0, 1]])
        data = gen.pick(rng, [zip_bytes(rng), zip_bytes(rng), zip_bytes(rng)[:-30], b"", b"not an archive"])
        for i in have:
            with open(t.files[i], "wb") as fh:
                fh.write(data)
        before = {f: (open(f, "rb").read(), os.stat(f).st_ino) for f in (t.files[i] for i in have)}
        valid = zipfile.is_zipfile(io.BytesIO(data))
        over = {}
        if len(have) < len(t.files):
            if rng.random() < 0.6:
                over = {k: gen.pick(rng, [dict(kind="short", body=b"x" * 99, cut=50), dict(kind="status", code=403), dict(kind="ok", body=b"junk")]) for k in t.parts}
        asked = []
        old = builtins.input
        builtins.input = lambda *a: asked.append(a) or "y"
        try:
            m, e = attempt(t, t.plan(over), force_download=bool(rng.integers(2)))
        finally:
            builtins.input = old
        close(m)
        what = f"{t.desc} existing {have} valid {valid} {len(data)} bytes"
        for f, (b, ino) in before.items():
            case.check(os.path.exists(f) and open(f, "rb").read() == b, "existing-archive-changed", what)
        want = set() if len(have) == len(t.files) else {t.urls[i] for i in range(2) if i not in have}
        case.check(set(requests()) == want, "existing-archive-requested", f"{requests()} {what}")
        if not want:
            case.check(not asked, "asked-although-present", what)
        case.check((e is None) == (valid and not over), "outcome", f"{e!r} {what}")
        left = set(listing(root)) - set(t.files)
        case.check(not left, "temporary-files-remain", f"{left} {what}")
        if over:
            case.check(all(not os.path.exists(t.files[i]) for i in range(2) if i not in have), "partial-file-at-destination", what)
        case.seen(t.cls.__name__, tuple(have), len(data), bool(over), manager=t.cls.__name__, existing=have, bytes=len(data))


def consent(case):
    """Nothing is requested or written without permission; a clean download is exact."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root)
        answer = gen.pick(rng, ["n", "N", "", "no", "nope", "q", " ", EOFError, KeyboardInterrupt])
        asked = []

        def reply(prompt=""):
            asked.append(prompt)
            if isinstance(answer, type):
                raise answer()
            return answer
        old, builtins.input = builtins.input, reply
        try:
            m, e = attempt(t, t.plan(), force_download=False)
            what = f"{t.desc} answered {answer!r}"
            case.check(e is not None and asked, "no-consent", what)
            case.check(isinstance(e, answer if isinstance(answer, type) else RuntimeError), "outcome", f"{e!r} {what}")
            case.check(not requests() and not listing(root), "downloaded-without-consent", f"{requests()} {listing(root)} {what}")
            builtins.input = lambda *a: gen.pick(rng, ["y", "Y"])
            m, e = attempt(t, t.plan(), force_download=False)
            case.check(e is None, "consent-ignored", f"{e!r} {what}")
            close(m)
            case.check(all(t.complete(i) for i in range(len(t.files))), "stored-data-differ", what)
            case.check(sorted(requests()) == sorted(t.parts), "requests", f"{requests()} {what}")
            case.check(sorted(listing(root)) == sorted(t.files), "temporary-files-remain", what)
        finally:
            builtins.input = old
        case.seen(t.cls.__name__, str(answer), sum(map(len, t.parts.values())), manager=t.cls.__name__, answer=str(answer))


def credentials(case):
    """Where the token goes: to Hugging Face only, whatever it redirects to."""
    rng = case.rng
    with scratch() as root:
        t = Target(rng, root, "mind")
        tok = lambda: "hf_" + rng.bytes(8).hex()
        src = {k: tok() for k in ("hf_token", "HF_TOKEN", "HUGGING_FACE_HUB_TOKEN") if rng.random() < 0.5}
        over, hops = {}, []
        for u, b in zip(t.urls, t.bodies):
            if rng.random() < 0.6:
                host = gen.pick(rng, ["cdn.storage.example", "huggingface.co.evil.example", "evil.example", AZ if t.source == "huggingface" else "cdn.example", "10.0.0.1"])
                scheme = gen.pick(rng, ["https", "http"])
                port = gen.pick(rng, ["", "", ":8443"])
                q = "/x/" + rng.bytes(4).hex() + "?sig=1"
                over[u] = dict(kind="redirect", code=int(gen.pick(rng, [301, 302, 303, 307, 308])), to=f"{scheme}://{host}{port}{q}")
                last = (host, q)
                if rng.random() < 0.3:
                    over[last] = dict(kind="redirect", code=302, to="https://third.example/y")
                    hops.append(last)
                    last = ("third.example", "/y" + rng.bytes(2).hex())
                    over[hops[-1]]["to"] = "https://third.example" + last[1]
                end = gen.pick(rng, ["ok", "ok", "403", "short"])
                over[last] = (dict(kind="ok", body=b) if end == "ok" else dict(kind="status", code=403) if end == "403" else dict(kind="short", body=b, cut=len(b) // 2))
                hops.append(last)
            elif rng.random() < 0.3:
                over[u] = dict(kind="status", code=int(gen.pick(rng, [401, 403, 409, 500])))
        if rng.random() < 0.15 and src:        # a token read from a file, or garbled
            k = gen.pick(rng, sorted(src))
            src[k] = gen.pick(rng, [src[k] + "\n", " " + src[k], src[k] + "\r\n", src[k][:8] + "\n" + src[k][8:], src[k] + "\x00"])
        env = {k: v for k, v in src.items() if k != "hf_token" and "\x00" not in v}
        bad = [v.strip() for v in src.values() if not v.strip().isprintable()]
        old = {k: os.environ.get(k) for k in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN")}
        out = io.StringIO()
        for k in old:
            os.environ.pop(k, None)
        os.environ.update(env)
        try:
            m, e = attempt(t, t.plan(over), out, **({"hf_token": src["hf_token"]} if "hf_token" in src else {}))
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
        close(m)
        what = f"{t.source} tokens {sorted(src)} redirects {len(hops)}"
        secrets = [v.strip() for v in list(src.values())]
        used = src.get("hf_token") or env.get("HF_TOKEN") or env.get("HUGGING_FACE_HUB_TOKEN")
        for host, path, head in S["server"].log:
            text = head.decode("latin-1")
            auth = [l.split(":", 1)[1].strip() for l in text.split("\r\n") if l.lower().startswith("authorization:")]
            if host == HF and t.source == "huggingface":
                want = [f"Bearer {used.strip()}"] if used else []
                case.check(auth == want, "wrong-credential", f"{len(auth)} header(s) {what}")
            else:
                case.check(not auth and not any(s in text for s in secrets), "token-sent-elsewhere", f"sent to {host} {what}")
                case.count("foreign_requests")
            case.count("requests_inspected")
        failed = bool(bad and used and used.strip() in bad and t.source == "huggingface") or any(a["kind"] in ("status", "short") for a in over.values())
        case.check((e is not None) == failed, "outcome", f"{e!r} {what}")
        for s in secrets:
            no_token(case, s, e, out, f"{type(e).__name__} {what}")
        if e is not None:
            audit_failure(case, t, root, e, what)
        else:
            case.check(t.complete(0) and t.complete(1), "stored-data-differ", what)
        if src:
            case.seen(t.source, tuple(sorted(src)), len(hops), tuple(sorted(a["kind"] + str(a.get("code", "")) for a in over.values())),
                      source=t.source, tokens=sorted(src), redirects=len(hops))


FAMILIES = [("network", network, 500, 6000), ("disk", disk, 90, 1000), ("injected", injected, 240, 3000), ("killed", killed, 150, 1500),
            ("watched", watched, 60, 600), ("existing", existing, 120, 1000), ("consent", consent, 80, 800), ("credentials", credentials, 400, 5000)]
