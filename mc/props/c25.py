"""C25: the download tool under transfer errors, kills, disk failures and schedules."""
import concurrent.futures
import contextlib
import errno
import io
import itertools
import json
import logging
import multiprocessing
import multiprocessing.pool
import os
import pickle
import runpy
import shutil
import sys
import types
import zipfile

from mc.core import fail
from mc import faults

TOOL = os.path.join(os.environ.get("MC_REPO", "/repo"), "tools", "download_sumo_datasets.py")
URL = "http://server.example"


# -- archives -----------------------------------------------------------------
CONTENTS = {
    "in_1.zip": {"training/": None, "training/1/": None, "training/1/a.txt": b"alpha" * 9, "training/1/empty": b"",
                 "training/1/sub/b.bin": bytes(range(256)) * 3},
    "in_2.zip": {"training/2/a.txt": b"second", "training/shared/c": b"from in_2"},
    "gt_1.zip": {"training/1/gt.txt": b"truth", "gt only": b"x" * 70},
}
NAMES = tuple(CONTENTS)
# names that contain, end or begin one another, or hold the suffixes elsewhere
ODD = ("1.zip", "11.zip", "x1.zip", "1.0.zip", "a-1.0.zip", "a-1.1.zip", "A-1.0.zip", "a b.zip", "a.zip", "a.zip.zip", "a.cache.zip", "azip.zip",
       "zip.zip", "cache.zip", "gt_1.0.zip", "é.zip", "%20.zip", "[1].zip", "*.zip", "{}.zip", "a.tar.zip", "a.partial.zip")
for _i, _n in enumerate(ODD):
    CONTENTS[_n] = {"training/odd%d/a.txt" % _i: b"odd %d" % _i, "training/odd": b"shared"}
MANY = tuple(("in_m%d.zip", "gt_m%d.zip")[_i % 2] % _i for _i in range(300))
for _i, _n in enumerate(MANY):
    CONTENTS[_n] = {"training/m%d/a.txt" % _i: b"many %d" % _i}
DEFLATED = {"in_1.zip", "gt_1.zip"}


def make_zip(name):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if name in DEFLATED else zipfile.ZIP_STORED) as z:
        for n, data in CONTENTS[name].items():
            i = zipfile.ZipInfo(n, (2019, 1, 2, 3, 4, 6))
            i.compress_type = z.compression
            i.external_attr = (0o40755 << 16 | 0x10) if data is None else 0o644 << 16
            z.writestr(i, data or b"")
    return b.getvalue()


ZIPS = {n: make_zip(n) for n in CONTENTS}


def damaged(name):
    b = bytearray(ZIPS[name])
    with zipfile.ZipFile(io.BytesIO(b)) as z:
        i = max(z.infolist(), key=lambda i: i.compress_size)
    b[i.header_offset + 30 + len(i.filename) + i.compress_size // 2] ^= 0xff      # in the data of a file
    return bytes(b)


# -- a server -----------------------------------------------------------------
class RequestError(IOError):
    pass


class ConnError(RequestError):
    pass


class ChunkError(RequestError):
    pass


class Headers(dict):
    def get(self, k, d=None):
        return dict.get(self, k.lower(), d)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())

    def __contains__(self, k):
        return dict.__contains__(self, k.lower())


class Response:
    def __init__(self, status, body, length="right", breaks=False):
        self.status_code, self._body, self._breaks = status, body, breaks
        self.ok = status < 400
        self.reason = "reason"
        self.headers = Headers()
        if length == "right":
            self.headers["content-length"] = str(len(body))
        elif length is not None:
            self.headers["content-length"] = str(length)

    @property
    def content(self):
        if self._breaks:
            raise ChunkError("connection broken")
        return self._body

    text = property(lambda self: self.content.decode("utf-8", "replace"))

    def iter_content(self, chunk_size=1, decode_unicode=False):
        n = max(1, min(chunk_size or 1 << 30, len(self._body) // 3 + 1))
        for i in range(0, len(self._body), n):
            yield self._body[i:i + n]
            yield b""
        if self._breaks:
            raise ChunkError("connection broken")

    def json(self, **k):
        return json.loads(self.content.decode())

    def raise_for_status(self):
        if not self.ok:
            raise RequestError("status %d" % self.status_code)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


KINDS = ("ok", "404", "500", "refused", "breaks", "short", "no-length", "damaged", "page", "empty")


class Server:
    """plan: {archive: [kind of the first answer, ...]}, afterwards all is well."""

    def __init__(self, names, log, plan=(), config="ok", others=()):
        self.names, self.log, self.plan, self.config = names, log, dict(plan), config
        self.bodies = dict(ZIPS)
        self.bodies.update(others)

    def requests(self):
        if not os.path.exists(self.log):
            return []
        with open(self.log) as f:
            return f.read().splitlines()

    def get(self, url, *a, **k):
        if url == URL + "/config/sumochallenge.json":
            if self.config == "refused":
                raise ConnError("refused")
            cfg = {"training_input": [n for n in self.names if not n.startswith("gt")],
                   "training_ground_truth": [n for n in self.names if n.startswith("gt")]}
            if self.config == "no-json":
                return Response(200, b"<html>")
            if self.config == "no-key":
                del cfg["training_ground_truth"]
            return Response(503 if self.config == "503" else 200, json.dumps(cfg).encode())
        pre = URL + "/training/"
        name = url[len(pre):]
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, ((name if url.startswith(pre) else "?" + url) + "\n").encode())
        os.close(fd)
        if not url.startswith(pre) or name not in self.names:
            return Response(404, b"no such file")
        nth = self.requests().count(name) - 1
        kinds = self.plan.get(name, ())
        kind = kinds[nth] if nth < len(kinds) else "ok"
        body = self.bodies[name]
        if kind in ("404", "500"):
            return Response(int(kind), b"<html>error</html>")
        if kind == "refused":
            raise ConnError("refused")
        if kind == "breaks":
            return Response(200, body[:len(body) // 2], len(body), breaks=True)
        if kind == "short":
            return Response(200, body[:-1], len(body))
        if kind == "no-length":
            return Response(200, body[:-20], None)
        if kind == "damaged":
            return Response(200, damaged(name))
        if kind == "page":
            return Response(200, b"<html>please log in</html>")
        if kind == "empty":
            return Response(200, b"")
        return Response(200, body)

    def module(self):
        m = types.ModuleType("requests")
        m.get = self.get
        m.exceptions = types.ModuleType("requests.exceptions")
        for n, c in (("RequestException", RequestError), ("ConnectionError", ConnError), ("Timeout", ConnError),
                     ("HTTPError", RequestError), ("ChunkedEncodingError", ChunkError)):
            setattr(m, n, c)
            setattr(m.exceptions, n, c)

        class Session:
            get = staticmethod(self.get)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass
        m.Session = m.session = Session
        return m


def sequential(fns):
    out = []
    for f in fns:
        try:
            out.append((0, f()))
        except Exception as e:
            out.append((1, e))
    return out


class Result:
    """What a call of the pool will give; the tasks run when somebody waits for any of them."""
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.v, self.n, self.single = pool, [], n, single
        self.callback, self.error_callback = callback, error_callback

    def done(self, outcome):
        self.v.append(outcome)
        if len(self.v) == self.n:
            bad = [x for k, x in self.v if k]
            if bad and self.error_callback:
                self.error_callback(bad[0])
            if not bad and self.callback:
                self.callback(self.value())

    def value(self):
        return self.v[0][1] if self.single else [x for _, x in self.v]

    def get(self, timeout=None):
        self.pool.flush()
        for kind, x in self.v:
            if kind:
                raise x
        return self.value()

    def wait(self, timeout=None):
        self.pool.flush()

    def ready(self):
        self.pool.flush()
        return True

    def successful(self):
        self.pool.flush()
        return not any(k for k, _ in self.v)


class Pool:
    """The tasks wait until somebody waits for them, and then run in order, or as <runner> decides;
    an exception of a task goes into its result."""
    runner = None

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.queue = []
        if initializer:
            initializer(*initargs)

    def flush(self):
        queue, self.queue = self.queue, []
        if queue:
            for (_, done), o in zip(queue, (Pool.runner or sequential)([f for f, _ in queue])):
                done(o)

    def map_async(self, f, items, chunksize=None, callback=None, error_callback=None, single=False):
        items = list(items)
        r = Result(self, len(items), single, callback, error_callback)
        self.queue += [(lambda x=x: f(x), r.done) for x in items]
        return r

    def map(self, f, items, chunksize=None):
        return self.map_async(f, items).get()

    def imap(self, f, items, chunksize=1):
        r = self.map_async(f, items)

        def results():
            self.flush()
            for kind, x in r.v:
                if kind:
                    raise x
                yield x
        return results()

    imap_unordered = imap

    def starmap_async(self, f, items, chunksize=None, callback=None, error_callback=None):
        return self.map_async(lambda a: f(*a), items, None, callback, error_callback)

    def starmap(self, f, items, chunksize=None):
        return self.starmap_async(f, items).get()

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return self.map_async(lambda _: f(*args, **kwds), [0], None, callback, error_callback, True)

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()

    def close(self):
        pass

    def join(self):
        self.flush()

    def terminate(self):
        self.queue = []                # what nobody waited for need not have begun

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
        return False


class Future(concurrent.futures.Future):
    def result(self, timeout=None):
        Executor.flush_all()
        return super().result(0)

    def exception(self, timeout=None):
        Executor.flush_all()
        return super().exception(0)

    def done(self):
        Executor.flush_all()
        return super().done()

    def outcome(self, o):
        (self.set_exception if o[0] else self.set_result)(o[1])


class Executor:
    """The same for concurrent.futures."""
    pools = []

    def __init__(self, max_workers=None, *a, **k):
        self.pool = Pool(max_workers, k.get("initializer"), k.get("initargs", ()))
        Executor.pools.append(self.pool)

    @staticmethod
    def flush_all(*a):
        for p in Executor.pools:
            p.flush()

    def submit(self, f, *args, **kwds):
        r = Future()
        self.pool.queue.append((lambda: f(*args, **kwds), r.outcome))
        return r

    def map(self, f, *items, timeout=None, chunksize=1):
        return self.pool.imap(lambda a: f(*a), list(zip(*items)))

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.pool.flush()
        return False


def waiting(real):
    def function(*a, **k):
        Executor.flush_all()
        return real(*a, **k)
    return function


FREE = [10 ** 15]            # bytes the simulated disk has left


@contextlib.contextmanager
def world(server):
    saved = [(sys.modules, "requests", sys.modules.get("requests"))]
    olds = (multiprocessing.Pool, multiprocessing.pool.Pool, multiprocessing.pool.ThreadPool, shutil.disk_usage, sys.argv)
    cf = concurrent.futures
    names = ("ProcessPoolExecutor", "ThreadPoolExecutor", "as_completed", "wait")
    futures = [getattr(cf, n) for n in names]
    cf.ProcessPoolExecutor = cf.ThreadPoolExecutor = Executor
    cf.as_completed, cf.wait = waiting(futures[2]), waiting(futures[3])
    del Executor.pools[:]
    sys.modules["requests"] = server.module()
    sys.modules["requests.exceptions"] = sys.modules["requests"].exceptions
    multiprocessing.Pool = multiprocessing.pool.Pool = multiprocessing.pool.ThreadPool = Pool
    shutil.disk_usage = lambda p: type(olds[3]("/"))(10 ** 15, 10 ** 15 - FREE[0], FREE[0])
    try:
        yield
    finally:
        for _, k, v in saved:
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.modules.pop("requests.exceptions", None)
        multiprocessing.Pool, multiprocessing.pool.Pool, multiprocessing.pool.ThreadPool, shutil.disk_usage, sys.argv = olds
        for n, f in zip(names, futures):
            setattr(cf, n, f)


def tool(dest, server):
    with world(server):
        sys.argv = ["download_sumo_datasets.py", dest, URL + "/"]
        try:
            runpy.run_path(TOOL, run_name="__main__")
        except SystemExit:
            pass


# -- the state of a folder ------------------------------------------------------
def intact(dest, name):
    for n, data in CONTENTS[name].items():
        p = os.path.join(dest, n)
        if data is None:
            if not os.path.isdir(p):
                return False
        else:
            try:
                with open(p, "rb") as f:
                    if f.read() != data:
                        return False
            except OSError:
                return False
    return True


def present(dest, name):
    return os.path.isfile(os.path.join(dest, name))


def recorded(dest, name):
    return os.path.exists(os.path.join(dest, ".cache", name[:-4] + ".cache"))


def whole(dest, name):
    """The archive is there and undamaged."""
    try:
        with open(os.path.join(dest, name), "rb") as f:
            return f.read() == ZIPS[name]
    except OSError:
        return False


def explore(ctx):
    logging.disable(logging.CRITICAL)
    sf = faults.SysFaults(ctx.tmp)
    fresh = itertools.count()

    def new(name="dest"):
        base = os.path.join(ctx.tmp, "d%d" % next(fresh))
        os.mkdir(base)
        return base, os.path.join(base, name), os.path.join(ctx.tmp, os.path.basename(base) + ".log")

    def status(dest, names):
        return tuple((present(dest, n), whole(dest, n), recorded(dest, n), intact(dest, n)) for n in names)

    def invariants(dest, names, before, what, readable=True):
        for n, (p, w, r, i), (p2, w2, r2, i2) in zip(names, before, status(dest, names)):
            if r2 and not i2:
                fail("%s: %s is recorded as done, but its contents are not complete" % (what, n))
            if w and not p2 and not i2 and readable:
                fail("%s: the archive %s was deleted before its contents were complete" % (what, n))
            if r and not r2:
                fail("%s: %s is not recorded as done any more" % (what, n))

    def attempt(dest, log, names, plan=(), config="ok", others=(), what="a run"):
        """One undisturbed run of the tool; returns the archives it asked for."""
        if os.path.exists(log):
            os.remove(log)
        before = status(dest, names)
        ctx.step()
        s = Server(names, log, plan, config, others)
        tool(dest, s)
        req = s.requests()
        invariants(dest, names, before, what)
        allowed = {n for n, (p, w, r, i) in zip(names, before) if not p and not r}
        if config == "ok":
            for n in req:
                if n not in allowed:
                    fail("%s asked for %s, which was there already" % (what, n))
            for n in sorted(allowed):
                if n not in req:
                    fail("%s did not ask for %s" % (what, n))
        elif req:
            fail("%s asked for %r without a configuration" % (what, req))
        return req

    def completes(dest, log, names, what="a further run"):
        """A good run completes the dataset (two, where a damaged archive is there)."""
        bad = [n for n in names if present(dest, n) and not whole(dest, n) and not recorded(dest, n)]
        req = attempt(dest, log, names, what=what)
        if len(req) != len(set(req)):
            fail("%s fetched an archive twice: %r" % (what, req))
        if bad:
            req2 = attempt(dest, log, names, what=what + " (second)")
            if sorted(req2) != sorted(set(req2) & set(bad)):
                fail("%s: the second run fetched %r, damaged were %r" % (what, req2, bad))
        for n, (p, w, r, i) in zip(names, status(dest, names)):
            if not (i and r) or p:
                fail("after %s %s is not complete (extracted %s, recorded %s, archive %s)" % (what, n, i, r, p))
        if attempt(dest, log, names, what="a run after completion"):
            fail("a complete dataset was fetched again")

    # -- answers of the server ------------------------------------------------
    def answers(case):
        names, plans = case
        base, dest, log = new()
        try:
            req = attempt(dest, log, names, dict(zip(names, plans)))
            for n, plan in zip(names, plans):
                # an archive is asked for until it comes over, at most three times
                k = 1
                while k < 3 and k <= len(plan) and plan[k - 1] not in ("ok", "damaged", "page", "empty"):
                    k += 1
                if req.count(n) != k:
                    fail("%s was asked for %d times in one run, expected %d" % (n, req.count(n), k))
                # the outcome depends on this archive alone
                last = plan[k - 1] if k <= len(plan) else "ok"
                got = recorded(dest, n), intact(dest, n)
                if got != ((True, True) if last == "ok" else (False, False)):
                    fail("%s after answers %r: recorded %s, extracted %s" % ((n, plan) + got))
            completes(dest, log, names)
            return case
        finally:
            shutil.rmtree(base)
    FEW = (("ok",), ("refused", "ok"), ("short", "500", "breaks"), ("damaged",))

    def answer_cases():
        for n in range(4):
            for plan in itertools.product(KINDS, repeat=n):
                yield ("in_1.zip",), (plan,)
        for plan in itertools.product(KINDS, repeat=3):
            for other in FEW:
                yield ("in_2.zip", "gt_1.zip"), (plan, other)
        for a, b, c in itertools.product(KINDS, repeat=3):
            yield NAMES, ((a, "ok"), (b,), (c, "short"))
        if ctx.thorough:
            for plan in itertools.product(KINDS, repeat=3):
                for plan2 in itertools.product(KINDS, repeat=2):
                    yield ("in_2.zip", "gt_1.zip"), (plan, plan2)
    ctx.enum("answers of the server", answer_cases(), answers)

    # -- what is in the folder at the start -----------------------------------
    STATES = ("nothing", "archive", "damaged archive", "part", "recorded", "extracted", "half extracted", "archive and contents",
              "empty archive")

    def put(dest, name, state):
        p = os.path.join(dest, name)
        if state in ("archive", "archive and contents"):
            write(p, ZIPS[name])
        elif state == "damaged archive":
            write(p, ZIPS[name][:-7])
        elif state == "empty archive":
            write(p, b"")
        elif state == "part":
            write(p + ".part", b"PK\3\4" + b"#" * 5000)
        if state in ("recorded", "extracted", "half extracted", "archive and contents"):
            for i, (n, data) in enumerate(CONTENTS[name].items()):
                q = os.path.join(dest, n)
                if data is None:
                    os.makedirs(q, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    write(q, data[:len(data) // 2] if state == "half extracted" else data)
        if state == "recorded":
            write(os.path.join(dest, ".cache", name[:-4] + ".cache"), b"complete")

    def write(p, data):
        with open(p, "wb") as f:
            f.write(data)

    def starts(case):
        folder, states, plan = case
        base, dest, log = new(folder)
        try:
            os.makedirs(os.path.join(dest, ".cache"))
            foreign = {os.path.join(dest, "notes.txt"): b"mine", os.path.join(base, "in_1.zip"): b"not yours",
                       os.path.join(base, "in_1.cache"): b""}
            for p, b in foreign.items():
                write(p, b)
            for n, s in zip(NAMES, states):
                put(dest, n, s)
            if plan:
                attempt(dest, log, NAMES, {n: plan for n in NAMES})
            completes(dest, log, NAMES, "a run")
            for p, b in foreign.items():
                with open(p, "rb") as f:
                    if f.read() != b:
                        fail("%s was changed" % p)
            return case
        finally:
            shutil.rmtree(base)
    # the folder itself: absent, empty, in use, with or without the folder of marks
    def arrangement(case):
        there, plan, again = case
        base, dest, log = new("dest")
        try:
            if there is not None:
                os.mkdir(dest)
                for n in there:
                    if n.endswith("/"):
                        os.makedirs(os.path.join(dest, n))
                    elif n.endswith(".zip"):
                        write(os.path.join(dest, n), ZIPS[n])
                    else:
                        write(os.path.join(dest, n), b"mine")
            if plan:
                attempt(dest, log, NAMES, {n: plan for n in NAMES})
            for k in range(again):
                completes(dest, log, NAMES, "a run")
            if there and "notes" in there and open(os.path.join(dest, "notes"), "rb").read() != b"mine":
                fail("a file of the user was changed")
            return case
        finally:
            shutil.rmtree(base)
    THINGS = ("notes", ".hidden", ".cache/", "more/.cache/", NAMES[2], NAMES[1], ".cache/notes/")
    ctx.enum("arrangements of the folder", ((t, p, a) for t in [None] + [c for n in range(len(THINGS) + 1) for c in itertools.combinations(THINGS, n)]
                                            for p in ((), ("refused",) * 3) for a in (1, 2)), arrangement)

    FOLDERS = ("dest", "a b", "x[1]", "*", "?é", "a.zip", "a.cache", "-d", "in_3.zip", "{x}", "%s")
    ctx.enum("folders at the start", ((f, s, p) for f, s, p in itertools.product(FOLDERS, itertools.product(STATES, repeat=3),
                                                                               ((), ("refused",) * 3))
                                      if f == "dest" or (not p and len(set(s)) == 1) or ctx.thorough), starts)

    # -- space on the disk -------------------------------------------------------
    def space(case):
        """There is room for the archives still to come (7 GB each) and for extracting (10 GB)."""
        states, plan, first = case
        base, dest, log = new()
        try:
            os.makedirs(os.path.join(dest, ".cache"))
            for n, s in zip(NAMES, states):
                put(dest, n, s)
            missing = sum(not p and not r for p, w, r, i in status(dest, NAMES))
            if first is not None:               # first a run for which the disk is too full
                FREE[0] = first << 30
                before = status(dest, NAMES)
                s = Server(NAMES, log, plan and {n: plan for n in NAMES})
                tool(dest, s)
                invariants(dest, NAMES, before, "a run on a full disk")
            FREE[0] = (7 * missing + 10) << 30
            bad = [n for n in NAMES if present(dest, n) and not whole(dest, n) and not recorded(dest, n)]
            attempt(dest, log, NAMES, {n: plan for n in NAMES} if plan else (), what="a run with little room")
            if plan or bad:
                FREE[0] = 10 ** 15
                completes(dest, log, NAMES)
            for n, (p, w, r, i) in zip(NAMES, status(dest, NAMES)):
                if not (i and r):
                    fail("with room for the %d missing archives %s is not complete" % (missing, n))
            return case
        finally:
            FREE[0] = 10 ** 15
            shutil.rmtree(base)
    ctx.enum("space on the disk", itertools.product(itertools.product(("nothing", "archive", "recorded", "damaged archive", "part"), repeat=3),
                                                    ((), ("refused",) * 3), (None, 0, 9)), space)

    # -- names of archives ------------------------------------------------------
    def odd_names(case):
        names, states, plan = case
        base, dest, log = new()
        try:
            os.makedirs(os.path.join(dest, ".cache"))
            for n, s in zip(names, states):
                put(dest, n, s)
            attempt(dest, log, names, {names[0]: plan})
            completes(dest, log, names)
            return case
        finally:
            shutil.rmtree(base)
    ctx.enum("names of archives", itertools.chain(
        (((n,), (s,), p) for n in ODD for s in STATES for p in ((), ("damaged",), ("refused",) * 3)),
        (((a, b), s, p) for a, b in itertools.permutations(ODD, 2) for s in itertools.product(("nothing", "archive", "recorded"), repeat=2)
         for p in (((), ("refused",) * 3) if ctx.thorough else ((),)))), odd_names)

    # -- data sets of many archives ---------------------------------------------
    def many(case):
        n, states, which, kinds = case
        names = MANY[:n]
        base, dest, log = new()
        try:
            os.makedirs(os.path.join(dest, ".cache"))
            for i, m in enumerate(names):
                put(dest, m, states[i % len(states)])
            hit = {"none": (), "first": names[:1], "last": names[-1:], "most": names[1::3] + names[2::3], "all": names}[which]
            attempt(dest, log, names, {m: kinds for m in hit})
            for m, (p, w, r, i) in zip(names, status(dest, names)):
                if not (i and r) and m not in hit and states != ("damaged archive", "nothing"):
                    fail("%s of %d archives was not completed" % (m, n))
            completes(dest, log, names)
            return case
        finally:
            shutil.rmtree(base)
    ctx.enum("many archives", ((n, s, w, k) for n in (10, 33, 100, 300) + ((65, 257) if ctx.thorough else ())
                               for s in (("nothing",), ("archive",), ("recorded", "nothing", "archive"), ("damaged archive", "nothing"), ("part", "extracted"))
                               for w, k in (("none", ()), ("first", ("damaged",)), ("last", ("refused",) * 3), ("most", ("short", "500", "breaks")),
                                            ("all", ("refused", "ok")))), many)

    # -- damaged archives -------------------------------------------------------
    def bytes_changed(case):
        name, off, value = case
        b = bytearray(ZIPS[name])
        b[off] = value
        body = bytes(b)
        base, dest, log = new()
        try:
            attempt2 = [name]
            before = status(dest, attempt2)
            s = Server(attempt2, log, others={name: body})
            ctx.step()
            tool(dest, s)
            got = status(dest, attempt2)[0]
            if got[2] and not got[3]:
                # the format protects the contents of files, not their names, dates and kinds
                if contents_of(body) != contents_of(ZIPS[name]):
                    return "other names"
                fail("a damaged archive was recorded as done without its contents")
            if got[2]:
                return case, "no harm"
            if os.path.exists(os.path.join(dest, name)):
                # it has to go some time: a further good run would never fetch it again
                os.remove(log)
                tool(dest, Server(attempt2, log))
                if os.path.exists(os.path.join(dest, name)) and not recorded(dest, name):
                    fail("a damaged archive is kept for ever, so that the dataset is never complete")
            completes(dest, log, attempt2)
            return case, "fetched again"
        finally:
            shutil.rmtree(base)

    def contents_of(body):
        try:
            with zipfile.ZipFile(io.BytesIO(body)) as z:
                return sorted((i.filename, z.read(i)) for i in z.infolist())
        except Exception as e:
            return repr(type(e))

    def byte_cases():
        for name in ("in_2.zip", "gt_1.zip") + (("in_1.zip",) if ctx.thorough else ()):
            for off, v in enumerate(ZIPS[name]):
                vals = {0, 1, 255, v ^ 1, v ^ 8, v ^ 128, (v + 1) % 256} if not ctx.thorough else set(range(256))
                for w in sorted(vals - {v}):
                    yield name, off, w
    ctx.enum("bytes of archives", byte_cases(), bytes_changed)

    def cut_archives(case):
        name, n, where = case
        base, dest, log = new()
        try:
            body = ZIPS[name][:n]
            if where == "there":
                os.makedirs(dest)
                write(os.path.join(dest, name), body)
                completes(dest, log, [name])
            else:
                s = [name]
                attempt(dest, log, s, others={name: body})
                if recorded(dest, name):
                    fail("an archive cut to %d bytes was recorded as done" % n)
                completes(dest, log, s)
            return case
        finally:
            shutil.rmtree(base)
    ctx.enum("cut archives", ((n, k, w) for n in NAMES for k in range(len(ZIPS[n])) for w in ("there", "sent")), cut_archives)

    # -- kills and failing calls ------------------------------------------------
    names2 = ("in_2.zip", "gt_1.zip")
    plans = ((), (("in_2.zip", ("short", "refused")), ("gt_1.zip", ("damaged",))))
    prefixes = {}

    def events(case):
        names, plan, states = case
        if case not in prefixes:
            base, dest, log = new()
            prepare(dest, names, states)
            s = Server(names, log, plan)
            _, out, ev = sf.run(lambda: tool(dest, s), base + "/", want_events=True)
            shutil.rmtree(base)
            if out[0] != "ok":
                fail("an undisturbed run failed: %r" % (out,))
            prefixes[case] = ev
        return prefixes[case]

    def prepare(dest, names, states):
        if states:
            os.makedirs(os.path.join(dest, ".cache"))
            for n, s in zip(names, states):
                put(dest, n, s)

    def blind(setup, k, action):
        """A folder that cannot be listed looks empty."""
        ev = events(setup)
        return action.startswith("fail") and k < len(ev) and ev[k][0] in ("opendir", "open")

    def disturbed(case):
        setup, ks = case
        names, plan, states = setup
        base, dest, log = new()
        try:
            prepare(dest, names, states)
            trail = []
            for k, action, arg in ks:
                before = status(dest, names)
                if os.path.exists(log):
                    os.remove(log)
                s = Server(names, log, plan)
                ctx.step()
                crashed, out, _ = sf.run(lambda: tool(dest, s), base + "/", target=k, action=action,
                                         arg=arg if action in ("crash-in-write", "short") else 0,
                                         err=arg if action.startswith("fail") else 0)
                if out and out[0] != "ok" and not out[1] in ("SystemExit",):
                    fail("the tool ended with %s: %s" % (out[1], out[2]))
                invariants(dest, names, before, "a disturbed run",
                           readable=not (action.startswith("fail") and k < len(events(setup)) and events(setup)[k][0] in ("open", "read")))
                allowed = {n for n, (p, w, r, i) in zip(names, before) if not p and not r}
                req = s.requests()
                for n in req:
                    if n not in allowed and not blind(setup, k, action):
                        fail("a disturbed run asked for %s, which was there already" % n)
                trail.append((crashed, status(dest, names)))
            completes(dest, log, names)
            return setup, tuple((t[1]) for t in trail), tuple(k[1] for k in ks)
        finally:
            shutil.rmtree(base)
    setups = [(names2, p, ()) for p in plans] + [(NAMES, (), ("archive", "part", "half extracted"))]
    ctx.enum("kill before a call", ((s, ((k, "crash", 0),)) for s in setups for k in range(len(events(s)) + 1)), disturbed)
    ctx.enum("kill inside a write", ((s, ((k, "crash-in-write", n),)) for s in setups for k, e in enumerate(events(s)) if e[0] == "write"
                                     for n in (range(1, e[1]) if e[1] < 64 or ctx.thorough else sorted(set(range(1, e[1], 7)) | {e[1] - 1}))), disturbed)
    ERR = {"create": (errno.ENOSPC, errno.EACCES), "mkdir": (errno.ENOSPC, errno.EEXIST), "write": (errno.ENOSPC, errno.EIO),
           "rename": (errno.EIO,), "remove": (errno.EACCES,), "open": (errno.EIO, errno.EMFILE), "read": (errno.EIO,), "close": (errno.EIO,),
           "truncate": (errno.EIO,), "opendir": (errno.EIO,)}
    ctx.enum("failing call", ((s, ((k, "fail", err),)) for s in setups for k, e in enumerate(events(s)) for err in ERR[e[0]]), disturbed)
    ctx.enum("failing from a call on", ((s, ((k, "fail-all", err),)) for s in setups for k, e in enumerate(events(s))
                                        if e[0] in ("write", "create", "mkdir", "rename") for err in ERR[e[0]]), disturbed)
    ctx.enum("short writes", ((s, ((k, "short", n),)) for s in setups for k, e in enumerate(events(s)) if e[0] == "write" and e[1] > 1
                              for n in sorted({1, e[1] // 2, e[1] - 1})), disturbed)
    one = (("in_2.zip",), (), ())

    def pairs():
        n = len(events(one))
        for a in range(n):
            for b in range(n):
                yield one, ((a, "crash", 0), (b, "crash", 0))
                if ctx.thorough or (a + b) % 3 == 0:
                    yield one, ((a, "fail", errno.ENOSPC), (b, "crash", 0))
    ctx.enum("two disturbed runs", pairs(), disturbed)

    # -- configurations that do not come over ---------------------------------
    def configs(case):
        kind, states = case
        base, dest, log = new()
        try:
            prepare(dest, NAMES, states)
            attempt(dest, log, NAMES, config=kind)
            completes(dest, log, NAMES)
            return case
        finally:
            shutil.rmtree(base)
    ctx.enum("configuration", itertools.product(("refused", "503", "no-json", "no-key"),
                                                [()] + list(itertools.product(("nothing", "archive", "recorded"), repeat=3))), configs)

    # -- tasks in parallel ------------------------------------------------------
    def scheduled(case):
        names, plan, phase, sched = case
        base, dest, log = new()
        calls = []

        def runner(fns):
            calls.append(len(fns))
            if len(calls) == phase:
                # each task is a process of its own and leaves what it returned beside the folder
                def keeping(k, f):
                    def task():
                        out = sequential([f])
                        with open("%s.%d" % (base, k), "wb") as h:
                            pickle.dump(out[0], h)
                    return task
                n = sf.parallel([keeping(k, f) for k, f in enumerate(fns)], base + "/", sched)
                ctx.step(sum(n))
                counts.append(tuple(n))
                out = []
                for k in range(len(fns)):
                    with open("%s.%d" % (base, k), "rb") as h:
                        out.append(pickle.load(h))
                    os.remove("%s.%d" % (base, k))
                return out
            return sequential(fns)
        counts = []
        Pool.runner = staticmethod(runner)
        try:
            attempt(dest, log, names, plan)
            for n in names:
                if not plan and not (recorded(dest, n) and intact(dest, n)):
                    fail("with the tasks in the order %r %s is not complete after a run" % (sched, n))
            Pool.runner = None
            completes(dest, log, names)
            lengths[(names, plan, phase)] = counts[0] if counts else ()
            return names, plan, phase, status(dest, names), tuple(counts)
        finally:
            Pool.runner = None
            shutil.rmtree(base)
    lengths = {}

    def schedules():
        for names, plan in ((names2, ()), (names2, (("gt_1.zip", ("short", "short", "short")),)), (("in_1.zip", "gt_1.zip"), ())):
            for phase in (1, 2):
                key = names, plan, phase
                if key not in lengths:
                    scheduled((names, plan, phase, ()))
                la, lb = (lengths[key] + (0, 0))[:2]
                # up to two preemptions, beginning with either task
                for i in range(la + 1):
                    for j in range(lb + 1):
                        yield names, plan, phase, ((0, i), (1, j))
                        if j and i < la:
                            yield names, plan, phase, ((0, i), (1, j), (0, 10 ** 6))
                for j in range(1, lb + 1):
                    for i in range(1, la + 1):
                        yield names, plan, phase, ((1, j), (0, i), (1, 10 ** 6))
        for phase in (1, 2):
            key = NAMES, (), phase
            if key not in lengths:
                scheduled(key + ((),))
            ls = (lengths[key] + (0, 0, 0))[:3]
            step = 1 if ctx.thorough else 3
            for order in itertools.permutations(range(3)):
                for i in range(0, ls[order[0]], step):
                    for j in range(0, ls[order[1]], step):
                        yield NAMES, (), phase, ((order[0], i), (order[1], j), (order[2], 10 ** 6))
    if ctx.replay is None or ctx.replay[0] == "parallel tasks":
        ctx.enum("parallel tasks", schedules() if not ctx.replay else (), scheduled)
