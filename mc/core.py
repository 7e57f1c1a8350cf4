"""Explorer core: exhaustive enumeration of cases and of operation sequences.

A property module (mc/props/cXX.py) defines

    LEVEL, RULE, ASSUMPTIONS      texts for the evidence file
    def explore(ctx): ...         calls ctx.enum(...) and ctx.bfs(...)

Every case is a JSON-able tuple.  A case function runs the real code on the case, compares
it with the reference model and raises Violation (through ctx.fail or check helpers) when
they disagree.  It returns a hashable key of the outcome (state), used to count distinct
states/outcomes and, in bfs, to merge states.
"""
import hashlib
import json
import mmap
import os
import struct
import time
import traceback


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


def fail(msg, key=None):
    raise Violation(msg, key)


def tuplify(x):
    if isinstance(x, (list, tuple)):
        return tuple(tuplify(i) for i in x)
    return x


def h8(key):
    return hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Journal:
    """Current case, readable by the supervisor even if this process dies."""
    SIZE = 1 << 16

    def __init__(self, path, create=False):
        if create:
            with open(path, "wb") as f:
                f.write(b"\0" * self.SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), self.SIZE)
        self.n = 0

    def write(self, section, case):
        self.n += 1
        b = json.dumps([section, case]).encode()[: self.SIZE - 16]
        self.m[16:16 + len(b)] = b
        self.m[0:16] = struct.pack("<QQ", self.n, len(b))

    def read(self):
        n, ln = struct.unpack("<QQ", self.m[0:16])
        return n, self.m[16:16 + ln].decode(errors="replace")


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards, tmp, journal, known, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards, self.tmp = shard, nshards, tmp
        self.journal = journal
        self.known = known              # {key: text}
        self.replay = replay            # (section, case) or None
        self.steps = 0
        self.sections = {}
        self.states = {}                # section -> set of h8
        self.samples = {}
        self.hits = {}                  # known findings hit
        self.violation = None
        self.replayed = False

    thorough = property(lambda self: self.tier == "thorough")

    def step(self, n=1):
        """Count n operations of the code under test."""
        self.steps += n

    # -- running one case -------------------------------------------------
    def _run(self, section, fn, case, rank, count=True):
        sec = self.sections.setdefault(section, {"cases": 0, "steps": 0})
        if self.journal:
            self.journal.write(section, case)
        s0 = self.steps
        key = None
        try:
            try:
                key = fn(case)
            except Violation:
                raise
            except Stop:
                raise
            except BaseException as e:   # the case functions expect none to get this far
                if isinstance(e, KeyboardInterrupt):
                    raise
                tb = traceback.format_exc()
                raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-3000:]))
        except Violation as v:
            if v.key is not None and v.key in self.known:
                self.hits[v.key] = self.hits.get(v.key, 0) + 1
                key = ("known", v.key)
            else:
                self.violation = {"section": section, "case": case, "message": v.msg,
                                  "rank": rank, "key": v.key}
                raise Stop()
        if count:
            sec["cases"] += 1
            sec["steps"] += self.steps - s0
            if key is not None:
                self.states.setdefault(section, set()).add(h8(key))
            sm = self.samples.setdefault(section, [])
            if len(sm) < 2:
                sm.append(case)
        else:
            self.steps = s0
        return key

    # -- exhaustive enumeration of inputs ----------------------------------
    def enum(self, section, cases, fn):
        if self.replay:
            if self.replay[0] == section:
                self.replayed = True
                self._run(section, fn, self.replay[1], 0)
            return
        t0 = time.time()
        for i, case in enumerate(cases):
            if i % self.nshards != self.shard:
                continue
            self._run(section, fn, case, i)
        s = self.sections.setdefault(section, {"cases": 0, "steps": 0})
        s["wall_s"] = round(time.time() - t0, 2)

    # -- breadth-first search over operation sequences ---------------------
    def bfs(self, section, roots, ops, run, depth, split=2):
        """run((root, op1, .., opk)) replays the history on a fresh real object next to the
        model, checks every step, and returns (canonical state key, enabled ops or None for
        all).  States with equal keys are expanded once.  Subtrees below histories of length
        `split` are divided among the shards."""
        if self.replay:
            if self.replay[0] == section:
                self.replayed = True
                self._run(section, lambda c: run(c)[0], self.replay[1], 0)
            return
        t0 = time.time()
        ops = tuple(ops)
        split = min(split, depth)
        seen = set()
        frontier = [((r,), None) for r in roots]
        rank = 0
        maxd = 0
        enabled_box = []

        def fn(case):
            k, en = run(case)
            enabled_box[:] = [en]
            return k
        for d in range(depth + 1):
            nxt = []
            mine_i = 0
            for hist, en in frontier:
                for op in ((None,) if d == 0 else (ops if en is None else en)):
                    h = hist if d == 0 else hist + (op,)
                    rank += 1
                    mine = True
                    if d < split:
                        mine = self.shard == 0
                    elif d == split:
                        mine = mine_i % self.nshards == self.shard
                        mine_i += 1
                        if not mine:
                            continue
                    k = self._run(section, fn, h, rank, count=mine)
                    maxd = max(maxd, d)
                    hk = h8(k)
                    if hk in seen:
                        continue
                    seen.add(hk)
                    if d < depth:
                        nxt.append((h, enabled_box[0]))
            frontier = nxt
        s = self.sections.setdefault(section, {"cases": 0, "steps": 0})
        s["depth"] = maxd
        s["wall_s"] = round(time.time() - t0, 2)

    def result(self):
        return {"sections": self.sections, "steps": self.steps,
                "states": {k: [x.hex() for x in v] for k, v in self.states.items()},
                "samples": self.samples, "hits": self.hits, "violation": self.violation,
                "replayed": self.replayed}


# -- small helpers for case functions --------------------------------------
def raises(exc, f, *a, **k):
    """Returns the exception if f raises one of exc; a Violation otherwise."""
    try:
        r = f(*a, **k)
    except exc as e:
        return e
    fail("%s expected, but the call returned %r" % (exc, r))


def eq(a, b, what):
    if not (a == b):
        fail("%s: got %r, expected %r" % (what, a, b))
