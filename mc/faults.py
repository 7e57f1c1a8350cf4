"""File-system faults for the code under test."""
import contextlib
import ctypes
import json
import os
import resource
import signal
import subprocess

from mc.core import fail

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


@contextlib.contextmanager
def fsize_limit(n):
    """Every write beyond the first n bytes of any file fails (a write across the limit is short)."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


# -- faults at the system-call boundary ---------------------------------------
KINDS = ("none", "open", "write", "read", "mkdir", "rename", "remove", "close", "truncate", "create", "opendir")
ACTIONS = {"none": 0, "crash": 1, "crash-in-write": 2, "fail": 3, "fail-all": 4, "short": 5}
CRASHED = 77
MAXEV = 4096


class Event(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("nr", ctypes.c_int32), ("count", ctypes.c_int64), ("name", ctypes.c_char * 48)]


class SysFaults:
    """Runs functions in forked children, in which every file-system call on files below
    `prefix` (or relative to the current folder, if that is below it) is trapped, counted and
    possibly made to fail, cut short or to end the process."""

    def __init__(self, tmp):
        so = os.path.join(tmp, "sysfault.so")
        if not os.path.exists(so):
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(__file__), "sysfault.c")],
                           check=True, env=dict(os.environ, LD_PRELOAD=""))
        self.lib = ctypes.CDLL(so)
        self.events_ = (Event * MAXEV).in_dll(self.lib, "sf_events")

    def _int(self, name, value=None):
        v = ctypes.c_int.in_dll(self.lib, name)
        if value is not None:
            v.value = value
        return v.value

    def run(self, fn, prefix, target=-1, action="none", err=0, arg=0, kinds=("write", "mkdir", "rename", "truncate", "create"),
            want_events=False, after=None):
        """fn() is called with the fault armed, after(result) without; both results must be
        JSON-able.  Returns (crashed, result, events): result = ["ok", fn(), hit, after()] or
        ["error", class, text, hit, after()]."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self._int("sf_target", target)
                self._int("sf_action", ACTIONS[action])
                self._int("sf_errno", err)
                ctypes.c_long.in_dll(self.lib, "sf_arg").value = arg
                self._int("sf_kinds", sum(1 << KINDS.index(k) for k in kinds))
                self._int("sf_cwd_inside", int((os.getcwd() + "/").startswith(prefix)))
                rc = self.lib.sf_install(prefix.encode())
                if rc:
                    os.write(w, json.dumps(["harness", "no seccomp: %d" % rc]).encode())
                    os._exit(0)
                self._int("sf_on", 1)
                try:
                    out = ["ok", fn()]
                    self._int("sf_on", 0)
                except BaseException as e:
                    self._int("sf_on", 0)
                    out = ["error", type(e).__name__, str(e)[:300]]
                out.append(bool(self._int("sf_hit")))
                ev = []
                if want_events:
                    for i in range(min(self._int("sf_n"), MAXEV)):
                        e = self.events_[i]
                        ev.append([KINDS[e.kind], e.count, e.name.decode("utf-8", "replace")])
                out.append(after(out) if after else None)
                data = json.dumps([out, ev]).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(78)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASHED and not data:
            return True, None, None
        if st != 0 or not data:
            fail("the process ended with status %#x instead of an error" % st)
        d = json.loads(data)
        if d[0] == "harness":
            print("MC-HARNESS-ERROR", d[1], flush=True)
            os._exit(3)
        return False, d[0], d[1]

    def parallel(self, fns, prefix, schedule):
        """Runs the functions in one forked child each; only one of them moves at a time, from
        one trapped call to the next.  schedule: a list of (child, number of calls); after it the
        children run to their ends in order.  Returns the number of calls each child made."""
        kids = []
        for i, fn in enumerate(fns):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    for k in kids:
                        os.close(k[1])
                        os.close(k[2])
                    os.close(r1)
                    os.close(w2)
                    self._int("sf_target", -1)
                    self._int("sf_turn_out", w1)
                    self._int("sf_turn_in", r2)
                    self._int("sf_cwd_inside", int((os.getcwd() + "/").startswith(prefix)))
                    if self.lib.sf_install(prefix.encode()):
                        print("MC-HARNESS-ERROR no seccomp", flush=True)
                        os._exit(79)
                    self._int("sf_on", 1)
                    try:
                        fn()
                    except BaseException:
                        pass
                    os._exit(0)
                except BaseException:
                    os._exit(78)
            os.close(w1)
            os.close(r2)
            kids.append([pid, r1, w2, False, 0])

        def arrive(k):          # until the child is before a call or has ended
            if not k[3] and not os.read(k[1], 1):
                k[3] = True
        # let each child come to its first call, one after the other
        for k in kids:
            arrive(k)

        def go(k):
            os.write(k[2], b"g")
            k[4] += 1
            arrive(k)
        for i, n in schedule:
            if i < len(kids):
                for _ in range(n):
                    if kids[i][3]:
                        break
                    go(kids[i])
        for k in kids:
            while not k[3]:
                go(k)
        for k in kids:
            os.close(k[1])
            os.close(k[2])
            st = os.waitpid(k[0], 0)[1]
            if st == 79 << 8:
                os._exit(3)
            if st:
                fail("a process of the pool ended with status %#x" % st)
        return [k[4] for k in kids]
