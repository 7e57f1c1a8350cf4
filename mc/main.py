"""Supervisor: builds the working tree, runs the workers, reports and writes evidence.

usage: python -m mc.main PROPERTY [quick|thorough]
       python -m mc.main PROPERTY --replay FILE
"""
import ctypes
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 240
# every access of the extensions to memory that is not theirs ends the worker, which is a violation
ASAN_FLAGS = "-fsanitize=address -fno-omit-frame-pointer -O1 -g0"
ASAN_OPTIONS = ("detect_leaks=0:allocator_may_return_null=1:detect_container_overflow=0:alloc_dealloc_mismatch=0:"
                "new_delete_type_mismatch=0:max_malloc_fill_size=65536:malloc_context_size=5:handle_abort=0:detect_odr_violation=0:exitcode=99")


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out[d["key"]] = d["what"]
    return out


def drop_privileges(scratch):
    """Runs in the child: an escaped effect of the code under test reaches nothing real."""
    def f():
        os.setpgrp()
        os.umask(0o022)
        try:
            ctypes.CDLL(None).personality(0x0040000)      # the same address layout in every run
        except OSError:
            pass
        if os.getuid() == 0:
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
    return f


def chown_tree(path):
    if os.getuid() != 0:
        return
    for d, _, files in os.walk(path):
        os.chown(d, 65534, 65534)
        for n in files:
            p = os.path.join(d, n)
            if not os.path.islink(p):
                os.chown(p, 65534, 65534)


def main():
    prop = sys.argv[1]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = json.load(open(sys.argv[3]))
            tier = replay.get("tier", tier)
        else:
            tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    from mc import build, core
    meta = importlib.import_module("mc.meta").META[prop]
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % prop, dir=os.environ.get("MC_TMP", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        build.copy_tree(scratch)
        asan = tier in meta.get("asan", ()) or bool(os.environ.get("MC_ASAN"))
        build.build(scratch, extra_cxxflags=ASAN_FLAGS if asan else "")
        t_build = time.time() - t0
        shutil.copytree(os.path.join(HERE, "mc"), os.path.join(scratch, "lib", "mc"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        n = 1 if replay else int(os.environ.get("MC_JOBS", meta.get("jobs", min(8, os.cpu_count() or 1))))
        env = dict(os.environ)
        env.update(PYTHONPATH=os.path.join(scratch, "lib") + ":" + env.get("PYTHONPATH", ""),
                   PYTHONDONTWRITEBYTECODE="1", MALLOC_PERTURB_="165", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", HOME=scratch, MPLBACKEND="Agg",
                   MPLCONFIGDIR=os.path.join(scratch, "mpl"))
        os.mkdir(env["MPLCONFIGDIR"])
        if asan:
            lib = [subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip()
                   for n in ("libasan.so", "libstdc++.so.6")]
            env.update(LD_PRELOAD=" ".join(lib), ASAN_OPTIONS=ASAN_OPTIONS)
        procs = []
        for i in range(n):
            tmp = os.path.join(scratch, "w%d" % i)
            os.makedirs(os.path.join(tmp, "tmp"))
            spec = {"prop": prop, "tier": tier, "seed": seed, "shard": i, "nshards": n,
                    "api": os.path.join(scratch, "sumo-api"), "tmp": tmp,
                    "journal": os.path.join(tmp, "journal"), "out": os.path.join(tmp, "out.json"),
                    "known": known}
            if replay:
                spec["replay"] = [replay["section"], replay["case"]]
            with open(os.path.join(tmp, "spec.json"), "w") as f:
                json.dump(spec, f)
            procs.append([spec, None, core.Journal(spec["journal"], create=True)])
        chown_tree(scratch)
        for pr in procs:
            spec = pr[0]
            e = dict(env, TMPDIR=os.path.join(spec["tmp"], "tmp"))
            log = open(os.path.join(spec["tmp"], "log"), "wb")
            pr[1] = subprocess.Popen([sys.executable, "-m", "mc.worker",
                                      os.path.join(spec["tmp"], "spec.json")],
                                     env=e, stdout=log, stderr=log, cwd=spec["tmp"],
                                     stdin=subprocess.DEVNULL, preexec_fn=drop_privileges(scratch))
        results, violations, errors = [], [], []
        last = {}
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            for pr in list(pending):
                spec, po, jr = pr
                rc = po.poll()
                if rc is None:
                    cnt = jr.read()[0]
                    if last.get(po.pid, (None,))[0] != cnt:
                        last[po.pid] = (cnt, time.time())
                    elif time.time() - last[po.pid][1] > HANG_S:
                        try:
                            os.killpg(po.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        po.wait()
                        sec, case = _journal_case(jr)
                        violations.append({"section": sec, "case": case, "rank": 0,
                                           "message": "no end after %d s" % HANG_S})
                        pending.remove(pr)
                    continue
                pending.remove(pr)
                try:
                    os.killpg(po.pid, signal.SIGKILL)   # whatever the worker left running
                except OSError:
                    pass
                if rc == 0 and os.path.exists(spec["out"]):
                    r = json.load(open(spec["out"]))
                    results.append(r)
                    if r["violation"]:
                        violations.append(r["violation"])
                else:
                    logtxt = open(os.path.join(spec["tmp"], "log"), errors="replace").read()
                    logtxt = logtxt if len(logtxt) < 6000 else logtxt[:2000] + "\n...\n" + logtxt[-4000:]
                    sec, case = _journal_case(jr)
                    if sec in (None, "import") and rc > 0:
                        errors.append("worker failed (exit %s):\n%s" % (rc, logtxt))
                    elif sec == "import" and rc < 0:
                        errors.append("worker died (signal %d) before the first case:\n%s" % (-rc, logtxt))
                    elif rc > 0 and ("MC-HARNESS-ERROR" in logtxt or "AddressSanitizer: CHECK failed" in logtxt):
                        errors.append(logtxt)
                    else:
                        how = "signal %d" % -rc if rc < 0 else "exit status %d" % rc
                        violations.append({"section": sec, "case": case, "rank": 0, "message":
                                           "the process ended with %s during this case\n%s" % (how, logtxt)})
        if violations:
            violations.sort(key=lambda v: (v["section"] or "", v["rank"]))
        wall = time.time() - t0
        return report(prop, tier, seed, meta, known, results, violations, errors, wall, t_build, replay, n)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _journal_case(jr):
    _, txt = jr.read()
    try:
        sec, case = json.loads(txt)
        return sec, case
    except ValueError:
        return None, txt


def report(prop, tier, seed, meta, known, results, violations, errors, wall, t_build, replay, n):
    steps = sum(r["steps"] for r in results)
    sections, states, samples, hits = {}, {}, [], {}
    for r in results:
        for k, v in r["sections"].items():
            s = sections.setdefault(k, {"cases": 0, "steps": 0, "wall_s": 0})
            s["cases"] += v["cases"]
            s["steps"] += v["steps"]
            s["wall_s"] = max(s["wall_s"], v.get("wall_s", 0))
            if "depth" in v:
                s["depth"] = max(s.get("depth", 0), v["depth"])
        for k, v in r["states"].items():
            states.setdefault(k, set()).update(v)
        for k, v in r["hits"].items():
            hits[k] = hits.get(k, 0) + v
    for k in sections:
        sections[k]["distinct_outcomes"] = len(states.get(k, ()))
    for r in results[:1]:
        for k, v in r["samples"].items():
            for c in v[:1]:
                samples.append({"section": k, "case": c})
    cases = sum(s["cases"] for s in sections.values())
    distinct = sum(len(v) for v in states.values())
    if replay:
        if not any(r["replayed"] for r in results) and not violations:
            print("replay: section %r not found" % replay["section"])
            return 2
    cov = {}
    if meta["level"] == "model_checking":
        cov.update(states=distinct, transitions=steps, traces_validated_against_impl=cases)
        cov["explanation"] = ("states: distinct canonical states/outcomes reached; transitions: operations of the "
                              "real code executed and compared with the reference model; "
                              "traces_validated_against_impl: complete histories/cases replayed on the real code.")
    else:
        cov.update(evaluations=cases, distinct_nontrivial=distinct, operations=steps)
    cov["rule"] = meta["rule"]
    cov["bounds"] = meta.get("bounds", {}).get(tier, meta.get("bounds_text", ""))
    cov["exhaustive"] = not violations and not errors
    cov["samples"] = samples
    cov["sections"] = sections
    cov["known_findings_hit"] = hits
    cov["workers"] = n
    cov["build_s"] = round(t_build, 1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, what in known.items():
        if not replay:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if hits.get(k) else " (not reached in this run)"))
    if violations:
        v = violations[0]
        rp = os.path.join(HERE, "evidence", "replay", prop + ".json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if not replay:
            with open(rp, "w") as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed,
                               how="./check %s --replay %s" % (prop, rp)), f, indent=1)
        print("property %s is violated in section %s" % (prop, v["section"]))
        print("case: %s" % json.dumps(v["case"])[:1500])
        print(v["message"][:3000])
        for e in errors:
            print(e[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, rp if not replay else sys.argv[3]))
        return 1
    if errors:
        for e in errors:
            print(e)
        print("property %s: the check itself failed" % prop)
        return 2
    print("property %s held: %d cases, %d steps, %d distinct states/outcomes, %.1f s (build %.1f s)" % (
        prop, cases, steps, distinct, wall, t_build))
    for k, s in sections.items():
        print("   %-34s cases=%d steps=%d distinct=%d%s %.1fs" % (
            k, s["cases"], s["steps"], s["distinct_outcomes"],
            " depth=%d" % s["depth"] if "depth" in s else "", s["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
