"""tools/mkbugs.py [id ...]: writes /verif/seeded/<id> from the specifications in tools/bugs_*.py.
A bug replaces original lines of /repo (the removed lines blame to the base commit)."""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "288c7d6"
W = "/tmp/mkbugs.wt"


def git(*a, **k):
    return subprocess.run(["git", "-C", W] + list(a), check=True, capture_output=True, text=True, **k).stdout


def main():
    specs = []
    for f in sorted(glob.glob(V + "/tools/bugs_*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        specs += ns["BUGS"]
    assert len({b["id"] for b in specs}) == len(specs)
    want = sys.argv[1:]
    subprocess.run(["rm", "-rf", W]); subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for b in specs:
        if want and b["id"] not in want:
            continue
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = git("diff")
        # removed lines
        origin = []
        for f in {e[0] for e in b["edits"]}:
            d = git("diff", "-U0", "--", f)
            bl = git("blame", "-s", "HEAD", "--", f).splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                n = int(m.group(2) or 1)
                for l in range(int(m.group(1)), int(m.group(1)) + n):
                    origin.append(bl[l - 1].lstrip("^").startswith(BASE))
        print(b["id"], "original lines changed: %d of %d" % (sum(origin), len(origin)), "" if origin and all(origin) else "  <-- CHECK")
        d = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w", newline="").write(diff)
        shutil.copy(V + "/tools/demolib/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        if "stubs" in b["demo"]:
            shutil.copy(V + "/tools/demolib/stubs.py", d)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        git("checkout", "--", ".")
    subprocess.run(["rm", "-rf", W])


main()
