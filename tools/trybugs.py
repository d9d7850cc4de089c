"""Runs the claimed checks of planted bugs against them: python3 tools/trybugs.py [ID ...]. Applies each to /repo
and undoes it straight afterwards. Prints which checks catch what. With --all every claimed check is run."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(ROOT + "/seeded"))
man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
for i in ids:
    d = f"{ROOT}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    props = sorted(man) if "--all" in sys.argv else [prop]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "does not apply"); continue
    try:
        for p in props:
            if p not in man:
                print(i, p, "not claimed"); continue
            t = time.time()
            r = subprocess.run(man[p]["quick_cmd"], shell=True, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            what = [l for l in r.stdout.splitlines() if l.startswith("what:")]
            ok = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            print(f"{i:28} {p} {'CAUGHT' if ok else 'missed rc=%d' % r.returncode} {time.time()-t:.0f}s {what[0][:120] if what else r.stdout[-300:] if r.returncode > 1 else ''}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
