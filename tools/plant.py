"""plant.py ID...  : confirm planted bugs in a scratch copy and run their property's check on it.
(development tool; never used by a check)   plant.py --all"""
import json, os, shutil, subprocess, sys
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SE = "/verif/seeded"

def sh(cmd, cwd, env, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def one(i, check=True, tier="quick"):
    d = "/tmp/plant/" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               PATH="/opt/venv/bin:" + os.environ["PATH"], OMP_NUM_THREADS="1")
    demo = "bash %s/%s/demo.sh" % (SE, i)
    r0, o0 = sh(demo, d, env, 300)
    ra, oa = sh("git apply %s/%s/patch.diff" % (SE, i), d, env)
    if ra:
        print(i, "PATCH DOES NOT APPLY", oa); return
    rt, ot = sh("/opt/venv/bin/pytest -q -p no:cacheprovider --timeout=300 -rA pytest", d, env)
    passed = {l.split()[1] for l in ot.splitlines() if l.startswith("PASSED")}
    names = {("%s" % p).replace("/", ".").replace(".py", "", 1) for p in passed}
    norm = {n.replace("::", ".", 1) if n.count("::") > 1 else n for n in names}
    miss = [b for b in base if b not in norm]
    r1, o1 = sh(demo, d, env, 300)
    prop = json.load(open("%s/%s/meta.json" % (SE, i)))["property"]
    ok = r0 == 0 and r1 != 0 and not miss
    print("%s %s demo clean=%d patched=%d missing tests=%d %s" % (i, prop, r0, r1, len(miss), "" if ok else "INVALID " + o0[-300:] + o1[-300:] + str(miss[:3])), flush=True)
    if check:
        rc, o = sh("bash /verif/check.sh %s" % prop, "/verif", dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER=tier), 900)
        print("    check rc=%d %s" % (rc, "\n      ".join(o.strip().splitlines()[-4:])[:900]), flush=True)
    shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--all"]:
        a = sorted(os.listdir(SE))
    for i in a:
        one(i)
