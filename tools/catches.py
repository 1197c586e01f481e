"""Runs the check of every planted bug (or of those named) in a scratch copy: python3 tools/catches.py [ids]"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/zr"
if not os.path.exists(R):
    subprocess.run(["cp", "-a", "/repo", R], check=True)
ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
def git(*a): subprocess.run(["git", "-C", R] + list(a), check=True, stdout=subprocess.DEVNULL)
head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
for i in ids:
    git("fetch", "-q", "/repo"); git("checkout", "-q", "-f", head); git("clean", "-fdq")
    git("apply", "%s/seeded/%s/patch.diff" % (VERIF, i))
    prop = json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))["property"]
    t = time.time()
    q = subprocess.run(["python3", VERIF + "/check.py", prop, "quick"], env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
    print("%-22s %s %5.1f s  %s" % (i, {0: "MISSED", 1: "caught"}.get(q.returncode, "ERROR %d" % q.returncode), time.time() - t,
                                   (q.stdout + q.stderr).strip().split("\n")[0][:150]), flush=True)
git("checkout", "-q", "-f", head)
