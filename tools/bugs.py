"""tools/bugs.py [--all] [--seed N] [ID...]: apply each planted bug to a scratch copy of /repo and run its property's check
(--all: every check) against the copy; not used by any check."""
import sys, os, json, subprocess, shutil, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
seed = "1"
if "--seed" in sys.argv:
    seed = sys.argv[sys.argv.index("--seed") + 1]
    args.remove(seed)
pids = None
for a in list(args):
    if len(a) == 3 and a[0] == "C":
        pids = (pids or []) + [a]; args.remove(a)
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    if args and i not in args:
        continue
    own = json.load(open(d + "/meta.json"))["property"]
    c = "/tmp/w/bug_" + i
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    try:
        subprocess.run(["git", "-C", c, "apply", d + "/patch.diff"], check=True)
        for p in (pids or (["C%02d" % k for k in range(1, 18)] if "--all" in sys.argv else [own])):
            t = time.time()
            r = subprocess.run([V + "/bin/check", p, "--tier", "quick", "--seed", seed], env=dict(os.environ, ORMATEX_REPO=c), capture_output=True, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")] + [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][-1:]
            print(i, own, p, "exit", r.returncode, "%.0f s" % (time.time() - t), "|", " / ".join(x[:170] for x in l), flush=True)
    finally:
        shutil.rmtree(c, ignore_errors=True)
