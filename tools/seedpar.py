#!/usr/bin/env python3
"""seedpar.py [-j N] [-c C01,C02|all|own] [-t tier] [--patch FILE...] ID...: try planted bugs (or --patch files) in private
mount namespaces: copies of /repo, /verif and /opt/vp are bind-mounted over the real paths, so nothing real changes.
Prints one line per bug: demo before/after, tests, and what each check said."""
import sys, os, subprocess, json, threading, queue, argparse, time
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-c", default="own")
ap.add_argument("-t", default="quick")
ap.add_argument("--patch", action="store_true")
ap.add_argument("ids", nargs="+")
A = ap.parse_args()
ALL = ["C%02d" % i for i in range(1, 21)]
RUN = r'''
set -u
W=$1; P=$2; D=$3; TIER=$4; shift 4
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo
git checkout -q -- . ; git clean -fdq
if [ "$D" != - ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash "$D/demo.sh" >$W/demo0 2>&1; echo "DEMO0 $?"; fi
git apply "$P" || { echo "NOAPPLY"; exit; }
bash /opt/vp/build.sh >$W/b.txt 2>&1 || echo BUILDFAIL
bash /opt/vp/test.sh $W/o.json >$W/t.txt 2>&1; echo "TESTS $? $(tail -1 $W/t.txt)"
if [ "$D" != - ]; then bash "$D/demo.sh" >$W/demo1 2>&1; echo "DEMO1 $?"; fi
cd /verif
for c in "$@"; do s=$(date +%s); VERIF_SEED=1 VERIF_TIER=$TIER timeout 900 ./check $c $TIER >$W/$c.txt 2>&1; r=$?
 echo "CHECK $c $r $(grep -c "^VIOLATION property=$c" $W/$c.txt) $(( $(date +%s)-s ))"; grep -m2 'violation kind' $W/$c.txt; done
git -C /repo status --porcelain >/dev/null; git -C /repo checkout -q -- .
'''
def setup(k):
    W = f"/tmp/sp{os.environ.get("SP","")}{k}"
    os.makedirs(W, exist_ok=True)
    subprocess.run(f"rsync -a --delete /repo/ {W}/repo/ 2>/dev/null || (rm -rf {W}/repo && cp -a /repo {W}/repo); mkdir -p {W}/verif; "
                   f"rsync -a --exclude seeded --exclude .git /verif/ {W}/verif/ 2>/dev/null || (rm -rf {W}/verif && cp -a /verif {W}/verif); "
                   f"[ -d {W}/vp ] || cp -a /opt/vp {W}/vp", shell=True, check=True)
    return W
q = queue.Queue()
for i in A.ids: q.put(i)
lock = threading.Lock()
def work(k):
    W = setup(k)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        if A.patch: P, D, own = os.path.abspath(i), "-", []
        else:
            d = f"/verif/seeded/{i}"
            own = [json.load(open(d + "/meta.json"))["property"]]
            S = f"{W}/seed"; subprocess.run(["rm", "-rf", S]); subprocess.run(["cp", "-a", d, S])
            P, D = S + "/patch.diff", S
        cs = own if A.c == "own" else ALL if A.c == "all" else A.c.split(",")
        if A.patch and A.c == "own": cs = ALL
        r = subprocess.run(["unshare", "-m", "bash", "-c", RUN, "x", W, P, D, A.t, *cs], capture_output=True, text=True)
        with lock:
            out = r.stdout.strip().splitlines()
            head = [l for l in out if not l.startswith("CHECK") and "violation kind" not in l]
            print("##", i, ",".join(own), "|", " | ".join(head), flush=True)
            for l in out:
                if (l.startswith("CHECK") and (len(cs) <= 3 or l.split()[2] != "0")) or "violation kind" in l: print("   ", l[:200], flush=True)
            if r.stderr.strip(): print("   ERR", r.stderr.strip()[-300:], flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
