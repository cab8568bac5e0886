#!/usr/bin/env python3
"""mutate.py [-j N] [-n PERFILE] [-s SEED] [-k SKIP]: mutants of /repo/src that pass the tests, and the first quick check that sees each.
Works in private mount namespaces on copies (/tmp/mu*); nothing real changes. One line per mutant."""
import sys, os, subprocess, re, random, threading, queue, argparse, json
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=1)
ap.add_argument("-n", type=int, default=4)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default="")
ap.add_argument("-b", type=int, default=0)
ap.add_argument("--list", action="store_true")
A = ap.parse_args()
ORDER = "C03 C05 C07 C06 C08 C01 C19 C18 C09 C12 C17 C20 C02 C04 C10 C11".split()
def order(p):
    f = p.split("/")[-1]
    first = ("C07" if "_ext" in f and "pair" not in f else "C08" if "transport" in f else "C04" if "pair_ext" in f else "C03" if re.search("T_p|p_hs|phps|ph_ps", f) else
             "C05" if "/r4/" in p else "C02" if f in ("region.rs", "boundaries.rs") else "C01" if re.search("gfe|hfe|pT|Td|region[1235].rs|poly", f) else "C04" if f == "root.rs" else "C09")
    return [first] + [c for c in "C01 C03 C17 C08 C07 C02 C19 C04 C05 C06 C18 C09 C12 C20 C10 C11".split() if c != first]
def muts(path, s):
    out, off, intest, incom = [], 0, False, False
    for i, l in enumerate(s.split("\n")):
        code = l.split("//")[0]
        if "/*" in code: incom = True
        if not incom and code.strip() and not code.strip().startswith("#") and not code.strip().startswith("use "):
            for m in re.finditer(r"(?<![\w.])\d+\.\d+(?:[eE][-+]?\d+)?", code):
                t = m.group(0)
                mant = re.match(r"[\d.]+", t).group(0)
                digs = [k for k, c in enumerate(mant) if c.isdigit()]
                sig = [k for k in digs if mant[:k+1].replace(".", "").strip("0")]
                if not sig: out.append((i, m.start(), t, "0.001" if float(t) == 0 else t, "lit")); continue
                k = sig[min(len(sig)-1, random.choice([1, 2, 3, 4, 5]))]
                nt = mant[:k] + str((int(mant[k])+1) % 10) + mant[k+1:] + t[len(mant):]
                out.append((i, m.start(), t, nt, "lit"))
            for m in re.finditer(r"(?<= )(<=|>=|<|>|==)(?= )", code):
                t = m.group(0)
                out.append((i, m.start(), t, random.choice({"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", ">="], ">=": [">", "<="], "==": ["!="]}[t]), "cmp"))
            for m in re.finditer(r"(?<=[\w) ] )([-+*/])(?= [\w(])", code):
                t = m.group(0)
                out.append((i, m.start(), t, {"+": "-", "-": "+", "*": "/", "/": "*"}[t], "ari"))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                t = m.group(0)
                out.append((i, m.start(), t, str(int(t) + random.choice([1, -1])) if int(t) > 0 else "1", "int"))
            for m in re.finditer(r"&&|\|\|", code):
                out.append((i, m.start(), m.group(0), {"&&": "||", "||": "&&"}[m.group(0)], "log"))
        if "*/" in code: incom = False
    return [(path, *o) for o in out]
random.seed(A.s)
M = []
for d, _, fs in os.walk("/repo/src"):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), "/repo")
        if not f.endswith(".rs") or f in ("mod.rs", "lib.rs", "cdecl_c_if97.rs", "stdcall_c_if97.rs", "python_if97.rs") or A.f not in p: continue
        ms = muts(p, open("/repo/" + p).read())
        n = max(1, round(A.n * (len(ms) / 150) ** 0.5))
        M += random.sample(ms, min(n, len(ms)))
random.shuffle(M)
M = M[A.b:]
if A.list:
    for m in M: print(m)
    print(len(M)); sys.exit()
RUN = r'''
set -u
W=$1; shift
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo
bash /opt/vp/build.sh >$W/b.txt 2>&1 || { echo BUILDFAIL; exit; }
timeout 120 bash /opt/vp/test.sh $W/o.json >$W/t.txt 2>&1
grep -q "55 passed, 0 failed" $W/t.txt || { echo TESTS; exit; }
rm -rf $W/difft/b/src; cp -r /repo/src $W/difft/b/; cd $W/difft; cargo build --release --offline -q 2>$W/derr
timeout 100 target/release/difft 2000 >$W/diff.txt 2>/dev/null
echo "DIFF $(wc -l <$W/diff.txt) $(head -1 $W/diff.txt | cut -d' ' -f1-7)"
cd /verif
for c in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $c quick >$W/$c.txt 2>&1; r=$?
 if [ $r != 0 ]; then echo "CAUGHT $c $r $(grep -m1 'violation kind' $W/$c.txt)"; exit; fi; done
echo SURVIVED
'''
q = queue.Queue()
for m in M: q.put(m)
lock = threading.Lock()
def work(k):
    W = f"/tmp/mu{k}"
    os.makedirs(W, exist_ok=True)
    subprocess.run(f"rm -rf {W}/verif {W}/repo {W}/difft; cp -a /repo {W}/repo; cp -a /verif {W}/verif; rm -rf {W}/verif/seeded; [ -d {W}/vp ] || cp -a /opt/vp {W}/vp; "
                   f"cp -a /tmp/difft {W}/difft; rm -rf {W}/difft_a; cp -a {W}/difft/b {W}/difft_a; rm -rf {W}/difft_a/src; cp -r /repo/src {W}/difft_a/; sed -i s/9.9.9/9.9.8/ {W}/difft_a/Cargo.toml; sed -i 's,path = ./repo.,path = \"../difft_a\",' {W}/difft/Cargo.toml; rm -f {W}/difft/Cargo.lock", shell=True, check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        path, i, col, old, new, kind = m
        s = open("/repo/" + path).read().split("\n")
        assert s[i][col:col+len(old)] == old
        line = s[i]
        s[i] = line[:col] + new + line[col+len(old):]
        open(f"{W}/repo/{path}", "w").write("\n".join(s))
        r = subprocess.run(["unshare", "-m", "bash", "-c", RUN, "x", W, *order(path)], capture_output=True, text=True)
        subprocess.run(["cp", "/repo/" + path, f"{W}/repo/{path}"])
        subprocess.run(["touch", f"{W}/repo/{path}"])
        o = " | ".join(r.stdout.split("\n")).strip(" |")
        with lock: print(f"{kind} {path}:{i+1} {old} -> {new} | {line.strip()[:70]} || {o}", flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
