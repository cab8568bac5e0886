#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: writes /verif/seeded/<id>/ from a description (id, prop, edits, demo, needs, what)."""
import sys, os, subprocess, json, re
WT = "/tmp/wt"
DEMO = '''#!/bin/bash
# cwd: the repository; builds demo.rs against it in a scratch directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
seuif97 = { path = "$R" }
T
cd "$W" && cargo run --release --offline --quiet --target-dir "$W/target"
'''
def auto(b):
    """demo from a differential run of the changed and the unchanged crate (/tmp/difft): the calls that differ most"""
    subprocess.run("rm -rf /tmp/difft/b/src && cp -r /tmp/wt/src /tmp/difft/b/ && cd /tmp/difft && cargo build --release --offline -q 2>/tmp/difft/err", shell=True, check=True)
    out = subprocess.run(["timeout", "200", "/tmp/difft/target/release/difft", str(b.get("n", 6000)), *([b["only"]] if "only" in b else [])], capture_output=True, text=True).stdout
    calls, seen = [], 0
    for l in out.splitlines():
        f, o, d, x, y, u, v, n = l.split()
        seen += 1
        if "ids" in b and int(o) not in b["ids"]: continue
        if u in ("NaN", "inf", "-inf") or len(calls) >= 4: continue
        if float(d) < 1e-9: continue
        calls.append((f, o, x, y, u, min(float(d), 1.0) / 3, v, n))
    print(b["id"], "differs in", seen, "function/property pairs;", calls[:2])
    if not calls: return None
    d = "// values of the unchanged tree, which are the ones the property demands\nfn main() {\n    let mut bad = 0;\n    for (name, got, want, tol) in [\n"
    for f, o, x, y, u, t, v, n in calls:
        d += f'        ("{f}({x}, {y}, {o})", seuif97::{f}({x}_f64, {y}_f64, {o}), {u}_f64, {t:e}_f64),\n'.replace("(-", "(-")
    d += "    ] {\n        let err = (got - want).abs() / want.abs().max(1e-12);\n        let ok = err <= tol;\n        println!(\"{} = {:?}, wanted {:?}, off by {:e}: {}\", name, got, want, err, if ok { \"ok\" } else { \"WRONG\" });\n        if !ok { bad += 1 }\n    }\n    std::process::exit(if bad > 0 { 1 } else { 0 });\n}\n"
    return d
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        subprocess.run(["git", "-C", WT, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()], check=True)
        subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], f, "matches", n); break
            open(p, "w").write(s.replace(old, new))
        else:
            for f in {e[0] for e in b["edits"]}:
                for h in re.findall(r"^@@ -(\d+)(?:,(\d+))?", subprocess.check_output(["git", "-C", WT, "diff", "-U0", f], text=True), re.M):
                    a, c = int(h[0]), int(h[1] or 1)
                    if c:
                        for l in subprocess.check_output(["git", "-C", WT, "blame", "-s", "-L", f"{a},{a+c-1}", "HEAD", "--", f], text=True).splitlines():
                            if not l.startswith("^"): print(b["id"], "WARNING: not an original line:", l)
            d = f"/verif/seeded/{b['id']}"
            if "demo" not in b and "demo_sh" not in b:
                b["demo"] = auto(b)
                if b["demo"] is None: continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", WT, "diff"], text=True))
            if "demo_sh" in b:
                open(d + "/demo.sh", "w").write(b["demo_sh"])
            else:
                open(d + "/demo.sh", "w").write(DEMO)
                open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
            for n, t in b.get("files", {}).items():
                open(f"{d}/{n}", "w").write(t)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            os.chmod(d + "/demo.sh", 0o755)
            print(b["id"], "written")
        subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
for a in sys.argv[1:]:
    main(a)
