#!/usr/bin/env python3
"""Runs every case symbolically and compares models of its paths with the native build."""
import json, os, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__))
E = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for c in (["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib", "--", "--emit=llvm-ir=" + D + "/target/t.ll",
           "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], ["cargo", "build", "--offline"]):
    subprocess.run(c, cwd=D, env=E, check=True)
bad = 0
n = int(subprocess.run([D + "/target/debug/replay", "--list"], stdout=subprocess.PIPE, text=True).stdout.split()[-1]) + 1
for i in map(int, sys.argv[1:]) if sys.argv[1:] else range(n):
    p = subprocess.run([D + "/../target/release/symex", "--ll", D + "/target/t.ll", "--entry", "vp_main", "--arg", str(i), "--time", "30",
                        "--samples", "40", "--z3-timeout", "5000"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        r = json.loads(p.stdout)
    except ValueError:
        print(i, "FAIL", p.stderr[-300:]); bad += 1; continue
    dis = 0
    for s in r["samples"]:
        q = subprocess.run([D + "/target/debug/replay", str(i), ",".join(map(str, s["vars"]))], stdout=subprocess.PIPE, text=True)
        o = [int(x[4:]) for x in q.stdout.splitlines() if x.startswith("OUT ")]
        if o != s["outs"]:
            dis += 1
            if dis == 1: print("   ", s["vars"], s["outs"], o, q.returncode)
    ok = r["complete"] and not dis and not r["violations"] and r["paths"]
    bad += not ok
    print(i, "ok" if ok else "BAD", r["paths"], "paths", len(r["samples"]), "samples", dis, "disagree", r["wall_s"], "s", "pending", r["pending"],
          [v["stack"][:3] for v in r["lost"][:2]], [(v["kind"], v["stack"][:4]) for v in r["violations"][:1]], r["errors"][:1])
sys.exit(bad > 0)
