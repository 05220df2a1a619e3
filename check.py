#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py --replay <file>              run a recorded counterexample again
   check.py --setup                      build the symbolic executor

Encodes /repo's current sources (rustc -> LLVM IR), executes the jobs of the
property symbolically, replays every counterexample on ordinary builds of the
same sources, and writes evidence/<property>.json."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(V, "engine/target/release/symex")
HARNESS = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
T0 = time.time()

FEATURES = {
    "C01": "total", "C11": "full,terms", "C14": "accept,full", "C15": "pair", "C16": "full,terms",
}
# seconds: whole symbolic run, one process, solver per query
LIMITS = {"quick": (560, 300, 30), "thorough": (5400, 5400, 120)}
MAX_STEPS = {"quick": 500_000_000, "thorough": 4_000_000_000}
SAMPLES = {"quick": 6, "thorough": 24}

CODES = {
    1: "a text outside the grammar is accepted",
    2: "a text of the grammar is rejected",
    3: "another amount of text is consumed",
    4: "the tree differs from the documented one",
    5: "an error of another kind than the recoverable one is returned",
    6: "the position of the error is outside the input",
    7: "the remainder is not the rest of the input",
    8: "the tree holds text from outside the input",
    10: "== disagrees with the contents", 11: "== is not reflexive", 12: "== is not symmetric",
    13: "cmp() disagrees with ==", 14: "cmp() is not antisymmetric", 15: "partial_cmp() disagrees with cmp()",
    16: "cmp() is not the order of the contents", 17: "equal values feed different data to a hasher",
    18: "a clone differs", 19: "a conversion yields another value", 20: "an operator disagrees with cmp()",
}


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    return e


def run(cmd, cwd, timeout=800, extra={}):
    return subprocess.run(cmd, cwd=cwd, env=dict(env(), **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout)


class Trouble(Exception):
    pass


def build_engine():
    src = [os.path.join(V, "engine", f) for f in ("Cargo.toml", "build.rs")]
    src += [os.path.join(V, "engine/src", f) for f in os.listdir(os.path.join(V, "engine/src"))]
    if os.path.exists(ENGINE) and all(os.path.getmtime(f) <= os.path.getmtime(ENGINE) for f in src):
        return
    p = run(["cargo", "build", "--offline", "--release"], os.path.join(V, "engine"))
    if p.returncode or not os.path.exists(ENGINE):
        raise Trouble("building the executor failed:\n" + p.stdout[-3000:])
    os.utime(ENGINE)


def fresh(target):
    """Forget what was compiled from /repo, whatever its timestamps say; dependencies stay."""
    for d, subs, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for s in subs:
                if s.startswith(("wh-", "weedle-")):
                    shutil.rmtree(os.path.join(d, s))
            subs[:] = []


def declared(base):
    """The order in which the sources declare fields and variants, from the expanded source: ' Type.part=index ...'."""
    t = os.path.join(base, "expand")
    fresh(t)
    e = dict(env(), RUSTC_BOOTSTRAP="1")
    p = subprocess.run(["cargo", "rustc", "--offline", "-p", "weedle", "--lib", "--target-dir", t, "--", "-Zunpretty=expanded"],
                       cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
    src = re.sub(r"//[^\n]*", "", p.stdout)
    out = []
    for m in re.finditer(r"\bpub (struct|enum) (\w+)(?:<[^{;(]*?>)?\s*(?:where[^{]*)?\{", src):
        depth, i, start, parts = 1, m.end(), m.end(), []
        while depth and i < len(src):
            c = src[i]
            if c in "{([<":
                depth += 1
            elif c in "})]" or c == ">" and src[i - 1] != "-":
                depth -= 1
            if c == "," and depth == 1 or not depth:
                parts.append(src[start:i])
                start = i + 1
            i += 1
        k = 0
        for x in parts:
            x = re.sub(r"#\[[^\]]*\]", "", x).strip()
            n = re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)", x)
            if n:
                out.append("%s.%s=%d" % (m[2], n[1], k))
                k += 1
    return " " + " ".join(out) + " "


def build(features):
    """The encoding, and the two ordinary builds counterexamples are replayed on."""
    base = os.path.join(BUILD, features.replace(",", "-"))
    os.makedirs(base, exist_ok=True)
    ll = os.path.join(base, "wh.ll")
    extra = {}
    if "pair" in features:
        extra["WH_ORDER"] = declared(base)

    def one(kind):
        t = os.path.join(base, kind)
        fresh(t)
        c = ["cargo"] + (["rustc"] if kind == "ir" else ["build"]) + ["--offline", "--features", features, "--target-dir", t]
        if kind == "ir":
            if os.path.exists(ll):
                os.remove(ll)
            c += ["--release", "--lib", "--crate-type", "staticlib", "--", "--emit=llvm-ir=" + ll,
                  "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        elif kind == "user":
            c += ["--profile", "user"]
        return run(c, HARNESS, extra=extra)

    with cf.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(one, ["ir", "dev", "user"]))
    bad = [p for p in rs if p.returncode]
    if bad or not os.path.exists(ll):
        raise Trouble("building the harness against /repo failed:\n" + (bad or rs)[0].stdout[-4000:])
    return ll, [os.path.join(base, "dev/debug/replay"), os.path.join(base, "user/user/replay")]


def native(exe, arg, vals, timeout=20):
    """What an ordinary build does on these values: (verdict, output)."""
    try:
        p = subprocess.run([exe, str(arg), ",".join(map(str, vals))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0:
        return "ok", out
    if p.returncode == 10:
        return "check", out
    if p.returncode == 11:
        return "mismatch", out
    return "panic" if p.returncode == 101 else "crash", out


def outs(text):
    return [int(x[4:]) for x in text.splitlines() if x.startswith("OUT ")]


def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m:
        return n
    s, r = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        l = int(k.group())
        r.append(s[k.end():k.end() + l])
        s = s[k.end() + l:]
    t = "::".join(r)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","),
                 ("$LP$", "("), ("$RP$", ")"), ("$u27$", "'"), ("$u5b$", "["), ("$u5d$", "]"), ("$BP$", "*"), ("..", "::")):
        t = t.replace(a, b)
    return t


def findings():
    """Recorded defects: property, job, code and the exact input."""
    out = []
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) job=(\S+) code=(\S+) text=(\".*\") -- (.*)", line.strip())
            if m:
                out.append((m[1], m[2], m[3], json.loads(m[4]), m[5]))
    return out


def jobs_of(exe, prop, tier):
    p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, check=True)
    js = []
    for l in p.stdout.splitlines():
        i, name, t, shards, reach, props, what = l.split("\t")
        if prop in props.split() and int(t) <= (tier == "thorough"):
            js.append(dict(arg=int(i), name=name, tier=int(t), shards=int(shards), reach=int(reach), what=what))
    return js


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.lock = threading.Lock()
        self.stop = False
        self.procs = set()
        self.confirmed = []   # (job, violation, verdicts)
        self.unconfirmed = []
        self.known = []
        self.validated = 0
        self.disagree = []
        self.findings = findings()

    def symex(self, job, shard):
        total, each, z3t = LIMITS[self.tier]
        left = int(self.t_end - time.time())
        if self.stop or left < 2:
            return None
        cmd = [ENGINE, "--ll", self.ll, "--entry", "vp_main", "--arg", str(job["arg"]), "--time", str(min(left, each)),
               "--shard", "%d/%d" % (shard, job["shards"]), "--samples", str(SAMPLES[self.tier]), "--max-steps", str(MAX_STEPS["thorough" if job["tier"] else self.tier]),
               "--max-violations", "3", "--z3-timeout", str(z3t * 1000)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        with self.lock:
            self.procs.add(p)
        try:
            o, e = p.communicate(timeout=min(left, each) + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        with self.lock:
            self.procs.discard(p)
        if self.stop:
            return None
        try:
            r = json.loads(o.decode())
        except ValueError:
            return dict(fail="exit %s %s" % (p.returncode, e.decode("utf-8", "replace")[-400:]))
        for v in r["violations"] + r["lost"]:
            self.judge(job, v)
        if not self.stop:
            self.validate(job, r["samples"])
        return r

    def judge(self, job, v):
        """Replay a counterexample (or the model of a path that was given up) on the ordinary builds."""
        verdicts = [native(x, job["arg"], v["vars"]) for x in self.exes]
        if any(r[0] == "hang" for r in verdicts):   # slow, or without end?
            verdicts = [r if r[0] != "hang" else native(self.exes[1], job["arg"], v["vars"], 100) for r in verdicts]
        real = [r for r in verdicts if r[0] in ("check", "panic", "crash", "hang")]
        if v["kind"] == "lost" and not real:
            return
        with self.lock:
            if not real:
                if v["kind"] == "hang":   # slow, but it ends: not a violation, and not explored
                    return
                self.unconfirmed.append((job, v, verdicts))
                return
            m = re.search(r"FAIL check (\d+)", real[0][1])
            code = m[1] if m else real[0][0]
            text = bytes(v["text"]).decode("utf-8", "replace")
            for f in self.findings:
                if f[:3] == (self.prop, job["name"], code) and f[3] == text:
                    if f not in self.known:
                        self.known.append(f)
                    return
            self.confirmed.append((job, v, verdicts, code))
            self.stop = True
            for p in self.procs:
                p.kill()

    def validate(self, job, samples):
        """The encoding and an ordinary build agree on models of explored paths."""
        if not samples:
            return
        inp = "".join("%d %s\n" % (job["arg"], ",".join(map(str, s["vars"]))) for s in samples)
        for exe in self.exes:
            try:
                p = subprocess.run([exe, "--batch"], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
                parts = p.stdout.decode("utf-8", "replace").split("END\n")[:-1]
            except subprocess.TimeoutExpired:
                parts = []
            for i, s in enumerate(samples):
                if i < len(parts) and outs(parts[i]) == s["outs"]:
                    ok = True
                else:   # alone, in a process of its own
                    k, o = native(exe, job["arg"], s["vars"])
                    ok = k == "ok" and outs(o) == s["outs"]
                    if k in ("check", "panic", "crash", "hang"):
                        self.judge(job, dict(s, kind="replayed model", code=0, stack=[]))
                with self.lock:
                    if ok:
                        self.validated += 1
                    else:
                        self.disagree.append((job["name"], s["vars"]))

    def go(self):
        prop, tier = self.prop, self.tier
        build_engine()
        self.ll, self.exes = build(FEATURES.get(prop, "full"))
        t_built = time.time()
        jobs = jobs_of(self.exes[0], prop, tier)
        if not jobs:
            raise Trouble("no jobs for " + prop)
        self.t_end = min(time.time() + LIMITS[tier][0], T0 + 780 if tier == "quick" else 1e18)
        # shard by shard, the jobs with many shards first; quick jobs before the deeper ones
        tasks = sorted(((j, k) for j in jobs for k in range(j["shards"])), key=lambda x: (x[0]["tier"], -x[0]["shards"]))
        res = {}

        def go(tasks):
            with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
                fs = {ex.submit(self.symex, j, k): (j["name"], k) for j, k in tasks}
                for f in cf.as_completed(fs):
                    res[fs[f]] = f.result()

        go(tasks)
        if prop == "C17" and tier == "quick" and not self.stop and any(r and r.get("globals_written") for r in res.values()):
            # the code keeps state between calls: explore longer histories as well
            more = [j for j in jobs_of(self.exes[0], prop, "thorough") if j["tier"] == 1]
            jobs += more
            go([(j, k) for j in more for k in range(j["shards"])])
        return self.report(jobs, res, t_built)

    def report(self, jobs, res, t_built):
        prop, tier = self.prop, self.tier
        rows, problems, partial = [], [], []
        tot = dict.fromkeys("paths infeasible forks steps checks_concrete checks_symbolic branch_sym cache_hits queries sat unsat".split(), 0)
        solver = maxq = 0.0
        funcs, zver, samples, lost_why = set(), set(), [], {}
        for j in jobs:
            rs = [res.get((j["name"], k)) for k in range(j["shards"])]
            fails = [r["fail"] for r in rs if r and "fail" in r]
            ok = [r for r in rs if r and "fail" not in r]
            reached = {}
            row = dict(job=j["name"], what=j["what"], shards=j["shards"])
            row.update({k: sum(r[k] for r in ok) for k in ("paths", "forks", "queries")})
            row["max_variables"] = max([r["max_vars"] for r in ok] or [0])
            row["longest_path_instructions"] = max([r["max_steps"] for r in ok] or [0])
            for r in ok:
                for k in tot:
                    tot[k] += r[k]
                solver += r["solver_s"]
                maxq = max(maxq, r["max_query_s"])
                zver.add(r["z3_version"])
                funcs.update(r["functions"])
                for k, n in r["reached"].items():
                    reached[int(k)] = reached.get(int(k), 0) + n
                for v in r["lost"]:
                    lost_why[v["stack"][0][:160]] = lost_why.get(v["stack"][0][:160], 0) + 1
            row["accepted_paths"], row["rejected_paths"] = reached.get(1, 0), reached.get(2, 0)
            row["complete"] = len(ok) == j["shards"] and all(r["complete"] for r in ok)
            if not row["complete"]:
                partial.append(j["name"])
            elif any(j["reach"] & b and b not in reached for b in (1, 2, 4, 8)):
                problems.append("%s never reached one of its outcomes (%s)" % (j["name"], reached))
            problems += ["%s: %s" % (j["name"], f) for f in fails]
            if ok and ok[0]["samples"] and len(samples) < 24:
                s = ok[0]["samples"][-1]
                samples.append(dict(job=j["name"], input=bytes(s["text"]).decode("utf-8", "replace")[:300], values=s["vars"][:40]))
            rows.append(row)
        if self.disagree and not self.confirmed:
            problems.append("the encoding and the ordinary builds disagree: %s" % self.disagree[:2])
        for j, v, vd in self.unconfirmed:
            problems.append("%s: counterexample does not reproduce: %s code %s %r %s" % (j["name"], v["kind"], v["code"], bytes(v["text"]), vd[0]))
        if not tot["paths"] and not self.confirmed:
            problems.append("nothing was explored")
        own = sorted({demangle(f) for f in funcs})
        mine = [f for f in own if "weedle" in f or "nom::" in f]
        violations = []
        for j, v, verdicts, code in self.confirmed:
            violations.append(self.save(j, v, verdicts, code))
        commit = run(["git", "-C", "/repo", "rev-parse", "HEAD"], V).stdout.strip()
        ev = dict(
            property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
            coverage=dict(
                states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=self.validated,
                samples=samples, exhaustive=not partial and not self.confirmed and not problems,
                explanation="states: feasible paths executed to their end, each standing for all values of its symbolic variables; "
                            "transitions: forks between them; validated traces: models of paths on which the ordinary builds "
                            "(dev and optimised) printed the same outputs as the encoding. exhaustive: every job explored all "
                            "its paths within its bounds.",
                jobs=rows, jobs_not_explored_completely=partial, paths_given_up=lost_why,
                infeasible_paths=tot["infeasible"], instructions_executed=tot["steps"],
                assertions_decided_without_solver=tot["checks_concrete"], assertions_decided_by_solver=tot["checks_symbolic"],
                symbolic_branches=tot["branch_sym"], queries_answered_from_cache=tot["cache_hits"],
                solver=dict(name="z3", version=sorted(zver), queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"],
                            seconds=round(solver, 2), longest_query_seconds=round(maxq, 3)),
                functions_encoded=dict(executed=len(own), of_the_parser=len(mine), names=mine[:400]),
                statics_written=sorted({demangle(g) for r in res.values() if r for g in r.get("globals_written", [])}),
                repo_commit=commit, build_seconds=round(t_built - T0, 1),
            ),
            assumptions=[
                "inputs are those the jobs describe (see jobs and DESIGN.md); longer or differently shaped inputs are outside the claim",
                "rustc's LLVM IR at opt-level 2 with overflow checks represents the sources; the executor's reading of it is "
                "validated on models of explored paths against two ordinary builds",
                "allocation never fails; the stack holds 20000 frames",
                "each counterexample is reported only after an ordinary build reproduced it",
            ],
            wall_s=round(time.time() - T0, 1), violations=len(violations),
        )
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", prop + ".json")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f[4]))
        print("%s %s: %d jobs, %d paths, %d forks, %d queries (%.1f s), %d traces validated, %.0f s%s" % (
            prop, tier, len(jobs), tot["paths"], tot["forks"], tot["queries"], solver, self.validated, time.time() - T0,
            "; not explored completely: " + " ".join(partial) if partial else ""))
        for w, n in list(lost_why.items())[:5]:
            print("  given up (%d): %s" % (n, w))
        if violations:
            for (j, v, vd, code), path in zip(self.confirmed, violations):
                print("  job %s: %s" % (j["name"], CODES.get(int(code), "?") if code.isdigit() else code))
                print("  input %r" % bytes(v["text"]).decode("utf-8", "replace"))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if problems:
            for x in problems[:8]:
                print("PROBLEM " + x)
            return 2
        return 0

    def save(self, j, v, verdicts, code):
        d = os.path.join(V, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        rec = dict(property=self.prop, job=j["name"], what=j["what"], features=FEATURES.get(self.prop, "full"), values=v["vars"],
                   input=bytes(v["text"]).decode("utf-8", "replace"), failure=CODES.get(int(code), code) if code.isdigit() else code,
                   symbolic=dict(kind=v["kind"], code=v["code"], stack=v["stack"][:12]),
                   ordinary_builds=dict(dev=verdicts[0][1][-800:], optimised=verdicts[1][1][-800:]),
                   again="python3 /verif/check.py --replay <this file>")
        h = hashlib.sha1(json.dumps([j["name"], v["vars"]]).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s-%s.json" % (self.prop, j["name"], h))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
            f.write("\n")
        return path


def replay(path):
    rec = json.load(open(path))
    _, exes = build(rec["features"])
    arg = {j["name"]: j["arg"] for j in jobs_of(exes[0], rec["property"], "thorough")}[rec["job"]]
    worst = 0
    for exe in exes:
        k, o = native(exe, arg, rec["values"])
        print(exe, k)
        print(o)
        worst |= k not in ("ok", "mismatch")
    return worst


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build_engine()
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return Run(a[0], tier).go()
    except Trouble as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
