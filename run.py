#!/usr/bin/env python3
"""Decides one property: run.py PROPERTY [quick|thorough]

Compiles the harnesses together with /repo's current source to LLVM IR, lets the symbolic engine
(engine/, `llsym`) execute the harnesses of this property, replays what it reports against the
natively compiled code, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import hashlib, json, os, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor
import tasks as T

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JSON_REPO", "/repo")          # development only; checks use /repo
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
ENGINE = os.path.join(ROOT, "engine/target/release/llsym")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("RUSTFLAGS", None)
CORES = int(os.environ.get("VERIF_CORES", "8"))

class Failure(Exception): pass

def sh(cmd, env=ENV, cwd=None, timeout=600, **kw):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, capture_output=True, text=True, **kw)

def digest():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness/src")):
        for d, _, fs in os.walk(base): files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "harness/Cargo.toml")]
    for f in ("build.rs", "rust-toolchain", ".cargo/config.toml"):
        if os.path.exists(os.path.join(REPO, f)): files.append(os.path.join(REPO, f))
    for f in sorted(files):
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]

def build_engine():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "engine"), timeout=900)
    if r.returncode: raise Failure("the engine does not build:\n" + r.stderr[-3000:])

def harness_dir(dst):
    """the harness crate, in place for /repo, as a copy with another path for development"""
    if REPO == "/repo" and ROOT == "/verif": return os.path.join(ROOT, "harness")
    h = os.path.join(dst, "harness")
    if not os.path.exists(h):
        shutil.copytree(os.path.join(ROOT, "harness"), h, ignore=shutil.ignore_patterns("target"))
        f = os.path.join(h, "Cargo.toml"); s = open(f).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(f, "w").write(s)
    return h

def build():
    """IR and native replay from the current tree, in a directory named after its content"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_engine()
        d = os.path.join(BUILD, "tree-" + digest())
        ir, nat = os.path.join(d, "harness.ll"), os.path.join(d, "replay")
        if os.path.exists(os.path.join(d, "done")) and not os.environ.get("VERIF_REBUILD"): os.utime(d); return d, ir, nat
        old = sorted((e for e in os.scandir(BUILD) if e.name.startswith("tree-")), key=lambda e: e.stat().st_mtime)
        for e in old[:-3]: shutil.rmtree(e.path, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        h = harness_dir(d)
        a = subprocess.Popen(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--target-dir", d + "/ir", "--",
                              "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=h, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = sh(["cargo", "build", "--offline", "--features", "native", "--target-dir", d + "/nat"], cwd=h)
        oa = a.communicate(timeout=600)[0]
        if a.returncode: raise Failure("the tree does not compile to IR:\n" + oa[-3000:])
        if b.returncode: raise Failure("the tree does not compile:\n" + b.stderr[-3000:])
        os.rename(d + "/ir/release/deps/harness.ll", ir)
        shutil.copy(d + "/nat/debug/replay", nat)
        shutil.rmtree(d + "/ir"); shutil.rmtree(d + "/nat")
        open(os.path.join(d, "done"), "w").close()
        return d, ir, nat

def asan(d):
    p = os.path.join(d, "replay-asan")
    if not os.path.exists(p):
        env = dict(ENV, RUSTFLAGS="-Zsanitizer=address", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu")
        r = sh(["cargo", "build", "--offline", "--features", "native", "--target", "x86_64-unknown-linux-gnu", "--target-dir", d + "/asan"], env=env, cwd=harness_dir(d))
        if r.returncode: return None
        shutil.copy(d + "/asan/x86_64-unknown-linux-gnu/debug/replay", p)
        shutil.rmtree(d + "/asan")
    return p

def native(nat, harness, args, tape, mode=""):
    """one concrete run; returns (verdict, log)"""
    env, cmd = dict(ENV), [nat, harness, ",".join(map(str, args)) or "-"]
    if mode == "freeze": env["REPLAY_FREEZE"] = "1"
    elif mode: env["REPLAY_PLAIN"] = "1"; env["ASAN_OPTIONS"] = "detect_leaks=0"
    if mode == "valgrind": cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try: r = subprocess.run(cmd, env=env, input=" ".join(str(v) for _, v in tape), capture_output=True, text=True, timeout=120 if mode else 30, errors="replace")
    except subprocess.TimeoutExpired: return "does not terminate", []
    log = [int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith("LOG ")]
    res = [l[7:] for l in r.stdout.splitlines() if l.startswith("RESULT ")]
    pan = [l for l in r.stdout.splitlines() if l.startswith("PANIC ")]
    if r.returncode == 99 and mode == "valgrind": return "memory " + " ".join(r.stderr.split("\n")[:1]), log
    if mode == "asan" and "AddressSanitizer" in r.stderr: return "memory " + [l for l in r.stderr.splitlines() if "AddressSanitizer" in l][0], log
    if pan: return "panic " + pan[0][6:], log
    if res: return res[-1], log
    return "died with status %d" % r.returncode, log

def confirm(d, nat, t, v):
    """does the counterexample fail in the real code? returns its verdict there, or None"""
    good = lambda x: x != "ok" and x != "assume" and x != "tape"
    r, _ = native(nat, t["harness"], t["args"], v["tape"])
    if good(r): return r
    if r == "ok" and v["kind"] == "shared":
        r, _ = native(nat, t["harness"], t["args"], v["tape"], "freeze")
        if good(r): return r
    if r == "ok" and v["kind"] in ("memory", "uninit", "unreachable"):
        r, _ = native(nat, t["harness"], t["args"], v["tape"], "valgrind")
        if good(r): return r
        p = asan(d)
        if p:
            r, _ = native(p, t["harness"], t["args"], v["tape"], "asan")
            if good(r): return r
    return None

def show_tape(t, v):
    vals = [x for _, x in v["tape"]]
    s = "inputs " + " ".join(map(str, vals))
    if t["harness"].startswith("h_parse"): s += "  text bytes(symbolic positions) " + repr(bytes(x & 255 for x in vals))
    return s

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    d, ir, nat = build()
    t_build = time.time() - t0
    ts = T.tasks(pid, tier)
    only = os.environ.get("VERIF_ONLY")
    if only: ts = [t for t in ts if t["name"].startswith(only)]
    run = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(run)
    try: return decide(pid, tier, t0, t_build, d, ir, nat, ts, run)
    finally: shutil.rmtree(run, ignore_errors=True)

def decide(pid, tier, t0, t_build, d, ir, nat, ts, run):
    lines = []
    for t in ts:
        o = dict({"time": 200 if tier == "quick" else 3000}, **t["opts"])
        lines.append("%s %s %s %s" % (t["name"], t["harness"], ",".join(map(str, t["args"])) or "-", " ".join("%s=%s" % kv for kv in o.items())))
    open(run + "/tasks", "w").write("\n".join(lines) + "\n")
    budget = 300 if tier == "quick" else 20000
    def engine(*opts):
        try: r = sh([ENGINE, "run", "--ir", ir, "--tasks", run + "/tasks", "--out", run + "/out.json", "--threads", str(CORES), "--budget", str(budget)] + list(opts), timeout=budget + 200)
        except subprocess.TimeoutExpired: raise Failure("the engine did not finish")
        if r.returncode: raise Failure("engine: " + r.stderr[-3000:])
        if os.environ.get("VERIF_DEBUG"): sys.stderr.write(r.stderr[-5000:])
        return json.load(open(run + "/out.json"))
    def replayed(out):
        conf, unconf = [], []
        viols = [(t, v) for t, x in zip(ts, out) for v in x.get("viols", [])]
        for t, v in viols[:12 if stop_all else 40]:
            r = confirm(d, nat, t, v)
            if r: conf.append((t, v, r))
            else: unconf.append((t, v))
            if len(conf) >= 3: break
        return conf, unconf
    stop_all = True
    out = engine("--stop-all")
    conf, unconf = replayed(out)
    if unconf and not conf:
        # nothing fails natively: look at everything that is left
        stop_all = False
        budget //= 2
        out = engine()
        conf, unconf = replayed(out)
    tot, problems, fns, samples = {}, [], set(), []
    stopped = stop_all and bool(conf)
    per = []
    for t, x in zip(ts, out):
        assert t["name"] == x["name"]
        if x.get("missing"):
            if not stopped: problems.append("%s: not started within the time budget" % t["name"])
            continue
        for k, v in x.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): tot[k] = max(tot.get(k, 0), v) if k in ("max_query_secs", "max_depth", "end", "nodes") else tot.get(k, 0) + v
        fns.update(x.get("fns", []))
        for e in x.get("errors", []): problems.append("%s: %s" % (t["name"], e))
        if not stopped:
            for c in t["covers"]:
                if c not in x.get("covers", []): problems.append("%s: expected outcome %d was never reached" % (t["name"], c))
        per.append({"task": t["name"], "harness": t["harness"], "args": t["args"], "paths": x.get("paths", 0), "obligations": x.get("obligations", 0), "queries": x.get("queries", 0), "cpu_s": round(x.get("cpu_secs", 0), 2), "bounds": t["bound"]})
        for s in x.get("samples", []): samples.append((t, s))
    # what does not fail natively decides nothing
    for t, v in unconf: problems.append("%s: unconfirmed counterexample: %s %s %s" % (t["name"], v["kind"], v["msg"], show_tape(t, v)))
    # replay sampled paths: the log of the symbolic execution must be the log of the real run
    ok_samples, bad_samples = 0, []
    def one(ts_):
        t, s = ts_
        return t, s, native(nat, t["harness"], t["args"], s["tape"])
    if not conf:
        pick = samples if tier == "thorough" else samples[:400]
        with ThreadPoolExecutor(CORES) as ex:
            for t, s, (r, log) in ex.map(one, pick):
                if r == "ok" and log == s["log"]: ok_samples += 1
                else: bad_samples.append("%s: %s: %s %s, expected %s" % (t["name"], show_tape(t, s), r, log, s["log"]))
    known = T.known(pid)
    for k in known:
        r, _ = native(nat, k["harness"], k["args"], [(64, x) for x in k["tape"]])
        if r != "ok": print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ex = []
    for t, s in samples[::max(1, len(samples) // 8)][:8]: ex.append({"task": t["name"], "harness": t["harness"], "args": t["args"], "inputs": [x for _, x in s["tape"]], "log": s["log"][:40]})
    info = T.info(pid)
    cov = {"states": int(tot.get("paths", 0)), "transitions": int(tot.get("steps", 0)), "traces_validated_against_impl": ok_samples, "samples": ex,
           "rule": "states = completed symbolic paths, each standing for every input that satisfies its path condition; transitions = LLVM instructions executed symbolically; a trace is validated when the native run of a solver-chosen input of the path logs what the symbolic run logged",
           "obligations": int(tot.get("obligations", 0)), "queries": int(tot.get("queries", 0)), "solver_calls": int(tot.get("z3_calls", 0)), "unknown_answers": int(tot.get("unknown", 0)),
           "infeasible_paths_pruned": int(tot.get("infeasible", 0)), "forks": int(tot.get("forks", 0)), "solver_s": round(tot.get("solver_secs", 0), 2), "cpu_s": round(tot.get("cpu_secs", 0), 2), "slowest_query_s": round(tot.get("max_query_secs", 0), 3),
           "tasks": per, "bounds": info["bounds"], "outside_bounds": info["outside"], "exhaustive": not problems and not bad_samples and not conf and not unconf,
           "not_explored": problems[:40], "functions_encoded": sorted(f for f in fns if "json" in f or "harness" in f), "functions_encoded_total": len(fns),
           "trace_mismatches": bad_samples[:5], "build_s": round(t_build, 1), "engine_wall_s": round(tot.get("end", 0), 1)}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": T.ASSUMPTIONS + info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(conf)}
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s: %d tasks, %d paths, %d obligations, %d queries (%d solver calls, %.1f s), %d traces validated, %.1f s" % (pid, tier, len(per), cov["states"], cov["obligations"], cov["queries"], cov["solver_calls"], cov["solver_s"], ok_samples, time.time() - t0))
    for p in problems[:20]: print("NOT EXPLORED: " + p[:500])
    rp = os.path.join(ROOT, "replays"); os.makedirs(rp, exist_ok=True)
    for i, (t, v, r) in enumerate(conf):
        f = os.path.join(rp, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "task": t["name"], "harness": t["harness"], "args": t["args"], "kind": v["kind"], "msg": v["msg"], "inputs": [x for _, x in v["tape"]], "native": r, "trace": v["trace"],
                   "assertion": T.ASSERT.get(v["id"], ""), "how": "printf '%s' | %s %s %s   (binary built by run.py)" % (" ".join(str(x) for _, x in v["tape"]), nat, t["harness"], ",".join(map(str, t["args"])))}, open(f, "w"), indent=1)
        print("  %s: %s %s; native run: %s; %s" % (t["name"], v["kind"], T.ASSERT.get(v["id"], v["msg"]), r, show_tape(t, v)))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    if conf: return 1
    if bad_samples:
        for b in bad_samples[:5]: print("TRACE MISMATCH: " + b)
        return 2
    return 0

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        build(); sys.exit(0)
    try: sys.exit(main())
    except Failure as e: print("CHECK FAILED: %s" % e); sys.exit(2)
