#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import random
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Fail(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot_bin():
    rc, o = sh(["rustc", "--print", "sysroot"])
    if rc:
        raise Fail("rustc: " + o)
    return os.path.join(o.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "engine"))
    rc, o = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=env)
    if rc:
        raise Fail("engine build failed:\n" + o[-3000:])
    return os.path.join(B, "engine/release/symex")


def build_harness(feature, work):
    """whole-program LLVM IR of the harnesses + the crates in /repo + std, from the current tree"""
    hd = os.path.join(V, "harness")
    tgt = os.path.join(B, "target")
    os.makedirs(tgt, exist_ok=True)
    # the crates of /repo are always recompiled from the working tree
    fp = os.path.join(tgt, "debug/.fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("futures", "vph")):
                shutil.rmtree(os.path.join(fp, d))
    deps = os.path.join(tgt, "debug/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(("vph", "libvph")) or f.endswith(".bc"):
                os.unlink(os.path.join(deps, f))
    src = os.path.join(B, "harness_src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(hd, src, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    lock = os.path.join(hd, "Cargo.lock")
    shutil.copy(lock, os.path.join(src, "Cargo.lock"))
    env = dict(ENV, CARGO_TARGET_DIR=tgt)
    t0 = time.time()
    rc, o = sh(["cargo", "rustc", "--offline", "--lib", "--features", feature, "--", "-C", "save-temps", "-Awarnings"], cwd=src, env=env)
    if rc:
        raise Fail("harness build failed (feature %s):\n%s" % (feature, o[-6000:]))
    bcs = [f for f in os.listdir(deps) if f.endswith(".lto.after-restriction.bc")]
    if len(bcs) != 1:
        raise Fail("expected one LTO module, found %r" % bcs)
    bc = os.path.join(deps, bcs[0])
    bin_ = sysroot_bin()
    rc, o = sh([bin_ + "/llvm-nm", "--defined-only", bc])
    api = [l.split()[-1] for l in o.splitlines() if re.match(r"^(h_\w+|vp_rt_panic)$", l.split()[-1])]
    if not api:
        raise Fail("no harness entries found")
    out_bc, ll = os.path.join(work, "m.bc"), os.path.join(work, "m.ll")
    rc, o = sh([bin_ + "/opt", "-passes=internalize,globaldce,sroa,globaldce", "-internalize-public-api-list=" + ",".join(api), "-strip-debug", bc, "-o", out_bc])
    if rc:
        raise Fail("opt: " + o[-2000:])
    rc, o = sh([bin_ + "/llvm-dis", out_bc, "-o", ll])
    if rc:
        raise Fail("llvm-dis: " + o[-2000:])
    for f in os.listdir(deps):
        if f.endswith(".bc"):
            os.unlink(os.path.join(deps, f))
    return ll, [a for a in api if a.startswith("h_")], time.time() - t0


def build_native(symex, ll, entries, work):
    """the same IR compiled to machine code, with its visible operations routed through rt/native.c"""
    bin_ = sysroot_bin()
    il, obj = os.path.join(work, "i.ll"), os.path.join(work, "i.o")
    rc, o = sh([symex, "--instrument", ll, il])
    if rc:
        raise Fail("instrument: " + o)
    rc, o = sh([bin_ + "/llc", "-O0", "-filetype=obj", "-relocation-model=pic", il, "-o", obj])
    if rc:
        raise Fail("llc: " + o[-2000:])
    os.unlink(il)
    ec = os.path.join(work, "entries.c")
    with open(ec, "w") as f:
        f.write("struct entry { const char *n; void (*f)(void); };\n")
        for e in entries:
            f.write("void %s(void);\n" % e)
        f.write("struct entry vp_entries[] = {%s{0, 0}};\n" % "".join('{"%s", %s},' % (e, e) for e in entries))
    exe = os.path.join(work, "replay")
    rc, o = sh(["gcc", "-g", "-O1", "-fexceptions", os.path.join(V, "engine/rt/native.c"), ec, obj, "-o", exe, "-lpthread", "-ldl", "-lm"])
    if rc:
        raise Fail("native link: " + o[-3000:])
    os.unlink(obj)
    return exe


def write_replay(path, params, inputs, sched):
    with open(path, "w") as f:
        for p in params:
            f.write("param %d\n" % p)
        for v in inputs:
            f.write("in %d\n" % v)
        for t, n, k, to in sched:
            f.write("ev %d %d %s %d\n" % (t, n, k, to))


def run_native(exe, entry, rfile, rep):
    try:
        p = subprocess.run([exe, entry, rfile, rep], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return "livelock", [], -1
    try:
        lines = open(rep).read().splitlines()
    except OSError:
        lines = []
    head = lines[0] if lines else "CRASH rc=%d" % rc
    logs = [int(l[4:]) for l in lines[1:] if l.startswith("log ")]
    return head, logs, rc


class Cores:
    def __init__(self, n):
        self.n, self.free, self.cv = n, n, threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


def demangle(names):
    """source paths of the functions of the futures crates that were executed (generic arguments left out)"""
    names = sorted(names)
    try:
        out = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")[:len(names)]
    except Exception:
        return names
    r = set()
    for n in out:
        # keep the self type and trait of an impl, drop the arguments of both
        n = re.sub(r"::\{closure[^}]*\}|::\{shim[^}]*\}", "", n)
        x = n
        while True:
            y = re.sub(r"::<[^<>]*>|(?<=[A-Za-z0-9_])<[^<>]*>", "", x)
            if y == x:
                break
            x = y
        if "futures" in x and not x.startswith(("core::", "alloc::", "std::", "<&", "<alloc::", "<core::", "vph::")):
            r.add(x)
    return sorted(r)


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup":
        os.makedirs(B, exist_ok=True)
        build_engine()
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    import checks
    P = checks.SELFTEST if prop == "T00" else checks.PROPS[prop]
    t0 = time.time()
    work = os.path.join(B, "work", prop)
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    try:
        symex = build_engine()
        ll, entries, bsec = build_harness(P["feature"], work)
        exe = build_native(symex, ll, entries, work)
    except (Fail, subprocess.TimeoutExpired) as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    runs = []
    for h in P["harnesses"]:
        if only and h["entry"] != only:
            continue
        h = dict(h)
        if tier == "thorough":
            h.update(h.get("thorough", {}))
        if h["entry"] not in entries:
            print("ERROR property=%s harness entry %s missing" % (prop, h["entry"]))
            return 2
        runs.append(h)
    ncpu = os.cpu_count() or 4
    cores = Cores(ncpu)
    tmax = P.get("time", 600) if tier == "quick" else 6 * 3600

    stop = threading.Event()
    deadline = t0 + (800 if tier == "quick" else 12 * 3600)

    def one(i_h):
        i, h = i_h
        out = os.path.join(work, "r%d.json" % i)
        j = cores.take(h.get("jobs", 1))
        try:
            if stop.is_set():
                return {"entry": h["entry"], "status": "skipped"}
            tm = max(5, min(tmax, int(deadline - time.time())))
            cmd = [symex, "--ll", ll, "--entry", h["entry"], "--out", out, "--jobs", str(j), "--time", str(tm), "--preempt", str(h.get("preempt", 2)), "--samples", str(h.get("samples", 4))]
            for p in h.get("params", []):
                cmd += ["--param", str(p)]
            if h.get("race"):
                cmd.append("--race")
            if not h.get("dedupe", True):
                cmd.append("--no-dedupe")
            if "steps" in h:
                cmd += ["--steps", str(h["steps"])]
            lg = out + ".log"
            with open(lg, "w") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV)
                t1 = time.time()
                while p.poll() is None:
                    if stop.is_set() or time.time() > t1 + tm + 30:
                        p.kill()
                        p.wait()
                        if stop.is_set():
                            return {"entry": h["entry"], "status": "skipped"}
                        return {"entry": h["entry"], "status": "error", "violation": {"kind": "timeout", "msg": "engine time-out"}}
                    time.sleep(0.05)
            try:
                r = json.load(open(out))
            except (OSError, ValueError):
                return {"entry": h["entry"], "status": "error", "violation": {"kind": "crash", "msg": "engine exit %d: %s" % (p.returncode, open(lg).read()[-1500:])}}
            if r["status"] == "ok" and h.get("exists"):
                missing(i, h, r)
            if r["status"] == "violation" and "confirmed" not in r:
                confirm(i, h, r)
            return r
        finally:
            cores.give(j)

    known = json.load(open(os.path.join(V, "known_findings.json"))) if os.path.exists(os.path.join(V, "known_findings.json")) else {"known": []}

    def is_known(h, v):
        return any(k["property"] == prop and k["entry"] == h["entry"] and k["msg"] in v["msg"] for k in known["known"])

    def confirm(i, h, r):
        """replay the counterexample on the compiled code"""
        v = r["violation"]
        rp = os.path.join(work, "violation-%d-%s.replay" % (i, h["entry"]))
        write_replay(rp, h.get("params", []), v["inputs"], v["sched"])
        head, logs, rc = run_native(exe, h["entry"], rp, rp + ".report")
        if head.startswith("VIOLATION") or head == "livelock" or (head.startswith("CRASH") and rc < 0):
            r["confirmed"] = head
        elif v["kind"] == "race" and head.startswith("END"):
            # the schedule runs natively; unsynchronised conflicting accesses need no visible failure
            r["confirmed"] = "schedule reproduced natively; happens-before race"
        else:
            r["unconfirmed"] = head
        r["replay"] = rp
        if "confirmed" in r and not is_known(h, v) and tier == "quick":
            stop.set()

    def missing(i, h, r):
        """outcomes the property demands to be possible; none of all explored paths has the missing ones.
        The demonstration on the compiled code makes many random runs (parameters h["exists"])"""
        miss = [c for c in h["covers"] if c not in r["covers"]]
        if not miss:
            return
        rng = random.Random(1)
        rp = os.path.join(work, "violation-%d-%s.replay" % (i, h["entry"]))
        write_replay(rp, h["exists"], [rng.randrange(1 << 30) for _ in range(6000)], [])
        head, logs, rc = run_native(exe, h["entry"], rp, rp + ".report")
        if head.startswith("VIOLATION"):
            r.update(status="violation", confirmed=head, replay=rp, violation={"kind": "unreachable", "msg": "outcomes %r that must be possible are not" % miss, "inputs": [], "sched": [], "stack": []})
            stop.set()
        else:
            r["covers"] = list(r["covers"]) + miss

    order = sorted(enumerate(runs), key=lambda x: -x[1].get("jobs", 1))
    with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as ex:
        res = dict(zip([i for i, _ in order], ex.map(one, order)))
    res = [res[i] for i in range(len(runs))]

    errors, viols, validated, samples = [], [], 0, []
    for i, (h, r) in enumerate(zip(runs, res)):
        tag = "%s%s" % (h["entry"], "" if not h.get("race") else "+race")
        if r["status"] == "error":
            v = r["violation"]
            errors.append("%s: %s: %s %s" % (tag, v["kind"], v["msg"], " < ".join(x.strip() for x in v.get("stack", [])[:8])))
        elif r["status"] == "violation":
            v = r["violation"]
            if "confirmed" in r:
                viols.append((h, v, r["replay"], r["confirmed"]))
            else:
                errors.append("%s: counterexample (%s: %s) did not reproduce natively: %s; replay %s\n   %s" % (tag, v["kind"], v["msg"], r["unconfirmed"], r["replay"], "\n   ".join(v["stack"][:20])))
        elif r["status"] == "skipped":
            r["tag"] = tag
            continue
        else:
            miss = [c for c in h.get("covers", []) if c not in r["covers"]]
            if miss:
                errors.append("%s: reachability witnesses %r not reached (vacuous harness)" % (tag + str(h.get("params", [])), miss))
            if r["paths"] == 0:
                errors.append("%s: no complete path" % tag)
        # translation validation: completed paths replayed on the compiled code
        for k, s in enumerate(r.get("samples", [])[: h.get("samples", 4) * 2]):
            rp = os.path.join(work, "sample-%d-%d.replay" % (i, k))
            write_replay(rp, h.get("params", []), s["inputs"], s["sched"])
            head, logs, rc = run_native(exe, h["entry"], rp, rp + ".report")
            want = [x & (2**64 - 1) for x in s["log"]]
            if head.startswith("END") and logs == want:
                validated += 1
                if len(samples) < 6:
                    samples.append({"harness": h["entry"], "inputs": s["inputs"][:40], "schedule": s["sched"][:40], "log": want[:40], "native": "same"})
                os.unlink(rp)
                os.unlink(rp + ".report")
            else:
                errors.append("%s: sampled path differs on the compiled code: %s log %r expected %r; replay %s" % (tag, head, logs[:20], want[:20], rp))
        r["tag"] = tag
    tot = lambda k: sum(r.get(k, 0) for r in res)
    fns = demangle({f for r in res for f in r.get("functions", []) if "futures" in f})
    real, knownhit = [], []
    for x in viols:
        h, v, rp, head = x
        (knownhit if is_known(h, v) else real).append(x)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": int(tot("paths") + tot("forks") + tot("switches")),
            "transitions": int(tot("instructions")),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path"}],
            "exhaustive": not errors and not viols,
            "paths_completed": int(tot("paths")),
            "paths_infeasible_or_merged": int(tot("infeasible")),
            "forks_on_symbolic_data": int(tot("forks")),
            "scheduler_forks": int(tot("switches")),
            "assertions_checked": int(tot("assertions")),
            "assertions_sent_to_solver": int(tot("assertions_symbolic")),
            "solver_queries": int(tot("queries")),
            "solver_queries_sat": int(tot("queries_sat")),
            "solver_queries_unsat": int(tot("queries_unsat")),
            "solver_cache_hits": int(tot("queries_cached")),
            "solver_time_s": round(tot("solver_s"), 3),
            "solver": "z3 " + next((r["solver"] for r in res if "solver" in r), "?"),
            "functions_encoded": len(fns),
            "functions_encoded_names": fns,
            "harnesses": [
                {
                    "entry": r["tag"],
                    "params": h.get("params", []),
                    "preemption_bound": h.get("preempt", 2),
                    "paths": r.get("paths"),
                    "vars": r.get("vars"),
                    "threads": r.get("threads"),
                    "queries": r.get("queries"),
                    "solver_s": r.get("solver_s"),
                    "max_query_s": r.get("query_s"),
                    "wall_s": r.get("wall_s"),
                    "status": r["status"],
                    "bounds": h.get("bounds", ""),
                }
                for h, r in zip(runs, res)
            ],
            "ir_build_s": round(bsec, 1),
        },
        "assumptions": P.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for h, r in zip(runs, res):
        print("%-34s %-9s paths=%-7d states=%-8d insts=%-10d queries=%-6d solver=%.2fs wall=%.1fs" % (r["tag"], r["status"], r.get("paths", 0), r.get("paths", 0) + r.get("forks", 0) + r.get("switches", 0), r.get("instructions", 0), r.get("queries", 0), r.get("solver_s", 0), r.get("wall_s", 0)))
    for h, v, rp, head in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, h["entry"], v["msg"]))
    if real:
        keep = os.path.join(V, "evidence", "replay")
        os.makedirs(keep, exist_ok=True)
        for h, v, rp, head in real:
            dst = os.path.join(keep, "%s-%s%s.replay" % (prop, h["entry"], "-race" if h.get("race") else ""))
            shutil.copy(rp, dst)
            print("  %s: %s: %s" % (h["entry"], v["kind"], v["msg"]))
            print("  native replay: %s   inputs=%s schedule=%s" % (head, v["inputs"][:24], v["sched"][:12]))
            for l in v["stack"][:14]:
                print("    " + l)
            print("VIOLATION property=%s replay=%s" % (prop, dst))
    for e in errors:
        print("ERROR property=%s %s" % (prop, e))
    print("property=%s tier=%s wall=%.1fs build=%.1fs" % (prop, tier, time.time() - t0, bsec))
    if not real and not errors:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if real else 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
