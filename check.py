#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree: compiles the harness crate
against it to whole-program LLVM IR (unchecked and overflow-checked builds),
executes the harness entry points symbolically with engine/ (SMT solver: z3), replays
every counterexample on a native build, and writes evidence/<PROPERTY>.json.

exit 0  the property held on everything explored
exit 1  VIOLATION line(s), each replayed against the native build
exit 2  no answer (build failure, engine limitation, vacuous harness, model that does
        not reproduce)
"""
import collections, fcntl, json, os, re, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import tasks as T

WORK = os.path.join(ROOT, ".work")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="rustnomial")  # C01 turns on sparse_poly_trim, which asks for a (by now stable) language feature
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
SYMIR = os.path.join(WORK, "engine/release/symir")
ERR = {10: "assertion failed", 11: "panicked", 124: "did not terminate"}


class NoAnswer(Exception):
    pass


def run(cmd, cwd=ROOT, timeout=800):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def must(what, cmd, cwd):
    rc, out = run(cmd, cwd)
    if rc != 0:
        raise NoAnswer("%s failed:\n%s" % (what, out[-3000:]))


def build_engine():
    must("engine build", ["cargo", "build", "--release", "--offline", "--locked", "--target-dir", WORK + "/engine"],
         ROOT + "/engine")


def prof(mode):
    return (["--release"], "release", "") if mode == "rel" else (["--profile", "chk"], "chk", ",dbg")


def build_ir(feat, mode):
    p, d, extra = prof(mode)
    tgt = "%s/ir-%s" % (WORK, mode)
    ll = "%s/%s/deps/harness.ll" % (tgt, d)
    with open(tgt + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ll):
            os.remove(ll)
        # cargo decides freshness of the harness from its own files; the feature and the
        # state of /repo are part of its fingerprint, the emitted .ll is not: touch.
        os.utime(ROOT + "/harness/src/lib.rs")
        must("harness build (%s)" % mode,
             ["cargo", "rustc", "--offline", "--locked"] + p + ["--features", feat + extra, "--target-dir", tgt, "--",
              "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], ROOT + "/harness")
        if not os.path.exists(ll):
            raise NoAnswer("no IR emitted at " + ll)
        dst = "%s/%s-%s.ll" % (WORK, feat, mode)
        os.replace(ll, dst)
    return dst


def build_replay(feat, mode):
    p, d, extra = prof(mode)
    tgt = "%s/replay-%s" % (WORK, mode)
    with open(tgt + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must("replay build (%s)" % mode,
             ["cargo", "build", "--offline", "--locked"] + p + ["--features", feat + extra, "--target-dir", tgt], ROOT + "/replay")
        dst = "%s/replay-%s-%s" % (WORK, feat, mode)
        tmp = dst + ".tmp"
        subprocess.check_call(["cp", "%s/%s/replay" % (tgt, d), tmp])
        os.replace(tmp, dst)
    return dst


def replay(binary, entry, params, inputs, timeout=10):
    return run(["prlimit", "--as=4294967296", "--core=0", binary, entry, " ".join(map(str, params)), " ".join(x[0] for x in inputs)], timeout=timeout)


def parallel(jobs):
    res, errs = {}, []

    def go(k, f):
        try:
            res[k] = f()
        except Exception as e:
            errs.append(e)
    th = [threading.Thread(target=go, args=j) for j in jobs]
    [t.start() for t in th]
    [t.join() for t in th]
    if errs:
        raise errs[0]
    return res


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(k, mode, t, v):
    """A listed finding names the harness entry, the parameters and the assertion."""
    return k["entry"] == t["entry"] and k.get("mode", mode) == mode and k["kind"] == v["kind"] and k["id"] == v["id"] \
        and ("params" not in k or k["params"] == t["params"])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    feat = prop.lower()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    spec = T.spec(prop, tier)
    modes = sorted({t[0] for t in spec["tasks"]})
    jobs = [("engine", build_engine)]
    for m in modes:
        jobs.append(("ir-" + m, lambda m=m: build_ir(feat, m)))
        jobs.append(("rp-" + m, lambda m=m: build_replay(feat, m)))
    b = parallel(jobs)
    t_build = time.time() - t0
    # ---- symbolic execution
    tf, of = "%s/%s.tasks" % (WORK, feat), "%s/%s.json" % (WORK, feat)
    with open(tf, "w") as f:
        for m, entry, params, opts in spec["tasks"]:
            f.write(" ".join([m, entry] + [str(x) for x in params] + ["%s=%d" % kv for kv in sorted(opts.items())]) + "\n")
    if os.path.exists(of):
        os.remove(of)
    budget = spec.get("budget", 400 if tier == "quick" else 7200)
    cmd = [SYMIR, "--tasks", tf, "--out", of, "--threads", "8", "--time", str(spec.get("time", 60 if tier == "quick" else 1200)),
           "--deadline", str(budget), "--fuel", str(spec.get("fuel", 3000000)), "--q1", "3000", "--q2", "30000" if tier == "quick" else "120000"]
    for m in modes:
        cmd += ["--ir", "%s=%s" % (m, b["ir-" + m])]
    dump = ""
    if tier == "thorough":
        dump = "%s/dump-%s" % (WORK, feat)
        subprocess.call(["rm", "-rf", dump])
        os.makedirs(dump)
        cmd += ["--keep-queries", "6", "--dump-dir", dump]
    rc, out = run(cmd, timeout=budget + 600)
    if rc != 0 or not os.path.exists(of):
        raise NoAnswer("engine failed (rc %d):\n%s" % (rc, out[-3000:]))
    rep = json.load(open(of))
    # ---- interpret
    known = known_findings(prop)
    hits, viols, errors, unexplored, partial, mismatches, coarse = [], [], [], [], [], [], set()
    done = collections.Counter()
    covers = collections.defaultdict(set)
    validated = bad_samples = stuck = 0
    tried, confirmed_groups = collections.Counter(), set()
    samples, funcs = [], set()
    for t, (_, _, _, opts) in zip(rep["tasks"], spec["tasks"]):
        m = t["ir"]
        funcs.update(f for f in t["functions"] if "rustnomial" in f)
        confirmed = False
        for v in t["violations"]:
            grp = (m, t["entry"], v["kind"], v["id"])
            if v["kind"] == "hang" and (tried[grp] >= 4 or grp in confirmed_groups):
                confirmed = confirmed or grp in confirmed_groups
                continue
            tried[grp] += 1
            rrc, rout = replay(b["rp-" + m], t["entry"], t["params"], v["inputs"])
            ok = rrc in (10, 11, 124) or rrc < 0 or rrc >= 128
            if not ok and (opts.get("abs") or opts.get("loose")):
                t["incomplete"].append("the over-approximation of float arithmetic is too coarse here")
                coarse.add(id(t))
                continue
            if not ok and v["kind"] == "hang":
                t["incomplete"].append("path longer than the instruction bound (the native run terminates)")
                continue
            if not ok:
                # the engine misreads something here: nothing it says about this task counts
                mismatches.append("model does not reproduce natively: %s %s %s %s id %d inputs %s: rc %d %s" % (
                    m, t["entry"], t["params"], v["kind"], v["id"], v["inputs"], rrc, rout.strip()[-200:]))
                t["incomplete"].append("a model of the engine does not reproduce natively")
                continue
            confirmed = True
            confirmed_groups.add(grp)
            rec = dict(mode=m, entry=t["entry"], params=t["params"], kind=v["kind"], id=v["id"], detail=v["detail"],
                       inputs=v["inputs"], native=dict(rc=rrc, out=rout.strip()[-400:]))
            k = [k for k in known if matches(k, m, t, v)]
            (hits if k else viols).append((k[0] if k else None, rec))
        if t["incomplete"] and not confirmed:
            unexplored.append("%s %s %s: %s" % (m, t["entry"], t["params"], "; ".join(t["incomplete"][:2])))
        elif not t["incomplete"]:
            done[(m, t["entry"])] += 1
        covers[(m, t["entry"])].update(t["covers"])
        # translation check: models of completed paths must run to the end natively too
        if not t["violations"] and not opts.get("abs"):
            for s in t["samples"][:2]:
                rrc, rout = replay(b["rp-" + m], t["entry"], t["params"], s)
                if rrc == 0:
                    validated += 1
                    if len(samples) < 12:
                        samples.append(dict(build=m, entry=t["entry"], params=t["params"], inputs=[x[0] for x in s], native=rout.strip()[-120:]))
                elif rrc in (10, 11):
                    # the engine passed this input, the real code does not: a counterexample all the same
                    viols.append((None, dict(mode=m, entry=t["entry"], params=t["params"], kind="native", id=0, detail="input of a completed path, " + ERR[rrc],
                                             inputs=s, native=dict(rc=rrc, out=rout.strip()[-400:]))))
                elif not opts.get("loose"):
                    bad_samples += 1
                    mismatches.append("path model diverges natively: %s %s %s inputs %s: rc %d %s" % (
                        m, t["entry"], t["params"], [x[0] for x in s], rrc, rout.strip()[-200:]))
        # paths the engine could not follow to the end: the native build decides for their models
        for s in t["stuck"] if not confirmed and not opts.get("abs") and stuck < 60 else []:
            stuck += 1
            rrc, rout = replay(b["rp-" + m], t["entry"], t["params"], s)
            if rrc in (10, 11):
                viols.append((None, dict(mode=m, entry=t["entry"], params=t["params"], kind="native", id=0, detail="input of a path left open, " + ERR[rrc],
                                         inputs=s, native=dict(rc=rrc, out=rout.strip()[-400:]))))
                break
    for m, entry in sorted({(t[0], t[1]) for t in spec["tasks"]}):
        broken = any(r["entry"] == entry and r["mode"] == m for _, r in viols + hits)
        if not done[(m, entry)] and not broken and all(o.get("abs") or o.get("loose") for a, b, _, o in spec["tasks"] if (a, b) == (m, entry)):
            continue  # listed under "unexplored"
        if not done[(m, entry)] and not broken:
            # everything explored held, but no bound of this entry was exhausted in the time given
            partial.append("no bound of %s (%s) was explored completely: %s" % (entry, m, [u for u in unexplored if entry in u][:2]))
            continue
        need = set(spec["covers"].get(entry, {1}))
        if not broken and not need <= covers[(m, entry)] and any("%s %s [" % (m, entry) in u for u in unexplored):
            partial.append("witness %s of %s (%s) lies in what was not explored" % (sorted(need - covers[(m, entry)]), entry, m))
        elif not broken and not need <= covers[(m, entry)]:
            errors.append("vacuity: %s (%s) never reached witness %s" % (entry, m, sorted(need - covers[(m, entry)])))
    if len({x.split(" inputs ")[0] for x in mismatches}) * 20 > len(rep["tasks"]):
        errors += mismatches
    # where float arithmetic is abstracted, candidates that the real code refutes leave a task open, no more
    if sum(done.values()) * 2 < len(rep["tasks"]) - len(coarse) and not viols:
        errors += partial or ["only %d of %d tasks were explored completely" % (sum(done.values()), len(rep["tasks"]))]
    # ---- second solver on a sample of the discharged queries
    cross = None
    if dump:
        cross = crosscheck(dump)
        if cross["disagree"]:
            errors.append("cvc5 disagrees with z3 on " + ", ".join(cross["disagree"][:3]))
    tot = lambda k: sum(t[k] for t in rep["tasks"])
    ev = dict(
        property=prop, tier=tier, seed=seed, level=T.LEVEL, wall_s=round(time.time() - t0, 1), violations=len(viols),
        coverage=dict(
            states=tot("paths"), transitions=tot("instrs"), traces_validated_against_impl=validated, samples=samples,
            explanation="Bounded symbolic execution of the LLVM IR compiled from /repo; states = symbolic paths completed, "
                        "transitions = IR instructions executed over them. Every assertion on every path is closed by the "
                        "term rewriter/ring normaliser (no solver needed) or by a z3 unsat verdict over all input values.",
            bounds=spec["bounds"], tasks=len(rep["tasks"]), tasks_complete=sum(done.values()), unexplored=unexplored[:40], entries_not_exhausted=partial,
            functions_encoded=sorted(funcs), branch_forks=tot("forks"), solver_queries=tot("queries"), queries_cached=tot("cached"),
            unsat=tot("unsat"), sat=tot("sat"), solver_seconds=round(tot("solver_s"), 2),
            slowest_query_s=max([t["max_query_s"] for t in rep["tasks"]] or [0]),
            assertions=tot("asserts"), assertions_by_solver=tot("asserts_solver"), assertions_by_ring_normal_form=tot("asserts_ring"),
            assertions_by_rewriting=tot("asserts_const"), solver=rep["z3"], second_solver=cross,
            build_seconds=round(t_build, 1), engine_seconds=rep["wall_s"], vacuity_witnesses=sum(len(c) for c in covers.values()),
            known_findings=[r for _, r in hits], errors=errors[:20], mismatches=mismatches[:20]),
        assumptions=T.ASSUMPTIONS + spec.get("assumptions", []))
    with open("%s/evidence/%s.json" % (ROOT, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in {json.dumps(k, sort_keys=True) for k, _ in hits}:
        print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(k)["what"]))
    if viols:
        rd = ROOT + "/replays"
        os.makedirs(rd, exist_ok=True)
        first = {}
        for _, r in viols:
            first.setdefault((r["entry"], r["mode"], r["kind"], r["id"]), r)
        for i, r in enumerate(list(first.values())[:10]):
            path = "%s/%s-%d.sh" % (rd, prop, i)
            with open(path, "w") as f:
                f.write("#!/bin/bash\n# %s\n# native result: %s\n" % (json.dumps(r["detail"]), json.dumps(r["native"])))
                p, d, extra = prof(r["mode"])
                f.write("cd %s/replay && export RUSTC_BOOTSTRAP=rustnomial RUSTUP_TOOLCHAIN=%s && cargo build -q --offline --locked %s --features %s%s --target-dir %s/replay-%s || exit 2\n" % (
                    ROOT, TOOLCHAIN, " ".join(p), feat, extra, WORK, r["mode"]))
                f.write("timeout 10 %s/replay-%s/%s/replay %s '%s' '%s'\n" % (WORK, r["mode"], d, r["entry"], " ".join(map(str, r["params"])),
                        " ".join(x[0] for x in r["inputs"])))
            os.chmod(path, 0o755)
            print("  %s %s %s [%s %d] %s -> native: %s" % (r["mode"], r["entry"], r["params"], r["kind"], r["id"], r["detail"], r["native"]["out"].replace("\n", " ")[:160] or ERR.get(r["native"]["rc"])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    if coarse:
        print("NOTE %d tasks are open: float arithmetic is abstracted there and the real code refutes the candidates found" % len(coarse))
    for e in (partial + mismatches)[:10]:
        print("NOTE " + e)
    for e in errors[:10]:
        print("ERROR " + e)
    c = ev["coverage"]
    print("%s %s: %d/%d tasks complete, %d paths, %d assertions (%d by solver), %d queries in %.1f s, %d native replays, %.0f s" % (
        prop, tier, c["tasks_complete"], c["tasks"], c["states"], c["assertions"], c["assertions_by_solver"], c["solver_queries"],
        c["solver_seconds"], validated, ev["wall_s"]))
    sys.exit(1 if viols else 2 if errors else 0)


def crosscheck(d):
    fs = sorted(os.listdir(d))
    res = dict(solver="cvc5", queries=len(fs), agree=0, unknown=0, disagree=[])
    lock, it = threading.Lock(), iter(fs)

    def go():
        while True:
            with lock:
                f = next(it, None)
            if f is None:
                return
            p = os.path.join(d, f)
            exp = open(p).readline().split()[-1]
            rc, out = run(["cvc5", "--tlimit=20000", p], timeout=40)
            got = out.strip().split("\n")[-1].strip()
            with lock:
                if got == exp:
                    res["agree"] += 1
                elif got in ("sat", "unsat"):
                    res["disagree"].append("%s: z3 %s, cvc5 %s" % (f, exp, got))
                else:
                    res["unknown"] += 1
    th = [threading.Thread(target=go) for _ in range(8)]
    [t.start() for t in th]
    [t.join() for t in th]
    return res


if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["--setup"]:
            os.makedirs(WORK, exist_ok=True)
            build_engine()
        else:
            main()
    except NoAnswer as e:
        print("ERROR " + str(e))
        sys.exit(2)
