#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

usage: check.py C01 [quick|thorough]      (default: VERIF_TIER or quick)
       check.py --setup                   builds everything once

exit 0  the property held on everything explored
exit 1  it is broken; prints   VIOLATION property=<id> replay=<path>
exit 2  the check itself failed
"""
import fcntl, json, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 4

sys.path.insert(0, HERE)
from bounds import PROPS, ASSUME, COMMON_BOUNDS  # noqa: E402


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Step(threading.Thread):
    def __init__(self, name, f):
        super().__init__()
        self.label, self.f, self.err, self.secs = name, f, None, 0.0
        self.start()

    def run(self):
        t = time.time()
        try:
            self.f()
        except Exception as x:  # noqa
            self.err = str(x)
        self.secs = time.time() - t


def cargo(crate, args, target, env=None):
    rc, out = run(["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(BUILD, target)] + args,
                  env, os.path.join(HERE, crate))
    if rc != 0:
        raise Exception("building %s failed:\n%s" % (crate, out[-4000:]))


def build_engine():
    cargo("engine", ["--release"], "engine")


def build_ir():
    cargo("symlib", ["--release"], "sym", {"RUSTFLAGS": "-Cno-prepopulate-passes -Clinker-plugin-lto"})
    rc, out = run(["bash", os.path.join(HERE, "engine/mkir.sh"), os.path.join(BUILD, "sym/release/libsymlib.a"),
                   os.path.join(BUILD, "ir")])
    if rc != 0:
        raise Exception("making the intermediate representation failed:\n" + out[-4000:])


def build_replay(profile):
    def f():
        cargo("replay", ["--profile", profile], "replay-" + profile)
    return f


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    st = [Step("engine", build_engine), Step("ir", build_ir),
          Step("replay release", build_replay("release")), Step("replay checked", build_replay("checked"))]
    for s in st:
        s.join()
    for s in st:
        if s.err:
            die(s.err)
    return {s.label: round(s.secs, 1) for s in st}


def replay_bin(profile):
    return os.path.join(BUILD, "replay-" + profile, profile, "replay")


def native(profile, num, tier, values, tries=1):
    """first violating (or last) outcome of `tries` native runs"""
    out = ""
    for _ in range(tries):
        try:
            p = subprocess.run(["prlimit", "--as=%d" % (12 << 30), "--cpu=300", replay_bin(profile), str(num), str(tier), "one"] + values.split(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
            rc, out = p.returncode, p.stdout.decode("utf-8", "replace").strip()
        except subprocess.TimeoutExpired:
            return True, "the native run does not end"
        if rc == 10:
            return True, out
        if rc not in (0, 11):
            return True, "the native run died (status %d) %s" % (rc, out)
    return False, out


def load_known():
    known = []
    try:
        for l in open(os.path.join(HERE, "known-findings.jsonl")):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k.get("status") == "known":
                    known.append(k)
    except FileNotFoundError:
        pass
    return known


def main():
    if sys.argv[1:2] == ["--setup"]:
        print(build_all())
        return 0
    pid = sys.argv[1]
    tier = (sys.argv[2:] or [os.environ.get("VERIF_TIER") or "quick"])[0]
    p = PROPS[pid]
    num, tn = int(pid[1:]), {"quick": 0, "thorough": 1}[tier]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    times = build_all()
    # ---- explore
    work = os.path.join(BUILD, "run-" + pid)
    os.makedirs(work, exist_ok=True)
    res_f, paths_f = os.path.join(work, "out.json"), os.path.join(work, "paths.txt")
    for f in (res_f, paths_f):
        if os.path.exists(f):
            os.unlink(f)
    budget = p["time"][tn]
    cmd = [os.path.join(BUILD, "engine/release/symex"), "--ll", os.path.join(BUILD, "ir/sym.ll"),
           "--args", "%d,%d" % (num, tn), "--out", res_f, "--paths", paths_f, "--threads", str(CORES),
           "--time", str(budget), "--max-viol", "1", "--max-steps", str(p.get("steps", 20_000_000_000)),
           "--solver-ms", str(p.get("solver_ms", 40000))]
    t1 = time.time()
    try:
        rc, out = run(cmd, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        die("the exploration did not end within its time limit")
    explore_s = time.time() - t1
    if rc != 0 or not os.path.exists(res_f):
        die("the executor failed (%d): %s" % (rc, out[-3000:]))
    r = json.load(open(res_f))
    print(out.strip().splitlines()[-1])

    violations, notes = [], []
    # ---- counterexamples are replayed against the real build before they are reported
    unreproduced = []
    for v in r["violations"]:
        hit = None
        for prof in ("release", "checked"):
            bad, how = native(prof, num, tn, v["values"], tries=20)
            if bad:
                hit = (prof, how)
                break
        if hit:
            violations.append({"found_by": "symbolic execution", "message": v["msg"], "values": v["values"],
                               "log": v["log"], "native_profile": hit[0], "native": hit[1]})
        else:
            unreproduced.append((v, how))
    # ---- every explored path is run natively with the solver's values for it and must agree
    validated = 0
    bad_lines = []
    if os.path.exists(paths_f):
        lines = open(paths_f).read().splitlines()
        step = max(1, (len(lines) + CORES - 1) // CORES)
        chunks = [lines[i:i + step] for i in range(0, len(lines), step)]
        outs = [None] * len(chunks)

        def one(k):
            f = os.path.join(work, "chunk%d" % k)
            open(f, "w").write("\n".join(chunks[k]) + "\n")
            outs[k] = run([replay_bin("release"), str(num), str(tn), "batch", f], timeout=400)
        th = [threading.Thread(target=one, args=(k,)) for k in range(len(chunks))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        for k, o in enumerate(outs):
            if o is None:
                die("native validation did not finish")
            rc, txt = o
            done = False
            for l in txt.splitlines():
                if l.startswith("LINE "):
                    bad_lines.append([x.strip() for x in l.split("|", 2)])
                if l.startswith("SUMMARY "):
                    done = True
                    validated += int(l.split()[2])
            if not done:
                # the native run died: find the path
                for l in chunks[k]:
                    bad, how = native("release", num, tn, l.split(" ", 1)[1] if " " in l else "")
                    if bad:
                        bad_lines.append(["LINE", "VIOLATED " + how, l.split(" ", 1)[1] if " " in l else ""])
                        break
                else:
                    die("native validation died: " + txt[-2000:])
    disagreements = []
    for _, m, vals in bad_lines:
        if m.startswith("VIOLATED "):
            violations.append({"found_by": "native run of an explored path", "message": m[9:], "values": vals,
                               "log": [], "native_profile": "release", "native": m})
        elif m.startswith("NONDETERMINISTIC") and p.get("deterministic"):
            violations.append({"found_by": "native runs of an explored path",
                               "message": "the same calls give different bytes in different runs", "values": vals,
                               "log": [], "native_profile": "release", "native": m})
        elif m.startswith("NONDETERMINISTIC"):
            notes.append("the observed bytes vary from run to run on " + vals)
        else:
            disagreements.append(m + " on " + vals)

    # ---- known findings
    known = load_known()
    fresh = []
    for v in violations:
        k = [k for k in known if k["property"] == pid and k["message"] in v["message"] and k["values"] == v["values"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            fresh.append(v)

    # ---- evidence
    inc = dict(r["inconclusive"])
    missing = [l for l in p.get("reach", []) + ["end"] if not r["reach"].get(l)]
    exhaustive = not inc and r["left"] == 0
    mine = [f for f in r["functions"] if not f[0].startswith(("harness::", "sym_main"))]
    faerie = sorted((f for f in mine if "faerie" in f[0]), key=lambda f: f[0])
    samples = []
    if os.path.exists(paths_f):
        ls = open(paths_f).read().splitlines()
        for i in sorted({(seed * 7919 + k * 104729) % len(ls) for k in range(3)} if ls else []):
            h, _, v = ls[i].partition(" ")
            samples.append({"observation_hash": h, "solver_values": v})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": r["paths"],
            "transitions": r["forks"] + r["sym_branches"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no path completed"}],
            "exhaustive": exhaustive,
            "paths_completed": r["done"],
            "paths_infeasible": r["infeasible"],
            "paths_left": r["left"],
            "inconclusive": inc,
            "instructions_interpreted": r["steps"],
            "solver": r["solver"],
            "queries": r["queries"], "queries_sat": r["sat"], "queries_unsat": r["unsat"],
            "solver_s": r["solver_s"], "slowest_query_s": r["solver_max_s"],
            "assertions_checked": r["asserts"],
            "assertions_decided_by_simplification": r["asserts_const"],
            "assertions_decided_by_solver": r["asserts_solved"],
            "branches_on_symbolic_conditions": r["sym_branches"], "forks": r["forks"],
            "reach_labels": r["reach"],
            "functions_encoded": len(r["functions"]),
            "faerie_functions_encoded": [{"name": f[0], "blocks_reached": f[1], "blocks": f[2]} for f in faerie],
            "bounds": p["bounds"][tn] if isinstance(p["bounds"], list) else p["bounds"],
            "common_bounds": COMMON_BOUNDS,
            "outside": p["outside"],
            "explore_s": round(explore_s, 1), "build_s": times,
            "notes": notes,
        },
        "assumptions": ASSUME + p.get("assume", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)

    # ---- verdict
    if fresh:
        rp = os.path.join(EVID, "replay-%s.json" % pid)
        v = fresh[0]
        json.dump({"property": pid, "tier": tier, "violation": v, "others": fresh[1:],
                   "rerun": "%s %d %d one %s" % (replay_bin(v["native_profile"]), num, tn, v["values"])},
                  open(rp, "w"), indent=1)
        print("%s: %s  [%s; natively: %s]" % (pid, v["message"], v["found_by"], v["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if unreproduced:
        v, how = unreproduced[0]
        die("a counterexample does not reproduce natively (%s): %s  values %s" % (how, v["msg"], v["values"]))
    if disagreements:
        die("the executor and the native build disagree: " + disagreements[0])
    if missing:
        die("nothing reached %s (vacuous or stopped): %s" % (missing, inc))
    if inc:
        print("%s: held on everything explored; not exhaustive: %s" % (pid, {k[:160]: n for k, n in inc.items()}))
    print("%s held: %d paths, %d solver queries (%.1f s), %d paths validated natively, exhaustive within bounds: %s, %.0f s"
          % (pid, r["done"], r["queries"], r["solver_s"], validated, exhaustive, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as x:
        die("time limit: %s" % x)
