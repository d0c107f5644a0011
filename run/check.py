#!/usr/bin/env python3
"""Decides one property on /repo's current tree: `check.py PROPERTY [quick|thorough]`.

Builds the whole program (harness + poreader + all they call) as LLVM bitcode from the current
sources, executes the property's entries symbolically with every input a symbolic variable and z3
deciding the branches and assertions, replays counterexamples against natively built code."""
import fcntl, glob, json, os, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "run"))
from table import P

CACHE = os.path.join(VERIF, ".cache")
HARNESS = os.path.join(VERIF, "harness")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in list(ENV):
    if k.startswith("VP_") or k.startswith("POSYM_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        del ENV[k]
JOBS = max(2, os.cpu_count() or 8)
T0 = time.time()


class Broken(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def cargo(args, cwd, env, what):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("%s failed:\n%s" % (what, r.stdout[-4000:]))


def build_engine():
    d = os.path.join(CACHE, "eng")
    cargo(["build", "--offline", "--release"], os.path.join(VERIF, "engine"), dict(ENV, CARGO_TARGET_DIR=d), "building the engine")
    return os.path.join(d, "release", "posym")


def forget(d):
    """Makes cargo rebuild /repo's crate and the harness whatever the time stamps say."""
    for n in ("poreader-*", "vp-harness-*"):
        for f in glob.glob(os.path.join(d, "**", ".fingerprint", n), recursive=True):
            shutil.rmtree(f)


def build_bitcode():
    """The whole program before link-time optimisation. The compiler is stopped once that is on disk."""
    d = os.path.join(CACHE, "ir")
    out = os.path.join(d, "x86_64-unknown-linux-gnu", "release", "deps")
    pat = os.path.join(out, "sym-*")
    for f in glob.glob(pat):
        os.remove(f)
    forget(d)
    env = dict(ENV, CARGO_TARGET_DIR=d, RUSTC_BOOTSTRAP="1",
               RUSTFLAGS="-C save-temps -C no-prepopulate-passes -Z inline-mir=no -C linker=/bin/true -Z ub-checks=no")
    p = subprocess.Popen(["cargo", "rustc", "--offline", "--release", "--target", "x86_64-unknown-linux-gnu", "--bin", "sym"],
                         cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    text = []
    t = threading.Thread(target=lambda: text.append(p.stdout.read()))
    t.start()
    while p.poll() is None:
        # written after the input is complete
        if glob.glob(os.path.join(out, "sym-*.lto.after-restriction.bc")):
            os.killpg(p.pid, signal.SIGKILL)
            break
        time.sleep(0.1)
    p.wait()
    t.join()
    f = glob.glob(os.path.join(out, "sym-*.lto.input.bc"))
    if len(f) != 1 or not glob.glob(os.path.join(out, "sym-*.lto.after-restriction.bc")):
        raise Broken("building the bitcode failed:\n" + "".join(text)[-4000:])
    return f[0]


def build_replay(profile):
    d = os.path.join(CACHE, "native")
    with lock:
        if not forgotten:
            forget(d)
            forgotten.append(1)
    a = ["build", "--offline", "--bin", "replay"] + ([] if profile == "dev" else ["--profile", profile])
    cargo(a, HARNESS, dict(ENV, CARGO_TARGET_DIR=d), "building the replay program")
    return os.path.join(d, "debug" if profile == "dev" else profile, "replay")


lock, forgotten = threading.Lock(), []


class Bg(threading.Thread):
    def __init__(self, f, *a):
        super().__init__(daemon=True)
        self.f, self.a, self.r, self.e = f, a, None, None
        self.start()

    def run(self):
        try:
            self.r = self.f(*self.a)
        except BaseException as e:
            self.e = e

    def get(self):
        self.join()
        if self.e:
            raise self.e
        return self.r


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_STACK, (2 << 20, 2 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(exe, entry, inputs, tier, scratch, seconds=30):
    """-> (outcome, notes): what the native program does on the inputs."""
    f = os.path.join(scratch, "in.%d" % threading.get_ident())
    with open(f, "w") as o:
        o.write(",".join(map(str, inputs)))
    try:
        r = subprocess.run([exe, entry, f], env=dict(ENV, VP_PARAM=str(int(tier == "thorough"))), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=seconds, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return ["no end within %d s" % seconds], []
    lines = r.stdout.decode("utf8", "replace").splitlines()
    bad = ["assert " + l.split()[1] for l in lines if l.startswith("ASSERT ")]
    notes = [int(l.split()[1]) for l in lines if l.startswith("note ")]
    if r.returncode == 77:
        return ["assumption does not hold"], notes
    if r.returncode != 0 or "end" not in lines:
        e = [l for l in r.stderr.decode("utf8", "replace").splitlines() if l.strip()]
        bad.append("crash (%d): %s" % (r.returncode, " | ".join(e[:3])[:300]))
    return bad, notes


def known(prop):
    """known-findings.txt: `known: property=C07 entry=h_c07_x what=assert 3 :: description`"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            if l.startswith("known: property=%s " % prop):
                k, _, d = l[len("known: "):].partition("::")
                f = dict(x.split("=", 1) for x in k.replace("what=", "\twhat=").replace(" entry=", "\tentry=").strip().split("\t") if "=" in x)
                out.append((f.get("entry", "").strip(), f.get("what", "").strip(), d.strip()))
    except FileNotFoundError:
        pass
    return out


def setup():
    """Builds what does not depend on /repo and fills the build caches."""
    os.makedirs(CACHE, exist_ok=True)
    eng, dev = Bg(build_engine), Bg(build_replay, "dev")
    build_bitcode()
    eng.get()
    dev.get()
    return 0


def explore(a, entry, out, tier, scratch, dev, rel, found, spurious):
    """Runs the engine on one entry and its counterexamples natively."""
    p = subprocess.run(a, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        raise Broken("engine on %s: %s" % (entry, p.stdout[-2000:]))
    d = json.load(open(out))
    os.remove(out)
    log("%s: %d paths, %d assertions, %s queries, %.1f s%s%s" % (
        entry, d["paths"], d["asserts"], d["queries"], d["wall_s"],
        ", VIOLATIONS %s" % [v["what"] for v in d["violations"]] if d["violations"] else "",
        ", incomplete %s" % d["incomplete"] if d["incomplete"] else ""))
    # counterexamples are replayed against the real code
    for v in d["violations"]:
        outcome = []
        for prof in ("dev", "rel"):
            if prof == "rel" and rel is None:
                rel = build_replay("rel")
            exe = dev if prof == "dev" else rel
            bad, _ = replay(exe, entry, v["inputs"], tier, scratch)
            outcome.append((prof, bad))
            if bad and bad != ["assumption does not hold"]:
                break
        real = any(b and b != ["assumption does not hold"] for _, b in outcome)
        w = dict(entry=entry, what=v["what"], inputs=v["inputs"], native=outcome)
        l = found if real else spurious
        if w not in l:
            l.append(w)
    return d, rel


def main():
    if sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]
    t = P[prop]
    os.makedirs(CACHE, exist_ok=True)
    only_one = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(only_one, fcntl.LOCK_EX)
    scratch = os.path.join(CACHE, "run-" + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_file = os.path.join(ev_dir, prop + ".json")
    if os.path.exists(ev_file):
        os.remove(ev_file)
    eng, bc = Bg(build_engine), Bg(build_bitcode)
    bc, posym = bc.get(), eng.get()
    log("bitcode and engine built")
    dev = Bg(build_replay, "dev")
    entries = [e for e in t["entries"] if not only or e[0] in only]
    ready = os.path.join(scratch, "program.bc")
    r = subprocess.run([posym, "prep", bc, ready] + [e[0] for e in entries], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("prep: " + r.stdout[-2000:])
    log("program prepared")
    dev = dev.get()
    rel = None
    if any(len(e) > 2 and e[2] == "rel" for e in entries):
        rel = build_replay("rel")
    budget = 420 if tier == "quick" else 7200
    share = budget
    res, found, trouble, spurious, kn = [], [], [], [], known(prop)
    for e in entries:
        entry, reach = e[0], e[1]
        left = T0 + (720 if tier == "quick" else 14400) - time.time()
        sec = max(12, min(share, left - 60))
        new = lambda: [v["entry"] for v in found if (v["entry"], v["what"]) not in [k[:2] for k in kn]]
        if new():
            # the verdict is known; the other entries may add to it
            sec = min(sec, 60)
        out = os.path.join(scratch, entry + ".json")
        a = [posym, "run", ready, entry, "--jobs", str(JOBS), "--time", str(sec), "--out", out]
        if tier == "thorough":
            a += ["--param", "1", "--rlimit", "200000000"]
        d, rel = explore(a, entry, out, tier, scratch, dev, rel, found, spurious)
        if d["violations"] and entry not in new() and any("stopped after" in k for k in d["incomplete"]):
            # nothing new that the real code shows: the rest is explored as well
            d, rel = explore(a + ["--grace", "100000"], entry, out, tier, scratch, dev, rel, found, spurious)
        d["reach_wanted"] = reach
        # sampled paths: the native program must observe the same
        n = 0
        for s in d["samples"][:10]:
            bad, notes = replay(dev, entry, s["inputs"], tier, scratch)
            if not d["violations"] and (bad or notes != s["notes"]):
                trouble.append("%s: native run differs on %s: %s %s / %s" % (entry, s["inputs"], bad, notes[:40], s["notes"][:40]))
            n += 1
        d["validated"] = n
        missing = [i for i in reach if str(i) not in d["reach"]]
        if missing and not d["violations"] and not any("time budget" in k for k in d["incomplete"]):
            trouble.append("%s: never got to %s" % (entry, missing))
        res.append(d)
    fresh = []
    for v in found:
        k = [x for x in kn if x[0] == v["entry"] and x[1] == v["what"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
        else:
            fresh.append(v)
    inc = {}
    for d in res:
        for k, n in d["incomplete"].items():
            inc["%s: %s" % (d["entry"], k)] = n
    for s in spurious:
        inc["%s: counterexample for %s not reproduced by the real code" % (s["entry"], s["what"])] = 1
    names = set()
    for d in res:
        names.update(f for f in d["functions"] if "poreader" in f)
    samples = [dict(entry=d["entry"], inputs=s["inputs"]) for d in res for s in d["samples"][:2]]
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=sum(d["paths"] for d in res),
            transitions=sum(d["insts"] for d in res),
            traces_validated_against_impl=sum(d["validated"] for d in res) + len(found),
            samples=samples or [dict(entry=e[0]) for e in entries],
            rule="states: complete symbolic paths (each stands for all inputs that take it); transitions: LLVM instructions executed symbolically; traces: paths re-run natively with equal observations",
            claim=t["about"], bounds=t["bounds"], outside=t["outside"],
            complete_within_bounds=not inc,
            incomplete=inc,
            entries=[dict(entry=d["entry"], paths=d["paths"], forks=d["forks"], infeasible=d["infeasible"], assumed_away=d["assumed_away"],
                          assertions=d["asserts"], assertions_decided_by_solver=d["asserts_solver"],
                          branch_prunings=d["prunes"], branch_prunings_confirmed_by_solver=d["prunes_audited"],
                          queries=d["queries"], solver_s=d["solver_s"], slowest_query_s=d["solver_max_s"], symbolic_variables=d["max_vars"],
                          reached=d["reach"], functions_executed=d["all_functions"], wall_s=d["wall_s"]) for d in res],
            queries={k: sum(d["queries"][k] for d in res) for k in ("sat", "unsat", "unknown", "cached")},
            solver_s=round(sum(d["solver_s"] for d in res), 3),
            functions_encoded=sorted(names)[:400],
            program_instructions=max([d["program_insts"] for d in res] or [0]),
        ),
        assumptions=[
            "LLVM bitcode produced by the installed rustc from /repo's current sources (debug assertions and overflow checks of the crate on) means what the engine takes it to mean; sampled paths are compared with native runs",
            "hash values of the standard hash maps are replaced by a constant (iteration order is not observed), memory allocation fails above 1 GiB only",
            "the regular-expression engines have been warmed up with concrete lines, so that lazily built automata are complete",
        ],
        wall_s=round(time.time() - T0, 2), violations=len(fresh),
    )
    rp = None
    if fresh:
        rd = os.path.join(ev_dir, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh):
            f = os.path.join(rd, "%s-%d.json" % (prop, i))
            v["property"] = prop
            v["how"] = "cd /verif/harness && cargo build --offline --bin replay && VP_PARAM=%d target/debug/replay %s FILE   (FILE holds the inputs as numbers)" % (tier == "thorough", v["entry"])
            json.dump(v, open(f, "w"), indent=1)
            rp = rp or f
            print("%s %s: inputs %s, native %s" % (v["entry"], v["what"], v["inputs"], v["native"]))
    json.dump(ev, open(ev_file, "w"), indent=1)
    if inc:
        print("INCOMPLETE: " + json.dumps(inc)[:1500])
    if fresh:
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    if trouble:
        print("TROUBLE: " + "; ".join(trouble)[:3000])
        return 2
    log("%s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN CHECK:", e)
        sys.exit(2)
