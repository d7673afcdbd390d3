#!/usr/bin/env python3
"""Driver: builds the harness of a property from /repo's current tree, executes its entries symbolically, replays
what the solver finds against the native build of the same code, and writes the evidence.

  check.py run ID [--tier quick|thorough]    decide one property
  check.py replay FILE                       run a recorded counterexample natively
  check.py setup                             build the executor, the runner and the harnesses
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PEN_REPO", "/repo")
BUILD = f"{VERIF}/build"
ENGINE = f"{VERIF}/engine/target/release/pensym"
RUNNER = f"{BUILD}/runner"
EVIDENCE = f"{VERIF}/evidence"
TOOLCHAIN = "1.98.0"
sys.path.insert(0, VERIF)
from registry import GROUPS, PROPERTIES  # noqa: E402


class Failure(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def environment():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def llvm_tool(name):
    root = os.path.expanduser(os.environ.get("RUSTUP_HOME", "~/.rustup")) + "/toolchains"
    for t in sorted(os.listdir(root), reverse=True):
        p = f"{root}/{t}/lib/rustlib/x86_64-unknown-linux-gnu/bin/{name}"
        if os.path.exists(p):
            return p
    raise Failure(f"no {name} in the installed toolchains")


def newest(paths):
    return max((os.path.getmtime(p) for p in paths), default=0)


def files(d, suffix):
    return [f"{r}/{f}" for r, _, fs in os.walk(d) if "/target" not in r for f in fs if f.endswith(suffix)]


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()


def run_logged(cmd, what, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        log(r.stdout[-4000:], r.stderr[-8000:])
        raise Failure(f"{what} failed")
    return r


def stamp(path, value, make):
    """Runs `make` unless it was done for this value already."""
    old = open(path).read() if os.path.exists(path) else None
    if old != value:
        if os.path.exists(path):
            os.remove(path)
        make(old)
        with open(path, "w") as f:
            f.write(value)


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/tools.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)

        def engine(_):
            run_logged(["cargo", "build", "--release", "--offline", "-q"], "build of the executor",
                       cwd=f"{VERIF}/engine", env=environment())

        key = digest(files(f"{VERIF}/engine/src", ".rs") + [f"{VERIF}/engine/Cargo.toml"])
        if not os.path.exists(ENGINE):
            key += " "
        stamp(f"{BUILD}/engine.stamp", key, engine)

        def runner(_):
            run_logged(["gcc", "-O1", "-w", "-rdynamic", "-o", RUNNER, f"{VERIF}/runner/runner.c", "-ldl", "-lpthread"],
                       "build of the runner")

        stamp(f"{BUILD}/runner.stamp", digest([f"{VERIF}/runner/runner.c"]), runner)


def build_group(group):
    """The harness crate and the code of /repo it reaches, as a library and as the IR that library was made from."""
    g = GROUPS[group]
    target = f"{BUILD}/{group}"
    os.makedirs(target, exist_ok=True)
    with open(f"{target}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sources = []
        for d in g["sources"]:
            sources += files(f"{REPO}/{d}", ".rs") + files(f"{REPO}/{d}", ".toml")
        own = []
        for d in [f"{VERIF}/harness/{group}", f"{VERIF}/harness/sym"] + [f"{VERIF}/{d}" for d in g.get("own", [])]:
            own += files(d, ".rs") + files(d, ".toml") + files(d, ".lock")
        key = digest(sources + own)

        def make(old):
            # Cargo goes by modification times; copies of the tree need not have truthful ones.
            for p in [f"{target}/release/.fingerprint"]:
                for n in os.listdir(p) if os.path.isdir(p) else []:
                    if re.sub(r"-[0-9a-f]{16}$", "", n) in g["crates"] + [group, "sym"]:
                        shutil.rmtree(f"{p}/{n}")
            deps = f"{target}/release/deps"
            for n in os.listdir(deps) if os.path.isdir(deps) else []:
                if n.endswith(".bc") or n.endswith(".rcgu.o"):
                    os.remove(f"{deps}/{n}")
            e = environment()
            e["CARGO_TARGET_DIR"] = target
            run_logged(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "-q", "--",
                        "-C", "save-temps", "-C", "link-arg=-Wl,-Bsymbolic", "-Awarnings"], f"build of harness {group}",
                       cwd=f"{VERIF}/harness/{group}", env=e)
            bc = [f"{deps}/{n}" for n in os.listdir(deps)
                  if re.match(rf"{group}\.{group}\.[0-9a-f]+-cgu\.0\.rcgu\.bc$", n)]
            if len(bc) != 1:
                raise Failure(f"expected one bitcode module, found {bc}")
            run_logged([llvm_tool("llvm-dis"), bc[0], "-o", f"{target}/{group}.ll"], "llvm-dis")
            for n in os.listdir(deps):
                if n.endswith(".bc"):
                    os.remove(f"{deps}/{n}")

        stamp(f"{target}/stamp", key, make)
        ll = open(f"{target}/{group}.ll").read()
        entries = re.findall(r"^define [^@\n]*@([tdk]_[a-z][0-9]+_\w+)\(", ll, re.M)
    return {"ll": f"{target}/{group}.ll", "so": f"{target}/release/lib{group}.so", "entries": sorted(entries),
            "digest": key}


def native(so, entry, data, valgrind=False, schedule=None):
    cmd = [RUNNER, so, entry, data]
    e = dict(os.environ)
    if schedule:
        e["RUNNER_SCHEDULE"] = schedule
    if valgrind:
        e["RUNNER_TIMEOUT"] = "120"
        e["RUNNER_VALGRIND"] = "1"
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=30"] + cmd
    r = subprocess.run(cmd, capture_output=True, text=True, env=e)
    line = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else ""
    try:
        o = json.loads(line)
    except ValueError:
        o = {"outcome": "none", "message": (r.stderr or "no output")[-300:], "hash": "", "covers": []}
    if valgrind and r.returncode == 99:
        o = dict(o, outcome="memory", message=r.stderr.strip().split("\n")[0])
    return o


def native_batch(so, items):
    text = "".join(f"{e} {h}\n" for e, h in items)
    r = subprocess.run([RUNNER, so, "-"], input=text, capture_output=True, text=True)
    return [json.loads(x) for x in r.stdout.strip().split("\n")] if r.stdout.strip() else []


def threaded(built, group):
    """A native build of the same IR in which the recorded schedule of the threads can be followed."""
    ll, so, obj = built["ll"], f"{BUILD}/{group}/threaded.so", f"{BUILD}/{group}/threaded.o"
    text = f"{BUILD}/{group}/threaded.ll"

    def make(_):
        operation = re.compile(r"^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg|(tail |musttail |notail )?call "
                               r".*@(llvm\.x86\.sse2\.pause|sched_yield)\()")
        with open(ll) as f, open(text, "w") as o:
            for line in f:
                if operation.match(line):
                    o.write("  call void @sym_point()\n")
                o.write(line.replace("@syscall(", "@sym_syscall("))
            o.write("\ndeclare void @sym_point()\n")
        run_logged([llvm_tool("llc"), "-O1", "-filetype=obj", "-relocation-model=pic", text, "-o", obj], "llc")
        run_logged(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", so, obj, "-lgcc_s", "-lpthread", "-ldl", "-lm"], "link")
        os.remove(text)
        os.remove(obj)

    stamp(f"{BUILD}/{group}/threaded.stamp", built["digest"] + "-2", make)
    return so


def reproduce(built, group, entry, v):
    """The native outcome of a counterexample, or None when the real code does not show it."""
    bad = ("memory", "assert", "panic", "abort", "divergence")
    if v["schedule"]:
        so = threaded(built, group)
        if v["kind"] != "divergence":
            bad = bad[:-1]
        o = native(so, entry, v["input"], schedule=v["schedule"])
        if o["outcome"] in bad:
            return o
        if v["kind"] == "memory":
            o = native(so, entry, v["input"], valgrind=True, schedule=v["schedule"])
            if o["outcome"] in bad:
                return o
        if v["kind"] == "race" and o["outcome"] in ("schedule-end", "ok"):
            # The machine at hand orders more than the memory model promises: the schedule leads the real code to the
            # two accesses, and that nothing orders them is the verdict on its atomic operations.
            return o
        return None
    if v["kind"] in ("assert", "panic", "abort", "divergence", "stack"):
        o = native(built["so"], entry, v["input"])
        if o["outcome"] in bad:
            return o
    if v["kind"] == "memory":
        o = native(built["so"], entry, v["input"], valgrind=True)
        if o["outcome"] in bad:
            return o
    return None


def known_findings():
    p = f"{VERIF}/known-findings.jsonl"
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                out.append(json.loads(line))
    return [k for k in out if k.get("status") != "fixed"]


def text_of(data):
    b = bytes.fromhex(data)
    return "".join(chr(c) if 32 <= c < 127 else f"\\x{c:02x}" for c in b)


def demangle(names):
    for tool in ("llvm-cxxfilt-18", "llvm-cxxfilt", "c++filt"):
        p = shutil.which(tool)
        if p:
            r = subprocess.run([p], input="\n".join(names), capture_output=True, text=True)
            return [re.sub(r"::h[0-9a-f]{16}$", "", x) for x in r.stdout.split("\n")]
    return names


def own_functions(names, crates):
    d = sorted(set(demangle(names)))
    return [x for x in d if re.match(rf"<?({'|'.join(crates)})(::|\b)", x) or x.startswith("_pen_")]


def run(prop, tier):
    t0 = time.time()
    spec = PROPERTIES[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = spec.get("budget", {"quick": 240, "thorough": 3600})[tier]
    build_tools()
    tests, totals, functions, samples, notes, violations, known = [], {}, set(), [], [], [], []
    problems = []
    keys = ("paths", "cut", "expected_panics", "instructions", "forks", "assertions", "symbolic_assertions", "queries",
            "sat", "unsat", "unknown", "domain_decisions")
    totals = {k: 0 for k in keys}
    solver_s = 0.0
    validated = 0
    exhaustive = True
    maxbytes = 0
    findings = [k for k in known_findings() if k["property"] == prop]
    work = []
    for group in spec["groups"]:
        built = build_group(group)
        prefix = prop.lower()
        for e in built["entries"]:
            if re.match(rf"[td]_{prefix}_", e) and (tier == "thorough" or e.startswith("t_")):
                work.append((group, built, e))
    if not work:
        raise Failure(f"no entries for {prop}")
    build_s = time.time() - t0
    start = time.time()
    for k, (group, built, entry) in enumerate(work):
        left = budget - (time.time() - start)
        # what is left is shared so that a slow entry cannot starve those after it
        share = max(10.0, left / max(1, len(work) - k) * 2 if k + 1 < len(work) else left)
        out = f"{BUILD}/{group}/{entry}.json"
        if os.path.exists(out):
            os.remove(out)
        cmd = [ENGINE, built["ll"], entry, "--out", out, "--time", f"{min(share, max(left, 10)):.0f}", "--traces", "6"]
        cmd += spec.get("options", []) + spec.get("entry_options", {}).get(entry, [])
        dump = None
        if tier == "thorough":
            dump = f"{BUILD}/{group}/smt-{entry}"
            shutil.rmtree(dump, ignore_errors=True)
            cmd += ["--dump-every", "101", "--dump-dir", dump]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            log(r.stdout[-2000:], r.stderr[-4000:])
            raise Failure(f"executor failed on {entry}")
        d = json.load(open(out))
        for x in keys:
            totals[x] += d[x]
        solver_s += d["solver_s"]
        maxbytes = max(maxbytes, d["max_symbolic_bytes"])
        functions |= set(own_functions(d["functions"], GROUPS[group]["crates"]))
        complete = not d["timeout"] and not d["incomplete"]
        exhaustive &= complete
        if d["incomplete"]:
            notes.append({"entry": entry, "undecided_paths": d["incomplete"]})
        if d["timeout"]:
            notes.append({"entry": entry, "stopped": "time limit; paths explored so far are decided"})
        need = spec.get("covers", {}).get(entry, [1])
        missed = [c for c in need if str(c) not in d["covers"]]
        tests.append({"entry": entry, "paths": d["paths"], "queries": d["queries"], "assertions": d["assertions"],
                      "exhaustive_within_bounds": complete, "covers": d["covers"], "wall_s": d["wall_s"]})
        log(f"{entry}: paths {d['paths']} queries {d['queries']} solver {d['solver_s']:.1f}s wall {d['wall_s']:.1f}s"
            f" violations {len(d['violations'])} incomplete {sum(d['incomplete'].values())}"
            f"{' TIMEOUT' if d['timeout'] else ''}{' uncovered ' + str(missed) if missed else ''}")
        # sample paths are run on the native build: outcome, observed values and reached points must agree
        traces = d["traces"]
        if any(t["schedule"] for t in traces):
            so = threaded(built, group)
            res = [native(so, entry, t["input"], schedule=t["schedule"]) for t in traces]
        else:
            res = native_batch(built["so"], [(entry, t["input"]) for t in traces])
        if len(res) != len(traces):
            problems.append(f"native validation of {entry} stopped early")
        for t, o in zip(traces, res):
            if t["outcome"] in ("ok", "expected-panic", "assert", "panic"):
                if (t["outcome"], t["hash"], t["covers"]) != (o["outcome"], o["hash"], o["covers"]):
                    problems.append(f"executor and native build disagree on {entry} {t['input']}: {t} {o}")
                validated += 1
        for t in traces[:2]:
            samples.append({"entry": entry, "input": t["input"], "text": text_of(t["input"])[:120],
                            "outcome": t["outcome"]})
        fresh = 0
        for v in d["violations"]:
            hit = next((f for f in findings if f["entry"] == entry and f["message"] in v["message"]
                        and re.search(f.get("where", ""), " ".join(demangle(v["stack"])))), None)
            if hit:
                known.append((hit, v))
                continue
            o = reproduce(built, group, entry, v)
            if o is None:
                problems.append(f"counterexample of {entry} does not reproduce natively: {v['kind']} {v['message']} "
                                f"{v['input']} {v['stack'][:6]}")
                continue
            fresh += 1
            path = f"{EVIDENCE}/{prop}-{entry}-{fresh}.replay.json"
            rec = {"property": prop, "group": group, "entry": entry, "input": v["input"], "text": text_of(v["input"]),
                   "kind": v["kind"], "message": v["message"], "location": v["location"],
                   "stack": demangle(v["stack"]), "schedule": v["schedule"], "native": o}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            violations.append((rec, path))
            if len(violations) >= 5:
                break
        if missed and not d["violations"] and complete:
            problems.append(f"{entry} is vacuous: never reached {missed}")
        if dump and os.path.isdir(dump):
            totals.setdefault("cross_checked", 0)
            totals["cross_checked"] += cross_check(dump)
            shutil.rmtree(dump, ignore_errors=True)
        if violations and tier == "quick":
            exhaustive = False
            break
    for f in findings:
        n = [v for h, v in known if h is f]
        if n or f.get("always"):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for f in {id(h): h for h, _ in known}.values():
        if f not in findings:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for p in problems:
        log(f"PROBLEM: {p}")
    if problems and not violations:
        raise Failure(problems[0])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": totals["paths"],
            "transitions": totals["forks"] + totals["domain_decisions"] + totals["queries"],
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": exhaustive and not violations,
            "bounds": spec["bounds"],
            "symbolic_bytes_at_most": maxbytes,
            "queries": {"total": totals["queries"], "sat": totals["sat"], "unsat": totals["unsat"],
                        "unknown": totals["unknown"], "solver_s": round(solver_s, 2)},
            "queries_repeated_with_other_solvers": totals.get("cross_checked", 0),
            "assertions_decided": totals["assertions"],
            "paths_cut_by_assumptions": totals["cut"],
            "instructions_executed": totals["instructions"],
            "functions_encoded": sorted(functions),
            "entries": tests,
            "undecided": notes,
            "meaning": "a state is one path: a set of inputs taking the same branches, decided for all of them; a "
                       "transition is a branch whose feasible sides were decided by the solver or by truth tables it "
                       "proved",
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "build_s": round(build_s, 2),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(f"{EVIDENCE}/{prop}.json", "w") as f:
        json.dump(evidence, f, indent=1)
    for rec, path in violations:
        log(f"{rec['entry']}: {rec['kind']}: {rec['message']} on {rec['text']!r}; native: {rec['native']['outcome']} "
            f"{rec['native']['message'][:300]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "the LLVM IR that rustc 1.98.0 emits for the harness (opt-level 1, overflow checks and debug assertions on) is "
    "what is executed; allocation does not fail",
    "nothing is claimed for inputs outside the stated bounds",
]


def cross_check(d):
    """Some of the discharged queries are put to other solvers; a different verdict is an error."""
    n = 0
    for f in sorted(os.listdir(d))[:12]:
        want = f.rsplit("-", 1)[1].split(".")[0]
        for cmd in (["cvc5", "--tlimit=20000"], ["z3", "-T:20"]):
            if not shutil.which(cmd[0]):
                continue
            r = subprocess.run(cmd + [f"{d}/{f}"], capture_output=True, text=True)
            got = r.stdout.strip().split("\n")[0]
            if got in ("sat", "unsat"):
                if got != want:
                    raise Failure(f"{cmd[0]} says {got} where the executor had {want}: {f}")
                n += 1
    return n


def replay(path):
    rec = json.load(open(path))
    build_tools()
    built = build_group(rec["group"])
    o = reproduce(built, rec["group"], rec["entry"], rec)
    print(json.dumps(o or {"outcome": "not reproduced"}))
    return 1 if o else 0


def main(a):
    try:
        if a[0] == "setup":
            build_tools()
            for g in GROUPS:
                build_group(g)
            return 0
        if a[0] == "replay":
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return run(a[1], tier)
    except Failure as e:
        log(f"ERROR: {e}")
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
