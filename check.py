#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled IR.

    check.py <property> [--tier quick|thorough] [--only HARNESS] [--keep]
    check.py --replay FILE        run a recorded counterexample natively
    check.py --setup              build engine + IR once

Per run: compile the harness crate (path dependency on /repo) to one LLVM IR
module, execute the property's harnesses symbolically with engine/symir.cpp (z3
decides every branch and assertion), replay every counterexample and a sample
of the explored paths against the natively compiled crate, write evidence.
Exit 0 held, 1 violated (VIOLATION line), 2/3 no verdict.
"""
import ctypes, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GDBSTUB_REPO", "/repo")
BUILD = os.path.join(V, "build")
NPROC = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)

import specs


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash(paths, exts):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in (".git", "examples", "tests") and not (x == "target" and os.path.exists(os.path.join(d, x, "CACHEDIR.TAG"))))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith(exts):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd, cwd=None, what="command", timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        die("%s failed (%d)" % (what, r.returncode))
    return r.stdout


def build_engine():
    src = os.path.join(V, "engine")
    out = os.path.join(BUILD, "symir-" + tree_hash([src], (".cpp", ".h")))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run(["g++", "-O2", "-std=c++20", "-o", tmp, os.path.join(src, "symir.cpp"), "-lz3"], what="engine build")
        os.rename(tmp, out)
    return out


VARIANTS = {
    "std": [],
    "nostd": ["--no-default-features"],
    "paranoid": ["--features", "paranoid"],
}


def prune(keep):
    for n in os.listdir(BUILD):
        p = os.path.join(BUILD, n)
        if n.startswith(("ir-", "native-")) and n not in keep and time.time() - os.path.getmtime(p) > 60:
            shutil.rmtree(p, ignore_errors=True)


def src_hash():
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "gdbstub_arch"), os.path.join(REPO, "Cargo.toml"),
                      os.path.join(V, "harness")], (".rs", ".toml", ".lock", ".xml"))


def build_ir(variant, h):
    """the whole program - harness, gdbstub, gdbstub_arch, core/alloc - as one IR module"""
    d = os.path.join(BUILD, "ir-%s-%s" % (variant, h))
    ll = os.path.join(d, "harness.ll")
    if not os.path.exists(ll):
        os.makedirs(d, exist_ok=True)
        env_t = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "t"))
        cmd = ["cargo", "rustc", "--offline", "--locked", "--release"] + VARIANTS[variant] + [
            "--", "--emit=llvm-ir", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=env_t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            die("compiling the harness against %s failed" % REPO)
        src = os.path.join(d, "t", "release", "deps", "harness.ll")
        shutil.move(src, ll)
        shutil.rmtree(os.path.join(d, "t"), ignore_errors=True)
    return ll


def build_native(variant, h):
    d = os.path.join(BUILD, "native-%s-%s" % (variant, h))
    so = os.path.join(d, "libharness.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        env_t = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "t"))
        feats = [x for x in VARIANTS[variant] if x not in ("--features", "paranoid")]
        fl = "native,paranoid" if variant == "paranoid" else "native"
        r = subprocess.run(["cargo", "rustc", "--lib", "--offline", "--locked"] + feats + ["--features", fl, "--", "-C", "link-arg=-Wl,-Bsymbolic"], cwd=os.path.join(V, "harness"),
                           env=env_t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            die("native build failed")
        shutil.move(os.path.join(d, "t", "debug", "libharness.so"), so)
        shutil.rmtree(os.path.join(d, "t"), ignore_errors=True)
    return so


# ---- native replay -----------------------------------------------------------
def replay_worker():
    """child process: {so, entry, inputs} on stdin -> results on stdout, one fork per input"""
    req = json.load(sys.stdin)
    lib = ctypes.CDLL(req["so"])
    res = []
    for b in req["inputs"]:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            dn = os.open("/dev/null", os.O_WRONLY)
            er = os.open(req["errfile"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(er, 1)
            os.dup2(er, 2)
            signal.alarm(req.get("alarm", 20))
            arr = (ctypes.c_ubyte * max(1, len(b)))(*b)
            lib.replay_input(arr, ctypes.c_size_t(len(b)))
            getattr(lib, req["entry"])()
            n = lib.replay_trace_len
            n.restype = ctypes.c_size_t
            g = lib.replay_trace
            g.restype = ctypes.c_uint64
            g.argtypes = [ctypes.c_size_t]
            tr = [g(i) for i in range(n())]
            with os.fdopen(wfd, "w") as f:
                json.dump(tr, f)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd) as f:
            out = f.read()
        _, st = os.waitpid(pid, 0)
        txt = ""
        if os.path.exists(req["errfile"]):
            with open(req["errfile"], errors="replace") as f:
                txt = f.read()[-600:]
        if os.WIFSIGNALED(st):
            sg = os.WTERMSIG(st)
            res.append({"end": "timeout" if sg == signal.SIGALRM else "signal %d" % sg, "text": txt})
        elif os.WEXITSTATUS(st) == 0:
            res.append({"end": "ok", "trace": json.loads(out)})
        else:
            m = re.search(r"RESULT (\S+)(?: (\d+))?", txt)
            res.append({"end": m.group(1) if m else "exit %d" % os.WEXITSTATUS(st), "id": int(m.group(2)) if m and m.group(2) else 0, "text": txt})
    if os.path.exists(req["errfile"]):
        os.unlink(req["errfile"])
    json.dump(res, sys.stdout)


def replay(so, entry, inputs):
    if not inputs:
        return []
    ef = os.path.join(BUILD, "replay-%d-%s.err" % (os.getpid(), entry))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay-worker"], input=json.dumps(
        {"so": so, "entry": entry, "inputs": inputs, "errfile": ef}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
    if p.returncode:
        die("replay worker: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def reproduces(v, r):
    """does the native run show the violation the engine reported?"""
    if v["kind"] == "assert":
        return r["end"] == "assert-failed"
    if v["kind"] in ("step-limit",):
        return r["end"] == "timeout"
    return r["end"].startswith("signal") or r["end"] in ("timeout", "assert-failed")


# ---- source positions of executed instructions --------------------------------
def dbg_lines(ll, used):
    """!dbg ids -> {file: set(lines)} for files of the repository"""
    want = set(used)
    loc, scope, files = {}, {}, {}
    rl = re.compile(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+),.*?scope: !(\d+)')
    rs = re.compile(r'^!(\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile|Namespace)\(.*?\bscope: !(\d+)')
    rf = re.compile(r'^!(\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"')
    rfile = re.compile(r'\bfile: !(\d+)')
    with open(ll, errors="replace") as f:
        for line in f:
            if line[0] != "!":
                continue
            m = rl.match(line)
            if m:
                i = int(m.group(1))
                if i in want:
                    loc[i] = (int(m.group(2)), int(m.group(3)))
                continue
            m = rf.match(line)
            if m:
                files[int(m.group(1))] = os.path.join(m.group(3), m.group(2)) if not m.group(2).startswith("/") else m.group(2)
                continue
            m = re.match(r'^!(\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile)\(', line)
            if m:
                q = rfile.search(line)
                if q:
                    scope[int(m.group(1))] = int(q.group(1))
    out = {}
    for i, (ln, sc) in loc.items():
        f = files.get(scope.get(sc, -1), "")
        i = f.find("/gdbstub_arch/src/")
        if f.startswith(REPO + "/"):
            out.setdefault(f[len(REPO) + 1:], set()).add(ln)
    return out


# ---- vacuity: every marker and assertion textually belonging to the harness
# must have been reached on some path ----------------------------------------
def harness_index():
    fns, base = {}, {}
    d = os.path.join(V, "harness", "src")
    for fn in sorted(os.listdir(d)):
        if fn in ("api.rs", "lib.rs", "mock.rs", "session.rs") or not fn.endswith(".rs"):
            continue
        txt = open(os.path.join(d, fn)).read().split("\n")
        b = 0
        cur = None
        depth0 = None
        for n, line in enumerate(txt, 1):
            m = re.match(r'const FILE_ID: u32 = ([\d_]+);', line)
            if m:
                b = int(m.group(1).replace("_", ""))
            m = re.match(r'(?:pub )?fn (\w+)', line)
            if m:
                cur = (fn, m.group(1))
                fns[cur] = {"need": set(), "calls": set()}
            if cur:
                code = line.split("//")[0]
                if re.search(r'\b(ck|cov)!\(', code) and "opt:" not in line:
                    fns[cur]["need"].add(b + n)
                fns[cur]["calls"] |= set(re.findall(r'(?<![.\w])(\w+)(?:::<[^>]*>)?\(', code))
                if line.startswith("}"):
                    cur = None
    return fns


def required_markers(entries):
    fns = harness_index()
    by = {}
    for k in fns:
        by.setdefault(k[1], []).append(k)

    imports = {}
    for fn in {k[0] for k in fns}:
        txt = open(os.path.join(V, "harness", "src", fn)).read()
        for mod, names in re.findall(r'^use crate::(\w+)::(\w+|\{[^}]*\}|\*)', txt, re.M):
            for n in re.findall(r'\w+|\*', names):
                imports.setdefault(fn, {}).setdefault(n, []).append(mod + ".rs")

    def named(f, here):
        # a function of the same file hides those of others, which count as far as they are imported
        if (here, f) in fns:
            return [(here, f)]
        im = imports.get(here, {})
        return [k for k in by.get(f, []) if k[0] in im.get(f, []) + im.get("*", [])]
    seen, todo, need = set(), [k for e in entries for k in by.get(e, [])], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        need |= fns[f]["need"]
        for c in fns[f]["calls"]:
            todo += named(c, f[0])
    return need


def describe_id(i):
    d = os.path.join(V, "harness", "src")
    for fn in sorted(os.listdir(d)):
        txt = open(os.path.join(d, fn)).read()
        m = re.search(r'const FILE_ID: u32 = ([\d_]+);', txt)
        if m:
            b = int(m.group(1).replace("_", ""))
            if b < i < b + 100000:
                ls = txt.split("\n")
                if i - b <= len(ls):
                    return "%s:%d %s" % (fn, i - b, ls[i - b - 1].strip())
    return "#%d" % i


# ---- one property --------------------------------------------------------------
def known_findings():
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                out.append(json.loads(l))
    return out


def check(prop, tier, only=None):
    t0 = time.time()
    spec = specs.PROPS[prop]
    jobs = [j for j in spec["harnesses"] if tier == "thorough" or not j.get("thorough")]
    if only:
        jobs = [j for j in jobs if j["fn"] in only]
    os.makedirs(BUILD, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    h = src_hash()
    variants = sorted({j.get("variant", "std") for j in jobs})
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        fe = ex.submit(build_engine)
        fi = {v: ex.submit(build_ir, v, h) for v in variants}
        fn = {v: ex.submit(build_native, v, h) for v in variants}
        engine = fe.result()
        ir = {v: f.result() for v, f in fi.items()}
        nat = {v: f.result() for v, f in fn.items()}
    prune({os.path.basename(os.path.dirname(p)) for p in list(ir.values()) + list(nat.values())} if not only else set(os.listdir(BUILD)))
    tb = time.time() - t0
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    budget = specs.BUDGET[tier] - tb
    units = []
    for j in jobs:
        cap = j.get("time", {}).get(tier, 300 if tier == "quick" else 3600) if isinstance(j.get("time"), dict) else j.get("time", 400 if tier == "quick" else 7200)
        n = j.get("shards", 1)
        for s in range(n):
            units.append((j, s, n, cap))
    units.sort(key=lambda u: -u[0].get("cost", 1))
    mem = 24000 // NPROC if NPROC > 1 else 16000

    def one(u):
        j, s, n, cap = u
        out = os.path.join(tmp, "%s.%s.%d.json" % (j["fn"], j.get("variant", "std"), s))
        left = budget - (time.time() - t0 - tb)
        cap = max(5, min(cap, left))
        cmd = [engine, "--ll", ir[j.get("variant", "std")], "--entry", j["fn"], "--out", out, "--time", "%.0f" % cap, "--mem",
               str(j.get("mem", max(3000, mem))), "--samples", str(j.get("samples", 6)), "--maxviol", "3", "--steps", str(j.get("steps", 3000000))]
        if n > 1:
            cmd += ["--shard", "%d/%d/%d" % (s, n, j.get("depth", 6))]
        if j.get("crashes"):
            cmd += ["--crashes"]
        cmd += j.get("opts", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=cap + 120)
        except subprocess.TimeoutExpired:
            return j, s, {"status": "incomplete", "incomplete": "hard timeout", "paths": 0}, ""
        if not os.path.exists(out):
            return j, s, {"status": "error", "incomplete": "engine died (%d): %s" % (p.returncode, p.stdout[-300:]), "paths": 0}, p.stdout
        return j, s, json.load(open(out)), p.stdout

    res = []
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        for f in as_completed([ex.submit(one, u) for u in units]):
            j, s, r, log = f.result()
            res.append((j, s, r))
            print("  %-26s %-8s %-10s paths=%-6d asserts=%-6d queries=%-6d solver=%.1fs wall=%.1fs %s" % (
                j["fn"] + ("/%d" % s if j.get("shards", 1) > 1 else ""), j.get("variant", "std"), r["status"], r.get("paths", 0), r.get("asserts", 0),
                r.get("branch_queries", 0) + r.get("assert_queries", 0), r.get("solver_s", 0), r.get("wall_s", 0), r.get("incomplete", "")), flush=True)
    shutil.rmtree(tmp, ignore_errors=True)

    # replay: counterexamples first, then samples of the explored paths
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    violations, unreproduced, matched = [], [], set()
    for j, s, r in res:
        vs = r.get("violations", [])
        if not vs:
            continue
        so = nat[j.get("variant", "std")]
        for v, n in zip(vs, replay(so, j["fn"], [v["bytes"] for v in vs])):
            what = describe_id(v["id"]) if v["kind"] == "assert" else v["kind"] + " at " + v["where"]
            rec = {"property": prop, "harness": j["fn"], "variant": j.get("variant", "std"), "kind": v["kind"], "what": what,
                   "where": v["where"], "input": v["bytes"], "native": n["end"], "native_output": n.get("text", "")[-400:]}
            if not reproduces(v, n):
                unreproduced.append(rec)
                continue
            k = [k for k in known if k["harness"] == j["fn"]]
            if k:
                matched.add(k[0]["id"])
                continue
            violations.append(rec)
    validated, mism, samples = 0, [], []
    for j, s, r in sorted(res, key=lambda x: (x[0]["fn"], x[1])):
        ss = r.get("samples", [])
        if r["status"] != "ok" or not ss:
            continue
        so = nat[j.get("variant", "std")]
        for smp, n in zip(ss, replay(so, j["fn"], [x["bytes"] for x in ss])):
            if n["end"] == "ok" and n["trace"] == [t & (2**64 - 1) for t in smp["trace"]]:
                validated += 1
                if len(samples) < 12:
                    samples.append({"harness": j["fn"], "input": smp["bytes"], "trace_len": len(smp["trace"]), "trace_head": smp["trace"][:24]})
            else:
                mism.append({"harness": j["fn"], "input": smp["bytes"], "native": n["end"], "engine_trace": smp["trace"][:200], "native_trace": n.get("trace", [])[:200]})
    oks = [r for _, _, r in res if r["status"] == "ok"]
    bad = ["%s: %s %s" % (j["fn"], r["status"], r.get("incomplete", "")) for j, s, r in res if r["status"] not in ("ok", "violation")]
    hit = set()
    for _, _, r in res:
        hit |= {int(x) for x in r.get("assert_ids", {})} | {int(x) for x in r.get("covers", {})}
    missing = [] if only else sorted(required_markers([j["fn"] for j in jobs if not j.get("crashes")]) - hit)
    lines = {}
    for v in variants:
        used = set()
        for j, s, r in res:
            if j.get("variant", "std") == v:
                used |= set(r.get("dbg", []))
        for f, ls in dbg_lines(ir[v], used).items():
            lines.setdefault(f, set()).update(ls)
    fns = set()
    for _, _, r in res:
        fns |= {x for x in r.get("functions", []) if "gdbstub" in x}
    tot = lambda k: sum(r.get(k, 0) for _, _, r in res)
    cov = {
        "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
        "states_are": "completed symbolic paths, each standing for every input that satisfies its path condition",
        "transitions_are": "LLVM IR instructions executed symbolically",
        "exhaustive": not bad and not violations,
        "harnesses": [{"fn": j["fn"], "variant": j.get("variant", "std"), "shard": s, "status": r["status"], "paths": r.get("paths", 0), "forks": r.get("forks", 0),
                       "merges": r.get("merges", 0), "symbolic_input_bytes": r.get("max_input_bytes", 0), "assertions": r.get("asserts", 0),
                       "assertions_by_solver": r.get("assert_queries", 0), "branch_queries": r.get("branch_queries", 0),
                       "longest_path_instructions": r.get("max_path_instructions", 0), "solver_s": r.get("solver_s", 0), "wall_s": r.get("wall_s", 0)} for j, s, r in sorted(res, key=lambda x: x[0]["fn"])],
        "bounds": spec.get("bounds", ""),
        "solver": {"engine": "symir + z3 (QF_ABV terms over bytes)", "queries": tot("branch_queries") + tot("assert_queries"), "assert_unsat": tot("assert_unsat"),
                   "asserts_decided_by_folding": tot("assert_folded"), "byte_domain_decisions": tot("domain_decisions"), "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3)},
        "functions_encoded": len(fns), "repo_lines_executed": sum(len(x) for x in lines.values()),
        "repo_files": {f: len(x) for f, x in sorted(lines.items())},
        "markers_required": len(required_markers([j["fn"] for j in jobs if not j.get("crashes")])), "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov, "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if k["id"] in matched:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        for i, rec in enumerate(violations):
            p = os.path.join(V, "evidence", "replay-%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            print("  violated: %s [%s] native: %s %s" % (rec["what"], rec["harness"], rec["native"], rec["native_output"].strip().split("\n")[0][:200]))
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        return 1
    if unreproduced:
        for rec in unreproduced:
            print("  engine reports %s [%s] but the native run ended '%s': %s input=%s" % (rec["what"], rec["harness"], rec["native"], rec["where"], rec["input"]))
        print("ERROR: counterexample does not reproduce natively")
        return 2
    if mism:
        print("ERROR: engine and native execution disagree: %s" % json.dumps(mism[0])[:3000])
        return 2
    if bad:
        print("ERROR: no verdict: " + "; ".join(bad))
        return 3
    if missing:
        print("ERROR: vacuous, never reached: " + "; ".join(describe_id(i) for i in missing[:10]))
        return 2
    print("HELD property=%s tier=%s paths=%d asserts=%d validated=%d wall=%.1fs" % (prop, tier, cov["states"], tot("asserts"), validated, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay-worker"]:
        return replay_worker()
    if a[:1] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        h = src_hash()
        build_ir("std", h)
        return 0
    if a[:1] == ["--replay"]:
        rec = json.load(open(a[1]))
        so = build_native(rec["variant"], src_hash())
        n = replay(so, rec["harness"], [rec["input"]])[0]
        print(json.dumps(n, indent=1))
        return 0 if n["end"] == "ok" else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    prop = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--only":
            only = a[i + 1].split(",")
            i += 1
        else:
            prop = a[i]
        i += 1
    if prop not in specs.PROPS:
        die("unknown property " + str(prop))
    return check(prop, tier, only)


if __name__ == "__main__":
    sys.exit(main())
