#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM IR together with the property's harness and the
environment model, explores every path symbolically within the stated bounds, replays each counterexample natively
(same sources, same harness, sanitizers on) and reports it.

  run.py ID [--tier quick|thorough] [--only SUBSTRING] [--jobs N]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (incomplete exploration, build failure)."""
import argparse, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = os.environ.get("K8V_REPO", "/repo")
sys.path.insert(0, HERE)
import registry
HAR = os.path.join(V, "harness"); BUILD = os.path.join(V, "build"); LLVM = "/usr/lib/llvm-18/bin/"
COMMON = ["model.cpp", "modelc.c", "replay_shared.cpp", "world.cpp"]
CLANG_FLAGS = ["-emit-llvm", "-c", "-O1", "-D__NO_INLINE__", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize"]
SRC_FLAGS = ["-std=c++11", "-DDEBUG", "-Dmain=k8psh_main", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + os.path.join(HAR, "shadow"), "-I" + HAR, "-I" + os.path.join(REPO, "src")]
PASSES = "always-inline,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce),globaldce"

class NoVerdict(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout
def start(cmd): return (cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
def finish(jobs, what):
    bad = None
    for cmd, p in jobs:
        out, _ = p.communicate()
        if p.returncode and not bad: bad = (cmd, out)
    if bad: raise NoVerdict("%s failed: %s\n%s" % (what, " ".join(bad[0]), bad[1][-3000:]))
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths): h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def headers():
    r = []
    for d, _, fs in os.walk(HAR):
        r += [os.path.join(d, f) for f in fs if f.endswith(".h") or d.endswith("shadow") or d.endswith("bits")]
    return r
def compile_cmd(src, out, flags=()):
    if src.endswith(".c"): return ["clang-18", *CLANG_FLAGS, src, "-o", out]
    return ["clang++-18", *SRC_FLAGS, *CLANG_FLAGS, *flags, src, "-o", out]

def build_common():
    """Engine and environment model (independent of /repo); cached by content."""
    rc, out = sh(["bash", os.path.join(V, "engine", "build.sh")])
    if rc: raise NoVerdict("engine build failed\n" + out[-3000:])
    os.makedirs(os.path.join(BUILD, "common"), exist_ok=True)
    key = digest([os.path.join(HAR, f) for f in COMMON] + headers(), " ".join(CLANG_FLAGS + SRC_FLAGS))
    objs = [os.path.join(BUILD, "common", f.rsplit(".", 1)[0] + "-" + key + ".bc") for f in COMMON]
    jobs = [start(compile_cmd(os.path.join(HAR, f), o + ".tmp")) for f, o in zip(COMMON, objs) if not os.path.exists(o)]
    finish(jobs, "compiling the environment model")
    for o in objs:
        if not os.path.exists(o): os.replace(o + ".tmp", o)
    return objs

def build_program(chk, work):
    common = build_common(); flags = chk.get("flags", [])
    k, h, a, o = (os.path.join(work, x) for x in ("k8psh.bc", "harness.bc", "all.bc", "opt.bc"))
    finish([start(compile_cmd(os.path.join(REPO, "src", "k8psh.cxx"), k, flags)), start(compile_cmd(os.path.join(HAR, chk["harness"]), h, flags))], "compiling /repo")
    rc, out = sh([LLVM + "llvm-link", k, h, *common, "-o", a])
    if rc: raise NoVerdict("link failed\n" + out[-3000:])
    rc, out = sh([LLVM + "opt", "-passes=" + PASSES, a, "-o", o])
    if rc: raise NoVerdict("opt failed\n" + out[-3000:])
    return o

def start_native(chk, work):
    """The same sources and harness as an ordinary program with sanitizers: replays counterexamples and sample paths."""
    flags = ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fvisibility=hidden", "-U_FORTIFY_SOURCE", "-w", "-c"]
    names = [("k8psh", os.path.join(REPO, "src", "k8psh.cxx")), ("harness", os.path.join(HAR, chk["harness"])), ("shared", os.path.join(HAR, "replay_shared.cpp")), ("world", os.path.join(HAR, "world.cpp"))]
    objs = [os.path.join(work, n + ".o") for n, _ in names]
    return objs, [start(["clang++-18", *SRC_FLAGS, *chk.get("flags", []), *flags, s, "-o", o]) for (n, s), o in zip(names, objs)]
def link_native(work, objs, entry):
    rt = os.path.join(work, "rt-%s.o" % entry)
    finish([start(["g++", "-g", "-O1", "-w", "-c", "-DK8V_ENTRY=" + entry, "-I" + HAR, os.path.join(HAR, "native_rt.cpp"), "-o", rt])], "native build")
    rc, out = sh(["nm", "--defined-only", *objs])
    wraps = sorted(set(re.findall(r"__wrap_(\S+)", out)))
    exe = os.path.join(work, "replay-" + entry)
    rc, out = sh(["clang++-18", "-fsanitize=address,undefined", "-o", exe, *objs, rt, *["-Wl,--wrap=" + w for w in wraps], "-Wl,--version-script=" + os.path.join(HAR, "native.map"), "-lpthread"])
    if rc: raise NoVerdict("native link failed\n" + out[-3000:])
    return exe
def replay(exe, values, params, timeout=20):
    try:
        r = subprocess.run([exe, values] + params, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=76"))
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired: return None, "(timeout)"
def write_values(path, inputs):
    with open(path, "w") as f:
        for n, w, x in inputs: f.write("%d  # %s (%d bits)\n" % (x, n, w))

def merge(paths):
    """paths: (executor output, its runs, part number)"""
    cov, asserts, funcs, lines, viol, problems, unsup = {}, {}, set(), {}, [], set(), set()
    num = {}; complete = True; wit = []
    for path, runs, part in paths:
      with open(path) as f:
        for l in f:
            d = json.loads(l)
            if d["type"] in ("violation", "witness"):
                d["cfg"] = runs[d["cfg"]] if isinstance(d["cfg"], int) else d["cfg"]; d["part"] = part
                (viol if d["type"] == "violation" else wit).append(d); continue
            complete &= d.get("complete", False)
            for k, v in d.items():
                if isinstance(v, bool): continue
                if k == "max_query": num[k] = max(num.get(k, 0), v)
                elif isinstance(v, (int, float)): num[k] = num.get(k, 0) + v
            for k, v in d.get("covers", {}).items(): cov[k] = cov.get(k, 0) + v
            for k, v in d.get("assertions", {}).items(): asserts[k] = asserts.get(k, 0) + v
            funcs |= set(d.get("functions", [])); problems |= set(d.get("problems", [])); unsup |= set(d.get("unsupported", []))
            for k, v in d.get("lines", {}).items(): lines.setdefault(k, set()).update(v)
    return dict(num=num, covers=cov, asserts=asserts, functions=funcs, lines=lines, violations=viol, witnesses=wit, problems=problems, unsupported=unsup, complete=complete)

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); t0 = time.time(); tier = "thorough" if a.tier == "thorough" else "quick"
    chk = registry.CHECKS[a.id]; work = os.path.join(BUILD, "work", a.id + ("" if tier == "quick" else "-thorough")); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    parts = [dict(chk, work=work)] + [dict(flags=chk.get("flags", []), work=os.path.join(work, "part%d" % i), **p) for i, p in enumerate(chk.get("parts", []), 1)]
    limit = chk.get("time", 780 if tier == "quick" else 3600); outs = []; native_jobs = []; tbuild = texplore = 0; allruns = []
    for i, p in enumerate(parts):
        p["runs"] = [r for r in list(p["runs"]) + (list(p.get("thorough", [])) if tier == "thorough" else []) if not a.only or a.only in r]
        if not p["runs"]: continue
        os.makedirs(p["work"], exist_ok=True); ta = time.time()
        exe = build_program(p, p["work"]); tb = time.time(); tbuild += tb - ta
        out = os.path.join(p["work"], "out.jsonl"); cmd = [os.path.join(BUILD, "symex"), exe, "--out", out, "--jobs", str(a.jobs), "--max-time", str(max(60, int(limit - (time.time() - t0)))), "--max-steps", str(chk.get("max_steps", 20000000)), "--src-prefix", os.path.join(REPO, "src"), "--keep-going"] + ([] if any(f["property"] == a.id for f in registry.known_findings()) else ["--grace", "20"])
        for r in p["runs"]: cmd += ["--run", r]
        p["native"] = start_native(p, p["work"])
        rc, txt = sh(cmd)
        if rc or not os.path.exists(out): raise NoVerdict("executor failed (%d)\n%s" % (rc, txt[-3000:]))
        outs.append((out, p["runs"], i)); allruns += p["runs"]; texplore += time.time() - tb
        if a.v: print(txt[-2000:])
        finish(p["native"][1], "native build")
    runs = allruns; m = merge(outs); exes = {}
    def native(d):
        key = (d["part"], d["cfg"].partition(":")[0])
        if key not in exes: exes[key] = link_native(parts[key[0]]["work"], parts[key[0]]["native"][0], key[1])
        return exes[key]
    # sample paths: the real code, run natively on the path's inputs, must take it to the end without any failure
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1"))); pick = m["witnesses"]; rnd.shuffle(pick); pick = pick[:48 if tier == "quick" else 400]
    for w in pick: native(w)
    def one(iw):
        i, w = iw; entry, _, params = w["cfg"].partition(":"); f = os.path.join(work, "w%d.values" % i); write_values(f, w["inputs"])
        return w, replay(native(w), f, [p for p in params.split(",") if "=" in p])
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex: wres = list(ex.map(one, enumerate(pick)))
    diverged = [(w, c, l) for w, (c, l) in wres if c != 0 and c is not None]
    # counterexamples: reproduce natively, one per distinct message
    confirmed, unconfirmed, seen = [], [], {}
    shutil.rmtree(os.path.join(BUILD, "replay", a.id), ignore_errors=True)
    for i, v in enumerate(sorted(m["violations"], key=lambda v: len(v["inputs"]))):
        kind = re.sub(r"\d+", "#", v["msg"])
        if seen.get(kind, 0) >= 8 or kind in [re.sub(r"\d+", "#", c["msg"]) for c in confirmed]: continue
        seen[kind] = seen.get(kind, 0) + 1
        entry, _, params = v["cfg"].partition(":"); params = [p for p in params.split(",") if "=" in p]
        d = os.path.join(BUILD, "replay", a.id); os.makedirs(d, exist_ok=True); base = os.path.join(d, "%d" % i)
        write_values(base + ".values", v["inputs"]); shutil.copy(native(v), base + ".exe")
        with open(base + ".sh", "w") as f: f.write("#!/bin/sh\n# %s\n# %s\n# at %s\nASAN_OPTIONS=detect_leaks=0:exitcode=76 exec %s.exe %s\n" % (a.id, v["msg"], v["where"], base, " ".join([base + ".values"] + params)))
        os.chmod(base + ".sh", 0o755)
        code, log = replay(base + ".exe", base + ".values", params)
        if code is None: code = 77 if "hang" in v["msg"] or "terminate" in v["msg"] else 96
        with open(base + ".log", "w") as f: f.write(log)
        ok = code in (77, 76) or code < 0 or code in (134, 139) or "runtime error" in log
        (confirmed if ok else unconfirmed).append(dict(v, replay=base + ".sh", code=code, log=log[-600:]))
    known = [f for f in registry.known_findings() if f["property"] == a.id]
    report = []
    for c in confirmed:
        k = next((f for f in known if f["match"] in c["msg"]), None)
        if k: print("KNOWN-FINDING: property=%s %s" % (a.id, k["text"]))
        else: report.append(c)
    missing = [c for c in chk.get("covers", []) if not m["covers"].get(c)] if not a.only else []
    n = m["num"]; dem = sorted(set(x.split("(")[0] for x in demangle(sorted(m["functions"])) if "k8psh" in x or "main" in x or "::" not in x))
    ev = dict(property=a.id, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=chk["level"], wall_s=round(time.time() - t0, 2), violations=len(report), assumptions=chk.get("assumptions", []), coverage=dict(
        explanation="Symbolic execution of /repo's current sources (LLVM IR) over all values of the symbolic inputs within the bounds; each path ends in assertions discharged by bit-vector reasoning (simplification, complete byte-domain tables, Z3).",
        bounds=chk.get("bounds", ""), runs=runs, paths_explored=n.get("paths", 0), exploration_complete=m["complete"],
        assertions_evaluated=n.get("asserts", 0), assertions_on_symbolic_values=n.get("asserts_symbolic", 0), assertions_proved_by_z3=n.get("assert_unsat", 0), z3_queries=n.get("queries", 0), z3_sat=n.get("sat", 0), z3_unsat=n.get("unsat", 0), z3_unknown=n.get("unknown", 0), solver_seconds=round(n.get("solver_time", 0), 3), longest_query_seconds=round(n.get("max_query", 0), 4), branches_decided_by_domain_tables=n.get("dom_decided", 0), branches_decided_by_current_model=n.get("model_hits", 0),
        reachability_witnesses=m["covers"], assertion_texts=sorted(m["asserts"]), functions_encoded=dem, repo_lines_executed={os.path.relpath(k, REPO): len(v) for k, v in sorted(m["lines"].items()) if k.startswith(REPO)},
        build_seconds=round(tbuild, 2), explore_seconds=round(texplore, 2), counterexamples_reproduced=len(confirmed), counterexamples_not_reproduced=len(unconfirmed), undecided=sorted(m["problems"] | m["unsupported"]), samples=[dict(run=v["cfg"], message=v["msg"], where=v["where"]) for v in confirmed[:3]] or runs[:5],
        states=n.get("paths", 0) + n.get("forks", 0), transitions=n.get("steps", 0), traces_validated_against_impl=len(pick) - len(diverged), sample_paths_diverged=[w["cfg"] for w, c, l in diverged][:5], path_conditions_confirmed_sat_by_z3=n.get("witnesses_z3_sat", 0), table_decisions_certified_by_z3=n.get("table_decisions_certified_by_z3", 0),
        meaning="states: symbolic states reached (path ends and forks); transitions: IR instructions executed symbolically; traces_validated_against_impl: sample paths whose inputs took the natively built code the same way, sanitizers on"))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.id + ".json"), "w") as f: json.dump(ev, f, indent=1, default=sorted)
    print("%s: %d paths, %d assertions (%d symbolic), %d Z3 queries in %.2fs, build %.1fs, explore %.1fs%s" % (a.id, n.get("paths", 0), n.get("asserts", 0), n.get("asserts_symbolic", 0), n.get("queries", 0), n.get("solver_time", 0), tbuild, texplore, "" if m["complete"] else " (stopped early)"))
    for w, c, l in diverged[:3]: print("  DIVERGED natively (code %s): %s %s" % (c, w["cfg"], " ".join(l.split())[-150:]))
    for c in report: print("  %s [%s] at %s" % (c["msg"], c["cfg"], c["where"]))
    if report: print("VIOLATION property=%s replay=%s" % (a.id, report[0]["replay"])); return 1
    if unconfirmed:
        for u in unconfirmed: print("  NOT REPRODUCED: %s [%s] at %s (code %d) %s\n%s" % (u["msg"], u["cfg"], u["where"], u["code"], u["replay"], u["log"]))
        return 2
    if diverged: return 2
    if m["problems"] or m["unsupported"] or not m["complete"]:
        for p in sorted(m["problems"] | m["unsupported"])[:20]: print("  UNDECIDED: " + p)
        return 2
    if missing: print("  VACUOUS: never reached: %s" % ", ".join(missing)); return 2
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except NoVerdict as e: print("NO VERDICT: %s" % e); sys.exit(2)
