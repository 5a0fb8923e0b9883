#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> [--tier quick|thorough] [--scenario S] [--replay F]

Builds the engine and the harness from the current working trees, explores,
writes evidence/<ID>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation, 2 the check itself failed.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE_SRCS = ["core", "mem", "sync", "vfs"]

sys.path.insert(0, VERIF)
from props import PROPS  # noqa


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build_engine():
    srcs = [os.path.join(VERIF, "engine", s + ".cc") for s in ENGINE_SRCS]
    hdrs = glob.glob(os.path.join(VERIF, "engine", "*.h"))
    d = digest(srcs + hdrs)
    out = os.path.join(BUILD, "lmc-" + d)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        def cc(s):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            r = sh(["g++", "-std=c++17", "-O2", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w", "-c", s, "-o", o])
            if r.returncode:
                raise RuntimeError("engine: " + r.stdout)
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, srcs))
        t = os.path.join(tmp, "lmc")
        r = sh(["g++", "-rdynamic", "-o", t] + objs + ["-ldl", "-lpthread"])
        if r.returncode:
            raise RuntimeError("engine link: " + r.stdout)
        os.rename(t, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def wrap_flags(engine):
    r = sh(["nm", "-D", "--defined-only", engine])
    names = sorted(set(re.findall(r"\b__wrap_(\w+)", r.stdout)))
    return ["-Wl,--wrap=" + n for n in names]


def port_config(dst):
    """What CMake's configure_file produces on this platform."""
    have = {"HAVE_FDATASYNC": 1, "HAVE_O_CLOEXEC": 1}
    src = os.path.join(REPO, "port/port_config.h.in")
    with open(src) as f:
        t = f.read()
    t = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), have.get(m.group(1), 0)), t)
    t = re.sub(r"#cmakedefine\s+(\w+)", lambda m: ("#define %s 1" % m.group(1)) if have.get(m.group(1)) else "", t)
    os.makedirs(os.path.join(dst, "port"), exist_ok=True)
    with open(os.path.join(dst, "port", "port_config.h"), "w") as f:
        f.write(t)


def repo_sources():
    r = sh(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "*.cc", "*.cpp"])
    if r.returncode == 0:
        rel = r.stdout.split()
    else:
        rel = [os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "**", "*.cc"), recursive=True)]
    out = []
    for p in sorted(rel):
        b = os.path.basename(p)
        if re.match(r"(third_party|build|benchmarks|test|cmake|issues|doc)[^/]*/", p) or re.search(r"_test\.cc$|^test_util|^lsmdb_util|bench|_main\.cc$|_windows|^env_win", b):
            continue
        if os.path.exists(os.path.join(REPO, p)):
            out.append(os.path.join(REPO, p))
    return out


class BuildError(Exception):
    pass


def build_so(prop, spec, variant, engine):
    """variant: 'instr' or 'plain'"""
    hsrc = [os.path.join(VERIF, "harness", f) for f in spec["harness"]]
    out_dir = tempfile.mkdtemp(prefix="%s-%s-" % (prop, variant), dir=BUILD)
    gen = os.path.join(out_dir, "gen")
    port_config(gen)
    inc = ["-I", os.path.join(VERIF, "engine"), "-I", os.path.join(VERIF, "harness")]
    inc += ["-I", gen, "-I", os.path.join(REPO, "include"), "-I", REPO]
    defs = ["-DLSMDB_PLATFORM_POSIX=1", "-DLSMDB_COMPILE_LIBRARY", "-DHAVE_CXX17_HAS_INCLUDE=1"]
    if variant == "plain":
        defs.append("-DLMC_PLAIN=1")
    common = ["-fPIC", "-g1", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", "-pthread", "-fstack-protector-strong"]

    def flags(comp):
        f = list(common)
        if comp == "g++":
            f += ["-fno-gnu-unique"]
        if variant == "instr":
            f += ["-O1", "-fsanitize=thread", "-include", os.path.join(VERIF, "engine", "libcxx.h")]
            if comp == "clang++":
                f += ["-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin-bcmp", "-fno-builtin-memcmp", "-fsanitize=local-bounds"]
        else:
            f += ["-O2"]
        return f

    lib = repo_sources() if spec.get("lib", True) else []
    if spec.get("only"):
        lib = [p for p in lib if os.path.relpath(p, REPO) in spec["only"]]
    units = [(p, "-std=c++11", True) for p in lib] + [(p, "-std=c++17", False) for p in hsrc]
    if variant == "instr":
        units.append((os.path.join(VERIF, "engine", "nodes.cc"), "-std=c++17", False))

    def cc(u):
        p, std, islib = u
        o = os.path.join(out_dir, ("L_" if islib else "H_") + os.path.basename(p) + ".o")
        d = defs + (["-fno-exceptions", "-fno-rtti"] if islib else ["-fno-rtti"])
        first = None
        pre = ["-I", os.path.join(VERIF, "harness", "shadow")] if os.path.basename(p) in spec.get("shadow", ()) else []
        for comp in (("clang++", "g++") if variant == "instr" else ("g++", "clang++")):
            for s in ((std,) if not islib else (std, "-std=c++17")):
                r = sh([comp, s] + flags(comp) + d + pre + inc + ["-c", p, "-o", o], cwd=out_dir)
                if r.returncode == 0:
                    return o
                first = first or r.stdout
        raise BuildError("%s does not compile:\n%s" % (p, first[:4000]))

    so = os.path.join(out_dir, prop + ".so")

    def link(us):
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, us))
        r = sh(["g++", "-shared", "-o", so] + objs + ["-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,norelro"] + wrap_flags(engine) + ["-lpthread"])
        if r.returncode:
            raise BuildError("link: " + r.stdout[:4000])
        und = sh(["nm", "-uC", so]).stdout
        return [l for l in und.splitlines() if re.match(r"\s+U .*\blsmdb::", l)]

    missing = link(units)
    if missing and spec.get("only"):     # the code moved to another file: take them all
        have = set(u[0] for u in units)
        missing = link([(p, "-std=c++11", True) for p in repo_sources() if p not in have] + units)
    if missing:
        raise BuildError("undefined: " + "\n".join(missing[:10]))
    return out_dir, so


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> id=<finding> <text>' / 'fixed: ...'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--maxtime", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("LMC_WORKERS", "8")))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop == "setup":
        print("engine:", build_engine())
        return 0
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    try:
        engine = build_engine()
    except Exception as e:
        print("check error:", e)
        return 2
    known = load_known(prop)
    results, rc = [], 0
    if a.replay:
        want = json.load(open(a.replay))
        tier = want["tier"]
    for variant in spec.get("variants", ["instr"]):
        if a.replay and want.get("variant", variant) != variant:
            continue
        d = None
        try:
            d, so = build_so(prop, spec, variant, engine)
        except BuildError as e:
            print("check error: the tree does not build:", e)
            return 2
        scratch = tempfile.mkdtemp(prefix="lmc_real_")
        try:
            tb = time.time() - t0
            out = os.path.join(d, "result.json")
            cmd = [engine, "--so", so, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out,
                   "--workers", str(a.workers), "--known", ",".join(known), "--replaydir", os.path.join(VERIF, "replays"),
                   "--scratch", scratch]
            if a.scenario:
                cmd += ["--scenario", a.scenario]
            if a.maxtime:
                cmd += ["--maxtime", str(a.maxtime)]
            if a.replay:
                return subprocess.run(cmd + ["--replay", a.replay]).returncode
            sys.stdout.flush()
            r = subprocess.run(cmd)
            if os.path.exists(out) and json.load(open(out))["message"].startswith("interrupted:"):
                print("memory or time ran out: once more, with fewer processes", flush=True)
                time.sleep(10)
                cmd[cmd.index("--workers") + 1] = str(max(1, a.workers // 2))
                r = subprocess.run(cmd)
            if not os.path.exists(out):
                print("check error: engine ended with", r.returncode)
                return 2
            res = json.load(open(out))
            res["variant"] = variant
            res["build_s"] = round(tb, 1)
            results.append(res)
            if res["violation"]:
                try:
                    j = json.load(open(res["replay"]))
                    j["variant"] = variant
                    json.dump(j, open(res["replay"], "w"), indent=1)
                except Exception:
                    pass
                rc = 1
                break
            if res["error"] or r.returncode not in (0, 1):
                rc = 2
                break
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
            if not a.keep:
                shutil.rmtree(d, ignore_errors=True)
            else:
                print("kept", d)
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": tot("states"), "transitions": tot("steps") + tot("states"),
            "traces_validated_against_impl": tot("executions"),
            "inner_evaluations": tot("inner_evaluations"),
            "exhaustive": all(r["exhaustive"] for r in results) and rc == 0,
            "explanation": spec["space"] + " Every execution runs the compiled code of /repo itself, so each explored trace is an implementation trace; "
            "states are distinct nodes of the choice tree, transitions are choices taken plus scheduling steps.",
            "scenarios": [dict(s, variant=r["variant"]) for r in results for s in r["scenarios"]],
            "samples": [s for r in results for s in r["samples"]][:12],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        for k in r["known"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(results[-1]["replay"], VERIF)))
    elif rc == 0:
        ran = sum(r["ran"] for r in results)
        if not ran:
            print("check error: no scenario ran")
            return 2
        print("%s held: %d scenarios, %d executions, %d states, %.1f s%s" % (prop, ran, tot("executions"), tot("states"), time.time() - t0,
              "" if ev["coverage"]["exhaustive"] else " (some scenario cut by its time cap)"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
