#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py C04                 quick or thorough, by VERIF_TIER (default quick)
  check.py C04 --thorough      thorough
  check.py --replay FILE       re-run the one case a violation was reported for

Exit 0: held on everything explored.  1: VIOLATION line.  2: no answer.
"""
import array
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

COMMON = ["-std=c++14", "-w", "-include", "cstdint", "-I" + REPO, "-I" + VERIF + "/harness"]
SAN = ["-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # name: (compiler, flags)
    "asan": ("g++", ["-O1", "-g1"] + SAN),
    "rel": ("clang++", ["-O2", "-DNDEBUG"]),
    "gccO3": ("g++", ["-O3", "-DNDEBUG"]),
    "clangsan": ("clang++", ["-O1", "-g1"] + SAN + ["-fno-sanitize=vptr,function"]),
    "debug": ("g++", ["-O0"]),
    "relsafe": ("clang++", ["-O2", "-DNDEBUG", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS", "-DVMMLIB_THROW_EXCEPTIONS"]),
    "noconv": ("g++", ["-O1", "-DVMMLIB_NO_CONVERSION_OPERATORS"]),
    "vg": ("g++", ["-O1", "-g1", "-DVERIF_VALGRIND"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-DVERIF_FUZZ", "-fsanitize=fuzzer,address,undefined",
                         "-fsanitize=float-cast-overflow",
                         "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function"]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1",
    "LC_ALL": "C",
})


import resource  # noqa: E402
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class NoAnswer(Exception):
    pass


def build(prop, src, cfg, tmp, extra=()):
    comp, flags = CONFIGS[cfg]
    exe = os.path.join(tmp, f"{os.path.splitext(src)[0]}-{cfg}")
    cmd = [comp] + COMMON + flags + list(extra) + [os.path.join(VERIF, "harness", src), "-o", exe, "-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=600, env=ENV)
    if r.returncode:
        e = [x for x in r.stderr.splitlines() if "error" in x or "undefined" in x][:8]
        raise NoAnswer(f"build of {src} for {cfg} failed:\n{' '.join(cmd)}\n" + ("\n".join(e) or r.stderr[-2000:]))
    return exe


def build_units(ex, prop, src, cfg, tmp, extra, units):
    """Like build, with further source files, each compiled on its own.  Returns a function giving the program."""
    comp, flags = CONFIGS[cfg]
    stem = os.path.join(tmp, f"{os.path.splitext(src)[0]}-{cfg}")

    def one(i, f, fl):
        obj = f"{stem}-{i}.o"
        cmd = [comp] + COMMON + flags + list(extra) + list(fl) + (["-DVERIF_UNIT"] if i else []) + ["-c", os.path.join(VERIF, "harness", f), "-o", obj]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=800, env=ENV)
        if r.returncode:
            e = [x for x in r.stderr.splitlines() if "error" in x or "undefined" in x][:8]
            raise NoAnswer(f"build of {f} for {cfg} failed:\n{' '.join(cmd)}\n" + ("\n".join(e) or r.stderr[-2000:]))
        return obj
    objs = [ex.submit(one, i, f, fl) for i, (f, fl) in enumerate([(src, [])] + list(units))]

    def link():
        r = subprocess.run([comp] + flags + [o.result() for o in objs] + ["-o", stem, "-lpthread"], capture_output=True,
                           text=True, errors="replace", timeout=600, env=ENV)
        if r.returncode:
            raise NoAnswer(f"link for {cfg} failed:\n{r.stderr[-2000:]}")
        return stem
    return link


def classify(err, rc):
    """(key, where) of an abnormal ending."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:70]
        elif "WARNING: ThreadSanitizer" in err:
            kind = "tsan:" + (re.search(r"WARNING: ThreadSanitizer: (.*?) \(", err) or [0, "report"])[1]
        else:
            m = re.search(r"== (Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param|Process terminating)", err)
            if m:
                kind = "memcheck:" + m.group(1)
            elif re.search(r"Assertion .* failed", err):
                kind = "assert"
            elif rc < 0:
                try:
                    kind = "signal:" + signal.Signals(-rc).name
                except ValueError:
                    kind = f"signal:{-rc}"
            else:
                kind = f"exit:{rc}"
    where = ""
    m = re.search(r"(?:in |at )(vmml::\S+|\S*?vmmlib/\w+\.hpp:\d+)", err)
    if m:
        where = m.group(1)
    return kind, where


def run_one(exe, cfg, seed, start, count, tmp, tag, timeout, wrap=()):
    """Runs cases [start, start+count), going on after a crash.  Returns dict."""
    res = {"cases": 0, "nontrivial": 0, "clauses": {}, "samples": [], "violations": [], "hashes": set()}
    end = start + count
    restarts = 0
    while start < end:
        out = os.path.join(tmp, f"o-{cfg}-{tag}-{start}")
        prog = out + ".p"
        cmd = list(wrap) + [exe, "--seed", str(seed), "--start", str(start), "--count", str(end - start),
                            "--out", out, "--progress", prog]
        errf = out + ".err"
        hung = False
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=tmp, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
        with open(errf, "rb") as ef:
            err = ef.read(400000).decode("utf-8", "replace")
        cur, phase = start, 0
        if os.path.exists(prog):
            a = array.array("Q")
            a.frombytes(open(prog, "rb").read(16).ljust(16, b"\0"))
            cur, phase = a[0], a[1]
        if os.path.exists(out) and phase == 3:
            d = json.load(open(out))
            res["cases"] += d["cases"]
            res["nontrivial"] += d["nontrivial"]
            for k, v in d["clauses"].items():
                o = res["clauses"].setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            res["samples"] += d["samples"]
            for v in d["violations"]:
                v.update(cfg=cfg, seed=seed)
                res["violations"].append(v)
            h = array.array("Q")
            h.frombytes(open(out + ".hashes", "rb").read())
            res["hashes"].update(h)
            for f in (out, out + ".hashes", prog, errf):
                if os.path.exists(f):
                    os.unlink(f)
            if rc != 0:
                key, where = classify(err, rc)
                res["violations"].append(dict(key=key, where=where, msg=err[-3000:], case=cur, cfg=cfg, seed=seed,
                                              whole=[start, end - start]))
            return res
        if hung:
            # re-run the case it hung in, alone, before calling it a hang
            try:
                subprocess.run(list(wrap) + [exe, "--seed", str(seed), "--start", str(cur), "--count", "1",
                                             "--out", out + ".again"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=tmp,
                               timeout=120)
                raise NoAnswer(f"{exe}: timed out at case {cur}, which ends alone (loaded machine?)")
            except subprocess.TimeoutExpired:
                res["violations"].append(dict(key="hang", where="", msg="case does not end", case=cur, cfg=cfg, seed=seed))
        else:
            if phase == 0 and rc > 0 and "Sanitizer" not in err:
                raise NoAnswer(f"{' '.join(cmd)}: exit {rc} before the first case\n{err[-2000:]}")
            if rc == -signal.SIGKILL:
                raise NoAnswer(f"{' '.join(cmd)}: killed from outside at case {cur}")
            key, where = classify(err, rc)
            res["violations"].append(dict(key=key, where=where, msg=err[-3000:], case=cur, cfg=cfg, seed=seed))
        res["cases"] += max(0, cur - start) + 1
        start = cur + 1
        restarts += 1
        if restarts >= 4:
            break
    return res


def merge(total, r, cfg):
    total["cases"] += r["cases"]
    total["nontrivial"] += r["nontrivial"]
    total["hashes"] |= r["hashes"]
    for k, v in r["clauses"].items():
        o = total["clauses"].setdefault(k, [0, 0])
        o[0] += v[0]
        o[1] += v[1]
    if len(total["samples"]) < 6:
        total["samples"] += [f"[{cfg}] {s}" for s in r["samples"][:2]]
    total["violations"] += r["violations"]
    total["per_config"][cfg] = total["per_config"].get(cfg, 0) + r["cases"]


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\w+) key=(\S+) where=(\S+) (.*)", line)
        if m:
            out.append(dict(property=m[1], key=m[2], where=m[3], what=m[4].strip()))
    return out


def fresh_total():
    return {"cases": 0, "nontrivial": 0, "hashes": set(), "clauses": {}, "samples": [], "violations": [],
            "per_config": {}, "notes": []}


def run_standard(pid, spec, tier, seed, tmp, total):
    src = spec.get("src", pid.lower() + ".cpp")
    plan = spec[tier]                    # config -> number of cases
    extra = spec.get("flags", [])
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        units = spec.get("units", [])
        if units:
            exes = {c: build_units(ex, pid, src, c, tmp, extra, units) for c in plan}
        else:
            exes = {c: ex.submit(build, pid, src, c, tmp, extra).result for c in plan}
        base = 0
        shards = max(1, 8 // len(plan)) if tier == "quick" else 8
        for cfg, n in plan.items():
            exe = exes[cfg]()
            wrap = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes"] if cfg == "vg" else []
            per = -(-n // shards)
            for s in range(shards):
                lo, cnt = s * per, min(per, n - s * per)
                if cnt <= 0:
                    continue
                jobs.append((cfg, ex.submit(run_one, exe, cfg, seed, base + lo, cnt, tmp, s,
                                            300 if tier == "quick" else 1500, wrap)))
            base += 10 ** 9
        for cfg, j in jobs:
            merge(total, j.result(), cfg)
        if tier == "thorough" and spec.get("fuzz"):
            exe = build_units(ex, pid, src, "fuzz", tmp, extra, units)()
            fz = [ex.submit(fuzz_one, exe, seed, w, spec["fuzz"], tmp) for w in range(8)]
            for f in fz:
                v, n, cov = f.result()
                total["violations"] += v
                total["per_config"]["fuzz"] = total["per_config"].get("fuzz", 0) + n
                total["cases"] += n
                total["notes"].append(cov)


def fuzz_one(exe, seed, w, runs, tmp):
    d = os.path.join(tmp, f"fz{w}")
    os.makedirs(d)
    cmd = [exe, f"-seed={seed * 8 + w + 1}", f"-runs={runs}", "-max_len=512", "-len_control=0", "-timeout=60",
           f"-artifact_prefix={d}/", "-print_final_stats=1", "-verbosity=1"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV, cwd=d, timeout=1200)
    except subprocess.TimeoutExpired:
        return [], 0, "fuzz worker stopped by its time limit"
    m = re.search(r"stat::number_of_executed_units: (\d+)", r.stderr)
    n = int(m.group(1)) if m else 0
    cov = (re.findall(r"cov: \d+ ft: \d+", r.stderr) or ["cov: ?"])[-1]
    if r.returncode == 0:
        return [], n, f"fuzz worker {w}: {n} runs, {cov}"
    m = re.search(r"^VIOLATED (\S+) (.*)$", r.stderr, re.M)
    if m:
        key, where, msg = m[1], "", m[2]
    else:
        key, where = classify(r.stderr, r.returncode)
        msg = r.stderr[-3000:]
    art = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-"))]
    data = open(os.path.join(d, art[0]), "rb").read().hex() if art else ""
    return [dict(key=key, where=where, msg=msg, case=0, cfg="fuzz", seed=seed, data=data)], n, cov


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vmml-{pid}-")
    total = fresh_total()
    try:
        if "runner" in spec:
            import special
            getattr(special, spec["runner"])(sys.modules[__name__], pid, spec, tier, seed, tmp, total)
        else:
            run_standard(pid, spec, tier, seed, tmp, total)
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        print(f"NO ANSWER {pid}: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(pid, spec, tier, seed, total, t0)


def finish(pid, spec, tier, seed, total, t0):
    checks = sum(v[0] for k, v in total["clauses"].items() if not k.startswith("saw-"))
    if total["cases"] == 0 or (checks == 0 and not total["violations"]):
        print(f"NO ANSWER {pid}: nothing was observed", file=sys.stderr)
        return 2
    known = [k for k in known_findings() if k["property"] == pid]
    new, seen = [], {}
    for v in total["violations"]:
        k = next((k for k in known if k["key"] == v["key"] and (k["where"] == "-" or k["where"] in v["where"] + v["msg"])), None)
        if k is None:
            g = (v["key"], v["cfg"])
            if g not in seen:
                seen[g] = v
                new.append(v)
    ev = os.path.join(VERIF, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rep, f))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for i, v in enumerate(new[:8]):
        path = os.path.join(rep, f"{pid}-{i}.json")
        json.dump(dict(property=pid, **v), open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  clause {v['key']} config {v['cfg']} seed {v['seed']} case {v['case']} {v['where'][:300]}\n  {v['msg'][:600]}")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["cases"],
            "distinct_nontrivial": len(total["hashes"]),
            "rule": spec.get("rule", "a case is one generated input or operation history; it counts as non-trivial "
                             "if its generated values are not all the same and at least one oracle judged it, and as distinct by a hash of all "
                             "generated values and choices"),
            "samples": total["samples"][:6],
            "oracle_checks": checks,
            "checks_per_clause": {k: v[0] for k, v in sorted(total["clauses"].items()) if not k.startswith("saw-")},
            "states_seen": {k[4:]: v[0] for k, v in sorted(total["clauses"].items()) if k.startswith("saw-")},
            "cases_per_config": total["per_config"],
            "notes": total["notes"],
        },
        "assumptions": spec.get("assumptions", []) + [
            "only the executions generated from this seed are judged",
            "the compilers, sanitizer runtimes and the C math library are trusted"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(evidence, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if new:
        return 1
    print(f"{pid} {tier}: held on {total['cases']} cases, {checks} oracle checks, "
          f"{len(total['hashes'])} distinct, {evidence['wall_s']} s")
    return 0


def replay(path):
    v = json.load(open(path))
    pid = v["property"]
    spec = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix="vmml-replay-")
    try:
        if "runner" in spec and v["cfg"] not in CONFIGS:
            import special
            return special.replay_builds(sys.modules[__name__], v, tmp)
        src = spec.get("src", pid.lower() + ".cpp")
        with cf.ThreadPoolExecutor(8) as ex:
            exe = build_units(ex, pid, src, v["cfg"], tmp, spec.get("flags", []), spec.get("units", []))()
        if v["cfg"] == "fuzz":
            f = os.path.join(tmp, "input")
            open(f, "wb").write(bytes.fromhex(v["data"]))
            return 1 if subprocess.run([exe, f], env=ENV).returncode else 0
        start, cnt = v.get("whole", [v["case"], 1])
        wrap = ["valgrind", "-q", "--error-exitcode=77"] if v["cfg"] == "vg" else []
        r = run_one(exe, v["cfg"], v["seed"], start, cnt, tmp, "r", 600, wrap)
        for x in r["violations"]:
            print(json.dumps(x, indent=1))
        return 1 if r["violations"] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
