"""Checks whose deciding step looks at several builds at once."""
import concurrent.futures as cf
import math
import os
import struct
import subprocess

REC = struct.Struct("<dIHBBfI")
EPS = {1: 0.0, 4: 2.0 ** -23, 8: 2.0 ** -52}

# the first is what the others are compared with
BUILDS = {
    "gcc-O1": ("g++", ["-std=c++14", "-O1"]),
    "gcc-O0": ("g++", ["-std=c++14", "-O0"]),
    "gcc-O3-NDEBUG": ("g++", ["-std=c++14", "-O3", "-DNDEBUG"]),
    "gcc-Os-c++17-notypedefs": ("g++", ["-std=c++17", "-Os", "-DVMMLIB_NO_TYPEDEFS"]),
    "gcc-O2-c++11-custom": ("g++", ["-std=c++11", "-O2", "-DVMMLIB_CUSTOM_CONFIG"]),
    "gcc-O2-NDEBUG-safe-throw-pattern": ("g++", ["-std=c++14", "-O2", "-DNDEBUG", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS",
                                                 "-DVMMLIB_THROW_EXCEPTIONS", "-ftrivial-auto-var-init=pattern"]),
    "clang-O0": ("clang++", ["-std=c++14", "-O0"]),
    "clang-O2-c++20-NDEBUG": ("clang++", ["-std=c++20", "-O2", "-DNDEBUG"]),
    "clang-O2-noconv": ("clang++", ["-std=c++14", "-O2", "-DVMMLIB_NO_CONVERSION_OPERATORS"]),
    "clang-O1-safe-noexceptions": ("clang++", ["-std=c++14", "-O1", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS", "-fno-exceptions"]),
}
MORE = {
    "gcc-O2-glibcxx-debug": ("g++", ["-std=c++14", "-O2", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"]),
    "gcc-O3-c++20-noconv-NDEBUG": ("g++", ["-std=c++20", "-O3", "-DNDEBUG", "-DVMMLIB_NO_CONVERSION_OPERATORS"]),
    "gcc-O0-custom-noexceptions": ("g++", ["-std=c++14", "-O0", "-DVMMLIB_CUSTOM_CONFIG", "-fno-exceptions"]),
    "gcc-O3-unrolled-zero": ("g++", ["-std=c++14", "-O3", "-funroll-all-loops", "-ftrivial-auto-var-init=zero"]),
    "clang-O3-NDEBUG-notypedefs-noconv": ("clang++", ["-std=c++17", "-O3", "-DNDEBUG", "-DVMMLIB_NO_TYPEDEFS", "-DVMMLIB_NO_CONVERSION_OPERATORS"]),
    "clang-O2-pattern": ("clang++", ["-std=c++11", "-O2", "-ftrivial-auto-var-init=pattern"]),
    "clang-Oz-throw": ("clang++", ["-std=c++14", "-Oz", "-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_THROW_EXCEPTIONS"]),
    "gcc-O2-unsigned-char": ("g++", ["-std=c++14", "-O2", "-funsigned-char", "-fno-strict-aliasing", "-fwrapv"]),
}
UNITS = [("c25.cpp", [])] + [("api_ops.cpp", ["-DAPI_T=" + t] + f) for t in ("float", "double", "long double") for f in ([], ["-DAPI_SPECIAL"])] + [
    ("api_ops.cpp", ["-DAPI_T=" + t]) for t in ("int", "int64_t", "uint8_t")]


def build_all(m, names, tmp):
    ex = cf.ThreadPoolExecutor(8)
    allb = dict(BUILDS, **MORE)

    def unit(b, i, f, fl):
        comp, flags = allb[b]
        obj = os.path.join(tmp, f"{b}-{i}.o")
        cmd = [comp, "-w", "-include", "cstdint", "-I" + m.REPO, "-I" + m.VERIF + "/harness"] + flags + fl + [
            "-DVERIF_UNIT", "-c", os.path.join(m.VERIF, "harness", f), "-o", obj]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=800, env=m.ENV)
        if r.returncode:
            e = [x for x in r.stderr.splitlines() if "error" in x][:8]
            raise m.NoAnswer(f"build {b} of {f} failed:\n{' '.join(cmd)}\n" + "\n".join(e))
        return obj
    objs = {b: [ex.submit(unit, b, i, f, fl) for i, (f, fl) in enumerate(UNITS)] for b in names}

    def link(b):
        exe = os.path.join(tmp, b)
        r = subprocess.run([allb[b][0]] + [o.result() for o in objs[b]] + ["-o", exe], capture_output=True, text=True,
                           errors="replace", timeout=600, env=m.ENV)
        if r.returncode:
            raise m.NoAnswer(f"link of {b} failed:\n{r.stderr[-1500:]}")
        return exe
    exes = {b: link(b) for b in names}
    ex.shutdown()
    return exes


def run_build(m, exe, tag, seed, start, count, tmp):
    out = os.path.join(tmp, f"log-{tag}")
    try:
        r = subprocess.run([exe, str(seed), str(start), str(count), out], capture_output=True, text=True, errors="replace",
                           timeout=600, env=m.ENV, cwd=tmp)
    except subprocess.TimeoutExpired:
        return None, "hang", "did not end within 600 s"
    if r.returncode:
        return None, m.classify(r.stderr, r.returncode)[0], r.stderr[-1500:]
    return (open(out, "rb").read(), open(out + ".names").read().split("\n")), None, None


def compare(ref, got):
    """Result logs of two builds, record by record; a rounding difference is measured against the
    largest value reported under the same name in the same case."""
    (a, na), (b, nb) = ref, got
    n = exact = rounded = 0
    if len(a) == len(b) and a == b and na == nb:
        recs = len(a) // REC.size
        return dict(n=recs, identical=recs, rounded=0, bad=None)
    ra, rb = list(REC.iter_unpack(a)), list(REC.iter_unpack(b))
    op, case = "?", -1
    scale = {}
    for v, i, nm, _, _, _, _ in ra:
        if v == v and abs(v) != math.inf:
            k = (i, nm)
            if abs(v) > scale.get(k, 0):
                scale[k] = abs(v)
    for x, y in zip(ra, rb):
        n += 1
        if x[1] != case:
            case, op = x[1], na[x[2]]
        if x[1] != y[1] or na[x[2]] != nb[y[2]]:
            return dict(n=n, identical=exact, rounded=rounded, bad=(case, op, f"the logs part: {na[x[2]]} and {nb[y[2]]} (cases {x[1]}, {y[1]})"))
        v, w = x[0], y[0]
        if v == w or (v != v and w != w):
            exact += 1
            continue
        tol = x[5] * 64 * EPS.get(x[4], 0.0) * max(scale.get((x[1], x[2]), 0.0), 1.0)
        if x[3] or not abs(v - w) <= tol:
            return dict(n=n, identical=exact, rounded=rounded, bad=(case, op, f"{na[x[2]]}: {v!r} and {w!r} (allowed difference {0 if x[3] else tol:g})"))
        rounded += 1
    if len(ra) != len(rb):
        return dict(n=n, identical=exact, rounded=rounded, bad=(case, op, f"{len(ra)} and {len(rb)} results"))
    return dict(n=n, identical=exact, rounded=rounded, bad=None)


def builds(m, pid, spec, tier, seed, tmp, total):
    names = list(BUILDS) + (list(MORE) if tier == "thorough" else [])
    exes = build_all(m, names, tmp)
    cases = spec[tier]["cases"]
    ex = cf.ThreadPoolExecutor(8)
    chunk = 2500
    identical = rounded = 0
    for start in range(0, cases, chunk):
        cnt = min(chunk, cases - start)
        logs = {b: ex.submit(run_build, m, exes[b], b, seed, start, cnt, tmp) for b in names}
        ref, key, msg = logs[names[0]].result()
        if ref is None:
            total["violations"].append(dict(key=key, where="", msg=msg, case=start, cfg=names[0], seed=seed, count=cnt, builds=[names[0]]))
            return
        total["cases"] += cnt
        per_case = {}
        for v, i, nm, _, _, _, _ in REC.iter_unpack(ref[0]):
            per_case[i] = (per_case.get(i, 17) * 1000003 + struct.unpack('<Q', struct.pack('<d', v))[0] + nm) & (2 ** 64 - 1)
        total["hashes"].update(per_case.values())
        if start == 0:
            seen = set()
            for v, i, nm, _, ty, _, _ in REC.iter_unpack(ref[0]):
                if i not in seen:
                    seen.add(i)
                    if len(total["samples"]) < 6:
                        total["samples"].append(f"case {i}: {ref[1][nm]} on {dict([(1, 'int'), (4, 'float'), (8, 'double')])[ty]}")
        for b in names[1:]:
            got, key, msg = logs[b].result()
            total["per_config"][b] = total["per_config"].get(b, 0) + cnt
            if got is None:
                total["violations"].append(dict(key=key, where="", msg=msg, case=start, cfg=b, seed=seed, count=cnt, builds=[names[0], b]))
                continue
            r = compare(ref, got)
            identical += r["identical"]
            rounded += r["rounded"]
            c = total["clauses"].setdefault("same-result-as-" + names[0], [0, 0])
            c[0] += r["n"]
            if r["bad"]:
                c[1] += 1
                total["violations"].append(dict(key="builds-differ", where=r["bad"][1], msg=f"{names[0]} and {b} differ in {r['bad'][1]}: {r['bad'][2]}",
                                                case=r["bad"][0], cfg=b, seed=seed, count=1, builds=[names[0], b]))
        if len(total["violations"]) > 20:
            break
    ex.shutdown()
    total["per_config"][names[0]] = total["cases"]
    total["notes"].append(f"{identical} results identical in every bit, {rounded} different within rounding")


def replay_builds(m, v, tmp):
    exes = build_all(m, v["builds"], tmp)
    logs = [run_build(m, exes[b], b, v["seed"], v["case"], v["count"], tmp) for b in v["builds"]]
    for b, x in zip(v["builds"], logs):
        if x[0] is None:
            print(b, x[1], x[2])
            return 1
    if len(logs) < 2:
        return 0
    r = compare(logs[0][0], logs[1][0])
    print(r)
    return 1 if r["bad"] else 0
