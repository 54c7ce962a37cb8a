#!/usr/bin/env python3
"""Measures the monitors: plants many small syntactic changes in copies of the headers and lists those
no monitor notices.  Development only; no check uses it.

  mutate.py COVDIR OUT [per_line] [seed]

COVDIR/<cNN>/*.gcov.json.gz says which monitor executes which line (see DESIGN.md)."""
import concurrent.futures as cf, collections, glob, gzip, json, os, random, re, shutil, subprocess, sys, tempfile

COV, OUT = sys.argv[1], sys.argv[2]
PER = int(sys.argv[3]) if len(sys.argv) > 3 else 2
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = tempfile.mkdtemp(prefix="mutsrc-")   # as it is now
shutil.copytree(REPO + "/vmmlib", SRC + "/vmmlib")
cover = collections.defaultdict(dict)          # (file, line) -> {check: count}
size = collections.Counter()
for f in glob.glob(COV + "/*/*.gcov.json.gz"):
    chk = f.split("/")[-2]
    for x in json.load(gzip.open(f))["files"]:
        if x["file"].startswith(REPO + "/vmmlib/"):
            for l in x["lines"]:
                if l["count"]:
                    cover[(os.path.basename(x["file"]), l["line_number"])][chk] = l["count"]
for k in cover:
    for c in cover[k]:
        size[c] += 1
SWAPS = [(r"(?<![+\w])\+(?![+=])", "-"), (r"(?<![-\w(,=<>])\s-(?![->=])", " +"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="),
         (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)<=(?=\s)", "<"), (r"(?<=\s)>=(?=\s)", ">"), (r"(?<=\s)<(?=\s)", ">"), (r"(?<=\s)>(?=\s)", "<"), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".z()"), (r"\.z\(\)", ".x()"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
         (r"\bx\(\)", "y()"), (r"\by\(\)", "z()"), (r"\bw\(\)", "z()"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\b0\b(?!\.)", "1"), (r"(?<![\w.])1\b(?!\.)", "0"), (r"(?<![\w.])1\b(?!\.)", "2"), (r"(?<![\w.])2\b(?!\.)", "1"), (r"(?<![\w.])3\b", "2"),
         (r"\b0\.5\b", "0.25"), (r"\b1\.0\b", "2.0"), (r"\b2\.0\b", "1.0"), (r"\( *(\w+), *(\w+) *\)", r"( \2, \1 )"), (r"\bleft\b", "right"), (r"\btop\b", "bottom"), (r"\bM\b", "N"), (r"\bN\b", "M"), (r"\bis_signed\b", "is_integer"), (r"!(?=[\w(])", ""),
         (r"\bsqrt\b", "fabs"), (r"\b_min\b", "_max"), (r"\b_max\b", "_min"), (r"\bnear_plane\b", "far_plane"), (r"\bfrom\b", "to"), (r"- (?=\w)", "")]


def mutants():
    out = []
    for path in sorted(glob.glob(REPO + "/vmmlib/*.hpp")):
        name = os.path.basename(path)
        src = open(path).read().split("\n")
        for n, line in enumerate(src, 1):
            if (name, n) not in cover or line.strip().startswith(("template", "inline", "typedef")):
                continue
            body = line.split("//")[0]
            cands = set()
            for pat, rep in SWAPS:
                for m in re.finditer(pat, body):
                    new = body[:m.start()] + m.expand(rep) + body[m.end():]
                    if new != body:
                        cands.add(new)
            if re.match(r"^\s+[^{}]*;\s*$", body) and not re.match(r"^\s*(return|const|T |float|double|int|size_t|Vector|Matrix|break|[\w:<>, ]+ \w+;)", body):
                cands.add(re.match(r"^\s*", body)[0] + ";")
            cands = sorted(cands)
            random.shuffle(cands)
            out += [(name, n, line, c) for c in cands[:PER]]
    random.shuffle(out)
    return out


def judge(m):
    name, n, old, new = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        os.mkdir(d + "/vmmlib")
        for f in os.listdir(SRC + "/vmmlib"):
            if f.endswith(".hpp"):
                shutil.copy(SRC + "/vmmlib/" + f, d + "/vmmlib/" + f)
        p = d + "/vmmlib/" + name
        src = open(p).read().split("\n")
        src[n - 1] = new
        open(p, "w").write("\n".join(src))
        checks = sorted(cover[(name, n)], key=lambda c: size[c])
        built = 0
        for c in checks:
            r = subprocess.run(["clang++", "-std=c++14", "-w", "-O0", "-include", "cstdint", "-I" + d, "-I" + VERIF + "/harness",
                                VERIF + f"/harness/{c}.cpp", "-o", d + "/t", "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                if "/vmmlib/" in r.stderr or "error" in r.stderr:
                    return m, "nobuild", c
                continue
            built += 1
            try:
                r = subprocess.run([d + "/t", "--seed", "1", "--start", "0", "--count", "2500", "--out", d + "/o"], cwd=d, capture_output=True, timeout=60)
            except subprocess.TimeoutExpired:
                return m, "killed-hang", c
            if r.returncode:
                return m, "killed-crash", c
            v = json.load(open(d + "/o"))["violations"]
            if v:
                return m, "killed", c + ":" + v[0]["key"]
        return m, "SURVIVED", ",".join(checks[:8])
    finally:
        shutil.rmtree(d, ignore_errors=True)


ms = mutants()
print(len(ms), "mutants", flush=True)
with cf.ThreadPoolExecutor(7) as ex, open(OUT, "w") as out:
    for f in cf.as_completed([ex.submit(judge, m) for m in ms]):
        m, verdict, by = f.result()
        out.write(f"{verdict}\t{m[0]}:{m[1]}\t{by}\t{m[2].strip()}\t=>\t{m[3].strip()}\n")
        out.flush()
shutil.rmtree(SRC)
