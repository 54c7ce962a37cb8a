"""What each check runs: cases per build configuration."""
PROPS = {}


def p(pid, q=(6000, 6000), t=20, fuzz=60000, cfgs=None, deep={}, **kw):
    """q = (asan cases, release cases) for quick; thorough is t times that on more builds.
    cfgs = {config: quick cases} replaces the standard builds."""
    if cfgs:
        PROPS[pid] = dict(quick=cfgs, thorough=dict({k: n * t for k, n in cfgs.items()}, **deep), fuzz=fuzz, **kw)
        return
    a, r = q
    PROPS[pid] = dict(quick={"asan": a, "rel": r},
                      thorough={"asan": a * t, "rel": r * t, "gccO3": r * t, "clangsan": a * t // 2},
                      fuzz=fuzz, **kw)


API = [("api_ops.cpp", ["-DAPI_T=" + t] + f) for t in ("float", "double", "long double") for f in ([], ["-DAPI_SPECIAL"])] + [
    ("api_ops.cpp", ["-DAPI_T=" + t]) for t in ("int", "unsigned char")]
p("C01", cfgs={"asan": 40000, "rel": 40000, "vg": 3000}, t=30, deep={"clangsan": 400000, "gccO3": 800000}, units=API,
  technique="runtime monitoring: the whole API on heap operands under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck, "
            "each operation repeated under different storage histories and its results compared")
p("C02", cfgs={"asan": 6000, "rel": 6000, "relsafe": 6000, "noconv": 6000, "clangsan": 3000})
p("C03", cfgs={"asan": 6000, "rel": 6000, "noconv": 3000}, deep={"gccO3": 120000, "clangsan": 60000})
p("C04", q=(15000, 20000), t=8)
p("C05", q=(20000, 25000), t=6)
p("C06")
p("C07", q=(12000, 15000), t=10)
p("C08", q=(20000, 25000), t=6)
p("C09", q=(25000, 35000), t=4)
p("C10", q=(12000, 15000), t=10)
p("C29", q=(20000, 30000), t=6)
p("C23", q=(25000, 30000), t=4)
p("C24", q=(25000, 30000), t=4)
p("C11")
p("C12")
p("C13", q=(30000, 40000), t=4)
p("C14", q=(30000, 40000), t=4)
p("C15", q=(50000, 60000), t=4)
p("C16", q=(8000, 12000))
p("C17", q=(50000, 60000), t=4)
p("C18", q=(18000, 24000), t=6)
p("C19", q=(60000, 80000), t=4)
p("C20", q=(8000, 12000))
p("C21", q=(8000, 12000))
p("C28", q=(6000, 10000))
p("C30", q=(8000, 12000))
p("C26", q=(4000, 8000))
p("C27", q=(12000, 20000))
p("C22", cfgs={"tsan": 600, "rel": 3000}, t=25, fuzz=0, deep={"asan": 6000, "gccO3": 60000},
  units=[u for u in API if "long double" not in u[1][0]],
  technique="runtime monitoring: ThreadSanitizer over threads sharing const operands, with each concurrent result compared with the sequential one",
  level_note="Held on the schedules explored; ThreadSanitizer judges every pair of conflicting accesses of an execution, not only the order seen.",
  rule="a case is one concurrent history: 2 to 8 threads, a pool of shared operands and the operations each thread ran on it; "
       "non-trivial if a sequential result was compared, distinct by a hash of the operands, operations and the order in which "
       "the threads were seen to start their operations")
PROPS["C25"] = dict(runner="builds",
                    technique="runtime monitoring: one recorded workload run by ten (thorough: eighteen) builds, an offline checker comparing their event logs record by record", quick={"cases": 15000}, thorough={"cases": 250000},
                    rule="a case is one operation group of the API run on generated operands in every build; non-trivial if it reported "
                         "results that were compared, distinct by a hash of all results the reference build reported")
