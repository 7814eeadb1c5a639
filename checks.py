"""What each property's check runs: workload source, build configuration, number of cases per tier."""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
CONFIGS = {
    # as the tests build it: assertions on, small strings switched to the heap form
    "dbg": {"cxx": "clang++", "flags": ["-O1", "-g1"] + SAN},
    # release code under the sanitizers
    "ndbg": {"cxx": "clang++", "flags": ["-O1", "-g1", "-DNDEBUG", "-DSTDB_VERIF_NO_WORD_COPY"] + SAN},
    # with the checks for copies between threads
    "ctc0": {"cxx": "clang++", "flags": ["-O0", "-g1", "-DCROSS_THREAD_CHECKING"] + SAN},
    # the same without optimisation, for workloads that take long to compile
    "dbg0": {"cxx": "clang++", "flags": ["-O0", "-g1"] + SAN},
    "ndbg0": {"cxx": "clang++", "flags": ["-O0", "-g1", "-DNDEBUG", "-DSTDB_VERIF_NO_WORD_COPY"] + SAN},
    # release code as shipped
    "opt": {"cxx": "clang++", "flags": ["-O2", "-DNDEBUG"]},
    "gcc": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-w"]},
    "tsan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize=thread"]},
}
LIBS = {
    "arena.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "pmr.cc": ["arena/arena.cc"],
    "threads.cc": ["arena/arena.cc", "arena/metrics.cc", "optparse/optparse.cc"],
    "report.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "align.cc": [],
    "string.cc": [],
    "string16.cc": [],
    "stringw.cc": [],
    "arena_string.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "arena_default.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "arena_default16.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "arena_string16.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "arena_stringw.cc": ["arena/arena.cc", "arena/metrics.cc"],
    "optparse.cc": ["optparse/optparse.cc"],
    "vector_led.cc": [],
    "vector_plain.cc": [],
    "vector_lib.cc": [],
}
# further flags for a workload
EXTRA = {"threads.cc": ["-DVH_NO_TRACK"]}
AR = "random operation histories over one to four arenas with random block sizes, block base offsets, hooks and failing block allocations; non-trivial: at least two operations, distinct by operation sequence and size classes"


def arena(q, t, cfg2=True):
    return [{"src": "arena.cc", "cfg": "dbg", "quick": q, "thorough": t},
            {"src": "arena.cc", "cfg": "ndbg", "quick": q // 2, "thorough": t // 2, "base": 10**9}]


PROPS = {}
RULES = {}
for p in ("A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "A10", "M01"):
    PROPS[p] = {"runs": arena(24000, 1500000)}
    RULES[p] = AR
PROPS["A06"]["level"] = "fault_enumeration"


def one(src, cfg, q, t, **kw):
    return dict({"src": src, "cfg": cfg, "quick": q, "thorough": t}, **kw)


PROPS["A09"] = {"runs": [one("pmr.cc", "dbg", 40000, 2000000)]}
RULES["A09"] = "random operation histories on pmr containers of nine kinds (nested ones included) in two arenas, each step repeated on the default-heap counterpart; non-trivial: at least two operations, distinct by operation sequence and size classes"
PROPS["A11"] = {"runs": [one("threads.cc", "tsan", 1600, 60000, jobs=4), one("threads.cc", "opt", 3000, 200000, base=10**9, jobs=4),
                         one("threads.cc", "dbg", 800, 50000, base=2 * 10**9, jobs=4)]}
RULES["A11"] = "2 to 6 threads run random work on their own objects, first alone, then together with injected delays; non-trivial: distinct by work and order in which the threads end"
PROPS["M02"] = {"runs": [one("threads.cc", "tsan", 1600, 60000, jobs=4), one("threads.cc", "opt", 4000, 200000, base=10**9, jobs=4)]}
RULES["M02"] = "2 to 8 threads report random counters (synthetic or from real arenas) while the report is rendered; non-trivial: distinct by the observed interleaving of report begins and ends"
PROPS["M03"] = {"runs": [one("report.cc", "dbg", 80000, 4000000)]}
RULES["M03"] = "random counter states (initial, all-zero, boundary, up to 64-bit) built directly or by reporting, rendered and parsed back; non-trivial: distinct by state classes"
PROPS["L01"] = {"runs": [one("align.cc", "dbg", 60000, 4000000), one("align.cc", "opt", 60000, 4000000, base=10**9)]}
RULES["L01"] = "boundary and random (size, unit) pairs for every power of two from 8 and arbitrary units, and decimal texts for the literals; non-trivial: distinct by values"


def strings(src, q, t, base):
    """quick: unoptimised sanitizer builds and the release build; thorough: optimised sanitizer builds as well"""
    return [one(src, "dbg0", q, t // 4, base=base), one(src, "ndbg0", q, t // 4, base=base + 10**8), one(src, "opt", 5 * q, 4 * t, base=base + 2 * 10**8),
            one(src, "dbg", 0, t, base=base + 4 * 10**8), one(src, "ndbg", 0, t, base=base + 6 * 10**8),
            one(src, "gcc", 0, 2 * t, base=base + 8 * 10**8)]


def wide(src, q, t, base, few=False):
    """the same workloads over two and four byte characters"""
    runs = [one(src + "16.cc", "ndbg0", q, t // 4, base=base), one(src + "w.cc", "dbg0", q, t // 4, base=base + 10**8)]
    if not few:
        runs += [one(src + "16.cc", "opt", 4 * q, 4 * t, base=base + 2 * 10**8), one(src + "w.cc", "ndbg0", q // 2, t // 4, base=base + 3 * 10**8)]
    runs += [one(src + "16.cc", "dbg", 0, t, base=base + 4 * 10**8), one(src + "w.cc", "opt", 0, 4 * t, base=base + 5 * 10**8),
                   one(src + "w.cc", "ndbg", 0, t, base=base + 6 * 10**8)]
    return [dict(r, optional=True) for r in runs]  # nothing in the repository itself instantiates these


SR = ("random operation histories over a pool of strings sharing storage, each step repeated on std::string, lengths concentrated on the representation boundaries, arguments from "
      "the string itself included; characters of one, two and four bytes; non-trivial: at least two operations, distinct by operation sequence and size classes")
for p in ("S01", "S02", "S03", "S04", "S05", "S06", "S07"):
    PROPS[p] = {"runs": strings("string.cc", 40000, 2000000, 0) + wide("string", 10000, 600000, 4 * 10**9)}
    RULES[p] = SR
for p in ("S01", "S02"):
    PROPS[p]["runs"].append(one("string.cc", "ctc0", 8000, 300000, base=8 * 10**9, optional=True))
for p in ("S08", "S09"):
    PROPS[p] = {"runs": strings("arena_string.cc", 24000, 1000000, 2 * 10**9) + wide("arena_string", 8000, 400000, 6 * 10**9)}
    RULES[p] = SR + "; strings live in two arenas with random block sizes"
for p in ("S03", "S04", "S06", "S07"):
    PROPS[p]["runs"] = (strings("string.cc", 24000, 1200000, 0) + strings("arena_string.cc", 12000, 600000, 2 * 10**9) +
                        wide("string", 8000, 400000, 4 * 10**9, True) + wide("arena_string", 6000, 200000, 6 * 10**9, True))
PROPS["S10"] = {"runs": [one("arena_default.cc", "ndbg0", 24000, 400000), one("arena_default.cc", "opt", 120000, 4000000, base=10**9),
                         one("arena_default.cc", "ndbg", 0, 1500000, base=2 * 10**9), one("arena_default16.cc", "ndbg0", 10000, 400000, base=3 * 10**9, optional=True)]}
RULES["S10"] = SR + "; strings live on a recording default resource that can fail"
PROPS["S05"] = {"runs": strings("string.cc", 24000, 1000000, 0) + wide("string", 8000, 400000, 4 * 10**9), "level": "fault_enumeration"}
RULES["S05"] = SR + "; each operation is repeated with every one of its allocations failing, alone and together with all later ones"

VR = ("random operation histories over three vectors of one element type (%s), each step repeated on std::vector, counts concentrated on the room left, "
      "ranges of twenty iterator kinds; non-trivial: at least two operations, distinct by operation sequence and size classes")
for p in ("V01", "V02", "V03", "V04", "V05", "V06", "V07"):
    runs = []
    for k, (src, q, t) in enumerate((("vector_led.cc", 20000, 400000), ("vector_plain.cc", 16000, 300000), ("vector_lib.cc", 12000, 200000))):
        if p in ("V03", "V04"):
            q //= 2
            t //= 2
        runs += strings(src, q, t, k * 3 * 10**9)
    PROPS[p] = {"runs": runs}
    RULES[p] = VR % "ledgered, copy-only, move-only, unmovable, one-byte, over-aligned, trivially copyable, relocatable, std::string, unique_ptr, nested vectors"
PROPS["V04"]["level"] = "fault_enumeration"
RULES["V04"] += "; each operation is repeated with every one of its allocations and element copies failing in turn"

for p in ("O01", "O02", "O03", "O04", "O05", "O06"):
    PROPS[p] = {"runs": [one("optparse.cc", "dbg", 40000, 3000000), one("optparse.cc", "ndbg", 20000, 1500000, base=10**9),
                         one("optparse.cc", "opt", 60000, 6000000, base=2 * 10**9), one("optparse.cc", "gcc", 0, 3000000, base=3 * 10**9)]}
    RULES[p] = ("random histories of registering options (all actions, types, prefixes, policies, defaults, environment), parsing command lines built from their names, "
                "near misses and boundary texts, copying, moving and formatting up to three parsers; non-trivial: distinct by operation sequence and result sizes")
