#!/usr/bin/env python3
"""Decide one property: build the monitored workloads from /repo's working tree, run them, judge what the monitors saw.

usage: run.py PROPERTY            (VERIF_SEED, VERIF_TIER=quick|thorough)
exit:  0 held on everything explored, 1 VIOLATION (line printed), 2 trouble in the check itself
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from checks import PROPS, CONFIGS, LIBS, RULES, EXTRA  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 8))
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign"


class CheckError(Exception):
    pass


def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")


# ------------------------------------------------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith(".") and not d.startswith("_build") and d not in ("test", "benchmark", "build")]
        files += [os.path.join(root, n) for n in names if n.endswith((".hpp", ".h", ".cc", ".cpp", ".ipp"))]
    hd = os.path.join(VERIF, "harness")
    files += [os.path.join(hd, n) for n in os.listdir(hd)] + [os.path.join(VERIF, "checks.py")]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build(runs):
    """compile every (source, config) a property needs; returns {(src, cfg): binary}"""
    th = tree_hash()
    out = os.path.join(BUILD, th)
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):  # builds of older trees
            full = os.path.join(BUILD, d)
            if d != th and os.path.isdir(full) and time.time() - os.path.getmtime(full) > 1200:
                shutil.rmtree(full, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    objs = {}
    extra = {}
    for r in runs:
        cfg = r["cfg"]
        for src in [os.path.join(VERIF, "harness", r["src"])] + [os.path.join(REPO, l) for l in LIBS[r["src"]]]:
            o = os.path.join(out, cfg + "-" + os.path.relpath(src, "/").replace("/", "_") + ".o")
            objs[(src, cfg)] = o
            extra[(src, cfg)] = EXTRA.get(r["src"], [])

    def compile_one(item):
        (src, cfg), o = item
        if os.path.exists(o):
            return None
        c = CONFIGS[cfg]
        tmp = o + ".%d.tmp" % os.getpid()
        p = sh([c["cxx"], "-std=c++20"] + c["flags"] + extra[(src, cfg)] + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", tmp])
        if p.returncode != 0:
            return "%s [%s]\n%s" % (src, cfg, p.stdout[-6000:])
        os.rename(tmp, o)
        return None

    # those that take longest first
    items = sorted(objs.items(), key=lambda it: (it[0][1] not in ("opt", "gcc"), it[0][0].startswith(REPO)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        failed = {it[0]: e for it, e in zip(items, ex.map(compile_one, items)) if e}
    optional = {(os.path.join(VERIF, "harness", r["src"]), r["cfg"]) for r in runs if r.get("optional")}
    errs = [e for k, e in failed.items() if k not in optional]
    if errs:
        raise CheckError("does not compile:\n" + "\n".join(errs))
    bins = {}
    for r in runs:
        cfg, src = r["cfg"], r["src"]
        if (os.path.join(VERIF, "harness", src), cfg) in failed:
            continue  # left out, which the evidence says
        b = os.path.join(out, cfg + "-" + src.replace(".cc", ""))
        bins[(src, cfg)] = b
        if os.path.exists(b):
            continue
        c = CONFIGS[cfg]
        os_ = [objs[(os.path.join(VERIF, "harness", src), cfg)]] + [objs[(os.path.join(REPO, l), cfg)] for l in LIBS[src]]
        tmp = b + ".%d.tmp" % os.getpid()
        p = sh([c["cxx"]] + c["flags"] + os_ + ([] if "-DVH_NO_TRACK" in EXTRA.get(src, []) else [WRAP]) + ["-lfmt", "-lxxhash", "-lpthread", "-o", tmp])
        if p.returncode != 0:
            raise CheckError("does not link:\n" + p.stdout[-6000:])
        os.rename(tmp, b)
    return bins


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("exitcode=98:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:"
                       "detect_stack_use_after_return=1:strict_string_checks=1:detect_container_overflow=1:quarantine_size_mb=64:"
                       "allow_user_segv_handler=0:handle_abort=1:detect_odr_violation=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:history_size=4:second_deadlock_stack=1"
ENV["LC_ALL"] = "C"


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = PROPS[prop]
        self.viol = []           # (key, text, replay)
        self.lock = threading.Lock()
        self.stop = False
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        self.tot = {"evaluations": 0, "oracle_checks": 0, "heap_allocations": 0, "injected_failures": 0}
        self.events = {}
        self.nontrivial = set()
        self.states = set()
        self.samples = []
        self.abandoned = 0
        self.inconclusive = 0
        self.per_config = {}
        self.left_out = []
        self.deadline = time.time() + self.spec.get("cap", {"quick": 240, "thorough": 3000}[tier])
        self.truncated = False

    # ---------------------------------------------------------------------------------------------- one worker process
    def exec_(self, binp, start, count, tag, samples=0, verbose=False, timeout=120):
        st = os.path.join(self.work, tag + ".json")
        pr = os.path.join(self.work, tag + ".prog")
        out = os.path.join(self.work, tag + ".out")
        cmd = [binp, "--prop", self.prop, "--seed", str(self.seed), "--start", str(start), "--count", str(count)]
        if verbose:
            cmd += ["--verbose"]
        cmd += ["--stats", st, "--progress", pr, "--samples", str(samples)]
        with open(out, "wb") as fo:
            p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, env=ENV, cwd=self.work, stdin=subprocess.DEVNULL)
            last, since = None, time.time()
            hang = False
            pause = 0.01
            while True:
                try:
                    p.wait(pause)
                    break
                except subprocess.TimeoutExpired:
                    pause = min(0.5, pause * 1.5)
                cur = self.progress(pr)
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > timeout:
                    hang = True
                    p.kill()
                    p.wait()
                    break
        with open(out, "rb") as fi:
            fi.seek(0, 2)
            n = fi.tell()
            fi.seek(max(0, n - 60000))
            text = fi.read().decode("utf-8", "replace")
        return (-999 if hang else p.returncode), text, self.progress(pr), st

    @staticmethod
    def progress(path):
        try:
            with open(path) as f:
                return int(f.read(21).strip() or 0)
        except (OSError, ValueError):
            return None

    def merge(self, st, cfgname):
        try:
            with open(st) as f:
                d = json.load(f)
        except (OSError, ValueError):
            return
        with self.lock:
            for k in self.tot:
                self.tot[k] += d.get(k, 0)
            self.per_config[cfgname] = self.per_config.get(cfgname, 0) + d["evaluations"]
            for k, v in d["events"].items():
                self.events[k] = self.events.get(k, 0) + v
            self.samples += d["samples"]
            try:
                with open(st + ".hash", "rb") as f:
                    raw = f.read()
                a = struct.unpack("<%dQ" % (len(raw) // 8), raw)
                k = a[0]
                self.nontrivial.update(a[1:1 + k])
                self.states.update(a[1 + k:])
            except (OSError, struct.error, IndexError):
                pass
        for f in (st, st + ".hash"):
            try:
                os.unlink(f)
            except OSError:
                pass

    def report(self, key, text, cmdline, extra=""):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        name = "%s-%s.txt" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60])
        path = os.path.join(EVID, "replays", name)
        with self.lock:
            if any(k == key for k, _, _ in self.viol):
                return
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\ncommand: %s\n%s\n%s\n" % (self.prop, key, cmdline, extra, text[-40000:]))
            self.viol.append((key, text, path))
            self.stop = True

    def judge(self, rc, text):
        """-> (verdict, key)"""
        m = re.search(r"^FAIL key=(\S+) ", text, re.M)
        if m and rc == 97:
            return "violation", m.group(1)
        if rc == 96 or "HARNESS-ERROR" in text:
            return "abandoned", "harness"
        if rc == -999:
            return "hang", "hang"
        if rc == -9:
            return "killed", "killed"
        m = re.search(r"SUMMARY: (\S+): (\S+)", text)
        if m:
            kind = m.group(2)
            if kind in ("bad-malloc_usable_size",):
                return "abandoned", "harness"
            return "violation", m.group(1) + "/" + kind
        m = re.search(r"runtime error: (.*)", text)
        if m:
            return "violation", "UndefinedBehaviorSanitizer/" + re.sub(r"[^a-z ]+", "", m.group(1))[:40].strip().replace(" ", "-")
        m = re.search(r"Assertion .* failed", text)
        if m:
            return "violation", "assertion"
        if rc < 0:
            return "violation", "signal%d" % -rc
        if "terminate called" in text:
            return "violation", "terminate"
        return "violation", "exit%d" % rc

    def chunk(self, run, binp, start, count, tag, samples):
        end = start + count
        part = 0
        hits = 0
        while start < end:
            if self.stop:
                return
            if time.time() > self.deadline:
                self.truncated = True
                return
            rc, text, prog, st = self.exec_(binp, start, end - start, "%s-%d" % (tag, part), samples, timeout=run.get("stall", 60))
            part += 1
            self.merge(st, run["src"] + "/" + run["cfg"])
            if rc == 0:
                return
            verdict, key = self.judge(rc, text)
            case = prog if prog is not None else start
            cmdline = "%s --prop %s --seed %d --start %d --count 1 --verbose   (%s, %s)" % (
                os.path.basename(binp), self.prop, self.seed, case, run["src"], run["cfg"])
            if verdict == "abandoned":
                # another property's oracle failed in a way that ended this case
                with self.lock:
                    self.abandoned += 1
                hits += 1
                if hits > 40:
                    return
                start = case + 1
                samples = 0
                continue
            rc2, text2, _, st2 = self.exec_(binp, case, 1, "%s-%d-again" % (tag, part), 0, True, timeout=240)
            if verdict in ("hang", "killed"):
                v2, k2 = ("ok", "") if rc2 == 0 else self.judge(rc2, text2)
                if v2 == "violation":
                    self.report(k2, text2, cmdline)
                    return
                if v2 == "hang":
                    self.report("hang", text2, cmdline, "the case does not end (%d s without progress, twice)" % 240)
                    return
                with self.lock:
                    self.inconclusive += 1
                start = case + 1
                samples = 0
                continue
            extra = "reproduced by the command above" if rc2 != 0 else "first run (chunk started at case %d)" % start
            self.report(key, text2 if rc2 != 0 else text, cmdline, extra)
            return

    def scripts(self, bins, known):
        """scripted demonstrations: known findings of this property, and regressions"""
        seen = set()
        shown = set()
        for run in self.runs:
            binp = bins.get((run["src"], run["cfg"]))
            if binp is None:
                continue
            p = subprocess.run([binp, "--list-scripts"], stdout=subprocess.PIPE, env=ENV, text=True, timeout=60)
            for key in p.stdout.split():
                if not key.startswith(self.prop + "/") or (key, run["src"]) in seen:
                    continue
                seen.add((key, run["src"]))
                out = os.path.join(self.work, "script.out")
                with open(out, "wb") as fo:
                    q = subprocess.run([binp, "--script", key], stdout=fo, stderr=subprocess.STDOUT, env=ENV, cwd=self.work, timeout=300)
                with open(out, errors="replace") as f:
                    text = f.read()
                self.tot["evaluations"] += 1
                self.events["scripted-case"] = self.events.get("scripted-case", 0) + 1
                if q.returncode == 0:
                    continue
                verdict, k = self.judge(q.returncode, text)
                if verdict == "abandoned":
                    raise CheckError("script %s: %s" % (key, text[-500:]))
                if k in known:
                    if k not in shown:
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
                        shown.add(k)
                    self.events["known-finding"] = self.events.get("known-finding", 0) + 1
                else:
                    self.report(k, text, "%s --script %s" % (os.path.basename(binp), key))

    def go(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        try:
            self.runs = [r for r in self.spec["runs"] if r.get(self.tier, r["quick"]) > 0]
            bins = build(self.runs)
            self.t_built = time.time()
            known = known_findings(self.prop)
            self.scripts(bins, known)
            jobs = []
            for ri, run in enumerate(self.runs):
                n = run[self.tier] if self.tier in run else run["quick"]
                if n == 0:
                    continue
                if (run["src"], run["cfg"]) not in bins:
                    self.left_out.append("%s %s" % (run["src"], run["cfg"]))
                    print("NOTE: %s does not compile as %s; its workload is left out" % (run["src"], run["cfg"]))
                    continue
                width = run.get("jobs", JOBS)
                pieces = max(1, min(n, width * (4 if self.tier == "quick" else 24)))
                size = (n + pieces - 1) // pieces
                for i in range(0, n, size):
                    jobs.append((run, bins[(run["src"], run["cfg"])], run.get("base", 0) + i, min(size, n - i), "r%d-%d" % (ri, i),
                                 1 if i < 2 * size else 0))
            # interleave the configurations
            jobs.sort(key=lambda j: j[2])
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for f in [ex.submit(self.chunk, *j) for j in jobs]:
                    f.result()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def known_findings(prop):
    """key -> description of the listed findings of a property ("known: property=S02 key=... text")"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    r = Runner(prop, tier, seed)
    err = None
    try:
        r.go()
    except CheckError as e:
        err = str(e)
    except Exception as e:  # noqa: BLE001
        err = "%s: %s" % (type(e).__name__, e)
    wall = time.time() - t0
    spec = PROPS[prop]
    cov = {
        "evaluations": r.tot["evaluations"],
        "distinct_nontrivial": len(r.nontrivial),
        "rule": RULES[prop],
        "samples": r.samples[:6] or ["(none recorded)"],
        "oracle_checks": r.tot["oracle_checks"],
        "distinct_abstract_states": len(r.states),
        "observed_events": dict(sorted(r.events.items())),
        "tracked_allocations": r.tot["heap_allocations"],
        "injected_failures": r.tot["injected_failures"],
        "cases_per_configuration": r.per_config,
        "cases_abandoned": r.abandoned,
        "cases_inconclusive": r.inconclusive,
        "stopped_by_time_cap": r.truncated,
        "left_out_as_not_compiling": r.left_out,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(r.viol)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    if r.viol:
        for key, text, path in r.viol[:5]:
            m = re.search(r"^FAIL .*$", text, re.M)
            print("  " + (m.group(0) if m else key))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        return 1
    if err:
        print("CHECK-ERROR property=%s %s" % (prop, err))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial, %d oracle evaluations, %d abstract states; built %.1f s, total %.1f s)" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], cov["oracle_checks"], cov["distinct_abstract_states"], r.t_built - t0, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
