#!/usr/bin/env python3
"""Runtime-monitoring checks for ScalableVectorSearch.

  run.py Cxx [--tier quick|thorough] [--seed N]   decide one property
  run.py --setup                                  build everything into the cache
  run.py --replay FILE                            run the case a replay file names
  run.py --build DRIVER VARIANT                   print the path of a driver

Drivers (src/*.cpp) run the real library code from /repo's working tree under generated
workloads; the monitors inside them record what they saw. This program compiles them (objects
are cached by a hash of the preprocessed source and the flags), runs them over several
processes, attributes crashes, sanitizer reports and hangs to the case that was running, and
turns the result into a verdict plus evidence/<id>.json.
"""
import argparse
import ctypes, fnmatch
import glob
import hashlib
import json
import mmap
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(HERE, "src")
CACHE = os.path.join(HERE, ".cache")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known_findings.txt")
sys.path.insert(0, HERE)
from plan import DRIVERS, PLAN, PROPS_INFO  # noqa: E402

NCPU = os.cpu_count() or 8
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def cpu_flags():
    try:
        return set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return set()


def flags(variant):
    cpu = cpu_flags()
    v4 = {"avx512f", "avx512vl", "avx512bw", "avx512dq"} <= cpu
    f = [
        "-std=c++20", "-I" + SRC, "-I" + REPO + "/include",
        "-isystem", "/opt/vp/deps/tomlplusplus/include",
        "-DSVS_VERSION_MAJOR=0", "-DSVS_VERSION_MINOR=0", "-DSVS_VERSION_PATCH=4",
        "-DSVS_HAVE_MKL=0", "-DSVS_CHECK_BOUNDS=1", "-DSVS_ENABLE_NUMA=0",
        "-DSVS_INITIALIZE_LOGGER=1", "-DSVS_VERIF_HOOKS=1", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB",
        "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB", "-w", "-g1",
    ]
    base, _, isa = variant.partition("-")
    if isa == "v3" or not v4:
        f += ["-march=x86-64-v3"]
    elif isa == "novnni":
        f += ["-march=x86-64-v4"]
    elif isa == "base":
        f += ["-march=x86-64-v2", "-mf16c"]
    else:
        f += ["-march=x86-64-v4"]
        if "avx512_vnni" in cpu:
            f += ["-mavx512vnni"]
    link = ["-lfmt", "-lspdlog", "-lpthread"]
    if base == "rel":
        f += ["-O2"]
    elif base == "ndebug":
        f += ["-O2", "-DNDEBUG"]
    elif base == "asan":
        s = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
        f += ["-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DVH_ASAN=1"] + s
        link += s
    elif base == "asannd":
        s = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
        f += ["-O1", "-fno-omit-frame-pointer", "-DNDEBUG", "-USVS_CHECK_BOUNDS", "-DSVS_CHECK_BOUNDS=0", "-DVH_ASAN=1"] + s
        link += s
    elif base == "tsan":
        f += ["-O1", "-fsanitize=thread", "-DVH_TSAN=1"]
        link += ["-fsanitize=thread"]
    else:
        raise SystemExit("unknown variant " + variant)
    return f, link


class BuildError(Exception):
    pass


def _object(src, cf):
    p = subprocess.run(["g++"] + cf + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError(src + "\n" + p.stderr.decode(errors="replace")[:4000])
    h = hashlib.sha256(p.stdout + "\0".join(cf).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, h + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        t = time.time()
        p = subprocess.run(["g++"] + cf + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            e = p.stdout.decode(errors="replace")
            errs = [x[:600] for x in e.splitlines() if "error" in x][:8]
            raise BuildError(src + "\n" + ("\n".join(errs) or e[:3000]))
        os.rename(tmp, obj)
        log("compiled", os.path.basename(src), "%.0fs" % (time.time() - t))
    else:
        os.utime(obj)
    return obj


def build(pairs):
    """Build [(driver, variant)]; returns {pair: executable}."""
    os.makedirs(CACHE, exist_ok=True)
    jobs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for d, v in pairs:
            cf, _ = flags(v)
            for s in DRIVERS[d]:
                if (s, v) not in jobs:
                    jobs[(s, v)] = ex.submit(_object, os.path.join(SRC, s), cf)
        for v in {v for _, v in pairs}:
            if ("main.cpp", v) not in jobs:
                jobs[("main.cpp", v)] = ex.submit(_object, os.path.join(SRC, "main.cpp"), flags(v)[0])
        objs = {k: j.result() for k, j in jobs.items()}
    out = {}
    for d, v in pairs:
        o = [objs[(s, v)] for s in DRIVERS[d]] + [objs[("main.cpp", v)]]
        link = flags(v)[1]
        h = hashlib.sha256("\0".join(o + link).encode()).hexdigest()[:24]
        exe = os.path.join(CACHE, "%s_%s_%s" % (d, v, h))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            p = subprocess.run(["g++", "-g1"] + o + ["-o", tmp] + link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError(d + "\n" + p.stdout.decode(errors="replace")[-3000:])
            os.rename(tmp, exe)
        out[(d, v)] = exe
    prune_cache()
    return out


def prune_cache(limit=int(6e9)):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + "/*")]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 3600:
            break
        try:
            os.remove(p)
            tot -= s
        except OSError:
            pass


# ---------------------------------------------------------------- running
STATE_FMT = (96, 8, 8, 288, 8)


def read_state(path):
    try:
        b = open(path, "rb").read()
        sc = b[:96].split(b"\0")[0].decode(errors="replace")
        idx = int.from_bytes(b[96:104], "little")
        ordn = int.from_bytes(b[104:112], "little")
        step = b[112:400].split(b"\0")[0].decode(errors="replace")
        prog = int.from_bytes(b[400:408], "little")
        return sc, idx, ordn, step, prog
    except Exception:
        return "", 0, 0, "", 0


def env_for(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=1:abort_on_error=0:exitcode=23:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=6000:"
                         "hard_rss_limit_mb=7000:quarantine_size_mb=64")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=24"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(SRC, "tsan.supp")
    e["LSAN_OPTIONS"] = "suppressions=" + os.path.join(SRC, "lsan.supp")
    return e


def limits(variant):
    def f():
        os.setpgrp()
        try:  # do not outlive this program
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        except Exception:
            pass
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant.split("-")[0] in ("rel", "ndebug"):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    return f


def shorten(sym):
    """Function name without template arguments or parameter lists."""
    out, depth = "", 0
    for ch in sym:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth = max(0, depth - 1)
        elif ch == "(" and depth == 0:
            break
        elif depth == 0:
            out += ch
    return out.strip().split(" ")[-1]


def crash_key(rc, err):
    """Stable kind of an abnormal end, and a short description."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    loc = ""
    for fm in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/[^\s:]+):(\d+)", err):
        if "/repo/include" in fm.group(2) or REPO + "/include" in fm.group(2):
            loc = os.path.basename(fm.group(2)) + ":" + shorten(fm.group(1))
            break
    if "runtime error:" in err:
        mm = re.search(r"([^\s/]+):\d+:\d+: runtime error: (.{0,160})", err)
        if mm:
            return "ubsan:%s:%s" % (mm.group(1), re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+", "N", mm.group(2))[:100]), mm.group(0)[:300]
    if "LeakSanitizer" in err:
        return "leak:" + loc, err[:200]
    if m:
        kind = m.group(2)
        if m.group(1) == "ThreadSanitizer":
            kind = "data race" if "data race" in err else kind
        return "%s:%s:%s" % (m.group(1), kind, loc), ""
    m = re.search(r"Assertion `(.{0,120})' failed", err, re.S)
    if m:
        return "assertion:" + m.group(1)[:80], ""
    m = re.search(r"what\(\):\s*(.{0,120})", err)
    if m:
        return "terminate:" + re.sub(r"\d+", "N", m.group(1)), ""
    if "terminate called" in err:
        return "terminate", ""
    if rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name, ""
        except ValueError:
            pass
    return "crash:exit%d" % rc, ""


def stack_digest(err):
    """Top frames inside the library, shortened (sanitizer symbol names are enormous)."""
    out = []
    for fm in re.finditer(r"#(\d+) (?:0x[0-9a-f]+ in )?(.+?) (/[^\s:]+):(\d+)", err):
        out.append("%s at %s:%s" % (shorten(fm.group(2)), fm.group(3), fm.group(4)))
        if len(out) >= 14:
            break
    head = [x[:300] for x in err.splitlines() if "runtime error" in x or "ERROR:" in x or "WARNING:" in x or "Assertion" in x or "what():" in x]
    return "; ".join([h for h in head[:3]] + out)


class Shard:
    hangs = 0    # processes that stopped making progress
    caught = 0   # when to stop once a hang is established

    def __init__(self, exe, driver, variant, props, tier, seed, scale, k, n, tmp, deadline, stall, only="", watch=None):
        self.watch = watch
        self.exe, self.driver, self.variant = exe, driver, variant
        self.props, self.tier, self.seed, self.scale = props, tier, seed, scale
        self.k, self.n, self.tmp, self.deadline, self.stall = k, n, tmp, deadline, stall
        self.only = only
        self.res, self.viol, self.incomplete, self.notes = [], [], False, []

    def args(self, extra, tag):
        out = os.path.join(self.tmp, "o_%s_%s_%d_%s.json" % (self.driver, self.variant, self.k, tag))
        st = os.path.join(self.tmp, "s_%s_%s_%d_%s" % (self.driver, self.variant, self.k, tag))
        sc = os.path.join(self.tmp, "scratch_%s_%s_%d" % (self.driver, self.variant, self.k))
        os.makedirs(sc, exist_ok=True)
        a = [self.exe, "--seed", str(self.seed), "--tier", self.tier, "--scale", repr(self.scale),
             "--out", out, "--state", st, "--scratch", sc]
        if self.props:
            a += ["--props", self.props]
        if self.only:
            a += ["--only", self.only]
        return a + extra, out, st, sc

    def once(self, extra, tag, limit):
        """Run; returns (rc or 'hang' or 'timeout', stderr, result json, state)."""
        a, out, st, sc = self.args(extra, tag)
        errp = os.path.join(self.tmp, "e_%s_%s_%d_%s" % (self.driver, self.variant, self.k, tag))
        with open(errp, "wb") as ef:
            p = subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=ef, env=env_for(self.variant),
                                 preexec_fn=limits(self.variant), cwd=sc)
        last, lastt, rc, polls = None, time.time(), None, 0
        start = time.time()
        while True:
            try:
                rc = p.wait(0.5 if time.time() - start > 5 else 0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            prog = read_state(st)[4]
            now = time.time()
            if prog != last:
                last, lastt, polls = prog, now, 0
            polls += 1  # a paused machine must not look like a hang
            if now - lastt > self.stall and polls > self.stall:
                rc = "hang"
            elif now > limit or (Shard.caught and now > Shard.caught):
                rc = "timeout"
            if rc is not None:
                # Where it was, for the report.
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        err = open(errp, "rb").read(4 << 20).decode(errors="replace")
        try:
            res = json.load(open(out))
        except Exception:
            res = None
        state = read_state(st)
        shutil.rmtree(sc, ignore_errors=True)
        return rc, err, res, state

    def run(self):
        skip, tries, killed = 0, 0, 0
        while True:
            extra = ["--shard", "%d/%d" % (self.k, self.n)] + (["--skip", str(skip)] if skip else [])
            rc, err, res, st = self.once(extra, "r%d" % tries, self.deadline)
            tries += 1
            if res:
                self.res.append(res)
            if res and res.get("finished") and rc in (0, 1):
                return self
            sc, idx, ordn, step, _ = st
            if rc == "timeout":
                self.incomplete = True
                self.notes.append("time budget reached in %s[%d]" % (sc, idx))
                return self
            if rc == -signal.SIGKILL:
                # Ended from outside (memory): inconclusive, try once more from there.
                killed += 1
                if killed > 2 or time.time() > self.deadline:
                    self.incomplete = True
                    self.notes.append("process was killed in %s[%d]" % (sc, idx))
                    return self
                skip = ordn + (1 if killed > 1 else 0)
                time.sleep(2)
                continue
            if res and res.get("finished"):
                key, d = crash_key(rc, err)
                self.viol.append(dict(scenario="(exit)", key=key, msg=(d + " " + stack_digest(err))[:2500], index=-1, count=1))
                return self
            if rc == "hang":
                Shard.hangs += 1
                ok = self.confirm_hang(sc, idx)
                # A hang that depends on the schedule may not repeat; two separate ones are
                # no accident of the machine.
                if ok or Shard.hangs > 1:
                    Shard.caught = min(Shard.caught or 1e18, time.time() + 20)
                    self.viol.append(dict(scenario=sc, key="hang", msg="no progress for %ds at: %s" % (self.stall, step), index=idx, count=1))
            else:
                key, d = crash_key(rc, err)
                self.viol.append(dict(scenario=sc, key=key, msg=("at [%s] %s %s" % (step, d, stack_digest(err)))[:2500], index=idx, count=1))
            skip = ordn + 1
            if len(self.viol) >= 6 or time.time() > self.deadline or Shard.caught:
                self.incomplete = True
                self.notes.append("stopped after repeated abnormal ends")
                return self

    def confirm_hang(self, sc, idx):
        save = self.only, self.props
        self.only, self.props = sc, ""
        rc, _, _, _ = self.once(["--case", str(idx)], "h%d" % idx, time.time() + self.stall + 30)
        self.only, self.props = save
        return rc in ("hang", "timeout")


def load_findings():
    out = []
    try:
        for ln in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) key=\"(.*?)\" (.*)$", ln.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


WATCH = {
    # What a sanitizer-only check listens to; functional findings of the same runs belong to the
    # checks of other properties.
    "memory": r"(ubsan|AddressSanitizer|leak|assertion|crash):",
    "races": r"ThreadSanitizer:",
}


def concerns(prop, v, watch=None):
    """A key that starts with another property's id belongs to that property."""
    if watch:
        return bool(re.match(WATCH[watch], v["key"]))
    m = re.match(r"(C\d\d):", v["key"])
    return not m or m.group(1) == prop


def check(prop, tier, seed):
    t0 = time.time()
    budget = 640 if tier == "quick" else 3 * 3600
    plan = PLAN[prop]
    try:
        exes = build([(s["driver"], s.get("variant", "rel")) for s in plan])
    except BuildError as e:
        print("BUILD ERROR (no verdict):", str(e)[:3000])
        return 2
    log(prop, "built")
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % prop)
    shards = []
    deadline = t0 + budget
    for s in plan:
        v = s.get("variant", "rel")
        n = s.get("shards", NCPU)
        scale = s.get("scale", 1.0)
        if tier == "thorough":
            scale = s.get("thorough_scale", scale)
        for k in range(n):
            shards.append(Shard(exes[(s["driver"], v)], s["driver"], v, s.get("props", prop), tier, seed,
                                scale, k, n, tmp, deadline,
                                s.get("stall", 60 if tier == "quick" else 400), s.get("only", ""),
                                s.get("watch")))
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda s: s.run(), shards))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log(prop, "ran")
    evals, distinct, counters, scen, samples, viol, notes = 0, set(), {}, {}, [], {}, []
    incomplete = False
    per_variant = {}
    for s in shards:
        incomplete |= s.incomplete
        notes += s.notes
        for r in s.res:
            evals += r["evaluations"]
            per_variant[s.driver + "/" + s.variant] = per_variant.get(s.driver + "/" + s.variant, 0) + r["evaluations"]
            distinct.update(r["distinct"])
            for k, n in r["counters"].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in r["scenarios"].items():
                scen[k] = scen.get(k, 0) + n
            have = {x.split("[")[0] for x in samples}
            samples += [x for x in r["samples"] if x.split("[")[0] not in have][:1]
        for v in [v for r in s.res for v in r["violations"]] + s.viol:
            if concerns(prop, v, s.watch):
                kk = (v["scenario"], v["key"])
                if kk not in viol:
                    viol[kk] = dict(v, driver=s.driver, variant=s.variant, scale=s.scale, shard=s.k, nshards=s.n)
                else:
                    viol[kk]["count"] += v.get("count", 1)
    known, real = {}, []
    for (sc, key), v in viol.items():
        hit = [f for f in load_findings() if f[0] == prop and fnmatch.fnmatchcase(sc, f[1]) and f[2] == key]
        if hit:
            known[hit[0]] = known.get(hit[0], 0) + v["count"]
        else:
            real.append(v)
    for f, n in known.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, f[3], n))
    for v in real[:12]:
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(REPLAYS, "%s_%s_%s.json" % (prop, re.sub(r"\W", "_", v["scenario"])[:40], hashlib.sha1(v["key"].encode()).hexdigest()[:8]))
        json.dump(dict(property=prop, tier=tier, seed=seed, **v), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s[%s] (%s, %s; x%d) %s\n    %s" % (v["scenario"], v["index"], v["driver"], v["variant"], v["count"], v["key"], v["msg"][:1200]))
    info = PROPS_INFO[prop]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=info.get("level", "exploration"),
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(distinct), rule=info["rule"],
            samples=samples[:12] or ["(none)"], observed=counters, cases_per_scenario=scen,
            cases_per_build=per_variant, known_findings_seen=sum(known.values()),
            complete=not incomplete, notes=notes[:20],
        ),
        assumptions=info.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(real),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct, %d violation kinds, %.0fs%s" % (
        prop, tier, evals, len(distinct), len(real), time.time() - t0, " (incomplete)" if incomplete else ""))
    for n in notes[:5]:
        print("  note:", n)
    if real:
        return 1
    if not evals:
        print("nothing was executed: no verdict")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    exe = build([(v["driver"], v["variant"])])[(v["driver"], v["variant"])]
    a = [exe, "--seed", str(v["seed"]), "--tier", v["tier"], "--scale", repr(v["scale"]), "-v"]
    if v["index"] >= 0:
        a += ["--only", v["scenario"], "--case", str(v["index"])]
    else:
        a += ["--props", v["property"], "--shard", "%d/%d" % (v["shard"], v["nshards"])]
    print(" ".join(a), flush=True)
    with tempfile.TemporaryDirectory() as d:
        return subprocess.run(a + ["--scratch", d], env=env_for(v["variant"])).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--build", nargs=2)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.build:
        try:
            print(build([tuple(a.build)])[tuple(a.build)])
        except BuildError as e:
            print(str(e))
            return 2
        return 0
    if a.setup:
        try:
            build(sorted({(s["driver"], s.get("variant", "rel")) for p in PLAN.values() for s in p}))
        except BuildError as e:
            print(str(e))
            return 2
        return 0
    return check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
