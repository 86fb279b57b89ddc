#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  driver.py <ID>                 run check <ID> (VERIF_SEED, VERIF_TIER from the environment)
  driver.py <ID> --replay FILE   re-run only the case recorded in FILE

A check is: a set of instrumented binaries built from /repo's current tree, a set of runs (each
run is split into shards), and monitors inside the binaries which report on stdout:

  @STAT <name> <int>      counter, summed over all shards
  @SAMPLE <text>          one observed case, written out
  @VIOL <key>\t<detail>   the monitor observed a violation; <key> names the failing case
  @CRASH <key>\t<detail>  the process died while running case <key>
  @DONE                   the shard ran to its end

Exit status: 0 no unlisted violation, 1 VIOLATION printed, 2 the check itself could not decide.
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, ".replay")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "clang++-18"

ARCH = {
    "sse2": ["-mno-sse3", "-msse2"],
    "sse41": ["-msse4.1"],
    "avx": ["-msse4.2", "-mavx"],
    "avx2": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma"],
    "avx512": ["-msse4.2", "-mavx2", "-mfma", "-mavx512f", "-mavx512cd", "-mavx512bw", "-mavx512dq",
               "-mavx512vl"],
}
# the order in which the multi-architecture library registers its variants
MULTI = ["sse2", "sse41", "avx", "avx2", "avx512"]

COMMON = ["-std=gnu++17", "-I" + REPO + "/include", "-I" + VERIF + "/src", "-DNDEBUG", "-fPIC", "-w", "-DVK=1"]
SAN = {
    "none": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,alignment",
             "-fno-omit-frame-pointer", "-gline-tables-only"],
    # address only: for the heavy transform templates, where UBSan triples the build
    "aonly": ["-fsanitize=address", "-fno-omit-frame-pointer", "-gline-tables-only"],
    "tsan": ["-fsanitize=thread", "-gline-tables-only"],
}
SRC = {
    "dft": ["dft/convolution-impl.cpp", "dft/dft-impl-f32.cpp", "dft/dft-impl-f64.cpp", "dft/dft.cpp",
            "dft/fft-impl-f32.cpp", "dft/fft-impl-f64.cpp", "dft/version.cpp"],
    "dsp": ["dsp/biquad.cpp", "dsp/fir.cpp", "dsp/sample_rate_conversion.cpp", "dsp/version.cpp"],
    "io": ["io/audiofile-impl.cpp", "io/version.cpp"],
    "capi": ["capi/capi.cpp"],
}


class CheckError(Exception):
    pass


_hash_lock = threading.Lock()
_hash_cache = {}


def file_hash(path):
    with _hash_lock:
        h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hash_cache[path] = h
    return h


def parse_dep(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    return [p for p in re.split(r"(?<!\\)\s+", text.strip()) if p]


def compile_obj(src, flags, log):
    """Compile one source; reuse a cached object only if every file it was built from is unchanged."""
    cxx = CXX
    if flags and flags[0].startswith("cxx="):
        cxx, flags = flags[0][4:], flags[1:]
    cmd = [cxx] + flags + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + ".o")
    dep = os.path.join(CACHE, key + ".json")
    try:
        with open(dep) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(file_hash(p) == h for p, h in deps.items()):
            return obj
    except (OSError, ValueError):
        pass
    t0 = time.time()
    tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
    mk = tmp + ".d"
    r = subprocess.run(cmd + ["-o", tmp, "-MD", "-MF", mk], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode != 0:
        for p in (tmp, mk):
            if os.path.exists(p):
                os.unlink(p)
        raise CheckError("cannot compile %s\n%s\n%s" % (src, " ".join(cmd), r.stdout[-6000:]))
    deps = {p: file_hash(p) for p in parse_dep(mk) if not p.startswith("/usr/")}
    os.unlink(mk)
    os.replace(tmp, obj)
    with open(dep + ".%d" % threading.get_ident(), "w") as f:
        json.dump(deps, f)
    os.replace(dep + ".%d" % threading.get_ident(), dep)
    log.append((os.path.basename(src), round(time.time() - t0, 1)))
    return obj


class Bin:
    """One instrumented binary.

    srcs   harness sources under /verif/src, or tuples (source, [extra flags])
    libs   parts of the library to compile in ("dft", "dsp", "io", "capi")
    arch   one of ARCH, or "multi": the run-time dispatched library, harness at sse2
    """

    def __init__(self, name, srcs, libs=(), arch="avx2", san="none", opt="-O1", lib_opt=None, defs=(), link=(),
                 lib_san=None, lib_flags=(), cxx=None):
        self.cxx = cxx
        self.name, self.srcs, self.libs, self.arch = name, srcs, libs, arch
        self.san, self.opt, self.lib_opt = san, opt, lib_opt or opt
        self.lib_san = lib_san or san
        self.lib_flags = list(lib_flags)
        self.defs, self.link = list(defs), list(link)
        self.path = None

    def units(self):
        out = []
        san = SAN[self.san]
        lsan = SAN[self.lib_san]
        multi = self.arch == "multi"
        hflags = ARCH["sse2" if multi else self.arch]
        mdefs = []
        if multi:
            mdefs = ["-DCMT_MULTI=1"] + ["-DCMT_MULTI_ENABLED_%s=1" % a.upper() for a in MULTI]
            mdefs += ['-DKFR_ENABLED_ARCHS="%s"' % ", ".join(MULTI)]
        io = ["-DKFR_ENABLE_FLAC=1"]
        for s in self.srcs:
            extra = []
            if isinstance(s, tuple):
                s, extra = s[0], list(s[1])
            out.append((os.path.join(VERIF, "src", s), (["cxx=" + self.cxx] if self.cxx else []) + COMMON + hflags + [self.opt] + san + mdefs + io + self.defs +
                        ['-DVK_ARCH="%s"' % self.arch, '-DVK_SAN="%s"' % self.san] + extra))
        for lib in self.libs:
            for s in SRC[lib]:
                path = os.path.join(REPO, "src", s)
                lib_extra = ["-ffp-contract=fast"] if lib == "dft" else []
                if lib == "io":
                    lib_extra += io
                base = COMMON + [self.lib_opt] + lsan + lib_extra + self.lib_flags
                if multi and lib in ("dft", "dsp") and not s.endswith("/version.cpp"):
                    for i, a in enumerate(MULTI):
                        out.append((path, base + ARCH[a] + mdefs + (["-DCMT_BASE_ARCH=1"] if i == 0 else [])))
                elif multi:
                    out.append((path, base + ARCH["sse2"] + mdefs + ["-DCMT_BASE_ARCH=1"]))
                else:
                    out.append((path, base + ARCH[self.arch] + self.defs))
        return out


class Run:
    def __init__(self, bin, args=(), shards=JOBS, env=None, timeout=600, tag=None, wrap=()):
        self.bin, self.args, self.shards, self.wrap = bin, list(args), shards, list(wrap)
        self.env, self.timeout = env or {}, timeout
        self.tag = tag or bin


class Check:
    def __init__(self, id, bins, runs, rule, technique, level_note, assumptions=(), min_evals=1, level="exploration"):
        self.id, self.bins, self.runs, self.rule = id, bins, runs, rule
        self.technique, self.level_note = technique, level_note
        self.assumptions, self.min_evals, self.level = list(assumptions), min_evals, level


def build(bins, log):
    os.makedirs(CACHE, exist_ok=True)
    units = {}
    for b in bins:
        for s, f in b.units():
            units[(s, tuple(f))] = None
    # slowest sources first
    def weight(u):
        s = u[0]
        w = 0
        for i, n in enumerate(["dft-impl", "fft-impl", "audiofile-impl", "convolution-impl", "/verif/src"]):
            if n in s:
                w = 100 - i
        return -w - (50 if any("sanitize" in x for x in u[1]) else 0)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_obj, s, list(f), log): (s, f) for s, f in sorted(units, key=weight)}
        err = None
        for fu in cf.as_completed(futs):
            try:
                units[futs[fu]] = fu.result()
            except CheckError as e:
                err = e
                for other in futs:
                    other.cancel()
                break
        if err:
            raise err

        def link(b):
            objs = [units[(s, tuple(f))] for s, f in b.units()]
            cmd = [CXX] + objs + SAN[b.san] + ["-lpthread", "-lm", "-ldl"] + b.link
            key = hashlib.sha256(("\0".join(cmd) + "".join(file_hash_nocache(o) for o in objs)).encode()).hexdigest()[:32]
            b.path = os.path.join(CACHE, "%s-%s" % (b.name, key))
            if not os.path.exists(b.path):
                tmp = b.path + ".%d.tmp" % os.getpid()
                r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors="replace")
                if r.returncode != 0:
                    raise CheckError("cannot link %s\n%s" % (b.name, r.stdout[-6000:]))
                os.replace(tmp, b.path)
        for _ in ex.map(link, bins):
            pass


def file_hash_nocache(path):
    st = os.stat(path)
    return "%d:%d" % (st.st_size, st.st_mtime_ns)


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "max_allocation_size_mb=4096:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=23",
}


class Shard:
    __slots__ = ("run", "index", "stats", "samples", "viols", "rc", "err", "hashes", "timeout", "done", "wall", "notes")


def cpu_seconds(pid):
    """CPU time used by a process this driver started"""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def run_shard(check, run, bin, index, seed, tier, only, scratch):
    s = Shard()
    s.run, s.index, s.stats, s.samples, s.viols, s.hashes = run, index, {}, [], [], set()
    s.timeout, s.done, s.notes = False, False, []
    hf = os.path.join(scratch, "h-%s-%d" % (re.sub(r"\W", "_", run.tag), index))
    env = dict(os.environ)
    env.update(SAN_ENV)
    for k, v in run.env.items():
        env[k] = (env[k] + ":" + v) if k in SAN_ENV else v
    cmd = run.wrap + [bin.path, "--seed", str(seed), "--tier", tier, "--shard", str(index), "--nshards", str(run.shards),
           "--hashes", hf, "--scratch", os.path.join(scratch, "s-%s-%d" % (re.sub(r"\W", "_", run.tag), index))]
    if only is not None:
        cmd += ["--only", only]
    cmd += run.args
    t0 = time.time()
    with open(hf + ".out", "w+b") as fo, open(hf + ".err", "w+b") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=scratch, start_new_session=True)
        s.rc = None
        idle_since, idle_cpu, stuck = t0, 0.0, False
        while True:
            try:
                s.rc = p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                pass
            now, cpu = time.time(), cpu_seconds(p.pid)
            if cpu - idle_cpu > 2:
                idle_since, idle_cpu = now, cpu
            stuck = now - idle_since > 150
            if stuck or now - t0 > run.timeout:
                s.timeout = not stuck
                os.killpg(p.pid, 9)
                p.wait()
                break
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode(errors="replace")
        s.err = fe.read(400000).decode(errors="replace")
    s.wall = time.time() - t0
    if stuck:
        # neither ended nor computed anything for minutes, and its own watchdog is stuck as well
        s.viols.append(("deadlock", "the run stopped without ending (deadlock)"))
    for line in out.split("\n"):
        if line.startswith("@STAT "):
            _, k, v = line.split(" ", 2)
            s.stats[k] = s.stats.get(k, 0) + int(v)
        elif line.startswith("@SAMPLE "):
            s.samples.append(line[8:])
        elif line.startswith("@VIOL ") or line.startswith("@CRASH "):
            head, _, rest = line.partition(" ")
            key, _, detail = rest.partition("\t")
            if head == "@CRASH":
                detail = (detail + " | " + crash_summary(s.err)).strip()
                key = "crash:" + key
            s.viols.append((key, detail))
        elif line.startswith("@DONE"):
            s.done = True
        elif line.startswith("@NOTE "):
            s.notes.append(line[6:])
    try:
        with open(hf, "rb") as f:
            data = f.read()
        s.hashes = set(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))
    except OSError:
        pass
    for m in re.finditer(r"SUMMARY: ThreadSanitizer: (.*)", s.err):
        s.viols.append(("tsan:" + re.sub(r"\s+", " ", m.group(1))[:300], "reported by ThreadSanitizer"))
    if re.search(r"SUMMARY: AddressSanitizer: \d+ byte\(s\) leaked", s.err) or "LeakSanitizer" in s.err:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+).*?/repo/(\S+)", s.err)
        fr = fr[0] if fr else ("?", "?")
        s.viols.append(("leak:%s" % fr[0], "LeakSanitizer: memory still allocated at exit, allocated in %s (%s)" % fr))
    return s


def crash_summary(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer: .*)", err)
    if m:
        return m.group(1)[:300]
    m = re.search(r"(runtime error: .*)", err)
    if m:
        return m.group(1)[:300]
    return " ".join(err.strip().split("\n")[-2:])[:300]


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == pid:
                    out.append(e)
    return out


def run_check(check, argv):
    pid = check.id
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    only_tag = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        seed, tier, only, only_tag = rep["seed"], rep["tier"], rep["case"], rep["run"]
    t0 = time.time()
    log = []
    build(check.bins, log)
    t_build = time.time() - t0
    bins = {b.name: b for b in check.bins}
    scratch = tempfile.mkdtemp(prefix="vk-%s-" % pid)
    os.chmod(scratch, 0o777)
    shards = []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = []
            for run in check.runs:
                if only_tag and run.tag != only_tag:
                    continue
                n = run.shards
                for i in range(n):
                    futs.append(ex.submit(run_shard, check, run, bins[run.bin], i, seed, tier, only, scratch))
            for fu in futs:
                shards.append(fu.result())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    stats, samples, viols, hashes, notes = {}, [], {}, set(), []
    errors = []
    per_run = {}
    for s in shards:
        for k, v in s.stats.items():
            stats[k] = stats.get(k, 0) + v
        pr = per_run.setdefault(s.run.tag, {"evaluations": 0, "violations": 0})
        pr["evaluations"] += s.stats.get("evaluations", 0)
        pr["violations"] += len(s.viols)
        samples += s.samples[:3]
        notes += s.notes
        tagh = int.from_bytes(hashlib.sha256(s.run.tag.encode()).digest()[:8], "little")
        hashes |= {h ^ tagh for h in s.hashes}
        for key, detail in s.viols:
            viols.setdefault(s.run.tag + "/" + key, (s.run.tag, key, detail))
        if s.timeout:
            errors.append("%s shard %d did not finish in %d s" % (s.run.tag, s.index, s.run.timeout))
        elif not s.viols and (not s.done or s.rc != 0):
            errors.append("%s shard %d ended with status %s\n%s" % (s.run.tag, s.index, s.rc, s.err[-3000:]))

    known = known_findings(pid)
    hit = {}
    fresh = []
    for full, (tag, key, detail) in sorted(viols.items()):
        for e in known:
            if fnmatch.fnmatchcase(full, e["match"]):
                hit.setdefault(e["match"], []).append(full)
                break
        else:
            fresh.append((full, tag, key, detail))
    for e in known:
        if e["match"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    evals = stats.pop("evaluations", 0)
    # spread the samples over the runs
    step = max(1, len(samples) // 12)
    samples = samples[::step][:12]
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": check.rule, "samples": samples or ["none"],
           "per_run": per_run, "monitor_counters": stats, "build_s": round(t_build, 1),
           "known_findings_observed": sorted(hit), "notes": notes[:20]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None and "--no-evidence" not in argv:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, build %.0f s, total %.0f s" %
          (pid, tier, seed, evals, len(hashes), t_build, time.time() - t0))
    for tag in per_run:
        walls = [s.wall for s in shards if s.run.tag == tag]
        print("  run %-28s %9d evaluations, %d shards, longest %.1f s" %
              (tag, per_run[tag]["evaluations"], len(walls), max(walls)))
    if "--times" in argv:
        for n, t in sorted(log, key=lambda x: -x[1])[:14]:
            print("  compiled %-34s %6.1f s" % (n, t))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        for i, (full, tag, key, detail) in enumerate(fresh[:40]):
            path = os.path.join(REPLAY, "%s-%s.json" % (pid, hashlib.sha256(full.encode()).hexdigest()[:12]))
            case = key
            for pre in ("crash:",):
                if case.startswith(pre):
                    case = case[len(pre):]
            with open(path, "w") as f:
                json.dump({"property": pid, "run": tag, "case": case, "key": full, "seed": seed, "tier": tier,
                           "detail": detail,
                           "how": "python3 /verif/vk/driver.py %s --replay %s" % (pid, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (full, detail[:600]))
        if len(fresh) > 40:
            print("  ... and %d more" % (len(fresh) - 40))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR: " + e)
        return 2
    if only is None and evals < check.min_evals:
        print("ERROR: only %d evaluations were observed (at least %d expected)" % (evals, check.min_evals))
        return 2
    return 0


def main():
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.path.insert(0, os.path.join(VERIF, "vk"))
    import specs
    pid = sys.argv[1]
    try:
        sys.exit(run_check(specs.CHECKS[pid], sys.argv[2:]))
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    sys.modules["driver"] = sys.modules["__main__"]
    main()
