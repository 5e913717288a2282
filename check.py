#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree and run it.

usage: check.py ID [quick|thorough] [--seed N] [--law NAME] [--scale X] [--flavour F]
       check.py ID --replay FILE

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line on
stdout.  Exit 2: the check could not give an answer (e.g. the tree does not
compile).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "planner", "src")
BUILD = os.path.join(VERIF, ".build")
EXCLUDE = {"core/log.cpp", "debug/profiler.cpp"}

COMMON = ["-std=c++17", "-include", "cassert", "-include", "algorithm", "-DPP_ENABLE_ASSERT", "-UNDEBUG",
          "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + SRC, "-I" + os.path.join(VERIF, "engine")]
FLAVOURS = {
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "fast": ("g++", ["-O2", "-g1"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"]),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
ENV["TMPDIR"] = os.environ.get("TMPDIR", "/tmp")


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    out = []
    for root, _, files in os.walk(SRC):
        for f in files:
            if f.endswith((".cpp", ".cc", ".cxx")):
                rel = os.path.relpath(os.path.join(root, f), SRC)
                if rel not in EXCLUDE:
                    out.append(rel)
    return sorted(out)


def headers_digest():
    h = hashlib.sha256()
    for base in (SRC, os.path.join(VERIF, "engine"), os.path.join(VERIF, "props")):
        for root, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl", ".tpp", ".ipp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0" + read(p))
    return h.hexdigest()


def compile_one(job):
    cc, flags, src, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return None


def build(pid, flavour, fuzz_main=False):
    cc, fl = FLAVOURS[flavour]
    flags = COMMON + fl
    hd = headers_digest()
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs = []

    def add(src):
        key = hashlib.sha256(("\0".join([cc] + flags) + hd).encode() + src.encode() + read(src)).hexdigest()[:24]
        obj = os.path.join(odir, os.path.basename(src) + "." + flavour + "." + key + ".o")
        jobs.append((cc, flags, src, obj))
        return obj

    psrc = os.path.join(VERIF, "props", pid + ".cpp")
    ldflags = []
    m = re.search(rb"^// python: (\S+)", read(psrc), re.M)
    extra = []
    if m:
        # the property embeds Python and the module built from these sources
        flags = flags + ["-I" + sysconfig.get_paths()["include"]]
        ldflags = ["-L" + sysconfig.get_config_var("LIBDIR"), "-lpython" + sysconfig.get_config_var("LDVERSION"), "-lm", "-ldl"]
        extra = sorted(glob.glob(os.path.join(REPO, m.group(1).decode(), "*.cpp")))
    m = re.search(rb"^// cflags: (.*)", read(psrc), re.M)
    if m:
        flags = flags + m.group(1).decode().split()
    m = re.search(rb"^// sources: (.*)", read(psrc), re.M)
    also = m.group(1).decode().split() if m else []
    prop = add(psrc)
    eng = [add(os.path.join(VERIF, "engine", "pbt_fuzz.cpp" if fuzz_main else "pbt_main.cpp")),
           add(os.path.join(VERIF, "engine", "random_device.cpp"))]
    lib = [add(p) for p in extra] + [add(os.path.join(SRC, r)) for r in lib_sources() + also]
    # the biggest translation units first
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + "\n".join(errs) + "\n")
        return None
    key = hashlib.sha256("\0".join([prop] + eng + lib).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s.%s.%s" % (pid, flavour, key))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "%s.%s.*" % (pid, flavour))):
            os.unlink(old)
        tmp = exe + ".tmp%d" % os.getpid()
        link = [cc] + fl + (["-fsanitize=fuzzer"] if fuzz_main else []) + [prop] + eng + lib + ["-o", tmp, "-lflann", "-llz4", "-lpthread"] + ldflags
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("LINK FAILED\n" + r.stdout[-6000:] + "\n")
            return None
        os.replace(tmp, exe)
    prune(odir)
    return exe


def prune(odir):
    """Keep the object cache bounded."""
    files = sorted(glob.glob(os.path.join(odir, "*.o")), key=lambda p: os.stat(p).st_mtime, reverse=True)
    for p in files[400:]:
        try:
            os.unlink(p)
        except OSError:
            pass


def known_findings(pid):
    """Lines of KNOWN_FINDINGS.txt: 'finding: property=<id> <text>' / 'fixed: property=...'"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def run(cmd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, env=ENV, errors="replace")
    lines = []
    for line in p.stdout:
        sys.stdout.write(line)
        sys.stdout.flush()
        lines.append(line)
    return p.wait(), lines


def fuzz_stage(pid, main_exe, seed, ev, seconds, replays):
    """Coverage guided search over the same laws (thorough tier)."""
    exe = build(pid, "fuzz", fuzz_main=True)
    if not exe:
        return 2
    laws = [l.split()[0] for l in subprocess.run([main_exe, "--list-laws"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.splitlines() if l.split()[1] == "1"]
    work = os.path.join(BUILD, "fuzz-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    stats = {}

    def one(law):
        d = os.path.join(work, law)
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(ENV)
        env["PBT_LAW"] = law
        r = subprocess.run([exe, "-seed=%d" % (seed if seed else 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20",
                            "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1", "-verbosity=0", "-artifact_prefix=" + d + "/",
                            os.path.join(d, "corpus")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", r.stdout)
        arts = [a for a in glob.glob(d + "/*") if os.path.isfile(a) and not os.path.basename(a).startswith(("slow-unit", "timeout", "oom"))]
        return law, int(m.group(1)) if m else 0, len(os.listdir(os.path.join(d, "corpus"))), arts

    rc = 0
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for law, execs, corpus, arts in ex.map(one, laws):
            stats[law] = {"executions": execs, "corpus": corpus}
            for a in arts:
                r, lines = run([main_exe, "--law", law, "--replay-bytes", a, "--replays", replays, "--flavour", "fuzz", "--seed", str(seed)])
                if r == 1:
                    rc = 1
    shutil.rmtree(work, ignore_errors=True)
    if os.path.exists(ev):
        e = json.load(open(ev))
        e["coverage"]["coverage_guided"] = stats
        if rc == 1:
            e["violations"] = e.get("violations", 0) + 1
        json.dump(e, open(ev, "w"), indent=1)
    print("  coverage-guided: " + ", ".join("%s %d execs" % (k, v["executions"]) for k, v in stats.items()))
    return rc


def optimised_stage(pid, tier, seed, ev, extra, replays):
    """The same laws, other cases, against the code as it is shipped: optimised, no sanitizer."""
    exe = build(pid, "fast")
    if not exe:
        return 2
    ev2 = os.path.join(BUILD, pid + ".optimised.json")
    rc, _ = run([exe, "--tier", tier, "--seed", str(seed + 7919), "--evidence", ev2, "--replays", replays, "--flavour", "fast"] + extra)
    if os.path.exists(ev) and os.path.exists(ev2):
        e, o = json.load(open(ev)), json.load(open(ev2))
        e["coverage"]["optimised_build"] = {k: o["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "oracle_checks", "time_cap_reached")}
        e["wall_s"] = e.get("wall_s", 0) + o.get("wall_s", 0)
        e["violations"] = e.get("violations", 0) + o.get("violations", 0)
        json.dump(e, open(ev, "w"), indent=1)
        os.unlink(ev2)
    return rc


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    extra, replay, flavour = [], None, None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--flavour":
            flavour = args.pop(0)
        elif a in ("--law", "--scale", "--cap", "--workers"):
            extra += [a, args.pop(0)]
    t0 = time.time()
    text = read(os.path.join(VERIF, "props", pid + ".cpp")).decode()
    m = re.search(r"^// flavour: (\w+)", text, re.M)
    flavour = flavour or (m.group(1) if m else "asan")
    if replay:
        for line in open(replay):
            if line.startswith("flavour ") and line.split()[1:] and line.split()[1] in FLAVOURS and line.split()[1] != "fuzz":
                flavour = line.split()[1]
    exe = build(pid, flavour)
    if not exe:
        return 2
    if replay:
        return run([exe, "--replay", replay])[0]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    replays = os.path.join(VERIF, "replays")
    tb = time.time() - t0
    if "--cap" not in extra:
        extra += ["--cap", "240" if tier == "quick" else "2400"]
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    rc, _ = run([exe, "--tier", tier, "--seed", str(seed), "--evidence", ev, "--replays", replays, "--flavour", flavour, "--wall-offset", "%.1f" % tb] + extra)
    if rc == 0 and flavour == "asan" and os.environ.get("VERIF_OPTIMISED", "1") != "0":
        if tier == "quick":
            extra = [x if i == 0 or extra[i - 1] != "--cap" else "60" for i, x in enumerate(extra)]
        if "--scale" not in extra:
            extra += ["--scale", "2"]
        rc = optimised_stage(pid, tier, seed, ev, extra, replays)
    if rc == 0 and tier == "thorough":
        rc = fuzz_stage(pid, exe, seed, ev, int(os.environ.get("VERIF_FUZZ_SECONDS", "120")), replays)
    print("%s %s: exit %d (build %.1f s, total %.1f s)" % (pid, tier, rc, tb, time.time() - t0))
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
