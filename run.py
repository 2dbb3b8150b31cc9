#!/usr/bin/env python3
"""Build /repo's working tree with a property's program, run it, write the evidence.

  run.py C07                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py C07 --thorough      the thorough tier
  run.py --replay FILE       run a replay file again
  run.py --build             compile everything (nothing is run)
Options for development: --clause NAME, --scale X, --seed N, --keep-going.

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check could not run.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = int(os.environ.get("VERIF_JOBS", 0)) or max(2, min(16, os.cpu_count() or 8))

BASE_DEFS = ["THIN_TARGET_APPROXIMATION", "STORE_SPLINES", "REACTIONS", "ET_CALCULATED_INDEX"]
OPT = ["-std=c++17", "-O2", "-DNDEBUG", "-g0", "-w", "-ffp-contract=off"]
SAN = ["-std=c++17", "-O1", "-DNDEBUG", "-g", "-w", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=float-cast-overflow,float-divide-by-zero",
       "-D_GLIBCXX_ASSERTIONS"]


class Lib:
    """One build of the library: compiler, flags, build_config.h defines."""
    def __init__(self, name, cxx="g++", flags=OPT, defs=BASE_DEFS, extra=()):
        self.name, self.cxx, self.flags, self.defs, self.extra = name, cxx, list(flags), list(defs), list(extra)


STD = Lib("std")
ASAN = Lib("asan", flags=SAN)


PIC = OPT + ["-fPIC", "-fvisibility=hidden"]
VARIANTS = {  # shared objects with other build options, for C29
    "std": Lib("std", flags=PIC),
    "nothin": Lib("nothin", flags=PIC, defs=[d for d in BASE_DEFS if d != "THIN_TARGET_APPROXIMATION"]),
    "nosplines": Lib("nosplines", flags=PIC, defs=[d for d in BASE_DEFS if d != "STORE_SPLINES"]),
    "noreactions": Lib("noreactions", flags=PIC, defs=[d for d in BASE_DEFS if d != "REACTIONS"]),
    "bare": Lib("bare", flags=PIC, defs=[]),
    "calculated": Lib("calculated", flags=PIC + ["-DVETABLE"]),
    "search": Lib("search", flags=PIC, defs=[d for d in BASE_DEFS if d != "ET_CALCULATED_INDEX"]),
}


FILLED = {  # uninitialised variables and memory with different contents, for C28
    "zero": Lib("zero", flags=PIC + ["-ftrivial-auto-var-init=zero", "-DVERIF_FILL=0"]),
    "pattern": Lib("pattern", flags=PIC + ["-ftrivial-auto-var-init=pattern", "-DVERIF_FILL=0x7b"]),
}


FUZZ = Lib("fuzz", cxx="clang++-18", flags=["-std=c++17", "-O1", "-DNDEBUG", "-g", "-w", "-fno-omit-frame-pointer", "-DVERIF_FUZZ",
           "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
           "-fno-sanitize=float-cast-overflow,float-divide-by-zero", "-D_GLIBCXX_ASSERTIONS"])


class Prop:
    def __init__(self, id, lib=STD, extra=(), variants=(), hang=120, fuzz_runs=0):
        self.id, self.lib, self.extra, self.variants, self.hang, self.fuzz_runs = id, lib, list(extra), dict(variants), hang, fuzz_runs


PROPS = {}


def add(id, **k):
    if os.path.exists(os.path.join(HARNESS, id.lower() + ".cpp")):
        PROPS[id] = Prop(id, **k)


for n in range(1, 27):
    add("C%02d" % n)
add("C27", extra=[("calculator_main.cpp", STD)])
add("C28", lib=ASAN, hang=20, variants=FILLED, fuzz_runs=10000)
add("C29", variants=VARIANTS)
add("C30")
add("C31")


# ---- building ---------------------------------------------------------------------
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(*dirs):
    parts = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, d), read(p)]
    return sha(*parts)


class BuildError(Exception):
    pass


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def config_dir(defs):
    d = os.path.join(BUILD, "cfg-" + sha(*defs))
    path = os.path.join(d, "catima", "build_config.h")
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write("#ifndef BUILD_CONFIG_H\n#define BUILD_CONFIG_H\n")
            for x in defs:
                f.write("#define %s\n" % x)
            f.write("#endif\n")
        os.rename(tmp, path)
    return d


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.repo_headers = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "bin"))
        self.own_headers = tree_hash(HARNESS)
        self.programs = [read(os.path.join(REPO, d, f)) for d in ("bin", "utils") if os.path.isdir(os.path.join(REPO, d))
                         for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cpp")]  # included by some checks
        self.pool = ThreadPoolExecutor(JOBS)

    def obj(self, lib, src, own):
        flags = lib.flags + lib.extra
        inc = ["-I", config_dir(lib.defs), "-I", os.path.join(REPO, "include")]
        if own:
            inc += ["-I", HARNESS, "-I", os.path.join(REPO, "bin"), "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "utils")]
        key = sha(lib.cxx, *flags, *lib.defs, self.repo_headers, self.own_headers if own else "", src, read(src),
                  *(self.programs if own else []))
        out = os.path.join(BUILD, os.path.basename(src) + "-" + key + ".o")

        def job():
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                run_cmd([lib.cxx] + flags + inc + ["-c", src, "-o", tmp])
                os.rename(tmp, out)
            return out
        return self.pool.submit(job)

    def lib_objs(self, lib):
        src = os.path.join(REPO, "src")
        return [self.obj(lib, os.path.join(src, f), False) for f in sorted(os.listdir(src)) if f.endswith(".cpp")]

    def program(self, p):
        futs = [self.obj(p.lib, os.path.join(HARNESS, p.id.lower() + ".cpp"), True)]
        for x, l in p.extra:
            futs.append(self.obj(l, os.path.join(HARNESS, x), True))
        futs.append(self.obj(Lib("data"), os.path.join(HARNESS, "ref_data.cpp"), True))
        futs += self.lib_objs(p.lib)
        shared = {}
        for name, l in p.variants.items():
            shared[name] = [self.obj(l, os.path.join(HARNESS, "lib_variant.cpp"), True)] + self.lib_objs(l)
        return futs, shared

    def output(self, name, cmd, objs):
        out = os.path.join(BUILD, name + "-" + sha(*objs))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            run_cmd(cmd + objs + ["-lpthread", "-ldl", "-o", tmp])
            os.rename(tmp, out)
        return out

    def link(self, p, jobs):
        """the program, and the text of VERIF_VARIANTS"""
        futs, shared = jobs
        so = [name + "=" + self.output(p.id + "-" + name + ".so", [p.lib.cxx, "-shared", "-Wl,-Bsymbolic"], [f.result() for f in fs])
              for name, fs in shared.items()]
        san = [f for f in p.lib.flags if f.startswith("-fsanitize=")]
        os.environ["VERIF_VARIANTS"] = ":".join(so)
        return self.output(p.id, [p.lib.cxx] + san, [f.result() for f in futs])

    def build(self, p):
        return self.link(p, self.program(p))

    def fuzzer(self, p):
        objs = [self.obj(FUZZ, os.path.join(HARNESS, p.id.lower() + ".cpp"), True), self.obj(Lib("data"), os.path.join(HARNESS, "ref_data.cpp"), True)]
        return self.output(p.id + "-fuzz", [FUZZ.cxx, "-fsanitize=fuzzer,address,undefined"], [f.result() for f in objs + self.lib_objs(FUZZ)])


# ---- known findings -----------------------------------------------------------------
def known_findings(pid):
    """lines 'known: property=<id> key=<key> <what fails>'"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                r[w[2][4:]] = w[3]
    return r


# ---- running --------------------------------------------------------------------------
def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return e


def fuzz(p, seed, replays):
    """coverage-guided fuzzing of the same clauses: (executions, coverage points, replay file or None)"""
    exe = Builder().fuzzer(p)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        ps = []
        for i in range(JOBS):
            d = os.path.join(tmp, "corpus%d" % i)
            os.mkdir(d)
            log = open(os.path.join(tmp, "log%d" % i), "wb")
            ps.append(subprocess.Popen([exe, "-runs=%d" % p.fuzz_runs, "-seed=%d" % (int(seed) * 64 + i + 1), "-timeout=%d" % p.hang, "-max_len=1024", "-len_control=0",
                                        "-rss_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=" + os.path.join(tmp, "found%d-" % i), d],
                                       stdout=log, stderr=log, env=env(), cwd=tmp))
        for x in ps:
            x.wait()
        runs, cov, found = 0, 0, None
        for i in range(JOBS):
            for line in read(os.path.join(tmp, "log%d" % i)).decode(errors="replace").splitlines():
                w = line.split()
                if "cov:" in w:
                    cov = max(cov, int(w[w.index("cov:") + 1]))
                if line.startswith("stat::number_of_executed_units:"):
                    runs += int(w[-1])
        for f in sorted(os.listdir(tmp)):
            if f.startswith("found") and found is None:
                path = os.path.join(tmp, f)
                r = subprocess.run([exe, "-timeout=%d" % p.hang, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=tmp)
                if r.returncode:
                    print("fuzzing found:\n" + r.stdout.decode(errors="replace")[-3000:])
                    found = os.path.join(replays, p.id + "-fuzz.json")
                    with open(found, "w") as g:
                        json.dump({"property": p.id, "clause": "fuzz", "bytes": read(path).hex()}, g)
                        g.write("\n")
        return runs, cov, found
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(p, a):
    t0 = time.time()
    tier = "thorough" if a.thorough else a.tier
    try:
        exe = Builder().build(p)
    except BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    built = time.time() - t0
    known = known_findings(p.id)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        out = os.path.join(tmp, "out.json")
        cmd = [exe, "--tier", tier, "--seed", str(a.seed), "--out", out, "--replays", replays, "--tmp", tmp, "--jobs", str(JOBS), "--hang", str(p.hang)]
        for k in known:
            cmd += ["--known", k]
        if a.clause:
            cmd += ["--clause", a.clause]
        if a.scale:
            cmd += ["--scale", str(a.scale)]
        if a.keep_going:
            cmd += ["--keep-going"]
        r = subprocess.run(cmd, env=env(), cwd=tmp)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("the program of %s ended with status %d" % (p.id, r.returncode))
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cl = res["clauses"]
    if p.fuzz_runs and tier == "thorough" and not a.clause:
        try:
            runs, cov, found = fuzz(p, a.seed, replays)
        except BuildError as e:
            print("build failed:\n" + str(e))
            return 2
        print("%s/fuzz: %d executions, %d coverage points%s" % (p.id, runs, cov, "  ** VIOLATED **" if found else ""))
        cl.append({"name": "fuzz", "cases": runs, "skipped": 0, "comparisons": 0, "nontrivial": cov, "distinct_nontrivial": cov, "known": {},
                   "labels": {}, "wall_s": 0, "samples": [], "violated": bool(found), "replay": found, "unreproduced": False,
                   "rule": "coverage-guided fuzzing (libFuzzer) of the other clauses; non-trivial: counted as coverage points reached"})
    viol = [c for c in cl if c["violated"]]
    seen = {}
    for c in cl:
        seen.update(c["known"])
    ev = {
        "property": p.id, "tier": tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": sum(c["cases"] for c in cl),
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in cl),
            "rule": " | ".join("%s: %s" % (c["name"], c["rule"]) for c in cl),
            "samples": ["%s: %s" % (c["name"], s) for c in cl for s in c["samples"]],
            "comparisons": sum(c["comparisons"] for c in cl),
            "skipped_cases": sum(c["skipped"] for c in cl),
            "clauses": [{k: c[k] for k in ("name", "cases", "skipped", "comparisons", "nontrivial", "distinct_nontrivial", "labels", "wall_s")} for c in cl],
            "known_findings_seen": sorted(seen),
        },
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 2),
    }
    if any(c["unreproduced"] for c in cl):
        ev["assumptions"] = ["a failure that did not reproduce in a separate process was not counted: " +
                             ", ".join(c["name"] for c in cl if c["unreproduced"])]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", p.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (p.id, known[k]))
    for c in viol:
        print("VIOLATION property=%s replay=%s" % (p.id, c["replay"]))
    print("%s %s seed %s: %d cases, %d comparisons, build %.1f s, total %.1f s" % (
        p.id, tier, a.seed, ev["coverage"]["evaluations"], ev["coverage"]["comparisons"], built, time.time() - t0))
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    p = PROPS[d["property"]]
    try:
        exe = Builder().fuzzer(p) if "bytes" in d else Builder().build(p)
    except BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        cmd = [exe, "--tmp", tmp, "--hang", str(p.hang), "--replay-clause", d["clause"], "--replay-choices", ",".join(map(str, d.get("choices", [])))]
        if "seeds" in d:
            cmd += ["--replay-seeds", ",".join(map(str, d["seeds"]))]
        for k in known_findings(p.id):
            cmd += ["--known", k]
        if "bytes" in d:
            with open(os.path.join(tmp, "bytes"), "wb") as f:
                f.write(bytes.fromhex(d["bytes"]))
            cmd = [exe, "-timeout=%d" % p.hang, "bytes"]
        r = subprocess.run(cmd, env=env(), cwd=tmp)
        if "bytes" in d and r.returncode:
            r.returncode = 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (p.id, path))
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1") or "1")
    ap.add_argument("--clause")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.build:
        b = Builder()
        try:
            todo = [(p, b.program(p)) for p in PROPS.values()]
            for p, jobs in todo:
                b.link(p, jobs)
        except BuildError as e:
            print("build failed:\n" + str(e))
            return 2
        return 0
    if a.property not in PROPS:
        print("unknown property", a.property)
        return 2
    return check(PROPS[a.property], a)


if __name__ == "__main__":
    sys.exit(main())
