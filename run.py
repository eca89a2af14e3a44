#!/usr/bin/env python3
"""Driver: builds a property's monitors from /repo's working tree, runs every section in its own process,
collects what the oracles observed, matches failures with known_findings.txt, writes the evidence file.
usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--section S --case C] (replay)"""
import sys, os, json, time, subprocess, hashlib, shutil, re, threading, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS
BUILD = os.path.join(HERE, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
CXX = {"asan": "g++", "tsan": "g++", "plain": "g++"}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def lib_sources():
    out = []
    for d in ("fem", "autodiff", "interval"):
        for root, _, files in os.walk(os.path.join(REPO, "anifem++", d)):
            out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)

class BuildError(Exception): pass

def compile_one(src, flags, cxx):
    """compile with a content cache: the key is the preprocessed text and the flags"""
    pp = sh([cxx, "-E", "-o", "-", src] + flags)
    if pp.returncode: raise BuildError("%s\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    key = hashlib.sha256(("|".join([cxx] + flags)).encode() + pp.stdout).hexdigest()[:32]
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        t = time.time()
        r = sh([cxx, "-c", "-o", tmp, src] + flags)
        if r.returncode: raise BuildError("%s\n%s" % (src, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
        if os.environ.get("VERIF_VERBOSE"): print("compiled %s %.1fs" % (os.path.basename(src), time.time() - t), file=sys.stderr)
    else: os.utime(obj)
    return obj

def trim_cache():
    try:
        fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        for f in fs:
            if total < 3e9: break
            total -= os.path.getsize(f); os.unlink(f)
    except OSError: pass

def build(prop, spec, tier):
    os.makedirs(CACHE, exist_ok=True)
    jobs, bins = {}, []
    with ThreadPoolExecutor(JOBS) as ex:
        for b in spec["bins"]:
            if b.get("tier") and b["tier"] != tier: continue
            for variant in b.get("variants", ["eigen"]):
                san = b.get("san", "asan")
                flags = ["-std=c++17", "-w", "-pthread", "-I" + REPO, "-I" + os.path.join(HERE, "harness")] + SAN[san] + b.get("flags", [])
                if variant == "eigen": flags += ["-DWITH_EIGEN", "-I/usr/include/eigen3"]
                if b.get("O"): flags = [b["O"] if f in ("-O1", "-O2") else f for f in flags]
                libflags = [f for f in flags if not f.startswith("-DSHARD")]
                srcs = [(os.path.join(HERE, "harness", s) if not os.path.isabs(s) else s, flags) for s in b["src"]]
                srcs.append((os.path.join(HERE, "harness", "mon.cpp"), libflags))
                for s, fl in b.get("shards", []): srcs.append((os.path.join(HERE, "harness", s), flags + fl))
                if b.get("lib", True):
                    only = b.get("libonly")
                    srcs += [(s, libflags) for s in lib_sources() if not only or any(o in s for o in only)]
                objs = []
                for s, fl in srcs:
                    k = (s, tuple(fl))
                    if k not in jobs: jobs[k] = ex.submit(compile_one, s, fl, CXX[san])
                    objs.append(jobs[k])
                bins.append((b, variant, san, objs))
        err = None
        for j in as_completed(jobs.values()):
            if j.exception() and not err: err = j.exception()
        if err: raise err
        out = []
        odir = os.path.join(BUILD, prop); os.makedirs(odir, exist_ok=True)
        def link(b, variant, san, objs):
            exe = os.path.join(odir, "%s_%s_%s" % (b["name"], variant, san))
            r = sh([CXX[san], "-o", exe] + [o.result() for o in objs] + LINK[san] + ["-pthread"] + b.get("ldflags", []))
            if r.returncode: raise BuildError(r.stderr.decode(errors="replace")[-4000:])
            return (b, variant, san, exe)
        for f in [ex.submit(link, *x) for x in bins]: out.append(f.result())
    trim_cache()
    return out

ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=96:report_signal_unsafe=0:second_deadlock_stack=1",
}

def classify(err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "asan-" + m.group(1)
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err); return "tsan-" + m.group(1).strip().replace(" ", "-")
    if "runtime error:" in err: return "ubsan"
    if "Assertion" in err: return "assert"
    if "terminate called" in err: return "terminate"
    return "abnormal"

def run_section(binrec, sec, tier, seed, case=None):
    b, variant, san, exe = binrec
    start, fails, stats, nrest = 0, [], [], 0
    env = dict(os.environ); env.update(ENV_SAN); env["VERIF_SCRATCH"] = os.path.join(BUILD, "scratch")
    tmo = min(b.get("timeout", 600), 240) if tier == "quick" else 3000
    cmd = [exe, "--section", sec, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else [])
    if case is not None: cmd += ["--case", str(case)]
    while True:
        c = cmd + (["--from", str(start)] if start else [])
        try:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=tmo)
            out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace"); err = "timeout after %ds" % tmo; rc = "timeout"
        died, got_stat = None, False
        for line in out.split("\n"):
            p = line.split("\t")
            if p[0] == "FAIL" and len(p) >= 4: fails.append(dict(key=p[1], case=p[2], msg=p[3], cmd=c))
            elif p[0] == "DIED" and len(p) >= 4: died = dict(key=p[1], case=p[2], msg=p[3])
            elif p[0] == "STAT":
                try: stats.append(json.loads(p[1])); got_stat = True
                except ValueError: pass
        if rc == 0 and got_stat: break
        kind = "hang" if rc == "timeout" else classify(err)
        sub = died["key"] if died and died["key"] else sec
        where = re.findall(r"(?:/repo|anifem\+\+)\S*?(\w+\.(?:h|inl|cpp):\d+)", err)
        fails.append(dict(key="died:%s:%s" % (sub, kind), case=died["case"] if died else "?",
                          msg="%s | %s | %s" % (died["msg"] if died else "?", kind, " ".join(where[:3])), cmd=c, err=err[-6000:]))
        if got_stat: break           # e.g. TSan exit code after a completed run
        m = re.match(r"case=(\d+)", died["case"]) if died else None
        nrest += 1
        if rc == "timeout" or not m or nrest > b.get("max_restarts", 12) or case is not None: break
        start = int(m.group(1)) + 1
    return (b["name"], variant, san, sec, fails, stats)

def load_known(prop):
    findings = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop: findings[m.group(2)] = m.group(3)
    except OSError: pass
    return findings

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--section"); ap.add_argument("--case", type=int); ap.add_argument("--bin")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    spec = CHECKS[prop]; t0 = time.time()
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try: bins = build(prop, spec, tier)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e)); sys.exit(2)
    t_build = time.time() - t0
    seeds = [a.seed] if tier == "quick" or a.section else [a.seed, a.seed + 1, a.seed + 2, a.seed + 3]
    tasks = []
    for br in bins:
        secs = sh([br[3], "--list"]).stdout.decode().split()
        for s in secs:
            if a.section and s != a.section: continue
            if br[0].get("sections") and not re.fullmatch(br[0]["sections"], s): continue
            if br[1] in br[0].get("skip", {}) and re.fullmatch(br[0]["skip"][br[1]], s): continue
            if a.bin and br[0]["name"] != a.bin: continue
            for sd in seeds: tasks.append((br, s, tier, sd, a.case))
    fails, stats = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(run_section, *t) for t in tasks]:
            name, variant, san, sec, fl, st = f.result()
            for x in fl: x.update(bin=name, variant=variant, san=san, sec=sec)
            fails += fl
            for s in st: s.update(bin=name, variant=variant, san=san)
            stats += st
    known = load_known(prop); seen = {}
    viol = []
    for x in fails:
        if x["key"] in known: seen.setdefault(x["key"], x)
        else: viol.append(x)
    # evidence
    observed, maxima, samples = {}, {}, []
    for s in stats:
        pre = "%s/%s/%s" % (s["bin"], s["variant"], s["section"])
        for k, v in s["observed"].items(): observed[k] = observed.get(k, 0) + v
        for k, v in s["maxima"].items(): maxima[k] = max(maxima.get(k, 0), v)
        for x in s["samples"]: samples.append(pre + ": " + x)
    # a case counted in several sections or builds counts once per section; the same section in two builds counts once
    dist = {}
    for s in stats: k = (s["section"],); dist[k] = max(dist.get(k, 0), s["distinct"])
    per = {}
    for s in stats:
        q = per.setdefault("%s[%s,%s]" % (s["section"], s["variant"], s["san"]), dict(evaluations=0, oracle_checks=0, distinct=0))
        q["evaluations"] += s["evals"]; q["oracle_checks"] += s["checks"]; q["distinct"] = max(q["distinct"], s["distinct"])
    ev = dict(property=prop, tier=tier, seed=a.seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=sum(s["evals"] for s in stats), distinct_nontrivial=sum(dist.values()),
                            rule=spec["rule"], samples=samples[:: max(1, len(samples) // 12)][:14] or ["(none)"],
                            oracle_checks=sum(s["checks"] for s in stats), observed_events=observed, maxima=maxima, sections=per,
                            seeds=seeds, builds=sorted({"%s/%s" % (x[1], x[2]) for x in bins}), build_s=round(t_build, 1),
                            known_findings_seen=sorted(seen)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    rc = 0
    need = spec.get("min_evals", 1)
    if not a.section and ev["coverage"]["evaluations"] < need and not viol:
        print("CHECK-ERROR property=%s too few evaluations: %d" % (prop, ev["coverage"]["evaluations"])); rc = 2
    if not a.section:
        json.dump(ev, open(ev_path, "w"), indent=1)
    for k in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s tier=%s seed=%d evaluations=%d distinct=%d oracle_checks=%d build=%.0fs wall=%.0fs sections=%d" % (
        prop, tier, a.seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["oracle_checks"], t_build, ev["wall_s"], len(tasks)))
    if viol:
        rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        bykey = {}
        for x in viol: bykey.setdefault((x["key"], x["variant"]), []).append(x)
        for n, ((k, v), xs) in enumerate(list(bykey.items())[:12]):
            x = xs[0]
            path = os.path.join(rdir, "%s_%d.txt" % (prop, n))
            c = re.sub(r"\D", "", x["case"]) if "case=" in x["case"] else ""
            sd = x["cmd"][x["cmd"].index("--seed") + 1]
            with open(path, "w") as f:
                f.write("property %s\nkey %s\nvariant %s san %s section %s %s\n%s\nreplay: python3 run.py %s --tier %s --seed %s --bin %s --section %s%s\n\n%s\n" % (
                    prop, k, v, x["san"], x["sec"], x["case"], x["msg"], prop, tier, sd, x["bin"], x["sec"], " --case " + c if c else "", x.get("err", "")))
            print("  %s [%s] %s %s" % (k, v, x["case"], x["msg"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    sys.exit(rc)
if __name__ == "__main__": main()
