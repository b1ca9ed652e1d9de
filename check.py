#!/usr/bin/env python3
"""Decides one property: builds /repo's current sources with the laws of that property and runs the
generated-input search.  usage: check.py ID [--tier quick|thorough] [--replay FILE] [--law NAME] [--seed N] [--scale X]
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: could not be built or run."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
COMMON = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fpermissive", "-w", "-Wno-changes-meaning", "-pthread",
          "-include", "cstring", "-include", "cstdlib", "-include", "cmath", "-include", "cxxabi.h",
          "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address", "-fsanitize=bounds,return,unreachable,integer-divide-by-zero",
          "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=trace-pc,trace-cmp"]

def tree_files():
    out = []
    for top in ("flut", "contrib"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build"))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".hpp", ".cpp", ".h", ".c", ".hh", ".inl", ".ipp"))]
    return out

def build(pid):
    law = os.path.join(HERE, "laws", pid + ".cpp")
    eng = [os.path.join(HERE, "engine", f) for f in ("pbt.hpp", "engine.cpp")]
    extra = [os.path.join(HERE, "laws", f) for f in sorted(os.listdir(os.path.join(HERE, "laws"))) if f.endswith(".hpp")]
    h = hashlib.sha256(" ".join([CXX] + COMMON + COV).encode())
    files = tree_files()
    for f in files + eng + extra:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    lib_key = h.hexdigest()[:20]
    h.update(open(law, "rb").read())
    exe_key = h.hexdigest()[:20]
    root = os.path.join(HERE, "build"); os.makedirs(root, exist_ok=True)
    exe = os.path.join(root, f"{pid}-{exe_key}")
    if os.path.exists(exe): return exe
    objdir = os.path.join(root, "lib-" + lib_key); os.makedirs(objdir, exist_ok=True)
    jobs = []
    inc = ["-I" + REPO, "-I" + os.path.join(HERE, "engine")]
    for f in files:
        rel = os.path.relpath(f, REPO)
        if f.endswith(".cpp") and rel.startswith("flut" + os.sep) and "experimental" not in rel:
            jobs.append((f, os.path.join(objdir, rel.replace(os.sep, "_") + ".o"), COV))
    jobs.append((eng[1], os.path.join(objdir, "engine.o"), []))
    jobs.append((law, exe + ".o", COV))
    def one(j):
        src, obj, cov = j
        if os.path.exists(obj): return ""
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX, *COMMON, *cov, *inc, "-c", src, "-o", tmp], capture_output=True, text=True)
        if p.returncode: return f"compiling {src} failed:\n{p.stderr[-4000:]}"
        os.replace(tmp, obj); return ""
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, jobs[::-1]) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n"); sys.exit(2)
    tmp = exe + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX, *COMMON, "-rdynamic", *[j[1] for j in jobs], "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write("linking failed:\n" + p.stderr[-4000:] + "\n"); sys.exit(2)
    os.replace(tmp, exe)
    os.remove(exe + ".o")
    # keep the cache small
    def age(x):
        try: return os.path.getmtime(x)
        except OSError: return 0 # another run removed it
    olds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=age)
    for o in [x for x in olds if os.path.isdir(x)][:-3]: shutil.rmtree(o, ignore_errors=True)
    for o in [x for x in olds if not os.path.isdir(x)][:-70]:
        try: os.remove(o)
        except OSError: pass
    return exe

def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) law=(\S+) (.*)", line)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--law"); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--scale", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    exe = build(a.id)
    t_build = time.time() - t0
    env = dict(os.environ, LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:max_allocation_size_mb=1024:allocator_may_return_null=0:detect_stack_use_after_return=0:detect_container_overflow=1:handle_abort=0",
               UBSAN_OPTIONS="print_stacktrace=0:exitcode=99")
    if a.replay: sys.exit(subprocess.run([exe, "--replay", a.replay], env=env).returncode)
    n_laws = max(1, len(subprocess.run([exe, "--list"], env=env, capture_output=True, text=True).stdout.split("\n")) - 1)
    scale = a.scale if a.scale else (1.0 if tier == "quick" else 20.0)
    out = exe + ".%d.json" % os.getpid()
    cmd = [exe, "--seed", str(a.seed), "--scale", str(scale), "--out", out, "--wall", str(600.0 / n_laws), "--jobs", str(min(8, os.cpu_count() or 8))]
    if a.law: cmd += ["--law", a.law]
    p = subprocess.run(cmd, env=env)
    res = json.load(open(out)) if os.path.exists(out) else {}
    rc = p.returncode
    law = None
    if os.path.exists(out + ".replay"):
        rep = json.load(open(out + ".replay")); law = rep["law"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        dest = os.path.join(HERE, "replays", f"{a.id}-{law}.json")
        shutil.move(out + ".replay", dest)
    if os.path.exists(out): os.remove(out)
    for l, what in known_findings(a.id): print(f"KNOWN-FINDING: property={a.id} {what}")
    if not a.no_evidence:
        ev = {"property": a.id, "tier": tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0), "rule": res.get("rule", ""),
                           "samples": res.get("samples", []), "nontrivial": res.get("nontrivial", 0), "laws": res.get("laws", {}), "workers_cut_short": res.get("cut_short_workers", 0),
                           "build_s": round(t_build, 2), "search_s": res.get("seconds", 0)},
              "assumptions": ["built with g++ and AddressSanitizer from /repo's working tree", "memory leaks are not judged"],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{a.id}.{os.getpid()}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(HERE, "evidence", a.id + ".json"))
    if rc == 1 and law:
        print(f"VIOLATION property={a.id} replay={dest}"); sys.exit(1)
    if rc == 0:
        if os.environ.get("VERIF_TIMES"): print({k: (v["cases"], round(v["worker_seconds"]/8,1)) for k, v in res.get("laws", {}).items()})
        print(f"OK property={a.id} cases={res.get('evaluations')} distinct_nontrivial={res.get('distinct_nontrivial')} wall={time.time()-t0:.1f}s"); sys.exit(0)
    sys.stderr.write(f"check {a.id}: engine ended with {rc} ({res.get('verdict')})\n"); sys.exit(2)

main()
