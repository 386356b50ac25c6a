#!/usr/bin/env python3
"""run.py PID [--tier quick|thorough] [--keep] [--only JOB]

Builds the library from /repo's working tree with instrumentation, runs the
workloads registered for PID in checks.py, reads what the monitors recorded,
matches violations against KNOWN_FINDINGS.txt and writes evidence/PID.json.
exit 0: held; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import argparse, hashlib, threading, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks as REG

INC = [f"-I{REPO}/inc/linux", f"-I{REPO}/src", f"-I{REPO}/src/hashtable", f"-I{REPO}/inc",
       "-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1", f"-I{HERE}/lib"]
UB = ("bounds,signed-integer-overflow,shift-exponent,integer-divide-by-zero,null,return,"
      "unreachable,vla-bound,bool,object-size,pointer-overflow,builtin,float-cast-overflow")
MODES = {
    # one sanitizer family per build
    "asan":  dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer", f"-fsanitize=address,{UB}",
                  "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope", "-DVH_ASAN=1"]),
    "gasan": dict(cc="gcc", cxx="g++", fl=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,signed-integer-overflow,object-size",
                  "-fno-sanitize-recover=all", "-DVH_ASAN=1"]),
    "tsan":  dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVH_TSAN=1"]),
    "tsand": dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard", "-DVH_TSAN=1", "-DVH_DELAY=1"]),
    "msan":  dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                  "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all", "-DVH_MSAN=1"]),
    # controlled scheduling: every block edge, load and store is a potential preemption point
    "fib":   dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer",
                  "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-DVH_FIB=1"]),
    "fiba":  dict(cc="clang", cxx="clang++", fl=["-O1", "-g", "-fno-omit-frame-pointer", f"-fsanitize=address,{UB}", "-fno-sanitize-recover=all",
                  "-fsanitize-address-use-after-return=never",
                  "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-DVH_FIB=1", "-DVH_ASAN=1"]),
    # free-running with randomly injected delays at the same points
    "delay": dict(cc="clang", cxx="clang++", fl=["-O2", "-g", "-fsanitize-coverage=trace-pc-guard", "-DVH_DELAY=1"]),
    "plain": dict(cc="gcc", cxx="g++", fl=["-O2", "-g"]),
    # the project's release configuration
    "rel":   dict(cc="gcc", cxx="g++", fl=["-O3", "-g", "-fno-ipa-reference", "-D__MAKE_OPTIMIZE__=1"]),
    "clang2": dict(cc="clang", cxx="clang++", fl=["-O2", "-g"]),
}
WARN = ["-w"]
LIBSRC = """src/mempool.c src/dirname.c src/fts.c src/splitargs.c src/escape.c src/unescape.c
 src/posix/mmap.cpp src/sysexception.cpp src/posix/syserror.cpp src/getopt_long.c src/error.c src/str2hex.c
 src/b64_encode.c src/b64_decode.c src/humanize.c src/strtosize.c src/posix/cmutex.c src/arena.c src/memmgr.c
 src/hexdump.c src/strunquote.c src/readpass.c src/uuid.c src/ulid.c src/mkdirhier.c src/parse-ip.c src/strcopy.c
 src/gstring.c src/gstring_var.c src/freadline.c src/rotatefile.c src/strsplit.c src/strsplit_csv.c src/strtrim.c
 src/pack.c src/progbar.c src/hashfunc/cityhash.c src/hashfunc/fasthash.c src/hashfunc/fnvhash.c
 src/hashfunc/hsieh_hash.c src/hashfunc/murmur3_hash.c src/hashfunc/siphash24.c src/hashfunc/xxhash.c
 src/hashfunc/yorrike.c src/prng/frand.c src/prng/romu-rand.c src/prng/xoroshiro.c src/prng/xorshift.c
 src/hashtable/bloom.c src/hashtable/bloom_marshal.c src/hashtable/fast-ht.c src/hashtable/hashtab.c
 src/hashtable/hashtab_iter.c src/hashtable/xorfilter.c src/hashtable/xorfilter_marshal.c
 src/daemon.c src/c_resolve.c src/posix/work.c src/posix/job.c src/posix/linux_cpu.c src/arc4random.c""".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class CheckError(Exception): pass

def compile_one(mode, src, obj, extra):
    m = MODES[mode]
    cxx = src.endswith((".cpp", ".cc"))
    cmd = [m["cxx"] if cxx else m["cc"], "-std=c++17" if cxx else "-std=gnu11", "-c", src, "-o", obj, *m["fl"], *WARN, *INC, *extra]
    # mutation campaigns only: keep objects whose sources and headers are unchanged
    oc = os.environ.get("VERIF_OBJCACHE")
    if oc:
        key = os.path.join(oc, hashlib.sha1(("\0".join(cmd[:4] + cmd[6:]) + hdrhash()).encode() + open(src, "rb").read()).hexdigest())
        if os.path.exists(key): shutil.copyfile(key, obj); return
    r = sh(cmd)
    if r.returncode: raise CheckError(f"compile failed: {' '.join(cmd)}\n{r.stdout[-3000:]}")
    if oc: shutil.copyfile(obj, key + f".{os.getpid()}.{threading.get_ident()}"); os.rename(key + f".{os.getpid()}.{threading.get_ident()}", key)

_hdr = []
def hdrhash():
    if not _hdr:
        h = hashlib.sha1()
        for top in (os.path.join(REPO, "inc"), os.path.join(REPO, "src"), os.path.join(HERE, "harness"), os.path.join(HERE, "lib")):
            for d, _, fs in sorted(os.walk(top)):
                for f in sorted(fs):
                    if f.endswith(".h"): h.update((os.path.join(d, f) + "\0").encode() + open(os.path.join(d, f), "rb").read())
        _hdr.append(h.hexdigest())
    return _hdr[0]

def build(pid, jobs, bdir, pool):
    """compile the library once per mode, then each job's harness"""
    futs, libs = [], {}
    for j in jobs:
        m = j["mode"]; key = (m, tuple(j.get("libflags", ())))
        if key in libs or j.get("nolib"): continue
        d = os.path.join(bdir, f"lib{len(libs)}-{m}"); os.makedirs(d, exist_ok=True)
        libs[key] = d
        for s in LIBSRC:
            p = os.path.join(REPO, s)
            if not os.path.exists(p): continue
            futs.append(pool.submit(compile_one, m, p, os.path.join(d, s.replace("/", "_") + ".o"), list(j.get("libflags", ()))))
    for n, j in enumerate(jobs):
        j["_objs"] = []
        for s in j["src"] + [os.path.join(REPO, x) for x in j.get("extra_src", [])]:
            p = s if os.path.isabs(s) else os.path.join(HERE, s)
            o = os.path.join(bdir, f"h{n}-" + os.path.basename(p) + ".o")
            j["_objs"].append(o)
            futs.append(pool.submit(compile_one, j["mode"], p, o, list(j.get("cflags", []))))
        rt = {"fib": "lib/fib.c", "fiba": "lib/fib.c", "delay": "lib/delay.c", "tsand": "lib/delay.c"}.get(j["mode"])
        if rt:
            o = os.path.join(bdir, f"h{n}-rt.o"); j["_objs"].append(o)
            def comp_rt(mode=j["mode"], rt=rt, o=o):
                r = sh(["clang", "-std=gnu11", "-O2", "-g", "-c", os.path.join(HERE, rt), "-o", o, f"-I{HERE}/lib", *(["-fsanitize=address", "-fsanitize-address-use-after-return=never", "-DVH_ASAN=1"] if mode == "fiba" else [])])
                if r.returncode: raise CheckError(r.stdout[-3000:])
            futs.append(pool.submit(comp_rt))
    err = None
    for f in futs:
        try: f.result()
        except CheckError as e: err = err or e
    if err: raise err
    for d in libs.values():
        r = sh(["sh", "-c", f"ar rcs {d}/lib.a {d}/*.o"])
        if r.returncode: raise CheckError(r.stdout)
    def link(n, j):
        m = MODES[j["mode"]]; exe = os.path.join(bdir, f"job{n}-{j['name']}")
        lib = [] if j.get("nolib") else [libs[(j["mode"], tuple(j.get("libflags", ())))] + "/lib.a"]
        wrap = ["-Wl," + ",".join(f"--wrap={w}" for w in j["wrap"])] if j.get("wrap") else []
        cmd = [m["cxx"], *m["fl"], "-o", exe, *j["_objs"], *lib, *wrap, "-lpthread", "-lm", *j.get("libs", [])]
        r = sh(cmd)
        if r.returncode: raise CheckError(f"link failed: {' '.join(cmd)}\n{r.stdout[-3000:]}")
        j["_exe"] = exe
    list(pool.map(lambda a: link(*a), enumerate(jobs)))

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+).*?((?:/[\w.+-]+)+):(\d+)|#\d+ (\S+) ((?:/[\w.+-]+)+):(\d+)")
def first_frame(text):
    best = None
    for m in FRAME.finditer(text):
        fn, path = m.group(1) or m.group(4), m.group(2) or m.group(5)
        if path.startswith(REPO + "/"): return f"{os.path.basename(path)}:{fn.split('(')[0]}"
        if best is None and "/harness/" in path: best = f"{os.path.basename(path)}:{fn.split('(')[0]}"
    return best or "?"

def classify(rc, out):
    """(key, detail) of an abnormal end seen by a sanitizer/abort monitor, or None"""
    for pat, name in ((r"ERROR: AddressSanitizer:? ([\w-]+)", "asan"), (r"ERROR: LeakSanitizer: (detected memory leaks)", "lsan"),
                      (r"WARNING: ThreadSanitizer: ([\w -]+?) \(", "tsan"), (r"ThreadSanitizer:? ([\w-]+)", "tsan"),
                      (r"WARNING: MemorySanitizer: ([\w-]+)", "msan"), (r"MemorySanitizer:? ([\w-]+)", "msan")):
        m = re.search(pat, out)
        if m:
            kind = m.group(1).replace(" ", "-")
            if kind == "ABRT" or "Assertion" in out and kind in ("ABRT",):
                a = re.search(r"Assertion `(.*?)' failed", out)
                kind = "abort" + (":" + a.group(1) if a else "")
            return f"{name}:{kind}@{first_frame(out[m.start():])}", out[m.start():m.start() + 600]
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", out)
    if m:
        what = re.sub(r"-?0x[0-9a-f]+|-?\d+", "N", m.group(3))[:80]
        return f"ubsan:{os.path.basename(m.group(1))}:{what}", m.group(0)
    a = re.search(r"([\w.-]+): Assertion `(.*?)' failed|(\w+): Assertion '(.*?)' failed", out)
    if a: return f"assert:{(a.group(2) or a.group(4))[:80]}", a.group(0)
    if rc < 0: return f"signal:{signal.Signals(-rc).name}", out[-400:]
    return None

ENVBASE = {
    "ASAN_OPTIONS": "detect_leaks=1:handle_abort=1:abort_on_error=0:exitcode=88:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                    "detect_stack_use_after_return=1:strict_string_checks=0:malloc_fill_byte=190:max_malloc_fill_size=65536:print_legend=0:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=88",
    "LSAN_OPTIONS": "exitcode=88:print_suppressions=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=88:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=88",
    "LC_ALL": "C", "TZ": "UTC",
}
NOASLR = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []

def run_shard(pid, j, shard, seed, tier, wd, factor=1):
    tag = f"{j['name']}-{shard}"
    outp, casep = os.path.join(wd, tag + ".out"), os.path.join(wd, tag + ".case")
    scr = os.path.join(wd, tag + ".d"); os.makedirs(scr, exist_ok=True)
    for f in (outp, casep):
        if os.path.exists(f): os.unlink(f)
    cases = j["cases"] if tier == "quick" else j.get("tcases", j["cases"] * 10)
    args = [f"seed={seed}", f"shard={shard}", f"cases={cases}", f"out={outp}", f"casefile={casep}", f"tmp={scr}",
            f"thorough={int(tier == 'thorough')}", *j.get("args", [])]
    if j.get("unpriv") and os.geteuid() == 0:
        os.chmod(wd, 0o755)
        for f in (outp, casep): open(f, "w").close(); os.chown(f, 65534, 65534)
        os.chown(scr, 65534, 65534)
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
    env.update(ENVBASE); env.update({"HOME": scr, "TMPDIR": scr}); env.update(j.get("env", {}))
    for k in ("ASAN_OPTIONS", "TSAN_OPTIONS"):
        if k + "+" in j.get("env", {}): env[k] += ":" + j["env"][k + "+"]; env.pop(k + "+", None)
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if j.get("unpriv") and os.geteuid() == 0:
            os.setgroups([]); os.setgid(65534); os.setuid(65534)
    cmd = [*NOASLR, *j.get("prefix", []), j["_exe"], *args]
    to = (j.get("timeout", 100) if tier == "quick" else j.get("ttimeout", 1500)) * factor
    if os.environ.get("VERIF_FAST"): to = min(to, int(os.environ["VERIF_FAST"]))
    logp = os.path.join(wd, tag + ".log")
    t0 = time.time()
    with open(logp, "w") as lf:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=pre, env=env, cwd=scr)
        try: rc = p.wait(timeout=to)
        except subprocess.TimeoutExpired: rc = None
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    text = open(logp, errors="replace").read()
    if len(text) > 400000: text = text[:200000] + text[-200000:]
    rec = open(outp, errors="replace").read() if os.path.exists(outp) else ""
    case = ""
    if os.path.exists(casep): case = open(casep, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    shutil.rmtree(scr, ignore_errors=True)
    return dict(job=j["name"], shard=shard, rc=rc, log=text, rec=rec, case=case, args=args, secs=time.time() - t0, timeout=to)

def load_known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)(?: match=/(.*?)/)? :: (.*)", l.strip())
            if m and m.group(1) == pid: out.append(dict(key=m.group(2), re=m.group(3), what=m.group(4), seen=0))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=None); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--job"); ap.add_argument("--seed", type=int); ap.add_argument("-v", action="store_true")
    ap.add_argument("--shard", type=int); ap.add_argument("--case", type=int)
    a = ap.parse_args()
    pid = a.pid
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    C = REG.CHECKS[pid]; t0 = time.time()
    jobs = [dict(x) for x in C["jobs"] if (not a.job or x["name"] == a.job) and (tier == "thorough" or not x.get("thorough_only"))]
    for x in jobs:
        if a.case is not None: x["args"] = list(x.get("args", [])) + [f"only={a.case}"]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(HERE, "build")); os.chmod(bdir, 0o755)
    wd = tempfile.mkdtemp(prefix=f"vh-{pid}-"); os.chmod(wd, 0o755)
    ncpu = os.cpu_count() or 4
    viols, results, errors = [], [], []
    try:
        with cf.ThreadPoolExecutor(ncpu) as pool: build(pid, [x for x in jobs if not x.get("py")], bdir, pool)
        tb = time.time() - t0
        todo = []
        for j in jobs:
            n = j.get("shards", 4)
            for s in (range(n) if a.shard is None else [a.shard]): todo.append((j, s))
        bad = []; known0 = load_known(pid)
        def new_violation(r):
            vs = [((l[3:].split(" |", 1) + [""])[:2]) for l in r["rec"].splitlines() if l.startswith("@V ")]
            c = classify(r["rc"], r["log"]) if r["rc"] not in (0, None, 77, 78) else None
            if c: vs.append(c)
            return any(not any(k["key"] == v[0].strip() and (not k["re"] or re.search(k["re"], v[1])) for k in known0) for v in vs)
        def one(js):
            j, s = js
            if j.get("py"): return j, j["py"](REPO, wd, seed, s, tier, j)
            if bad and os.environ.get("VERIF_FAST"): return j, dict(job=j["name"], shard=s, rc=0, log="", rec="@E\n", case="", args=[], secs=0, timeout=0)
            r = run_shard(pid, j, s, seed, tier, wd)
            if r["rc"] is None and os.environ.get("VERIF_FAST"): bad.append(1)
            if r["rc"] is None and not bad: r = run_shard(pid, j, s, seed, tier, wd, 1.5); r["retried"] = 1
            if new_violation(r): bad.append(1)
            return j, r
        # jobs that need the cores for themselves (free-running threads) run with fewer workers
        for group in (0, 1):
            g = [x for x in todo if bool(x[0].get("alone")) == bool(group)]
            if not g: continue
            if bad and group: print("note: violation already recorded, free-running jobs skipped"); continue
            with cf.ThreadPoolExecutor(ncpu if not group else max(1, ncpu // 4)) as pool:
                results += list(pool.map(one, g))
    except CheckError as e:
        print(f"CHECK-ERROR {pid}: {e}"); shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(wd, ignore_errors=True); return 2
    ctr, sigs, samples, jobinfo = {}, set(), [], {}
    for j, r in results:
        ji = jobinfo.setdefault(r["job"], dict(mode=j.get("mode", "py"), shards=0, secs=0.0)); ji["shards"] += 1; ji["secs"] = round(max(ji["secs"], r["secs"]), 2)
        ended = False
        for l in r["rec"].splitlines():
            if l.startswith("@C "):
                k, v = l[3:].rsplit(" ", 1); ctr[k] = ctr.get(k, 0) + int(v)
            elif l.startswith("@D "): sigs.update(l[3:].split())
            elif l.startswith("@S "):
                if len(samples) < 12: samples.append(l[3:][:600])
            elif l.startswith("@V "):
                k, d = (l[3:].split(" |", 1) + [""])[:2]; viols.append(dict(key=k.strip(), detail=d.strip(), r=r))
            elif l.startswith("@X "): errors.append(f"{r['job']}/{r['shard']}: harness error: {l[3:]}")
            elif l.startswith("@E"): ended = True
        rc = r["rc"]
        if rc is None:
            if j.get("hang", True): viols.append(dict(key=f"hang:{r['job']}", detail=f"no end within {r['timeout']} s (twice) in {r['case'][:1500]}", r=r))
            else: errors.append(f"{r['job']}/{r['shard']}: timed out (inconclusive)")
        elif rc not in (0, 77, 78):
            k = classify(rc, r["log"])
            if k: viols.append(dict(key=k[0], detail=k[1].replace("\n", " ")[:700] + " || " + r["case"][:1500], r=r))
            elif not any(v["r"] is r for v in viols): errors.append(f"{r['job']}/{r['shard']}: exit {rc} without a report\n{r['log'][-1500:]}\ncase {r['case'][:500]}")
        elif rc == 0 and not ended: errors.append(f"{r['job']}/{r['shard']}: ended early without a report (exit 0) {r['case'][:300]}")
        elif rc == 77 and not any(v["r"] is r for v in viols): errors.append(f"{r['job']}/{r['shard']}: exit 77 without @V")
        if a.v: print(f"-- {r['job']}/{r['shard']} rc={rc} {r['secs']:.1f}s\n{r['log'][-1500:]}")
    known = load_known(pid); newv = {}
    for v in viols:
        hit = None
        for k in known:
            if k["key"] == v["key"] and (not k["re"] or re.search(k["re"], v["detail"])): hit = k; break
        if hit: hit["seen"] += 1
        else: newv.setdefault(v["key"], []).append(v)
    for k in known:
        if k["seen"]: print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else: print(f"note: listed finding not observed in this run: {k['what']}")
    rdir = os.path.join(HERE, "evidence", "replay"); rc = 0
    if newv:
        rc = 1; os.makedirs(rdir, exist_ok=True)
        for n, (k, vs) in enumerate(newv.items()):
            v = vs[0]; r = v["r"]; path = os.path.join(rdir, f"{pid}-{seed}-{n}.txt")
            m = re.match(r"case (\d+):", r["case"])
            with open(path, "w") as f:
                f.write(f"property {pid}\nkey {k}\nseen {len(vs)} time(s)\ndetail {v['detail']}\n"
                        f"rerun: python3 run.py {pid} --tier {tier} --seed {seed} --job {r['job']} --shard {r['shard']}\n"
                        f"last case: {r['case'][:20000]}\nargs {r['args']}\n--- log ---\n{r['log'][:20000]}\n")
            if n < 10: print(f"VIOLATION property={pid} replay={path}\n  key={k}\n  {v['detail'][:700]}")
    cov = dict(evaluations=ctr.get("evals", 0), distinct_nontrivial=len(sigs), rule=C["rule"], samples=samples or ["(none)"],
               observed={k: v for k, v in sorted(ctr.items()) if k != "evals"}, jobs=jobinfo,
               known_findings_seen=[k["key"] for k in known if k["seen"]])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=C.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=sum(len(x) for x in newv.values()))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
    if not a.keep: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(wd, ignore_errors=True)
    else: print("kept", bdir, wd)
    if rc == 0:
        if not errors and (cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 2): errors.append("nothing observed")
        for k, lo in C.get("floors", {}).items():
            if not errors and not a.job and a.case is None and ctr.get(k, 0) < lo: errors.append(f"observed too little: {k}={ctr.get(k, 0)} < {lo}")
    for e in errors[:6]: print(f"CHECK-ERROR {pid}: {e}")
    if errors and rc == 0: rc = 2
    print(f"{pid} {tier} seed={seed}: {'held' if rc == 0 else 'VIOLATED' if rc == 1 else 'ERROR'}; {cov['evaluations']} evaluations, {len(sigs)} distinct, build {tb:.1f}s, {ev['wall_s']}s")
    return rc

if __name__ == "__main__":
    sys.exit(main())
