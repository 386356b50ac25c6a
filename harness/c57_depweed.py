"""C57: the dependency weeder is run on generated directories of dependency files and compared with an
independent reading of the makefile rules: kept files are echoed and untouched, invalid ones deleted."""
import os, random, re, shutil, subprocess, sys, time, hashlib

def gen(r, base):
    """one scratch directory: returns (arguments, expected output, files that must be gone, files that must stay)"""
    dirs = ["", "inc/", "a/b/", os.path.join(base, "abs") + "/"]
    for d in dirs: os.makedirs(os.path.join(base, d), exist_ok=True)
    have = []
    for i in range(r.randrange(1, 12)):
        n = r.choice(dirs) + r.choice(["h", "x-y", "Z_1", "t.a"]) + str(i) + r.choice([".h", ".hpp", ".c", ""])
        open(os.path.join(base, n), "w").close(); have.append(n)
    missing = ["gone%d.h" % i for i in range(3)] + ["inc/nope.h", "nodir/x.h", "inc", "a/b", os.path.join(base, "abs", "zz.h"), have[0] + "x"]
    for i in range(3): os.symlink("nowhere", os.path.join(base, "dangling%d" % i)) if not os.path.lexists(os.path.join(base, "dangling%d" % i)) else 0
    os.symlink(os.path.basename(have[0]), os.path.join(os.path.dirname(os.path.join(base, have[0])), "link")); 
    have.append(os.path.join(os.path.dirname(have[0]), "link")); missing.append("dangling1")
    args, out, gone, stay = [], [], [], []
    for i in range(r.randrange(1, 9)):
        n = r.choice(dirs) + "f%d.d" % i; p = os.path.join(base, n); kind = r.choice("vvvvmmmeotwnc")
        tgt = r.choice(["f%d.o", "obj-linux/f%d.o", "f%d.o f%d.d"]).replace("%d", str(i))
        deps = [r.choice(have) for _ in range(r.choice([0, 1, 3, 9, 40]))]
        if kind == "m": deps.insert(r.randrange(len(deps) + 1), r.choice(missing))
        sep = r.choice([" ", " \\\n ", "  ", " \\\n\t"]) if kind != "c" else " \\\n "
        text = tgt + r.choice([":", ": ", " : ", ": \\\n "]) + sep.join(deps) + r.choice(["\n", "", "\n\n", " \n"])
        ok = kind in "vco"
        if kind == "e": text = ""
        elif kind == "w": text = r.choice(["\n", " ", "\n\n \n", "\t\n"])
        elif kind == "t": text = tgt.split()[0][: r.randrange(1, len(tgt.split()[0]) + 1)]          # truncated before the colon
        if kind == "n": args.append(n); continue                                                    # does not exist: ignored
        open(p, "w").write(text); args.append(n)
        if ok: out.append(n); stay.append((n, text))
        else: gone.append(n)
    r.shuffle(args) if r.random() < .3 else 0
    out = [a for a in args if a in out]
    keep = [(h, None) for h in have]
    return args, out, gone, stay + keep

def run(REPO, wd, seed, shard, tier, job):
    t0 = time.time(); tool = os.path.join(REPO, "tools", "depweed.py"); cases = job["cases"] if tier == "quick" else job["tcases"]; rec = []; case = ""; log = ""; C = {}; sigs = set(); samples = []; rc = 0; viol = False
    for c in range(cases):
        if any(a.startswith("only=") and a != "only=%d" % c for a in job.get("args", [])): continue
        r = random.Random("%s/%s/%s" % (seed, shard, c)); case = "case %d" % c; base = os.path.join(wd, "c57_%s_%s_%d" % (job["name"], shard, c)); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        try:
            args, out, gone, stay = gen(r, base); other = os.path.join(base, "other.d"); open(other, "w").write("x")
            before = set(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs)
            p = subprocess.run(["python3", "-B", tool] + args, cwd=base, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            after = set(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs)
            bad = None
            want_gone = set(os.path.normpath(os.path.relpath(os.path.join(base, g), base)) for g in gone)
            if p.returncode or p.stderr: bad = ("depweed:fails", "exit status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:]))
            elif p.stdout.decode().split("\n")[:-1] != out: bad = ("depweed:output", "echoed %r instead of %r" % (p.stdout.decode(), out))
            elif before - after != want_gone: bad = ("depweed:deleted", "deleted %r instead of %r" % (sorted(before - after), sorted(want_gone)))
            elif after - before: bad = ("depweed:created", "created %r" % sorted(after - before))
            else:
                for n, t in stay:
                    if t is not None and open(os.path.join(base, n)).read() != t: bad = ("depweed:changed", "%s is changed" % n)
            C["evals"] = C.get("evals", 0) + 1; C["kept"] = C.get("kept", 0) + len(out); C["deleted"] = C.get("deleted", 0) + len(gone)
            sigs.add(hashlib.md5(repr((args, out, gone)).encode()).hexdigest()[:16])
            if c < 3: samples.append("case %d: %d files, %d valid, %d invalid" % (c, len(args), len(out), len(gone)))
            if bad:
                rec.append("@V %s | case %d: %s; arguments %r" % (bad[0], c, bad[1], args)); viol = True; log += "case %d %s: %s\n" % (c, bad[0], bad[1])
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if viol: break
    for k, v in C.items(): rec.append("@C %s %d" % (k, v))
    rec.append("@D " + " ".join(sigs)); rec += ["@S " + s for s in samples]; rec.append("@E")
    return dict(job=job["name"], shard=shard, rc=77 if viol else 0, log=log, rec="\n".join(rec), case=case, args=[], secs=time.time() - t0, timeout=0)
