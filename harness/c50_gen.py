"""C50: specifications are generated, turned into parsers by the real generator, compiled under
ASan+UBSan and run on generated argument vectors; every member of the result structure, the return
value, the callbacks, the remaining arguments and the help text are compared with an independent
interpretation of the specification."""
import os, random, re, subprocess, sys, time, hashlib, struct

U64 = (1 << 64) - 1
INTS = {"short": (-2**15, 2**15 - 1, "short"), "int": (-2**31, 2**31 - 1, "int"), "long": (-2**63, 2**63 - 1, "long"),
        "ushort": (0, 2**16 - 1, "unsigned short"), "uint": (0, 2**32 - 1, "unsigned int"), "ulong": (0, 2**64 - 1, "unsigned long")}
MULT = {"": 1, "b": 1, "B": 1, "k": 1 << 10, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30, "T": 1 << 40, "P": 1 << 50}
WORDS = ("alpha beta gamma delta use the number of files directory size print level when given (if any) a,b x/y 50% "
         "don`t %s %d limit: <n> {z} #5 ;semi end").split()

class Opt: pass

def cnum(s):
    """(value, rest) of what strtoul(s, &rest, 0) reads from a string that starts with a digit"""
    m = re.match(r"0[xX][0-9a-fA-F]+", s)
    if m: return int(m.group(), 16), s[m.end():]
    m = re.match(r"0[0-7]*", s)
    if m: return int(m.group(), 8), s[m.end():]
    m = re.match(r"[0-9]+", s)
    return int(m.group()), s[m.end():]

def fmtnum(r, v):
    a = abs(v); s = r.choice(["%d", "%d", "0x%x", "0x%X", "0%o"]) % a
    return ("-" if v < 0 else "") + s

def text(r, n, quote=None):
    w = [r.choice(WORDS) for _ in range(n)]
    if quote and r.random() < .5: w.insert(r.randrange(len(w) + 1), {"'": '"q"', '"': "it's"}[quote])
    return " ".join(w)

def gen_spec(r):
    S = Opt(); S.opts = []; S.dirs = []
    S.nohelp = r.random() < .25; S.nover = r.random() < .25; S.noperm = r.random() < .25
    S.prefix = r.choice([None, None, "zz", "foo_opt", "P9"]); S.cmdprefix = r.choice([None, None, "cmd", "q_x"])
    S.eff = S.prefix or S.cmdprefix or "opt"
    S.usage = r.random() < .25
    S.desc = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        q = r.choice("'\""); S.desc.append((q, text(r, r.randrange(1, 14), q)))
    longs, shorts, vars_ = set() if S.nohelp else {"help"}, set() if S.nohelp else {"h"}, set() if S.nohelp else {"help"}
    if not S.nover: longs.add("version"); shorts.add("V"); vars_.add("version")
    n = r.choice([0, 1, 2, 5, 9, 14]); onlyshort = r.random() < .12
    for _ in range(n):
        o = Opt(); o.ph = r.random() < .15
        o.type = r.choice(list(INTS) * 2 + ["size", "size", "size", "float", "double", "string", "string", "string", "bool", "flag", "boolean", "callback", "callback_arg"])
        if o.ph: o.type = r.choice(list(INTS) + ["size", "float", "string", "bool"])
        o.kind = "int" if o.type in INTS else "float" if o.type in ("float", "double") else "bool" if o.type in ("bool", "flag", "boolean") else o.type
        o.arg = o.kind in ("int", "size", "float", "string", "callback_arg")
        o.opt = o.arg and not o.ph and r.random() < .25
        while 1:
            o.long = None if o.ph or onlyshort or r.random() < .2 else r.choice(["", "", "x-"]) + "".join(r.choice("abcdefg") for _ in range(r.randrange(2, 7))) + r.choice(["", "", "-size", "_2", "-dir"])
            o.short = None if o.ph or r.random() < .3 else r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789")
            o.var = r.choice(["v", "n_", "the", "X"]) + "".join(r.choice("abcdef0123") for _ in range(r.randrange(1, 6))) if r.random() < .93 else r.choice(["help", "version", "argc_", "opt_", "errs_"])
            if not o.ph and not o.long and not o.short: continue
            if o.long in longs or o.short in shorts or o.var in vars_ or o.var + "_present" in vars_: continue
            break
        if o.long: longs.add(o.long)
        if o.short: shorts.add(o.short)
        vars_.add(o.var); vars_.add(o.var + "_present")
        # default: value as the program sees it, text as the specification has it
        o.defq = None
        if o.kind == "int":
            lo, hi, _ = INTS[o.type]
            v = 0 if o.opt else r.choice([0, 1, 7, 42, hi, hi - 1, lo + 1, r.randrange(lo, hi + 1), r.randrange(0, 1000)])
            o.val = v; o.deft = fmtnum(r, v) if v >= 0 else str(v)
        elif o.kind == "size":
            s = r.choice(["", "k", "K", "M", "G", "T", "P"]); b = 0 if o.opt else r.choice([0, 1, 3, 1023, r.randrange(1 << 13), (1 << 13) - 1])
            if s == "" and not o.opt and r.random() < .3: b = r.randrange(1 << 63)
            o.val = b * MULT[s]; o.deft = fmtnum(r, b) + s
        elif o.kind == "float":
            t = "0" if o.opt else r.choice(["0", "1", "-1.5", "3.25", "4.1458132e-3", "1e10", "%.17g" % r.uniform(-1e6, 1e6), "%.6e" % r.uniform(-1, 1)])
            o.deft = t; o.val = float(t)
        elif o.kind == "bool":
            t = r.choice(["true", "false", "yes", "no", "True", "FALSE", "YES"]); o.deft = t; o.val = int(t.lower() in ("true", "yes"))
        elif o.kind == "string":
            o.defq = r.choice("'\""); o.deft = r.choice(["", "syslog", "/a/b c", "x%sy", text(r, 3, o.defq)]); o.val = o.deft.encode()
        else: o.deft = "-"; o.val = None
        o.nodef = (o.ph or o.kind in ("callback", "callback_arg")) and r.random() < .5
        o.hq = r.choice("'\""); o.help = text(r, r.randrange(1, 20), o.hq)
        S.opts.append(o)
    # text of the specification
    L = []
    if S.prefix: L.append("%prefix " + S.prefix)
    if S.nohelp: L.append("%nohelp")
    if S.nover: L.append("%noversion")
    if S.noperm: L.append("%nopermute")
    if S.usage: L.append("%usage_call   the_usage")
    r.shuffle(L); at = 0
    for q, d in S.desc:
        at = r.randrange(at, len(L) + 1); L.insert(at, "%%description %s%s%s" % (q, " ".join(d.split()), q)); at += 1
    if r.random() < .1 and S.nohelp: L.append("%nohelp")
    body = []
    for o in S.opts:
        def f(s, q=None):
            if q is None and re.fullmatch(r"[^\s\"']+", s) and r.random() < .8: return s
            q = q or r.choice("'\""); return q + s + q
        w = [f(o.long or "-"), f(o.short or "-"), f(o.var), f(o.type + ("?" if o.opt else ""))]
        if not o.nodef: w.append(f(o.deft, o.defq))
        if not o.ph: w.append(f(o.help, o.hq))
        body.append(r.choice(["", " ", "\t"]) + r.choice([" ", "  ", "\t", "   \t "]).join(w) + r.choice(["", " "]))
    for x in ("# comment", "   # -x y z int 5 \"unterminated", "", "   \t"):
        if r.random() < .5: body.insert(r.randrange(len(body) + 1), x)
    S.text = "\n".join(L + body) + r.choice(["\n", ""])
    return S

def main_c(S, hname):
    p = S.eff; o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <unistd.h>', '#include <fcntl.h>', '#include <sys/wait.h>',
         '#include "error.h"', '#include "%s"' % hname, 'static FILE *R;',
         'static void hex(const char*s){ if(!s){fputs("NULL",R);return;} fputc(\'"\',R); for(;*s;s++) fprintf(R,"%02x",(unsigned char)*s); }',
         'const char *%s_version(void);' % p, 'const char *%s_version(void) { return "ver 9.8"; }' % p]
    if S.usage: o.append('const char *the_usage(void); const char *the_usage(void) { return "USAGE-TEXT\\n"; }')
    for x in S.opts:
        if x.kind.startswith("callback"):
            o.append('static void cb_%s(%s_option *op, char *arg) { fprintf(R, "CB %s %%d ", op->%s_present); if (arg) hex(arg); else fputs("NULL",R); fputc(\'\\n\',R); }' % (x.var, p, x.var, x.var))
    o += ['static void one(int n, char **av) {', '  %s_option o; memset(&o, 0x5a, sizeof o);' % p]
    for x in S.opts:
        if x.kind.startswith("callback"): o.append("  o.%s = cb_%s;" % (x.var, x.var))
    o.append('  int rc = %s_parse(&o, n, av);' % p)
    o.append('  fprintf(R, "RC %d\\n", rc);')
    for x in S.opts:
        if x.kind == "int": o.append('  fprintf(R, "V %s %s\\n", %s o.%s);' % (x.var, "%llu" if x.type[0] == "u" else "%lld", "(unsigned long long)" if x.type[0] == "u" else "(long long)", x.var))
        elif x.kind == "size": o.append('  fprintf(R, "V %s %%llu\\n", (unsigned long long)o.%s);' % (x.var, x.var))
        elif x.kind == "float": o.append('  { unsigned long long b; double d = o.%s; memcpy(&b, &d, 8); fprintf(R, "V %s %%llu\\n", b); }' % (x.var, x.var))
        elif x.kind == "bool": o.append('  fprintf(R, "V %s %%d\\n", o.%s);' % (x.var, x.var))
        elif x.kind == "string": o.append('  fprintf(R, "V %s ", 0); hex(o.%s); fputc(\'\\n\', R);'.replace(', 0)', ')') % (x.var, x.var))
        if not x.ph: o.append('  fprintf(R, "P %s %%d\\n", o.%s_present);' % (x.var, x.var))
    for x in S.opts:  # types of the members
        ct = {"size": "uint64_t", "float": "double", "bool": "int", "string": "char *"}.get(x.kind) or (INTS[x.type][2] if x.kind == "int" else None)
        if ct: o.append('  _Static_assert(__builtin_types_compatible_p(__typeof__(o.%s), %s), "type of %s");' % (x.var, ct, x.var))
    o += ['  fprintf(R, "N %d\\n", o.argv_count); for (int i = 0; i < o.argv_count; i++) { fputs("A ", R); hex(o.argv_inputs[i]); fputc(\'\\n\', R); }',
          '  if (o.argv_inputs[o.argv_count]) fputs("UNTERMINATED\\n", R);',
          '  fputs("END\\n", R); fclose(R); }',
          'int main(int argc, char **argv) { (void)argc; FILE *f = fopen(argv[1], "rb"); static char buf[1<<20]; size_t n = fread(buf, 1, sizeof buf, f); char *s = buf; int id = 0;',
          ' program_name = "theprog";',
          ' while (s < buf + n) { int k = atoi(s); s += strlen(s) + 1; char **av = calloc(k + 1, sizeof *av); for (int i = 0; i < k; i++) { av[i] = strdup(s); s += strlen(s) + 1; }',
          '  fflush(0); pid_t p = fork(); if (!p) { char nm[64]; int fd; sprintf(nm, "%d.out", id); fd = open(nm, O_CREAT|O_WRONLY|O_TRUNC, 0600); dup2(fd, 1); close(fd);',
          '   sprintf(nm, "%d.err", id); fd = open(nm, O_CREAT|O_WRONLY|O_TRUNC, 0600); dup2(fd, 2); close(fd); sprintf(nm, "%d.res", id); R = fopen(nm, "w"); setvbuf(R, 0, _IONBF, 0); one(k, av); _exit(0); }',
          '  int st; waitpid(p, &st, 0); printf("%d %d\\n", id, st); id++; } return 0; }']
    return "\n".join(o) + "\n"

def gen_arg(r, o):
    """(argument text as bytes, kind of outcome)"""
    if o.kind == "int":
        lo, hi, _ = INTS[o.type]; k = r.random()
        if k < .55: v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randrange(lo, hi + 1), r.randrange(0, 300)]); s = fmtnum(r, v) if r.random() < .85 or v < 0 else "+%d" % v
        elif k < .75: s = fmtnum(r, r.choice([hi + 1, lo - 1, hi + r.randrange(1, 1 << 20), 1 << 64, (1 << 64) + 5, -(1 << 64) - 3, -(1 << 63) - 1, r.randrange(hi + 1, 1 << 80), -r.randrange(-lo + 1, 1 << 80)]))
        elif k < .87: s = r.choice(["abc", "-", "+", "--5", "-+5", "x12", "-abc", ".", "/"])
        else: s = str(r.randrange(0, min(hi, 30000))) + r.choice(["x", "abc", ".5", " 7", "-"])
    elif o.kind == "size":
        k = r.random()
        if k < .6:
            u = r.choice(list(MULT)); b = r.randrange(0, max(1, (1 << 64) // MULT[u])) >> r.randrange(0, 60)
            if r.random() < .2: b = U64 // MULT[u]
            s = (fmtnum(r, b) if u not in ("b", "B") else str(b)) + u
        elif k < .8:
            u = r.choice(list(MULT)); m = MULT[u]; b = r.choice([U64 // m + 1, r.randrange(U64 // m + 1, 1 << 66), (1 << 64) // m * 3 // 2 + 1, 1 << 64, r.randrange(U64 // m + 1, (U64 // m + 1) * 4)]); s = "%d%s" % (b, u)
        elif k < .9: s = r.choice(["abc", "k", "-5", "-5k", "G", "+", "x10"])
        else: s = "%d%s" % (r.randrange(1000), r.choice("xyzmgtpQ,"))
    elif o.kind == "float":
        k = r.random()
        if k < .75: s = r.choice(["0", "1.5", "-2.25", "1e10", "-1e-10", "0x1p3", ".5", "%.17g" % r.uniform(-1e9, 1e9), repr(r.random()), "%.3e" % r.uniform(-1e200, 1e200)])
        elif k < .87: s = r.choice(["abc", "x1", "-", "e5", "--1"])
        else: s = "%.3f" % r.uniform(-100, 100) + r.choice(["x", "kg", " 5", ".1"])
    else:
        s = bytes(r.choice(b"abc =%-'\"\\$\t/\xff\xc3\x01Z") for _ in range(r.choice([1, 1, 2, 5, 20, 300])))
        return s
    return s.encode()

def gen_argv(r, S):
    """argument vectors as lists of bytes, biased to valid ones"""
    av = [b"prog"]; real = [o for o in S.opts if not o.ph]; valued = set()
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 12])):
        k = r.random()
        if k < .72 and real:
            o = r.choice(real); use_long = o.long and (not o.short or r.random() < .6)
            name = o.long
            if use_long and r.random() < .2: name = o.long[:r.randrange(1, len(o.long) + 1)]
            if o.arg and not o.opt:
                a = gen_arg(r, o)
                if use_long: av += r.choice([[b"--" + name.encode() + b"=" + a], [b"--" + name.encode(), a]])
                else: av += r.choice([[b"-" + o.short.encode() + a], [b"-" + o.short.encode(), a]])
            elif o.opt:
                if o in valued or r.random() < .4:
                    a = gen_arg(r, o); valued.add(o)
                    av.append(b"--" + name.encode() + b"=" + a if use_long else b"-" + o.short.encode() + a)
                else: av.append(b"--" + name.encode() if use_long else b"-" + o.short.encode())
            elif use_long: av.append(b"--" + name.encode() + (b"=oops" if r.random() < .05 else b""))
            else:
                run = [x for x in real if x.short and not x.arg]
                av.append(b"-" + b"".join(x.short.encode() for x in [o] + [r.choice(run) for _ in range(r.choice([0, 0, 1, 2]))]))
        elif k < .92: av.append(r.choice([b"file", b"a b", b"-", b"", b"x=y", b"--" if r.random() < .3 else b"dir/f"]))
        elif k < .96: av.append(r.choice([b"--nosuch-option", b"-~", b"--nosuch-option=5", b"-_"]))
        elif k < .98: av.append(r.choice([b"--help", b"-h", b"--version", b"-V"]))
    return av

def interpret(S, av):
    """what the parser must do: ('exit', what) or (errors, values, present, callbacks, rest)"""
    tab = [o for o in S.opts if not o.ph]
    for nm, sh, off in (("help", "h", S.nohelp), ("version", "V", S.nover)):
        if not off:
            b = Opt(); b.long, b.short, b.kind, b.arg, b.opt, b.var = nm, sh, "builtin", False, False, None
            tab.append(b)
    longs = {o.long: o for o in tab if o.long}; shorts = {o.short: o for o in tab if o.short}
    val = {o.var: o.val for o in S.opts}; pres = {o.var: 0 for o in S.opts}; cbs = []; errs = [0]; cnt = {o.var: 0 for o in S.opts}
    fuzzy = [False]
    class Exit(Exception): pass
    def apply(o, a):
        if o.kind == "builtin": raise Exit(o.long)
        if o.kind == "bool": val[o.var] = 1; pres[o.var] = 1; return
        if o.kind in ("callback", "callback_arg"): pres[o.var] = 1; cbs.append((o.var, a)); return
        if a is None:   # optional and absent: counted
            pres[o.var] = 1
            if o.kind != "string": val[o.var] += 1
            return
        if o.kind == "string": val[o.var] = a; pres[o.var] = 1; return
        s = a.decode("latin1")
        if o.kind == "float":
            m = re.match(r"[+-]?(0[xX][0-9a-fA-F]+(\.[0-9a-fA-F]*)?([pP][+-]?\d+)?|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", s)
            if not m: errs[0] += 1; return
            t = m.group(); val[o.var] = float.fromhex(t) if "0x" in t.lower() else float(t); pres[o.var] = 1; return
        if o.kind == "int":
            lo, hi, _ = INTS[o.type]; neg = s[0] == "-"; d = s[1:] if s[0] in "+-" else s
            if not d[:1].isdigit(): errs[0] += 1; return
            v, _ = cnum(d); v = -v if neg else v
            if not lo <= v <= hi: errs[0] += 1; return
            val[o.var] = v; pres[o.var] = 1; return
        if not s[0].isdigit(): errs[0] += 1; return
        v, rest = cnum(s); m = MULT.get(rest[:1])
        if m is None or v * m > U64: errs[0] += 1; fuzzy[0] = True; return
        val[o.var] = v * m; pres[o.var] = 1
    rest = []; i = 1
    try:
        while i < len(av):
            a = av[i]; i += 1
            if a == b"--": rest += av[i:]; break
            if a.startswith(b"--"):
                nm, eq, v = a[2:].partition(b"="); nm = nm.decode("latin1")
                if nm in longs: o = longs[nm]
                else:
                    c = [x for n, x in longs.items() if n.startswith(nm)]
                    if len(c) != 1: errs[0] += 1; continue
                    o = c[0]
                if not o.arg:
                    if eq: errs[0] += 1
                    else: apply(o, None)
                elif eq: apply(o, v)
                elif o.opt: apply(o, None)
                elif i < len(av): apply(o, av[i]); i += 1
                else: errs[0] += 1
            elif a.startswith(b"-") and len(a) > 1:
                j = 1
                while j < len(a):
                    o = shorts.get(chr(a[j])); j += 1
                    if o is None: errs[0] += 1; continue
                    if not o.arg: apply(o, None); continue
                    if j < len(a): apply(o, a[j:])
                    elif o.opt: apply(o, None)
                    elif i < len(av): apply(o, av[i]); i += 1
                    else: errs[0] += 1
                    break
            else:
                if S.noperm: rest += av[i - 1:]; break
                rest.append(a)
    except Exit as e: return ("exit", str(e), cbs, errs[0])
    return ("ret", errs[0], val, pres, cbs, rest)

def usable(S, av):
    """keep out of the vectors what the properties leave open: empty values, ambiguous argument-taking, NULs"""
    for k, a in enumerate(av):
        if a.startswith(b"--") and a.endswith(b"=") and len(a) > 3: return False
        if k and av[k] == b"" and av[k - 1].startswith(b"-") and len(av[k - 1]) > 1: return False
    return True

def run(REPO, wd, seed, shard, tier, job):
    t0 = time.time(); cases = job["cases"] if tier == "quick" else job.get("tcases", job["cases"] * 10)
    d = os.path.join(wd, "%s-%d.py" % (job["name"], shard)); os.makedirs(d, exist_ok=True)
    C, sigs, rec, log = {}, [], [], []; case = ""
    def cnt(k, n=1): C[k] = C.get(k, 0) + n
    def res(rc): 
        rec.extend("@C %s %d" % kv for kv in C.items()); rec.append("@D " + " ".join(sigs)); rec.append("@E")
        return dict(job=job["name"], shard=shard, rc=rc, log="\n".join(log)[-20000:], rec="\n".join(rec), case=case, args=[], secs=time.time() - t0, timeout=0)
    env = {k: v for k, v in os.environ.items()}; env.update(LC_ALL="C", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
        ASAN_OPTIONS="detect_leaks=0:exitcode=88:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=88")
    def sh(cmd, **kw): return subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **kw)
    CF = ["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + REPO + "/inc", "-I" + REPO + "/inc/linux", "-D__linux__=1", "-D_GNU_SOURCE=1"]
    for s in ("getopt_long", "error"):
        q = sh(CF + ["-c", REPO + "/src/%s.c" % s, "-o", s + ".o"])
        if q.returncode: rec.append("@X " + q.stderr.decode()[-300:].replace("\n", " ")); return res(0)
    gen = REPO + "/tools/mkgetopt.py"
    for c in range(cases):
        if any(a.startswith("only=") and a != "only=%d" % c for a in job.get("args", [])): continue
        r = random.Random("%s/%s/%s" % (seed, shard, c)); S = gen_spec(r); case = "case %d: " % c + S.text
        def viol(key, detail): rec.append("@V %s | %s || spec: %s" % (key, detail.replace("\n", " ")[:900], S.text.replace("\n", " ; ")[:1500]))
        for f in os.listdir(d):
            if f.split(".")[-1] in ("in", "c", "h", "out", "err", "res", "bin") or f == "m": os.unlink(os.path.join(d, f))
        # --- an invalid variant must be refused
        if r.random() < .5:
            lines = S.text.split("\n"); k = r.randrange(9); real = [o for o in S.opts if not o.ph]; bad = None
            if k == 0: bad = "zz1 - zzv inty 0 'x'"
            elif k == 1: bad = "%nosuchthing 5"
            elif k == 2 and real and any(o.long for o in real): bad = "%s - zzv int 0 'x'" % r.choice([o.long for o in real if o.long])
            elif k == 3 and any(o.short for o in real): bad = "zz1 %s zzv int 0 'x'" % r.choice([o.short for o in real if o.short])
            elif k == 4 and S.opts: bad = "zz1 - %s int 0 'x'" % r.choice(S.opts).var
            elif k == 5: bad = r.choice(["zz1 - zzv int 12x 'x'", "zz1 - zzv size 12Q 'x'", "zz1 - zzv double abc 'x'", "zz1 - zzv int 0x 'x'", "zz1 - zzv size k 'x'"])
            elif k == 6: bad = r.choice(["zz1 - zzv int 'x'", "zz1 - zzv", "zz1 - zzv int", "zz1 -", "zz1"])
            elif k == 7: bad = r.choice(["zz1 - zzv int 0 'no end", 'zz1 - zzv string "oops'])
            elif k == 8: bad = r.choice(["zz1 - - int 0 'x'", "zz1 - zz\"v int 0 'x'"])
            if bad:
                lines.insert(r.randrange(len(lines) + 1), bad)
                # a later line must not hide it, and directives stay first for the builtin names
                dirs = [x for x in lines if x.startswith("%no")]; lines = dirs + [x for x in lines if not x.startswith("%no") or x == bad]
                open(os.path.join(d, "bad.in"), "w").write("\n".join(lines) + "\n")
                q = sh([sys.executable, gen, "bad.in"])
                if q.returncode == 0: viol("accepted-invalid", "line <%s> accepted (exit 0, %s)" % (bad, q.stderr.decode()[-200:]))
                elif b"Traceback" in q.stderr or not q.stderr.strip(): viol("bad-message", "line <%s> refused with %s" % (bad, q.stderr.decode()[-300:] or "no message"))
                elif os.path.exists(os.path.join(d, "bad.c")): viol("wrong-output", "a parser was written for an invalid specification <%s>" % bad)
                cnt("refused_specs"); cnt("evals"); sigs.append(hashlib.md5(("bad" + "\n".join(lines)).encode()).hexdigest()[:16])
                if any(x.startswith("@V") for x in rec): return res(77)
        # --- generate
        open(os.path.join(d, "spec.in"), "w").write(S.text)
        cmd = [sys.executable, gen]; cf, hf = "spec.c", "spec.h"
        if S.cmdprefix: cmd += ["-P", S.cmdprefix]
        if r.random() < .3: cf = "other_c.c"; cmd += ["-C", cf]
        if r.random() < .3: hf = "other-h.h"; cmd += ["-H", hf]
        q = sh(cmd + ["spec.in"])
        if q.returncode or not os.path.exists(os.path.join(d, cf)) or not os.path.exists(os.path.join(d, hf)):
            viol("not-generated", "exit %d: %s" % (q.returncode, q.stderr.decode()[-600:])); return res(77)
        open(os.path.join(d, "main_x.c"), "w").write(main_c(S, hf))
        q = sh(CF + ["-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-Werror=int-conversion", cf, "main_x.c", "getopt_long.o", "error.o", "-o", "m"])
        if q.returncode: viol("not-compilable", q.stderr.decode()[:800]); return res(77)
        if c % 4 == 0:
            open(os.path.join(d, "hh.c"), "w").write('#include "%s"\n#include "%s"\n%s_option g;\n' % (hf, hf, S.eff))
            q = sh(["g++", "-fsyntax-only", "-x", "c++", "-Wall", "-Werror", "hh.c"])
            if q.returncode: viol("header-cxx", q.stderr.decode()[:600]); return res(77)
        cnt("parsers"); cnt("options", len(S.opts))
        # --- run
        vecs = []
        while len(vecs) < job.get("vecs", 40):
            av = gen_argv(r, S)
            if usable(S, av): vecs.append(av)
        # a value given twice, the last one counts; and plain help/version
        if not S.nohelp: vecs.append([b"prog", r.choice([b"--help", b"-h"])])
        if not S.nover: vecs.append([b"prog", r.choice([b"--version", b"-V"])])
        vecs.append([b"prog"])
        with open(os.path.join(d, "vecs.bin"), "wb") as f:
            for av in vecs: f.write(b"%d\0" % len(av) + b"".join(a + b"\0" for a in av))
        try: q = sh([os.path.join(d, "m"), "vecs.bin"])
        except subprocess.TimeoutExpired: viol("hang", "the generated parser does not end"); return res(77)
        st = dict(tuple(map(int, l.split())) for l in q.stdout.decode().splitlines() if re.fullmatch(r"\d+ \d+", l))
        for k, av in enumerate(vecs):
            def rd(x):
                try: return open(os.path.join(d, "%d.%s" % (k, x)), "rb").read()
                except OSError: return b""
            out, err, rs = rd("out"), rd("err"), rd("res").decode("latin1").splitlines(); show = b" ".join(av).decode("latin1")
            E = interpret(S, av); cnt("evals"); sigs.append(hashlib.md5(S.text.encode() + b"\0".join(av)).hexdigest()[:16])
            def bad(key, msg): viol(key, "argv <%s>: %s" % (show, msg))
            if st.get(k, -1) != 0:
                log.append(err.decode("latin1")[-4000:]); bad("crash", "ended with status %s: %s" % (st.get(k), err.decode("latin1")[:400])); return res(77)
            def unhex(t): return None if t == "NULL" else bytes.fromhex(t[1:])
            cb = [(l.split()[1], int(l.split()[2]), unhex(l.split()[3])) for l in rs if l.startswith("CB ")]
            wantcb = E[2] if E[0] == "exit" else E[4]
            if [(a, b) for a, _, b in cb] != wantcb: bad("callbacks", "callbacks %s, expected %s" % (cb, wantcb))
            if any(p != 1 for _, p, _ in cb): bad("callbacks", "callback invoked before its present flag is set")
            cnt("callbacks", len(cb))
            if E[0] == "exit":
                if any(l.startswith("RC") for l in rs): bad("no-exit", "--%s did not end the program" % E[1])
                so = out.decode("latin1")
                if E[1] == "version":
                    cnt("versions")
                    if so != "theprog -- ver 9.8\n": bad("version", "printed <%s>" % so[:300])
                else:
                    cnt("helps"); w = " ".join(so.split())
                    want = ["theprog:"]
                    if S.desc:
                        b0 = S.desc[0][1].split(); b0 = " ".join(b0) + ("" if b0[-1].endswith(".") else ".")
                        want.append(b0); want += [" ".join(x.split()) for _, x in S.desc[1:]]
                    if S.usage: want.append("USAGE-TEXT")
                    for o in S.opts:
                        if o.ph: continue
                        if o.long: want.append("--" + o.long)
                        if o.short: want.append("-" + o.short)
                        want.append(" ".join(o.help.split()))
                    pos = 0
                    # directives may come in any order relative to one another, options keep theirs
                    for x in want[:1] + ([] if not S.desc else []):
                        if x not in w: bad("help", "<%s> is missing from the help text <%s>" % (x, w[:500]))
                    for x in want[1:]:
                        if x not in w: bad("help", "<%s> is missing from the help text <%s>" % (x, w[:600]))
                    last = -1
                    for o in S.opts:
                        if o.ph: continue
                        line = [l for l in so.splitlines() if re.match(r"\s{2,}(--%s\b|, -%s\b)" % (re.escape(o.long or "\0"), re.escape(o.short or "\0")), l)]
                        if not line: bad("help", "no line for option %s/%s" % (o.long, o.short)); break
            else:
                _, errs, val, pres, cbs, rest = E
                rcs = [int(l.split()[1]) for l in rs if l.startswith("RC ")]
                if not rcs: bad("no-return", "the parser ended the program: %s" % out[:200])
                elif rcs[0] != errs: bad("result", "returned %d for %d errors (%s)" % (rcs[0], errs, err.decode("latin1")[:300]))
                if errs and not err: bad("silent", "errors without a message")
                cnt("rejected" if errs else "parsed")
                if rcs and not errs:
                    got = dict(l.split(" ", 2)[1:] for l in rs if l.startswith("V ")); gp = {l.split()[1]: int(l.split()[2]) for l in rs if l.startswith("P ")}
                    for o in S.opts:
                        if o.kind.startswith("callback"): pass
                        elif o.ph and o.nodef: pass
                        else:
                            w = str(val[o.var]) if o.kind in ("int", "size", "bool") else str(struct.unpack("<Q", struct.pack("<d", val[o.var]))[0]) if o.kind == "float" else '"' + val[o.var].hex()
                            if got.get(o.var) != w: bad("value", "member %s (%s) is %s, expected %s" % (o.var, o.type, got.get(o.var), w))
                            cnt("members")
                        if not o.ph and gp.get(o.var) != pres[o.var]: bad("present", "flag of member %s (%s) is %s, expected %d" % (o.var, o.type, gp.get(o.var), pres[o.var]))
                    A = [unhex(l[2:]) for l in rs if l.startswith("A ")]; n = [int(l.split()[1]) for l in rs if l.startswith("N ")]
                    if A != rest or n != [len(rest)]: bad("rest", "remaining arguments %s (%s), expected %s" % (A, n, rest))
                    if "UNTERMINATED" in rs: bad("rest", "the remaining arguments are not followed by a null pointer")
            if any(x.startswith("@V") for x in rec): return res(77)
        if c < 2: rec.append("@S spec: %s argv: %s" % (S.text.replace("\n", " ; ")[:350], b" ".join(vecs[0]).decode("latin1").replace("\n", " ")[:150]))
    return res(0)
