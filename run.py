#!/usr/bin/env python3
"""Build /repo's current sources into the harness and decide one property by generated-input search.

  run.py C03 [--tier quick|thorough] [--seed N]     run the check of a property
  run.py --replay FILE                              re-run a recorded failing case
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo).
"""
import concurrent.futures as cf, glob, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
H = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
import props as P  # noqa: E402

LIBDIRS = ["dilithium2", "sphincs", "common", "tweetnacl", "random", "hybrid-dilithium-sphincs"]
INTERPOSE = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "getrandom", "getentropy", "syscall", "open", "open64", "openat",
             "read", "close", "poll", "ioctl", "fopen", "fopen64", "exit", "abort", "__assert_fail", "memcmp", "arc4random_buf"]
MOCKED = ["crypto_sign_ed25519_keypair_seed", "crypto_sign_ed25519_tweet", "crypto_sign_ed25519_tweet_open", "crypto_sign_ed25519_tweet_keypair"] + \
    ["PQCLEAN_DILITHIUM2_CLEAN_crypto_sign" + x for x in ("_keypair_seed", "_keypair", "_signature", "", "_verify", "_open")] + \
    ["PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign" + x for x in ("_seed_keypair", "_keypair", "_signature", "", "_verify", "_open")]

UBSAN = "-fsanitize=undefined -fno-sanitize=shift-base,shift-exponent,alignment,pointer-overflow,function,vptr -fno-sanitize-recover=all"
# name: (C compiler, library flags, harness C++ compiler, harness flags, link flags, defines)
VARIANTS = {
    "rel":   dict(cc="gcc", cf="-O3 -DNDEBUG -fPIC -fstack-protector-all", cxx="g++", hf="", lf=""),
    "asan":  dict(cc="clang", cf="-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize=bounds " + UBSAN, cxx="clang++", hf="", lf="-fsanitize=address,undefined"),
    "cov":   dict(cc="clang", cf="-O2 -DNDEBUG -fsanitize-coverage=trace-pc-guard,trace-cmp -fno-builtin-memcmp", cxx="g++", hf="", lf=""),
    "ideal": dict(cc="clang", cf="-O1 -DNDEBUG -fsanitize-coverage=trace-pc-guard,trace-cmp -fno-builtin-memcmp", cxx="g++", hf="-DIDEAL", lf=""),
    "msan":  dict(cc="clang", cf="-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-memory-param-retval", cxx="clang++", hf="-DVF_MSAN", lf="-fsanitize=memory"),
    "tsan":  dict(cc="clang", cf="-O1 -g -fsanitize=thread", cxx="clang++", hf="-fsanitize=thread", lf="-fsanitize=thread"),
    "gccO0": dict(cc="gcc", cf="-O0 -DNDEBUG", cxx="g++", hf="", lf=""),
    "gccO2": dict(cc="gcc", cf="-O2 -DNDEBUG", cxx="g++", hf="", lf=""),
    "clangO0": dict(cc="clang", cf="-O0 -DNDEBUG", cxx="g++", hf="", lf=""),
    "clangO3": dict(cc="clang", cf="-O3 -DNDEBUG", cxx="g++", hf="", lf=""),
    "wasm":  dict(cc="gcc", cf="-O3 -DNDEBUG -fPIC -fstack-protector-all", cxx="g++", hf="", lf=""),     # + the WebAssembly modules, run by node
    "ct":    dict(cc="clang", cf="-O1 -DNDEBUG -fno-builtin -fsanitize-coverage=trace-pc,trace-loads,trace-stores", cxx="g++", hf="-DVF_CT", lf="-rdynamic", interpose=["memcpy", "memmove", "memset"]),
}
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=78", "MSAN_OPTIONS": "exitcode=79:poison_in_malloc=0:poison_in_free=0", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0"}


COUNTER = itertools.count()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    out = []
    for d in LIBDIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
            b = os.path.basename(f)
            if "test" in b.lower() or "benchmark" in b.lower() or re.search(rb"\bint\s+main\s*\(", rd(f)):
                continue
            out.append(f)
    return out


def header_state():
    parts = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "build", "node_modules", "tests"))
        for f in sorted(files):
            if f.endswith(".h"):
                parts.append(root + f); parts.append(rd(os.path.join(root, f)))
    return digest(*parts)


class Builder:
    def __init__(self):
        self.obj = os.path.join(BUILD, "obj"); os.makedirs(self.obj, exist_ok=True)
        self.hdrs = header_state()
        self.hh = digest(*[rd(f) for f in sorted(glob.glob(H + "/*.h"))])
        self.memo = {}
        self.pool = cf.ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 8))
        self.syms = os.path.join(BUILD, "syms-%d.txt" % os.getpid())
        with open(self.syms, "w") as f:
            for s in INTERPOSE:
                f.write("%s vf_%s\n" % (s, s))
        self.ctsyms = os.path.join(BUILD, "ctsyms-%d.txt" % os.getpid())
        with open(self.ctsyms, "w") as f:
            for s in INTERPOSE + VARIANTS["ct"]["interpose"]:
                f.write("%s vf_%s\n" % (s, s))
        self.mocks = os.path.join(BUILD, "mocks-%d.txt" % os.getpid())
        with open(self.mocks, "w") as f:
            for s in INTERPOSE:
                f.write("%s vf_%s\n" % (s, s))
            for s in MOCKED:
                f.write("%s mock_%s\n" % (s, s))

    def cleanup(self):
        for f in (self.syms, self.mocks, self.ctsyms):
            if os.path.exists(f):
                os.remove(f)

    def once(self, fn, *a):          # one compilation per object, however many variants ask for it
        k = (fn.__name__,) + a
        if k not in self.memo:
            self.memo[k] = self.pool.submit(fn, *a)
        return self.memo[k]

    def cobj(self, src, cc, flags, symfile, extra_syms=()):
        key = digest("c", rd(src), src, self.hdrs, cc, flags, rd(symfile), repr(extra_syms))
        out = os.path.join(self.obj, key + ".o")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(COUNTER))
        r = sh([cc, "-std=gnu11", "-w", "-c", src, "-o", tmp] + flags.split())
        if r.returncode:
            raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))
        cmd = ["objcopy", "--redefine-syms=" + symfile] + ["--redefine-sym=%s=%s" % e for e in extra_syms] + [tmp]
        r = sh(cmd)
        if r.returncode:
            raise BuildError("objcopy failed for %s: %s" % (src, r.stdout))
        os.replace(tmp, out)
        return out

    def hobj(self, name, cxx, flags, opt="-O1"):
        src = os.path.join(H, name)
        key = digest("h", rd(src), self.hh, cxx, flags, opt)
        out = os.path.join(self.obj, key + ".o")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(COUNTER))
        r = sh([cxx, "-std=c++17", "-w", opt, "-I", H, "-c", src, "-o", tmp] + flags.split())
        if r.returncode:
            raise BuildError("cannot compile harness %s:\n%s" % (name, r.stdout[-3000:]))
        os.replace(tmp, out)
        return out

    def lib(self, variant):
        v = VARIANTS[variant]
        futs = []
        for s in lib_sources():
            d = os.path.basename(os.path.dirname(s))
            syms = self.ctsyms if variant == "ct" else self.syms
            mock = variant == "ideal" and d not in ("dilithium2", "sphincs", "tweetnacl")
            futs.append(self.once(self.cobj, s, v["cc"], v["cf"], self.mocks if mock else syms))
        for tag in ("sys", "dev"):   # the other operating-system configurations of the random source
            futs.append(self.once(self.robj, tag, v["cc"], v["cf"], self.ctsyms if variant == "ct" else self.syms))
        if variant in ("rel", "asan", "cov"):
            for tag in ("win", "bsd", "wasi"):
                futs.append(self.once(self.xobj, tag, v["cc"], v["cf"], self.syms))
        return futs

    def xobj(self, tag, cc, flags, symfile):   # another platform's configuration; an empty object if it does not build over the stand-ins
        try:
            o = self.robj(tag, cc, flags + " -I " + os.path.join(H, "win"), symfile)
            und = [l.split()[-1] for l in sh(["nm", "-u", o]).stdout.splitlines() if l.strip()]
            if all(re.match(r"vf_|mem|str|_", u) for u in und):
                return o
        except BuildError:
            pass
        out = os.path.join(self.obj, digest("empty", cc) + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(COUNTER))
            sh([cc, "-x", "c", "-c", "/dev/null", "-o", tmp]); os.replace(tmp, out)
        return out

    def robj(self, tag, cc, flags, symfile):   # random/ in one relocatable object whose only global is randombytes_<tag>
        srcs = [s for s in lib_sources() if os.path.basename(os.path.dirname(s)) == "random"]
        h = os.path.join(H, "rb_%s.h" % tag)
        objs = [self.cobj(s, cc, flags + " -include %s -DHP_RB_UNIT=hp_rb_%s" % (h, digest(rd(h), rd(os.path.join(H, "win", "windows.h")), tag, s)), symfile) for s in srcs]
        out = os.path.join(self.obj, digest("r", tag, *objs) + ".o")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(COUNTER))
        r = sh(["ld", "-r", "-o", tmp] + objs)
        if r.returncode == 0:
            r = sh(["objcopy", "--redefine-sym=randombytes=randombytes_" + tag, "--keep-global-symbol=randombytes_" + tag, tmp])
        if r.returncode:
            raise BuildError("cannot combine the random source (%s): %s" % (tag, r.stdout))
        os.replace(tmp, out)
        return out

    def harness(self, variant, srcs):
        v = VARIANTS[variant]
        hf = v["hf"]
        futs = []
        for s in ["engine.cpp", "env.cpp"] + srcs:
            o = "-O3" if s == "ref.cpp" else "-O1"
            f = hf
            futs.append(self.once(self.hobj, s, v["cxx"], f, o))
        return futs

    def wobj(self, src, opt):
        w = H + "/wasm"
        key = digest("w", rd(src), src, self.hdrs, opt, *[rd(f) for f in sorted(glob.glob(w + "/include/**/*.h", recursive=True))])
        out = os.path.join(self.obj, key + ".wo")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(COUNTER))
        res = sh(["clang", "-print-resource-dir"]).stdout.strip()
        r = sh(["clang", "--target=wasm32", "-nostdinc", "-isystem", w + "/include", "-isystem", res + "/include", "-D__EMSCRIPTEN__", "-w", opt, "-c", src, "-o", tmp] + (["-fno-builtin"] if src.startswith(w) else []))
        if r.returncode:
            raise BuildError("cannot compile %s for WebAssembly:\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, out)
        return out

    def wasm(self):
        """The module as released (-O0) and optimised, for the host in harness/wasm/host.js."""
        srcs = lib_sources() + [os.path.join(REPO, "wasm", "hybrid-pqc.c"), H + "/wasm/libc.c"]
        futs = {o: [self.once(self.wobj, s, o) for s in srcs] for o in ("-O0", "-O2")}
        out = {"VF_WASM_HOST": H + "/wasm/host.js"}
        for o, fs in futs.items():
            objs = [f.result() for f in fs]
            m = os.path.join(BUILD, "mod%s-%s.wasm" % (o, digest(*objs)))
            if not os.path.exists(m):
                tmp = m + ".%d.%d" % (os.getpid(), next(COUNTER))
                r = sh(["wasm-ld", "--no-entry", "--export-dynamic", "--allow-undefined", "-z", "stack-size=1048576", "-o", tmp] + objs)
                if r.returncode:
                    raise BuildError("WebAssembly link failed:\n%s" % r.stdout[-3000:])
                os.replace(tmp, m)
            out["VF_WASM_" + o[1:]] = m
        return out

    def start(self, variant, srcs):
        return (variant, srcs, self.lib(variant), self.harness(variant, srcs))

    def finish(self, started):
        variant, srcs, lf, hf = started
        v = VARIANTS[variant]
        objs = [f.result() for f in hf] + [f.result() for f in lf]
        key = digest(variant, *[os.path.basename(o) for o in objs])
        exe = os.path.join(BUILD, "bin-" + variant + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".%d.%d" % (os.getpid(), next(COUNTER))
            r = sh([v["cxx"], "-o", tmp] + objs + v["lf"].split() + ["-pthread"])
            if r.returncode:
                raise BuildError("link failed (%s):\n%s" % (variant, r.stdout[-3000:]))
            os.replace(tmp, exe)
        if variant == "wasm":
            SAN_ENV.update(self.wasm())
        return exe

    def ideal_applicable(self):
        """The stand-ins only make sense while the hybrid objects reach the components through their public functions."""
        v = VARIANTS["ideal"]
        defined = set()
        undef = set()
        for s in lib_sources():
            d = os.path.basename(os.path.dirname(s))
            comp = d in ("dilithium2", "sphincs", "tweetnacl")
            o = self.cobj(s, v["cc"], v["cf"], self.syms if comp else self.mocks)
            r = sh(["nm", o])
            for line in r.stdout.splitlines():
                p = line.split()
                if comp and len(p) == 3 and p[1] in "TDBRVW":
                    defined.add(p[2])
                if not comp and len(p) == 2 and p[0] == "U":
                    undef.add(p[1])
        return not (undef & defined)


def load_known():
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(line)
    return out


def run_harness(exe, prop, variant, tier, seed, tmp, budget, extra=()):
    out = os.path.join(tmp, "out-%s.json" % variant)
    td = os.path.join(tmp, "w-" + variant); os.makedirs(td, exist_ok=True)
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True)
    env = dict(os.environ, **SAN_ENV)
    cmd = [exe, "--prop", prop, "--variant", variant, "--tier", tier, "--seed", str(seed), "--out", out, "--tmp", td, "--replaydir", rep, "--budget", str(budget)] + list(extra)
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        res = json.load(open(out))["tests"]
    except Exception as e:
        raise RuntimeError("harness %s/%s gave no result (%s): rc %d %s" % (prop, variant, e, r.returncode, r.stdout[-2000:]))
    return r.returncode, res


def check(prop, tier, seed):
    t0 = time.time()
    spec = P.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    b = Builder()
    try:
        return _check(prop, spec, tier, seed, tmp, b, t0)
    finally:
        b.cleanup()
        shutil.rmtree(tmp, ignore_errors=True)


def _check(prop, spec, tier, seed, tmp, b, t0):
    special = spec.get("special")
    if special:
        import importlib
        res = importlib.import_module(special).run(prop, spec, tier, seed, tmp, b, sys.modules[__name__])
    else:
        res = generic(prop, spec, tier, seed, tmp, b)
    viol, tests, notes, known = res["violations"], res["tests"], res.get("notes", []), res.get("known", [])
    ev = evidence(prop, spec, tier, seed, tests, viol, notes, known, time.time() - t0, res.get("extra", {}))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s tier=%s seed=%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    if viol:
        for v in viol:
            print("  " + v["message"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    return 0


def load_digests(tmp, v):
    out = {}
    for f in glob.glob(os.path.join(tmp, "dig-%s.*" % v)):
        test = os.path.basename(f).split(".")[1]
        for line in open(f):
            i, h = line.split()
            out[(test, int(i))] = h
    return out


def compare_digests(prop, tier, seed, tmp, variants, notes):
    """Same cases in every build: return codes and all output buffers must agree."""
    digs = {v: load_digests(tmp, v) for v in variants}
    base = next((v for v in variants if digs[v]), None)
    total = 0
    for v in variants:
        if v == base or not digs[v]:
            continue
        for k in sorted(digs[base].keys() & digs[v].keys()):
            total += 1
            if digs[base][k] != digs[v][k]:
                rp = os.path.join(HERE, "replays", "%s-%s-%s-%s.json" % (prop, k[0], base, v)); os.makedirs(os.path.dirname(rp), exist_ok=True)
                msg = "case %d of test %s: results differ between the builds %s and %s" % (k[1], k[0], base, v)
                json.dump({"property": prop, "variant": v, "mode": "digest", "test": k[0], "idx": k[1], "base": base, "tier": tier, "seed": seed, "message": msg}, open(rp, "w"))
                return [{"message": msg, "replay": rp}]
    notes.append("%d case results compared across builds" % total)
    return []


def generic(prop, spec, tier, seed, tmp, b):
    variants = [v for v in spec["variants"] if tier == "thorough" or v not in spec.get("thorough_only", ())]
    notes = []
    started = {v: b.start(v, spec["src"] if v != "ideal" else spec.get("ideal_src", spec["src"])) for v in variants}
    tests, viol, known = [], [], []
    for v in variants:
        if v == "ideal" and not b.ideal_applicable():
            notes.append("ideal-component stage not applicable: the hybrid objects no longer reach the components through their public functions only")
            continue
        exe = b.finish(started[v])
        budget = 200 if tier == "quick" else 700 / max(1, len(variants))
        extra = ["--digest", os.path.join(tmp, "dig-" + v)] if spec.get("digest") else []
        rc, res = run_harness(exe, prop, v, tier, seed, tmp, budget, extra)
        if rc == 2 or any(t.get("infra") for t in res):
            notes.append("variant %s: a worker was killed from outside; re-run with fewer workers" % v)
            rc, res = run_harness(exe, prop, v, tier, seed, tmp, budget, ["--workers", "3"])
            if rc == 2:
                raise RuntimeError("workers keep being killed (out of memory?)")
        if rc == 3:   # failure that did not repeat on its own: does the stage fail again?
            notes.append("variant %s: unconfirmed failure: %s" % (v, [t["failure"]["first_message"] for t in res if "failure" in t]))
            rc2, res2 = run_harness(exe, prop, v, tier, seed, tmp, budget)
            if rc2 in (1, 3):
                for t in res2:
                    if "failure" in t and not t["failure"]["confirmed"]:
                        t["failure"]["confirmed"] = True
                        t["failure"]["message"] = t["failure"]["first_message"] + " (repeats when the stage is re-run, not in isolation)"
                        if not t["failure"]["replay"]:
                            rp = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, t["test"], v))
                            json.dump({"property": prop, "test": t["test"], "variant": v, "seed": seed, "mode": "stage", "tier": tier, "message": t["failure"]["first_message"]}, open(rp, "w"))
                            t["failure"]["replay"] = rp
            res = res2
        for t in res:
            tests.append(t)
            if "failure" in t and t["failure"]["confirmed"]:
                viol.append({"message": "%s/%s [%s]: %s" % (prop, t["test"], v, t["failure"]["message"]), "replay": t["failure"]["replay"]})
            for k in [k for k in t["labels"] if k.startswith("KNOWN ")]:
                known.append(k[6:])
        if viol:
            break
    if spec.get("digest") and not viol:
        viol += compare_digests(prop, tier, seed, tmp, variants, notes)
    for v in started.values():       # do not leave compilers running
        for f in v[2] + v[3]:
            f.cancel()
    listed = [l for l in load_known() if l.startswith("known: property=%s " % prop)]
    okk = []
    for k in sorted(set(known)):
        hit = [l for l in listed if l.split("id=")[1].split()[0] == k.split()[0]]
        if hit:
            okk.append(hit[0].split(" ", 2)[2])
        else:
            viol.append({"message": "%s: %s (not a listed finding)" % (prop, k), "replay": os.path.join(HERE, "known-findings.txt")})
    return dict(violations=viol, tests=tests, notes=notes, known=okk)


def evidence(prop, spec, tier, seed, tests, viol, notes, known, wall, extra):
    ev = sum(t["cases"] for t in tests); dn = sum(t["distinct"] for t in tests)
    samples = []
    for t in tests:
        for s in t["samples"][:3]:
            samples.append("[%s/%s] %s" % (t["test"], t["variant"], s))
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=spec["rule"], samples=samples[:16] or ["(none)"],
               stages=[{k: t[k] for k in ("test", "variant", "guided", "planned", "cases", "discards", "nontrivial", "distinct", "edges", "corpus", "deadline", "wall") if k in t} for t in tests],
               distribution={"%s/%s%s" % (t["test"], t["variant"], "/guided" if t.get("guided") else ""): t["labels"] for t in tests if t["labels"]})
    cov.update(extra)
    r = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov, assumptions=spec.get("assumptions", []) + notes, wall_s=round(wall, 2),
             violations=[v["message"][:2000] + " replay=" + v["replay"] for v in viol])
    return r


def replay(path):
    d = json.load(open(path))
    prop, variant = d["property"], d["variant"]
    spec = P.PROPS[prop]
    if spec.get("special") and d.get("mode") == "special":
        import importlib
        b = Builder()
        try:
            return importlib.import_module(spec["special"]).replay(d, b, sys.modules[__name__])
        finally:
            b.cleanup()
    b = Builder()
    try:
        exe = b.finish(b.start(variant, spec["src"] if variant != "ideal" else spec.get("ideal_src", spec["src"])))
        env = dict(os.environ, **SAN_ENV)
        if d["mode"] == "digest":
            with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
                for v in (d["base"], variant):
                    e = b.finish(b.start(v, spec["src"]))
                    run_harness(e, prop, v, d["tier"], d["seed"], tmp, 600, ["--test", d["test"], "--digest", os.path.join(tmp, "dig-" + v)])
                k = (d["test"], d["idx"]); x, y = load_digests(tmp, d["base"]).get(k), load_digests(tmp, variant).get(k)
                print("%s: %s, %s: %s" % (d["base"], x, variant, y))
                return 0 if x == y else 1
        if d["mode"] == "stage":
            with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
                rc, res = run_harness(exe, prop, variant, d["tier"], d["seed"], tmp, 600, ["--test", d["test"]])
                print(json.dumps([t.get("failure") for t in res]))
                return 1 if rc in (1, 3) else 0
        r = subprocess.run([exe, "--replay", path, "--variant", variant], env=env)
        return r.returncode
    finally:
        b.cleanup()


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a[0]
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        i += 2
    try:
        sys.exit(check(prop, tier, seed))
    except BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
