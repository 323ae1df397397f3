#!/usr/bin/env python3
"""Run one property check:  check.py PROP quick|thorough        (VERIF_SEED selects the seed)
   Replay a violation:      check.py --replay FILE
   Build only:              check.py --build
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build or harness failure)."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OIMON_REPO", "/repo")
SRC = REPO + "/src"
NW = 8
sys.path.insert(0, HERE)
from config import PROPS, SAN, VARIANTS  # noqa: E402


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sources():
    lib = sorted(f for f in glob.glob(SRC + "/oifitslib/*.c") if os.path.basename(f) != "oitable-demo.c")
    util = sorted(glob.glob(SRC + "/util/oifits-*.c")) + glob.glob(SRC + "/oifitslib/oitable-demo.c")
    har = sorted(glob.glob(HERE + "/harness/*.c"))
    hdr = sorted(glob.glob(SRC + "/oifitslib/*.h")) + sorted(glob.glob(HERE + "/harness/*.h"))
    return lib, util, har, hdr


def build(variant="asan"):
    """Compile library, utilities and harness from the current tree; cached by content."""
    lib, util, har, hdr = sources()
    cflags = SAN + VARIANTS[variant]["cflags"]
    h = hashlib.sha256(repr(cflags).encode())
    for f in lib + util + har + hdr:
        h.update(f.encode()); h.update(open(f, "rb").read())
    out = os.path.join(HERE, "build", variant + "-" + h.hexdigest()[:16])
    if os.path.exists(out + "/ok"):
        return out
    for old in glob.glob(os.path.join(HERE, "build", variant + "-*")):
        if old != out and time.time() - os.path.getmtime(old) > 1800:
            shutil.rmtree(old, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    pc = sh(["pkg-config", "--cflags", "--libs", "cfitsio", "glib-2.0"]).stdout.split()
    inc = [x for x in pc if x.startswith("-I")]; libs = [x for x in pc if not x.startswith("-I")]
    base = ["gcc", "-std=gnu11", "-D_POSIX_C_SOURCE=200809L", "-D_DEFAULT_SOURCE", "-I" + SRC + "/oifitslib"] + inc
    def cc(f):
        o = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest()[:6] + "_" + os.path.basename(f)[:-2] + ".o")
        fl = cflags + ["-w"]
        if f.startswith(HERE) and "hcflags" in VARIANTS[variant]: fl = VARIANTS[variant]["hcflags"] + ["-w"]
        r = sh(base + fl + ["-c", f, "-o", o])
        if r.returncode:
            raise NoVerdict("cannot compile %s:\n%s" % (f, r.stdout[-3000:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(NW) as ex:
        lo = list(ex.map(cc, lib)); fu = [(u, ex.submit(cc, u)) for u in util]; ho = list(ex.map(cc, har)); uo = [(u, f.result()) for u, f in fu]
    def ld(o, name):
        wrap = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "strdup")] if name == "oimon" else []  # see props_oom.c
        r = sh(["gcc"] + cflags + wrap + o + ["-o", os.path.join(tmp, name)] + libs + ["-lm", "-lz"])
        if r.returncode:
            raise NoVerdict("cannot link %s:\n%s" % (name, r.stdout[-3000:]))
    jobs = [(lo + ho, "oimon")] + [(lo + [o], os.path.basename(u)[:-2]) for u, o in uo]
    with concurrent.futures.ThreadPoolExecutor(NW) as ex:
        list(ex.map(lambda j: ld(*j), jobs))
    for o in lo + ho + [o for _, o in uo]:
        os.remove(o)
    open(tmp + "/ok", "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def san_env(variant, logp):
    e = dict(os.environ)
    a = "detect_leaks=0:abort_on_error=0:exitcode=77:log_path=%s:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=5000:detect_stack_use_after_return=0:quarantine_size_mb=32:handle_abort=1:print_legend=0:symbolize=1" % logp
    a += VARIANTS[variant].get("asan", "")
    e["ASAN_OPTIONS"] = a
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:log_path=%s" % logp
    e["G_DEBUG"] = ""; e["G_SLICE"] = "always-malloc"; e["LC_ALL"] = "C"; e["TZ"] = "UTC"; e["OIMON_SANLOG"] = logp
    return e


def crash_key(text):
    """Identify a crash by kind and the library functions on its stack, not by addresses or lines."""
    kind = "crash"
    m = re.search(r"MON-HANG", text)
    if m:
        # CFITSIO's own endless loop over header keywords after a failed insertion (see known-findings.txt)
        if re.search(r"#\d+ 0x[0-9a-f]+ in ffkshf [^\n]*libcfitsio", text): return "hang:inside-cfitsio-ffkshf", "case exceeded its time limit inside ffkshf() of CFITSIO: " + re.sub(r"\s+", " ", text)[:1500]
        return "hang", "case exceeded its time limit"
    m = re.search(r"AddressSanitizer: ([A-Za-z0-9_-]+)", text)
    if m: kind = m.group(1)
    m2 = re.search(r"runtime error: (.{0,160})", text)
    if m2: kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))[:60].strip()
    m3 = re.search(r"([a-z0-9_]+\.c):\d+: ?([A-Za-z_0-9]*):? [Aa]ssertion", text) or re.search(r"ERROR:[^:\n]*?([a-z_0-9]+\.c):\d+:([a-z_0-9]+):", text)
    if m3: kind = "abort:" + m3.group(2)
    fr = []
    for fn, path in re.findall(r"#\d+ 0x[0-9a-f]+ in ([A-Za-z_0-9]+)[^\n]*?(/[^\s:()]+)", text):
        if "/src/oifitslib/" in path or "/src/util/" in path:
            if fn not in fr: fr.append(fn)
        if len(fr) == 2: break
    # a crash inside CFITSIO is identified by the CFITSIO function in which it happens
    for fn, path in re.findall(r"#\d+ 0x[0-9a-f]+ in ([A-Za-z_0-9]+)[^\n]*?(/[^\s:()]+)", text):
        if "libcfitsio" in path and "buffer overflow detected" in text: return "crash:overflow-inside-cfitsio-" + fn, re.sub(r"\s+", " ", text)[:1800]
        if "/src/" in path or "/harness/" in path: break
    return "crash:" + kind + "@" + ",".join(fr), re.sub(r"\s+", " ", text)[:1800]


def read_prog(p):
    try:
        b = open(p, "rb").read()
        cas, done = struct.unpack("<qi", b[:12])
        return cas, done, b[12:12 + 1024].split(b"\0")[0].decode("latin1")
    except Exception:
        return -1, 0, ""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fails, self.cov, self.ev, self.samples, self.digs = [], {}, {}, [], {}
        self.cases = 0; self.err = None
        self.stop = False  # a case that never ends was confirmed: enough
        self.deadline = time.time() + (780 if tier == "quick" else 1e9)

    def absorb(self, path, variant):
        if not os.path.exists(path): return
        for line in open(path, errors="replace"):
            try: d = json.loads(line)
            except Exception: continue
            t = d.get("t")
            if t == "fail": self.fails.append(dict(case=d["case"], key=d["key"], msg=d["msg"], variant=variant))
            elif t == "cov": self.cov[d["k"]] = self.cov.get(d["k"], 0) + d["n"]
            elif t == "ev":
                self.ev[d["k"]] = self.ev.get(d["k"], 0) + d["n"]
            elif t == "sample":
                if len(self.samples) < 6: self.samples.append(dict(case=d["case"], what=d["msg"]))
            elif t == "dig": self.digs.setdefault((d["case"], d["name"]), {}).setdefault(variant, set()).add(d["v"])

    def worker(self, w, n, bindir, variant, secs, scratch, only=None):
        """Run cases w, w+NW, ... ; restart after a crash at the following case."""
        cas, restarts, hung = (w if only is None else only), 0, set()
        hi = n if only is None else only + 1
        limit = secs
        slot = lambda c: c if only is not None else c - c % NW + w
        while cas < hi:
            d = os.path.join(scratch, "w%d_%d_%s" % (w, restarts, variant)); os.makedirs(d)
            out, prog, logp = d + ".out", d + ".prog", d + ".san"
            cmd = [bindir + "/oimon", self.prop, "--seed", str(self.seed), "--from", str(cas), "--to", str(hi), "--step", str(NW), "--scratch", d, "--bindir", bindir, "--out", out, "--prog", prog, "--rot", str(0 if only is not None else VARIANTS[variant].get("rot", 0)), "--secs", str(limit)]
            if self.tier == "thorough": cmd.append("--thorough")
            err = open(d + ".err", "wb")
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=san_env(variant, logp), preexec_fn=os.setsid, cwd=d)
            while p.poll() is None and not self.stop and time.time() < self.deadline:
                try: p.wait(0.2)
                except subprocess.TimeoutExpired: pass
            rc = p.poll(); err.close()
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            p.wait(); self.absorb(out, variant)
            if rc is None:
                shutil.rmtree(d, ignore_errors=True); return
            at, done, stage = read_prog(prog)
            if rc == 0 and done:
                shutil.rmtree(d, ignore_errors=True); return
            text = ""
            for f in [d + ".err", d + "/cap.err"] + sorted(glob.glob(logp + ".*"), key=lambda f: (not f.endswith(".%d" % p.pid), f)):
                try: text += open(f, errors="replace").read()[-20000:] + "\n"
                except Exception: pass
            shutil.rmtree(d, ignore_errors=True)
            if rc == 3 or at < 0:
                self.err = "worker failed to start: rc=%s %s" % (rc, text[-500:]); return
            key, msg = crash_key(text)
            if rc == -9 or "hard rss limit" in text: key = "crash:memory-limit@" + re.sub(r"[^a-z_]", "", stage.split(" ")[0] if stage else "")
            if key == "hang":
                if at not in hung:
                    hung.add(at); cas = slot(at); limit = 2 * secs; restarts += 1; continue  # inconclusive: once more, with more time
                key = "hang@" + re.sub(r"[^A-Za-z_]", "", stage.split(" ")[0] if stage else "")
            self.fails.append(dict(case=at, key=key, msg="[%s] %s" % (stage, msg), variant=variant)); limit = secs
            if key.startswith("hang@") and self.tier == "quick": self.stop = True; return
            restarts += 1; cas = slot(at) + NW
            if restarts > 60:
                self.err = None; return  # plenty of witnesses already

    def go(self, only=None, variants=None):
        cfg = PROPS[self.prop]; n = cfg[self.tier]
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 600e6 else None
        scratch = tempfile.mkdtemp(prefix="oimon_", dir=base)
        try:
            for v in variants or cfg.get("variants", ["asan"]):
                b = build(v)
                if only is not None:
                    self.worker(0, n, b, v, cfg.get("secs", 60), scratch, only=only); continue
                with concurrent.futures.ThreadPoolExecutor(NW) as ex:
                    fs = [ex.submit(self.worker, w, n, b, v, cfg.get("secs", 60), scratch) for w in range(min(NW, n))]
                    for f in fs: f.result()
                if self.err or self.stop: break
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        for (cas, name), d in sorted(self.digs.items()):
            allv = set().union(*d.values())
            if len(allv) > 1 and len(d) > 1:
                self.fails.append(dict(case=cas, key="variant-differs:" + name, msg="result '%s' depends on stale memory: %s" % (name, {k: sorted(v) for k, v in d.items()}), variant="asan"))
        self.cases = self.ev.get("cases", 0)


def known_findings(prop):
    """Lines 'finding: property=ID key=REGEX msg=REGEX what'; anchored to one failing key each."""
    res = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (?:msg=/(.*?)/ )?(.*)", line.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    if sys.argv[1:] == ["--build"]:
        for v in VARIANTS: build(v)
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2])); run = Run(r["property"], r["tier"], r["seed"])
        run.go(only=r["case"], variants=None if r["key"].startswith("variant-differs") else [r["variant"]])
        for f in run.fails: print("%s: %s" % (f["key"], f["msg"]))
        return 1 if run.fails else 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); cfg = PROPS[prop]
    ev_path = os.path.join(HERE, "evidence", prop + ".json"); os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path): os.remove(ev_path)
    run = Run(prop, tier, seed)
    run.go()
    if run.err: raise NoVerdict(run.err)
    kf = known_findings(prop); known, viol = {}, {}
    for f in sorted(run.fails, key=lambda f: f["case"]):
        for k, m, what in kf:
            if k == f["key"] and (m is None or re.search(m, f["msg"])): known[what] = known.get(what, 0) + 1; break
        else: viol.setdefault(f["key"], f)
    crashed = sum(1 for f in run.fails if f["key"].startswith(("crash", "hang")))
    for _, _, what in kf: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, "observed in %d cases of this run" % known[what] if what in known else "not met by the cases of this run"))
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True); nviol = 0
    for key, f in list(viol.items())[:12]:
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.md5(key.encode()).hexdigest()[:8]))
        json.dump(dict(property=prop, tier=tier, seed=seed, case=f["case"], key=key, msg=f["msg"], variant=f["variant"], how="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
        print("  case %d %s: %s" % (f["case"], key, f["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); nviol += 1
    # what was observed
    missing = [e for e in cfg.get("need", []) if run.ev.get(e, 0) <= 0]
    if not viol and (missing or run.cases + crashed <= 0):
        raise NoVerdict("monitors observed nothing for: %s (cases %d)" % (missing, run.cases))
    evd = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
        coverage=dict(evaluations=run.cases, distinct_nontrivial=len(run.cov), rule="distinct observed features: each is a tuple (table kind, revision, size class, optional item, operation, fault or outcome) that a monitor actually saw in some execution; trivial repetitions are counted once",
                      exhaustive=bool(cfg.get("exhaustive", False)), samples=run.samples or [dict(case=0, what="see events")], events=dict(sorted(run.ev.items())), features_seen=dict(sorted(run.cov.items(), key=lambda x: -x[1])[:150]), builds=cfg.get("variants", ["asan"])),
        assumptions=cfg.get("assume", []) + ["The property held on the executions listed; paths no workload reached are not covered."],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if known: evd["known_findings"] = known
    json.dump(evd, open(ev_path, "w"), indent=1)
    print("%s %s: %d cases, %d features, %d violation keys, %.1fs" % (prop, tier, run.cases, len(run.cov), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    try: sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e); sys.exit(2)
