"""Runs exploration harnesses over shards, attributes crashes and hangs to a case, replays every failure in a fresh process
before reporting it, and writes evidence/<id>.json."""
import json, os, subprocess, sys, time, mmap, struct, tempfile, shutil, signal, hashlib, resource
from . import vbuild

VERIF = vbuild.VERIF
NSH = 8

class Failure(dict):
    pass

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "cases_enumerated": 0, "counters": {}, "samples": []}
        self.knownhit = set()
        self.fails = []          # confirmed
        self.unconfirmed = []
        self.capped = False
        self.notes = []
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        self.thorough = tier == "thorough"
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
    def left(self, total):
        return total - (time.time() - self.t0)
    def sample(self, s):
        if len(self.cov["samples"]) < 12: self.cov["samples"].append(s)
    def count(self, **kw):
        for k, v in kw.items():
            if k in self.cov: self.cov[k] += v
            else: self.cov["counters"][k] = self.cov["counters"].get(k, 0) + v
    def fail(self, key, case, msg, replay):
        """A failure which the caller has already confirmed by a second run."""
        self.fails.append(dict(key=key, case=case, msg=msg, replay=replay))

def _limits(asan, mem_gb):
    def f():
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=1",
            "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}

def read_shared(p):
    try:
        with open(p, "rb") as f:
            d = f.read(32)
        if len(d) < 32: return (-1, 0, 0)
        i, t, done = struct.unpack("<qQq", d[:24])
        return (i, t, done)
    except OSError:
        return (-1, 0, 0)

def _cmd(exe, args, extra):
    return ["setarch", "-R", exe] + args + extra

def run_only(ctx, exe, args, idx, asan, timeout, mem_gb=4, extra=()):
    """One case alone in a fresh process. Returns (status, text): ok / fail / crash / hang."""
    env = dict(os.environ, **ASAN_ENV)
    try:
        p = subprocess.run(_cmd(exe, args, ["--only=%d" % idx, "--seed=%d" % ctx.seed, "--tier=" + ctx.tier] + list(extra)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           preexec_fn=_limits(asan, mem_gb), cwd=ctx.tmp)
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    txt = p.stdout.decode("utf-8", "replace")
    if p.returncode < 0 or p.returncode > 1 or (p.returncode == 1 and "FAIL " not in txt):
        return "crash", "exit status %d: %s" % (p.returncode, txt[-1500:])
    for l in txt.splitlines():
        if l.startswith("FAIL "): return "fail", l[5:]
    return "ok", txt[-300:]

def explore(ctx, exe, args=(), asan=False, label="", hang_s=60, deadline=None, nshards=NSH, mem_gb=3, max_crashes=3, total_limit=800):
    args = list(args)
    if deadline is None: deadline = 7200 if ctx.thorough else 200
    env = dict(os.environ, **ASAN_ENV)
    kf = os.path.join(ctx.tmp, "known.txt")
    if not os.path.exists(kf):
        with open(kf, "w", encoding="latin-1") as f:
            for k in known_findings(ctx.pid): f.writelines("%s\t%s\n" % x for x in k["pairs"])
    procs = {}
    def start(sh, resume=-1):
        tag = "%s-%d" % (label or "r", sh)
        shp = os.path.join(ctx.tmp, tag + ".sh"); out = os.path.join(ctx.tmp, tag + ".json"); err = os.path.join(ctx.tmp, tag + ".err")
        for f in (shp, out):
            if os.path.exists(f): os.unlink(f)
        e = open(err, "wb")
        p = subprocess.Popen(_cmd(exe, args, ["--shard=%d" % sh, "--nshards=%d" % nshards, "--seed=%d" % ctx.seed, "--tier=" + ctx.tier,
                              "--shared=" + shp, "--out=" + out, "--known=" + kf, "--deadline=%d" % deadline, "--resume=%d" % resume]),
                             stdout=subprocess.DEVNULL, stderr=e, env=env, preexec_fn=_limits(asan, mem_gb), cwd=ctx.tmp)
        e.close()
        procs[sh] = dict(p=p, shp=shp, out=out, err=err, resume=resume, tick=None, when=time.time(), crashes=procs.get(sh, {}).get("crashes", 0))
    for sh in range(nshards): start(sh)
    raw = []
    results = []
    broken_run = False
    hung = False
    while procs:
        time.sleep(0.05)
        for sh in list(procs):
            q = procs[sh]
            rc = q["p"].poll()
            if rc is None:
                idx, tick, done = read_shared(q["shp"])
                now = time.time()
                if tick != q["tick"]: q["tick"], q["when"] = tick, now
                elif now - q["when"] > hang_s:
                    q["p"].kill(); q["p"].wait()
                    st, txt = run_only(ctx, exe, args, idx, asan, hang_s * 3, mem_gb)
                    if st == "ok":
                        ctx.notes.append("case %d was slow (%s); alone it ended in time" % (idx, label))
                        start(sh, idx)
                    else:
                        raw.append(dict(idx=idx, key="hang" if st == "hang" else "crash", msg=txt, shard=sh, resume=q["resume"], confirmed=True))
                        hung = True
                        del procs[sh]
                continue
            ok = rc == 0 and os.path.exists(q["out"])
            if ok:
                r = json.load(open(q["out"], encoding="latin-1")); r["shard"] = sh; r["resume"] = q["resume"]
                results.append(r)
                for f in r["fails"]: raw.append(dict(f, shard=sh, resume=q["resume"]))
                del procs[sh]
            else:
                idx, tick, done = read_shared(q["shp"])
                err = open(q["err"], "rb").read().decode("utf-8", "replace")
                if idx < 0:
                    raise RuntimeError("harness died before its first case (status %s): %s" % (rc, err[-1500:]))
                raw.append(dict(idx=idx, key="crash", msg="status %d: %s" % (rc, err[-1500:]), shard=sh, resume=q["resume"]))
                q["crashes"] += 1
                if q["crashes"] >= max_crashes: broken_run = True; del procs[sh]
                else: start(sh, idx); procs[sh]["crashes"] = q["crashes"]
        if hung or time.time() - ctx.t0 > (total_limit if not ctx.thorough else 1e9):
            for sh in procs: procs[sh]["p"].kill(); procs[sh]["p"].wait()
            if not hung: ctx.capped = True; ctx.notes.append("%s: stopped at the time limit" % label)
            procs.clear()
    for r in results:
        ctx.count(evaluations=r["evals"], distinct_nontrivial=r["nontrivial"], states=r["states"], transitions=r["transitions"],
                  traces_validated_against_impl=r["traces"])
        for k, v in r["counters"].items(): ctx.count(**{(label + "." if label else "") + k: v})
        ctx.knownhit.update(tuple(x.split("\t", 1)) for x in r.get("knownhit", []))
        if r["capped"]: ctx.capped = True; ctx.notes.append("%s: shard %d reached its deadline" % (label, r["shard"]))
        for s in r["samples"][:2]: ctx.sample((label + ": " if label else "") + s)
    ctx.cov["cases_enumerated"] += max([r["cases"] for r in results] or [0])
    confirm(ctx, exe, args, asan, label, raw, mem_gb, hang_s, nshards)

def confirm(ctx, exe, args, asan, label, raw, mem_gb, hang_s, nshards):
    seen = {}
    for f in sorted(raw, key=lambda f: f["idx"]):
        k = f["key"]
        if seen.get(k, 0) >= 25: continue
        seen[k] = seen.get(k, 0) + 1
        case = f.get("case")
        if case is None:
            try:
                p = subprocess.run([exe] + args + ["--only=%d" % f["idx"], "--describe", "--tier=" + ctx.tier, "--seed=%d" % ctx.seed], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=hang_s, env=dict(os.environ, **ASAN_ENV), cwd=ctx.tmp)
                case = p.stdout.decode("latin-1").splitlines()[0] if p.stdout else ""
            except Exception:
                case = ""
        cmd = [exe] + args + ["--only=%d" % f["idx"], "--tier=" + ctx.tier, "--seed=%d" % ctx.seed]
        ok = f.get("confirmed", False)
        how = "alone"
        msg = f["msg"]
        if not ok:
            st, txt = run_only(ctx, exe, args, f["idx"], asan, hang_s * 3, mem_gb)
            ok = st in ("fail", "crash", "hang")
            if ok and f["key"] == "crash": msg = txt
        if not ok:
            # depends on what ran before it in the same process: repeat the same shard from the same point
            sh = ["--shard=%d" % f["shard"], "--nshards=%d" % nshards, "--resume=%d" % f["resume"], "--seed=%d" % ctx.seed, "--tier=" + ctx.tier]
            shp = os.path.join(ctx.tmp, "replay.sh"); out = os.path.join(ctx.tmp, "replay.json")
            for x in (shp, out):
                if os.path.exists(x): os.unlink(x)
            try:
                p = subprocess.run(_cmd(exe, args, sh + ["--shared=" + shp, "--out=" + out, "--deadline=300"]), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                   timeout=300, env=dict(os.environ, **ASAN_ENV), preexec_fn=_limits(asan, mem_gb), cwd=ctx.tmp)
                if p.returncode == 0 and os.path.exists(out):
                    r = json.load(open(out, encoding="latin-1"))
                    ok = any(x["idx"] == f["idx"] and x["key"] == f["key"] for x in r["fails"])
                else:
                    ok = f["key"] == "crash" and read_shared(shp)[0] == f["idx"]
            except subprocess.TimeoutExpired:
                pass
            how = "shard"; cmd = [exe] + args + sh
        rec = dict(key=k, case=case, msg=msg, label=label, idx=f["idx"], how=how, cmd=cmd)
        if ok: ctx.fails.append(rec)
        else: ctx.unconfirmed.append(rec)

def known_findings(pid):
    """Recorded findings: each lists the exact (kind of failure, case) pairs it stands for, inline or in a text file."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    r = []
    for k in json.load(open(p, encoding="latin-1")).get("findings", []):
        if k["property"] != pid: continue
        pairs = set((key, c) for key in k.get("keys", []) for c in k.get("cases", []))
        if k.get("list"):
            with open(os.path.join(VERIF, k["list"]), encoding="latin-1") as f:
                pairs.update(tuple(l.rstrip("\n").split("\t", 1)) for l in f if "\t" in l)
        r.append(dict(k, pairs=pairs))
    return r

def is_known(kf, f):
    return (f["key"], f.get("case")) in kf["pairs"]

def finish(ctx, spec):
    known = known_findings(ctx.pid)
    new = []; hit = set(i for i, k in enumerate(known) if k["pairs"] & ctx.knownhit)
    for f in ctx.fails:
        m = [i for i, k in enumerate(known) if is_known(k, f)]
        if m: hit.update(m)
        else: new.append(f)
    for i in sorted(hit): print("KNOWN-FINDING: property=%s %s (%d of its %d listed cases met in this run)" % (ctx.pid, known[i]["what"],
        len(known[i]["pairs"] & (ctx.knownhit | set((f["key"], f.get("case")) for f in ctx.fails))), len(known[i]["pairs"])))
    for i, k in enumerate(known):
        if i not in hit: print("note: listed finding not reproduced in this run: property=%s %s" % (ctx.pid, k["what"]))
    rd = os.path.join(VERIF, "replay", ctx.pid); shutil.rmtree(rd, ignore_errors=True)
    for n in sorted(set(ctx.notes)): print("note:", n)
    for u in ctx.unconfirmed: print("note: not reproducible, not reported: %s %s: %s" % (u["key"], u["case"], u["msg"][:300]))
    if new:
        os.makedirs(rd, exist_ok=True)
        done = set()
        for f in new:
            if f["key"] in done: continue   # one report per kind of failure, the first (smallest) case
            done.add(f["key"])
            p = os.path.join(rd, "%02d-%s.json" % (len(done), "".join(c if c.isalnum() else "_" for c in f["key"])[:40]))
            json.dump(dict(f, property=ctx.pid, tier=ctx.tier, seed=ctx.seed, replay_cmd="python3 run.py %s --replay %s" % (ctx.pid, os.path.relpath(p, VERIF)),
                           others=[x["case"] for x in new if x["key"] == f["key"]][1:10]), open(p, "w"), indent=1)
            print("  %s\n    case: %s\n    %s" % (f["key"], str(f["case"])[:600], f["msg"][:1200].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.relpath(p, VERIF)))
    cov = ctx.cov
    cov["rule"] = spec["rule"]
    cov["exhaustive"] = (not ctx.capped) and not new
    cov["bounds"] = spec.get("bounds", "")
    if ctx.notes: cov["notes"] = sorted(set(ctx.notes))
    if ctx.unconfirmed: cov["unconfirmed"] = len(ctx.unconfirmed)
    lvl = spec["level"]
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=lvl, coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d cases run, %d product states, %d transitions, %d traces, %d violations, %.1f s%s" % (ctx.pid, ctx.tier, cov["evaluations"], cov["states"],
          cov["transitions"], cov["traces_validated_against_impl"], len(new), ev["wall_s"], "" if cov["exhaustive"] else " (not exhaustive)"))
    for k, v in sorted(cov["counters"].items()): print("   %s = %d" % (k, v))
    return 1 if new else 0
