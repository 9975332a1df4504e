#!/usr/bin/env python3
"""Mutation probe (development aid): tools/mutate.py MAPFILE N [seed] applies small operator mutations to a scratch clone (/tmp/s) and
asks the mapped property's check (quick) whether it notices. Misses go to /tmp/mut.log with their diff.
MAPFILE lines: path P01,P02 [first-last]"""
import sys, os, re, random, subprocess, time, json, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2 and sys.argv[1] == "--one":
    os.environ.setdefault("VERIF_TIER", "quick")
    sys.path.insert(0, VERIF); os.chdir(VERIF)
    from lib import vbuild, driver
    import checks
    class Caught(Exception): pass
    def explore(ctx, exe, args=(), asan=False, label="", hang_s=60, deadline=None, nshards=8, **k):
        env = dict(os.environ, **driver.ASAN_ENV)
        kf = os.path.join(ctx.tmp, "known.txt")
        with open(kf, "w", encoding="latin-1") as f:
            for kk in driver.known_findings(ctx.pid): f.writelines("%s\t%s\n" % x for x in kk["pairs"])
        ps = []
        for i in range(nshards):
            out = os.path.join(ctx.tmp, "m%d" % i)
            if os.path.exists(out): os.unlink(out)
            ps.append(subprocess.Popen(["setarch", "-R", exe] + list(args) + ["--shard=%d" % i, "--nshards=%d" % nshards, "--seed=1", "--tier=quick", "--maxfails=1",
                "--known=" + kf, "--deadline=60", "--out=" + out, "--shared=" + out + ".sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env,
                preexec_fn=driver._limits(asan, 3), cwd=ctx.tmp))
        t = time.time(); bad = None; live = set(range(nshards))
        while live and not bad:
            time.sleep(0.05)
            for i in list(live):
                rc = ps[i].poll()
                if rc is None: continue
                live.discard(i)
                out = os.path.join(ctx.tmp, "m%d" % i)
                if rc != 0: bad = "exit %d" % rc
                else:
                    d = json.load(open(out, encoding="latin-1"))
                    if d["fails"]: bad = d["fails"][0]["key"] + ": " + d["fails"][0]["msg"][:80].replace("\n", " ")
            if time.time() - t > 120: bad = "hang"
        for p in ps:
            p.kill(); p.wait()
        if bad: raise Caught(bad)
    driver.explore = explore
    if hasattr(checks, "explore"): checks.explore = explore
    for pid in sys.argv[2].split(","):
        ctx = driver.Ctx(pid, "quick", 1)
        try:
            for r in checks.CHECKS[pid]["runs"]: r(ctx)
            if ctx.fails: raise Caught(ctx.fails[0]["key"])
        except Caught as e:
            print("caught", pid, e); sys.exit(1)
        except vbuild.BuildError as e:
            print("build error"); sys.exit(2)
        except RuntimeError as e:
            print("caught", pid, "died", str(e)[:80]); sys.exit(1)
        finally: ctx.close()
    sys.exit(0)

S = "/tmp/s"
OPS = [(r"(?<![<>=!\-+])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"(?<!>)>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ 1\b", [" + 0"]), (r" - 1\b", [" - 0"]), (r"\+\+", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bcontinue;", [";", "break;"]), (r"\bbreak;", ["continue;"]), (r" \+= ", [" = "]), (r" \|= ", [" = "]), (r"\breturn 1;", ["return 0;"]), (r"\breturn 0;", ["return 1;"]),
       (r"(?<=[^!])!(?=[a-z(])", [""]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), ("STMT", [""])]
def sites(path, lo, hi):
    out = []; incom = False; skip = 0
    for n, l in enumerate(open(path, encoding="latin-1").read().split("\n")):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*") and "*/" not in s: incom = True; continue
        if s.startswith("#if") and re.search(r"LOG|EXPENSIVE|DEBUG|TRACE|DUMP|NDEBUG|__GNUC__", s): skip = 1; continue
        if skip:
            if s.startswith("#if"): skip += 1
            elif s.startswith("#endif"): skip -= 1
            elif s.startswith("#else") and skip == 1: skip = 0
            continue
        if s.startswith(("#", "*", "/*", "//", "assert", "LOG", "INIT_TIMER", "TIME", "DISPLAY", "fprintf(stderr", "EC_STATUS")) or not (lo <= n + 1 <= hi): continue
        if not l.startswith(("\t", " ")): continue
        bare = re.sub(r'"(\\.|[^"\\])*"|/\*.*?\*/|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group(0)), l)
        if "fsm_free" in s or "f_free" in s or "ERRNO" in s.upper() or "assert" in s or "->opaque" in s and False: continue
        for rx, subs in OPS:
            if rx == "STMT":
                if re.match(r"^\s+[a-z_>\-\.\[\]\w]+ (=|\|=|\+=|&=) [^;]*;$", bare) or re.match(r"^\s+[a-z_]\w*\([^;]*\);$", bare): out.append((n, 0, len(l), ";"))
                continue
            for m in re.finditer(rx, bare):
                for r in subs: out.append((n, m.start(), m.end(), r))
    return out
def main():
    maps = []
    for l in open(sys.argv[1]):
        w = l.split()
        if not w or w[0].startswith("#"): continue
        lo, hi = map(int, w[2].split("-")) if len(w) > 2 else (1, 10**9)
        maps.append((w[0], w[1], lo, hi))
    N = int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    if not os.path.isdir(S): subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    log = open("/tmp/mut.log", "a")
    env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/sb")
    todo = []
    for path, pids, lo, hi in maps:
        st = sites(os.path.join(S, path), lo, hi)
        random.Random(path + seed).shuffle(st)
        todo.append((path, pids, st[:N]))
    tot = caught = 0
    for k in range(N):
        for path, pids, st in todo:
            if k >= len(st): continue
            subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
            n, a, b, r = st[k]
            f = os.path.join(S, path); src = open(f, encoding="latin-1").read(); L = src.split("\n")
            old = L[n]; L[n] = old[:a] + r + old[b:]
            open(f, "w", encoding="latin-1").write("\n".join(L))
            t = time.time()
            try:
                p = subprocess.run([sys.executable, os.path.abspath(__file__), "--one", pids], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=420)
                rc, txt = p.returncode, p.stdout.decode("utf-8", "replace").strip().splitlines()
            except subprocess.TimeoutExpired: rc, txt = 3, ["timeout"]
            last = txt[-1] if txt else ""
            if rc == 2: verdict = "BUILD"
            elif rc == 1 and last.startswith("caught"): verdict = "caught"
            elif rc == 0: verdict = "MISS"
            else: verdict = "?? rc=%d" % rc
            if verdict != "BUILD": tot += 1; caught += verdict == "caught"
            log.write("%s %s:%d %s [%d s] %s\n" % (verdict, path, n + 1, pids, time.time() - t, last[:150] if verdict != "MISS" else "\n   - %s\n   + %s" % (old.strip(), L[n].strip())))
            log.flush()
    log.write("DONE %s: %d of %d caught\n" % (sys.argv[1], caught, tot)); log.flush()
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
main()
