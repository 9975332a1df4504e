"""Builds libfsm from /repo's working tree, and harnesses on top of it, into /verif/.build.

Objects are cached by content (source + every header in the tree + flags), so a stale object can never be used: a check
always judges the code that is in the working tree now.
"""
import hashlib, os, re, subprocess, sys, glob, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NCPU = os.cpu_count() or 4

class BuildError(Exception):
    pass

VARIANTS = {
    # asserts stay on in every variant, as in the project's own build
    "rel":  dict(cc="gcc", cxx="g++", flags=["-g1", "-O2"]),
    "asan": dict(cc="gcc", cxx="g++", flags=["-g1", "-O1", "-fsanitize=address,undefined",
                 "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-fno-sanitize=alignment"]),
}

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(map(shlex.quote, cmd)), p.stdout[-4000:]))
    return p.stdout

def sources():
    """{component: [source]} from the SRC += lines of the project's Makefiles."""
    out = {}
    for mk in sorted(glob.glob(REPO + "/src/**/Makefile", recursive=True)):
        txt = open(mk).read()
        dia = re.findall(r"^DIALECT \+= (\w+)", txt, re.M)
        for s in re.findall(r"^SRC\s*\+=\s*(\S+)", txt, re.M):
            for x in ([s.replace("${dialect}", d) for d in dia] if "${dialect}" in s else [s]):
                if not os.path.exists(os.path.join(REPO, x)):
                    continue
                comp = x.split("/")[1]
                out.setdefault(comp, [])
                if x not in out[comp]:
                    out[comp].append(x)
    # generated character classes are listed by shell substitution
    for x in sorted(glob.glob(REPO + "/src/libre/class/*.c")):
        x = x[len(REPO) + 1:]
        if x not in out["libre"]: out["libre"].append(x)
    return out

def src_flags(s):
    f = ["-I", "include", "-I", "src"]
    if s.startswith("src/libfsm/"): f += ["-I", "src/libfsm"]
    if s.startswith("src/libre/class/"): f += ["-I", "src/libre", "-D", 'LF_HEADER="class.h"']
    b = os.path.basename(s)
    if b == "lexer.c": f += ["-D", 'LX_HEADER="lexer.h"']
    m = re.match(r"src/libre/dialect/(\w+)/parser\.c$", s)
    if m:
        f += ["-D", "DIALECT=" + m.group(1)]
        if m.group(1) == "pcre": f += ["-D", "PCRE_DIALECT=1"]
    return f

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d in ("include", "src"):
            for root, _, files in sorted(os.walk(os.path.join(REPO, d))):
                for f in sorted(files):
                    if f.endswith((".h", ".inc", ".act", ".def")) or f.endswith(".inl"):
                        p = os.path.join(root, f)
                        h.update(p[len(REPO):].encode()); h.update(open(p, "rb").read())
        # a .c file included by another one
        _hdr = h.hexdigest()
    return _hdr

def read(p):
    with open(p, "rb") as f: return f.read()

def write_if_changed(p, data):
    if os.path.exists(p) and read(p) == data: return False
    tmp = p + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f: f.write(data)
    os.replace(tmp, p); return True

def compile_obj(variant, s, extra=()):
    v = VARIANTS[variant]
    cmd = [v["cc"], "-std=c99", "-D_POSIX_C_SOURCE=200809L" if False else "-w", "-pthread"] + v["flags"] + src_flags(s) + list(extra)
    key = hashlib.sha256(("\0".join(cmd) + "\0" + s + "\0" + headers_hash()).encode() + read(os.path.join(REPO, s))).hexdigest()[:32]
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, key + ".o")
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        sh(cmd + ["-c", s, "-o", tmp], cwd=REPO)
        os.replace(tmp, o)
    return o

def pool(fn, items):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(fn, items))

def syms(path):
    return [l.split("#")[0].strip() for l in open(path) if l.split("#")[0].strip()]

EXTRA_KEEP = {
    "libfsm": ["fsm_compact_states", "fsm_set_alloc", "fsm_endid_set_bulk", "fsm_endid_iter", "fsm_endid_iter_bulk", "fsm_endid_iter_state", "fsm_clearstart", "fsm_consolidate", "fsm_dfavm_save", "fsm_dfavm_load",
               "fsm_capture_rebase_capture_action_states"],
    "libre": ["re_ferror", "ast_rewrite", "ast_analysis"],
}

def comps(variant, want=("adt", "print", "libfsm", "libre"), extra=()):
    """Partially linked component objects, as the project's own build makes them. Returns [paths]."""
    S = sources()
    jobs = [(c, s) for c in want for s in sorted(S[c])]
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(REPO, j[1])))
    objs = dict(zip(jobs, pool(lambda j: compile_obj(variant, j[1], extra), jobs)))
    outs = []
    d = os.path.join(BUILD, "comp"); os.makedirs(d, exist_ok=True)
    for c in want:
        mine = [objs[(c, s)] for s in sorted(S[c])]
        keep = None
        if c in EXTRA_KEEP:
            keep = syms(os.path.join(REPO, "src", c, c + ".syms")) + EXTRA_KEEP[c]
        key = hashlib.sha256(("\0".join(mine) + repr(keep)).encode()).hexdigest()[:32]
        o = os.path.join(d, c + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            sh(["ld", "-r", "-o", tmp] + mine)
            if keep:
                kf = tmp + ".syms"
                open(kf, "w").write("\n".join(keep) + "\n")
                # asan's own symbols must stay visible
                sh(["objcopy", "--wildcard", "--keep-global-symbols=" + kf, "--keep-global-symbol=__asan*",
                    "--keep-global-symbol=asan.*", tmp])
                os.unlink(kf)
            os.replace(tmp, o)
        outs.append(o)
    return outs

def own_sections(o):
    """A component with its static data in sections of its own, so that a harness can tell it from other data."""
    new = o[:-2] + "-sect.o"
    if not os.path.exists(new):
        secs = sorted(set(re.findall(r"^ +\d+ (\.(?:data|bss)\S*)", sh(["objdump", "-h", o]), re.M)))
        tmp = new + ".tmp%d" % os.getpid()
        sh(["objcopy"] + [x for n in secs if not n.startswith(".data.rel.ro") for x in ("--rename-section", n + "=" + ("libbss" if n.startswith(".bss") else "libdata"))] + [o, tmp])
        os.replace(tmp, new)
    return new

def harness(name, srcs, variant="rel", libs=True, extra=(), link=(), libextra=(), sections=False):
    """Compile C++/C sources under /verif into an executable linked with the components."""
    v = VARIANTS[variant]
    link = list(link); program = None
    for s in srcs: # a harness may name its own linker arguments
        for l in open(os.path.join(VERIF, s)):
            if l.startswith("// LINK:"): link += l[8:].split()
            if l.startswith("// LIBS:"): libextra = list(libextra) + l[8:].split() # and flags the library is compiled with
            if l.startswith("// SECTIONS"): sections = True
            if l.startswith("// WITH:"): program = l[8:].strip() # one of the project's programs, its main renamed
    parts = comps(variant, extra=libextra) if libs else []
    if sections: parts = pool(own_sections, parts)
    if program: parts += pool(lambda s: compile_obj(variant, s, tuple(libextra) + ("-Dmain=%s_main" % program,)), sorted(sources()[program]))
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/lib/*.h")): h.update(read(f))
    hh = h.hexdigest()
    def one(s):
        s = os.path.join(VERIF, s)
        cxx = s.endswith((".cc", ".cpp"))
        cmd = [v["cxx"] if cxx else v["cc"], "-std=gnu++17" if cxx else "-std=gnu11", "-w", "-pthread"] + v["flags"] + \
              ["-I", VERIF + "/lib", "-I", REPO + "/include", "-I", REPO + "/src"] + list(extra)
        key = hashlib.sha256(("\0".join(cmd) + s + hh + headers_hash()).encode() + read(s)).hexdigest()[:32]
        d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
        o = os.path.join(d, key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            sh(cmd + ["-c", s, "-o", tmp]); os.replace(tmp, o)
        return o
    objs = pool(one, srcs)
    key = hashlib.sha256("\0".join(objs + parts + list(link) + [variant]).encode()).hexdigest()[:32]
    d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh([v["cxx"], "-pthread"] + v["flags"] + ["-o", tmp] + objs + parts + list(link)); os.replace(tmp, exe)
    return exe

def program(prog, variant="rel"):
    """The project's own fsm / re / rx / lx program."""
    S = sources()
    parts = comps(variant)
    objs = pool(lambda s: compile_obj(variant, s), sorted(S[prog]))
    key = hashlib.sha256("\0".join(objs + parts).encode()).hexdigest()[:32]
    d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, prog + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh([VARIANTS[variant]["cc"], "-pthread"] + VARIANTS[variant]["flags"] + ["-o", tmp] + objs + parts + ["-lm"]); os.replace(tmp, exe)
    return exe

def prune(maxbytes=1500 << 20):
    """Keep the cache bounded (oldest first)."""
    fs = []
    for sub in ("obj", "comp", "bin"):
        for f in glob.glob(os.path.join(BUILD, sub, "*")):
            try: st = os.stat(f); fs.append((st.st_atime, st.st_size, f))
            except OSError: pass
    tot = sum(x[1] for x in fs)
    for a, n, f in sorted(fs):
        if tot < maxbytes: break
        try: os.unlink(f); tot -= n
        except OSError: pass

if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    import time
    t = time.time()
    for v in sys.argv[1:] or ["rel"]:
        print(v, comps(v), "%.1fs" % (time.time() - t))
    for p in ("fsm", "re", "rx", "lx"): print(program(p), "%.1fs" % (time.time() - t))
