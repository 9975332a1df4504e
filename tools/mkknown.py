#!/usr/bin/env python3
"""tools/mkknown.py P21: (re)generates the list files of recorded findings. Development aid; never run by a check."""
import os, sys, json, subprocess, re, tempfile
sys.path.insert(0, "/verif")
from lib import vbuild
def run(src, args, variant="rel"):
    exe = vbuild.harness(src, ["h/%s.cc" % src], variant); d = tempfile.mkdtemp(); out = set(); ps = []
    for i in range(8):
        o = "%s/%d" % (d, i)
        ps.append(subprocess.Popen([exe, "--shard=%d" % i, "--nshards=8", "--seed=1", "--maxfails=10000000", "--out=" + o] + args, cwd=d, stdout=subprocess.DEVNULL))
    for p in ps: p.wait()
    for i in range(8):
        for f in json.load(open("%s/%d" % (d, i), encoding="latin-1"))["fails"]: out.add((f["key"], f["case"]))
    subprocess.run(["rm", "-rf", d]); return out
def write(name, rows):
    with open("/verif/known/" + name, "w", encoding="latin-1") as f: f.writelines("%s\t%s\n" % r for r in sorted(rows))
    print(name, len(rows))
if "P21" in sys.argv:
    R = set()
    for a in (["--n=6", "--nl", "--tier=quick"], ["--n=7", "--tier=thorough"], ["--n=7", "--nl", "--opt", "--tier=thorough"]): R |= run("p21", a)
    rep = set(r for r in R if re.search(r"[)^$z][*+?{]|\)\{", r[1]))
    write("P21-repeat.txt", rep); write("P21-mixed.txt", R - rep)
if "P27" in sys.argv: write("P27-ids.txt", run("p27", ["--known-ids"]))
