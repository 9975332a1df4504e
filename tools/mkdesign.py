"""DESIGN.md: the hand-written text below, with each check's rule and bounds, the defects found and the seeded changes."""
import json, os, sys, glob, re
sys.path.insert(0, "/verif"); os.chdir("/verif")
import checks
props = [json.loads(l) for l in open("properties.jsonl")]
kf = json.load(open("known_findings.json"))
INTRO = r'''# Model checking libfsm

Family: model checking, that is, bounded exhaustive exploration of the real code. The library is sequential C; almost everything it
promises is "for every string", "for every automaton" or "for every sequence of calls". Nothing here samples: each check names a
finite set of cases (all automata, patterns, texts, call sequences, fault points or schedules up to a bound, and named parametric
families beyond it), runs the *real* code on every one, and decides each case by exploring all states of a product with a reference.

## Machinery

* **Build** (`lib/vbuild.py`): compiles /repo's working tree (sources listed by its own Makefiles) into objects cached by content, so a
  check always judges the code now in the tree. Variants: `rel`, `asan` (address and undefined behaviour sanitizers), and per-harness
  flags (P34: every memory access instrumented). Nothing is hooked in /repo; there are no guarded hooks.
* **Driver** (`lib/driver.py`, `run.py`, `checks.py`): runs a harness in 8 shards, attributes crashes and hangs to the case being run,
  runs every failing case again alone before reporting it, matches it against `known_findings.json`, and writes evidence.
* **Reference** (`lib/ref.h`): a plain automaton model written for this purpose, with `extract()` (reads a real machine through the
  public walkers) and `compare()`, a breadth-first search of *all* reachable states of the product of two subset constructions, with
  end ids and eager outputs as observations. When no product state disagrees the two agree on every string of every length.
* **Enumerators** (`lib/gen.h`, `lib/ids.h`, `lib/rx.h`): all automata with n states and k transitions over a few letters and epsilon, with
  every end set, letters standing for eight different byte-set alphabets in turn; 24 parametric families swept across the sizes at
  which the code changes behaviour (growth thresholds of its tables, pools and stacks are crossed on purpose); syntax trees by size with
  spelling variants.
* **Conformance suites** (`lib/conf.h`): for code whose states cannot be read back (generated programs, the VM) a W-method suite is
  derived from the DFA: transition cover x all bytes x a characterising set. Such a suite is complete for implementations with no more
  states than the machine: passing it means equal behaviour on every string, under that hypothesis, which programs printed with one
  label per state satisfy.
* **Faults and schedules** (`lib/fault.h`, `h/p32.cc`, `h/p34.cc`, `h/p34lx.cc`): an owning allocator which can fail at any chosen
  allocation; coroutines switched at callbacks, allocations and conflicting memory accesses; a controlled scheduler for lx's threads.

How the reference is bound to the implementation: results are always read back from the real data structures or obtained by running the real
code; the model never stands in for it. `extract()` itself is checked (P13) against the construction calls, and P07 replays strings on
the real `fsm_exec` against extracted tables.

Running a check: `python3 run.py P01 [--tier quick|thorough] [--replay FILE]`. A case is identified by its index in the enumeration; a
replay file names harness, arguments and index.
'''
N = {}
N["P01"] = "Oracle: subset construction over the machine as enumerated (not as read from the operation's result). Byte sets stand for letters so that edge-set packing (ranges, words, complements) is exercised. Ids and eager outputs are P08 and P09."
N["P02"] = "Minimality is decided by reference partition refinement, counting classes after trimming. The minimiser's two algorithms (small classes, and DFA label indices) are both reached by the sizes swept."
N["P03"] = "Operand pairs are enumerated; aliases of one machine are not valid operands (operands are freed). Repeated pattern groups are P09."
N["P05"] = "The model is a plain graph with stable names; after every edit the real machine must be isomorphic to it under the renumbering the edit reports. fsm_collate neither marks its new state an end nor moves ids: that is what its header says, so it is modelled so."
N["P10"] = "A callback may answer continue, prune or halt: all answer sequences to a depth are enumerated; rand() is interposed so that every choice of the randomised walk is enumerated too."
N["P11"] = "The operation is exponential without a step limit; where that limit is reached the documented result is required."
N["P14"] = "False alarms met: a label is one character token; two-character labels are refused by design; group_edges output is for people and cannot be parsed. exit() on a syntax error is the documented behaviour of fsm_parse and is intercepted."
N["P16"] = "gcc compiles all printed functions in batches; inputs end at an unreadable page so reading past the end is seen. Code which reports ids needs end states with ids (precondition: print_ids dereferences them)."
N["P17"] = "LLVM IR (clang), AT&T and NASM assembly (gcc, nasm), Go and Go assembly (go build), Rust (rustc), awk (mawk, after rewriting gawk's switch), shell (bash, LC_ALL=C), VM operations (C). A false alarm met: bash's read swallows a newline after a lead byte in a UTF-8 locale; the runner therefore sets LC_ALL=C, while the printed program's own dependence on the locale was a defect. Not covered: hooks other than Go's args (Rust ignores a reject hook while fetching)."
N["P18"] = "Human-readable character-class labels can be ambiguous (members ^ - ]), so they are decoded nondeterministically: any reading equal to the set is accepted."
N["P19"] = "The conflict hook's example may be read with \\xNN decoded or literally at each place (fsm_example does not escape backslashes). Machines with epsilons get no example."
N["P20"] = "The reference is built from the enumerated tree, never from the text, so the parser is part of what is checked. The reference was validated during development against perl on 11190 patterns x 40 subjects."
N["P21"] = "Reference: automata whose states know whether they are at the start, and whether the end or an end-newline was promised. Two families of expressions are genuine known findings (libfsm rewrites anchors inside repeats and next to newlines, optional parts or other kinds of anchors to a different language); each failing expression and flag set is listed by name in known/P21-*.txt, so any other one is still reported. Repairing it would mean redesigning the anchor analysis."
N["P22"] = "Decisions: escapes PCRE does not define are not judged; [[:^name:]] must be refused (unsupported), not miscompiled; escapes such as \\] \\) \\} as range endpoints are refused by libfsm: accepted as refusals."
N["P25"] = "Error positions: a syntax error is reported at the start of the token before the offending one; anchors take no count."
N["P26"] = "Conventions: an unanchored-end literal may be followed by one newline under END_NL; literals which hold a newline are not judged for that; completeness (a literal must be recognised) is required of plain strings only."
N["P27"] = "Known finding: with end ids and no right anchor, subjects which continue past the string are not accepted; every affected set is listed (known/P27-ids.txt)."
N["P29"] = "PCRE and ABNF output are read back by independent readers; PCRE output is also reparsed by libfsm. ABNF anchors are only grammar-checked; `a - b` is libfsm's own extension."
N["P31"] = "adt/ containers in lock step with std:: containers over all operation sequences to a depth, from several initial sizes. edge_set_remove, idmap and bm_invert are not used by the library but are exported to it; fsm_edge.state is 24 bits wide, so states above 2^24 are out of scope."
N["P32"] = "Decided per allocation index: that one alone failing, and it and all after. Required: no crash, no heap misuse, failure reported, queries' operands unchanged, operands not freed behind the caller. Weakened after reading the code: a machine being modified may be left part-way; union, concat and merge free both operands when allocation fails and keep them for EINVAL refusals; intersect and subtract keep both. Code using plain malloc (parsers, VM, IR) is outside the caller's allocator and excluded."
N["P33"] = "Only memory from the caller's allocator is judged, by an owning allocator with guard bytes and quarantine."
N["P34"] = "The library is compiled with -fsanitize=thread but linked with our own runtime, so every access to its static data (which is placed in sections of its own) is seen. There are 120 bytes of static data; re_comp writes a tombstone and fsm_remove_epsilons a log flag (always with the same value). Silent writes are treated as reads; results, not accesses, are judged, so a benign cache raises no alarm. The lx part found nothing on the repaired tree; with the repair of 9b8c09d undone it reports wrong mappings within a few schedules. fsm_generate_matches with randomisation uses rand() and is left out."
N["P35"] = "Programs are run with memfds; what they print is read by lib/fsmtext.h and compared as machines. `re -q equal` asks whether all patterns are equal. Two known findings: fsm applies only the last of several -t and -q, where its manual says otherwise."
N["P36"] = "Maximal munch: walk until no transition leads to a productive state; UNKNOWN if not accepting there, with one character pushed back. At the end of input inside a skip rule: EOF in the global zone, UNKNOWN in an implicit zone's body, either in an explicit zone. Mappings whose pattern has an empty language are only required not to crash lx. Patterns above 512 characters are refused."
N["P37"] = "Custom push functions keep the lookahead character (not judged). A full fixed buffer is treated as end of input, as a FIXME documents."
NA = {}
out = [INTRO, "\n## Properties\n"]
for p in props:
    i = p["id"]; c = checks.CHECKS.get(i)
    out.append("\n### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    if not c: out.append("\nNot claimed.\n"); continue
    out.append("\n*How it is decided* (%s). %s\n" % (c["technique"], c["rule"]))
    if c["bounds"]: out.append("\n*Bounds.* %s\n" % c["bounds"])
    if i in N: out.append("\n*Notes.* %s\n" % N[i])
    fx = [x for x in kf["fixed"] if "property=%s " % i in x]
    if fx: out.append("\n*Defects found and repaired:* %s\n" % "; ".join(re.sub(r"^fixed: property=\w+ ", "", x) for x in fx))
    for f in kf["findings"]:
        if f["property"] == i: out.append("\n*Known finding:* %s (%s)\n" % (f["what"], f.get("list", ", ".join(f.get("keys", [])))))
out.append("""
## Why tests cannot settle these, and what this can reach

Each property quantifies over all strings, machines, patterns, call histories, faults or schedules. Tests check single points. A product
search settles one machine for all strings; the enumeration settles all machines of a size; families carry that past each threshold.
What stays out of reach: machines larger than the bounds which are not in a family, and faults or schedules past the stated bounds.

## Limits shared by all checks

* Exhaustive only to the stated sizes. Cases cut by a cap are counted in the evidence (`cut`, `capped`, `skipped` counters).
* Preconditions are taken from headers and asserts: a call which asserts on misuse is not a violation.
* walk2 and other recursive walks use the C stack; products above about 100k states are out of scope.

## Not modelled

* retest, reperf and cvtpcre (test programs), and theft-based fuzzers.
* SID/ACT sources of generated parsers (the generated C is what is judged).

## Seeded changes (seeded/)

Each was written from a property's text, builds, passes the project's tests and has a demonstration. `tools/seed.sh ID` replays one.

| change | property | what it breaks | needs |
|---|---|---|---|
""")
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s |\n" % (d.split("/")[1], m["property"], esc(m["what_it_breaks"]), esc(m["needs"])))
if os.path.exists("seeded/NOTES.md"): out.append("\n" + open("seeded/NOTES.md").read())
open("DESIGN.md", "w").write("".join(out))
