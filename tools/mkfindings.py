#!/usr/bin/env python3
"""known_findings.json: genuine defects recorded, and those repaired by fix: commits in /repo (development aid)."""
import json, subprocess
log = dict((s.split(" ", 1)[1], s.split(" ", 1)[0]) for s in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n"))
F = [
 ("P01", "determinise: do not exceed the state limit by one", "fsm_determinise_with_config returned one state more than state_limit"),
 ("P01", "edgeset: always initialise the label set when checking edges against ECs", "uninitialised label bitmap read while determinising"),
 ("P02", "minimise: collect metadata for every state in an equivalence class", "states with different end ids or eager outputs were merged"),
 ("P03", "union_array: shift earlier bases whenever the first operand's states move", "fsm_union_array reported stale base offsets"),
 ("P04", "concat: only the second operand's end states accept", "fsm_concat kept the first operand's end states"),
 ("P08", "epsilons: do not revive stale end ids", "fsm_remove_epsilons revived ids of states no longer ends"),
 ("P04", "concat: free an operand with no states, and set the combine info", "leak, and combine info left unset"),
 ("P05", "stateset: keep the set sorted in state_set_replace", "epsilon sets out of order after removing a state"),
 ("P05", "endids, eager_output: account for states dropped by compaction", "ids moved to the wrong state, or an assertion, after compaction"),
 ("P05", "removestate: keep start, end ids and eager outputs with their states", "fsm_removestate lost the ids of the state it renumbered"),
 ("P05", "edgeset: do not read past the end when removing a group", "heap over-read in edge_set_remove_state"),
 ("P05", "trim: nothing is removed from an fsm with no states", "fsm_trim on a machine with no states failed an assertion"),
 ("P05", "edgeset: copying an empty set into an existing one is a no-op", "merging a state without edges lost the other's edges"),
 ("P05", "stateset: keep the set sorted and unique when compacting", "duplicate epsilons after consolidation"),
 ("P05", "mergestates: keep end, start, end ids and eager outputs", "fsm_mergestates dropped endness, start and ids"),
 ("P09", "union_repeated_pattern_group: link global starts to eager_match_state", "matches missed for groups of unanchored patterns"),
 ("P09", "union_repeated_pattern_group: shift earlier bases when merging", "ids attached to the wrong pattern"),
 ("P09", "union_repeated_pattern_group: distinguish anchored empty matches", "^$ reported for non-empty inputs"),
 ("P10", "fsm_generate_matches: find the start state after trimming", "walk began from a stale state number"),
 ("P12", "fsm_shortest: use the given start state, and never return an unreachable goal", "paths from the wrong state"),
 ("P12", "fsm_shortest: consider every label between two states", "not the least cost where several labels join two states"),
 ("P12", "fsm_shortest: don't overflow when summing costs", "costs near UINT_MAX wrapped"),
 ("P12", "fsm_example: a truncated example is a prefix", "a truncated example skipped bytes"),
 ("P13", "fsm_findmode: no mode when every target occurs once", "a mode reported with frequency 1"),
 ("P13", "fsm_setend: treat any non-zero value as an end state, as documented", "fsm_setend(fsm, s, 2) stored 0 in a bitfield"),
 ("P14", "parse end ids in .fsm as decimal, as they are printed", "ids with leading zeros read as octal"),
 ("P14", ".fsm labels may be a raw NUL byte", "a raw NUL label was refused"),
 ("P15", "fsm_vm_match_file for an empty file", "an empty file never matched"),
 ("P15", "compiling states with no most frequent destination to VM ops", "wrong op for a complete state with 256 different targets"),
 ("P15", "refuse programs with more far branches than the fixed encoding can index", "far branches silently wrapped"),
 ("P16", "call the args hook whether or not there is an accept hook", "the args hook was skipped"),
 ("P16", "vmc strings compared by strncmp() can't contain a NUL", "generated code accepted strings cut at a NUL"),
 ("P16", "generated code for machines with unreachable states besides a start which needs no input", "generated C did not compile or misbehaved"),
 ("P16", "use the reject hook in C for machines with no end states", "the reject hook was skipped"),
 ("P16", "C fragments for machines with no states", "invalid C"),
 ("P21", "prune optional repetition after an end anchor", "$a? refused or matched more"),
 ("P21", "repetition of anchored subexpressions", "(^a)* and similar compiled to the wrong language"),
 ("P20", "assertion for nested counted repetition", "(?:a{2}){2} failed an assertion"),
 ("P22", "escaped NUL bytes in PCRE patterns", "a backslash or \\c before a NUL byte failed an assertion"),
 ("P20", "alternation with a class which has no members", "[^\\x00-\\xff]|x matched nothing"),
 ("P25", "uninitialised error position for ranges which open a class", "[]-A] reported an error at an arbitrary position, or failed an assertion in re_perror"),
 ("P21", "alternatives which are unsupported were compiled anyway", "a|($\\n) compiled to the wrong language rather than being refused"),
 ("P26", "repeats of a newline before an end anchor", "(?s)(?:.$){2} was called unsatisfiable, although two characters of which the last is a newline match"),
 ("P26", "uninitialised length and wrong error from re_is_literal", "*n was not set for unsatisfiable patterns; a bad dialect returned 0"),
 ("P26", "strict and newline end anchors taken to be the same", "a$\\z was called the literal a with an optional newline, and compiled so"),
 ("P27", "strings which end within another string", "re_strings missed matches of strings inside others, e.g. b in {abd, b}; and their end ids"),
 ("P29", 'parenthesise nested repeats when printing PCRE', '(?:a{2})+ printed as the possessive a{2}+'),
 ("P29", 'print end anchors which allow a newline as $ for PCRE', 'a$ printed as a\\z'),
 ("P29", 'print the range of all bytes as "." for PCRE under RE_SINGLE only', '[\\x00-\\xff] printed as . which excludes newline'),
 ("P29", 'print subtracted classes for PCRE', 'an assertion on printing [^a]'),
 ("P29", 'escape spaces and # when printing PCRE for RE_EXTENDED', 'literal spaces lost when reread with RE_EXTENDED'),
 ("P29", "check the AST's flags rather than the regex flags when printing ABNF", 'expressions printed as <RIP> under RE_MULTI'),
 ("P29", 'parenthesise nested repeats when printing ABNF', '(?:a{2}){3} printed as 32 repeats'),
 ("P29", 'parenthesise subtractions when printing ABNF', '[^a]* printed as *OCTET - a'),
 ("P29", 'empty nodes and alternatives when printing ABNF', '(|a|b) printed without a separator between a and b'),
 ("P29", 'case-insensitive characters when printing ABNF', '(?i)a printed as the case-sensitive %s"a"'),
 ("P29", 'assertion on printing {1} and {0} as PCRE', 'an assertion on printing some nested {1}'),
 ("P29", 'print inline flags for PCRE in the form the parser accepts', 'printed (?is), which the parser refuses'),
 ("P29", 'range endpoints which need escaping when printing PCRE', 'printed [\\x01-\\]], which the parser refuses'),
 ('P31', 'idmap overruns its values when the greatest is a multiple of 64', 'idmap_get wrote past its buffer; id sets whose greatest value is a multiple of 64'),
 ('P31', 'bitmaps count bits past the last symbol once inverted', 'bm_count of an inverted bitmap'),
 ('P33', 'tuple sets are freed by free(), not by their allocator', "blocks from the caller's allocator given to free()"),
 ('P32', 'a machine which could not be made is used after it is freed', 'fsm_new_statealloc freed and then used the machine when an allocation failed'),
 ('P32', 'determinising after a failed allocation uses freed memory or leaks the DFA', 'fsm_determinise with failing allocations'),
 ('P32', 'a pool of interned sets without its buffer after a failed allocation', 'interned sets with failing allocations'),
 ('P32', 'sets lose their only state, or leak, when they cannot grow', 'state sets and edge sets with failing allocations'),
 ('P32', 'consolidating and shuffling ignore failed allocations', 'fsm_consolidate, fsm_shuffle with failing allocations'),
 ('P32', 'compacting states ignores failed allocations', 'fsm_compact_states, fsm_trim with failing allocations'),
 ('P32', 'epsilon closures ignore failed allocations', 'epsilon_closure with failing allocations'),
 ('P32', "the caller's machine is freed when it cannot be completed", 'fsm_complete with failing allocations'),
 ('P32', 'a failed search for end states is reported as a non-empty machine', 'fsm_empty returned 0 when an allocation failed'),
 ('P32', 'comparing machines reports equality when it fails', 'fsm_equal returned 1 when an allocation failed'),
 ('P32', 'a partly built IR is freed twice, or leaks', 'printing with failing allocations'),
 ('P32', 'reversing ignores failed allocations, or leaves half of the edges reversed', 'fsm_reverse with failing allocations'),
 ('P32', 're_comp() asserts an error code which a failed allocation does not set', 're_comp with failing allocations'),
 ('P32', 'combining machines asserts, or leaks, when an allocation fails', 'fsm_union, fsm_concat, fsm_merge, fsm_union_array, fsm_union_repeated_pattern_group, ast_compile with failing allocations'),
 ('P32', 'eager outputs of renumbered states after a failed allocation', 'fsm_compact_states with failing allocations'),
 ('P33', 'leaks of sets and ids when intersecting or printing fails', 'fsm_intersect_charset and the dot and json printers with failing allocations'),
 ('P18', 'dot output has empty labels, which dot refuses', 'anonymous states printed label = <>'),
 ('P18', "JSON output with an accept hook isn't JSON", 'endleaf printed pairs without brackets'),
 ('P18', "API output doesn't compile", 'missing declarations and wrong calls in the api output'),
 ('P18', 'API output never reaches the end state when it is also the start', 'the single end state was not stored when it is the start'),
 ('P18', 'labels omit the character after a range which was cut short', '[0-9:] printed as 0-9'),
 ('P18', 'API output sets ids by their index rather than their value', 'fsm_endid_set was given 0, 1, 2'),
 ('P17', "hex for NUL in LLVM output isn't valid", 'u00 rather than u0x00'),
 ('P17', 'NASM takes hex above 9fh for symbols', 'a0h is a symbol'),
 ('P17', "Go assembly for strings isn't named as its declaration", 'TEXT lacked the prefix under -k str'),
 ('P17', "Rust output for unreachable states doesn't compile", 'return None without ; before more code'),
 ('P17', 'Rust fragments are always reported as failing to print', 'fsm_print returned -1'),
 ('P17', 'awk character literals for quotes, and in hex', 'unescaped quote; bytes over 127 and -X compared as numbers'),
 ('P17', 'awk comments', '/* e.g. */ is a regular expression in awk'),
 ('P17', "sh output for start states with incoming edges isn't valid", 'start) followed by l0) without ;&'),
 ('P17', "sh output doesn't escape quotes", "[[ $c = ' ]]"),
 ('P17', 'Go output places the args hook after the parameter list', 'func Match(data string), extra int bool'),
 ('P17', 'sh output depends on the locale', 'LANG=C is overridden by LC_ALL or LC_CTYPE'),
 ("P35", "fsm -x matches the first file only", "fsm -x with several files"),
 ("P35", "fsm -G exits 1 on success, and asserts for an NFA", "fsm -G"),
 ("P35", "assertions for queries on machines with no states", "fsm -q epsilonclosure and requiredchars for an empty machine"),
 ("P35", "assertion for re -uz when several patterns match", "re -uz a a a"),
 ("P35", "re -z names the wrong patterns when they are followed by --", "re -z a b -- b"),
 ("P17", "assertion printing a Go fragment for an IO API it has not got", "fsm -wpl go"),
 ("P17", "the Go return type for multiple ids goes to stdout", "Go output under AMBIG_MULTIPLE to a file other than stdout"),
 ('P36', 'lx gives UNKNOWN after trailing input skipped by the last rule', 'trailing input matched by a skip rule at the end of the input'),
 ('P37', 'lexers give back a character they have not read, at the end of input', 'end of input in the middle of a token: out-of-bounds read (pair) and wrong positions'),
 ('P36', 'lx assertion for an undefined variable inside a zone', 'undefined variable inside a zone'),
 ('P36', 'lx uses an uninitialised AST when the first token is unrecognised', 'specification starting with an unrecognised token'),
 ('P36', 'lx overflows a buffer for patterns over 512 characters', 'patterns over 512 characters'),
 ('P36', 'lx assertions for patterns matching nothing, and zones with no mappings', 'patterns matching nothing and zones with no mappings'),
 ('P37', 'lexers pop a token buffer of the wrong kind, or when none is set', '-b dyn -b fixed, or no push function set'),
 ('P19', 'leak when the conflict hook fails', 'ids and example leak when the conflict hook returns -1'),
 ('P19', 'examples are cut short where bytes are escaped', 'a conflict at the end of the bytes 00 ff: the example is empty or cut'),
 ('P19', 'reporting a conflict asserts for an NFA with epsilons', 'AMBIG_ERROR for an NFA with an epsilon transition asserts in fsm_example'),
 ('P37', 'dgetc gives EOF for byte 0xff', 'byte 0xff read through dgetc'),
 ('P37', 'token buffers are never filled for strings and pairs without positions', '-k str|pair -x pos with a token buffer'),
 ('P37', 'lx examples are all empty strings', 'lx_example'),
 ('P37', 'lx -C mixes up mappings between zones built at the same time', 'lx -C 2 with two zones'),
 ('P32', 'the minimisation oracle overruns its groups when every state has its own', 'heap overrun in fsm_minimise_test_oracle (EXPENSIVE_CHECKS)'),
 ('P32', 'detect_required leaks and leaves states marked when growing its stack fails', 'fsm_detect_required_characters on a chain of more than 16 states, the second allocation failing: leaks, and asked again it finds nothing required'),
 ('P15', 'programs of 256 bytes or more are loaded with the wrong length', 'a program of 490 bytes saved by fsm_dfavm_save cannot be loaded'),
]
KF = [
 {"property": "P35", "what": "fsm applies only the last of several -t transformations, though its manual says they are applied in order", "keys": ["several-transformations"], "cases": ["transformations in order"]},
 {"property": "P35", "what": "fsm answers only the last of several -q queries, though its manual says they are anded", "keys": ["several-queries"], "cases": ["queries anded"]},
 {"property": "P21", "what": "a repeated group which holds an anchor (such as (^|a){2}) compiles to a different language than PCRE gives", "list": "known/P21-repeat.txt"},
 {"property": "P21", "what": "an anchor next to newlines, another kind of anchor or an optional part (such as a(\\z|$) or, with RE_ANCHORED, ($|a)a?) compiles to a different language than PCRE gives", "list": "known/P21-mixed.txt"},
 {"property": "P27", "what": "re_strings with end ids and without RE_STRINGS_ANCHOR_RIGHT does not accept subjects which continue past the string", "list": "known/P27-ids.txt"},
]
out = []
for p, s, w in F:
    h = log["fix: " + s]
    out.append("fixed: property=%s %s %s" % (p, h, w))
missing = set(k for k in log if k.startswith("fix: ")) - set("fix: " + s for _, s, _ in F)
if missing: print("not listed:", missing)
json.dump({"findings": KF, "fixed": out}, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=True)
