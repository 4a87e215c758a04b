#!/usr/bin/env python3
"""Regenerates known_findings.json: the defects repaired in /repo (fixed entries suppress nothing)."""
import json, os, subprocess, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = {
 "node_sh_lex: keep items that have no": ("C26", "an application's completion item without a completion string (its text does not start with the token) got the string \"(null)\" plus the quote inside an open quote"),
 "editline: do not crash on items that have no": ("C23", "ec_editline_append_chars() dereferenced the NULL completion string of an item whose text does not start with the token"),
 "node_any: accept a NULL attribute": ("C04", "ec_node_any(id, NULL) crashed in set_config/strcmp on a NULL attribute when parsing"),
 "complete: do not loop forever": ("C07", "ec_comp_iter_next() never ended when the remaining groups had no item of the requested type"),
 "node_many: do not recurse forever": ("C06", "completing a many node whose child matches nothing without consuming recursed until the stack was exhausted"),
 "node_re_lex: text that cannot": ("C10", "a string the patterns cannot tokenise made the whole parse fail with an error instead of not matching"),
 "node_re_lex: do not leak attributes": ("C03", "the attribute dictionary leaked when adding it to the token failed"),
 "node_sh_lex, node_re_lex: do not consume": ("C04", "an empty string vector was reported as one consumed string when the child accepts nothing"),
 "node_subset: keep only the children": ("C05", "the tree kept children of abandoned attempts of a subset"),
 "node_subset: do not modify the node": ("C08", "completion cleared entries of the node's own child table: later answers differed"),
 "strvec: do not drop a trailing empty": ("C09", "the line \"a ''\" gave one word instead of two"),
 "strvec: report the proper missing quote": ("C09", "an unterminated simple quote was reported as a missing double quote and vice versa"),
 "string: an empty string is not": ("C11", "the empty string was accepted as the integer 0"),
 "node_int, node_uint: check the minimum": ("C11", "the minimum was ignored when no maximum is configured"),
 "node: do not turn back": ("C16", "a grammar referenced from outside a loop could be freed while still referenced"),
 "murmurhash: do not": ("C01", "misaligned 32 bit loads (undefined behaviour) for unaligned keys"),
 "htable: do not dereference": ("C13", "lookups in a NULL table crashed while the other calls accept it"),
 "htable: free the value": ("C13", "the value was not released when ec_htable_set() refuses its arguments, contrary to its contract"),
 "vec, strvec: do not duplicate": ("C12", "ec_vec_ndup/ec_strvec_ndup read outside of the vector for slices past its end"),
 "config: dump signed": ("C14", "unsigned values were printed as negative"),
 "config: count the elements": ("C14", "ec_config_count() of a dictionary read a list head of another union member"),
 "strvec: do not sort": ("C12", "sorting an empty vector gave a NULL pointer to qsort()"),
 "node_or, node_seq: do not free": ("C03", "double free of the child when adding it failed"),
 "node_helper: do not free": ("C03", "double free of a node when building a table of nodes failed"),
 "node_bypass, node_once": ("C03", "constructor succeeded without its child on allocation failure"),
 "node_subset: do not free the child": ("C03", "double free of a child on allocation failure"),
 "node: support loops in ec_node_find": ("C16", "endless recursion on grammars with loops"),
 "nodes: release old children": ("C15", "reconfiguration released the old child before the new one was referenced (use after free)"),
 "node_cond, node_cmd, node_expr: report all": ("C16", "references held by cond, cmd and expr nodes were not reported: loops through them were never or wrongly released"),
 "node_expr: report the failure to build": ("C03", "an expression node without its grammar was returned on allocation failure"),
 "node_expr: evaluate operators": ("C17", "a - b - c was evaluated as a - (b - c)"),
 "node_expr: do not lose operands": ("C17", "operands were leaked or released twice when an evaluation callback fails"),
 "node_cmd: properly release": ("C03", "leaks and double releases while building a command on allocation failure"),
 "node_cmd: support the documented": ("C18", "the documented '+' operator was refused"),
 "node_cmd: keep alternatives": ("C18", "a|b|c modified the user's own nodes and lost the order of alternatives"),
 "string: release the buffer": ("C02", "ec_vasprintf() released ec_malloc()ed memory with free()"),
 "node_cond: check the condition": ("C19", "the condition was evaluated when the child did not match, and on a result without the child"),
 "node_cond: fix the comparison": ("C19", "comparing node sets compared pointers of the wrong sets"),
 "node_cond: check the result of ec_realloc": ("C03", "NULL dereference when a resize fails"),
 "node_file: no completion if": ("C21", "an unreadable directory made the whole completion fail"),
 "node_file: do not fail on dangling": ("C21", "a dangling link made the whole completion fail on file systems without d_type"),
 "node_file: report the failure": ("C03", "allocation failures silently dropped proposals"),
 "node_dynamic: keep": ("C20", "completion items referred to released dynamic nodes (use after free)"),
 "complete: do not keep a reference": ("C07", "merging two completion lists left groups pointing to the released list"),
 "nodes: report an error instead": ("C01", "parsing or completing a node that was never configured crashed"),
 "yaml: do not delete a parser": ("C22", "an unreadable file path released an uninitialised parser"),
 "yaml: refuse a node without type": ("C22", "a node without type crashed the import"),
 "yaml: do not use lists": ("C22", "a list or a mapping where a string is expected was read as a string (wild pointer)"),
 "yaml: an empty string": ("C22", "an empty scalar was imported as the integer 0"),
 "editline: release ec_malloc": ("C02", "memory of the registered allocator was given to free()"),
 "editline: do not give a NULL prompt": ("C23", "a NULL prompt crashed libedit"),
 "editline: do not keep a reference": ("C23", "disabling the history left libedit with a released history (use after free)"),
 "editline: keep the last character": ("C23", "the last character of a line ended by end of file was dropped"),
 "editline: report the failures": ("C03", "failures of the contextual help were ignored: crash or missing entry"),
 "editline: do not take a completion failure": ("C03", "an allocation failure was shown as an ambiguous completion"),
 "complete: do not count an item": ("C07", "an item that could not be added for lack of memory was counted"),
 "libshell: keep blanks": ("C28", "blanks, stars and such of identifiers and words were altered by the shell helpers"),
 "htable: reset errno": ("C29", "a stored NULL value left errno as it was"),
 "string: set errno when an unsigned": ("C29", "ec_str_parse_ullint refused negative, out-of-range and ill-formed text without setting errno"),
 "config: set errno when a string": ("C29", "ec_config_string(NULL) and ec_config_node(NULL) failed without setting errno"),
 "yaml: set errno": ("C29", "most refused documents left errno at 0"),
 "node helper: set errno": ("C29", "a list built from a missing node failed without setting errno"),
 "parse: set errno": ("C29", "ec_pnode_dup(NULL) failed without setting errno"),
 "libshell: do not stop": ("C28", "iteration stopped at a node without identifier"),
 "strvec: do not limit": ("C09", "a line with a word of BUFSIZ bytes or more was refused"),
 "log: do not resize": ("C24", "registering a log type after an allocator resized libc memory with that allocator"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
ent = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [k for k in P if s[5:].startswith(k)]
    if len(k) != 1:
        sys.exit("no entry for %s %s %r" % (h, s, k))
    prop, what = P[k[0]]
    body = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%b", h], text=True)
    body = " ".join(body.split("\n\n")[0].split())
    if body:
        what = body
    ent.append({"status": "fixed", "property": prop, "commit": h, "what": what,
                "line": "fixed: property=%s %s %s" % (prop, h, what)})
# Genuine defects that are recorded: the file lies under examples/, which commits may not touch.
for oracle, what in (
    ("unprotected-quote", "examples/parse-yaml/parse-yaml.c:__dump_as_shell writes a value holding a single quote as is between single quotes (\"XXX protect strings\"), "
     "e.g. the line \"it's\": the script cannot be sourced"),
    ("unknown-listed", "examples/parse-yaml/parse-yaml.c:complete_words lists the candidates without text as (null), e.g. completing '' with the grammar 'type: any'")):
    ent.append({"status": "known", "property": "C28", "scenario": "shell", "oracle": oracle, "match": ".", "what": what,
                "line": "KNOWN-FINDING: property=C28 " + what})
json.dump({"entries": ent}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
print(len(ent))
