#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (everything behind the marker) from
props.py, spec.py, seeded/ and ORACLES below."""
import json
import os

import props
import spec

H = os.path.dirname(os.path.abspath(__file__))
MARK = "<!-- generated by design.py from here on -->"
# property: (oracle, seconds of the quick check on 8 idle cores)
ORACLES = {
 "B01": ("position inequalities and CBMC's bounds checks on an exactly sized object", 10),
 "B02": ("the little-endian layout and an independent encoder in the harness", 23),
 "B03": ("a byte-for-byte copy of the contents taken before the call", 35),
 "M01": ("an association list of (key, value) pairs kept by the harness; all pairs of keys, including equal ones, are solver-chosen", 91),
 "M02": ("comparison of key texts byte by byte; hashes made to collide by the solver", 154),
 "M03": ("the association list, with every allocation failing in turn", 39),
 "H01": ("multiset of (key, data); heap order of the public array is the induction invariant of the step harnesses", 20),
 "A01": ("a plain array in the harness", 30),
 "Q01": ("a plain array with two indices in the harness", 32),
 "L01": ("the expected order as an array of node pointers, walked in both directions", 29),
 "S01": ("length, bytes and terminator of the text put in", 41),
 "S02": ("a textbook splitter in the harness", 86),
 "S03": ("textbook trim, substring and leftmost non-overlapping replace", 146),
 "T01": ("the set of pending timers with their deadlines", 52),
 "T02": ("the earliest pending deadline", 48),
 "U01": ("a grammar-directed decomposition in the harness", 94),
 "I01": ("a reference parser in the harness", 0),
 "O01": ("a direct reading of the documented forms", 4),
 "C01": ("the bitwise definition, through its linear form (harness `lemma` proves one from the other)", 180),
 "G01": ("the smallest power of two by its defining inequalities", 2),
 "G02": ("exact 128-bit arithmetic", 41),
 "G03": ("RC4 key schedule and output step written from the definition", 40),
 "X01": ("a second, value-level formatter; writes are checked against an exactly sized buffer", 55),
 "X02": ("the sequence of calls the stubbed system saw", 5),
 "D01": ("64-bit arithmetic on the timespec the stub delivered / was asked for", 13),
 "E01": ("counters of live mutexes and attributes in the pthread stub", 2),
 "E02": ("sequentially explored schedules: the stub of pthread_cond_wait hands control to the other side at solver-chosen points", 52),
 "E03": ("counters in the pthread stub; the thread function runs inside create or join, solver-chosen", 5),
 "P01": ("table of descriptors and mappings in the system-call stub", 19),
 "K01": ("the event mask the stubbed kernel holds for the descriptor", 4),
 "K02": ("the meaning of each kernel event bit", 5),
 "K03": ("the result the stubbed system gave, by case", 5),
 "K04": ("table of descriptors, address lists and allocations in the stub", 127),
 "K05": ("durations in microseconds, flag words, host/port text of the address the stub delivered", 106),
 "N01": ("what each stubbed sink received, per call", 8),
 "N02": ("a model of the log directory: names, open handles, sizes", 8),
 "F01": ("table of counter descriptors and the stub's clock", 38),
}


def main():
    p = os.path.join(H, "DESIGN.md")
    head = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
    out = ["## Properties\n"]
    seeds = {}
    sd = os.path.join(H, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        seeds.setdefault(m["property"], []).append((s, m))
    for q in props.ALL:
        i = q["id"]
        s = spec.PROPS.get(i)
        out.append("### %s %s\n" % (i, q["title"]))
        if not s or not s.get("harnesses"):
            out.append("Not applicable: %s\n" % spec.NA.get(i, "no check built yet"))
            continue
        out.append("*Oracle*: %s.\n" % ORACLES[i][0])
        out.append("*Bounds*: %s\n" % s["note"])
        hs = []
        for h in s["harnesses"]:
            t = "`%s`%s" % (h["name"], " (thorough only)" if h.get("tier") == "thorough" else "")
            b = h.get("bounds") or (h.get("quick") or {}).get("bounds") or ""
            hs.append("%s %s%s" % (t, h.get("what", ""), " [%s]" % b if b else ""))
        out.append("*Harnesses* (%s): %s.\n" % (s["harnesses"][0]["file"], "; ".join(hs)))
        if s.get("assumptions"):
            out.append("*Assumes*: %s.\n" % "; ".join(s["assumptions"]))
        out.append("*Cost*: about %d s (quick). *Why tests cannot*: %s\n" % (ORACLES[i][1], q["why_tests_cant"]))
        if i in seeds:
            out.append("*Planted bugs caught*: %s.\n" % "; ".join("`%s` (%s)" % (a, m["needs"]) for a, m in seeds[i]))
    open(p, "w").write(head + "\n".join(out))


main()
