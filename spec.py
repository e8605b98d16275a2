"""Which harness decides which property, and within what bounds."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {}
NA = {}


def H(name, file, entry, srcs=(), **kw):
    d = dict(name=name, file=file, entry=entry, srcs=list(srcs))
    d.update(kw)
    return d


# ---- heap
_h = ["heap/sc_heap.c"]
PROPS["H01"] = dict(
    note="All heaps below the stated capacity with arbitrary 64-bit keys (one inductive step), all call histories of the stated length; larger heaps are outside the claim. Trusts CBMC and the C semantics it encodes.",
    assumptions=["pre-states of the step harnesses satisfy the heap order of the public elems array"],
    harnesses=[
        H("pop_step", "heap.c", "h_pop_step", _h, unwind=5, quick=dict(defs={"CAP": 8}), thorough=dict(defs={"CAP": 12}, timeout=1500), cost=50,
          what="peek/pop/clear from every heap", bounds="size < CAP (8 quick, 12 thorough), any keys"),
        H("add_step", "heap.c", "h_add_step", _h, unwind=5, quick=dict(defs={"CAP": 8}), thorough=dict(defs={"CAP": 12}, timeout=1500), cost=40,
          what="add to every heap, incl. growth", bounds="size < CAP (8 quick, 12 thorough)"),
        H("add_oom", "heap.c", "h_add_oom", _h, unwind=5, defs={"CAP": 8}, what="failing growth leaves the heap intact", bounds="full heap of capacity 8"),
        H("history", "heap.c", "h_history", _h, unwind=5, quick=dict(defs={"NOPS": 4}), thorough=dict(defs={"NOPS": 6}, timeout=1500),
          what="all add/pop histories vs. a multiset model", bounds="4 operations quick, 6 thorough; initial capacity 0, 2, 3; first or second allocation failing"),
        H("init_any", "heap.c", "h_init_any", _h, unwind=5, what="init for every capacity", bounds="all 64-bit capacities"),
    ])

# ---- buffer
_b = ["buffer/sc_buf.c"]


def _bh(name, entry, what="", **kw):
    kw.setdefault("unwind", 20)
    kw.setdefault("stub", "stub_fmt.h")
    kw.setdefault("defs", {})
    kw["defs"]["V_CLAMP"] = 64
    return H(name, "buf.c", entry, _b, what=what, **kw)


_bnd = "buffer of N bytes (12 quick, 24 thorough), every content, every rpos<=wpos<=cap, all 64-bit arguments"
_N = dict(quick=dict(defs={"N": 12}), thorough=dict(defs={"N": 24}, unwind=30, timeout=1500))
PROPS["B01"] = dict(
    note="Every single read/peek/set/position operation from every buffer state of the stated size with all 64-bit arguments, hence all histories of such operations on buffers of that size. Destination areas passed by the caller have at least the requested length.",
    assumptions=["get_data/peek_data are called with a destination of at least len bytes", "write position is not set below the read position"],
    harnesses=[
        _bh("get", "h_get", "fixed-size get/peek, set_rpos", bounds=_bnd, **_N),
        _bh("get_var", "h_get_var", "strings, blobs, data with decoded/arbitrary lengths", bounds=_bnd, **_N),
        _bh("set", "h_set", "set-at-position, set_wpos", bounds=_bnd, **_N),
    ])
_NL = dict(quick=dict(defs={"N": 12, "LAYOUT": None}), thorough=dict(defs={"N": 24, "LAYOUT": None}, unwind=30, timeout=1500))
PROPS["B02"] = dict(
    note="All values of every type from every start offset, with and without growth; strings and blobs up to 3 bytes; formatted text modelled as an arbitrary text of up to 5 bytes returned by vsnprintf.",
    assumptions=["vsnprintf is a stub that writes an arbitrary text of the length it returns"],
    harnesses=[
        _bh("layout_get", "h_get", "get/peek return the little-endian value", bounds=_bnd, **_NL),
        _bh("layout_set", "h_set", "set writes the little-endian bytes", bounds=_bnd, **_NL),
        *[_bh("put_get_%d" % lo, "h_put_get", "put/get round trip of kinds %d..%d" % (lo, hi - 1), bounds="offsets 1, 4; strings of 0, 3 bytes (thorough: offsets 0, 1, 4; 0, 1, 4 bytes)",
              defs={"KLO": lo, "KHI": hi}, thorough=dict(defs={"DEEP": None}, timeout=1500), object_bits=12, cost=30) for lo, hi in ((0, 7), (7, 11), (11, 13))],
        *[_bh("put_get_grow_%d" % lo, "h_put_get_grow", "round trip across growth, kinds %d..%d" % (lo, hi - 1), bounds="full 4-byte buffer grows; strings of 0, 3 bytes",
              defs={"KLO": lo, "KHI": hi}, thorough=dict(defs={"DEEP": None}, timeout=1500), object_bits=12, cost=40) for lo, hi in ((0, 7), (7, 11), (11, 13))],
        _bh("fmt_fit", "h_fmt_fit", "formatted strings at every distance from the capacity", bounds="capacity 0..16, text of 1 and 3 bytes at offset 2 and 0 (thorough: also 0, 2, 4)", thorough=dict(defs={"DEEP": None}, timeout=1500), object_bits=12),
        _bh("sequence", "h_sequence", "sequences of four mixed values", bounds="4 values of 8/16/64 bits in every order"),
    ])
PROPS["B03"] = dict(
    note="Reserve/shrink with all 64-bit lengths and limits, compact/move/put from every state of a 12-byte buffer, text concatenation of three pieces; allocation failure at each allocation.",
    assumptions=["one allocation of at most 8 KB (reserve) succeeds in the model; larger requests are refused by the allocator", "vsnprintf is a stub that writes an arbitrary text of the length it returns"],
    harnesses=[
        _bh("reserve", "h_reserve", "reserve any length"), _bh("reserve0", "h_reserve0", "reserve on an empty buffer"),
        _bh("reserve_fail", "h_reserve_fail", "failing growth", nowit=["growth"]), _bh("reserve_ref", "h_reserve_ref", "wrapped memory", nowit=["growth", "huge request refused"]),
        _bh("compact", "h_compact", "compact from every state"), _bh("shrink", "h_shrink", "shrink any length"),
        _bh("shrink_fail", "h_shrink_fail", "failing shrink", nowit=["shrinks"]), _bh("shrink_small", "h_shrink_small", "shrink a small buffer", nowit=["shrinks"]),
        _bh("shrink_ref", "h_shrink_ref", "shrink wrapped memory", nowit=["shrinks"]), _bh("move", "h_move", "move between two arbitrary buffers"),
        _bh("put_full", "h_put_full", "puts at every distance from the end"),
        _bh("text_ref", "h_text_ref", thorough=dict(defs={"DEEP": None}, timeout=1500), bounds="three pieces of 0..2 bytes (thorough 0..3)", what="put_text, fixed buffer"), _bh("text_grow", "h_text_grow", thorough=dict(defs={"DEEP": None}, timeout=1500), bounds="three pieces of 0..2 bytes (thorough 0..3)", what="put_text, growing"),
        _bh("text_fail", "h_text_fail", thorough=dict(defs={"DEEP": None}, timeout=1500), bounds="three pieces of 0..2 bytes (thorough 0..3)", what="put_text, failing growth"),
    ])

# ---- array (header only: the harness instantiates the macros)
def _ah(name, entry, what, **kw):
    kw.setdefault("unwind", 25)
    return H(name, "array.c", entry, [], what=what, incs=["array"], object_bits=12, **kw)


_a3 = dict(defs={"NOPS": 3}, timeout=1800)
PROPS["A01"] = dict(
    note="All element values and indexes; operation sequences of the stated length from arrays of 0, 2, 8 elements, deletion at every index, element types of 1, 8 and (struct) 24 bytes; sorting up to 4 elements with a model of qsort.",
    assumptions=["qsort is modelled by an insertion sort through the same comparison function"],
    harnesses=[
        *[_ah("ops_t%d_%d" % (t, n), "h_ops", "operation sequences, element type %d" % t, defs={"T": t, "STARTS": n}, hunwind=800, cost=60, bounds="2 operations (thorough 3) from %d elements" % n, thorough=dict(defs={"NOPS": 3}, timeout=1800)) for t in (1, 2) for n in (2, 8)],
        _ah("ops_t3_8", "h_ops", "operation sequences, element type 3", defs={"T": 3, "STARTS": 8}, hunwind=800, tier="thorough", bounds="2 operations from 8 elements"),
        *[_ah("fail_t%d" % t, "h_fail", "growth fails", defs={"T": t}, bounds="18 two-operation sequences from 0 and 8 elements", cost=20, timeout=1800) for t in (2, 3)],
        *[_ah("del_t%d" % t, "h_del", "deletion at every index", defs={"T": t, "MAXD": 10 if t == 1 else 7}, hunwind=800, bounds="arrays of up to 9 (struct elements 6) elements (thorough 17)", thorough=dict(defs={"MAXD": 18}, timeout=1800)) for t in (1, 3)],
        _ah("limit", "h_limit", "SC_ARRAY_MAX", defs={"LIMIT": 100}, bounds="20 additions"),
        _ah("huge", "h_huge", "every capacity", bounds="all 64-bit capacities"),
        _ah("huge_t3", "h_huge", "every capacity", defs={"T": 3}, bounds="all 64-bit capacities"),
        _ah("sort", "h_sort", "sorting", bounds="4 elements, all values"),
    ])

# ---- queue (header only)
def _qh(name, entry, what, **kw):
    kw.setdefault("unwind", 40)
    kw.setdefault("hunwind", 2100)
    return H(name, "queue.c", entry, [], what=what, incs=["queue"], object_bits=12, **kw)


_q3 = dict(defs={"NOPS": 3, "DEEP": None}, timeout=1800)
PROPS["Q01"] = dict(
    note="All element values; operation sequences of the stated length from rings rotated by 0..7 positions holding 0, 1, 6, 7 or 15 elements (7 is full), followed by two additions and a full drain from both ends.",
    assumptions=["removing from or peeking into an empty queue is outside the contract"],
    harnesses=[
        *[_qh("ops_%d" % n, "h_ops", "operation sequences from %d elements" % n, defs={"FILL": n}, cost=60, bounds="2 operations of add/del at either end, ring rotated by 0, 1, 4, 7 (thorough: 3 operations, all rotations)", thorough=_q3) for n in (0, 1, 6, 7)],
        _qh("ops_t3", "h_ops", "operation sequences, struct elements", defs={"FILL": 7, "T": 3}, tier="thorough", timeout=1800, bounds="2 operations, full ring"),
        _qh("big", "h_big", "second growth", bounds="15 elements, every rotation, one operation", cost=40),
        _qh("fail", "h_fail", "growth fails", bounds="a failing addition to a full ring and two operations", cost=50),
        _qh("init_fail", "h_init_fail", "initial allocation fails"),
        _qh("clear", "h_clear", "clear and reuse", bounds="0..15 elements"),
        _qh("limit", "h_limit", "SC_QUEUE_MAX", defs={"LIMIT": 16}, bounds="limit 16, 20 additions"),
        _qh("huge", "h_huge", "every capacity", defs={"NOMEM": None}, bounds="every power-of-two capacity"),
    ])

# ---- linked list
def _lh(name, entry, what, **kw):
    kw.setdefault("unwind", 8)
    kw.setdefault("hunwind", 60)
    return H(name, "list.c", entry, ["linked-list/sc_list.c"], what=what, **kw)


PROPS["L01"] = dict(
    note="Every operation with every argument from every arrangement of 5 (thorough 8) objects in any number of rings (lists of any length that fits, several lists, detached elements): one inductive step, checked on the links; walking macros, counting, clearing and safe iteration on lists of up to 4 elements.",
    assumptions=["elements are initialised before first use", "the added element differs from the list and from the reference element"],
    harnesses=[
        _lh("step", "h_step", "any operation on any arrangement", bounds="5 objects (thorough 8)", cost=50, quick=dict(defs={"NR": 5}), thorough=dict(defs={"NR": 8}, timeout=1800)),
        _lh("walk", "h_walk", "walking and counting", bounds="two lists, 4 elements"),
        _lh("safe", "h_safe", "removal during iteration", bounds="4 elements, every subset"),
        _lh("clear", "h_clear", "clear detaches", bounds="4 elements"),
        _lh("entry", "h_entry", "entry macro"),
    ])

# ---- map
def _mh(name, entry, what, kt=None, **kw):
    kw.setdefault("bounds", "every consistent table of 4 slots; keys and values: see assumptions")
    kw.setdefault("unwind", 10)
    kw.setdefault("object_bits", 12)
    d = dict(kw.pop("defs", {}))
    if kt:
        d.update({"NM": kt[0], "KT": kt[1], "VT": kt[2]})
    return H(name, "map.c", entry, ["map/sc_map.c"], what=what, defs=d, **kw)


_k64 = ("64", "uint64_t", "uint64_t")
_kint = ("int", "int", "int")
_mq = dict(quick=dict(defs={"KMASK": "0x8000000F", "VMASK": 7}, solver="minisat2"), thorough=dict(timeout=2500, solver="minisat2"))
_mhq = dict(quick=dict(defs={"KMASK": "0x8000000F", "VMASK": 7}), thorough=dict(timeout=2500))
_HB = "program over f (put a fresh key), r (replace), d (delete), a (delete an absent key), c (clear), then lookup of any key; keys limited to KMASK in quick, any 32-bit key in thorough"
PROPS["M01"] = dict(
    note='Every single get/put/del/clear/iteration from every consistent table of 4 slots (inductive step, hence histories of any length over such tables), and listed operation programs from init through one or two growths; keys and values are symbolic. Larger tables are outside the claim.',
    assumptions=['a start table is any table in which get finds every stored pair and keys are distinct', 'quick: keys and values vary in 5 bits including the top one(s); thorough: all bits'],
    harnesses=[
        _mh("get", "h_get", "lookup in any table", **_mq),
        _mh("put", "h_put", "put into any table", nowit=["retry after failure"], **_mq),
        _mh("put_grow", "h_put_grow", "put that grows the table", nowit=["retry after failure"], **_mq),
        _mh("del", "h_del", "delete from any table", **_mq),
        _mh("iter", "h_iter", "iteration and clear", **_mq),
        *[_mh(n + "_" + k[0], e, w + " with %s keys" % k[1], kt=k, solver="minisat2", nowit=["retry after failure"] if n[:3] == "put" else [], quick=dict(defs={"KMASK": "0x8000000180000007", "VMASK": "0x8000000180000007"}), thorough=dict(timeout=2500)) for k in (_k64, _kint) for n, e, w in (("get", "h_get", "lookup in any table"), ("put", "h_put", "put into any table"), ("put_grow", "h_put_grow", "put that grows the table"), ("del", "h_del", "delete from any table"), ("iter", "h_iter", "iteration"))],
        *[_mh("history_"+p, "h_history", "history "+p, defs={"PROGS":'"%s"'%p}, hunwind=60, unwind=10, solver="minisat2", **dict(_mhq, bounds=_HB)) for p in ("ffr", "fffr", "ffdf", "ffad", "fcf", "ffff")],
        *[_mh("history_"+p, "h_history", "history "+p, tier="thorough", defs={"PROGS":'"%s"'%p}, hunwind=60, unwind=10, solver="minisat2", **dict(_mhq, bounds=_HB)) for p in ("ffffr", "fffdr", "ffdfd", "ffcff")],
    ])
PROPS["M03"] = dict(
    note='Growth failing in every consistent full table of 4 slots and at each allocation of the listed programs; initialisation for every 32-bit capacity and load factor (allocator refuses more than 40 slots).',
    assumptions=['terminating a map that was initialised'],
    harnesses=[
        _mh("put_oom", "h_put_oom", "growth fails", nowit=["new key", "zero key replaced"], **_mq),
        *[_mh("history_oom_"+p, "h_history_oom", "history "+p+" with the first or second growth failing", defs={"PROGS":'"%s"'%p}, hunwind=60, unwind=10, solver="minisat2", **dict(_mhq, bounds=_HB)) for p in ("ffr", "fffr")],
        _mh("init_any", "h_init_any", "every capacity and load factor", defs={"V_SYMBOLIC_SIZE": None}),
    ])

_ms = dict(kt=("s64", "const char *", "uint64_t"), replace=["murmurhash"], solver="minisat2", thorough=dict(timeout=2500), quick=dict(defs={"KMASK": 7, "VMASK": 7}))
def _msh(name, *a, **kw):
    d = dict(_ms); d.update(kw)
    d["defs"] = dict(STR=None, **kw.get("defs", {}))
    return _mh(name, *a, **d)
PROPS["M02"] = dict(
    note='As M01 for string keys over all strings of up to two letters plus NULL, with the hash replaced by an arbitrary function of the content (so every collision pattern is covered); the real hash function is executed for contents of 0, 1, 4, 7, 8, 9 and 17 bytes.',
    assumptions=['keys are live, unchanged C strings', 'quick: hash values vary in 3 bits'],
    harnesses=[
        _msh("get", "h_get", "lookup in any table"),
        _msh("put", "h_put", "put into any table", nowit=["retry after failure"]),
        _msh("put_grow", "h_put_grow", "put that grows the table", nowit=["retry after failure"]),
        _msh("del", "h_del", "delete from any table"),
        _msh("iter", "h_iter", "iteration and clear"),
        _msh("history", "h_history", "histories", defs={"PROGS":'"ffdr"'}, hunwind=60, unwind=10),
        *[_mh("content%d" % n, "h_content", "real hash over a string of %d bytes" % n, kt=("s64", "const char *", "uint64_t"), defs=dict(STR=None, REALHASH=None, LEN=n, OTHER=n&1, SYMB=sy), unwind=n+4, hunwind=30, stub="stub_strlen.h", bounds="string of %d bytes, first %d symbolic, any value" % (n, sy)) for n,sy in ((0,0),(1,1),(4,1),(7,1),(8,1),(9,1),(17,0))],
        ])

# ---- strings
def _sh(name, entry, what, **kw):
    kw.setdefault("unwind", 6)
    kw.setdefault("hunwind", 100)
    kw.setdefault("object_bits", 12)
    kw.setdefault("stub", "stub_str.h")
    kw.setdefault("bounds", "strings of up to MAX bytes (quick 3, thorough 5)")
    kw.setdefault("thorough", dict(defs={"MAX": 5}, timeout=2500))
    return H(name, "str.c", entry, ["string/sc_str.c"], what=what, **kw)


PROPS["S01"] = dict(
    note='All contents and all lengths up to the bound for creation, set, append, duplicate and compare with each allocation failing; every 32-bit length for creation with explicit length; formatted texts of 1023 and 1024 bytes around the internal stack buffer.',
    assumptions=['vsnprintf is modelled exactly for %s, %.*s and literal text'],
    harnesses=[
        _sh("create", "h_create", "creation", stub="stub_str3.h", defs={"FIXED": None, "V_FIX": 16}, solver="minisat2", thorough=dict(defs={"MAX": 5, "V_FIX": 24}, timeout=2500)),
        *[_sh("change%d" % k, "h_change", "set/append kind %d" % k, stub="stub_str3.h", defs={"KIND": k, "FIXED": None, "V_FIX": 16}, solver="minisat2", thorough=dict(defs={"MAX": 5, "V_FIX": 24}, timeout=2500)) for k in range(4)],
        *[_sh("fmt_long_%d" % n, "h_fmt_long", "long formatted text", defs={"LONGTEXT": n}, thorough={}, stub="stub_str3.h", hunwind=1100, bounds="%d bytes" % n) for n in (1023, 1024)],
        _sh("cmp", "h_cmp", "comparison"),
        _sh("huge", "h_huge", "every length", thorough={}),
    ])
PROPS["S02"] = dict(
    note='All strings and delimiter sets up to the bound, iteration stopped at every token.',
    assumptions=['strings without embedded nul'],
    harnesses=[
        _sh("token", "h_token", "tokens, ending at every point"),
        _sh("token_all", "h_token_all", "iteration to the end"),
    ])
PROPS["S03"] = dict(
    note='All strings, sets, patterns and replacements up to the bound, all 64-bit ranges of substring; allocation failure in replace.',
    assumptions=['strings without embedded nul', 'an empty pattern matches nothing'],
    harnesses=[
        _sh("trim", "h_trim", "trim", stub="stub_str3.h", defs={"FIXED": None, "V_FIX": 10}),
        _sh("substring", "h_substring", "substring", stub="stub_str3.h", defs={"FIXED": None, "V_FIX": 10}),
        *[_sh("replace_%d_%d" % (r, w), "h_replace", "replace %d by %d bytes" % (r, w), stub="stub_str3.h", unwind=5, nowit=["out of memory"] if (r, w) not in ((2, 1), (1, 2)) else [], defs={"FIXED": None, "V_FIX": 12, "NR": r, "NW": w, "NLO": "MAX", "OOM": 1 if (r, w) in ((2, 1), (1, 2)) else 0}) for r in (0, 1, 2) for w in (0, 1, 2)],
    ])

# ---- uri
def _uh(name, what, pre, n, suf="", **kw):
    kw["bounds"] = "texts '%s' + up to %d (thorough %d) arbitrary bytes + '%s'" % (pre, n, n + 2, suf)
    L = len(pre) + n + len(suf)
    d = {"PRE": '"%s"' % pre, "N": n, "SUF": '"%s"' % suf, "V_PMAX": L + 8}
    d.update(kw.pop("defs", {}))
    kw.setdefault("solver", "minisat2")
    return H(name, "uri.c", "h_parse", ["uri/sc_uri.c"], what=what, stub="stub_uri.h", defs=d,
             unwind=kw.pop("unwind", L + 3), hunwind=2 * L + 20, object_bits=8, thorough=dict(defs={"N": n + 2, "V_PMAX": L + 10}, unwind=L + 5, hunwind=2 * L + 30, timeout=3000), **kw)


PROPS["U01"] = dict(
    note='All texts of the stated shape with up to N arbitrary bytes after the fixed prefix, checked against the RFC 3986 appendix B decomposition written down independently; longer texts are outside the claim.',
    assumptions=['snprintf is modelled exactly for %.*s', 'allocation failure is covered by the oom harness'],
    harnesses=[
        _uh("scheme", "any start", "", 4),
        _uh("auth", "authority", "s://", 5, defs={"WIT": "L(user) && L(host) && L(port)"}),
        _uh("opaque", "opaque", "s:", 5, defs={"WIT": "L(path) && L(query) && L(frag)"}),
        _uh("tail", "path on", "s://h", 5, defs={"WIT": "L(path) && L(query)"}),
        _uh("v6", "IPv6", "s://[", 5, "]", defs={"WIT": "L(host) && L(port)"}),
        _uh("port", "ports", "s://h:", 6, defs={"DIGITS": None, "WIT": "L(port) && L(path)"}),
        _uh("oom", "out of memory", "s:", 3, defs={"OOM": None}),
    ])

# ---- timer
def _th(name, prog, scen, what, **kw):
    kw.setdefault("bounds", "program %s (a: add any timeout, s: add a given timeout, c/d: cancel first/last, x: clear, t: terminate, p: poll); start clock, given timeout, advances: %s" % (prog, scen))
    d = {"PROG": '"%s"' % prog, "SCEN": ",".join("{%s}" % ",".join("%dull" % x for x in t) for t in scen), "TMASK": "0x1ff"}
    d.update(kw.pop("defs", {}))
    kw.setdefault("thorough", dict(defs={"TMASK": "0xffffffffffull"}, timeout=2500))
    return H(name, "timer.c", "h_history", ["timer/sc_timer.c"], what=what, defs=d, unwind=kw.pop("unwind", 130), hunwind=500, solver=kw.pop("solver", "minisat2"), flags=["--max-field-sensitivity-array-size", "300"], **kw)


_BIG = (1 << 40) + 7
_TS = [(a, 0, b) for a in (0, 15, _BIG) for b in (1, 16, 17, 255, 300)]
PROPS["T01"] = dict(
    note='All timeouts (quick: 0..511 ms, thorough: 48 bits) for operation programs over the listed clock readings, which cover every alignment class of start and poll (mid-tick, tick boundary, exactly one revolution, more than one revolution).',
    assumptions=['clock readings do not decrease', 'the due time is representable in 64 bits', 'a handle is not cancelled after its timer fired'],
    harnesses=[
        _th("ap", "ap", _TS, "one timer"),
        _th("app", "app", [(0, 0, 20, 16), (9, 0, 300, 40), (15, 0, 2, 260), (5, 0, 15, 16)], "one timer, two polls"),
        _th("pap", "pap", [(0, 0, 5, 16), (0, 0, 5, 300), (9, 0, 300, 33), (_BIG, 0, 15, 17)], "one timer, two polls"),
        _th("aap", "aap", [(0, 0, 16), (15, 0, 33), (7, 0, 260)], "two timers"),
        _th("acap", "acap", [(0, 0, 17), (7, 0, 260)], "cancel and reuse", defs={"WIT": "fired[1]"}),
        _th("aacp", "aacp", [(0, 0, 33), (7, 0, 260)], "cancel", defs={"WIT": "fired[1]"}),
        _th("cancel_s", "ssscsap", [(0, 20, 40), (7, 250, 265)], "cancel and reuse in a shared slot", defs={"WIT": "fired[4]"}),
        _th("grow_d", "sssssacp", [(0, 20, 40), (7, 250, 265)], "growth and cancel", defs={"WIT": "fired[5]"}, unwind=260),
        _th("cb_add", "sspp", [(0, 20, 40, 20), (7, 250, 265, 20)], "callback adds", defs={"CBP": '"a"'}),
        _th("cb_add0", "sspp", [(0, 16, 32, 20), (7, 0, 270, 260)], "callback adds", defs={"CBP": '"s;s"', "WIT": "fired[2]"}),
        _th("cb_grow", "sssspap", [(0, 20, 40, 50), (9, 16, 289, 32)], "callback adds", defs={"CBP": '"sssss"', "WIT": "fired[8]"}, unwind=260),
        _th("cb_cancel", "ssspap", [(0, 20, 57, 20), (7, 8, 270, 16)], "callback cancels", defs={"CBP": '"d"', "WIT": "fired[3]"}),
    ])
PROPS["T02"] = dict(
    note='As T01: programs in which the first or second allocation fails, clear and termination in the middle, and the delay returned by every poll.',
    assumptions=['clock readings do not decrease', 'the due time is representable in 64 bits'],
    harnesses=[
        _th("advice", "apap", [(0, 0, 3, 20), (9, 0, 23, 30), (_BIG, 0, 280, 9)], "delay returned by polls"),
        _th("clear", "aaxap", [(0, 0, 57), (9, 0, 270)], "clear", defs={"WIT": "fired[2]"}),
        _th("reuse", "atap", [(0, 0, 57), (9, 0, 270)], "terminate and use again", defs={"WIT": "fired[1]"}),
        _th("oom0", "aaap", [(0, 0, 57), (9, 0, 270)], "no memory", defs={"FAILAT": 1}),
        _th("oom1", "ssssssap", [(0, 20, 57), (9, 9, 270)], "no memory", defs={"FAILAT": 2, "WIT": "fired[5]"}, unwind=260),
    ])

# ---- ini
def _ih(name, entry, what, pre, n, suf="", **kw):
    L = len(pre) + n + len(suf)
    esc = lambda t: '"%s"' % t.replace("\n", "\\n").replace("\t", "\\t")
    d = {"PRE": esc(pre), "N": n, "SUF": esc(suf), "LINE": 32, "MAXL": pre.count("\n") + suf.count("\n") + n + 1}
    d.update(kw.pop("defs", {}))
    return H(name, "ini.c", entry, ["ini/sc_ini.c"], what=what, stub="stub_ini.h", defs=d, solver=kw.pop("solver", "minisat2"),
             unwind=kw.pop("unwind", L + 3), hunwind=260, object_bits=8, **kw)


# ---- option, helpers, time
PROPS["O01"] = dict(
    note="All argument strings and option tables within the bound; the argument and the names are exact-size objects, so a read behind a terminator is reported.",
    assumptions=["an option's letter may be any byte, also 0"],
    harnesses=[
        H("option", "opt.c", "h_option", ["option/sc_option.c"], what="every argument against every table", unwind=10, hunwind=12,
          quick=dict(defs={"N": 5, "NN": 2}), thorough=dict(defs={"N": 8, "NN": 4, "NO": 3}, unwind=14, timeout=1500),
          bounds="argument up to 5 bytes, 2 options, names up to 2 bytes (thorough 8, 3, 4)"),
    ])
_g = dict(srcs=["sc/sc.c"], stub="stub_sc.h")
PROPS["G01"] = dict(
    note="All 64-bit arguments, no bound.", assumptions=[],
    harnesses=[H("pow2", "sc.c", "h_pow2", defs={"I0": 0}, what="pow2 helpers", bounds="all 64-bit arguments", unwind=70, hunwind=70, **_g)])
PROPS["G02"] = dict(
    note="All texts: up to 4 free bytes behind a fixed prefix of digits (prefixes chosen around the overflow limits of every unit); all 64-bit counts for formatting, whose last step (printing two decimals of the chosen number) is the C library's and is a stub.",
    assumptions=["the C library prints a double with two decimals correctly and returns the length"],
    harnesses=[
        H("parse", "sc.c", "h_parse", defs={"I0": 0}, quick=dict(defs={"N": 4}), thorough=dict(defs={"N": 7}, timeout=1500), what="any text", bounds="up to 4 (7) arbitrary bytes", unwind=12, hunwind=30, **_g),
        *[H("parse_%d" % i, "sc.c", "h_parse", defs={"I0": 0, "PRE": '"%s"' % p, "N": n, **({"WIT": "ok && n > 0"} if i == 6 else {"WIT": "ok && n > 1"} if i == 0 else {"WIT": "!ok && n > 0"} if i == 7 else {})}, what="texts around a limit", bounds="prefix %s and up to %d arbitrary bytes" % (p, n), unwind=30, hunwind=40, **_g)
          for i, (p, n) in enumerate((("-", 4), ("900719925474099", 3), ("879609302220", 3), ("858993459", 3), ("83886", 3), ("819", 3), ("922337203685477580", 2), ("-922337203685477580", 2)))],
        *[H("format_%d" % sh, "sc.c", "h_format", defs={"I0": 0, "SHIFT": sh}, what="formatting", bounds="all counts of up to %d bits not covered by the smaller ones" % sh, unwind=30, hunwind=40, **_g)
          for sh in (10, 20, 30, 40, 50, 60, 64)],
    ])
PROPS["G03"] = dict(
    note="Reads: every state with the listed counter positions (including the wrap at 255), every split of a read of LEN bytes. Keying: seeds that equal a fixed pattern outside a window of WIN bytes near the end; the rest of the seed space is outside the claim.",
    assumptions=[],
    harnesses=[
        *[H("read_%d" % i, "sc.c", "h_rand_read", defs={"I0": i, "LEN": 2}, thorough=dict(defs={"LEN": 3}, timeout=1500), what="read from any state", bounds="counter %d, any other state, 2 (3) bytes, all splits" % i, unwind=5, hunwind=260, **_g) for i in (0, 254)],
        H("init", "sc.c", "h_rand_init", defs={"I0": 0, "POS": 255, "WIN": 1}, what="keying", bounds="last seed byte arbitrary, others fixed", unwind=258, hunwind=260, **_g),
    ])
_t = dict(srcs=["time/sc_time.c"], stub="stub_time.h", unwind=6, hunwind=6)
PROPS["D01"] = dict(
    note="All timespec values whose conversion fits 64 bits (that readings never decrease follows from the exact conversion); all millisecond durations in windows of 256 s around 0, 2^31 ms, 2^32 ms, 2^32 s, 2^63 ms and the largest; every pattern of at most STEPS-1 interruptions followed by success or any other error.",
    assumptions=["the system returns normalised non-negative times", "clock_gettime succeeds (the code asserts it)"],
    harnesses=[
        H("clock", "time.c", "h_clock", solver="cvc5", what="conversion", bounds="all times", **_t),
        *[H("sleep_%d" % i, "time.c", "h_sleep", what="sleep", bounds="durations of %d..%d s, any milliseconds, up to 2 (5) interruptions" % (b, b + 255), quick=dict(defs={"STEPS": 3, "BASE": "%dull" % b, "WINDOW": 255}),
            thorough=dict(defs={"STEPS": 6, "BASE": "%dull" % b, "WINDOW": 4095 if i < 5 else 255}, unwind=9, timeout=2500), **_t)
          for i, b in enumerate((0, (1 << 31) // 1000 - 100, (1 << 32) // 1000 - 100, (1 << 32) - 100, (1 << 63) // 1000 - 100, (1 << 64) // 1000 - 256))],
    ])

# ---- threads, memory map
def _pt(name, entry, src, mod, what, **kw):
    d = {"WITH_" + mod: None, "FAULTS": 2, "SPURIOUS": 1}
    d.update(kw.pop("defs", {}))
    kw.setdefault("unwind", 5)
    return H(name, "thr.c", entry, [src], what=what, stub="stub_pthread.h", defs=d, hunwind=kw.pop("hunwind", 10), **kw)


PROPS["E01"] = dict(
    note="Two init/use/term rounds with every combination of failing pthread calls.", assumptions=["settype and attribute destruction succeed (the code asserts it)"],
    harnesses=[_pt("mutex", "h_mutex", "mutex/sc_mutex.c", "MUTEX", "init, lock, unlock, term", bounds="2 rounds, any calls failing")])
PROPS["E02"] = dict(
    note="Schedules: every way in which the calls of the program (s: signal, w: wait) start, are suspended at any pthread call while not holding the mutex, and resume, with nested suspension; up to SPURIOUS spurious wake-ups; a call that has to sleep for ever must have no signal to consume. Interleavings between two pthread calls are covered by the obligation that the shared fields change only inside the critical section. Init/term: every combination of two failing calls.",
    assumptions=["sequentially consistent pthread primitives", "suspended calls resume in LIFO order"],
    harnesses=[
        _pt("init", "h_cond_init", "condition/sc_cond.c", "COND", "init and term", bounds="any two calls failing"),
        _pt("sw", "h_schedule", "condition/sc_cond.c", "COND", "schedules", bounds="one signal, one wait", defs={"PROG": '"sw"'}),
        _pt("ssw", "h_schedule", "condition/sc_cond.c", "COND", "schedules", bounds="two signals, one wait", defs={"PROG": '"ssw"'}),
        _pt("sww", "h_schedule", "condition/sc_cond.c", "COND", "schedules", bounds="one signal, two waits", defs={"PROG": '"sww"', "LONELY": None}),
        _pt("ssww", "h_schedule", "condition/sc_cond.c", "COND", "schedules", bounds="two signals, two waits", defs={"PROG": '"ssww"'}, tier="thorough", timeout=2500),
    ])
PROPS["E03"] = dict(
    note="All sequences of 4 (thorough 6) start/join/terminate calls with up to two failing pthread calls; the thread body runs at creation or at the join.",
    assumptions=["a thread object is not started again before it was joined", "thread ids are non-zero"],
    harnesses=[_pt("thread", "h_thread", "thread/sc_thread.c", "THREAD", "start, join, term", bounds="4 (6) calls", thorough=dict(defs={"NOPS": 6}, timeout=1500), unwind=130, hunwind=140)])
_mm = dict(srcs=["memory-map/sc_mmap.c"], stub="stub_mmap.h", unwind=5, hunwind=5, solver="minisat2")
PROPS["P01"] = dict(
    note="All flags, offsets, lengths and file sizes up to 2^46, one failing system call at any position (and close failing at will, fallocate interrupted twice); ranges within a 16 KB region for pages of 4 KB and 64 KB.",
    assumptions=["the system rejects unaligned offsets and empty maps", "mlock and munlock round outwards to pages themselves (Linux)"],
    harnesses=[
        H("init_term", "mmap.c", "h_init_term", what="open, map, unmap, close", defs={"PAGE": 4096}, bounds="all arguments, one call failing", **dict(_mm, unwind=130)),
        H("ranges", "mmap.c", "h_ranges", what="msync, mlock, munlock", defs={"PAGE": 4096}, bounds="all ranges in 16 KB", **dict(_mm, unwind=130)),
        H("ranges64", "mmap.c", "h_ranges", what="msync, mlock, munlock", defs={"PAGE": 65536, "REG": 1 << 18}, bounds="all ranges in 256 KB", tier="thorough", **dict(_mm, unwind=130)),
    ])

# ---- signal
def _sg(name, entry, what, **kw):
    kw.setdefault("hunwind", 90)
    kw.setdefault("unwind", 40)
    return H(name, "sig.c", entry, ["signal/sc_signal.c"], what=what, stub="stub_signal.h", solver=kw.pop("solver", "minisat2"), **kw)


_nums = [("d0", "%d", 0, 0), ("d31", "%d", 0, (1 << 31) - 128), ("d32", "%d", 0, (1 << 32) - 256), ("ld", "%ld", 1, (1 << 63) - 128), ("lld63", "%lld", 2, (1 << 63) - 128),
         ("lld64", "%lld", 2, (1 << 64) - 256), ("lld10", "%lld", 2, 10**15 - 100), ("u32", "%u", 3, (1 << 32) - 128), ("u10", "%u", 3, 10**9 - 100), ("lu", "%lu", 4, (1 << 64) - 256),
         ("llu", "%llu", 5, (1 << 64) - 256), ("llu0", "%llu", 5, 0), ("p", "%p", 6, 0xfffffff00), ("pmax", "%p", 6, (1 << 64) - 256)]
PROPS["X01"] = dict(
    note="Texts: the listed arrangements of literal text, %s (any strings of up to N bytes, NULL) and %%, with every buffer size up to the bound; ten formats in which the directive, the letter behind l / ll or a literal is any character. Numbers: windows of 256 values around every boundary (0, 2^31, 2^32, 2^63, 2^64, powers of ten) for every directive and modifier; the printed text is parsed back.",
    assumptions=[],
    harnesses=[
        _sg("text", "h_text", "text and strings", defs={"BYTEWISE": None}, quick=dict(defs={"N": 3, "SZMAX": 8}), thorough=dict(defs={"N": 6, "SZMAX": 14}, timeout=1500), bounds="strings up to 3 (6) bytes, buffers of 0..8 (14)"),
        *[_sg("any_%d" % k, "h_any", "unsupported directives", defs={"BYTEWISE": None, "CASE": k}, unwind=9, bounds="format %d with a free directive or literal character, buffers of 0..6 bytes" % k) for k in range(10)],
        *[_sg("num_" + n, "h_num", "numbers", defs={"FMT": '"%s"' % f, "KIND": k, "BASE": "%dull" % b}, bounds="%s of %d..%d" % (f, b, b + 255), thorough=dict(defs={"BITS": 16 if n in ("d0", "llu0", "u10") else 8}, timeout=1500)) for n, f, k, b in _nums],
        _sg("log", "h_log", "logging", defs={"BYTEWISE": None}, bounds="buffers of 0..16 bytes, any descriptor"),
    ])
PROPS["X02"] = dict(
    note="All handled signals, with and without log and shutdown descriptors, every system call of initialisation failing, every write failing or short, first and repeated shutdown signals. The crash report's back trace (HAVE_BACKTRACE) is not compiled in.",
    assumptions=["the final sigaction to the default disposition and kill succeed"],
    harnesses=[
        _sg("init", "h_init", "installation", bounds="one call failing at any position"),
        _sg("shutdown", "h_shutdown", "shutdown handler", defs={"SHUT": None}, bounds="SIGINT, SIGTERM, first and repeated", unwind=130),
        _sg("fatal", "h_fatal", "fatal handler", bounds="all five fatal signals", unwind=130),
    ])

# ---- sockets
def _so(name, entry, what, **kw):
    kw.setdefault("hunwind", 132)
    kw.setdefault("unwind", 132)
    kw.setdefault("solver", "minisat2")
    return H(name, "sock.c", entry, ["socket/sc_sock.c"], what=what, stub="stub_sock.h", **kw)


PROPS["K01"] = dict(
    note="All sequences of NOPS add/del calls from an unregistered descriptor with every event mask, user data and descriptor, every epoll_ctl failing or not. Linux (epoll) implementation.",
    assumptions=["one descriptor per registration; calls for one descriptor are not concurrent"],
    harnesses=[_so("reg", "h_reg", "registrations", quick=dict(defs={"NOPS": 3}), thorough=dict(defs={"NOPS": 6}, timeout=1500), bounds="3 (6) calls")])
PROPS["K02"] = dict(
    note="All kernel event words, user data and timeouts, up to 2 events, up to 3 interruptions, any failure. Linux (epoll) implementation.",
    assumptions=["epoll_wait returns at most two events in the model"],
    harnesses=[_so("wait", "h_wait", "waiting and event mapping", unwind=6, bounds="2 events, 3 interruptions")])
PROPS["K03"] = dict(
    note="All lengths, flags, return values and error numbers, up to 3 (12) interruptions.",
    assumptions=[],
    harnesses=[_so("transfer", "h_transfer", "send and receive", unwind=6, thorough=dict(defs={"NINTR": 12}, unwind=15), bounds="3 (12) interruptions"),
               _so("pipe", "h_pipe_transfer", "pipe read and write", unwind=6, thorough=dict(defs={"NINTR": 12}, unwind=15), bounds="3 (12) interruptions")])
PROPS["K04"] = dict(
    note="Every system and resolver call failing or succeeding independently, one or two addresses per name in either family order, with and without source address; unix paths of 5, 107 and 108 bytes.",
    assumptions=["names resolve to at most two addresses"],
    harnesses=[
        _so("listen4", "h_listen", "listen", defs={"FAM": 0}, bounds="two addresses"),
        _so("listen6", "h_listen", "listen", defs={"FAM": 1}, bounds="two addresses"),
        *[_so("listen_u%d" % n, "h_listen_unix", "listen on a path", defs={"ULEN": n, "UNIX": None}, bounds="path of %d bytes" % n) for n in (5, 107, 108)],
        _so("connect4", "h_connect", "connect", defs={"FAM": 0}, bounds="two addresses"),
        _so("connect6", "h_connect", "connect", defs={"FAM": 1}, bounds="two addresses"),
        _so("connect_src", "h_connect", "connect from a source address", defs={"FAM": 0, "SRC": None}, unwind=4, bounds="two addresses each"),
        *[_so("connect_u%d" % n, "h_connect_unix", "connect to a path", defs={"ULEN": n, "UNIX": None}, bounds="path of %d bytes" % n) for n in (5, 107, 108)],
        _so("accept", "h_accept", "accept", bounds="all failures"),
        _so("pipe", "h_pipe", "pipe", bounds="all failures"),
        _so("poll", "h_poll", "poll", bounds="all failures"),
        _so("notify", "h_notify", "systemd notification", bounds="socket names up to 4 bytes"),
    ])
PROPS["K05"] = dict(
    note="Timeouts in windows around 0, 1 s and the largest value; all flag words; all ports in windows and addresses with free text of fixed length.",
    assumptions=[],
    harnesses=[
        _so("timeo0", "h_timeo", "timeouts", defs={"MS0": 0, "MSN": 5000}, bounds="0..5000 ms"),
        _so("timeo1", "h_timeo", "timeouts", defs={"MS0": 2147480000, "MSN": 3647}, bounds="the last 3648 ms"),
        _so("blocking", "h_blocking", "blocking mode", bounds="all flag words"),
        _so("addr4", "h_name", "address text", defs={"FAM": 0}, bounds="64-byte buffer"),
        _so("addr6", "h_name", "address text", defs={"FAM": 1, "HOSTLEN": 20}, bounds="64-byte buffer"),
        _so("addr_cut", "h_name", "address text", defs={"FAM": 0, "BUFLEN": 5}, bounds="5-byte buffer"),
        _so("addr_u", "h_name", "address text", defs={"FAM": 2}, bounds="path of 6 bytes"),
        _so("addr_u0", "h_name", "unnamed address", defs={"FAM": 2, "UNLEN": 0}, bounds="unnamed"),
        _so("addr_u108", "h_name", "longest path", defs={"FAM": 2, "UNLEN": 108, "BUFLEN": 128, "V_PMAX": 128}, bounds="path of 108 bytes"),
    ])

# ---- logger
def _lg(name, entry, what, **kw):
    kw.setdefault("hunwind", 60)
    kw.setdefault("unwind", 60)
    kw.setdefault("solver", "minisat2")
    return H(name, "log.c", entry, ["logger/sc_log.c"], what=what, stub="stub_log.h", **kw)


PROPS["N01"] = dict(
    note="All levels configured and logged at, all combinations of sinks, every library call failing independently; messages are given to the C library's formatter unformatted. Compiled as the project does (gnu99: level guarded by the mutex, no atomics).",
    assumptions=["the C library's own output functions"],
    harnesses=[
        _lg("init", "h_init", "creation and termination", bounds="every call failing"),
        _lg("levels", "h_levels", "level filter", bounds="all level names in all spellings"),
        _lg("sinks", "h_sinks", "sinks", bounds="all combinations and failures"),
        _lg("names", "h_names", "thread names", defs={"NAMES": None}, bounds="names of 0, 1, 30, 31 and 40 bytes"),
    ])
PROPS["N02"] = dict(
    note="Set-file, two log lines, reconfiguration or not, termination, every file operation failing independently; file sizes up to 2^31, lines up to 200 bytes (thorough: 3 MB); names up to 290 bytes.",
    assumptions=["a failing rename leaves the file under its name"],
    harnesses=[
        _lg("files", "h_files", "rotation and reconfiguration", thorough=dict(defs={"NLINES": 4}), bounds="two (four) lines of up to 400 bytes"),
        _lg("files_big", "h_files", "rotation and reconfiguration", defs={"BIG": 3000000}, thorough=dict(defs={"NLINES": 4}), bounds="two (four) lines of up to 6 MB"),
        _lg("lengths", "h_lengths", "lengths of file names", unwind=302, hunwind=302, bounds="names of 1, 254..256 and 290 bytes"),
    ])

# ---- perf
PROPS["F01"] = dict(
    note="One or two start/pause rounds, paused or not before the end, two measurements in a row, any one system call failing at any position; concrete clock readings. The value scaling of multiplexed counters is outside the claim.",
    assumptions=["start is called only when not running"],
    harnesses=[
        H("perf", "perf.c", "h_perf", ["perf/sc_perf.c"], what="start, pause, end", stub="stub_perf.h", unwind=40, hunwind=80, solver="minisat2", bounds="2 rounds, 2 measurements, one failing call"),
        H("misuse", "perf.c", "h_misuse", ["perf/sc_perf.c"], what="pause and end without start", stub="stub_perf.h", unwind=40, hunwind=60, solver="minisat2", bounds="first call"),
    ])

# ---- crc
def _cr(name, entry, what, align=0, ln=0, hw=False, **kw):
    kw.setdefault("hunwind", 70)
    kw.setdefault("unwind", 9)
    kw.setdefault("funwind", {"sc_crc32_init": 260})
    kw.setdefault("solver", "minisat2")
    kw.setdefault("object_bits", 12)
    kw.setdefault("cost", 100 if hw else 20 + ln)
    if hw:
        kw["srcflags"] = ["-DHAVE_CRC32C", "-I" + os.path.join(HERE, "lib/crchw")]
    return H(name, "crc.c", entry, ["crc32/sc_crc32.c"], what=what, defs={"ALIGN": align, "LEN": ln},
             bounds="length %d at alignment %d%s, every initial value and content" % (ln, align, ", hardware variant" if hw else ""), **kw)


PROPS["C01"] = dict(
    note="Every initial value and every content, fully symbolic, for the listed pairs of length and alignment; splitting over several calls follows because the initial value is arbitrary. The hardware variant runs with the two crc32 instructions replaced by their definition, below the lengths at which its three-way interleaving starts (768); the big-endian variant is outside.",
    assumptions=["the crc32 machine instructions compute CRC-32C of one and of eight bytes", "a map shown linear and equal on each byte among zeros is equal on all bytes"],
    harnesses=[
        _cr("lemma", "h_lemma", "the oracle is the bitwise definition", cost=60),
    ] + [_cr("a%d_l%d" % (a, n), "h_full", "checksum", a, n) for a, n in
         [(0, 0), (0, 1), (0, 7), (0, 8), (0, 16), (0, 11), (0, 24), (1, 7), (1, 15), (2, 3), (3, 13), (4, 12), (5, 3), (5, 11), (6, 10), (7, 1), (7, 9)]]
      + [_cr("a%d_l%d" % (a, n), "h_full", "checksum", a, n, tier="thorough") for a, n in
         [(0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 9), (0, 10), (0, 32), (0, 64), (1, 1), (1, 22), (2, 14), (3, 5), (3, 21), (4, 4), (6, 18), (7, 17), (7, 33)]]
      + [_cr("hw_a%d_l%d" % (a, n), "h_full", "checksum", a, n, hw=True) for a, n in [(0, 16), (3, 13)]]
      + [_cr("hw_a%d_l%d" % (a, n), "h_full", "checksum", a, n, hw=True, tier="thorough") for a, n in
         [(0, 0), (0, 8), (0, 24), (1, 15), (5, 3), (7, 9)]])

NA["I01"] = ("the parser cannot be encoded within reach: every byte decides how long the line, comment, key and value are, and the "
             "line is rescanned by five library searches and trimmed in place, so all later positions become symbolic; with CBMC a "
             "5-byte text with a single free byte already takes 180 s of symbolic execution, half a million steps and 79,000 "
             "obligations and is not solved in 5 minutes, and with concrete texts only it would be enumeration of runs")
