"""Which stages decide which property."""

ASSUMPTIONS = [
    "TLC, the Java runtime, rustc and the standard library are trusted.",
    "Exhaustive within the constants of each stage (see stages); beyond them sampled by seeded traces.",
    "Clones are named by walking the copy in document order.",
]

STRUCTURE = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21")
ITERATORS = ("C12", "C13", "C14", "C15")
BUILDERS = ("C16", "C17")
FAMILIES = ("star", "path", "binary", "ternary", "comb", "rcomb", "broom", "fork", "mixed")
# Operations of which a property is about one in particular.
DEEPER = {"C02": ("ins",), "C03": ("ins",), "C04": ("det",), "C05": ("dets",), "C06": ("rem",), "C07": ("remp",),
          "C09": ("root", "cins"), "C11": ("clone", "clonep")}
BIG = ("path", "star", "mixed", "comb")
# Properties of what the operations write into the nodes' links.
LINKS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11")
# The parts of MCHuge that a property is about.
HUGE = {"C01": (2, 3, 4, 5, 6), "C02": (3,), "C03": (3,), "C04": (6,), "C05": (6,), "C06": (4,), "C07": (4,), "C09": (2,),
        "C10": (4, 5), "C11": (5,), "C12": (1,), "C13": (1,), "C14": (1,), "C15": (1,), "C16": (7,), "C17": (7,), "C20": (5, 9)}
# The drills of MCDrills: from which family of trees, what they do.
DRILLS = {
    "star": {
        "detach first": "det", "detach last": "det", "detach mid": "det", "remove first": "rem", "remove last": "rem",
        "remove some": "rem", "single first": "dets", "single last": "dets", "single some": "dets", "rotate": "ins",
        "rotate back": "ins", "rotate beside": "ins", "shuffle": "ins", "reverse": "ins", "off and on": "det ins",
        "to head": "ins", "to tail": "ins", "to both": "ins", "there and back": "ins", "splice": "dets ins rem",
        "grow": "cins det", "grow head": "cins", "grow beside": "cins", "churn": "cins rem", "churn detached": "cins det",
        "churn only": "cins rem", "churn single": "cins dets", "churn roots": "rem root", "to the bottom": "ins",
        "panic first": "remp", "panic third": "remp", "refuse loop": "ins", "refuse beside": "ins",
        "refuse dead": "det dets ins probe rem", "refuse create": "cins", "clone leaf": "clone", "clone tree": "clone",
        "graft": "clone ins", "clone across": "clone", "clone and drop": "clone rem", "clone of clones": "clone",
        "clone in part": "clonep", "copies": "copy rem root", "set": "set", "chaos": "ins", "more chaos": "cins det dets ins"},
    "path": {
        "peel second": "dets", "peel top": "dets", "peel bottom": "dets", "chop": "rem", "cut bottom": "det", "cut second": "det",
        "join": "det ins", "to the top": "ins", "pile": "ins root", "deepen": "cins", "climb": "ins", "panic first": "remp",
        "panic third": "remp", "refuse loop": "ins", "clone tree": "clone", "clone and drop": "clone rem",
        "clone across": "clone", "clone in part": "clonep"},
    "mixed": {
        "flatten": "dets", "flatten last": "dets", "panic first": "remp", "panic below": "remp", "panic and mend": "ins remp",
        "chaos": "ins", "more chaos": "cins det dets ins", "clone and drop": "clone rem", "graft": "clone ins", "copies": "copy rem root"},
    "trees": {
        "fell oldest": "rem", "fell youngest": "rem", "fell both ends": "rem", "thin out": "rem", "thin from front": "rem",
        "thin and grow": "rem cins", "fell and plant": "rem root", "fell and clone": "rem clone", "fell and copy": "copy rem",
        "break up": "det", "gather": "ins", "gather deep": "ins", "panic in turn": "remp", "more chaos": "cins det dets ins",
        "chaos": "ins", "copies": "copy root"},
    "comb": {"flatten": "dets", "panic below": "remp", "panic and mend": "ins remp", "more chaos": "cins det dets ins"},
}
# Those during which iterators are looked at.
LOOKED_AT = [("star", d) for d in ("detach mid", "remove some", "single some", "rotate", "there and back", "grow", "churn", "more chaos")] + [
    ("path", d) for d in ("peel second", "cut bottom", "pile", "climb")] + [("mixed", d) for d in ("flatten", "panic and mend", "chaos", "graft")]
PRINTED = [("path", 10001), ("star", 3000), ("star", 70000), ("fan", 70000), ("path", 20001), ("comb", 10001), ("rcomb", 10001), ("broom", 10000)]
DRILL_OPS = {"C02": "ins", "C03": "ins", "C04": "det", "C05": "dets", "C06": "rem", "C07": "remp", "C09": "cins root",
             "C11": "clone clonep"}
DEBUG, IDS, RELEASE, IDSR = (0, 0), (0, 1), (1, 0), (1, 1)
NARROW, NARROWR = (0, 4), (1, 4)
IDO, IDOR = (0, 2), (1, 2)
# Data without a destructor; C10 is the one property that counts them.
PLAIN = (1, 3)
# Data of size zero.
UNIT = (1, 5)
# Threads share forests.
SHARED = (1, 6)


def level(prop):
    return "model_checking"


def sampled(stages):
    return any(s.startswith(("traces", "huge")) for s in stages)


def drills(prop, n):
    """Those that a property is about."""
    ops = DRILL_OPS.get(prop)
    return [(name, family, n) for family, ds in DRILLS.items() for name, does in ds.items()
            if ops is None or set(does.split()) & set(ops.split())]


def profiles(mix, k, big="any"):
    return [
        ("small", 8 * k, dict(nf=2, target=10, max_ids=60, events=150, mix=mix)),
        ("mid", 6 * k, dict(nf=1, target=24, max_ids=90, events=150, mix=mix)),
        ("big", 4 * k, dict(nf=1, target=80, max_ids=140, size=60, shape=big, events=60, mix=mix)),
    ]


def ballast(mix):
    """Ids beyond 16 bits, tens of thousands of removed nodes."""
    return ("ballast", 3, dict(nf=1, target=12, max_ids=60, fill=66000, graves=1, events=60, mix=mix))


def long(mix):
    """Thousands of operations on one forest."""
    return ("long", 2, dict(nf=1, target=8, max_ids=70, events=2500, paced=1, mix=mix))


def plan(run):
    p, thorough = run.prop, run.tier == "thorough"
    keys = [DEBUG, RELEASE]
    todo = []

    def add(f, *a, **k):
        todo.append((f, a, k))

    if p in STRUCTURE:
        add("lockstep", 1, 4, 4, orphans=1)
        add("lockstep", 1, 3, 3, data=True, wset=True)
        if p in ("C10", "C11", "C20", "C08"):
            add("lockstep", 2, 3, 4)
            add("lockstep", 1, 4, 4, data=True)
        add("steps", 6, [(f, 300) for f in BIG], every=61)
        if p in DEEPER:
            add("steps", 7, ops=DEEPER[p])
        if p in LINKS:
            add("links", 6)
        add("traces", [
            ("small", 12, dict(nf=2, target=10, max_ids=60, events=150, mix="84,0,8,0,8")),
            ("mid", 8, dict(nf=1, target=24, max_ids=90, events=150, mix="84,0,8,0,8")),
            ("big", 4, dict(nf=1, target=80, max_ids=140, size=60, shape="any", events=60, mix="84,0,8,0,8")),
            ballast("84,0,8,0,8"),
            long("84,0,8,0,8"),
        ])
        rel = RELEASE if p == "C10" else PLAIN
        keys = [DEBUG, rel]
        add("drills", drills(p, 12) + drills(p, 300), passes=4)
        add("drills", drills(p, 12) + drills(p, 300), passes=8, key=rel)
        add("lockstep", 1, 3, 3, orphans=1, key=rel)
        add("steps", 5, key=rel)
        add("held", 4, 3, key=DEBUG if p == "C21" else rel)
        # Reading in between; callbacks that work on other forests.
        add("lockstep", 1, 3, 3, besides=1, key=rel)
        add("lockstep", 1, 3, 3, besides=2)
        if p == "C20":
            add("lockstep", 1, 3, 3, data=True, wset=True, besides=2)
            add("lockstep", 2, 2, 4, data=True, besides=2)
            add("steps", 5, [("mixed", 60), ("star", 60)], every=7, besides=2)
            add("drills", drills(p, 12) + [(d, f, 100) for f, d in LOOKED_AT], passes=4, besides=2)
        keys.append(UNIT)
        add("lockstep", 1, 3, 3, orphans=1, key=UNIT)
        add("steps", 4, key=UNIT)
        if p == "C10":
            keys.append(PLAIN)
            add("lockstep", 1, 3, 3, data=True, wset=True, key=PLAIN)
            add("steps", 5, key=PLAIN)
        if thorough:
            add("held", 3, 4, key=rel)
            if p in LINKS:
                add("links", 8)
            add("steps", 7, [(f, 300) for f in FAMILIES], every=31, key=rel)
            add("steps", 1, [("path", 1000), ("star", 1000)], every=997)
            if p in DEEPER:
                add("steps", 8 if p in ("C02", "C03") else 9, ops=DEEPER[p])
            add("lockstep", 1, 4, 4, orphans=2, key=rel)
            add("lockstep", 2, 3, 5, orphans=1)
            add("lockstep", 1, 5, 5)
            add("lockstep", 1, 4, 4, data=True, wset=True)
            add("traces", profiles("84,0,8,0,8", 12), key=RELEASE)
            for shape in ("wide", "deep"):
                add("traces", [("huge-" + shape, 8, dict(nf=1, target=260, max_ids=420, size=220, shape=shape, events=80, mix="84,0,8,0,8"))])
    elif p in ITERATORS:
        add("cursors", 6)
        add("lockstep", 1, 4, 4)
        add("shapes", 6, [(f, 60) for f in FAMILIES], ways=4)
        add("shapes", 2, [(f, 300) for f in BIG], every=97)
        mix = "30,52,8,4,6"
        add("traces", profiles(mix, 1) + [
            ("wide", 2, dict(nf=1, target=80, max_ids=140, size=60, shape="wide", events=60, mix=mix)),
            ("deep", 2, dict(nf=1, target=80, max_ids=140, size=60, shape="deep", events=60, mix=mix)),
            ballast(mix),
            long(mix),
        ])
        add("shapes", 5, [("mixed", 40)], key=RELEASE)
        add("lockstep", 1, 3, 3, besides=1, key=RELEASE)
        add("drills", [(d, f, 300) for f, d in LOOKED_AT], look=47, passes=4, key=RELEASE)
        if thorough:
            add("drills", drills(p, 300), look=23, passes=4)
            add("cursors", 8)
            add("shapes", 8, [(f, 300) for f in FAMILIES], every=37, small=6, key=RELEASE)
            add("shapes", 7, [(f, n) for f in FAMILIES for n in (17, 32, 33, 100)], small=7)
            add("lockstep", 1, 5, 5, iters=True, key=RELEASE)
            add("traces", profiles(mix, 12) + [
                ("wide", 12, dict(nf=1, target=160, max_ids=260, size=140, shape="wide", events=80, mix=mix)),
                ("deep", 12, dict(nf=1, target=160, max_ids=260, size=140, shape="deep", events=80, mix=mix)),
            ])
    elif p in BUILDERS:
        mode = "chain" if p == "C16" else "nest"
        mix = "35,3,52,4,6"
        if mode == "chain":
            add("builders", "chain", 4, True, True, 5, depth=5)
            add("builders", "chain", 8, False, False, 9, depth=9)
            add("builders", "chain", 7, True, False, 9, depth=9)
        else:
            add("builders", "nest", 8, False, False, 99)
            add("builders", "nest", 7, True, False, 99)
        add("programs", mode, 8, [(f, 300) for f in BIG])
        add("traces", profiles(mix, 1) + [ballast(mix), long(mix)])
        add("builders", mode, 4, True, mode == "chain", 3 if mode == "chain" else 99, depth=3, key=RELEASE)
        if thorough:
            if mode == "chain":
                add("builders", "chain", 6, True, True, 6, depth=6, key=RELEASE)
                add("builders", "chain", 11, False, False, 12, depth=12, key=RELEASE)
            else:
                add("builders", "nest", 10, False, False, 99, key=RELEASE)
                add("builders", "nest", 9, True, False, 99)
            add("programs", mode, 11, [(f, 600) for f in FAMILIES], key=RELEASE)
            add("traces", profiles(mix, 16))
            for shape in ("wide", "deep"):
                add("traces", [("huge-" + shape, 8, dict(nf=1, target=260, max_ids=420, size=220, shape=shape, events=80, mix=mix))])
    elif p == "C18":
        mix = "40,3,10,42,5"
        add("prints", 3, range(9), True)
        add("prints", 2, (0, 9, 10, 11), True)
        add("prints", 2, (0, 12, 13), True)
        add("prints", 3, range(12), False)
        add("prints", 4, (0, 1, 2, 4, 6), False, [("mixed", 40), ("path", 30), ("comb", 30), ("rcomb", 31)],
            [(0,), (2, 1, 6), (0, 4, 8, 3, 5, 7, 1)])
        add("prints", 2, (0, 1), False, [(f, 300) for f in BIG], [(0,), (0, 4, 8, 3)])
        add("traces", profiles(mix, 1) + [ballast(mix), long(mix)])
        add("prints", 3, (0, 1, 2), False, nest=True, key=RELEASE)
        add("huge", [], parts=(), printed=PRINTED[:2], stack=2 << 30)
        add("huge", [], parts=(), printed=PRINTED[2:], stack=2 << 30, key=RELEASE)
        if thorough:
            add("prints", 4, range(9), True, splits=4)
            add("prints", 3, range(12), True, splits=4)
            add("prints", 3, range(6, 12), False, [(f, 300) for f in BIG], [(9, 10, 0, 11), (11, 1, 9)])
            add("prints", 5, (0, 1, 2, 6), False, [(f, 120) for f in FAMILIES],
                [(0,), (2, 1, 6), (0, 4, 8, 3, 5, 7, 1), (3, 3, 5, 2)], key=RELEASE)
            add("traces", profiles(mix, 12))
            for shape in ("wide", "deep"):
                add("traces", [("huge-" + shape, 8, dict(nf=1, target=160, max_ids=260, size=140, shape=shape, events=60, mix=mix))])
    elif p == "C23":
        add("printfaults", 3, (0, 1, 2, 3, 5, 8))
        add("printfaults", 4, (0, 2))
        add("printfaults", 3, (0, 2), key=RELEASE)
        if thorough:
            add("printfaults", 4, (0, 1, 2, 3, 5), key=RELEASE)
    elif p == "C24":
        keys = [IDO, IDOR]
        edges = [k + d for k in (0, 128, 255, 1024, 32768, 65534) for d in range(-4, 5) if k + d >= 0]
        add("idorder", 254, range(254), "u8")
        add("idorder", 65534, edges, "u16")
        add("idorder", 65534, edges, "field")
        for t in ("u32", "u64", "usize", "tuple"):
            add("idorder", 66000, edges, t)
        add("idorder", 254, range(254), "u8", key=IDOR)
        add("idorder", 66000, edges, "usize", key=IDOR)
        if thorough:
            more = sorted(set(edges) | {7 ** k % 65534 for k in range(1, 60)} | set(range(0, 65534, 997)))
            add("idorder", 65534, more, "u16", w=6, key=IDOR)
            for t in ("u32", "u64", "usize", "tuple"):
                add("idorder", 3000000, more + [2 ** 20, 2 ** 21 - 1, 2 ** 21], t, key=IDOR)
    elif p == "C25":
        keys = [DEBUG, RELEASE, SHARED]
        some = drills(p, 12) + [(d, f, 300) for f, d in LOOKED_AT]
        add("readers", 4, 4)
        add("readers", 3, 6)
        add("lockstep", 1, 3, 3, data=True, wset=True, besides=1)
        add("lockstep", 2, 2, 4, data=True, besides=1)
        add("steps", 5, [("mixed", 60), ("star", 60)], every=7, besides=1)
        add("drills", drills(p, 12), look=13, passes=2, besides=1)
        add("prints", 3, (0, 2, 4, 5), True, nest=True)
        add("readers", 5, 4, key=RELEASE)
        add("shared", [("mixed", 60), ("path", 300), ("star", 300), ("fan", 300)], 400)
        add("lockstep", 1, 3, 3, orphans=1, besides=1, key=RELEASE)
        add("drills", some, look=13, passes=4, besides=1, key=RELEASE)
        if thorough:
            add("readers", 6, 4, key=RELEASE)
            add("readers", 4, 6, key=RELEASE)
            add("lockstep", 1, 4, 4, orphans=1, besides=1)
            add("lockstep", 2, 3, 4, besides=1, key=RELEASE)
            add("steps", 6, [(f, 300) for f in FAMILIES], every=31, besides=1, key=RELEASE)
            add("drills", drills(p, 300), look=37, besides=1, key=RELEASE)
            add("shared", [(f, 300) for f in FAMILIES], 4000)
    elif p == "C22":
        keys = [DEBUG, PLAIN]
        add("cursors", 6)
        add("shapes", 5, [("mixed", 40)])
        add("huge", [("path", 6001), ("star", 6001), ("comb", 3001), ("broom", 3000), ("fan", 3000)], printed=PRINTED[:2])
        add("huge", [("path", 70000), ("star", 70000), ("comb", 20001), ("broom", 20000), ("fan", 70000)], printed=PRINTED[2:], key=PLAIN)
        if thorough:
            add("shapes", 7, [(f, 100) for f in FAMILIES], every=7)
            add("huge", [("path", 140000), ("star", 140000), ("comb", 60001), ("broom", 60000), ("fan", 140000)], key=PLAIN)
    elif p == "C19":
        keys = [IDS, NARROW, NARROWR, IDSR]
        mix = "70,10,8,4,8"
        for t in ("u8", "u16", "u32", "u64", "usize", "tuple", "field"):
            add("lockstep", 1, 3, 3, data=True, wset=True, key=IDS, id=t)
        for t in ("u8", "u32", "tuple"):
            add("steps", 4, key=IDS, id=t)
        for t in ("u16", "u32", "u64", "usize", "tuple", "field"):
            add("lockstep", 1, 2, 2, data=True, key=IDS, id=t, filler=300)
        add("lockstep", 1, 3, 3, data=True, key=NARROW, id="u8", full=255, orphans=1)
        add("lockstep", 2, 2, 4, key=NARROW, id="u8", full=255)
        add("lockstep", 1, 2, 2, data=True, key=NARROW, id="u16", full=65535)
        add("traces", [
            ("u8", 4, dict(nf=1, target=30, max_ids=270, cap=255, size=200, shape="any", events=80, mix=mix)),
            ("u8full", 4, dict(nf=1, target=300, max_ids=270, cap=255, size=235, shape="any", events=80, mix=mix)),
        ], key=NARROW, id="u8")
        add("traces", [("u16", 4, dict(nf=1, target=20, max_ids=60, cap=65535, fill=65500, events=60, mix=mix))], key=NARROW, id="u16")
        for t in ("u32", "u64", "usize", "tuple", "field"):
            fill = 65000 if t == "field" else 66000
            add("traces", [(t, 3, dict(nf=1, target=30, max_ids=90, fill=fill, events=80, mix=mix)),
                           (t + "-two", 2, dict(nf=2, target=10, max_ids=60, events=80, mix=mix))], key=IDS, id=t)
        add("shapes", 4, [("mixed", 60)], key=IDS, id="u8")
        add("prints", 3, (0, 2), False, key=IDS, id="field")
        add("builders", "nest", 5, True, False, 99, key=IDS, id="tuple")
        add("builders", "chain", 4, True, True, 3, depth=3, key=IDS, id="u16")
        # Without the debug assertions and overflow checks.
        add("lockstep", 1, 2, 2, data=True, key=NARROWR, id="u8", full=255, orphans=1)
        add("lockstep", 1, 2, 2, data=True, key=NARROWR, id="u16", full=65535)
        for t in ("u8", "u16", "u32", "u64", "tuple", "field"):
            add("lockstep", 1, 3, 3, data=True, wset=True, key=IDSR, id=t)
        add("traces", [("u8", 4, dict(nf=1, target=30, max_ids=270, cap=255, size=200, shape="any", events=80, mix=mix))], key=NARROWR, id="u8")
        add("traces", [("u16", 2, dict(nf=1, target=20, max_ids=60, cap=65535, fill=65500, events=60, mix=mix))], key=NARROWR, id="u16")
        add("traces", [("u32", 2, dict(nf=1, target=30, max_ids=90, fill=66000, events=80, mix=mix))], key=IDSR, id="u32")
        if thorough:
            for t in ("u8", "u16", "u32", "u64", "tuple", "field"):
                add("lockstep", 1, 4, 4, key=IDS, id=t, orphans=1)
                add("shapes", 6, [(f, 60) for f in FAMILIES], key=IDS, id=t)
            add("lockstep", 1, 4, 4, key=NARROW, id="u8", full=255)
            add("lockstep", 1, 3, 3, key=NARROW, id="u16", full=65535)
            add("lockstep", 2, 3, 4, key=NARROW, id="u8", full=255)
            for t in ("u32", "u64", "usize", "tuple"):
                add("lockstep", 1, 2, 2, data=True, key=IDS, id=t, filler=66000)
            add("traces", [
                ("u8", 40, dict(nf=1, target=30, max_ids=270, cap=255, size=200, shape="any", events=120, mix=mix)),
                ("u8full", 40, dict(nf=1, target=300, max_ids=270, cap=255, size=235, shape="any", events=120, mix=mix)),
            ], key=NARROW, id="u8")
            add("traces", [("u16", 40, dict(nf=1, target=20, max_ids=60, cap=65535, fill=65500, events=60, mix=mix))], key=NARROW, id="u16")
            for t in ("u32", "u64", "tuple", "field"):
                add("traces", profiles(mix, 4), key=IDS, id=t)
    if p in HUGE:
        # The stack is C22's concern.
        add("huge", [(f, 140000 if thorough else 70000) for f in ("path", "star", "fan")], parts=HUGE[p], stack=2 << 30,
            key=PLAIN if PLAIN in keys else RELEASE)
    return keys, todo


TECHNIQUE = {
    "forest": "TLA+ model checking (TLC) of Forest.tla; lockstep replay of its whole state graph in the real code; TLC validation of recorded traces",
    "iter": "TLA+ model checking (TLC) of Iterators/Cursors.tla; replay of all iterator programs on specification-generated trees and histories in the real code; TLC validation of recorded traces",
    "build": "TLA+ model checking (TLC) of Builders.tla; replay of every builder program of its state graph in the real code; TLC validation of recorded traces",
    "print": "TLA+ model checking (TLC) of Printing/PrintWriter.tla; replay of every printed tree in the real code; TLC validation of recorded traces",
    "huge": "TLA+ model checking (TLC) of Huge.tla, closed forms for huge trees against ForestOps, and of Cursors.tla; replay of the emitted walks, steps and programs in the real code on a small stack",
    "id": "TLA+ model checking (TLC) of Ids.tla (the encoding of ids, all ids of a small width); the comparisons it emits carried out on real ids of every type",
    "readers": "TLA+ model checking (TLC) of Readers.tla (two cursor machines over one forest, all schedules) and Forest.tla; replay of every schedule with every pair of readers, and of the state graph with reads before every step, in the real code",
    "ids": "TLA+ model checking (TLC) of Forest.tla with a limited id supply; lockstep replay of the state graphs for every id type, also at the end of its range; TLC validation of recorded traces",
}
_F = ("Exhaustive for all histories of Forest.tla within the bounds (4 nodes, two forests with 3+1; every entry point, "
      "dead and unknown ids, refused calls, panicking callbacks): every specification transition is executed in the real code and every "
      "observable compared. Drills of hundreds of steps on 300 nodes. Single operations on a path, a star, a fan and many small trees of 70 000 nodes (not for C08, C21). Larger forests (to 150 nodes) by seeded random runs of the real code that TLC judges. Trusts TLC, rustc and the harness's projection.")
_I = ("Exhaustive for all trees to 6 nodes and all forests of 4 nodes with every history leading there, every start node; on trees to 5 nodes every interleaving "
      "of front, back, peek and clone, beyond (trees of nine families, 60 nodes) selected and random programs; a path and a star of 70 000 nodes; along drills on 300 nodes. Random runs judged by TLC. Trusts TLC, rustc and the harness.")
_B = ("Exhaustive for all builder programs within the bounds (chain: 9 calls, or 5 calls with other trees and edits in between; nest: 8 nodes); "
      "programs of 70 000 calls; others (to 60 nodes) by seeded random runs that TLC judges. Trusts TLC, rustc and the harness.")
_P = ("Exhaustive for all trees to 3 nodes with twelve kinds of content (line breaks anywhere, characters beyond ASCII, odd white space, long lines, look-alikes of branches; two more, of 300 lines and of lines of 70 000 characters, to 2 nodes; 4 nodes with five), each split into fragments in several ways, in all print styles; "
      "bigger ones from families and by random runs that TLC judges; a star and a fan of 70 000 nodes, a path of 20 000, two combs and a broom of 10 000. Trailing whitespace is not compared, the alternate form {:#?} not printed.")
_C = ("Exhaustive for all histories of 3 nodes for each of seven id types, with small and large ids, and of 2 to 3 nodes at the end of the range of the 8 and 16 bit types (debug and release builds), "
      "whose real capacity is probed; wider types cannot be exhausted (2^32 nodes). Random runs across the limits judged by TLC.")
_H = ("Huge trees (70 000 levels or siblings, two mixed families of 20 000 nodes; smaller ones in a debug build) on 256 KB of stack: every "
      "traversal from six nodes, every kind of operation, builder programs, all compared with closed forms that TLC checks against the specification of the "
      "operations on small members; printing of a path of 20 000 levels (10 000 in a debug build) and of 70 000 siblings. Allocation is measured for all iterators on all trees to 5 nodes. Excluded: printing of much deeper trees (its output grows with the square), deep nest-builder closures.")
NOTES = {k: ("forest", _F) for k in STRUCTURE}
NOTES.update({k: ("iter", _I) for k in ITERATORS})
NOTES.update({k: ("build", _B) for k in BUILDERS})
NOTES["C18"] = ("print", _P)
NOTES["C23"] = ("print", "Exhaustive for all trees to 3 nodes with six kinds of content (4 nodes with two), from every node, for every content that fails after any "
                "of its fragments and every write of the output that fails, once or for good, in all print styles.")
NOTES["C24"] = ("id", "All ids of the 8 bit type compared pairwise, for the six others all pairs of ids around the powers of two "
                "up to 65536, and all of them (to 66 000) as keys and sorted; with removals in between and the last quarter created in a cloned forest.")
NOTES["C25"] = ("readers", "Exhaustive for every pair of readers (twelve iterators and the accessors with printing, from every node) of every tree to 5 nodes, within one forest and across two, in every order of "
                "their first four steps (six on trees to 3 nodes) from either end; all histories of 3 nodes (two forests with 2+2) with everything read before every step; drills on 300 nodes. Threads sharing a forest of 300 nodes run as the scheduler has it. "
                "What is wrong for a reader alone too is not counted here but in the property it concerns.")
NOTES["C22"] = ("huge", _H)
NOTES["C19"] = ("ids", _C)
