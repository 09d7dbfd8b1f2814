"""The sequences of operations of the design model MC_Store, replayed on real cameras and groups."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import vh
from cams import pick
from d_store import World, FS

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Topo = %d Len0 = %d Fault = \"%s\" Export = %s\n"
# faulty designs and the length of the shortest history that shows them
FAULTS = [("lens", 1), ("shared", 1), ("fit", 1), ("default", 2), ("none", 2), ("uncertain", 1), ("sample", 2), ("trace", 2), ("mean", 3)]


def explore(cls, work, topos, faults=(), length=None, keep=()):
    n = length or (3 if vh.THOROUGH else 2)
    jobs = [(t, n, "", "TRUE", None) for t in topos] + [(5 if f == "shared" else 1, k, f, "FALSE", "Invariant Inv is violated") for f, k in FAULTS if f in faults]

    def go(j):
        t, k, f, e, must = j
        return vh.model(cls, os.path.join(work, "%d%s" % (t, f)), "MC_Store", CFG % (t, k, f, e), workers=2, timeout=1500, heap="6g", must_fail=must)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(go, jobs))
    good = res[:len(topos)]
    found = [c for r in good for c in vh.cases(r["out"])]
    total = len(found)
    if keep:
        found = [c for c in found if any(o["k"] in keep for o in c["ops"])]
    if len(found) > 30000:
        found = random.Random(vh.SEED).sample(found, 30000)
    return dict(module="MC_Store.tla", exhaustive=True, states=sum(r["states"] for r in good), generated=sum(r["generated"] for r in good), length=n,
                setups=list(topos), faulty_designs_rejected=[j[2] for j in jobs[len(topos):]], histories=total, cases=found)


def m05(cls, work):
    return explore(cls, work, (1, 2, 3, 4, 5), [f for f, k in FAULTS if vh.THOROUGH or f in ("lens", "fit", "shared")])


def m06(cls, work):
    return explore(cls, work, (1, 2, 3, 4))


def m07(cls, work):
    return explore(cls, work, (1, 2, 5), keep=("save", "load"))


def m19(cls, work):
    return explore(cls, work, (1, 3), ("sample",), keep=("unc", "sample", "mean", "trace"))


def m23(cls, work):
    return explore(cls, work, (3, 4))


SETUPS = {
    1: (dict(P1="rect", O1="thr", L1="brown"), [("P1", "O1", "L1")], None),
    2: (dict(P1="rect", P2="cyl", O1="thr", L1="brown", L2="none"), [("P1", "O1", "L1"), ("P2", "O1", "L2")], None),
    5: (dict(P1="rect", P2="rect", O1="thr", L1="brown"), [("P1", "O1", "L1"), ("P2", "O1", "L1")], None),
    3: (dict(P1="equi", O1="ypr", O2="ypr", L1="abc"), None, (["P1"], ["O1", "O2"], ["L1"])),
    4: (dict(P1="rect", P2="rect", O1="thr", L1="brown", L2="abc"), None, (["P1", "P2"], ["O1"], ["L1", "L2"])),
}


def build(w, topo):
    parts, pairs, group = SETUPS[topo]
    ids = {a: w.part(k) for a, k in parts.items()}
    if pairs:
        for i, t in enumerate(pairs):
            ids["K%d" % (i + 1)] = w.cam(*[ids[x] for x in t])
    else:
        g = w.group(*[[ids[x] for x in lst] for lst in group])
        if g is None:
            return None
        ids["G1"] = g
        for i, k in enumerate(w.groups[g]):
            ids["K%d" % (i + 1)] = k
    return ids


def number(w, c, x):
    cell = w.cells[c]
    if x == "zero" and cell["n"] in FS + ("focallength_px",):
        x = "new"
    v = {"new": w.value(cell["n"]), "zero": 0, "current": w.eff(c), "default": cell["d"], "mean": cell["m"]}[x]
    return w.value(cell["n"]) if v is None else v


def step(w, ids, o, file):
    """one operation of the model; returns the cell it is about"""
    k, q = o["k"], ids[o["o"]]
    c = w.names[q].get(o["n"])
    if o["n"] and c is None:
        return None
    cell = w.cells.get(c)
    if cell and cell["n"] == "focallength_px" and w.f_uncertain(c):
        return None
    if k == "set":
        w.op_set(q, o["n"], number(w, c, o["x"]))
    elif k == "none":
        if cell["d"] is not None:
            w.op_set(q, o["n"], None)
    elif k == "unc":
        if not w.f_uncertain(c):
            w.op_set(q, o["n"], float(w.value(cell["n"], False)), w.std(cell["n"]))
    elif k == "default":
        w.op_default(q, o["n"], number(w, c, o["x"]))
    elif k == "fit":
        if cell["m"] is None:
            w.op_fit(q, [o["n"]], [float(number(w, c, o["x"]))])
    elif k in ("sample", "mean"):
        w.op_sample(q, mean=k == "mean")
    elif k == "trace":
        if q not in w.traced:
            w.op_trace(q)
    elif k == "save":
        file.append(w.op_save(q, "case.json"))
    elif k == "load":
        if file:
            w.op_load(q, file[-1])
    return c


def look(w, ids, o, c, what):
    q = ids[o["o"]]
    if c is not None:
        w.read_cell_everywhere(c)
    elif o["k"] != "save" or what == "C07":
        w.reads(pairs=[(q, n) for n in w.names[q]])
    if what == "C06":
        w.open(q)
        w.reads(4)
        if o["k"] == "default" or w.rng.random() < 0.2:
            w.read_defaults(2)
        if w.rng.random() < 0.1:
            w.probe_all()
    else:
        w.probe_all()


def replay(rng, size, cases, pid):
    ev = [dict(k="reset")]
    cases = list(cases)
    if size and len(cases) > size:
        cases = [cases[i] for i in rng.choice(len(cases), size, replace=False)]
    for case in cases:
        w = World(rng, pid)
        ids = build(w, case["topo"])
        if ids is None:
            ev += w.ev
            continue
        file = []
        for o in case["ops"]:
            c = step(w, ids, o, file)
            look(w, ids, o, c, pid)
        # close: draw, return to the mean, and load once more
        whole = ids["G1"] if "G1" in ids else ids[pick(rng, [k for k in ids if k[0] == "K"])]
        for k in ("sample", "mean"):
            w.op_sample(whole, mean=k == "mean")
            w.reads(pairs=[(whole, n) for n in w.names[whole] if rng.random() < 0.6])
            if pid != "C06":
                w.probe_all()
        if pid == "C07":
            k = ids["K1"]
            f = w.op_save(k, "case.json")
            t = pick(rng, [ids["K1"], ids[[x for x in ids if x[0] == "K"][-1]], None])
            q = w.op_load(t, f, fresh=t is None)
            w.reads(pairs=[(q, n) for n in w.names[q]])
            w.probe_all()
        ev += w.ev
    return ev
