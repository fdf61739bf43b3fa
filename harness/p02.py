"""P02: walks and queries agree with one document order (spec: TreeWalk)."""
import random

from . import core
from .p01 import A, B, C, V, TYPES, make

CLS = {0: A, 1: B, 2: C, 9: V}


def build(kids, typ, val):
    nodes = [make(t, v) for t, v in zip(typ, val)]
    for n, ks in zip(nodes, kids):
        if ks:
            n.extend([nodes[k - 1] for k in ks])
    return nodes


def drive(gen, prune):
    """Walk a generator, sending False after the nodes in prune."""
    res = []
    try:
        n = next(gen)
        while True:
            res.append(n)
            if len(res) > 500:
                break
            n = gen.send(False) if any(n is p for p in prune) else next(gen)
    except StopIteration:
        pass
    return res


def ask(nodes, q):
    ids = {id(n): i + 1 for i, n in enumerate(nodes)}
    I = lambda ns: [ids.get(id(n), -9) for n in ns]
    O = lambda n: [] if n is None else I([n])
    n = nodes[q["a"] - 1]
    b = nodes[q["b"] - 1] if q["b"] else None
    P = [nodes[m - 1] for m in q["p"]]
    o = q["o"]
    if q["inst"]:
        T = nodes[q["inst"] - 1]
    else:
        T = tuple(CLS[c] for c in q["t"])
        if len(T) == 1:
            T = T[0]
    inP = lambda m: any(m is p for p in P)
    if o == "fwd":
        return I(drive(n.forward(b) if b else n.forward(), P))
    if o == "bwd":
        return I(drive(n.backward(b) if b else n.backward(), P))
    if o == "desc":
        return I(drive(n.descendants(), P))
    if o == "rdesc":
        return I(drive(n.descendants(reverse=True), P))
    if o == "anc":
        return I(n.ancestors())
    if o == "root":
        return I([n.root()])
    if o == "trail":
        return list(n.trail())
    if o == "depth":
        return [n.depth()]
    if o == "height":
        return [n.height()]
    if o == "isroot":
        return [int(n.is_root())]
    if o == "islast":
        return [int(n.is_last())]
    if o == "isfirst":
        return [int(n.is_first())]
    if o == "rsibs":
        return I(n.right_siblings())
    if o == "lsibs":
        return I(n.left_siblings())
    if o == "rsib":
        return O(n.right_sibling())
    if o == "lsib":
        return O(n.left_sibling())
    if o == "ancix":
        return [x for p, i in n.ancestors_with_index() for x in (ids.get(id(p), -9), i)]
    if o == "common":
        return O(n.common_ancestor(b))
    if o == "commontrail":
        c, t1, t2 = n.common_ancestor_with_trail(b)
        return [] if c is None else I([c]) + [-1] + list(t1) + [-1] + list(t2)
    if o == "/":
        return I(n / T)
    if o == "^":
        return I(n ^ T)
    if o == "//":
        return I(n // T)
    if o == "<<":
        return I(n << T)
    if o == ">":
        return I(n > T)
    if o == "<":
        return I(n < T)
    if o == "instances":
        return I(n.instances_of(T))
    if o == "filter":
        return I(n.filter(inP))
    if o == "filterfwd":
        return I(n.filter_descendants(inP, n.forward(b) if b else n.forward()))
    if o == "filterbwd":
        return I(n.filter_descendants(inP, n.backward(b) if b else n.backward()))
    raise core.MachineryError(o)


def replay(trees):
    bad = []
    for t in trees:
        nodes = build(t["kids"], t["typ"], t["val"])
        for q, want in t["qs"]:
            r, err = core.guarded(ask, nodes, q, seconds=5)
            if err or r != want:
                bad.append(((("failure:" if err else "walk:") + q["o"]), dict(
                    kids=t["kids"], q=q, want=want, real=r, err=err)))
    return bad


def randtree(rng, n, forest=False):
    kids = [[] for _ in range(n)]
    deep = rng.random()
    for i in range(2, n + 1):
        if forest and rng.random() < .15:
            continue
        p = rng.randrange(max(1, i - 3), i) if rng.random() < deep else rng.randrange(1, i)
        kids[p - 1].insert(rng.randrange(len(kids[p - 1]) + 1), i)
    return kids


def randq(rng, n, kids):
    par = [0] * (n + 1)
    for p, ks in enumerate(kids):
        for k in ks:
            par[k] = p + 1
    a = rng.randrange(n) + 1
    anc = []
    p = par[a]
    while p:
        anc.append(p)
        p = par[p]
    o = rng.choice(["fwd", "bwd", "desc", "rdesc", "filter", "filterfwd", "filterbwd", "fwd", "bwd", "anc", "root",
                    "trail", "depth", "height", "isroot", "islast", "isfirst", "rsibs", "lsibs", "rsib", "lsib",
                    "ancix", "common", "commontrail", "common", "commontrail", "/", "^", "//", "<<", ">", "<", "instances"])
    if o in ("islast", "isfirst") and not par[a]:
        o = "isroot"
    b = 0
    if o in ("fwd", "bwd", "filterfwd", "filterbwd") and anc and rng.random() < .6:
        b = rng.choice(anc)
    if o.startswith("common"):
        b = rng.randrange(n) + 1
    p = sorted(rng.sample(range(1, n + 1), rng.randrange(n // 2 + 1)))
    t = rng.choice([[0], [1], [2], [9], [0, 1], [1, 2]])
    inst = rng.randrange(n) + 1 if o in ("/", "^", "//", "<<", ">", "<") and rng.random() < .4 else 0
    return dict(o=o, a=a, b=b, p=p, t=t, inst=inst)


def record(args):
    res = []
    for seed, n, cnt in args:
        rng = random.Random(seed)
        kids = randtree(rng, n, rng.random() < .3)
        typ = [rng.randrange(3) for _ in range(n)]
        val = [rng.randrange(2) for _ in range(n)]
        nodes = build(kids, typ, val)
        for _ in range(cnt):
            q = randq(rng, n, kids)
            r, err = core.guarded(ask, nodes, q, seconds=5)
            res.append(dict(kids=kids, typ=typ, val=val, q=q, res=r or [], err=err or "", probe=0))
    return res


def probes():
    """Fixed inputs of the known finding (see DESIGN.md): an example node of a
    strict subtype right of < or >."""
    res = []
    for o, a in (("<", 3), (">", 2)):
        kids, typ, val = [[2, 3, 4], [], [], []], [1, 0, 0, 2], [0, 0, 0, 0]
        if o == "<":
            typ = [1, 2, 0, 0]
        nodes = build(kids, typ, val)
        q = dict(o=o, a=a, b=0, p=[], t=[0], inst=2 if o == "<" else 4)
        r, err = core.guarded(ask, nodes, q, seconds=5)
        res.append(dict(kids=kids, typ=typ, val=val, q=q, res=r or [], err=err or "", probe=1,
                        key="probe: siblings typed A,A,C: node %s example" % o))
    return res


def run(rep):
    n, np = (7, 6) if rep.thorough else (5, 5)
    r = core.run_tlc("TreeWalkMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nNP = %d\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS Partition DocOrder PreIsOrder CommonYoungest Emit\n" % (n, np), workers=1, heap="6g")
    rep.add_tlc("TreeWalkMC N=%d" % n, r)
    nq = sum(len(t["qs"]) for t in r.lines)
    rep.extra["queries_replayed"] = nq
    rep.traces += nq
    rep.log("model: %d trees, %d queries" % (len(r.lines), nq))
    t = r.lines[-1]
    rep.sample(dict(kids=t["kids"], qs=t["qs"][:3]))
    for clause, case in core.pmap_chunks(replay, r.lines, nchunks=len(r.lines)):
        rep.violation("replay:" + clause, clause, case)
    rep.exhaustive = True
    cnt = 1200 if rep.thorough else 260
    args = [(rep.rng.randrange(1 << 30), rep.rng.randrange(2, 25), 25) for _ in range(cnt)]
    lines = core.pmap_chunks(record, args)
    lines.extend(probes())
    verdicts, st = core.judge("TreeWalkTrace", lines)
    rep.add_judge("TreeWalkTrace", st)
    rep.sample(lines[0])
    rep.violations_from(verdicts, lambda line, c: line.get("key") or "trace:" + c)
