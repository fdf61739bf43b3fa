"""P01: children lists and parent links under editing (spec: NodeTree)."""
from . import core
from quickly.node import Node

NOIDX = 999


class V(Node):
    val = 0

    def body_equals(self, other):
        return self.val == other.val

    def copy(self, with_children=True):
        c = super().copy(with_children)
        c.val = self.val
        return c


class A(V):
    pass


class B(V):
    pass


class C(A):
    pass


TYPES = [A, B, C]


def make(typ, val):
    n = TYPES[typ]()
    n.val = val
    return n


def sl(i, j, k):
    f = lambda v: None if v == NOIDX else v
    return slice(f(i), f(j), None if k == 1 else k)


def apply(nodes, op):
    """Apply one op to real nodes (list, 1-based ids); returns result list."""
    n = nodes[op["n"] - 1]
    x = [nodes[m - 1] for m in op["x"]]
    o, i, j, k = op["o"], op["i"], op["j"], op["k"]
    ids = {id(m): q + 1 for q, m in enumerate(nodes)}
    if o == "append":
        n.append(x[0])
    elif o == "extend":
        n.extend(iter(x) if op.get("it") else x)
    elif o == "insert":
        n.insert(i, x[0])
    elif o == "set":
        n[i] = x[0]
    elif o == "setslice":
        n[sl(i, j, k)] = iter(x) if op.get("it") else x
    elif o == "del":
        del n[i]
    elif o == "delslice":
        del n[sl(i, j, k)]
    elif o == "take":
        s = sl(i, j, 1)
        r = n.take(s.start, s.stop) if s.start is not None else n.take(end=s.stop)
        return [ids[id(m)] for m in r]
    elif o == "pop":
        return [ids[id(n.pop(i))]]
    elif o == "remove":
        n.remove(x[0])
    elif o == "clear":
        n.clear()
    elif o == "reverse":
        n.reverse()
    elif o == "replace":
        n.replace_with(x[0])
    elif o == "unparent":
        if i:
            del n.parent
        else:
            n.parent = None
    elif o == "index":
        return [n.index(x[0])]
    elif o == "contains":
        return [int(x[0] in n)]
    elif o == "same":
        r = int(n == x[0])
        if (n != x[0]) == bool(r):
            r = 2
        return [r]
    elif o == "equals":
        return [int(n.equals(x[0]))]
    return []


def project(nodes):
    ids = {id(m): q + 1 for q, m in enumerate(nodes)}
    kids = [[ids.get(id(c), -1) for c in n] for n in nodes]
    par = []
    for n in nodes:
        p = n.parent
        par.append(0 if p is None else ids.get(id(p), -1))
    return kids, par


def copyrecord(nodes, op):
    """The copy as preorder list of [id, par, typ, val, kids]."""
    n = nodes[op["n"] - 1]
    c = n.copy(op["o"] == "copy") if op["o"] == "copy0" or op["i"] else n.copy()
    keep = [c]
    ids = {id(m): q + 1 for q, m in enumerate(nodes)}
    order = []

    def visit(m):
        keep.append(m)
        ids.setdefault(id(m), len(ids) + 1)
        order.append(m)
        for q in m:
            visit(q)
    visit(c)
    res = []
    for m in order:
        p = m.parent
        res.append(dict(id=ids[id(m)], par=0 if p is None else ids.get(id(p), -1),
                        typ=TYPES.index(type(m)) if type(m) in TYPES else -1, val=m.val,
                        kids=[ids[id(q)] for q in m]))
    return res


# ---- (B) every transition of the model replayed into real nodes

def replay(trs):
    bad = []
    for t in trs:
        nodes = [make(0, 0) for _ in t["k"]]
        for n, ks in zip(nodes, t["k"]):
            list.extend(n, [nodes[q - 1] for q in ks])
        for n, p in zip(nodes, t["p"]):
            n.parent = nodes[p - 1] if p else None
        r, err = core.guarded(apply, nodes, t["op"], seconds=5)
        kids, par = project(nodes)
        clause = None
        if bool(err) != t["e"]:
            clause = "unexpected-failure" if err else "missing-failure"
        elif kids != t["k2"]:
            clause = "children-list"
        elif par != t["p2"]:
            clause = "parent-link"
        elif not err and t["op"]["o"] in ("take", "pop") and r != t["r"]:
            clause = "result"
        if clause:
            bad.append((clause, dict(transition=t, real=dict(kids=kids, par=par, ret=r, err=err))))
    return bad


# ---- (C) long random histories

def reach(kids, n, seen=None):
    seen = set() if seen is None else seen
    if n not in seen:
        seen.add(n)
        for c in kids[n - 1]:
            reach(kids, c, seen)
    return seen


def treesize(kids, n, memo=None):
    return 1 + sum(treesize(kids, c) for c in kids[n - 1])


def history(args):
    import random
    seed, length, N, dup = args
    rng = random.Random(seed)
    typ = [rng.randrange(3) if rng.random() < .5 else 0 for _ in range(N)]
    val = [rng.randrange(3) if rng.random() < .4 else 0 for _ in range(N)]
    nodes = [make(t, v) for t, v in zip(typ, val)]
    kids, par = project(nodes)
    if rng.random() < .5:
        # nested construction
        nodes[0] = TYPES[typ[0]](*nodes[1:4])
        nodes[0].val = val[0]
        kids, par = project(nodes)
        if (kids[0], par[1:4]) != ([2, 3, 4], [1, 1, 1]):
            return [dict(ev="init", kids=[[] for _ in range(N)], par=[0] * N, typ=typ, val=val),
                    dict(ev="op", op=dict(o="extend", n=1, x=[2, 3, 4], i=0, j=0, k=1), kids=kids, par=par, err="", ret=[])]
    res = [dict(ev="init", kids=kids, par=par, typ=typ, val=val)]
    for _ in range(length):
        o = rng.choice(["append", "append", "extend", "insert", "insert", "set", "set", "setslice", "setslice", "setslice",
                        "del", "delslice", "take", "pop", "remove", "clear", "reverse", "replace", "replace",
                        "unparent", "index", "contains", "same", "equals", "equals", "copy", "copy0"])
        n = rng.randrange(N) + 1
        idx = lambda: rng.choice([NOIDX, *range(-N - 1, N + 2)]) if rng.random() < .2 else rng.randrange(-4, 6)
        i, j, k = idx(), idx(), 1
        x = []
        if o in ("setslice", "delslice") and rng.random() < .3:
            k = rng.choice([2, 3, -1, -2])
        if i == NOIDX and o not in ("setslice", "delslice", "take"):
            i = 0
        target = n
        if o == "replace":
            target = par[n - 1] or n
        cand = [m for m in range(1, N + 1)
                if target not in reach(kids, m) and (dup or m != n)
                and (dup or not any(m in ks for ks in kids))]
        cnt = {"append": 1, "insert": 1, "set": 1, "replace": 1}.get(o)
        if cnt is None and o in ("extend", "setslice"):
            cnt = rng.randrange(4)
            if o == "setslice" and k != 1 and rng.random() < .7:
                cnt = len(range(*sl(i, j, k).indices(len(kids[n - 1]))))
        if cnt is not None:
            if dup:
                x = [rng.choice(cand) for _ in range(cnt)] if cand else []
            else:
                x = rng.sample(cand, min(cnt, len(cand)))
            if cnt and not x or o in ("append", "insert", "set", "replace") and not x:
                continue
            if sum(len(ks) for ks in kids) > 3 * N:
                continue
        if o in ("remove", "index", "contains", "same", "equals"):
            x = [rng.randrange(N) + 1]
            if rng.random() < .5 and kids[n - 1]:
                x = [rng.choice(kids[n - 1])]
            if o == "equals":
                shape = lambda m: (typ[m - 1], len(kids[m - 1]))
                same = [m for m in range(1, N + 1) if shape(m) == shape(n)]
                x = [rng.choice(same)]
        if o in ("copy", "equals") and treesize(kids, n) > 60:
            continue
        if o == "unparent":
            i = rng.randrange(2)
        op = dict(o=o, n=n, x=x, i=i, j=j, k=k)
        line = dict(ev="op", op=op, err="", ret=[])
        if rng.random() < .4:
            op["it"] = 1
        if o in ("copy", "copy0"):
            op["i"] = rng.randrange(2)
            c, err = core.guarded(copyrecord, nodes, op)
            line["copy"] = c
        else:
            r, err = core.guarded(apply, nodes, op)
            line["ret"] = r if r is not None else []
        op.pop("it", None)
        kids, par = project(nodes)
        line.update(kids=kids, par=par, err=err or "")
        if any(-1 in ks for ks in kids):
            line["err"] = "children that are no nodes of the test"
            res.append(line)
            break
        res.append(line)
    return res


def histories(args):
    return [history(a) for a in args]


def run(rep):
    n, ml = (4, 3) if rep.thorough else (3, 2)
    cfg = ("SPECIFICATION Spec\nCONSTANTS N = %d\nMaxLen = %d\nINVARIANT Consistent\nPROPERTY Frame\n"
           "VIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (n, ml))
    r = core.run_tlc("NodeTreeMC", cfg, workers=1, heap="4g")
    rep.add_tlc("NodeTreeMC N=%d MaxLen=%d" % (n, ml), r)
    rep.log("model: %d states, %d transitions emitted" % (r.distinct, len(r.lines)))
    bad = core.pmap_chunks(replay, r.lines)
    rep.traces += len(r.lines)
    rep.sample(r.lines[len(r.lines) // 2])
    for clause, case in bad:
        rep.violation("replay:" + clause, clause, case)
    rep.exhaustive = True
    nh, ln, N = (1200, 60, 12) if rep.thorough else (240, 40, 9)
    args = [(rep.rng.randrange(1 << 30), ln, rep.rng.choice([4, 6, N]), q % 3 == 0) for q in range(nh)]
    hs = core.pmap_chunks(histories, args)
    verdicts, st = core.judge("NodeTreeTrace", None, groups=hs)
    rep.add_judge("NodeTreeTrace", st, traces=len(hs))
    rep.sample(hs[0][:3])
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("nodes under test are held by strong references; a parent that is garbage collected is outside the model")
