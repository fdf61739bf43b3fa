"""P03: range navigation (spec: RangeNav)."""
import random

from . import core
from .p02 import CLS, build, drive, randtree
from quickly.node import Range


class Env:
    """A real range over a real tree, with ids."""

    def __init__(self, kids, typ, val, top, s, e, how):
        self.nodes = build(kids, typ, val)
        self.ids = {id(n): i + 1 for i, n in enumerate(self.nodes)}
        N = lambda i: self.nodes[i - 1] if i else None
        a = N(top)

        def trail(n):
            t = []
            while n is not a:
                t.insert(0, next(i for i, m in enumerate(n.parent) if m is n))
                n = n.parent
            return t
        if how == "nodes":
            self.r = Range.from_nodes(N(s), N(e))
        elif how == "nodesroot":
            self.r = Range.from_nodes(N(s), N(e), True)
        elif how == "method":
            self.r = N(s).range(N(e))
        elif how == "methodroot":
            self.r = N(s).range(N(e), True)
        else:
            self.r = Range(a, trail(N(s)) if s else None, trail(N(e)) if e else None)

    def I(self, ns):
        res = []
        for n in ns:
            res.append(self.ids.get(id(n), -9))
            if len(res) > 500:
                break
        return res

    def obs(self):
        r = self.r
        return dict(node=self.I([r.node])[0], index=r.index, depth=r.depth(), trail=list(r.trail()),
                    start=r.start(), end=r.end(), inr=int(r.in_range()))

    def move(self, a):
        r, o = self.r, a["o"]
        if o == "next":
            return self.I([n for n in [next(r, None)] if n is not None])
        if o == "prev":
            return self.I([n for n in [next(r.reversed(), None)] if n is not None])
        if o == "enter":
            return [r.enter()]
        if o == "leave":
            return [r.leave()]
        if o == "reset":
            r.reset()
            return []
        if o == "goto":
            x = r.goto(self.nodes[a["a"] - 1])
            return [int(x) if isinstance(x, bool) else -1]
        if o == "index":
            r.index = a["a"]
            return []

    def flat(self, t, n):
        """The extracted tree as the ids of the nodes it must correspond to."""
        # a copied node is identified by (type, val, uid)
        res = [getattr(t, "uid", -9)]
        if len(t):
            res.append(0)
            for c in t:
                if c.parent is not t or id(c) in self.ids:
                    res.append(-8)
                res.extend(self.flat(c, n))
            res.append(-1)
        return res

    def ask(self, q):
        o = q["o"]
        N = lambda i: self.nodes[i - 1] if i else None
        if o in ("in", "and", "bool", "full", "bounds"):
            r = self.r
            if o == "in":
                return [int(N(q["b"]) in r)]
            if o == "and":
                x = r & N(q["b"])
                if bool(x) != bool(r.intersects(N(q["b"]))):
                    return [-1]
                return [int(bool(x))]
            if o == "bool":
                return [int(bool(r))]
            if o == "full":
                return [int(bool(r.is_full()))]
            g = lambda n: 0 if n is None else self.I([n])[0]
            return [g(r.ancestor()), g(r.start_node()), g(r.end_node())]
        cur = self.r.node
        r = self.r.copy()
        r.goto(cur)
        P = [N(m) for m in q["p"]]
        T = N(q["inst"]) if q["inst"] else tuple(CLS[c] for c in q["t"])
        u = N(q["b"])
        I = self.I
        if o == "fwd":
            return I(drive(r.forward(u) if u is not None else r.forward(), P))
        if o == "bwd":
            return I(drive(r.backward(u) if u is not None else r.backward(), P))
        if o == "desc":
            return I(drive(r.descendants(), P))
        if o == "rdesc":
            return I(drive(r.descendants(True), P))
        if o == "nodes":
            return I(drive(r.nodes(), P))
        if o == "kids":
            return I(r.children())
        if o == "rkids":
            return I(r.children(True))
        if o == "anc":
            return I(r.ancestors())
        if o == "/":
            return I(r / T)
        if o == "^":
            return I(r ^ T)
        if o == "//":
            return I(r // T)
        if o == ">":
            return I(r > T)
        if o == "<":
            return I(r < T)
        if o == "<<":
            return I(r << T)
        if o == "instances":
            return I(r.instances_of(T))
        if o == "filter":
            return I(r.filter(lambda m: any(m is p for p in P)))
        if o == "fromhere":
            h = r.from_here()
            if h.ancestor() is not cur:
                return [-7]
            return I(h.descendants())
        if o in ("extract", "fhextract"):
            # tag every node so that its copy can be recognised
            for i, n in enumerate(self.nodes):
                n.uid = i + 1
            cls = {type(n) for n in self.nodes}
            saved = {}
            for k in cls:
                saved[k] = k.__dict__.get("copy")

                def copy(self, with_children=True, k=k):
                    c = super(k, self).copy(with_children)
                    c.uid = self.uid
                    return c
                k.copy = copy
            try:
                t = (r.from_here() if o == "fhextract" else r).extract_tree()
                if t.parent is not None or id(t) in self.ids:
                    return [-6]
                return self.flat(t, None)
            finally:
                for k in cls:
                    if saved[k] is None:
                        del k.copy
                    else:
                        k.copy = saved[k]
        raise core.MachineryError(o)


def hows(kids, top, s, e):
    res = ["trails"]
    par = {k: p + 1 for p, ks in enumerate(kids) for k in ks}

    def anc(n):
        r = [n]
        while n in par:
            n = par[n]
            r.append(n)
        return r
    root = anc(top)[-1]
    if s or e:
        if top == root:
            if s and e:
                res += ["nodesroot", "methodroot"]
            else:
                res += ["nodes"]
        if s and e:
            common = next(x for x in anc(s) if x in anc(e))
            if common == top:
                res += ["nodes", "method"]
    return res


def replay(states):
    bad = []
    for t in states:
        for how in hows(t["kids"], 1, t["s"], t["e"]):
            env, err = core.guarded(Env, t["kids"], t["typ"], t["val"], 1, t["s"], t["e"], how)
            base = dict(kids=t["kids"], s=t["s"], e=t["e"], cur=t["cur"], ent=t["ent"], how=how)
            if err:
                bad.append(("failure:make", dict(base, err=err)))
                continue
            for q, want in t["qs"]:
                r, err = core.guarded(env.ask, q, seconds=5)
                if err or r != want:
                    bad.append((("failure:" if err else "range:") + q["o"], dict(base, q=q, want=want, real=r, err=err)))

            def place():
                env.r.reset()
                if t["cur"] != 1:
                    env.r.goto(env.nodes[t["cur"] - 1])
                    if t["ent"]:
                        env.r.enter()
            if how != "trails" and len(t["kids"]) > 4:
                continue
            if t["ms"]:
                _, err = core.guarded(place)
                if err:
                    bad.append(("failure:goto", dict(base, err=err)))
                    continue
            for q, want in t["ws"]:
                r, err = core.guarded(env.ask, q, seconds=5)
                if err or r != want:
                    bad.append((("failure:" if err else "range:") + q["o"], dict(base, q=q, want=want, real=r, err=err)))
            for a, want, obs in t["ms"]:
                _, err = core.guarded(place)
                if err:
                    break
                r, err = core.guarded(env.move, a, seconds=5)
                o, err2 = core.guarded(env.obs, seconds=5)
                if err2:
                    bad.append(("failure:observe", dict(base, a=a, err=err2)))
                elif bool(err) != want["err"] or (not err and a["o"] != "index" and r != want["ret"]):
                    bad.append(("move:" + a["o"], dict(base, a=a, want=want, real=r, err=err)))
                elif o != obs:
                    bad.append(("cursor:" + a["o"], dict(base, a=a, want=obs, real=o)))
    return bad


def history(args):
    seed, n, length = args
    rng = random.Random(seed)
    kids = randtree(rng, n)
    typ = [rng.randrange(3) for _ in range(n)]
    val = [rng.randrange(2) for _ in range(n)]
    par = {k: p + 1 for p, ks in enumerate(kids) for k in ks}
    below = lambda m: [x for k in kids[m - 1] for x in [k] + below(k)]
    tops = [m for m in range(1, n + 1) if kids[m - 1]] or [1]
    top = 1 if rng.random() < .6 else rng.choice(tops)
    ins = below(top)
    if not ins:
        return []
    order = ins             # document order
    k = rng.random()
    s = e = 0
    if k < .8:
        i, j = sorted((rng.randrange(len(order)), rng.randrange(len(order))))
        s, e = order[i], order[j]
        if rng.random() < .25:
            s = 0
        if rng.random() < .25:
            e = 0
    if rng.random() < .05:
        s = top
    isabove = lambda a, b: b in below(a)
    # never an empty range here: s <= e in document order and e # top
    how = rng.choice(hows(kids, top, s, e))
    res = [dict(ev="range", kids=kids, typ=typ, val=val, top=top, s=s, e=e)]
    env, err = core.guarded(Env, kids, typ, val, top, s, e, how)
    if err:
        return res + [dict(ev="ask", q=dict(o="bounds", b=0, p=[], t=[], inst=0), ret=[], err=err)]
    lastent = False
    for _ in range(length):
        if rng.random() < .7:
            o = rng.choice(["next", "next", "next", "prev", "prev", "enter", "enter", "leave", "goto", "index", "reset"])
            if o == "reset" and rng.random() < .7:
                continue
            if o == "leave" and rng.random() < .5:
                continue
            a = dict(o=o, a=0)
            if o == "goto":
                a["a"] = rng.randrange(1, n + 1)
            elif o == "index":
                a["a"] = rng.randrange(0, 5)
            r, err = core.guarded(env.move, a, seconds=5)
            ob, err2 = core.guarded(env.obs, seconds=5)
            res.append(dict(ev="move", a=a, ret=r or [], obs=ob or dict(node=-9), err=err or err2 or ""))
            if err2:
                break
        else:
            o = rng.choice(["fwd", "bwd", "desc", "rdesc", "nodes", "kids", "rkids", "anc", "/", "^", "//", ">", "<", "<<",
                            "instances", "filter", "extract", "extract", "fromhere", "fhextract", "in", "and", "in", "and", "bool", "full", "bounds"])
            entered = env.r.depth() != len(env.r.trail()) - 1 and env.r.depth() > 0
            if entered and o not in ("in", "and", "bool", "full", "bounds"):
                continue
            b = 0
            if o in ("in", "and"):
                b = rng.randrange(1, n + 1)
            elif o in ("fwd", "bwd") and rng.random() < .5:
                # an ancestor of the current node, inside the range
                cur = env.I([env.r.node])[0]
                an = []
                while cur != top and cur in par:
                    cur = par[cur]
                    an.append(cur)
                b = rng.choice(an) if an else 0
            P = sorted(rng.sample(range(1, n + 1), rng.randrange(n // 2 + 1)))
            q = dict(o=o, b=b, p=P, t=rng.choice([[0], [1], [0, 1], [9]]), inst=0)
            if o in ("/", "^", "//", ">", "<", "<<") and rng.random() < .3:
                q["inst"] = rng.randrange(1, n + 1)
            r, err = core.guarded(env.ask, q, seconds=5)
            res.append(dict(ev="ask", q=q, ret=r or [], err=err or ""))
    return res


def histories(args):
    return [h for h in map(history, args) if h]


def run(rep):
    n, np = (6, 5) if rep.thorough else (5, 4)
    r = core.run_tlc("RangeNavMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nNP = %d\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS CursorVisited WalksMeet NodesAreContained Emit\n" % (n, np), workers=8, heap="8g")
    rep.add_tlc("RangeNavMC N=%d" % n, r)
    nq = sum(len(t["qs"]) + len(t["ws"]) + len(t["ms"]) for t in r.lines)
    rep.traces += nq
    rep.extra["observations_replayed"] = nq
    rep.log("model: %d states, %d observations" % (len(r.lines), nq))
    t = r.lines[len(r.lines) // 2]
    rep.sample(dict(t, qs=t["qs"][:2], ws=t["ws"][:2], ms=t["ms"][:2]))
    for clause, case in core.pmap_chunks(replay, r.lines):
        rep.violation("replay:" + clause, clause, case)
    rep.exhaustive = True
    nh, ln = (2500, 60) if rep.thorough else (500, 40)
    args = [(rep.rng.randrange(1 << 30), rep.rng.randrange(2, 16), ln) for _ in range(nh)]
    hs = core.pmap_chunks(histories, args)
    verdicts, st = core.judge("RangeNavTrace", None, groups=hs)
    rep.add_judge("RangeNavTrace", st, traces=len(hs))
    rep.sample(hs[0][:3])
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("walks from a level that was entered but not yet iterated are not specified (the documentation speaks of the current node only)")
