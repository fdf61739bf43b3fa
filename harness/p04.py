"""P04: editing through a range (spec: RangeEdit)."""
import random

from . import core
from .p01 import A, sl, make
from .p02 import randtree
from quickly.node import Range


class Env:
    def __init__(self, kids, s, e, top=1):
        self.kids = kids
        self.nodes = []
        self.top = top
        self.add(kids)
        a = self.nodes[top - 1]
        N = lambda i: self.trail(self.nodes[i - 1]) if i else None
        self.r = Range(a, N(s), N(e))

    def add(self, kids):
        """Create nodes for the ids that have none yet."""
        old = len(self.nodes)
        self.nodes += [make(0, 0) for _ in kids[old:]]
        for i in range(old, len(kids)):
            self.nodes[i].extend([self.nodes[k - 1] for k in kids[i]])

    def trail(self, n):
        t = []
        while n is not self.nodes[self.top - 1]:
            t.insert(0, next(i for i, m in enumerate(n.parent) if m is n))
            n = n.parent
        return t

    def ids(self):
        return {id(n): i + 1 for i, n in enumerate(self.nodes)}

    def edit(self, op):
        r = self.r
        x = [self.nodes[m - 1] for m in op["x"]]
        o = op["o"]
        if o == "set":
            r[op["i"]] = x[0]
        elif o == "del":
            del r[op["i"]]
        elif o == "node":
            r.node = x[0]
        elif not x and op.get("d"):
            del r[sl(op["i"], op["j"], 1)]
        else:
            r[sl(op["i"], op["j"], 1)] = iter(x)

    def below(self):
        ids = self.ids()
        res = []

        def f(n):
            for c in n:
                res.append(ids.get(id(c), -1))
                f(c)
        f(self.nodes[self.top - 1])
        return res

    def tree(self):
        ids = self.ids()
        return [[ids.get(id(c), -1) for c in n] for n in self.nodes]

    def members(self):
        return sorted(m for m in self.below() if m > 0 and self.nodes[m - 1] in self.r)

    def fresh(self):
        """What a fresh copy of the range visits from start to end."""
        if not self.r:
            return []
        ids = self.ids()
        res = []
        for n in self.r.copy().nodes():
            res.append(ids.get(id(n), -1))
            if len(res) > 500:
                break
        return sorted(res)

    def rest(self):
        ids = self.ids()
        res = []
        for n in self.r:
            res.append(ids.get(id(n), -1))
            if len(res) > 100:
                break
        return res


def replay(cases):
    bad = []
    for t in cases:
        def one():
            env = Env(t["kids"][:t["n"]], t["s"], t["e"])
            env.add(t["kids"])
            r = env.r
            L = env.nodes[t["L"] - 1]
            if t["pos"]:
                r.goto(L[t["pos"] - 1])
            elif t["L"] != 1:
                r.goto(L)
                r.enter()
            return env
        env, err = core.guarded(one)
        base = {k: t[k] for k in ("kids", "s", "e", "L", "pos", "op", "n")}
        if err:
            bad.append(("failure:goto", dict(base, err=err)))
            continue
        before = env.tree()
        _, err = core.guarded(env.edit, t["op"])
        if t["fail"]:
            if not err:
                bad.append(("missing-failure", base))
            elif env.tree() != before:
                bad.append(("children-list", base))
            continue
        if err:
            bad.append(("failure:" + t["op"]["o"], dict(base, err=err)))
            continue
        tree = env.tree()
        want = [ks[:] for ks in before]
        want[t["L"] - 1] = t["list"]
        if tree != want:
            bad.append(("children-list", dict(base, want=want, real=tree)))
            continue
        free = set(t["free"])
        mem, err = core.guarded(env.members)
        if err:
            bad.append(("failure:membership", dict(base, err=err)))
            continue
        if set(mem) - free != set(t["inn"]) - free:
            bad.append(("membership", dict(base, want=t["inn"], real=mem)))
        fr, err = core.guarded(env.fresh)
        if err or fr != mem:
            bad.append(("boundary-trails", dict(base, real=fr, want=mem, err=err)))
        rest, err = core.guarded(env.rest)
        if err or [m for m in rest if m not in free] != [m for m in t["rest"] if m not in free]:
            bad.append(("iteration", dict(base, want=t["rest"], real=rest, err=err)))
    return bad


def history(args):
    seed, n, length = args
    rng = random.Random(seed)
    kids = randtree(rng, n)
    below = lambda m: [x for k in kids[m - 1] for x in [k] + below(k)]
    order = below(1)
    i, j = sorted((rng.randrange(len(order)), rng.randrange(len(order))))
    s = order[i] if rng.random() < .6 else 0
    e = order[j] if rng.random() < .6 else 0
    res = [dict(ev="range", kids=kids, s=s, e=e, top=1)]
    env = Env(kids, s, e)
    r = env.r
    justnext = False
    for _ in range(length):
        k = rng.random()
        ids = env.ids()
        if k < .45:
            n_, err = core.guarded(next, r, None)
            res.append(dict(ev="next", ret=0 if n_ is None else ids.get(id(n_), -1), err=err or ""))
            justnext = n_ is not None
            if err:
                break
            if n_ is None:
                # level exhausted: leave it
                res.append(dict(ev="leave"))
                r.leave()
                justnext = r.depth() > 0
        elif k < .6:
            if justnext and len(r.node) + rng.randrange(2):
                res.append(dict(ev="enter"))
                r.enter()
                justnext = False
        elif k < .65:
            res.append(dict(ev="leave"))
            r.leave()
            justnext = False
        else:
            # the node whose children are edited
            ln = len(r[:])
            cnt = rng.choice([0, 0, 1, 1, 2])
            if env.r.depth() == 0 and not ln:
                cnt = 1
            nk = env.tree()
            x = []
            for _ in range(cnt):
                nk.append([])
                top = len(nk)
                x.append(top)
                for _ in range(rng.choice([0, 0, 1, 2])):
                    nk.append([])
                    nk[top - 1].append(len(nk))
            o = rng.choice(["set", "slice", "slice", "slice", "del", "del", "node"])
            if r.depth() and not justnext and rng.random() < .3:
                o = "node"
            if o == "node" and not (cnt and (r.depth() or r.trail())):
                continue
            if o == "set" and (not cnt or not ln):
                continue
            if o == "del" and not ln:
                continue
            if o in ("set", "node"):
                x = x[:1]
            elif o == "del":
                x = []
                nk = env.tree()
            i = rng.randrange(-ln, ln) if ln else 0
            if rng.random() < .5 and o != "slice" and justnext and r.index >= 0:
                i = r.index
            if o == "slice":
                i = rng.choice([core_noidx(), *range(-2, ln + 2)])
            j = rng.choice([core_noidx(), *range(-2, ln + 2)])
            if o == "slice" and rng.random() < .5 and i != core_noidx():
                j = i + rng.choice([0, 0, 1]) if i >= 0 else i
            op = dict(o=o, i=i, j=j, x=x, d=rng.randrange(2))
            env.add(nk)
            _, err = core.guarded(env.edit, op)
            line = dict(ev="edit", op=op, err=err or "", nk=nk, kids=env.tree())
            mem, err2 = core.guarded(env.members)
            fr, err3 = core.guarded(env.fresh)
            b, err4 = core.guarded(bool, r)
            if err2 or err3 or err4:
                line["err"] = line["err"] or err2 or err3 or err4
            line["inn"] = mem or []
            line["fresh"] = fr or [] if not err3 else [-1]
            line["bool"] = int(bool(b))
            res.append(line)
            if o == "node":
                pass
            else:
                justnext = False
            if line["err"] or not mem:
                break
            # a level that has no contained node left is left
            ids = env.ids()
            stop = False
            while True:
                lvl = r.depth()
                node = level_node(r)
                i_ = ids.get(id(node))
                vis = node is env.nodes[0] or i_ in mem or any(q in mem for q in below_of(env, node, ids))
                if vis or lvl == 0:
                    break
                res.append(dict(ev="leave"))
                r.leave()
                justnext = False
    return res


def core_noidx():
    return 999


def level_node(r):
    """The node whose children are iterated: the parent of the children list r[:]"""
    n = r.node
    if len(r.trail()) == r.depth():
        return n        # entered, not iterated; or the ancestor
    return n.parent


def below_of(env, node, ids):
    res = []

    def f(n):
        for c in n:
            res.append(ids.get(id(c), -1))
            f(c)
    f(node)
    return res


def histories(args):
    return [history(a) for a in args]


def run(rep):
    n = 5 if rep.thorough else 4
    r = core.run_tlc("RangeEditMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS StaysInterval RestIsNew NoneSkipped Emit\n" % n, workers=8, heap="8g")
    rep.add_tlc("RangeEditMC N=%d" % n, r)
    rep.traces += len(r.lines)
    rep.log("model: %d states, %d edits" % (r.distinct, len(r.lines)))
    rep.sample(r.lines[len(r.lines) // 2])
    for clause, case in core.pmap_chunks(replay, r.lines):
        rep.violation("replay:" + clause, clause, case)
    rep.exhaustive = True
    nh, ln = (4000, 40) if rep.thorough else (800, 25)
    args = [(rep.rng.randrange(1 << 30), rep.rng.randrange(2, 10), ln) for _ in range(nh)]
    hs = core.pmap_chunks(histories, args)
    verdicts, st = core.judge("RangeEditTrace", None, groups=hs)
    rep.add_judge("RangeEditTrace", st, traces=len(hs))
    rep.sample(hs[0][:4])
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("edits are made at levels that still have nodes in the range; which side of a removed boundary freshly inserted nodes fall on is not specified")
