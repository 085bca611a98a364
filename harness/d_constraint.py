"""Drives real ConstraintGraph objects: random histories (for ConstraintTrace) and walks over the ConstraintMC state graph."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from solver.geometric.constraint import *

THREE = (NotClockwiseConstraint, NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint, PlusConstraint)


class Custom(Constraint):
    """A user's constraint: its own variables(), equality by value."""
    def __init__(self, cid, vs, byvalue):
        self.cid, self.vs, self.byvalue = cid, list(vs), byvalue

    def variables(self):
        return list(self.vs) if self.cid % 2 else self.vs

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return "Custom"

    def __hash__(self):
        return 11 if self.byvalue else id(self) >> 4

    def __eq__(self, o):
        return self is o or (self.byvalue and isinstance(o, Custom) and o.cid == self.cid)


class Rig:
    def __init__(self, objs, cons, rnd, other=None):
        """with another rig: a second graph of the very same constraints"""
        self.objs, self.cons, self.rnd = objs, cons, rnd
        self.N = Names(objs, rnd)
        self.g = ConstraintGraph()
        self.kind = other.kind if other else [rnd.choice(["std", "std", "custom", "value"]) for _ in cons]
        self.obj = other.obj if other else {c: self.build(c) for c in range(1, len(cons) + 1)}
        self.ids = {id(o): c for c, o in self.obj.items()}
        self.raw = []

    def build(self, c):
        vs = [self.N.o(v) for v in self.cons[c - 1]]
        k = self.kind[c - 1]
        if k == "std":
            if len(vs) == 3 and c % 2:
                return THREE[self.rnd.randrange(len(THREE))](*vs)
            return FunctionConstraint(lambda *a: True, vs)
        return Custom(c, vs, k == "value")

    def con(self, c):
        if self.kind[c - 1] == "value" and self.rnd.random() < .5:
            return self.build(c)      # an equal constraint, not the same object
        return self.obj[c]

    def cid(self, o):
        if isinstance(o, Custom):
            return o.cid
        return self.ids.get(id(o), 999)

    def ask(self, name, f, *a):
        r = f(*a)
        self.raw.append((name, r, list(r)))
        return [self.cid(x) for x in r]

    def obs(self, sels):
        g, N = self.g, self.N
        on = [[v, self.ask("on", g.get_constraints_on, N.o(v))] for v in range(1, len(self.objs) + 1)]
        q = []
        for kind, sel in sels:
            s = [N.o(v) for v in sel]
            arg = tuple(s) if self.rnd.random() < .3 else list(s)
            f = g.get_constraints_on_any if kind == "any" else g.get_constraints_on_all
            q.append([kind, list(sel), self.ask(kind, f, arg)])
            if list(map(id, arg)) != list(map(id, s)):
                self.raw.append(("argument", [0], [1]))
        vs, cs = g.variables(), g.constraints()
        return {"vars": [N.i(v) for v in vs], "cons": [self.cid(c) for c in cs], "on": on, "q": q}

    def sparse(self, sels):
        """a few single queries"""
        g, N = self.g, self.N
        o = {"vars": [], "cons": [], "on": [], "q": []}
        for kind, sel in sels:
            if kind == "on":
                o["on"].append([sel[0], self.ask("on", g.get_constraints_on, N.o(sel[0]))])
            else:
                o["q"].append([kind, list(sel), self.ask(kind, g.get_constraints_on_any if kind == "any" else g.get_constraints_on_all, [N.o(v) for v in sel])])
        return o

    def apply(self, op, sels, seen=True):
        n, x = op
        if n in ("add_variable", "rem_variable"):
            e, hang, _ = call(getattr(self.g, n), self.N.o(x))
        elif n in ("add_constraint", "rem_constraint"):
            e, hang, _ = call(getattr(self.g, n), self.con(x))
        else:
            e, hang = "", False
        stale = sorted({name for name, r, was in self.raw if list(r) != was})
        for name, r, was in self.raw:
            if self.rnd.random() < .4:
                scribble(self.rnd, r)
        self.raw = []
        e2, _, o = call(self.obs if seen else self.sparse, sels)
        if e2:
            o = {"vars": [998], "cons": [998], "on": [], "q": []}
        o.update(op=op, err=e or e2, hang=hang, stale=stale, seen=bool(seen))
        return o


def setting(rnd):
    nv = rnd.choice([2, 3, 4, 5, 6])
    objs = list(rnd.choice(name_palettes()))
    rnd.shuffle(objs)
    cons = [[rnd.randint(1, nv) for _ in range(rnd.choice([1, 2, 2, 3, 3, 3, 4, 0]))] for _ in range(rnd.randint(2, 7))]
    return nv, objs, cons, Rig(objs[:nv], cons, rnd)


def history(rnd, focus, length):
    return run_all(rnd, [play(rnd, focus, length, *setting(rnd))])[0]


def company(rnd, focus, length):
    """Two or three graphs of the same variables and constraints, used in turns: each has a history of its own."""
    nv, objs, cons, rig = setting(rnd)
    return run_all(rnd, [play(rnd, focus, length, nv, objs, cons, r) for r in [rig] + [Rig(objs[:nv], cons, rnd, rig) for _ in range(rnd.choice([1, 1, 2]))]])


def play(rnd, focus, length, nv, objs, cons, rig):
    W = {"C01": (2, 1, 6, 1.5, .3), "C02": (2, 2.5, 6, 3, .1), "R01": (2, 2.5, 6, 3, .1)}[focus]
    evs = []
    mv, mc = set(), set()        # what ought to be there, to aim removals without asking the code
    dense = rnd.choice([1, 1, 0, .2, .5])
    for step in range(length):
        n = rnd.choices(["add_variable", "rem_variable", "add_constraint", "rem_constraint", "query"], W)[0]
        x = rnd.randint(1, nv) if "variable" in n else rnd.randint(1, len(cons))
        if n.startswith("rem") and evs and rnd.random() < .7:
            pool = sorted(mv if "variable" in n else mc)
            x = rnd.choice(pool) if pool else x
        sels = [(rnd.choice(["any", "all"]), [rnd.randint(1, nv) for _ in range(rnd.choice([0, 1, 2, 2, 3]))]) for _ in range(4)]
        if cons:
            c = rnd.choice(cons)
            sels.append(("all", rnd.sample(c, rnd.randint(0, len(c)))))
        seen = step == length - 1 or rnd.random() < dense
        if not seen:
            sels = [("on", [rnd.randint(1, nv)])] + sels
            sels = rnd.sample(sels, rnd.choice([0, 0, 1, 2]))
        evs.append(rig.apply([n, x], sels, seen))
        yield
        if evs[-1]["hang"]:
            break
        if n == "add_variable":
            mv.add(x)
        elif n == "add_constraint":
            mc.add(x)
            mv |= set(cons[x - 1])
        elif n == "rem_constraint":
            mc.discard(x)
        elif n == "rem_variable" and x in mv:
            mv.discard(x)
            mc = {c for c in mc if x not in cons[c - 1]}
    return {"cons": cons, "events": evs, "names": [repr(o) for o in objs[:nv]]}


def histories(rnd, focus, length, i):
    return company(rnd, focus, length) if i % 4 == 1 else [history(rnd, focus, length)]


def key(s):
    return (tuple(sorted(s["vars"])), tuple(sorted(s["cons"])))


def walk(cfg):
    states, trans = {}, collections.defaultdict(list)
    for line in open(cfg["file"]):
        d = json.loads(line)
        if "on" in d:
            states[key(d["s"])] = {"on": {v: sorted(c) for v, c in d["on"]}, "any": {tuple(sorted(s)): sorted(c) for s, c in d["any"]},
                                   "all": {tuple(sorted(s)): sorted(c) for s, c in d["all"]}}
        else:
            trans[key(d["f"])].append((d["a"], key(d["t"])))
    rnd = random.Random(cfg["seed"])
    todo = {s: list(range(len(ts))) for s, ts in trans.items()}
    for s in todo:
        rnd.shuffle(todo[s])
    pals = name_palettes()
    W = Walker(trans, todo, ((), ()), rnd)
    walks = steps = 0
    mism = []
    for w in W.walks():
        walks += 1
        objs = list(pals[walks % len(pals)])
        rnd.shuffle(objs)
        rig = Rig(objs[:cfg["nv"]], cfg["cons"], rnd)
        hist = []
        for a, s, t in w:
            st = states[t]
            full = rnd.random() < .15
            sels = [(k, rnd.sample(S, len(S)) + ([rnd.choice(S)] if S and rnd.random() < .2 else [])) for k in ("any", "all") for S in st[k] if full or rnd.random() < .15]
            o = rig.apply(a, sels)
            steps += 1
            hist.append(a)
            bad = [] if not o["err"] else ["outcome"]
            if sorted(o["vars"]) != list(t[0]):
                bad.append("variables")
            if sorted(o["cons"]) != list(t[1]):
                bad.append("constraints")
            if any(sorted(c) != st["on"][v] for v, c in o["on"]):
                bad.append("on")
            bad += [k for k, S, c in o["q"] if sorted(c) != st[k][tuple(sorted(set(S)))]]
            bad += ["stale_" + x for x in o["stale"]]
            if bad:
                mism.append({"clauses": sorted(set(bad)), "hist": hist, "names": [repr(x) for x in objs[:cfg["nv"]]], "last": o})
                break
        if len(mism) >= 20:
            break
    return {"walks": walks, "steps": steps, "states": len(states), "unvisited": W.left, "mismatches": mism}


def large(cfg):
    """Constraint graphs of many points (ConstraintBlocks)."""
    sys.setrecursionlimit(1000)
    n, mism, steps = cfg["nv"], [], 0
    span = lambda I: {i for a, b in I for i in range(a, b + 1)}
    for hno, hist in enumerate(cfg["hists"]):
        rnd = random.Random("%s/%d" % (cfg["seed"], hno))
        objs = [list(range(n + 1)), ["v%d" % i for i in range(n + 1)], [(i // 40, i % 40) for i in range(n + 1)], [-i for i in range(n + 1)], [Key(i) for i in range(n + 1)]][rnd.randrange(5)]
        base = objs.pop(rnd.randrange(3))
        idx = {x: i + 1 for i, x in enumerate(objs)}
        idx[base] = n + 1
        o = lambda i: base if i == n + 1 else objs[i - 1]
        g = ConstraintGraph()
        con = {}

        def c(k):
            if k not in con:
                if isinstance(k, int):
                    vs = [o(k), o(k + 1), base]
                    rnd.shuffle(vs)
                    con[k] = rnd.choice(THREE)(*vs) if rnd.random() < .5 else Custom(k, vs, False)
                else:
                    vs = [o(i) for i in range(k[0], k[1] + 1)]
                    rnd.shuffle(vs)
                    con[k] = FunctionConstraint(lambda *a: True, vs)
                back[id(con[k])] = k
            return con[k]
        back = {}
        order = lambda lo, hi: rnd.choice([lambda L: L, lambda L: L[::-1], lambda L: rnd.sample(L, len(L))])(list(range(lo, hi + 1)))
        calls = []
        for st in hist:
            op = st["a"]
            calls.append(op)
            steps += 1
            bad = []

            def go():
                k = op[0]
                if k == "add_variables":
                    for i in order(*op[1:]):
                        g.add_variable(o(i))
                elif k == "rem_variables":
                    for i in order(*op[1:]):
                        g.rem_variable(o(i))
                elif k in ("links", "unlink"):
                    for i in order(op[1], op[2] - 1):
                        (g.add_constraint if k == "links" else g.rem_constraint)(c(i))
                elif k in ("wide", "unwide"):
                    (g.add_constraint if k == "wide" else g.rem_constraint)(c(tuple(op[1:])))
                elif k == "rem_variable":
                    g.rem_variable(o(op[1]))
                elif k == "rem_base":
                    g.rem_variable(base)
            e, hang, _ = call(go, seconds=60)
            if e:
                bad.append("outcome")

            def look():
                vs, cs = list(g.variables()), list(g.constraints())
                S = span(st["vs"]) | ({n + 1} if st["base"] else set())
                if len(vs) != len(S) or {idx.get(v) for v in vs} != S:
                    bad.append("variables")
                W = lambda x: span(x["l"]) | {tuple(w) for w in x["w"]}
                K = span(st["ln"]) | {tuple(w) for w in st["wd"]}
                if len(cs) != len(K) or {back.get(id(x)) for x in cs} != K:
                    bad.append("constraints")
                for kind, q, ans in st["q"]:
                    A = W(ans)
                    pts = [o(i) for i in (range(q[0], q[1] + 1) if kind in ("any", "span") else q)]
                    if kind in ("any", "span"):
                        rnd.shuffle(pts)
                    r = g.get_constraints_on(pts[0]) if kind == "on" else (g.get_constraints_on_any if kind == "any" else g.get_constraints_on_all)(pts)
                    if len(r) != len(A) or {back.get(id(x)) for x in r} != A:
                        bad.append({"span": "all"}.get(kind, kind))
            e, hang, _ = call(look, seconds=60)
            if e:
                bad.append("outcome")
            if bad:
                mism.append({"clauses": sorted(set(bad)), "hist": calls, "nv": n, "err": e, "names": repr(objs[0])})
                break
        if len(mism) >= 10:
            break
    return {"walks": len(cfg["hists"]), "steps": steps, "mismatches": mism}


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("off")
    emit(cfg["out"], large(cfg) if cfg["mode"] == "large" else walk(cfg) if cfg["mode"] == "walk" else
         [h for i in range(cfg["n"]) for h in histories(random.Random("%s/%s/%d" % (cfg["seed"], cfg["focus"], i)), cfg["focus"], cfg["length"], i)])
