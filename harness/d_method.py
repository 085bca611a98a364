"""Drives real MethodGraph objects: random histories (recorded for MethodTrace), direct executions of methods, and walks
over the MethodMC state graph."""
import sys, os, json, random, collections, datetime, operator
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from fractions import Fraction
from decimal import Decimal
from collections import Counter
import numpy as np
import solver.method as SM
from solver.method import *
from solver.geometry import Vector

BUILTIN = ("add", "sub", "assign", "set")
MULTI = ("sp", "wsum", "fork", "some")
MOD = 101


class Boom(Exception):
    pass


class BoomKey(Boom, KeyError):
    pass


class BoomValue(Boom, ValueError, IndexError):
    pass


class BoomStop(Boom, StopIteration):
    pass


class BoomOS(Boom, ArithmeticError, AttributeError, TypeError):
    pass


class BoomExit(KeyboardInterrupt):
    """(not an Exception)"""


class Left(Exception):
    """stands for what was raised that is not an Exception"""


BOOMS = [Boom, BoomKey, BoomValue, BoomStop, BoomOS, BoomExit]


# ---------------------------------------------------------------- values
class Cell:
    """A value that its owner changes in place; no two are equal, and one holding 0 is falsy."""
    def __init__(self, k):
        self.k = k

    def __len__(self):
        return self.k


class Qty:
    """Can be added and subtracted, and nothing else."""
    def __init__(self, k):
        self.k = k

    def __add__(self, o):
        return Qty(self.k + o.k) if isinstance(o, Qty) else NotImplemented

    def __sub__(self, o):
        return Qty(self.k - o.k) if isinstance(o, Qty) else NotImplemented


class Alternatives(MultiVariable):
    pass


class Vals:
    """Concrete values standing for the numbers of the model."""
    modes = {
        "int": (lambda k: k, lambda x: x if type(x) is int else 999001),
        "float": (lambda k: float(k), lambda x: int(x) if isinstance(x, float) and x == int(x) else 999002),
        "frac": (lambda k: Fraction(k, 7), lambda x: int(x * 7) if isinstance(x, Fraction) and (x * 7).denominator == 1 else 999003),
        "complex": (lambda k: complex(k, -k), lambda x: int(x.real) if isinstance(x, complex) and x.imag == -x.real else 999004),
        "vector": (lambda k: Vector(k, 2 * k), lambda x: Vals.arr(x, 2, 999005) if isinstance(x, Vector) else 999005),
        "array": (lambda k: np.array([[k, 3 * k], [0, -k]]), lambda x: (int(x[0, 0]) if isinstance(x, np.ndarray) and x.shape == (2, 2) and x[0, 1] == 3 * x[0, 0] and x[1, 1] == -x[0, 0] else 999006)),
        "qty": (lambda k: Qty(k), lambda x: x.k if isinstance(x, Qty) else 999008),
        "big": (lambda k: k * 10 ** 30, lambda x: x // 10 ** 30 if type(x) is int and x % 10 ** 30 == 0 else 999007),
    }

    @staticmethod
    def arr(x, f, bad):
        a = list(x)
        return int(a[0]) if len(a) == 2 and a[1] == f * a[0] and a[0] == int(a[0]) else bad

    def __init__(self, mode):
        self.cells = mode == "cell"
        self.enc_, self.dec_ = self.modes[mode] if not self.cells else (Cell, lambda x: x.k if isinstance(x, Cell) else 999009)

    def un(self, x):
        """the number within, for methods"""
        return x.k if self.cells else x

    def wrap(self, k):
        return Cell(k) if self.cells else k

    def enc(self, x, form=0):
        if x[0] == "n":
            return None
        if x[0] == "i":
            return self.enc_(x[1])
        ks = [self.enc_(k) for k in x[1]]
        return [set, frozenset, list, tuple][form % 4](ks)

    def dec(self, x):
        if x is None:
            return ["n"]
        if isinstance(x, (set, frozenset, list, tuple)) and not isinstance(x, Vector):
            try:
                return ["s", sorted({self.dec_(k) for k in x})]
            except Exception:
                return ["s", [999010]]
        try:
            return ["i", self.dec_(x)]
        except Exception:
            return ["i", 999011]


# ---------------------------------------------------------------- methods
def weighted(ins, f, j):
    return sum((k + j) * f(x) for k, x in enumerate(ins, 1))


def make(rig, mid, style):
    """A fresh real method object for definition mid (1-based)."""
    d = rig.defs[mid - 1]
    kind, c = d["kind"], d["c"]
    N = rig.N
    ins, outs = [N.o(i) for i in d["ins"]], [N.o(i) for i in d["outs"]]
    V = rig.V
    given = list(ins), list(outs)

    def enter(self):
        rig.ran.append(mid)
        b = rig.cur.fail.get(mid)
        if b:
            b = rig.err = b("planned failure of %d" % mid)
            raise b
    if kind in BUILTIN + ("sp",):
        base = {"add": AddMethod, "sub": SubMethod, "assign": AssignMethod, "set": SetMethod, "sp": SumProdMethod}[kind]

        class M(base):
            def execute(self, inmap):
                enter(self)
                return base.execute(self, inmap)
        args = {"add": ins + outs, "sub": ins + outs, "sp": ins + outs, "assign": outs + ins, "set": outs + [V.enc(["i", c])]}[kind]
        m = M(*args)
    elif kind in MULTI:
        class M(MultiMethod):
            def execute(self, inmap):
                enter(self)
                return MultiMethod.execute(self, inmap)

            def multi_execute(self, inmap):
                f = lambda x: inmap[x]
                if kind == "wsum":
                    r = [(weighted(ins, f, 1) + c) % MOD]
                elif kind == "fork":
                    r = [(weighted(ins, f, 1) + c) % MOD, (weighted(ins, f, 3) + c) % MOD]
                else:
                    r = [(weighted(ins, f, 2) + c) % MOD] if (inmap[ins[0]] + c) % 2 == 0 else []
                if style % 2:
                    r = r + r[:1]        # repeated alternatives
                return r
        m = M(rig.mname(mid) if rig.mname else kind, given[0], given[1])
    else:
        class M(Method):
            def execute(self, inmap):
                enter(self)
                f = lambda x: V.un(inmap[x])
                out = {}
                for j, v in enumerate(outs, 1):
                    if kind == "lin":
                        out[v] = V.wrap((weighted(ins, f, j) + c) % MOD)
                    elif kind == "mod":
                        out[v] = V.wrap((weighted(ins, f, j) + c) % 2)
                    elif (f(ins[0]) + j + c) % 2 == 0:
                        out[v] = V.wrap((weighted(ins, f, j) + c) % MOD)
                    elif kind == "nul":
                        out[v] = None
                if rig.manner == 3 and V.cells:      # always the same objects, with other contents
                    for v, x in out.items():
                        if x is not None:
                            k = rig.own.setdefault((mid, v), x)
                            k.k, out[v] = x.k, k
                if rig.manner == 1:      # uses the map it was given as scratch paper
                    for k in list(inmap):
                        inmap[k] = V.wrap(88)
                elif rig.manner == 2:    # hands over more than its outputs
                    out = dict({k: V.wrap(87) for k in ins if k not in outs}) | out
                return out
        m = M(rig.mname(mid) if rig.mname else kind, given[0], given[1])
    for x in given:
        if style % 3:       # the lists are used for something else
            x[:] = ["else"] * (style % 2)
    if rig.byvalue:
        M.__hash__ = lambda self: hash(("mid", mid % 2))
        M.__eq__ = lambda self, o: getattr(o, "_mid", None) == mid and getattr(o, "_rig", None) is rig
    m._mid, m._rig = mid, rig
    return m


class Rig:
    mname = None
    manner = 0

    def __init__(self, names, defs, vals, byvalue, other=None):
        """with another rig: a second graph of the very same methods"""
        self.N, self.defs, self.V, self.byvalue = names, defs, vals, byvalue
        self.fail, self.ran, self.err, self.held, self.own = {}, [], None, {}, {}
        self.maker = other or self
        self.cur = self
        self.g = MethodGraph()
        self.objs = other.objs if other else {m: make(self, m, m) for m in range(1, len(defs) + 1)}

    def met(self, mid):
        return make(self.maker, mid, mid) if self.byvalue else self.objs[mid]

    def obs(self, seen=2):
        g, N = self.g, self.N
        if seen == 0:
            return [], [], []
        if seen == 1:
            # values only, asked by name
            vals = []
            for i in range(1, len(N.objs) + 1):
                try:
                    vals.append([i, self.V.dec(g.get(N.o(i)))])
                except KeyError:
                    pass
            return [], [], vals
        vs = list(g.variables())
        ids = [N.i(v) for v in vs]
        return ids, [getattr(m, "_mid", 999) for m in g.methods()], [[i, self.V.dec(g.get(v))] for i, v in zip(ids, vs)]

    def apply(self, ev, seen=2):
        op, prop, g, N, V = ev["op"], ev.get("prop", False), self.g, self.N, self.V
        n = op[0]
        self.maker.ran, self.maker.err, self.maker.cur = [], None, self
        res, same = [], True
        r = None
        if n == "add_variable":
            a = [N.o(op[1])] + ([V.enc(op[2], len(op[2]))] if op[2][0] != "n" or ev.get("expl") else [])
            e, hang, _ = call(self.c(g.add_variable), *a)
        elif n == "set":
            kw = {} if prop and not ev.get("expl") else {"prop": prop}
            x = V.enc(op[2], ev.get("form", 0))
            if V.cells and x is not None:
                h = self.held.get(op[1])
                if h is not None and ev.get("form", 0) % 2 == 0:
                    h.k, x = x.k, h      # the very object set before, changed in place
                self.held[op[1]] = x
            e, hang, _ = call(self.c(g.set), N.o(op[1]), x, **kw)
        elif n == "add_method":
            kw = {} if prop and not ev.get("expl") else {"prop": prop}
            e, hang, _ = call(self.c(g.add_method), self.met(op[1]), **kw)
        elif n in ("rem_method", "execute"):
            e, hang, _ = call(self.c(getattr(g, n)), self.met(op[1]))
        elif n in ("rem_variable", "get"):
            e, hang, r = call(self.c(getattr(g, n)), N.o(op[1]))
        elif n in ("clear", "propagate"):
            e, hang, _ = call(self.c(getattr(g, n)))
        elif n == "fail_on":
            self.fail[op[1]] = BOOMS[op[2] % len(BOOMS)]
            e, hang = "", False
        elif n == "fail_off":
            self.fail.pop(op[1], None)
            e, hang = "", False
        elif n == "direct":
            m = make(self, op[1], op[1])
            d = {N.o(v): V.enc(x, k) for k, (v, x) in enumerate(op[2])}
            was, ids = list(d.items()), {k: id(x) for k, x in d.items()}
            frozen = [V.dec(x) for x in d.values()]
            e, hang, r = call(m.execute, d)
            same = list(d) == [k for k, _ in was] and all(id(d[k]) == ids[k] for k in d) and [V.dec(x) for x in d.values()] == frozen
            if not e:
                try:
                    res = [[N.i(k), V.dec(x)] for k, x in r.items()]
                except Exception:
                    res = [[999, ["n"]]]
        elif n == "new_multi":
            outs = [MultiVariable("o%d" % k) if f else "o%d" % k for k, f in enumerate(op[1])]

            class M(MultiMethod):
                def multi_execute(self, inmap):
                    return []
            e, hang, r = call(M, "m", ["x"], outs)
            if e == "" and not isinstance(r, MultiMethod):
                e = "other"
        else:
            raise AssertionError(n)
        if e:
            x = self.last
            e = ("Hang" if hang else "Boom" if self.maker.err is not None and (x is self.maker.err) else
                 "determine" if isinstance(x, MethodGraphDetermineException) else
                 "cycle" if isinstance(x, MethodGraphCycleException) else "other")
        ran = list(self.maker.ran)
        if n == "get" and not e:
            res = [[op[1], self.V.dec(r)]]
        eo, _, o = call(self.obs, seen)
        vs, ms, vals = o if not eo else ([998], [998], [])
        rec = {"op": op, "prop": bool(prop), "err": e, "hang": hang, "vars": vs, "mets": ms, "vals": vals, "ran": sorted(set(ran)), "res": res, "same": same, "seen": seen}
        return rec

    last = None

    def c(self, f):
        """Remembers the exception object a call raises."""
        def g(*a, **k):
            try:
                return f(*a, **k)
            except Hang:
                raise
            except BaseException as x:
                self.last = x
                if isinstance(x, Exception):
                    raise
                raise Left() from None
        return g


# ---------------------------------------------------------------- random histories
def gen_defs(rnd, focus, nv):
    """-> defs, multi variables, value mode"""
    plain = list(range(1, nv + 1))
    multi = []
    mode = "int"
    defs = []
    D = lambda k, i, o, c=0: defs.append({"kind": k, "ins": i, "outs": o, "c": c})
    pick = lambda k, xs=None: [rnd.choice(xs or plain) for _ in range(k)]
    order = list(plain)
    rnd.shuffle(order)
    c = lambda: rnd.randint(0, 5)
    if focus == "M06" or (focus in ("M01", "M02", "M05") and rnd.random() < .15):
        multi = [nv + k for k in range(1, rnd.randint(2, 4))]
        src = multi[:rnd.randint(1, max(1, len(multi) - 1))]
        dst = [m for m in multi if m not in src] or [multi[-1]]
        for _ in range(rnd.randint(2, 4)):
            k = rnd.choice(MULTI)
            if k == "sp":
                D("sp", [rnd.choice(plain + src), rnd.choice(plain + src)], [rnd.choice(dst)])
            else:
                n = rnd.choice([0, 1, 2, 2, 3]) if k == "wsum" else rnd.choice([1, 2, 2, 3])
                ins = [rnd.choice(plain[:2] + src + (multi if rnd.random() < .3 else [])) for _ in range(n)]
                D(k, ins, [rnd.choice(multi if rnd.random() < .2 else dst)], c())
        for _ in range(rnd.randint(0, 2)):
            D(rnd.choice(["lin", "part"]), pick(rnd.randint(1, 2)), pick(1), c())
        return defs, multi, mode
    if focus == "M07" or (focus != "M05" and rnd.random() < .3):
        mode = rnd.choice(list(Vals.modes))
        for _ in range(rnd.randint(3, 6)):
            k = rnd.choice(BUILTIN)
            i = rnd.randint(0, len(order) - 2)
            up, down = order[:i + 1], order[i + 1:]
            o = [rnd.choice(down)]
            D(k, {"set": [], "assign": pick(1, up)}.get(k, pick(2, up) if k != "assign" else None) if k in ("set", "assign") else pick(2, up), o, rnd.choice([0, 1, 2, 3, -1]))
        return defs, multi, mode
    mode = "cell" if rnd.random() < .2 else "int"
    shape = rnd.choice(["dag", "dag", "chain", "diamond", "fan", "layers", "any", "join"])
    kinds = ["lin", "lin", "lin", "mod", "part", "nul"]
    K = lambda: rnd.choice(kinds)
    if shape == "chain":
        for a, b in zip(order, order[1:]):
            D(K(), [a], [b], c())
    elif shape == "diamond" and nv >= 4:
        a, b, d, e = order[:4]
        D(K(), [a], [b], c()), D(K(), [a], [d], c()), D(K(), [b, d], [e], c())
        if nv > 4:
            D(K(), [d], [order[4]], c())
        if nv > 5:
            D(K(), [order[4], e], [order[5]], c())
    elif shape == "fan":
        for b in order[1:]:
            D(K(), [order[0]] + ([rnd.choice(order[:order.index(b)])] if rnd.random() < .4 else []), [b], c())
    elif shape == "join":
        D(K(), order[:-1][:4], [order[-1]], c())
        if nv > 3:
            D("lin", [order[0]], [order[1]], c())
    elif shape == "layers":
        k = max(1, nv // 3)
        for b in order[k:]:
            i = order.index(b)
            D(K(), rnd.sample(order[:i], min(i, rnd.randint(1, 3))), [b], c())
    elif shape == "dag":
        for i in range(1, nv):
            if rnd.random() < .8:
                outs = [order[i]]
                if i + 1 < nv and rnd.random() < .3:
                    outs.append(order[i + 1])
                k = rnd.choice([0] + [1, 2, 2, 3])
                kind = K() if k else "lin"
                D(kind, pick(k, order[:i]), outs, c())
    while len(defs) < rnd.randint(3, 6) or rnd.random() < .25:
        # anything, so that methods are refused
        k = rnd.randint(1, 3)
        outs = rnd.sample(plain, min(len(plain), rnd.choice([1, 1, 1, 2])))
        ins = pick(k, [x for x in plain if x not in outs or rnd.random() < .2] or plain)
        D(K(), ins, outs, c())
        if len(defs) > 7:
            break
    if rnd.random() < .25:
        # methods that determine nothing (observers), even with no input
        D("lin", pick(rnd.randint(0, 3)), [], c())
    # the order in which ids are given must not follow the dependency order
    rnd.shuffle(defs)
    return defs, multi, mode


WEIGHTS = {
    "M01": dict(add_variable=1, set=8, add_method=4, rem_method=.7, rem_variable=.4, propagate=1, execute=.7, clear=.05, get=.2, fail=0),
    "M02": dict(add_variable=1, set=9, add_method=4, rem_method=.6, rem_variable=.3, propagate=2.5, execute=.2, clear=.03, get=.1, fail=0),
    "M03": dict(add_variable=.6, set=4, add_method=9, rem_method=1.5, rem_variable=.6, propagate=1, execute=.3, clear=.1, get=.2, fail=0),
    "M04": dict(add_variable=1.5, set=5, add_method=6, rem_method=2.5, rem_variable=1.8, propagate=1.5, execute=.6, clear=.3, get=.5, fail=0),
    "M05": dict(add_variable=.5, set=7, add_method=3, rem_method=.7, rem_variable=.3, propagate=2.5, execute=.5, clear=.03, get=.1, fail=3),
    "M06": dict(add_variable=1, set=9, add_method=4, rem_method=.6, rem_variable=.3, propagate=1, execute=.3, clear=.03, get=.1, fail=0),
    "M07": dict(add_variable=1, set=8, add_method=4, rem_method=.7, rem_variable=.3, propagate=.7, execute=.7, clear=.03, get=.1, fail=0),
}
DEFER = {"M01": .2, "M02": .75, "M03": .35, "M04": .4, "M05": .35, "M06": .25, "M07": .15}


def rnd_value(rnd, v, multi, mode):
    if rnd.random() < .08:
        return ["n"]
    if v in multi:
        return ["s", sorted(rnd.sample(range(0, 4), rnd.choice([0, 1, 1, 2, 2, 3])))]
    return ["i", rnd.choice([0, 0, 1, 1, 2, 3, 5] if mode in ("int", "cell") else [0, 1, 2, 3, -1, 7])]


class Shadow:
    """the methods that ought to be there, to aim calls without asking the code"""
    def __init__(self, defs):
        self.defs, self.mets = defs, set()

    def follow(self, op, err):
        n = op[0]
        if n == "add_method" and err in ("", "Boom"):
            self.mets.add(op[1])
        elif n == "rem_method" and not err:
            self.mets.discard(op[1])
        elif n == "rem_variable" and not err:
            self.mets = {m for m in self.mets if op[1] not in self.defs[m - 1]["ins"] + self.defs[m - 1]["outs"]}
        elif n == "clear" and not err:
            self.mets = set()


def setting(rnd, focus, manners=(0, 1, 2, 3, 3)):
    nv = rnd.choice([3, 4, 5, 6]) if focus != "M06" else rnd.choice([2, 3])
    defs, multi, mode = gen_defs(rnd, focus, nv)
    objs = list(rnd.choice(name_palettes()))
    rnd.shuffle(objs)
    mv = [rnd.choice([MultiVariable, Alternatives])("m%d" % k) for k in multi]
    names = Names(objs[:nv] + mv, rnd)
    rig = Rig(names, defs, Vals(mode), rnd.random() < .4)
    rig.manner = rnd.choice([0, 0, 0, 1, 2] if mode != "cell" else manners)
    return nv, defs, multi, mode, names, rig


def history(rnd, focus, length):
    return run_all(rnd, [play(rnd, focus, length, *setting(rnd, focus))])[0]


def company(rnd, focus, length):
    """Two or three graphs of the same variables and methods, used in turns: each has a history of its own."""
    S = setting(rnd, focus, (0, 1, 2))
    return run_all(rnd, [play(rnd, focus, length, *S)] + [play(rnd, focus, length, *S[:-1], Rig(S[4], S[1], S[5].V, S[5].byvalue, S[5])) for _ in range(rnd.choice([1, 1, 2]))])


def play(rnd, focus, length, nv, defs, multi, mode, names, rig):
    dense = rnd.choice([1, 1, 1, 0, .2, .5])
    allv = list(range(1, nv + 1)) + multi
    W = dict(WEIGHTS[focus])
    ops, ws = zip(*W.items())
    evs = []
    failing = set()
    shadow = Shadow(defs)
    override = rnd.random() < .5
    pre = []
    if rnd.random() < .75:
        for m in rnd.sample(range(1, len(defs) + 1), len(defs)):
            pre.append({"op": ["add_method", m], "prop": rnd.random() >= DEFER[focus]})
        sources = [v for v in allv if not any(v in d["outs"] for d in defs)]
        rnd.shuffle(sources)
        for v in sources:
            x = {"op": ["set", v, rnd_value(rnd, v, multi, mode)], "prop": rnd.random() >= DEFER[focus]}
            if rnd.random() < .5:
                pre.insert(0, {"op": ["add_variable", v, rnd_value(rnd, v, multi, mode)]})
            pre.append(x)
    for step in range(length + len(pre)):
        if step < len(pre):
            ev = pre[step]
        else:
            o = rnd.choices(ops, ws)[0]
            v, m = rnd.choice(allv), rnd.randint(1, len(defs))
            if o == "set":
                det = {x for mm in shadow.mets for x in defs[mm - 1]["outs"]}
                if v in det and (not override or rnd.random() < .7):
                    free = [x for x in allv if x not in det]
                    v = rnd.choice(free) if free else v
                if v in det and not override:
                    continue
                ev = {"op": ["set", v, rnd_value(rnd, v, multi, mode)], "prop": rnd.random() >= DEFER[focus], "form": rnd.randint(0, 3)}
            elif o == "add_variable":
                ev = {"op": ["add_variable", v, rnd_value(rnd, v, multi, mode)]}
            elif o == "add_method":
                ev = {"op": ["add_method", m], "prop": rnd.random() >= DEFER[focus]}
            elif o in ("rem_method", "execute"):
                present = sorted(shadow.mets)
                if present and rnd.random() < .8:
                    m = rnd.choice(present)
                ev = {"op": [o, m]}
            elif o in ("rem_variable", "get"):
                ev = {"op": [o, v]}
            elif o == "fail":
                if failing and rnd.random() < .6:
                    m = rnd.choice(sorted(failing))
                    failing.discard(m)
                    ev = {"op": ["fail_off", m]}
                else:
                    present = sorted(shadow.mets)
                    if present and rnd.random() < .7:
                        m = rnd.choice(present)
                    failing.add(m)
                    ev = {"op": ["fail_on", m, rnd.randint(0, 5)]}
            else:
                ev = {"op": [o]}
            ev["expl"] = rnd.random() < .5
        last = step == length + len(pre) - 1
        settles = ev["op"][0] in ("propagate", "execute") or ev.get("prop")
        seen = 2 if last or rnd.random() < dense else 1 if settles else rnd.choice([0, 0, 1])
        evs.append(rig.apply(ev, seen))
        yield
        if evs[-1]["hang"]:
            break
        shadow.follow(ev["op"], evs[-1]["err"])
    else:
        # recovery: no failures, one propagation
        for m in sorted(failing):
            evs.append(rig.apply({"op": ["fail_off", m]}))
        for _ in (1, 2):
            evs.append(rig.apply({"op": ["propagate"]}))
    return {"defs": defs, "events": evs, "names": [repr(x) for x in names.objs], "mode": mode, "byvalue": rig.byvalue}


def directs(rnd, focus):
    """Direct executions of methods, no graph."""
    mode = "int" if focus == "M06" else rnd.choice(list(Vals.modes))
    nv = 4
    multi = [5, 6, 7]
    defs = []
    if focus == "M06":
        for _ in range(8):
            k = rnd.choice(MULTI)
            n = 2 if k == "sp" else rnd.choice([1, 2, 3, 4])
            pool = [1, 2, 3, 5, 6] + ([] if k == "sp" else [])
            if k == "some" or n > 2:
                pool = [1, 2, 5, 6, 6, 5]
            defs.append({"kind": k, "ins": [rnd.choice(pool) for _ in range(n)], "outs": [7], "c": rnd.randint(0, 5)})
    else:
        for k in BUILTIN:
            for _ in range(2):
                n = {"set": 0, "assign": 1}.get(k, 2)
                defs.append({"kind": k, "ins": [rnd.randint(1, 4) for _ in range(n)], "outs": [rnd.randint(1, 4)], "c": rnd.choice([0, 1, 3, -2])})
        if mode == "int":
            defs.append({"kind": "sp", "ins": [rnd.randint(1, 3), rnd.choice([1, 2, 5])], "outs": [7], "c": 0})
    objs = list(rnd.choice(name_palettes()))
    rnd.shuffle(objs)
    names = Names(objs[:nv] + [rnd.choice([MultiVariable, Alternatives])() for k in multi], rnd)
    rig = Rig(names, defs, Vals(mode), False)
    evs = []
    for _ in range(30):
        m = rnd.randint(1, len(defs))
        d = defs[m - 1]
        keys = sorted(set(d["ins"]) | (set(d["outs"]) if rnd.random() < .7 else set()) | set(rnd.sample(range(1, nv + 1), rnd.randint(0, 2))))
        ps = []
        for v in keys:
            if d["kind"] in BUILTIN and v in d["ins"] and rnd.random() < .12:
                continue
            if v in multi:
                x = ["s", sorted(rnd.sample(range(0, 5), rnd.choice([0, 1, 2, 2, 3, 4])))]
            else:
                x = ["i", rnd.choice([0, 0, 1, 2, 3, 4])] if d["kind"] not in BUILTIN or rnd.random() > .12 else ["n"]
            ps.append([v, x])
        rnd.shuffle(ps)
        evs.append(rig.apply({"op": ["direct", m, ps]}))
    for _ in range(3 if focus == "M06" else 0):
        evs.append(rig.apply({"op": ["new_multi", [bool(rnd.random() < .7) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]]}))
    return {"defs": defs, "events": evs, "names": [repr(x) for x in names.objs], "mode": mode, "byvalue": False}


class Word:
    """Its sums and products tell everything, and keep the order of the operands."""
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Word("(%s+%s)" % (self.t, o.t))

    def __sub__(self, o):
        return Word("(%s-%s)" % (self.t, o.t))

    def __mul__(self, o):
        return Word("(%s*%s)" % (self.t, o.t))

    def __eq__(self, o):
        return isinstance(o, Word) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Word(%s)" % self.t


class Page(Word):
    """The same, but not hashable."""
    __hash__ = None

    def __add__(self, o):
        return Page("(%s+%s)" % (self.t, o.t))

    def __mul__(self, o):
        return Page("(%s*%s)" % (self.t, o.t))


class Right:
    """Knows only how to be the second operand."""
    def __init__(self, k):
        self.k = k

    def __radd__(self, o):
        return "radd %r %r" % (o, self.k)

    def __rsub__(self, o):
        return "rsub %r %r" % (o, self.k)


def opaque(rnd):
    """two objects that can be added or subtracted or both, or just carried"""
    day = lambda: datetime.datetime(2020, rnd.randint(1, 12), rnd.randint(1, 28))
    td = lambda: datetime.timedelta(seconds=rnd.randint(-9, 9))
    k = lambda: rnd.randint(-3, 3)
    W = lambda: "".join(rnd.choice("abc") for _ in range(rnd.randint(0, 3)))
    pair = rnd.choice([
        lambda: (W(), W()), lambda: (W().encode(), W().encode()), lambda: (tuple(W()), tuple(W())), lambda: ([3, 1, 2][:rnd.randint(0, 3)], list(W())),
        lambda: (set(W()), set(W())), lambda: (frozenset(W()), set(W())), lambda: (Counter(W()), Counter(W())), lambda: (day(), td()), lambda: (day(), day()),
        lambda: (td(), td()), lambda: (Decimal(k()) / 10, Decimal(k()) / 3), lambda: (Fraction(k(), 3), k()), lambda: (True, True), lambda: (False, k()),
        lambda: (-0.0, rnd.choice([0, -0.0])), lambda: (float("inf"), 1.5), lambda: (.1, .2), lambda: (10 ** 30, k()), lambda: (2 ** 53, 1.0), lambda: (np.float64(k()), k()),
        lambda: (np.array([k(), k()]), np.array([k(), k()])), lambda: (np.array([k(), 1]), k()), lambda: (np.bool_(True), np.int8(100)), lambda: (Vector(k(), k()), Vector(k(), k())),
        lambda: (Vector(k(), k()), k()), lambda: (complex(k(), k()), k()), lambda: (Qty(k()), Qty(k())), lambda: (Word(W()), Word(W())), lambda: (k(), Right(k())), lambda: (bytearray(b"ab"), b"c"),
        lambda: (list, len), lambda: (lambda: 5, {2: 1}), lambda: (Ellipsis, NotImplemented), lambda: (object(), Cell(0)), lambda: (range(3), iter([1, 2])), lambda: (Vector, MultiVariable("mv")),
        lambda: (ValueError("x"), [[2], [1]]), lambda: ([], ""), lambda: (Exception, type(None))])()
    return list(pair)


def same_object(r, x):
    if r is x:
        return True
    if type(r) is not type(x):
        return False
    if isinstance(x, np.ndarray):
        return r.dtype == x.dtype and np.array_equal(r, x)
    if isinstance(x, Qty):
        return r.k == x.k
    if isinstance(x, (int, float, complex, Fraction, Decimal, np.generic)):
        return repr(r) == repr(x)       # (nan too)
    try:
        return bool(r == x) and (repr(r) == repr(x) or isinstance(x, (set, frozenset)))
    except Exception:
        return False


def things():
    """objects of all sorts, no two of them the same one"""
    return [None, True, False, 0, 1.0, 0.0, "", "a", (), (1, 2), [], [1], {}, {1: 2}, set(), {3}, frozenset(), Word("w"), Page("p"), object(), Cell(0), Cell(0), float("nan"), Ellipsis, int, len, Vector(0, 0),
            Vector(1, 2), np.array([1, 2]), np.float64(0), ValueError("x"), range(0), range(3), b"", MultiVariable("inner"), [[]], -1, 10 ** 20]


def collection(rnd, xs):
    """those objects, in some kind of collection"""
    kind = rnd.choice([list, tuple, set, frozenset, collections.deque, dict.fromkeys])
    if kind in (set, frozenset, dict.fromkeys):
        try:
            if len(set(xs)) < len(xs):
                kind = list
        except TypeError:
            kind = tuple
    return kind(xs)


def tagger(N, d, T):
    """a multi-valued method whose results tell which objects it was given"""
    def index(x):
        return [i + 1 for i, y in enumerate(T) if y is x][0]

    class M(MultiMethod):
        def multi_execute(self, inmap):
            g = tuple(index(inmap[N.o(v)]) for v in d["ins"])
            return [[("t", g)], [("t", g), ("u", g)], [("t", g)] if g[0] % 2 else []][d["c"]]
    return M("tag", [N.o(v) for v in d["ins"]], [N.o(v) for v in d["outs"]])


TERM = {"+": operator.add, "-": operator.sub, "*": operator.mul}


def terms(rnd, focus):
    """Methods on opaque objects, executed directly or by a method graph."""
    defs = []
    for k in BUILTIN:
        for a, b in ((1, 2), (2, 1), (1, 1), (3, 1)) if k in ("add", "sub") else ((1, 0),):
            defs.append({"kind": k, "ins": {"set": [], "assign": [a]}.get(k, [a, b]), "outs": [rnd.choice([4, 4, 4, a if k == "set" else 2 if 2 not in (a, b) else 4])], "c": 0})
    for a, b in ((1, 2), (2, 1), (5, 1), (5, 6), (6, 5), (5, 5)):
        defs.append({"kind": "sp", "ins": [a, b], "outs": [7], "c": 0})
    for _ in range(6):
        defs.append({"kind": "tag", "ins": [rnd.choice([1, 2, 5, 5, 6, 6]) for _ in range(rnd.choice([1, 2, 2, 3]))], "outs": [7], "c": rnd.choice([0, 0, 1, 2])})
    evs = []
    classes = {"add": AddMethod, "sub": SubMethod, "assign": AssignMethod, "set": SetMethod, "sp": SumProdMethod}
    todo = [m for m in range(1, len(defs) + 1) if (defs[m - 1]["kind"] in ("sp", "tag")) == (focus == "M06") or rnd.random() < .2]
    objs0 = list(rnd.choice(name_palettes()))
    rnd.shuffle(objs0)
    mv = [rnd.choice([MultiVariable, Alternatives])(*rnd.choice([(), (), ("mv",), ("MultiVariable(mv)",)])) for _ in range(3)]
    if rnd.random() < .4:
        # names that read like the multi-valued ones
        objs0[:2] = [str(mv[0]), "MultiVariable(o)"]
    N = Names(objs0[:4] + mv, rnd)
    for m in todo * 3:
        d = defs[m - 1]
        kind, ins = d["kind"], d["ins"]
        T = opaque(rnd) + opaque(rnd)[:1] if kind != "sp" else [Word(w) for w in rnd.sample("abcdefgh", 6)]
        given = rnd.choice(T)
        # which object is the value of which variable
        f = {v: ["o", i + 1] for i, v in enumerate((1, 2, 3))} if kind not in ("sp", "tag") else {1: ["o", 1], 2: ["o", 2], 5: ["m", rnd.sample(range(1, 7), rnd.randint(0, 3))], 6: ["m", rnd.sample(range(1, 7), rnd.randint(1, 3))]}
        if kind == "sp" and set(ins) <= {1, 2} and rnd.random() < .5:
            T = [Page(x.t) for x in T]
        if kind == "tag":
            T = rnd.sample(things(), 6)
            f[6] = ["m", rnd.sample(range(1, 7), rnd.randint(0, 4))]
            if rnd.random() < .3:
                f[6] = list(f[5])
        if kind in ("add", "sub"):
            op = TERM["+" if kind == "add" else "-"]
            try:
                op(*[T[f[v][1] - 1] for v in ins])
            except Exception:
                continue
        via = rnd.random() < .4
        f = {v: x for v, x in f.items() if v in ins or rnd.random() < .3}
        if kind == "tag":
            via = via and not any(v < 3 and T[f[v][1] - 1] is None for v in ins)
        if not via and kind not in ("sp", "tag"):
            for v in ins:
                if rnd.random() < .06:
                    f[v] = ["n"]
                elif rnd.random() < .06:
                    f.pop(v, None)
        val = lambda x: None if x[0] == "n" else T[x[1] - 1] if x[0] == "o" else collection(rnd, [T[i - 1] for i in x[1]])
        concrete = {v: val(x) for v, x in f.items()}
        if kind == "tag" and 5 in f and 6 in f and f[5] == f[6] and rnd.random() < .7:
            concrete[6] = concrete[5]       # one and the same collection
        before = {v: (id(x), repr(x)) for v, x in concrete.items()}
        met = tagger(N, d, T) if kind == "tag" else classes[kind](*[N.o(v) for v in (d["outs"] + ins if kind in ("assign", "set") else ins + d["outs"])] + ([given] if kind == "set" else []))

        def go():
            if not via:
                inmap = {N.o(v): concrete[v] for v in rnd.sample(sorted(concrete), len(concrete))}
                keys = list(inmap)
                r = met.execute(inmap)
                return r, list(inmap) == keys and all(inmap[k] is concrete[N.i(k)] for k in keys)
            g = MethodGraph()
            late = rnd.random() < .5
            if late:
                g.add_method(met)
            for v in ins:
                g.add_variable(N.o(v))
                g.set(N.o(v), concrete[v])
            if not late:
                g.add_method(met, prop=rnd.random() < .5)
            g.propagate()
            return {N.o(v): g.get(N.o(v)) for v in d["outs"]}, all(g.get(N.o(v)) is concrete[v] for v in ins if v not in d["outs"])
        err, hang, r = call(go)
        res, same = [], True
        if not err:
            r, same = r
            same = same and all((id(x), repr(x)) == before[v] for v, x in concrete.items())
            try:
                for n, x in r.items():
                    res.append([N.i(n), term(x, T, given, kind, [f.get(v) for v in ins])])
            except Exception:
                res = [[999, ["?"]]]
        evs.append({"op": ["term", m, [[v, x] for v, x in f.items()]], "prop": via, "err": "" if not err else "Hang" if hang else "other", "hang": hang, "vars": [], "mets": [], "vals": [],
                    "ran": [], "res": res, "same": same, "seen": 0, "objects": [repr(x) for x in T]})
    return {"defs": defs, "events": evs, "names": [repr(x) for x in N.objs], "mode": "opaque", "byvalue": False}


def term(x, T, given, kind, args):
    """which operation on which objects gives x"""
    if kind == "tag":
        return ["{}", [list(y) if isinstance(y, tuple) and len(y) == 2 else ["?", []] for y in x]]
    if kind == "sp":
        out = []
        for y in x:
            t = [[o, i + 1, j + 1] for i in range(len(T)) for j in range(len(T)) for o in "+*" if TERM[o](T[i], T[j]) == y]
            out.append(t[0] if t else ["?", 0, 0])
        return ["{}", out]
    if x is None:
        return ["n"]
    if kind == "set":
        return ["o", 0] if same_object(x, given) else ["?"]
    if kind == "assign":
        return args[0] if args[0][0] == "o" and same_object(x, T[args[0][1] - 1]) else ["?"]
    o = "+" if kind == "add" else "-"
    return [o, args[0][1], args[1][1]] if same_object(x, TERM[o](T[args[0][1] - 1], T[args[1][1] - 1])) else ["?"]


def wide(rnd):
    """Methods of many multi-valued inputs, and inputs of many alternatives."""
    nm = 8
    multi = list(range(3, 3 + nm))
    res = 3 + nm
    defs = []
    for k in (5, 6, 7, 8):
        ins = rnd.sample(multi, k)
        if rnd.random() < .5:
            ins.insert(rnd.randint(0, k), rnd.choice([1, 2] + ins))
        defs.append({"kind": rnd.choice(["wsum", "fork", "some"]), "ins": ins, "outs": [res], "c": rnd.randint(0, 5)})
    for n in (1, 2):
        defs.append({"kind": rnd.choice(["wsum", "fork", "some"]), "ins": rnd.sample(multi, n), "outs": [res], "c": rnd.randint(0, 5)})
    rig = Rig(Names(["a", "b"] + [MultiVariable() for _ in range(nm + 1)], rnd), defs, Vals("int"), False)
    evs = []
    for m, d in enumerate(defs, 1):
        ps = []
        for v in sorted(set(d["ins"])):
            n = len(set(d["ins"]) & set(multi))
            ps.append([v, ["i", rnd.randint(0, 3)] if v < 3 else
                       ["s", sorted(rnd.sample(range(0, 3), rnd.choice([2, 2, 2, 3]) if n < 7 else 2))] if n > 2 else
                       ["s", sorted(rnd.sample(range(0, 400), 300 if n == 1 else 20))]])
        rnd.shuffle(ps)
        evs.append(rig.apply({"op": ["direct", m, ps]}))
    return {"defs": defs, "events": evs, "names": [], "mode": "int", "byvalue": False}


def random_histories(cfg):
    out = []
    for i in range(cfg["n"]):
        rnd = random.Random("%s/%s/%d" % (cfg["seed"], cfg["focus"], i))
        if cfg["focus"] == "M06" and i % 15 == 1:
            out.append(wide(rnd))
        elif cfg["focus"] in ("M06", "M07") and i % 6 == 2:
            out.append(terms(rnd, cfg["focus"]))
        elif cfg["focus"] in ("M06", "M07") and i % 3 == 0:
            out.append(directs(rnd, cfg["focus"]))
        elif i % 4 == 1:
            out += company(rnd, cfg["focus"], cfg["length"])
        else:
            out.append(history(rnd, cfg["focus"], cfg["length"]))
    return out


# ---------------------------------------------------------------- walks
def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def key(s):
    return (tuple(sorted(s["vars"])), tuple(sorted(tup(s["val"]))), tuple(sorted(s["met"])), tuple(sorted(s["pend"])), tuple(sorted(s["chg"])))


def walk(cfg):
    trans = collections.defaultdict(list)
    states = set()
    for line in open(cfg["file"]):
        d = json.loads(line)
        f, t = key(d["f"]), key(d["t"])
        states.add(f), states.add(t)
        trans[f].append((d["a"], t))
    rnd = random.Random(cfg["seed"])
    only = set(cfg.get("ops") or ())
    part, parts = cfg.get("part", 0), cfg.get("parts", 1)
    todo = {}
    for si, s in enumerate(sorted(trans)):
        todo[s] = [i for i, (a, t) in enumerate(trans[s]) if (not only or a["op"][0] in only) and (si + i) % parts == part]
        rnd.shuffle(todo[s])
    init = ((), (), (), (), ())
    mism, steps, walks = [], 0, 0
    pals = name_palettes()
    defs = cfg["defs"]
    nv = max(max(d["ins"] + d["outs"]) for d in defs)
    W = Walker(trans, todo, init, rnd)
    for w in W.walks():
        walks += 1
        objs = list(pals[walks % len(pals)])
        rnd.shuffle(objs)
        rig = Rig(Names(objs[:nv], rnd if walks % 2 else None), defs, Vals("int"), walks % 3 == 0)
        rig.manner = (0, 1, 0, 2)[walks % 4]
        hist = []
        for a, s, t in w:
            ev = rig.apply({"op": a["op"], "prop": a["prop"], "expl": rnd.random() < .5})
            steps += 1
            hist.append({"op": a["op"], "prop": a["prop"], "err": ev["err"]})
            bad = []
            if ev["err"] not in a["err"]:
                bad.append("outcome")
            if ev["hang"]:
                bad.append("hang")
            if sorted(ev["vars"]) != list(t[0]):
                bad.append("variables")
            if sorted(ev["mets"]) != list(t[2]):
                bad.append("methods")
            if not set(ev["ran"]) <= set(t[2]):
                bad.append("ran")
            if sorted(tup(ev["vals"])) != list(t[1]):
                bad.append("settled" if a["op"][0] in ("propagate", "execute") or a["prop"] else "unpropagated")
            if bad:
                mism.append({"clauses": bad, "hist": hist, "names": [repr(x) for x in objs[:nv]], "last": ev, "expected": t})
                break
        if len(mism) >= 20:
            break
    left = W.left
    return {"walks": walks, "steps": steps, "unvisited": left, "mismatches": mism}


# ---------------------------------------------------------------- large graphs, described by pieces (MethodBlocks)
NIL, GONE = 1000001, 1000002


class Link(AddMethod):
    """An addition that can be made to fail."""
    boom = None

    def execute(self, inmap):
        if self.boom:
            raise self.boom
        return super().execute(inmap)


def big_names(rnd, n):
    return [[i for i in range(0, n + 1)], ["n%d" % i for i in range(1, n + 2)], [(i // 40, i % 40) for i in range(1, n + 2)],
            [-i for i in range(1, n + 2)], [Key(i) for i in range(1, n + 2)] if n < 2000 else [-i for i in range(1, n + 2)]][rnd.randrange(5)]


def large(cfg):
    sys.setrecursionlimit(1000)
    N, mism, steps = cfg["nv"], [], 0
    for hno, hist in enumerate(cfg["hists"]):
        rnd = random.Random("%s/%d" % (cfg["seed"], hno))
        objs = big_names(rnd, N + cfg["fan"])
        idx = {x: i + 1 for i, x in enumerate(objs)}
        o = lambda i: objs[i - 1]
        HUB = N + 1
        val = lambda x: None if x == NIL else x
        g = MethodGraph()
        leaves = range(N + 2, N + 2 + cfg["fan"])
        assigns = [AssignMethod(o(k), o(HUB)) for k in leaves]
        rnd.shuffle(assigns)
        links = {}

        def link(k):
            if k not in links:
                links[k] = Link(*((o(k), o(HUB)) if rnd.random() < .5 else (o(HUB), o(k))), o(k + 1))
            return links[k]
        g.add_variable(o(HUB), 1)
        calls, last = [], [None]

        def do(f, *a, **k):
            def run():
                try:
                    return f(*a, **k)
                except Exception as x:
                    last[0] = x
                    raise
            return call(run, seconds=90)
        for st in hist:
            op, prop, x = st["a"]["op"], st["a"]["prop"], st["x"]
            n = op[0]
            calls.append(op + [prop])
            steps += 1
            bad, e, hang = [], "", False
            kw = {} if prop and rnd.random() < .5 else {"prop": prop}
            if n == "build":
                lo, hi, h = op[1:]
                how = rnd.randrange(4)
                L = list(range(lo, hi))
                if how == 1:
                    # (backwards all along takes quadratic time)
                    L[:150] = L[:150][::-1]
                elif how > 1:
                    rnd.shuffle(L)
                if how == 3 and prop and lo < hi:
                    # methods first, the first value at last
                    first = [(g.add_method, (link(k),), {"prop": k % 2 == 0}) for k in L] + [(g.set, (o(lo), val(h)), kw)]
                else:
                    now = prop and len(L) < 30
                    first = [(g.add_variable, (o(lo), val(h)), {})] + [(g.add_method, (link(k),), {"prop": now}) for k in L] + ([(g.propagate, (), {})] if prop else [])
                for f, a, k in first:
                    e, hang, _ = do(f, *a, **k)
                    if e:
                        break
            elif n in ("set", "set_hub"):
                e, hang, _ = do(g.set, o(HUB if n == "set_hub" else op[1]), val(op[-1]), **kw)
            elif n == "add_hub":
                e, hang, _ = do(g.add_variable, o(HUB), val(op[1]))
            elif n in ("rem_hub", "rem_variable"):
                e, hang, _ = do(g.rem_variable, o(HUB if n == "rem_hub" else op[1]))
            elif n == "add_method":
                e, hang, _ = do(g.add_method, link(op[1]), **kw)
            elif n == "rem_method":
                e, hang, _ = do(g.rem_method, link(op[1]))
            elif n == "bad_method":
                e, hang, _ = do(g.add_method, Link(o(op[1]), o(HUB), o(op[2])), **kw)
            elif n == "propagate":
                e, hang, _ = do(g.propagate)
            elif n == "clear":
                e, hang, _ = do(g.clear)
            elif n == "fan_on":
                for a in assigns:
                    e, hang, _ = do(g.add_method, a, prop=False)
                    if e:
                        break
                if prop:
                    e, hang, _ = do(g.propagate)
            elif n == "fan_off":
                for a in rnd.sample(assigns, len(assigns)):
                    e, hang, _ = do(g.rem_method, a)
                    if e:
                        break
            elif n == "fault":
                b = link(op[3]).boom = BOOMS[rnd.randrange(5)]("planned")
                e, hang, _ = do(g.set, o(op[1]), val(op[2]))
                if not e or last[0] is not b:
                    bad.append("swallowed")
                link(op[3]).boom = None
                e, hang, _ = do(g.propagate)
            if e:
                e = ("Hang" if hang else "determine" if isinstance(last[0], MethodGraphDetermineException) else
                     "cycle" if isinstance(last[0], MethodGraphCycleException) else "other")
            if hang:
                bad.append("hang")
            if e not in st["a"]["err"]:
                bad.append("outcome")
            want, mets = {}, {id(link(k)) for k in x["gl"]}
            for p in x["pc"]:
                for k in range(p["lo"], p["hi"] + 1):
                    want[k] = val(p["head"]) if k == p["lo"] else None if p["b"] == NIL else p["b"] + (k - p["lo"]) * p["st"]
                if p["on"]:
                    mets |= {id(link(k)) for k in range(p["lo"], p["hi"])}
            if x["hub"] != GONE:
                want[HUB] = val(x["hub"])
            if x["fan"]["val"] != GONE:
                want.update((k, val(x["fan"]["val"])) for k in leaves)
            if x["fan"]["on"]:
                mets |= {id(a) for a in assigns}
            vs = list(g.variables())
            if len(vs) != len(want) or {idx.get(v) for v in vs} != set(want):
                bad.append("variables")
            else:
                ms = list(g.methods())
                if len(ms) != len(mets) or {id(m) for m in ms} != mets:
                    bad.append("methods")
                wrong = [(k, g.get(o(k)), y) for k, y in want.items() if g.get(o(k)) != y]
                if wrong:
                    bad += ["settled" if prop else "unpropagated"]
            if bad:
                mism.append({"clauses": sorted(set(bad)), "nv": N, "hist": [{"op": c[:-1], "prop": c[-1], "err": ""} for c in calls], "err": e, "names": "%r.." % (objs[0],)})
                break
        if len(mism) >= 10:
            break
    return {"walks": len(cfg["hists"]), "steps": steps, "mismatches": mism}


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("off")
    emit(cfg["out"], {"walk": walk, "large": large}.get(cfg["mode"], random_histories)(cfg))
