"""Replays exact plane-geometry expectations into solver/geometry.py (and the selection constraints)."""
import sys, os, json, random, math, copy, cmath
import numpy as np
from fractions import Fraction
from decimal import Decimal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from solver.geometry import *
from solver.geometric.constraint import *

AWK = random.Random(5)


class Spot(Vector):
    """somebody's own kind of vector"""


def V(x, y=None):
    """A vector, sometimes one that has been somewhere else (and been asked about it) before, or of a derived class."""
    t = AWK.random() if y is not None else 1
    if t < .07:
        r = Vector(AWK.uniform(-9, 9), AWK.uniform(-9, 9))
        (r.length, r.azimuth, -r, r.dot(r), r[:], str(r), hash(repr(r)), r.is_positive(), r.is_negative(), r + r, r * 2, r.transpose(), r.rotate(0))
        if t < .03:
            r.x = x
            (r.length, r.azimuth)
            r.y = y
        else:
            r.elements = [[float(x)], [float(y)]]
        return r
    if t < .12:
        return Spot(x, y)
    return Vector(x) if y is None else Vector(x, y)


class Sim:
    """A similarity of the plane: scale, rotate, translate."""
    def __init__(self, s, th, tx, ty):
        self.s, self.tx, self.ty, self.th = s, tx, ty, th
        q = th / (math.pi / 2)
        self.z = {0: 1, 1: 1j, 2: -1, 3: -1j}[int(round(q)) % 4] if abs(q - round(q)) < 1e-12 else cmath.exp(1j * th)

    def vec(self, x, y):
        w = complex(x, y) * self.z * self.s
        return w.real, w.imag

    def pt(self, p):
        x, y = self.vec(p[0], p[1])
        return V(x + self.tx, y + self.ty)

    def dir(self, v, k=1.0):
        x, y = self.vec(v[0], v[1])
        return V(x * k, y * k)

    def surd(self, P):
        r = math.sqrt(P["c"]) if P["c"] > 0 else 0.0
        x, y = self.vec((P["xa"] + P["xb"] * r) / P["d"], (P["ya"] + P["yb"] * r) / P["d"])
        return x + self.tx, y + self.ty

    def ext(self, m):
        return self.s * m + abs(self.tx) + abs(self.ty)

    def __repr__(self):
        return "scale %r, turn %r, shift (%r, %r)" % (self.s, self.th, self.tx, self.ty)


def sims(rnd, n):
    """the identity, exact ones, arbitrary ones"""
    out = [Sim(1.0, 0.0, 0.0, 0.0)]
    while len(out) < n:
        kind = rnd.randrange(4)
        if kind == 0:
            out.append(Sim(rnd.choice([.25, .5, 1.0, 2.0, 4.0]), rnd.randrange(4) * math.pi / 2, float(rnd.randint(-8, 8)), float(rnd.randint(-8, 8))))
        elif kind == 1:
            out.append(Sim(rnd.choice([.125, 1.0, 3.0, 10.0]), rnd.uniform(0, 7), rnd.uniform(-5, 5), rnd.uniform(-5, 5)))
        elif kind == 2:
            out.append(Sim(rnd.uniform(.05, 20.0), rnd.uniform(0, 7), rnd.uniform(-100, 100), rnd.uniform(-100, 100)))
        else:
            out.append(Sim(rnd.choice([1 / 64., .01, 30.0]), rnd.choice([0, rnd.uniform(0, 7)]), rnd.choice([0.0, 1.0]), rnd.choice([0.0, -3.0])))
    return out


def big(x):
    m = 1
    for v in x.values():
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, (int, float)):
                m = max(m, abs(c))
    return m


def close(a, b, tol):
    return abs(a - b) <= tol


def same_points(got, exp, tol):
    """got: list of Vector, exp: list of (x, y); a matching within tol"""
    if not isinstance(got, list) or len(got) != len(exp):
        return False
    for g in got:
        if not isinstance(g, Vector) or not all(math.isfinite(c) for c in (g.x, g.y)):
            return False
    ok = lambda g, e: close(g.x, e[0], tol) and close(g.y, e[1], tol)
    if len(exp) == 2:
        return ok(got[0], exp[0]) and ok(got[1], exp[1]) or ok(got[0], exp[1]) and ok(got[1], exp[0])
    return all(ok(g, e) for g, e in zip(got, exp))


class Replay:
    def __init__(self, cfg):
        self.rnd = random.Random(cfg["seed"])
        self.n, self.skipped, self.mism = 0, 0, []
        self.reps = cfg.get("reps", 3)
        self.which = cfg["prop"]

    def bad(self, x, what, **k):
        if len(self.mism) < 40:
            self.mism.append(dict(case=x, what=what, **{a: (b if isinstance(b, (int, float, str, list, dict)) else repr(b)) for a, b in k.items()}))

    def run(self, fn, x, what, *a, **k):
        """call the code; -> (ok, result); operands must stay as they were"""
        before = [frozen(y) for y in a]
        self.n += 1
        e, hang, r = call(fn, *a, **k)
        if e:
            self.bad(x, what + " raised " + e, args=repr(a))
            return False, None
        if [frozen(y) for y in a] != before:
            self.bad(x, what + " changed an operand", args=repr(a))
            return False, None
        return True, r

    def case(self, x, y):
        getattr(self, "k_" + x["k"])(x, y)

    # ---- triples
    def k_tri(self, x, y):
        if x["e"]:
            u = 10.0 ** x["e"]
            S = [None] + [None] * (self.reps > 1)
        else:
            S = sims(self.rnd, self.reps)
        for j, sim in enumerate(S):
            if sim is None:
                q = self.rnd.randrange(4) if j else 0
                z = {0: 1, 1: 1j, 2: -1, 3: -1j}[q]
                P = []
                for p in (x["a"], x["b"], x["c"]):
                    w = complex(p[0] / u, p[1] / u) * z
                    P.append(V(w.real, w.imag))
                oclear, nclear, s, noise = y["oclear"], y["nclear"], 1 / u, 0
            else:
                P = [sim.pt(p) for p in (x["a"], x["b"], x["c"])]
                s = sim.s
                ext = sim.ext(big(x))
                oclear = (y["area"] == 0 and ext * s * big(x) * 1e-15 < 2e-9) or abs(y["area"]) * s * s > 4e-8
                nclear = all(d == 0 or math.sqrt(d) * s > 4e-8 for d in (y["p"], y["r"]))
            self.tri_checks(x, y, P, oclear, nclear, sim, s)

    def tri_checks(self, x, y, P, oclear, nclear, sim, s):
        rnd = self.rnd
        if self.which == "C03":
            return self.constraints(x, y, P, oclear, nclear, sim)
        if oclear:
            for fn, o in ((is_clockwise, "cw"), (is_counterclockwise, "ccw"), (is_flat, "flat")):
                ok, r = self.run(fn, x, fn.__name__, *P)
                if ok and bool(r) != (y["o"] == o):
                    self.bad(x, fn.__name__ + " is wrong", got=r, expected=y["o"], points=repr(P), sim=repr(sim))
        else:
            self.skipped += 1
        if not nclear:
            self.skipped += 1
            return
        ok, a = self.run(angle_3p, x, "angle_3p", *P)
        if ok:
            if (a is None) != y["none"]:
                self.bad(x, "angle_3p: None expected exactly for arms without length", got=a, points=repr(P), sim=repr(sim))
            elif a is not None:
                L = math.sqrt(y["p"]) * math.sqrt(y["r"])
                c, sn = y["dot"] / L, y["sin"] / L
                # a point given to within rounding, seen at a distance
                tol = 2e-7 + (0 if sim is None else sim.ext(big(x)) * 1e-14 / (s * math.sqrt(min(y["p"], y["r"]))))
                good = -math.pi - 1e-9 <= a <= math.pi + 1e-9 and close(math.cos(a), c, tol)
                if good and not (oclear and y["o"] != "flat"):
                    good = close(abs(math.sin(a)), abs(sn), tol) and (not oclear or a >= 0)
                elif good:
                    good = close(math.sin(a), sn, tol) and (a * (1 if y["o"] == "cw" else -1) > 0 or a == 0 and abs(sn) < 2e-7)
                if not good:
                    self.bad(x, "angle_3p is wrong", got=a, cos=c, sin=sn, points=repr(P), sim=repr(sim))
        if y["none"] or y["open"] != "edge":
            for fn, o in ((is_acute, "acute"), (is_obtuse, "obtuse")):
                ok, r = self.run(fn, x, fn.__name__, *P)
                if ok and bool(r) != (not y["none"] and y["open"] == o):
                    self.bad(x, fn.__name__ + " is wrong", got=r, expected=y["open"], points=repr(P), sim=repr(sim))

    def constraints(self, x, y, P, oclear, nclear, sim):
        rnd = self.rnd
        pal = list(rnd.choice(name_palettes()))
        rnd.shuffle(pal)
        names = pal[:3]
        pts = (x["a"], x["b"], x["c"])
        # equal points may be the same variable
        for i in range(3):
            for j in range(i):
                if pts[i] == pts[j] and rnd.random() < .5:
                    names[i] = names[j]
        mapping = {}
        for k in rnd.sample(range(3), 3):
            mapping[twin(names[k])] = P[k]
        extra = rnd.random() < .6
        if extra:
            for nm in pal[3:6]:
                mapping[nm] = rnd.choice([V(rnd.uniform(-9, 9), rnd.uniform(-9, 9)), P[rnd.randrange(3)]])
        want = {}
        if oclear:
            want[NotClockwiseConstraint] = y["o"] != "cw"
            want[NotCounterClockwiseConstraint] = y["o"] != "ccw"
        if nclear and (y["none"] or y["open"] != "edge"):
            want[NotObtuseConstraint] = y["none"] or y["open"] != "obtuse"
            want[NotAcuteConstraint] = y["none"] or y["open"] != "acute"
        for cls, sat in want.items():
            e, _, c = call(cls, *names)
            if e:
                self.bad(x, cls.__name__ + " could not be made: " + e)
                continue
            for _ in range(2):
                keys, before = list(mapping), {id(p): frozen(p) for p in mapping.values()}
                ok, r = self.run(c.satisfied, x, cls.__name__, mapping)
                if ok and (bool(r) != sat):
                    self.bad(x, cls.__name__ + " is wrong", got=r, expected=sat, points=repr(P), names=repr(names), sim=repr(sim))
                if list(mapping) != keys or any(frozen(p) != before[id(p)] for p in mapping.values()):
                    self.bad(x, cls.__name__ + " changed the mapping")
            if list(c.variables()) != names:
                self.bad(x, cls.__name__ + " has other variables", got=repr(c.variables()))
            # a second mapping must not be confused with the first
            m2 = {names[0]: V(0, 0), names[1]: V(1, 0), names[2]: V(2, 1)}
            if len(set(map(id, names))) == 3 and rnd.random() < .3:
                exp = {NotClockwiseConstraint: True, NotCounterClockwiseConstraint: False, NotObtuseConstraint: False, NotAcuteConstraint: True}[cls]
                ok, r = self.run(c.satisfied, x, cls.__name__, m2)
                if ok and bool(r) != exp:
                    self.bad(x, cls.__name__ + " is wrong on a second mapping", got=r, expected=exp)

    def k_fun(self, x, y):
        rnd = self.rnd
        vals = [V(1, 2), "two", 3]
        # results that are not True do not satisfy
        ret = [False, True, None, [], "", 0][x["ret"]] if rnd.random() < .5 or x["ret"] == 1 else ["yes", True, [0], 1, 1.0, {1: 1}][x["ret"]]
        pal = list(rnd.choice(name_palettes()))
        rnd.shuffle(pal)
        seen = []

        def f(*a):
            seen.append(a)
            return ret
        names = [pal[i - 1] for i in x["vars"]]
        src = list(names)
        c = FunctionConstraint(f, src) if rnd.random() < .5 else FunctionConstraint(f, src, name="n")
        src.append("later")
        mapping = {twin(pal[i]): vals[x["vals"][i] - 1] for i in rnd.sample(range(3), 3)}
        keys = list(mapping)
        for _ in range(2):
            del seen[:]
            ok, r = self.run(c.satisfied, x, "FunctionConstraint", mapping)
            if not ok:
                return
            if len(seen) < 1 or any(len(a) != len(y["args"]) or any(p is not vals[v - 1] for p, v in zip(a, y["args"])) for a in seen):
                self.bad(x, "function applied to something else", got=repr(seen))
            if bool(r) != y["sat"]:
                self.bad(x, "FunctionConstraint is wrong", got=r, returned=repr(ret))
            if list(mapping) != keys:
                self.bad(x, "FunctionConstraint changed the mapping")

    def k_plus(self, x, y):
        rnd = self.rnd
        for kind in (V, int, str) if x["pts"][0][1] == 2 else (V, int):
            s = rnd.choice([1, 2.0, .25])
            f = {V: lambda p: V(p[0] * s, p[1] * s), int: lambda p: 50 * p[0] + p[1], str: lambda p: "ab" if p[1] else ""}[kind]
            pal = list(rnd.choice(name_palettes()))
            rnd.shuffle(pal)
            names = [pal[i - 1] for i in x["vars"]]
            mapping = {twin(pal[i]): f(x["pts"][i]) for i in rnd.sample(range(3), 3)}
            if rnd.random() < .5:
                mapping[pal[3]] = f([1, 1])
            want = y["sat"]
            if kind is int and want and rnd.random() < .3 and x["vars"].count(x["vars"][2]) == 1:
                # a sum missed by very little
                third = next(n for n in mapping if n == names[2])
                mapping[third] += rnd.choice([1e-12, -1e-12, 1e-9, 1e-7, -1e-6, Fraction(1, 10 ** 9)])
                want = mapping[names[0]] + mapping[names[1]] == mapping[names[2]]
            keys, before = list(mapping), [frozen(p) if kind is V else p for p in mapping.values()]
            if kind is str and want != (f(x["pts"][x["vars"][0] - 1]) + f(x["pts"][x["vars"][1] - 1]) == f(x["pts"][x["vars"][2] - 1])):
                continue
            c = PlusConstraint(*names)
            for _ in range(2):
                ok, r = self.run(c.satisfied, x, "PlusConstraint", mapping)
                if ok and bool(r) != want:
                    self.bad(x, "PlusConstraint is wrong", got=r, expected=want, mapping=repr(mapping))
            if list(c.variables()) != names or list(mapping) != keys or [frozen(p) if kind is V else p for p in mapping.values()] != before:
                self.bad(x, "PlusConstraint changed its variables or the mapping")

    # ---- intersections
    def k_ll(self, x, y):
        sin = abs(y["den"]) / (math.hypot(*x["v"]) * math.hypot(*x["w"]) or 1)
        for sim in sims(self.rnd, self.reps):
            rnd = self.rnd
            k = lambda: rnd.choice([1.0, 1.0, 2.0, .5, 10 ** rnd.uniform(-6, 6)])
            p, q = sim.pt(x["p"]), sim.pt(x["q"])
            v, w = sim.dir(x["v"], k()), sim.dir(x["w"], k())
            sv, sw = rnd.choice([1, -1]), rnd.choice([1, -1])
            ext = sim.ext(big(x) * (1 + (big(x) / sin if sin else 0)))
            if sin and ext * 1e-15 > 1e-10 or y["den"] == 0 and sim.ext(0) > 300:
                self.skipped += 1
                continue
            # a clear distance in front of or behind the origins (or none at all)
            tol = 1e-9 * ext / (sin or 1)
            runs = [("ll_int", ll_int, (p, v * sv, q, w * sw), y["pts"]), ("ll_int", ll_int, (q, w * sw, p, v * sv), y["pts"]),
                    ("lr_int", lr_int, (p, v * sv, q, w), y["lr"]),
                    ("rr_int", rr_int, (p, v, q, w), y["rr"]), ("rr_int", rr_int, (q, w, p, v), y["rr"])]
            for name, fn, a, exp in runs:
                ok, r = self.run(fn, x, name, *a)
                if ok and not same_points(r, [sim.surd(P) for P in exp], tol):
                    self.bad(x, name + " is wrong", got=repr([g[:] if isinstance(g, Vector) else g for g in r] if isinstance(r, list) else r), expected=[sim.surd(P) for P in exp],
                             args=repr([b[:] for b in a]), sim=repr(sim))

    def k_cl(self, x, y):
        for sim in sims(self.rnd, self.reps):
            rnd = self.rnd
            h2 = y["E"] / (y["d2"] or 1) * sim.s ** 2
            ext = sim.ext(big(x) * 3)
            if y["d2"] and (abs(h2) < 4e-8 + ext * ext * 2e-14 if y["E"] else ext * ext * 2e-15 > 4e-9):
                self.skipped += 1
                continue
            p, q, r = sim.pt(x["p"]), sim.pt(x["q"]), x["r"] * sim.s
            k = rnd.choice([1.0, 1.0, 1.0, 3.0, 10 ** rnd.uniform(-6, 6)])
            v = sim.dir(x["v"], k)
            tol = 1e-9 * ext + (4e-14 * ext * ext / math.sqrt(h2) if h2 > 0 else 1e-8)
            runs = [("cl_int", cl_int, (p, r, q, v), y["pts"]), ("cl_int", cl_int, (p, r, q, -v), y["pts"]), ("cr_int", cr_int, (p, r, q, v), y["ray"])]
            if float(r).is_integer():
                runs.append(("cl_int", cl_int, (p, int(r), q + v * (1 / k), v), y["pts"]))
            for name, fn, a, exp in runs:
                ok, got = self.run(fn, x, name, *a)
                if ok and not same_points(got, [sim.surd(P) for P in exp], tol):
                    self.bad(x, name + " is wrong", got=repr([g[:] for g in got] if isinstance(got, list) else got), expected=[sim.surd(P) for P in exp], args=repr(a), sim=repr(sim))

    def k_cc(self, x, y):
        for sim in sims(self.rnd, self.reps):
            h2 = y["E"] / y["d2"] * sim.s ** 2 if y["d2"] else 1
            ext = sim.ext(big(x) * 3)
            if abs(h2) < 4e-8 + ext * ext * 4e-14 if y["E"] else ext * ext * 4e-15 > 4e-9:
                self.skipped += 1
                continue
            p, q, r, s = sim.pt(x["p"]), sim.pt(x["q"]), x["r"] * sim.s, x["s"] * sim.s
            tol = 1e-9 * ext + (8e-14 * ext * ext / math.sqrt(h2) if h2 > 0 and y["E"] else 1e-8)
            for a in ((p, r, q, s), (q, s, p, r)):
                ok, got = self.run(cc_int, x, "cc_int", *a)
                if ok and not same_points(got, [sim.surd(P) for P in y["pts"]], tol):
                    self.bad(x, "cc_int is wrong", got=repr([g[:] for g in got] if isinstance(got, list) else got), expected=[sim.surd(P) for P in y["pts"]], args=repr(a), sim=repr(sim))

    def k_ch(self, x, y):
        rnd = self.rnd
        X, h, d = y["x"], y["h"], y["d"]
        for sim in sims(rnd, self.reps):
            if rnd.random() < .7:      # large circles are made smaller
                sim = Sim(sim.s * 10 ** rnd.uniform(-1, 1) / max(1, rnd.choice([h or 1, math.sqrt(y["s"]), y["s"]])), sim.th, rnd.choice([0.0, sim.tx]), rnd.choice([0.0, sim.ty]))
            ext = sim.ext(2 * max(y["r"], y["s"], abs(d)))
            noise = 4e-15 * ext * ext
            H = h * sim.s
            p, q, r, s = sim.pt((0, 0)), sim.pt((d, 0)), y["r"] * sim.s, y["s"] * sim.s
            exp = [sim.pt((X, h))[:], sim.pt((X, -h))[:]]
            tol = 1e-9 * ext + noise / H
            if H * H < 4e-8 + 50 * noise or tol > H / 50:
                self.skipped += 1
                continue
            v = sim.dir((0, 1), 10 ** rnd.uniform(-3, 3) / sim.s)
            on = lambda k: sim.pt((X, k * h))
            runs = [("cl_int", cl_int, (p, r, on(k), v * g), exp) for k in (0, 3) for g in (1, -1)] + [("cr_int", cr_int, (p, r, on(k), v), exp[:n]) for k, n in ((-2, 2), (-.5, 1), (.5, 1), (2, 0))]
            if abs(d) * sim.s > 1e-3:
                # the squared half chord is found from a difference divided by the distance of the centres
                n2 = noise * (1 + max(y["r"], y["s"]) ** 2 / d ** 2)
                t2 = 1e-9 * ext * (1 + max(y["r"], y["s"]) / abs(d)) + n2 / H
                if H * H > 4e-8 + 50 * n2 and t2 < H / 50:
                    runs += [("cc_int", cc_int, (p, r, q, s), exp, t2), ("cc_int", cc_int, (q, s, p, r), exp, t2)]
            for run in runs:
                name, fn, a, want = run[:4]
                ok, got = self.run(fn, x, name, *a)
                if ok and not same_points(got, want, run[4] if len(run) > 4 else tol):
                    self.bad(x, name + " is wrong", got=repr([g[:] for g in got] if isinstance(got, list) else got), expected=repr(want), args=repr(a), sim=repr(sim))

    k_ln = k_ch

    # ---- tolerant comparisons
    def tolargs(self, x, u):
        """ways to pass the tolerances of the case"""
        if x.get("fam") == "dec":
            forms = []
            if x["d"] == "both":
                forms += [((), {}), ((), dict(rel_tol=1e-5, abs_tol=1e-8)), ((1e-5,), {}), ((), dict(abs_tol=1e-8)), ((None, 1e-8), {})]
            elif x["d"] == "abs":       # default absolute, given relative tolerance
                forms += [((x["rn"] / x["rd"],), {}), ((), dict(rel_tol=x["rn"] / x["rd"]))]
            else:                       # default relative, given absolute tolerance
                forms += [((), dict(abs_tol=x["An"] * u)), ((None, x["An"] * u), {})]
            return forms
        at, rt = x["An"] / x["Ad"] * u, x["rn"] / x["rd"]
        return [((rt, at), {}), ((), dict(rel_tol=rt, abs_tol=at)), ((rt,), dict(abs_tol=at))]

    def unit(self, x):
        return 10.0 ** -x["e"] if x.get("fam") == "dec" else 2.0 ** x["e"]

    def val(self, x, n):
        return n / 10 ** x["e"] if x.get("fam") == "dec" else n * 2.0 ** x["e"]

    def k_sc(self, x, y):
        u = self.unit(x)
        dec = x.get("fam") == "dec"
        a, b = self.val(x, x["a"]), self.val(x, x["b"])
        if self.rnd.random() < .5:
            if a == int(a):
                a = int(a)
            if b == int(b):
                b = int(b)
        if self.rnd.random() < .3:
            # other kinds of numbers, of the very same value
            kind = self.rnd.choice([Decimal, Fraction, np.float64])
            a, b = self.rnd.choice([(kind(a), kind(b)), (kind(a), b), (a, kind(b))]) if kind is not Decimal else (kind(a), kind(b))
        for ar, kw in self.tolargs(x, u):
            if not (dec and y["edge"]):
                for k, fn in (("eq", Scalar.tol_eq), ("lt", Scalar.tol_lt), ("gt", Scalar.tol_gt), ("le", Scalar.tol_le), ("ge", Scalar.tol_ge)):
                    ok, r = self.run(fn, x, "tol_" + k, a, b, *ar, **kw)
                    if ok and bool(r) != y["c"][k]:
                        self.bad(x, "tol_%s is wrong" % k, got=r, a=a, b=b, tolerances=repr((ar, kw)))
            else:
                self.skipped += 1
            if not (dec and y["zedge"]):
                ok, r = self.run(Scalar.tol_zero, x, "tol_zero", a, *ar, **kw)
                if ok and bool(r) != y["z"]:
                    self.bad(x, "tol_zero is wrong", got=r, a=a, tolerances=repr((ar, kw)))

    def k_vc(self, x, y):
        u = self.unit(x)
        dec = x.get("fam") == "dec"
        a, b = V(*[self.val(x, n) for n in x["u"]]), V(*[self.val(x, n) for n in x["w"]])
        if not (dec and y["edge"]):
            for ar, kw in self.tolargs(x, u):
                for k in ("eq", "lt", "gt", "le", "ge"):
                    fn = getattr(a, "tol_" + k)
                    ok, r = self.run(lambda p, q, *l, **m: getattr(p, "tol_" + k)(q, *l, **m), x, "Vector.tol_" + k, a, b, *ar, **kw)
                    if ok and bool(r) != y["c"][k]:
                        self.bad(x, "Vector.tol_%s is wrong" % k, got=r, a=a[:], b=b[:], tolerances=repr((ar, kw)))
        else:
            self.skipped += 1
        for k, fn in (("xeq", lambda p, q: p == q), ("xlt", lambda p, q: p < q), ("xgt", lambda p, q: p > q), ("xle", lambda p, q: p <= q), ("xge", lambda p, q: p >= q)):
            ok, r = self.run(fn, x, "Vector comparison " + k, a, b)
            if ok and bool(r) != y["c"][k]:
                self.bad(x, "Vector comparison %s is wrong" % k, got=r, a=a[:], b=b[:])
        ok, r = self.run(lambda p, q: p != q, x, "Vector !=", a, b)
        if ok and bool(r) == y["c"]["xeq"]:
            self.bad(x, "Vector != is wrong", got=r, a=a[:], b=b[:])

    # ---- matrices
    def k_mat(self, x, y):
        rnd = self.rnd
        for ff, gf in ((0, 0), (1, 1), rnd.choice([(0, 1), (1, 0)])):
            f = rnd.choice([1.0, .5, 4.0]) if ff else 1
            g = rnd.choice([1.0, .25, 2.0, 1 / 64.]) if gf else 1
            A, B = self.matrix(x["A"], f), self.matrix(x["B"], g)
            eq = lambda M, E, k, tol=0: isinstance(M, Matrix) and [len(r) for r in M.elements] == [len(r) for r in E] and \
                all(abs(p - q * k) <= tol * max(1, abs(q * k)) for r, s in zip(M.elements, E) for p, q in zip(r, s))
            if (A.num_rows, A.num_cols, A.num_elements) != (len(x["A"]), len(x["A"][0]), len(x["A"]) * len(x["A"][0])):
                self.bad(x, "matrix sizes", got=[A.num_rows, A.num_cols])
            if y["mul"]:
                ok, r = self.run(lambda p, q: p * q, x, "Matrix product", A, B)
                if ok and not eq(r, y["mul"], f * g):
                    self.bad(x, "Matrix product is wrong", got=repr(r))
                self.apart(x, "Matrix product", r, A, B)
            else:
                e, _, _ = call(lambda: A * B)
                if not e or e == "Hang":
                    self.bad(x, "product of matrices that do not conform was not refused")
            dims = 2 if len(x["A"]) > 1 and len(x["A"][0]) > 1 else 1
            if A.num_dim != dims:
                self.bad(x, "number of dimensions", got=A.num_dim)
            if [len(x["A"]), len(x["A"][0])] != [2, 1]:
                e, _, _ = call(V, A)
                if not e or e == "Hang":
                    self.bad(x, "vector of a matrix that is no two-row column was not refused")
            ok, r = self.run(lambda p: p.transpose(), x, "transpose", A)
            if ok and not eq(r, y["tr"], f):
                self.bad(x, "transpose is wrong", got=repr(r))
            self.apart(x, "transpose", r, A)
            ok, r = self.run(Matrix.identity, x, "identity", len(y["id"]))
            if ok and not eq(r, y["id"], 1):
                self.bad(x, "identity is wrong", got=repr(r))
            self.apart(x, "identity", r)
            ok, r = self.run(Matrix.identity, x, "identity", len(y["id"]))
            if ok and not eq(r, y["id"], 1):
                self.bad(x, "an identity is not independent of another", got=repr(r))
            if not y["sq"]:
                e, _, _ = call(A.inverse)
                if not e or e == "Hang":
                    self.bad(x, "inverse of a matrix that is not square was not refused")
            elif y["det"]:
                # condition: integer entries of bounded size
                tol = 1e-13 * max(1.0, max(abs(v) for row in y["adj"] for v in row) * max(abs(v) for row in x["A"] for v in row) * len(x["A"]) ** 2)
                ok, r = self.run(lambda p: p.inverse(), x, "inverse", A)
                if ok and not eq(r, y["adj"], 1 / (y["det"] * f), tol):
                    self.bad(x, "inverse is wrong", got=repr(r))
                self.apart(x, "inverse", r, A)
                if y["sol"]:
                    ok, r = self.run(lambda p, q: p.solve(q), x, "solve", A, B)
                    if ok and not eq(r, y["sol"], g / (y["det"] * f), tol * max(1, big({"B": [v for row in x["B"] for v in row]}))):
                        self.bad(x, "solve is wrong", got=repr(r))
                    self.apart(x, "solve", r, A, B)
                # columns of very different sizes: A with column j times s[j] is solved by the solution with row j over s[j]
                s = [2.0 ** rnd.randint(-13, 13) for _ in x["A"]]
                wide = tol * max(s) / min(s) * max(1, big({"B": [v for row in x["B"] for v in row]}))
                S = Matrix([[v * k for v, k in zip(row, s)] for row in x["A"]])
                rows = lambda M: Matrix([[v * k for v in row] for row, k in zip(M.elements, s)]) if isinstance(M, Matrix) and len(M.elements) == len(s) else M
                ok, r = self.run(lambda p: p.inverse(), x, "inverse", S)
                if ok and not eq(rows(r), y["adj"], 1 / y["det"], wide):
                    self.bad(x, "inverse is wrong", got=repr(r), columns_times=s)
                if y["sol"]:
                    ok, r = self.run(lambda p, q: p.solve(q), x, "solve", S, B)
                    if ok and not eq(rows(r), y["sol"], g / y["det"], wide):
                        self.bad(x, "solve is wrong", got=repr(r), columns_times=s)
            if len(x["A"]) == 2 and len(x["A"][0]) == 1:
                ok, v = self.run(V, x, "Vector(Matrix)", A)
                if ok and [v.x, v.y] != [x["A"][0][0] * f, x["A"][1][0] * f]:
                    self.bad(x, "vector of a matrix", got=v[:])
                if ok:
                    ok, r = self.run(lambda p: p.transpose(), x, "Vector transpose", v)
                    if ok and not eq(r, y["tr"], f):
                        self.bad(x, "Vector transpose is wrong", got=repr(r))
                    self.apart(x, "Vector transpose", r, v)
                self.apart(x, "Vector(Matrix)", v, A)

    def k_rnd(self, x, y):
        """rounding: in place, every entry, nothing else"""
        rnd = self.rnd
        rows = [[v / 1e6 for v in row] for row in x["M"]]
        vec = len(rows) == 2 and len(rows[0]) == 1 and rnd.random() < .7
        A = V(rows[0][0], rows[1][0]) if vec else self.matrix([list(r) for r in rows], 1)
        src = V(A) if vec else Matrix(rows)
        p = x["p"]
        e, m, r = call(lambda: A.round() if x["def"] else A.round(p) if rnd.random() < .5 else A.round(precision=p))
        if e:
            self.bad(x, "round raised", got=m)
            return
        got = A.elements
        ok = [len(w) for w in got] == [len(w) for w in rows] and \
            all(t or close(g, v / 1e6, 1e-9) for a, b, c in zip(got, y["r"], y["tie"]) for g, v, t in zip(a, b, c))
        if not ok or vec and A[:] != [got[0][0], got[1][0]]:
            self.bad(x, "round is wrong", got=repr(got), precision=p)
        if src.elements != rows:
            self.bad(x, "rounding changed another matrix", got=repr(src.elements))

    def matrix(self, M, k):
        """a matrix, sometimes one that held something else (and was used) before"""
        rnd = self.rnd
        rows = [[v * k for v in row] for row in M]
        if rnd.random() < .6:
            return Matrix(rows)
        n = len(rows)
        r = Matrix([[rnd.randint(1, 5) + 10 * (i == j) for j in range(len(row))] for i, row in enumerate(rows)])
        (r.transpose(), r * r.transpose(), repr(r), r.num_rows, r.num_cols, r.num_dim, r.num_elements)
        if n == len(rows[0]):
            (r.inverse(), r.solve(Matrix([[1.0] for _ in rows])))
        if rnd.random() < .5:
            r.elements = rows
        else:
            for i, row in enumerate(rows):
                r.elements[i][:] = row
        return r

    def apart(self, x, what, r, *ops):
        """a result shares nothing with the operands"""
        if not isinstance(r, Matrix):
            return
        before = [frozen(o) for o in ops]
        try:
            for row in r.elements:
                for i in range(len(row)):
                    row[i] = 777.0
        except TypeError:
            return
        if [frozen(o) for o in ops] != before:
            self.bad(x, what + " shares its elements with an operand")

    def k_hcs(self, x, y):
        for sim in (sims(self.rnd, self.reps) if not x["e"] else [Sim(10.0 ** -x["e"], 0, 0.0, 0.0)]):
            if x["e"] and not y["clear"]:
                self.skipped += 1
                continue
            a, b = sim.pt(x["a"]), sim.pt(x["b"])
            for scaled in (False, True):
                if scaled and self.rnd.random() < .5:
                    ok, r = self.run(lambda p, q: make_hcs(p, q, scale=True), x, "make_hcs(scale)", a, b)
                else:
                    ok, r = self.run(make_hcs_scaled if scaled else make_hcs, x, "make_hcs", a, b)
                if not ok:
                    continue
                if (r is None) != y["none"]:
                    self.bad(x, "make_hcs: None exactly for coinciding points", got=repr(r), sim=repr(sim))
                elif r is not None:
                    k = 1 if scaled else 1 / (math.sqrt(y["l"]) * sim.s)
                    u, v = sim.vec(y["u"][0] * k, y["u"][1] * k), sim.vec(y["v"][0] * k, y["v"][1] * k)
                    E = [[u[0], v[0], a.x], [u[1], v[1], a.y], [0, 0, 1]]
                    tol = 1e-9 * max(1, math.hypot(*u)) + 1e-13 * sim.ext(big(x)) / (sim.s * math.sqrt(y["l"])) * max(1, math.hypot(*u))
                    if not isinstance(r, Matrix) or not all(abs(p - q) <= tol for s, t in zip(r.elements, E) for p, q in zip(s, t)) or [len(s) for s in r.elements] != [3, 3, 3]:
                        self.bad(x, "make_hcs is wrong", got=repr(r), expected=E, scaled=scaled, sim=repr(sim))
                    self.apart(x, "make_hcs", r, a, b)

    def k_cst(self, x, y):
        for sim in sims(self.rnd, self.reps):
            a, b, c, d = (sim.pt(x[k]) for k in "abcd")
            if sim.ext(10) > 300:
                self.skipped += 1
                continue
            for s1 in (False, True):
                for s2 in (False, True):
                    f, t = make_hcs(a, b, s1), make_hcs(c, d, s2)
                    ok, T = self.run(cs_transform_matrix, x, "cs_transform_matrix", f, t)
                    if not ok:
                        continue
                    k = (1 / y["l1"] if s1 else 1 / math.sqrt(y["l1"]) * sim.s) * (1 if s2 else 1 / math.sqrt(y["l2"]) / sim.s)
                    z = complex(*y["t"]) * k
                    o = complex(c.x, c.y) - z * complex(a.x, a.y)
                    E = [[z.real, -z.imag, o.real], [z.imag, z.real, o.imag], [0, 0, 1]]
                    tol = 1e-9 * (1 + abs(z)) * (1 + sim.ext(10)) * (1 + 1 / sim.s)
                    if not isinstance(T, Matrix) or not all(abs(p - q) <= tol for r, s in zip(T.elements, E) for p, q in zip(r, s)) or [len(r) for r in T.elements] != [3, 3, 3]:
                        self.bad(x, "cs_transform_matrix is wrong", got=repr(T), expected=E, scaled=[s1, s2], sim=repr(sim))
                    self.apart(x, "cs_transform_matrix", T, f, t)

    # ---- vectors
    def k_vec(self, x, y):
        rnd = self.rnd
        for s in [1.0] + [2.0 ** (rnd.randint(-6, 6) if rnd.random() < .6 else rnd.choice([-60, -30, -24, -18, -12, -9, 12, 24, 40])) for _ in range(self.reps - 1)]:
            a, b, n = V(x["u"][0] * s, x["u"][1] * s), V(x["w"][0] * s, x["w"][1] * s), x["n"] * s
            if s == 1.0 and rnd.random() < .5:
                a, b, n = V(*x["u"]), V(*x["w"]), x["n"]
            T = [("+", lambda p, q: p + q, b, y["add"], s), ("-", lambda p, q: p - q, b, y["sub"], s), ("*", lambda p, q: p * q, b, y["mul"], s * s),
                 ("+ number", lambda p, q: p + q, n, y["adk"], s), ("- number", lambda p, q: p - q, n, y["sbk"], s), ("* number", lambda p, q: p * q, n, y["mlk"], s * s)]
            if x["w"][0] and x["w"][1]:
                T.append(("/", lambda p, q: p / q, b, [x["u"][0] / x["w"][0], x["u"][1] / x["w"][1]], 1))
            if x["n"]:
                T.append(("/ number", lambda p, q: p / q, n, [x["u"][0] / x["n"], x["u"][1] / x["n"]], 1))

            def aug(op):
                def f(p, q):
                    r = p
                    if op == 0:
                        r += q
                    elif op == 1:
                        r -= q
                    elif op == 2:
                        r *= q
                    return r
                return f
            T += [("+=", aug(0), b, y["add"], s), ("-=", aug(1), b, y["sub"], s), ("*=", aug(2), n, y["mlk"], s * s)]
            for name, fn, o, e, k in T:
                ok, r = self.run(fn, x, "Vector " + name, a, o)
                if ok and (not isinstance(r, Vector) or [r.x, r.y] != [e[0] * k, e[1] * k] or r[:] != [r.x, r.y] or [r[0], r[1]] != r[:]):
                    self.bad(x, "Vector %s is wrong" % name, got=repr(r), a=a[:], b=o if not isinstance(o, Vector) else o[:])
                self.apart(x, "Vector " + name, r, a, *([o] if isinstance(o, Vector) else []))
            ok, r = self.run(lambda p: -p, x, "Vector negation", a)
            if ok and [r.x, r.y] != [y["neg"][0] * s, y["neg"][1] * s]:
                self.bad(x, "Vector negation is wrong", got=repr(r), a=a[:])
            self.apart(x, "Vector negation", r, a)
            at = [v * s for v in y["at"]]
            for i in (0, 1, -1, -2, slice(rnd.choice([None, 0, 1, -1, 2, 5]), rnd.choice([None, 0, 1, 2, -1, 9]), rnd.choice([None, 1, 2, -1]))):
                ok, r = self.run(lambda p: p[i], x, "list-style access", a)
                if ok and r != at[i]:
                    self.bad(x, "list-style access is wrong", got=repr(r), at=repr(i), a=[a.x, a.y])
                if ok and isinstance(r, list) and r:
                    r[0] += 1000
                    if [a.x, a.y] != at:
                        self.bad(x, "a slice of a vector is not independent of it", got=[a.x, a.y])
            for f in (a.append_row, a.append_col):
                e, _, _ = call(f, [1.0])
                if not e or e == "Hang" or [a.x, a.y] != at or [a.num_rows, a.num_cols] != [2, 1]:
                    self.bad(x, "a vector was extended", got=repr(a.elements))
            ok, r = self.run(lambda p, q: p.dot(q), x, "dot", a, b)
            if ok and r != y["dot"] * s * s:
                self.bad(x, "dot is wrong", got=r, a=a[:], b=b[:])
            ok, r = self.run(lambda p: p.length, x, "length", a)
            if ok and not close(r, math.sqrt(y["len"]) * s, 1e-12 * s * 10):
                self.bad(x, "length is wrong", got=r, a=a[:])
            ok, r = self.run(distance_2p, x, "distance_2p", a, b)
            if ok and not close(r, math.sqrt(y["dst"]) * s, 1e-12 * s * 10):
                self.bad(x, "distance_2p is wrong", got=r, a=a[:], b=b[:])
            ok, az = self.run(lambda p: p.azimuth, x, "azimuth", a)
            if ok and y["len"]:
                L = math.sqrt(y["len"])
                if not (-180 <= az <= 180 and close(math.cos(math.radians(az)) * L, x["u"][0], 1e-9 * L) and close(math.sin(math.radians(az)) * L, x["u"][1], 1e-9 * L)):
                    self.bad(x, "azimuth is wrong", got=az, a=a[:])
            for name in ("is_positive", "is_negative"):
                ok, r = self.run(lambda p: getattr(p, name)(), x, name, a)
                if ok and bool(r) != y["pos" if name == "is_positive" else "neg2"]:
                    self.bad(x, name + " is wrong", got=r, a=a[:])
            for mk, src in ((V, a), (lambda m: V(m), Matrix([[a.x], [a.y]]))):
                ok, r = self.run(mk, x, "Vector copy", src)
                if ok and (not isinstance(r, Vector) or [r.x, r.y] != [a.x, a.y] or r is src):
                    self.bad(x, "Vector copy is wrong", got=repr(r))
                if ok:
                    r.x, r.y = 55, -66
                    if [r.x, r.y] != [55, -66] or [src.elements[0][0], src.elements[1][0]] != [a.x, a.y] or a[:] != [x["u"][0] * s, x["u"][1] * s]:
                        self.bad(x, "Vector copy is not independent", got=repr(src))

        ok, o = self.run(lambda: (Vector.origin(), Vector.origin()), x, "origin")
        if ok:
            o[0].x, o[0].y = 7, x["n"]
            if o[1][:] != [0, 0] or Vector.origin()[:] != [0, 0]:
                self.bad(x, "origin is not an independent vector", got=repr(o))
            o[0].x = o[0].y = 0      # (leave no trace in what may be shared)

    def k_rot(self, x, y):
        rnd = self.rnd
        for s in [1.0] + [rnd.choice([.5, 3.0, .1, 100.0]) for _ in range(self.reps - 1)]:
            a = V(x["u"][0] * s, x["u"][1] * s)
            deg = 90 * x["n"] + 360 * rnd.choice([0, 0, 1, -2, 5])
            if x["g"][1] or x["g"][0] < 0:
                deg += math.degrees(math.atan2(x["g"][1], x["g"][0]))
            arg = rnd.choice([deg, float(deg), str(deg)]) if rnd.random() < .1 else deg
            ok, r = self.run(lambda p, d: p.rotate(d), x, "rotate", a, arg)
            k = s / math.sqrt(y["g"])
            tol = 1e-10 * s * math.sqrt(y["len"] + 1)
            if ok and (not isinstance(r, Vector) or not close(r.x, y["r"][0] * k, tol) or not close(r.y, y["r"][1] * k, tol)):
                self.bad(x, "rotate is wrong", got=repr(r), a=a[:], degrees=arg, expected=[y["r"][0] * k, y["r"][1] * k])
            self.apart(x, "rotate", r, a)
            # and a little further
            d = rnd.choice([1e-9, 1e-6, 1e-4, .003, .02, .4]) * rnd.choice([1, -1])
            ok2, r2 = self.run(lambda p, d: p.rotate(d), x, "rotate", a, deg + d)
            c, t = math.cos(math.radians(d)), math.sin(math.radians(d))
            X, Y = y["r"][0] * k, y["r"][1] * k
            if ok2 and (not isinstance(r2, Vector) or not close(r2.x, X * c - Y * t, tol) or not close(r2.y, X * t + Y * c, tol)):
                self.bad(x, "rotate is wrong", got=repr(r2), a=a[:], degrees=deg + d, after=deg)


def frozen(o):
    if isinstance(o, Matrix):
        return (type(o).__name__, repr([[repr(v) for v in row] for row in o.elements]))
    if isinstance(o, dict):
        return [(id(k), id(v), frozen(v)) for k, v in o.items()]
    return repr(o)


def large():
    """shapes beyond what the model enumerates: identity laws on large matrices"""
    mism, n = [], 0
    for m in (5, 40, 255, 256, 257, 300):
        n += 1

        def go():
            I = Matrix.identity(m)
            D = Matrix([[float((i + 2) if i == j else 0) for j in range(m)] for i in range(m)])
            R = Matrix([[float(i) for i in range(m)]])
            ok = (I * R.transpose()).elements == [[float(i)] for i in range(m)] and (R * I).elements == R.elements
            inv = D.inverse().elements
            return ok and all(abs(inv[i][i] - 1.0 / (i + 2)) < 1e-12 for i in range(m)) and inv[0][m - 1] == 0
        e, _, r = call(go, seconds=60)
        if e or not r:
            mism.append({"case": {"size": m}, "what": "large matrix: " + (e or "wrong result")})
    return n, mism


def main(cfg):
    R = Replay(cfg)
    lines = 0
    with open(cfg["file"]) as f:
        for i, line in enumerate(f):
            if i % cfg["parts"] != cfg["part"]:
                continue
            d = json.loads(line)
            lines += 1
            R.case(d["x"], d["y"])
    if cfg["prop"] == "P05" and cfg["part"] == 0:
        n, m = large()
        R.n += n
        R.mism += m
    return {"cases": lines, "calls": R.n, "skipped": R.skipped, "mismatches": R.mism}


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("debug" if cfg.get("debug") else "off")
    emit(cfg["out"], main(cfg))
