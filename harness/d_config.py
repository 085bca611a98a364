"""Drives real configurations: replays expectations (cases) and records histories (random)."""
import sys, os, json, random, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from d_geom import Sim, frozen, V
from solver.geometry import Matrix
from solver.geometric.configuration import Configuration


def snap(c):
    """everything observable about a configuration, exactly"""
    def at(v):
        try:
            return c.get(v).x, c.get(v).y
        except Exception as x:
            return "no point: " + type(x).__name__
    return (len(list(c.vars())), {v: at(v) for v in c.vars()}, bool(c.underconstrained), hash(c))


def rsims(rnd, n, small=-4):
    out = [(Sim(1.0, 0.0, 0.0, 0.0), Sim(1.0, 0.0, 0.0, 0.0))]
    for _ in range(n - 1):
        s = rnd.choice([1.0, 1.0, .5, 4.0, rnd.uniform(.1, 20), 10 ** rnd.uniform(small, -1), 10 ** rnd.uniform(1, 3)])
        th = lambda: rnd.choice([0.0, math.pi / 2, math.pi, rnd.uniform(0, 7)])
        t = lambda: rnd.choice([0.0, float(rnd.randint(-9, 9)), rnd.uniform(-10, 10)])
        out.append((Sim(s, th(), t(), t()), Sim(s, th(), t(), t())))
    return out


class Cases:
    def __init__(self, cfg):
        self.rnd = random.Random(cfg["seed"])
        self.prop, self.reps = cfg["prop"], cfg.get("reps", 2)
        self.n, self.skipped, self.mism = 0, 0, []

    def bad(self, prop, x, what, **k):
        if prop == self.prop and len(self.mism) < 40:
            self.mism.append(dict(case={"a": x["a"]["m"], "b": x["b"]["m"]}, what=what, **{a: b if isinstance(b, (int, float, str, list, bool)) else repr(b) for a, b in k.items()}))

    def make(self, m, sim, N, jitter=0.0):
        rnd = self.rnd
        d = {}
        for n, px, py in rnd.sample(m, len(m)):
            p = sim.pt((px, py))
            if jitter:
                p = V(p.x + rnd.uniform(-jitter, jitter), p.y + rnd.uniform(-jitter, jitter))
            d[N.o(n)] = p
        src = mapping(rnd, d)
        self.n += 1
        e, _, c = call(Configuration, src)
        if e:
            self.bad(self.prop, {"a": {"m": m}, "b": {"m": []}}, "constructor raised " + e)
            return None, d
        src[N.o(1) if N.o(1) not in src else object()] = V(123, 456)
        if len(src) % 2:
            src.clear()
        return c, d

    def same(self, x, c, d, what):
        """c has exactly the points d"""
        e, _, r = call(lambda: (len(list(c.vars())), {v for v in c.vars()}, all(v in d for v in c.vars()), all((c.get(v).x, c.get(v).y) == (d[v].x, d[v].y) for v in c.vars() if v in d)))
        return not e and r[0] == len(d) and len(r[1]) == len(d) and r[2] and r[3]

    def case(self, x, y):
        rnd = self.rnd
        nm = max([r[0] for r in x["a"]["m"] + x["b"]["m"]] + [3])
        for sa, sb in rsims(rnd, self.reps, -4 if self.prop == "F01" else -6):
            objs = list(rnd.choice(name_palettes(nm)))
            rnd.shuffle(objs)
            N = Names(objs[:nm], rnd)
            (a, da), (b, db) = self.make(x["a"]["m"], sa, N), self.make(x["b"]["m"], sb, N)
            if a is None or b is None:
                return
            a.underconstrained, b.underconstrained = x["a"]["f"], x["b"]["f"]
            s0 = snap(a), snap(b)
            if self.prop == "F01":
                self.equality(x, y, a, b, sa, sb, N)
            elif self.prop in ("F02", "F03"):
                self.merge(x, y, a, b, da, db, sa, sb, N)
            else:
                self.derived(x, y, a, b, da, db, N)
            s1 = snap(a), snap(b)
            if s0 != s1:
                self.bad("F04", x, "an operand changed")
                if [s[2] for s in s0] != [s[2] for s in s1]:
                    self.bad("F03", x, "the flag of an operand changed")

    def equality(self, x, y, a, b, sa, sb, N):
        rnd = self.rnd
        self.n += 4
        e, _, r = call(lambda: (a == b, b == a, a != b, a == a, hash(a) == hash(b)))
        if e:
            return self.bad("F01", x, "comparison raised " + e)
        if bool(r[0]) != y["eq"] or bool(r[1]) != y["eq"] or bool(r[2]) == y["eq"]:
            self.bad("F01", x, "equality is wrong", got=list(map(bool, r)), expected=y["eq"], simA=sa, simB=sb, names=N.objs)
        if not r[3]:
            self.bad("F01", x, "a configuration differs from itself")
        if y["vars"] and not r[4]:
            self.bad("F01", x, "hashes differ for the same variables", names=N.objs)
        if y["eq"]:
            e, _, r = call(lambda: (b in {a}, len({a, b}), b in [a]))
            if e or r != (True, 1, True):
                self.bad("F01", x, "equal configurations are not interchangeable in collections", got=r)
            # a point moved along the line to another point changes a distance
            m = x["b"]["m"]
            cand = [(p, q) for p in m for q in m if p[1:] != q[1:]]
            if cand:
                p, q = rnd.choice(cand)
                eps = rnd.choice([1e-6, 1e-5, 1e-3]) * rnd.choice([1, -1])
                d = {v: V(b.get(v).x, b.get(v).y) for v in b.vars()}
                P, Q = d[N.o(p[0])], d[N.o(q[0])]
                L = math.hypot(P.x - Q.x, P.y - Q.y)
                d[N.o(p[0])] = V(P.x + (P.x - Q.x) / L * eps, P.y + (P.y - Q.y) / L * eps)
                e, _, r = call(lambda: (a == Configuration(d), Configuration(d) == a))
                if e or r != (False, False):
                    self.bad("F01", x, "a point moved by %g and still equal" % eps, got=r, simA=sa, simB=sb, names=N.objs)
            # and coordinates that differ by next to nothing do not
            if all(abs(c) <= 4 for row in m for c in row[1:]) and sb.s == 1.0:
                c, _ = self.make(m, sb, N, jitter=1e-11)
                e, _, r = call(lambda: (a == c, c == a))
                if e or r != (True, True):
                    self.bad("F01", x, "rounding made configurations different", got=r, simA=sa, simB=sb, names=N.objs)

    def merge(self, x, y, a, b, da, db, sa, sb, N):
        self.n += 1
        e, _, r = call(a.merge, b)
        if e:
            self.bad("F02", x, "merge raised " + e)
            return self.bad("F03", x, "merge raised " + e)
        try:
            c, under = r
            flag = c.underconstrained
        except Exception:
            self.bad("F02", x, "merge returned something else")
            return self.bad("F03", x, "merge returned something else")
        if bool(under) != y["under"] or bool(flag) != y["under"]:
            self.bad("F03", x, "underconstrained flag", got=[bool(under), bool(flag)], expected=y["under"], flags=[x["a"]["f"], x["b"]["f"]], names=N.objs)
        e, _, k = call(lambda: c.copy().underconstrained)
        if e or bool(k) != bool(flag):
            self.bad("F03", x, "a copy lost the flag")
        want = {N.o(r[0]) for r in x["a"]["m"] + x["b"]["m"]}
        if set(c.vars()) != want or len(list(c.vars())) != len(want):
            return self.bad("F02", x, "variables of the merged configuration")
        if any((c.get(v).x, c.get(v).y) != (da[v].x, da[v].y) for v in da):
            self.bad("F02", x, "a point of the first configuration moved")
        K = y["bonly"]
        got = {k: (c.get(N.o(k)).x, c.get(N.o(k)).y) for k in K}
        ext = max([80] + [abs(c) for m in (x["a"]["m"], x["b"]["m"]) for r in m for c in r[1:]]) * sa.s + abs(sa.tx) + abs(sa.ty) + abs(sb.tx) + abs(sb.ty)
        tol = 1e-9 * ext
        pos = {r[0]: r[1:] for r in x["a"]["m"]}
        if y["refs"]:
            def fits(ref):
                k = 1 / math.sqrt(ref["c"])
                for n, wx, wy in ref["w"]:
                    p = sa.pt((pos[ref["i"]][0] + wx * k, pos[ref["i"]][1] + wy * k))
                    if abs(p.x - got[n][0]) > tol or abs(p.y - got[n][1]) > tol:
                        return False
                return True
            if not any(fits(r) for r in y["refs"]):
                self.bad("F02", x, "the other configuration's points are in the wrong place", got=[[k, got[k][0], got[k][1]] for k in K], simA=sa, simB=sb, names=N.objs)
        else:
            d2 = {(i, j): d for i, j, d in y["pairs"]}
            ar = {(i, j, k): d for i, j, k, d in y["triples"]}
            sub = lambda p, q: (p[0] - q[0], p[1] - q[1])

            def rigid(P):
                for i in P:
                    for j in P:
                        u = sub(P[j], P[i])
                        if abs(math.hypot(*u) - sa.s * math.sqrt(d2[i, j])) > tol:
                            return False
                        for k in P:
                            v = sub(P[k], P[j])
                            if abs(u[0] * v[1] - u[1] * v[0] - ar[i, j, k] * sa.s ** 2) > tol * ext:
                                return False
                return True
            anchors = [{**got, s: tuple(sa.pt(pos[s])[:])} for s in y["shared"]] if y["shared"] else [got]
            if not any(rigid(P) for P in anchors):
                self.bad("F02", x, "the other configuration was not moved rigidly onto the first", got=[[k, got[k][0], got[k][1]] for k in K], simA=sa, simB=sb, names=N.objs)

    def derived(self, x, y, a, b, da, db, N):
        rnd = self.rnd
        self.n += 4
        e, _, c = call(a.add, b)
        want = dict(db)
        want.update(da)
        if e or not self.same(x, c, want, "add"):
            self.bad("F04", x, "add is wrong", err=e)
        names = [N.o(i) if i <= len(N.objs) else object() for i in x["s"]]
        arg = collection(rnd, names, True)
        was = list(arg) if hasattr(arg, "__len__") else None
        e, _, c = call(a.select, arg)
        if was is not None and (len(was) != len(arg) or any(p is not q for p, q in zip(was, arg))):
            self.bad("F04", x, "selecting changed the collection of variables it was given")
        if y["sel"] == [-1]:
            if not e or e == "Hang":
                self.bad("F04", x, "selecting an unknown variable was not refused")
        elif e or not self.same(x, c, {N.o(i): da[N.o(i)] for i in y["sel"]}, "select"):
            self.bad("F04", x, "select is wrong", err=e)
        e, _, c = call(a.copy)
        if e or not self.same(x, c, da, "copy") or c is a or bool(c.underconstrained) != bool(a.underconstrained):
            self.bad("F04", x, "copy is wrong", err=e)
        elif call(lambda: (c == a, a == c))[2] != (True, True):
            self.bad("F04", x, "copy is not equal")
        if all(t[3] for t in y["tr"]) and all(da[N.o(r[0])][:] == [float(r[1]), float(r[2])] for r in x["a"]["m"]):
            k = rnd.choice([1, 1.0, .5, 3.0])
            T = Matrix([[v * k for v in row] for row in x["t"]])
            f0 = frozen(T)
            e, _, c = call(a.transform, T)
            ok = not e and set(c.vars()) == set(da) and len(list(c.vars())) == len(da)
            for n, X, Y, W in y["tr"] if ok else ():
                p = c.get(N.o(n))
                if abs(p.x - X / W) > 1e-9 * (1 + abs(X / W)) or abs(p.y - Y / W) > 1e-9 * (1 + abs(Y / W)):
                    ok = False
            if not ok:
                self.bad("F04", x, "transform is wrong", err=e, matrix=repr(x["t"]))
            if frozen(T) != f0:
                self.bad("F04", x, "transform changed the matrix")


def cases(cfg):
    C = Cases(cfg)
    lines = 0
    with open(cfg["file"]) as f:
        for i, line in enumerate(f):
            if i % cfg["parts"] != cfg["part"]:
                continue
            d = json.loads(line)
            lines += 1
            C.case(d["x"], d["y"])
    return {"cases": lines, "calls": C.n, "mismatches": C.mism}


# ---- histories
class Mimic:
    """has a configuration's hash and mapping, and is none"""
    def __init__(self, c):
        self.c, self.mapping = c, {v: c.get(v) for v in c.vars()}

    def __hash__(self):
        return hash(self.c)


def alien(rnd, c):
    """something that is no configuration"""
    return rnd.choice([lambda: None, lambda: hash(c), lambda: {v: c.get(v) for v in c.vars()}, list, lambda: str(c), object, lambda: Mimic(c), lambda: (), lambda: 0, lambda: 1.5])()


def observe(N, c):
    m, ok = [], True
    for v in c.vars():
        p = c.get(v)
        px, py = p.x, p.y
        if not (math.isfinite(px) and math.isfinite(py)):
            px = py = 99999
        ix, iy = int(round(px)), int(round(py))
        if abs(ix - px) > 1e-7 or abs(iy - py) > 1e-7 or abs(ix) > 20000 or abs(iy) > 20000:
            ok = False
            # keep any change visible
            ix, iy = int(round(px * 1e4)) % 100000 + 100000, int(round(py * 1e4)) % 100000 + 100000
        m.append([N.i(v), ix, iy])
    return {"m": m, "f": bool(c.underconstrained), "ok": ok}


def histories(cfg):
    out = []
    TURN = [[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]]
    for hno in range(cfg["n"]):
        rnd = random.Random("%s/%d" % (cfg["seed"], hno))
        objs = list(rnd.choice(name_palettes()))
        rnd.shuffle(objs)
        n = rnd.choice([2, 3, 4, 6])
        N = Names(objs[:n], rnd)
        # all configurations are excerpts of a few layouts, turned and shifted, with some points misplaced
        lay = [{i: [rnd.randint(-3, 3), rnd.randint(-3, 3)] for i in range(1, n + 1)} for _ in range(2)]
        if rnd.random() < .4:
            lay[0] = {i: list(rnd.choice([lay[0][1], [2, 1]])) for i in lay[0]}
        live, keep, evs = [], [], []
        broken = False
        for step in range(cfg["length"]):
            o = rnd.choice(["new"] * 2 + ["merge"] * 5 + ["copy", "add", "select", "transform", "eq", "eq", "alien"]) if live else "new"
            if len(live) >= 7 and o not in ("eq", "alien"):
                break
            i, j = (rnd.randrange(len(live)), rnd.randrange(len(live))) if live else (0, 0)
            e = {"o": o, "i": i + 1, "j": j + 1, "err": "", "r": False, "hash": True, "v": [], "t": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "src": True}
            src, before = None, None
            mk = None
            if o == "new":
                L = rnd.choice(lay)
                vs = rnd.sample(range(1, n + 1), rnd.randint(0 if rnd.random() < .1 else 1, n))
                R, t = rnd.choice(TURN), [rnd.randint(-5, 5), rnd.randint(-5, 5)]
                pts = {v: [R[0][0] * L[v][0] + R[0][1] * L[v][1] + t[0], R[1][0] * L[v][0] + R[1][1] * L[v][1] + t[1]] for v in vs}
                if vs and rnd.random() < .2:
                    pts[rnd.choice(vs)][rnd.randrange(2)] += rnd.choice([1, -1, 2])
                e["v"] = [[v] + pts[v] for v in vs]
                src = mapping(rnd, {N.o(v): V(*pts[v]) for v in vs})
                before = [(k, p, p.x, p.y) for k, p in src.items()]
                mk = lambda: Configuration(src)
            elif o == "copy":
                mk = lambda: live[i].copy()
            elif o == "add":
                mk = lambda: live[i].add(live[j])
            elif o == "merge":
                mk = lambda: live[i].merge(live[j])
            elif o == "select":
                e["v"] = [N.i(v) for v in live[i].vars() if rnd.random() < .6] + ([rnd.randint(1, n)] if rnd.random() < .3 else [])
                mk = lambda: live[i].select([N.o(v) for v in e["v"]])
            elif o == "transform":
                R, w = rnd.choice(TURN), rnd.choice([1, 1, -1])
                e["t"] = [[R[0][0] * w, R[0][1] * w, rnd.randint(-4, 4) * w], [R[1][0] * w, R[1][1] * w, rnd.randint(-4, 4) * w], [0, 0, w]]
                T = Matrix([[float(c) for c in r] for r in e["t"]])
                mk = lambda: live[i].transform(T)
            elif o == "alien":
                A = alien(rnd, live[i])
                mk = lambda: (live[i] == A, A == live[i], not live[i] != A, live[i] in [A])
            elif o == "eq":
                mk = lambda: (live[i] == live[j], hash(live[i]) == hash(live[j]))
            err, hang, r = call(mk)
            e["err"] = err
            if not err:
                if o == "alien":
                    e["r"] = any(r)
                elif o == "eq":
                    e["r"], e["hash"] = bool(r[0]), bool(r[1])
                else:
                    if o == "merge":
                        try:
                            r, e["r"] = r[0], bool(r[1])
                        except Exception:
                            e["err"], r = "NotAPair", None
                    if r is not None:
                        live.append(r)
            err, _, s = call(lambda: [observe(N, c) for c in live])
            if err:
                e["err"], s = "Observe" + err, []
                broken = True
            e["snap"] = s
            if src is not None:
                e["src"] = len(before) == len(src) and all(k in src and src[k] is p and (p.x, p.y) == (px, py) for k, p, px, py in before)
                if rnd.random() < .5:
                    src.clear()
            evs.append(e)
            if broken or e["err"] and o != "select" or s and not s[-1]["ok"]:
                break
        out.append(evs)
    return out


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("debug" if cfg.get("debug") else "off")
    emit(cfg["out"], {"cases": cases, "random": histories}[cfg["mode"]](cfg))
