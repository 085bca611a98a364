"""Drives real clusters and relations."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from solver.geometric.cluster import *
from solver.geometric.relation import *

TYPES = {"R": Rigid, "H": Hedgehog, "B": Balloon}


# somebody's own kinds of cluster and relation
class Body(Rigid):
    pass


class Fan(Hedgehog):
    pass


class Blob(Balloon):
    pass


class Length(Distance):
    pass


class Corner(Angle):
    pass


OWN = {"R": Body, "H": Fan, "B": Blob}


def build(N, t, c, x, rnd):
    pts = [N.o(i) for i in x]
    rnd.shuffle(pts)
    if rnd.random() < .3 and pts:
        pts.append(rnd.choice(pts))
    arg = rnd.choice([list, tuple, set, frozenset, iter])(pts)
    cls = (OWN if rnd.random() < .25 else TYPES)[t]
    return cls(N.o(c), arg) if t == "H" else cls(arg)


def describe(N, k):
    if k is None:
        return {"t": "none", "c": 0, "x": []}
    t = next((t for t, c in TYPES.items() if isinstance(k, c)), "?")
    v = sorted(N.i(p) for p in k.vars)
    vl = sorted(N.i(p) for p in k.var_list())
    if t == "H":
        c, x = N.i(k.c_var), sorted(N.i(p) for p in k.x_vars)
        if sorted(x + [c]) != v or v != vl or N.i(k.var_list()[0]) != c:
            t = "?"
        return {"t": t, "c": c, "x": x}
    return {"t": t if v == vl else "?", "c": 0, "x": v}


def rels(N, it):
    """-> distances, angles as point lists; anything else shows up as a foreign distance"""
    d, a = [], []
    for r in it:
        p = [N.i(x) for x in r.points]
        (d if isinstance(r, Distance) and len(p) == 2 else a if isinstance(r, Angle) and len(p) == 3 else d).append(p if len(p) in (2, 3) else [998, 998])
    return d, a


def pair(N, a, b, da, db):
    """everything the code says about two clusters"""
    e = {"a": da, "b": db}

    def go():
        e["ab"], e["ba"] = a.intersection(b), b.intersection(a)
        e["abd"], e["bad"] = describe(N, e["ab"]), describe(N, e["ba"])
        (d1, x1), (d2, x2) = rels(N, a.common_distances(b)), rels(N, b.common_distances(a))
        (x3, a3), (x4, a4) = rels(N, a.common_angles(b)), rels(N, b.common_angles(a))
        d5, a5 = rels(N, a.common_constraints(b))
        e.update(cd=d1 + x1, cd2=d2 + x2, ca=a3 + x3, ca2=a4 + x4, ccd=d5, cca=a5)
        e["n"] = [int(a.n_distances()), int(a.n_angles()), int(a.n_constraints())]
        if not all(n == m for n, m in zip(e["n"], (a.n_distances(), a.n_angles(), a.n_constraints()))):
            e["n"] = [-1]
        e["a2"], e["b2"] = describe(N, a), describe(N, b)
    e["err"], e["hang"], _ = call(go)
    return e


BLANK = {"abd": {"t": "?", "c": 0, "x": []}, "bad": {"t": "?", "c": 0, "x": []}, "cd": [], "cd2": [], "ca": [], "ca2": [], "ccd": [], "cca": [], "n": [-1],
         "a2": {"t": "?", "c": 0, "x": []}, "b2": {"t": "?", "c": 0, "x": []}}


def random_chains(cfg):
    out = []
    for i in range(cfg["n"]):
        rnd = random.Random("%s/%d" % (cfg["seed"], i))
        objs = list(rnd.choice(name_palettes()))
        rnd.shuffle(objs)
        n = rnd.choice([3, 4, 6, 8, 10])
        N = Names(objs[:n], rnd)
        P = list(range(1, n + 1))

        def mk(base=None):
            t = rnd.choice("RRHHB")
            pool = base if base and rnd.random() < .7 else P
            pool = pool + rnd.sample(P, rnd.randint(0, min(2, n)))
            pool = sorted(set(pool))
            need = {"R": 0, "H": 3, "B": 3}[t]
            if len(pool) < need:
                pool = P
            k = rnd.randint(max(need, min(len(pool), 3)) if rnd.random() < .9 else need, max(need, len(pool)))
            x = rnd.sample(pool, min(k, len(pool)))
            if t == "H":
                return {"t": "H", "c": x[0], "x": sorted(x[1:])}
            return {"t": t, "c": 0, "x": sorted(x)}
        da = mk()
        e0, _, a = call(build, N, da["t"], da["c"], da["x"], rnd)
        evs = []
        for step in range(cfg["length"]):
            db = da if rnd.random() < .1 else mk(da["x"] + ([da["c"]] if da["c"] else []))
            e1, _, b = call(build, N, db["t"], db["c"], db["x"], rnd)
            if db is da and rnd.random() < .5:
                b = a
            e = {"a": da, "b": db, "err": e0 or e1}
            if not e["err"]:
                e = pair(N, a, b, da, db)
            nxt = e.pop("ab", None), e.get("abd")
            e.pop("ba", None)
            for k, v in BLANK.items():
                e.setdefault(k, v)
            e["ab"], e["ba"] = e.pop("abd"), e.pop("bad")
            evs.append(e)
            if e["err"]:
                break
            if nxt[0] is not None and rnd.random() < .8:
                a, da = nxt
                if da["t"] == "?":
                    break
            else:
                da = mk()
                e0, _, a = call(build, N, da["t"], da["c"], da["x"], rnd)
        out.append(evs)
    return out


def ck(d):
    return (d["t"], d["c"], tuple(sorted(d["x"])))


def walk(cfg):
    counts, trans, lab = {}, collections.defaultdict(list), {}
    for line in open(cfg["file"]):
        d = json.loads(line)
        if "nd" in d:
            counts[ck(d["k"])] = [d["nd"], d["na"], d["nd"] + d["na"]]
        else:
            f = ck(d["k"])
            lab[f, ck(d["o"])] = (sorted(map(sorted, d["d"])), sorted([p, sorted(q)] for p, q in d["a"]))
            trans[f].append((ck(d["o"]), ck(d["r"])))
    rnd = random.Random(cfg["seed"])
    part, parts = cfg["part"], cfg["parts"]
    trans["start"] = [(("start",), f) for f in sorted(k for k in trans if k != "start")]
    todo = {s: [j for j in range(len(ts)) if (i + j) % parts == part] for i, (s, ts) in enumerate(sorted(trans.items(), key=repr)) if s != "start"}
    for s in todo:
        rnd.shuffle(todo[s])
    W = Walker(trans, todo, "start", rnd)
    pals = name_palettes()
    walks = steps = 0
    mism = []
    for w in W.walks():
        walks += 1
        objs = list(pals[walks % len(pals)])
        rnd.shuffle(objs)
        N = Names(objs[:cfg["nv"]], rnd if walks % 3 else None)
        hist, cur = [], None
        for a, s, t in w:
            steps += 1
            hist.append(a)
            if s == "start":
                e, _, cur = call(build, N, *t, rnd)
                if e:
                    mism.append({"clauses": ["constructor"], "hist": hist, "names": [repr(x) for x in N.objs]})
                    break
                continue
            e0, _, o = call(build, N, *a, rnd)
            d = lambda k: {"t": k[0], "c": k[1], "x": list(k[2])}
            ev = pair(N, cur, o, d(s), d(a)) if not e0 else {"err": e0}
            bad = []
            if ev["err"]:
                bad = ["outcome"]
            else:
                D, A = lab[s, a]
                if ck(ev["abd"]) != t:
                    bad.append("intersection")
                if ck(ev["bad"]) != t:
                    bad.append("intersection_swapped")
                if any(sorted(map(sorted, ev[k])) != D for k in ("cd", "cd2")):
                    bad.append("common_distances")
                if any(sorted([p[1], sorted([p[0], p[-1]])] for p in ev[k]) != A for k in ("ca", "ca2")):
                    bad.append("common_angles")
                if sorted(map(sorted, ev["ccd"])) != D or sorted([p[1], sorted([p[0], p[-1]])] for p in ev["cca"]) != A:
                    bad.append("common_constraints")
                if ev["n"] != counts[s]:
                    bad.append("counts")
                if ck(ev["a2"]) != s or ck(ev["b2"]) != a:
                    bad.append("operand_changed")
                cur = ev["ab"]
            ev.pop("ab", None)
            ev.pop("ba", None)
            if bad:
                mism.append({"clauses": bad, "hist": hist, "names": [repr(x) for x in N.objs], "last": ev})
                break
        if len(mism) >= 20:
            break
    return {"walks": walks, "steps": steps, "unvisited": W.left, "mismatches": mism}


def relations(cfg):
    """Relation identity and constructors against the emitted expectations."""
    eqs, mks = [], []
    for line in open(cfg["file"]):
        d = json.loads(line)
        (eqs if "same" in d else mks).append(d)
    rnd = random.Random(cfg["seed"])
    mism, n = [], 0
    mkrel = lambda N, p: rnd.choice([Distance, Distance, Length] if len(p) == 2 else [Angle, Angle, Corner])(*[N.o(i) for i in p])
    for pal in name_palettes():
        objs = list(pal)
        rnd.shuffle(objs)
        N = Names(objs[:3], rnd)
        rel = [tuple(d["p"]) for d in eqs]
        for d in eqs:
            same = {tuple(q) for q in d["same"]}
            a = mkrel(N, d["p"])
            bad = []

            def go():
                coll, bag = set(), {}
                for q in rel:
                    b = mkrel(N, q)
                    eq = a == b
                    if bool(eq) != (q in same) or bool(a != b) == bool(eq) or bool(b == a) != bool(eq):
                        bad.append(["eq", q])
                    if q in same:
                        if hash(a) != hash(b):
                            bad.append(["hash", q])
                        coll.add(b)
                        bag[b] = 1
                        if a not in coll or a not in bag or a not in [b]:
                            bad.append(["lookup", q])
                if len(coll) != 1 or len(bag) != 1:
                    bad.append(["collection", len(coll)])
                for other in (None, 3, "x", tuple(a.points), frozenset(a.points), list(a.points)):
                    if a == other or not (a != other):
                        bad.append(["other", repr(other)])
                if [N.i(x) for x in a.points] != list(d["p"]):
                    bad.append(["points", 0])
            e, hang, _ = call(go)
            n += len(rel)
            if e:
                bad.append(["raised", e])
            if bad:
                mism.append({"clauses": sorted({x[0] for x in bad}), "relation": d["p"], "with": bad[:5], "names": [repr(x) for x in N.objs]})
        for d in mks:
            pts = [N.o(i) for i in d["p"]]
            forms = [list(pts), tuple(pts), iter(pts)] if d["p"] else [[], ()]
            for arg in forms:
                n += 1
                src = arg if isinstance(arg, list) else None
                exc = None
                try:
                    k = Hedgehog(N.o(d["c"]), arg) if d["kind"] == "H" else TYPES[d["kind"]](arg)
                except ValueError:
                    exc = "ValueError"
                except Exception as x:
                    exc = type(x).__name__
                bad = []
                if (exc is None) != d["ok"] or (exc not in (None, "ValueError")):
                    bad.append("refusal")
                elif exc is None:
                    if src is not None:
                        if src != pts:
                            bad.append("argument_changed")
                        src.append("later")
                    e, hang, got = call(describe, N, k)
                    if e or ck(got) != ck(d["k"]):
                        bad.append("points")
                if bad:
                    mism.append({"clauses": bad, "constructor": d, "raised": exc, "names": [repr(x) for x in N.objs]})
    return {"cases": n, "mismatches": mism[:40]}


def blocks(cfg):
    """Clusters of many points, given as intervals (ClusterBlocks)."""
    rnd = random.Random(cfg["seed"])
    n = cfg["nv"]
    objs = [list(range(n + 1)), ["p%d" % i for i in range(n + 1)], [(i // 30, i % 30) for i in range(n + 1)], [-i for i in range(n + 1)], [i / 8 for i in range(n + 1)]][rnd.randrange(5)]
    rnd.shuffle(objs)
    idx = {x: i for i, x in enumerate(objs)}
    span = lambda I: {i for a, b in I for i in range(a, b + 1)}
    mism, cur, rels_seen = [], None, 0

    def make(k):
        pts = [objs[i] for i in span(k["x"])]
        rnd.shuffle(pts)
        return Hedgehog(objs[k["c"]], pts) if k["t"] == "H" else TYPES[k["t"]](pts)

    def is_(k, d):
        if k is None:
            return d["t"] == "none"
        if not isinstance(k, TYPES.get(d["t"], ())):
            return False
        x, S = k.x_vars if d["t"] == "H" else k.vars, span(d["x"])
        return len(x) == len(S) and {idx.get(v) for v in x} == S and (d["t"] != "H" or idx.get(k.c_var) == d["c"] and len(k.vars) == len(S) + 1)

    for case in cfg["cases"]:
        bad = []

        def go():
            nonlocal cur, rels_seen
            a = cur if cur is not None and rnd.random() < .8 and is_(cur, case["a"]) else make(case["a"])
            b = make(case["b"])
            i, j = a.intersection(b), b.intersection(a)
            if not is_(i, case["r"]):
                bad.append("intersection")
            if not is_(j, case["r"]):
                bad.append("intersection_swapped")
            cur = i
            if [a.n_distances(), a.n_angles(), a.n_constraints()] != case["n"]:
                bad.append("counts")
            few = case["nd"] <= cfg["most"], case["na"] <= cfg["most"]
            if any(few):
                D, P, E = span(case["d"]), span(case["p"]), span(case["e"])

                def dist(rs):
                    rs = list(rs)
                    ps = [[idx.get(q) for q in r.points] for r in rs]
                    return len(set(rs)) == len(rs) == case["nd"] and all(isinstance(r, Distance) and len(set(q)) == 2 and set(q) <= D for r, q in zip(rs, ps))

                def ang(rs):
                    rs = list(rs)
                    ps = [[idx.get(q) for q in r.points] for r in rs]
                    return len(set(rs)) == len(rs) == case["na"] and all(isinstance(r, Angle) and len(set(q)) == 3 and q[1] in P and {q[0], q[2]} <= E for r, q in zip(rs, ps))
                if few[0] and not dist(a.common_distances(b)) or few[0] and not dist(b.common_distances(a)):
                    bad.append("common_distances")
                if few[1] and not ang(a.common_angles(b)) or few[1] and not ang(b.common_angles(a)):
                    bad.append("common_angles")
                rs = list(a.common_constraints(b)) if all(few) else []
                if all(few) and ( not dist([r for r in rs if not isinstance(r, Angle)]) or not ang([r for r in rs if isinstance(r, Angle)])):
                    bad.append("common_constraints")
                rels_seen += few[0] * case["nd"] + few[1] * case["na"]
            if not is_(a, case["a"]) or not is_(b, case["b"]):
                bad.append("operand_changed")
        e, hang, _ = call(go, seconds=25)
        if e:
            bad.append("outcome")
        if bad:
            mism.append({"clauses": bad, "case": case, "err": e, "names": repr(objs[0])})
            cur = None
        if len(mism) >= (10 if not e else 2):
            break
    return {"cases": len(cfg["cases"]), "relations": rels_seen, "mismatches": mism}


def life(cfg):
    """Programs working with clusters (ClusterLife): every object the program holds is looked at after every step."""
    rnd = random.Random(cfg["seed"])
    pals = name_palettes()
    mism, steps = [], 0
    for w, prog in enumerate(cfg["progs"]):
        objs = list(pals[w % len(pals)])
        rnd.shuffle(objs)
        N = Names(objs[:cfg["nv"]], rnd if w % 3 else None)
        cl, src = [], []
        own = rnd.random() < .3

        def put(k):
            if len(cl) < cfg["room"]:
                cl.append(k)
            else:
                cl[0] = k
        for n, st in enumerate(prog):
            a, bad = st["act"], []
            op = a["op"]
            steps += 1

            def go():
                if op == "collect":
                    x = [N.o(i) for i in a["x"]]
                    rnd.shuffle(x)
                    if rnd.random() < .3:
                        src.append((x, x))
                    elif rnd.random() < .7:
                        s = set(x)
                        src.append((s, s))
                    elif rnd.random() < .5:
                        d = dict.fromkeys(x)
                        src.append((d, d.keys()))
                    else:
                        q = collections.deque(x)
                        src.append((q, q))
                elif op == "alter":
                    c, p = src[a["s"] - 1][0], N.objs[a["p"] - 1]
                    if p in c:
                        if isinstance(c, dict):
                            del c[p]
                        else:
                            while p in c:
                                c.remove(p)
                    elif isinstance(c, dict):
                        c[p] = None
                    elif isinstance(c, set):
                        c.add(p)
                    else:
                        c.append(p)
                        if rnd.random() < .3:
                            c.append(p)
                elif op == "make":
                    cls = (OWN if own else TYPES)[a["t"]]
                    arg = src[a["s"] - 1][1]
                    try:
                        k = cls(N.o(a["c"]), arg) if a["t"] == "H" else cls(arg)
                    except ValueError:
                        k = None
                    if (k is not None) != a["ok"]:
                        bad.append("make")
                        return
                    if k is not None:
                        put(k)
                elif op == "inter":
                    k = cl[a["i"] - 1].intersection(cl[a["j"] - 1])
                    if (k is not None) != a["ok"]:
                        bad.append("inter")
                        return
                    if k is not None:
                        put(k)
                elif op == "flag":
                    k = cl[a["i"] - 1]
                    k.overconstrained = not k.overconstrained
                elif op == "grow":
                    k, p = cl[a["i"] - 1], N.objs[a["p"] - 1]
                    want = {N.i(q) for q in k.vars} ^ {a["p"]}
                    try:
                        k.vars.remove(p) if p in k.vars else k.vars.add(p)
                    except AttributeError:
                        pass
                    if {N.i(q) for q in k.vars} != want and len(k.vars) - len(want) in (-1, 1):
                        f = k.overconstrained
                        k = cl[a["i"] - 1] = type(k)([N.o(i) for i in want])
                        k.overconstrained = f
                elif op == "ask":
                    x, y = cl[a["i"] - 1], cl[a["j"] - 1]
                    D, A = sorted(map(sorted, a["d"])), sorted([p, sorted(q)] for p, q in a["a"])

                    def got(r):
                        d, an = rels(N, r)
                        return sorted(map(sorted, d)), sorted([p[1], sorted([p[0], p[-1]])] for p in an)
                    for rep in range(2):
                        cd, ca, cc = x.common_distances(y), x.common_angles(y), x.common_constraints(y)
                        if got(cd) != (D, []) or got(ca) != ([], A) or got(cc) != (D, A):
                            bad.append("ask")
                        if [int(x.n_distances()), int(x.n_angles()), int(x.n_constraints())] != a["n"]:
                            bad.append("count")
                        for r in (cd, ca, cc, x.var_list(), y.var_list()):
                            scribble(rnd, r)
                        if rnd.random() < .6:
                            break
            e, hang, _ = call(go)
            if e:
                bad.append("outcome")
            if not bad:
                def look():
                    got = [describe(N, k) for k in cl]
                    if len(got) != len(st["cl"]) or any(ck(g) != ck(k["k"]) for g, k in zip(got, st["cl"])):
                        bad.append("points")
                    if [bool(k.overconstrained) for k in cl] != [k["o"] for k in st["cl"]]:
                        bad.append("flags")
                e, hang, _ = call(look)
                if e:
                    bad.append("outcome")
            if bad:
                mism.append({"clauses": ["life_" + op] + ["life_given"] * (op == "ask" and bad == ["points"]), "what": bad, "err": e, "hist": [x["act"] for x in prog[:n + 1]], "expected": st["cl"],
                             "got": call(lambda: [describe(N, k) for k in cl])[2], "names": [repr(x) for x in N.objs]})
                break
        if len(mism) >= 10:
            break
    return {"programs": len(cfg["progs"]), "steps": steps, "mismatches": mism}


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("debug" if cfg.get("debug") else "off")
    emit(cfg["out"], {"walk": walk, "random": random_chains, "relations": relations, "blocks": blocks, "life": life}[cfg["mode"]](cfg))
