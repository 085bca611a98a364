"""Drives real Graph objects: random histories (recorded for GraphTrace) and walks over the GraphMC state graph."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from solver.graph import Graph

class Same:
    """equal to everything, and yet not the same"""
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


EDGEVALS = [[True, 1, 1.0, 0, False, 0.0], [Same(), 1, Same(), Same(), 1.5, Same()], [0, 1, 2, "x", (1, 2), -1], [None, 1, "", (), 3.5, "1"], ["", 1, 0, None, -7, b"x"]]


class Rig:
    def __init__(self, names, vals, n, rnd=None):
        self.N, self.n = names, n
        self.rnd = rnd       # with rnd, lists handed out by the code are scribbled on once they have been compared
        self.vals = vals
        self.g = {}
        self.raw = {}        # handle -> [(query name, raw result, frozen copy)]
        self.last = {}

    def vi(self, x):
        for k, y in enumerate(self.vals):
            if x is y or type(x) is type(y) and type(x) is not Same and x == y:
                return k
        return 999

    def ids(self, it):
        return [self.N.i(x) for x in it]

    def prs(self, it):
        return [[self.N.i(a), self.N.i(b)] for a, b in it]

    def obs(self, h):
        g, N = self.g[h], self.N
        raw = []

        def q(name, f, *a):
            r = f(*a)
            raw.append((name, r, list(r)))
            return r
        vs = q("vertices", g.vertices)
        es = q("edges", g.edges)
        U = [N.o(i) for i in range(1, self.n + 1)]
        o = {"vs": self.ids(vs), "es": self.prs(es)}
        he = [(a, b) for a in U for b in U if g.has_edge(a, b)]
        o["he"] = self.prs(he)
        o["ev"] = [[N.i(a), N.i(b), self.vi(g.get(a, b))] for a, b in he]
        o["hv"] = [N.i(v) for v in U if g.has_vertex(v)]
        o["bi"] = self.prs((a, b) for a in U for b in U if g.has_bi_edge(a, b))
        o["any"] = self.prs((a, b) for a in U for b in U if g.has_any_edge(a, b))
        for k, f, conv in (("out", g.outgoing_vertices, self.ids), ("in", g.ingoing_vertices, self.ids),
                           ("adj", g.adjacent_vertices, self.ids), ("oute", g.outgoing_edges, self.prs),
                           ("ine", g.ingoing_edges, self.prs), ("adje", g.adjacent_edges, self.prs)):
            o[k] = [[N.i(v), conv(q(f.__name__, f, v))] for v in list(vs)]
        self.raw[h] = raw
        return o

    def stale(self):
        bad = set()
        for h, raw in self.raw.items():
            for item in list(raw):
                name, r, was = item
                try:
                    now = list(r)
                except Exception:
                    now = None
                if now != was:
                    bad.add(name)
                elif self.rnd and self.rnd.random() < .5:
                    scribble(self.rnd, r)
                    raw.remove(item)
        return sorted(bad)

    def full(self, h, force):
        e, hang, o = call(self.obs, h)
        if e:
            o = {k: [[998, []]] if k in ("out", "in", "adj", "oute", "ine", "adje") else [998] if k in ("vs", "hv") else [[998, 998]]
                 for k in ("vs", "es", "he", "ev", "hv", "bi", "any", "out", "in", "adj", "oute", "ine", "adje")}
            o["ev"] = [[998, 998, 998]]
            o["exc"] = e
        key = json.dumps(o, sort_keys=True)
        if force or self.last.get(h) != key:
            self.last[h] = key
            return o
        return None

    def look(self, h, kind, a):
        """one single query"""
        g, N = self.g[h], self.N
        f = getattr(g, {"vertices": "vertices", "edges": "edges", "out": "outgoing_vertices", "in": "ingoing_vertices", "adj": "adjacent_vertices",
                        "oute": "outgoing_edges", "ine": "ingoing_edges", "adje": "adjacent_edges"}.get(kind, kind))
        r = f(*[N.o(i) for i in a])
        if kind.startswith("has_"):
            return [1] if r else []
        self.raw.setdefault(h, []).append((f.__name__, r, list(r)))
        return self.prs(r) if kind in ("edges", "oute", "ine", "adje") else self.ids(r)

    def apply(self, ev, seen=True):
        """ev: op, h, to -> event record with outcome and (seen) observations"""
        op, h, to = ev["op"], ev["h"], ev["to"]
        N = self.N
        g = self.g[h]
        n = op[0]
        res = []
        if n in ("add_vertex", "remove_vertex"):
            e, hang, _ = call(getattr(g, n), N.o(op[1]))
        elif n in ("add_edge", "add_bi_edge", "set", "set_bi_edge"):
            a = [N.o(op[1]), N.o(op[2])]
            if n.startswith("set") or op[3] != 1 or len(op) > 4:
                a.append(self.vals[op[3]])
            e, hang, _ = call(getattr(g, n), *a)
        elif n in ("remove_edge", "remove_bi_edge"):
            e, hang, _ = call(getattr(g, n), N.o(op[1]), N.o(op[2]))
        elif n in ("copy", "reverse"):
            e, hang, r = call(getattr(g, n))
        elif n == "ctor":
            e, hang, r = call(Graph, g)
        elif n == "subgraph":
            sel = [N.o(i) for i in op[1]]
            e, hang, r = call(g.subgraph, sel)
        elif n == "path":
            e, hang, r = call(g.path, N.o(op[1]), N.o(op[2]))
            res = [] if e else self.ids(r)
            if not e:
                self.raw.setdefault(h, []).append(("path", r, list(r)))
        elif n == "look":
            e, hang, r = call(self.look, h, op[1], op[2:])
            res = [] if e else r
        elif n == "get":
            e, hang, r = call(g.get, N.o(op[1]), N.o(op[2]))
            res = 998 if e else self.vi(r)
        elif n == "subsets":
            e, hang, r = call(g.connected_subsets)
            res = [] if e else [self.ids(s) for s in r]
            if not e:
                self.raw.setdefault(h, []).extend([("connected_subsets", r, list(r))] + [("connected_subsets", s, list(s)) for s in r])
        elif n in ("connected", "connected_in", "connected_out", "via_in", "via_out"):
            kw = {"connected": {}, "connected_in": {"outgoing": False}, "connected_out": {"ingoing": False}}.get(n, {})
            f = {"via_in": g.connected_via_ingoing, "via_out": g.connected_via_outgoing}.get(n, g.connected)
            e, hang, r = call(f, N.o(op[1]), **kw)
            res = [] if e else self.ids(r)
            if not e:
                self.raw.setdefault(h, []).append((n, r, list(r)))
        else:
            raise AssertionError(n)
        if to and not e:
            self.g[to] = r
            self.raw.pop(to, None)
        stale = self.stale()
        query = n in QUERIES
        if not query:
            self.raw.clear()
        obs = []
        for k in sorted(self.g) if seen else ():
            o = self.full(k, (k == (to or h)) and (not query or seen == 2))
            if o is not None:
                obs.append([k, o])
        return {"op": op, "h": h, "to": to, "err": bool(e), "exc": e, "hang": hang, "res": res, "obs": obs, "stale": stale}


QUERIES = ("path", "get", "subsets", "connected", "connected_in", "connected_out", "via_in", "via_out", "look")
LOOKS = ("vertices", "edges", "out", "in", "adj", "oute", "ine", "adje", "has_vertex", "has_edge", "has_bi_edge", "has_any_edge")


def gen_look(rnd, n, handles):
    k = rnd.choice(LOOKS)
    return {"op": ["look", k] + [rnd.randint(1, n) for _ in range(0 if k in ("vertices", "edges") else 2 if k in LOOKS[9:] else 1)], "h": rnd.choice(handles), "to": 0}


def gen_event(rnd, n, focus, handles, step, length):
    v = lambda: rnd.randint(1, n)
    h = rnd.choice(handles)
    W = {
        "G01": dict(add_vertex=2, remove_vertex=1.5, add_edge=5, add_bi_edge=3, set=4, set_bi_edge=3, remove_edge=3, remove_bi_edge=2, get=1, derive=1),
        "G02": dict(add_vertex=2, remove_vertex=4, add_edge=7, add_bi_edge=4, set=3, set_bi_edge=2, remove_edge=3, remove_bi_edge=2.5, get=.5, derive=.5),
        "G03": dict(add_vertex=2, remove_vertex=1.5, add_edge=5, add_bi_edge=2, set=4, set_bi_edge=2, remove_edge=2, remove_bi_edge=1, derive=5),
        "G04": dict(add_vertex=2, remove_vertex=.5, add_edge=6, add_bi_edge=.7, set=.5, set_bi_edge=.2, remove_edge=1.5, remove_bi_edge=.3, path=10, conn=7, derive=.3),
    }[focus]
    ops, ws = zip(*W.items())
    n_ = rnd.choices(ops, ws)[0]
    x = rnd.choice([0, 1, 1, 2, 3, 4, 5])
    to = 0
    if n_ in ("add_vertex", "remove_vertex"):
        op = [n_, v()]
    elif n_ in ("add_edge", "add_bi_edge", "set", "set_bi_edge"):
        a = v()
        b = a if rnd.random() < .08 else v()
        op = [n_, a, b, x]
    elif n_ in ("remove_edge", "remove_bi_edge", "get"):
        op = [n_, v(), v()]
    elif n_ == "derive":
        n_ = rnd.choice(["copy", "ctor", "reverse", "subgraph"])
        to = rnd.choice([k for k in (1, 2, 3) if k != h])
        op = [n_]
        if n_ == "subgraph":
            op.append(rnd.sample(range(1, n + 1), rnd.randint(0, n)))
    elif n_ == "path":
        a = v()
        op = ["path", a, a if rnd.random() < .2 else v()]
    else:
        n_ = rnd.choice(["connected", "connected_in", "connected_out", "via_in", "via_out", "subsets"])
        op = [n_] + ([] if n_ == "subsets" else [v()])
    return {"op": op, "h": h, "to": to}


class Shadow:
    """the edges each graph ought to have, to aim calls without asking the code"""
    def __init__(self):
        self.e = {1: set()}

    def follow(self, op, h, to):
        E, n = self.e[h], op[0]
        if n in ("add_edge", "set"):
            E.add((op[1], op[2]))
        elif n in ("add_bi_edge", "set_bi_edge"):
            E |= {(op[1], op[2]), (op[2], op[1])}
        elif n == "remove_edge":
            E.discard((op[1], op[2]))
        elif n == "remove_bi_edge" and (op[1], op[2]) in E and (op[2], op[1]) in E:
            E -= {(op[1], op[2]), (op[2], op[1])}
        elif n == "remove_vertex":
            self.e[h] = {p for p in E if op[1] not in p}
        elif to:
            self.e[to] = {(b, a) for a, b in E} if n == "reverse" else {p for p in E if set(p) <= set(op[1])} if n == "subgraph" else set(E)


def aim(rnd, ev, shadow, n, p=.6):
    """Point edge removals at edges that exist, most of the time."""
    if ev["op"][0] in ("remove_edge", "remove_bi_edge", "get") and rnd.random() < p:
        try:
            es = [list(p) for p in shadow.e[ev["h"]]]
            if ev["op"][0] == "remove_bi_edge":
                es = [e for e in es if [e[1], e[0]] in es]
            es = [e for e in es if max(e) <= n]
            if es:
                ev["op"][1:3] = rnd.choice(sorted(es))
        except Exception:
            pass
    return ev


def plan_structured(rnd, n, focus):
    """Opening moves that build a shape: chain, cycle, star, layered dag, two components, complete."""
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    kind = rnd.choice(["chain", "cycle", "star", "instar", "dag", "two", "complete", "lollipop", "none"])
    E = []
    if kind in ("chain", "cycle"):
        E = list(zip(order, order[1:]))
        if kind == "cycle":
            E.append((order[-1], order[0]))
    elif kind == "star":
        E = [(order[0], x) for x in order[1:]]
    elif kind == "instar":
        E = [(x, order[0]) for x in order[1:]]
    elif kind == "dag":
        E = [(a, b) for i, a in enumerate(order) for b in order[i + 1:] if rnd.random() < .5]
    elif kind == "two":
        k = n // 2
        E = list(zip(order[:k], order[1:k])) + list(zip(order[k:], order[k + 1:]))
        if rnd.random() < .5 and k > 1:
            E.append((order[k - 1], order[0]))
    elif kind == "complete":
        E = [(a, b) for a in order for b in order if a != b or rnd.random() < .3]
    elif kind == "lollipop":
        k = max(2, n // 2)
        E = list(zip(order, order[1:])) + [(order[k - 1], order[0])]
    rnd.shuffle(E)
    vals = [rnd.choice([0, 1, 2, 3, 4, 5]) for _ in E]
    return [{"op": [rnd.choice(["add_edge", "set"]), a, b, x], "h": 1, "to": 0} for (a, b), x in zip(E, vals)]


def run_history(rnd, focus, length, n):
    pals = name_palettes()
    objs = list(rnd.choice(pals))
    rnd.shuffle(objs)
    vals = list(rnd.choice(EDGEVALS))
    rig = Rig(Names(objs[:n], rnd), vals, n, rnd)
    rig.g[1] = Graph()
    evs = []
    shadow = Shadow()
    # dense histories look at everything after every call, sparse ones only now and then
    dense = rnd.choice([1, 1, 0, .15, .5])
    looks = 0 if dense == 1 else rnd.choice([0, .3, .6])
    pre = plan_structured(rnd, n, focus) if rnd.random() < .6 else []
    last = length + len(pre) - 1
    for step in range(last + 1):
        if step < len(pre):
            ev = pre[step]
        elif step < last and rnd.random() < looks:
            ev = gen_look(rnd, n, sorted(rig.g))
        else:
            ev = aim(rnd, gen_event(rnd, n, focus, sorted(rig.g), step, length), shadow, n)
        evs.append(rig.apply(ev, 2 if step == last else rnd.random() < dense))
        if evs[-1]["hang"]:
            break
        shadow.follow(ev["op"], ev["h"], ev["to"])
    return evs


def random_histories(cfg):
    out = []
    for i in range(cfg["n"]):
        rnd = random.Random("%s/%s/%d" % (cfg["seed"], cfg["focus"], i))
        n = rnd.choice(cfg["sizes"])
        out.append(run_history(rnd, cfg["focus"], cfg["length"], n))
    return out


# ---------------------------------------------------------------- walks over the TLC state graph
def key(g):
    return tuple((tuple(sorted(h["V"])), tuple(sorted(map(tuple, h["E"])))) for h in g)


ROWS = (("out", "outgoing_vertices"), ("in", "ingoing_vertices"), ("adj", "adjacent_vertices"),
        ("oute", "outgoing_edges"), ("ine", "ingoing_edges"), ("adje", "adjacent_edges"))
FLAT = (("vs", "vs", "vertices"), ("es", "es", "edges"), ("ev", "ev", "values"), ("bi", "bi", "has_bi_edge"),
        ("any", "any", "has_any_edge"), ("hv", "vs", "has_vertex"), ("he", "es", "has_edge"))


def norm(st):
    o = {k: sorted(st[k]) for k in ("vs", "es", "ev", "bi", "any")}
    for k, _ in ROWS:
        o[k] = {v: sorted(r) for v, r in st[k]}
    return o


def cmp_obs(real, st):
    """Observation of the real graph against the (normalised) sets TLC computed."""
    bad = [name for k, j, name in FLAT if sorted(real[k]) != st[j]]
    for k, name in ROWS:
        if {v: sorted(r) for v, r in real[k]} != st[k]:
            bad.append(name)
    return bad


def cmp_reach(g, N, vs, st):
    bad = []
    ids = lambda it: sorted(N.i(x) for x in it)
    for k, f, name in (("ca", lambda v: g.connected(v), "connected"), ("co", lambda v: g.connected_via_outgoing(v), "via_out"),
                       ("ci", lambda v: g.connected_via_ingoing(v), "via_in"),
                       ("co", lambda v: g.connected(v, ingoing=False), "connected_out"),
                       ("ci", lambda v: g.connected(v, outgoing=False), "connected_in")):
        for v, exp in st[k]:
            e, hang, r = call(f, N.o(v))
            if e or ids(r) != sorted(exp):
                bad.append(name)
                break
    e, hang, r = call(g.connected_subsets)
    if e or sorted(map(ids, r)) != sorted(map(sorted, st["cs"])):
        bad.append("connected_subsets")
    reach = {tuple(p) for p in st["rp"]}
    for a in vs:
        for b in vs:
            e, hang, p = call(g.path, N.o(a), N.o(b))
            if not e:
                p = [N.i(x) for x in p]
            ok = not e and (p == [] if (a, b) not in reach else (len(p) > 1 and p[0] == a and p[-1] == b and all(g.has_edge(N.o(x), N.o(y)) for x, y in zip(p, p[1:]))))
            if not ok:
                bad.append("path")
                return bad
    return bad


def walk(cfg):
    """Walks every emitted transition on real graphs; compares the outcome and all observers after every step."""
    states, trans = {}, collections.defaultdict(list)
    for line in open(cfg["file"]):
        d = json.loads(line)
        if "s" in d:
            d["obs"] = [norm(o) for o in d["obs"]]
            states[key(d["s"])] = d
        else:
            trans[key(d["f"])].append((d["a"], key(d["t"])))
    nh = len(next(iter(states)))
    init = tuple(((), ()) for _ in range(nh))
    rnd = random.Random(cfg["seed"])
    only = set(cfg.get("ops") or ())
    todo = {s: [i for i, (a, t) in enumerate(ts) if not only or a["op"][0] in only] for s, ts in trans.items()}
    for s in todo:
        rnd.shuffle(todo[s])
    mism, steps, walks, reach_done = [], 0, 0, set()
    pals = name_palettes()
    n = cfg["nv"]
    W = Walker(trans, todo, init, rnd, cfg.get("maxlen", 400))
    for w in W.walks():
        walks += 1
        objs = list(pals[walks % len(pals)])
        rnd.shuffle(objs)
        vals = [EDGEVALS[walks % len(EDGEVALS)][0], 1]
        rig = Rig(Names(objs[:n], rnd if walks % 2 else None), vals, n, rnd if walks % 3 == 0 else None)
        for h in range(1, nh + 1):
            rig.g[h] = Graph()
        hist = []
        for a, s, t in w:
            ev = rig.apply({"op": a["op"], "h": a["h"], "to": a["to"]})
            steps += 1
            hist.append({"op": a["op"], "h": a["h"], "to": a["to"]})
            bad = list(ev["stale"] and ["stale_" + x for x in ev["stale"]])
            if ev["err"] != a["err"]:
                bad.append("outcome")
            if ev["hang"]:
                bad.append("hang")
            st = states[t]
            for k, o in ev["obs"]:
                b = cmp_obs(o, st["obs"][k - 1])
                if b and k != (a["to"] or a["h"]):
                    b.append("other_graph_changed")
                bad += b
            if not bad and cfg.get("reach"):
                for k in range(1, nh + 1):
                    sig = (t, k)
                    if sig not in reach_done or rnd.random() < .05:
                        reach_done.add(sig)
                        bad += cmp_reach(rig.g[k], rig.N, st["s"][k - 1]["V"], st["reach"][k - 1])
            if bad:
                mism.append({"clauses": sorted(set(bad)), "hist": hist, "names": [repr(x) for x in objs[:n]], "last": ev})
                break
        if len(mism) >= 20:
            break
    left = W.left
    return {"walks": walks, "steps": steps, "states": len(states), "transitions": sum(map(len, trans.values())),
            "unvisited": left, "mismatches": mism}


# ---------------------------------------------------------------- large graphs, described by blocks (GraphBlocks)
def big_names(rnd, n):
    k = rnd.randrange(5)
    return [[i for i in range(1, n + 1)], ["n%d" % i for i in range(1, n + 1)], [(i // 40, i % 40) for i in range(1, n + 1)],
            [-i for i in range(1, n + 1)], [Key(i) for i in range(1, n + 1)] if n < 3000 else ["k%d" % i for i in range(1, n + 1)]][k]


def build_calls(rnd, k, lo, hi):
    if k == "dust" or lo == hi and "cycle" not in k:
        L = [("add_vertex", i) for i in range(lo, hi + 1)]
    elif "flail" in k:
        L = [("add_edge", lo, i) for i in range(lo + 1, hi)] + [("add_edge", hi - 1, hi)]
        if k[0] == "r":
            L = [(c, b, a) for c, a, b in L]
    elif "star" in k:
        L = [("add_edge", lo, i) if k == "star" else ("add_edge", i, lo) for i in range(lo + 1, hi + 1)]
    else:
        L = [("add_edge", i, i + 1) for i in range(lo, hi)] + ([("add_edge", hi, lo)] if "cycle" in k else [])
        if k[0] == "r":
            L = [(c, b, a) for c, a, b in L]
    o = rnd.randrange(3)
    if o == 1:
        L.reverse()
    elif o == 2:
        rnd.shuffle(L)
    return L


def span(S):
    return {i for a, b in S for i in range(a, b + 1)}


def large(cfg):
    sys.setrecursionlimit(1000)
    mism, steps = [], 0
    for hno, hist in enumerate(cfg["hists"]):
        rnd = random.Random("%s/%d" % (cfg["seed"], hno))
        objs = big_names(rnd, cfg["nv"])
        idx = {x: i + 1 for i, x in enumerate(objs)}
        o = lambda i: objs[i - 1]
        g, kept, calls = Graph(), [], []

        def check(g, x, reach):
            bad = []

            def ask(name, want, f, *a):
                e, hang, r = call(f, *a, seconds=40)
                if hang:
                    bad.append("hang")
                    return None
                if e:
                    bad.append(name)
                    return None
                if want is not None and (len(r) != len(want) or {idx.get(y) for y in r} != want):
                    bad.append(name)
                return r
            ask("vertices", span(x["verts"]), g.vertices)
            es = ask("edges", None, g.edges)
            if es is not None and (len(es) != x["edges"] or len(set(es)) != len(es)):
                bad.append("edges")
            for v in x["gone"]:
                if g.has_vertex(o(v)):
                    bad.append("has_vertex")
            for q in x["at"]:
                v = o(q["v"])
                no, ni = span(q["nout"]), span(q["nin"])
                ask("outgoing_vertices", no, g.outgoing_vertices, v)
                ask("ingoing_vertices", ni, g.ingoing_vertices, v)
                ask("adjacent_vertices", no | ni, g.adjacent_vertices, v)
                for w, p in q["paths"]:
                    if g.has_edge(v, o(w)) != (w in no):
                        bad.append("has_edge")
                if reach:
                    ask("connected", span(q["any"]), g.connected, v)
                    ask("via_out", span(q["out"]), g.connected_via_outgoing, v)
                    ask("via_in", span(q["in"]), g.connected_via_ingoing, v)
                    for w, p in q["paths"]:
                        r = ask("path", None, g.path, v, o(w))
                        if r is not None and (p != (r != []) or r and (len(r) < 2 or r[0] != v or r[-1] != o(w) or not all(g.has_edge(a, b) for a, b in zip(r, r[1:])))):
                            bad.append("path")
            if reach:
                e, hang, r = call(g.connected_subsets, seconds=40)
                want = {frozenset(range(a, b + 1)) for a, b in x["comp"]} | {frozenset([i]) for i in span(x["loose"])}
                if e or len(list(r)) != len(want) or {frozenset(idx.get(y) for y in s) for s in r} != want:
                    bad.append("connected_subsets")
            return bad
        prev = None
        for st in hist:
            op, x = st["a"]["op"], st["x"]
            calls.append(op)
            steps += 1
            n, bad = op[0], []
            if n == "build":
                for c, *a in build_calls(rnd, *op[1:]):
                    getattr(g, c)(*map(o, a))
                e = ""
            elif n in ("copy", "ctor", "reverse", "subgraph"):
                # a list keeps the membership test of subgraph affordable only for small selections
                sel = {o(i) for i in range(op[1], op[2] + 1)} if n == "subgraph" else None
                if n == "subgraph" and rnd.random() < .3:
                    sel = list(sel)
                kept.append((g, prev))
                e, hang, r = call(*((Graph, g) if n == "ctor" else (g.subgraph, sel) if n == "subgraph" else (getattr(g, n),)), seconds=60)
                if hang:
                    bad.append("hang")
                if not e:
                    g = r
            else:
                e, hang, _ = call(getattr(g, n), *map(o, op[1:]), seconds=20)
            if bool(e) != st["a"]["err"]:
                bad.append("outcome")
            bad += check(g, x, cfg["reach"])
            prev = x
            if bad:
                break
        if not bad:
            for k, (old, x) in enumerate(kept):
                if x is not None and old is not g:
                    b = check(old, x, False) if x else []
                    # further calls went to the derived graph only
                    bad += ["source_changed"] + b if b else []
        if bad:
            mism.append({"clauses": sorted(set(bad)), "hist": [{"op": c} for c in calls], "names": "%r.." % (objs[0],), "nv": cfg["nv"]})
            if len(mism) >= 10:
                break
    return {"walks": len(cfg["hists"]), "steps": steps, "mismatches": mism}


if __name__ == "__main__":
    cfg = read_cfg()
    setup_logging("off")
    emit(cfg["out"], {"walk": walk, "random": random_histories, "large": large}[cfg["mode"]](cfg))
