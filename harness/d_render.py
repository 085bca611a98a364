"""Twin histories for RenderTrace: the same calls on a quiet twin (logging off, never rendered) and on a loud one (debug
logging, every object converted to text before and after each call)."""
import sys, os, json, random, enum, functools, logging, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import d_graph, d_method, d_constraint, d_cluster, d_config
from solver.graph import Graph
from solver.method import *
from solver.geometry import Vector, Matrix
from solver.geometric.constraint import *
from solver.geometric.cluster import *
from solver.geometric.relation import *
from solver.geometric.configuration import Configuration

# ---------------------------------------------------------------- names whose text can be recognised
class Obj:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "\u27eaO%d\u27eb" % self.n
    __repr__ = __str__


class ByValue(Obj):
    def __eq__(self, o):
        return isinstance(o, ByValue) and o.n == self.n

    def __hash__(self):
        return hash(self.n % 3)

    def __repr__(self):
        return "\u27eaO%d\u27eb" % self.n


class NonBool(Obj):
    def __bool__(self):
        raise TypeError("no truth value")

    def __len__(self):
        raise TypeError("no length")


class ReprOnly:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<RO%dOR>" % self.n


E = enum.Enum("E", {"E%dE" % i: i for i in range(1, 31)})


def palettes(n=0):
    """lists of (object, token or None)"""
    f = lambda mk, tok: [(mk(i), tok % i) for i in range(1, max(n, 30) + 1)]
    pad = "a rather long name, " * 5
    out = [
        f(lambda i: pad + "\u27e6%d\u27e7" % i, "\u27e6%d\u27e7"),
        f(lambda i: "\u27e6%d\u27e7" % i + pad, "\u27e6%d\u27e7"),
        f(lambda i: (pad, "T%dT" % i), "T%dT"),
        f(Obj, "\u27eaO%d\u27eb"),
    ]
    if n:
        return out
    out += [
        f(lambda i: "\u27e6%d\u27e7" % i, "\u27e6%d\u27e7"),
        f(lambda i: "v%d_" % i, "v%d_"),
        f(lambda i: ("T%dT" % i, i), "T%dT"),
        f(lambda i: ("T%dT" % i,), "T%dT"),
        f(lambda i: frozenset(["F%dF" % i]), "F%dF"),
        f(Obj, "\u27eaO%d\u27eb"),
        f(ByValue, "\u27eaO%d\u27eb"),
        f(NonBool, "\u27eaO%d\u27eb"),
        f(ReprOnly, "<RO%dOR>"),
        f(lambda i: 10 ** 25 + i * 1000 + 7, "%d"),
        f(lambda i: "{0} %%s %%d %%(x)s {y} <%d>\n\t{" % i, "<%d>"),
        f(lambda i: ("B%dB" % i).encode(), "B%dB"),
        f(lambda i: type("Cls\u27e6%d\u27e7" % i, (), {}), "Cls\u27e6%d\u27e7"),
        f(lambda i: E["E%dE" % i], "E%dE"),
        f(lambda i: "\ud800<S%dS>" % i, "<S%dS>"),
    ]
    for i, (o, t) in enumerate(out[13]):
        out[13][i] = (o, str(o))
    out.append([p[(k * 7) % 30] for k, p in enumerate(out[4:]) if k != 1])
    out.append([(o, None) for o in ["", 0, (), None, frozenset(), -1, 2.5, float("inf"), ("x",), 1 + 2j]])
    half = [(o, None) for o in ("", 0, (), None, frozenset())] + out[4][5:]
    out.append(half)
    return out


class Env:
    """names, their tokens, and the other things a text may show"""
    def __init__(self, rnd, n):
        pal = list(rnd.choice([p for p in palettes(n if n > 30 else 0) if len(p) >= n]))
        rnd.shuffle(pal)
        self.pairs = pal[:n]
        self.N = Names([o for o, _ in self.pairs])
        self.token = {i + 1: t for i, (_, t) in enumerate(self.pairs) if t}
        self.errors = 0

    def usable(self):
        """ids whose token cannot be mistaken for another's"""
        ts = self.token
        return sorted(i for i in ts if not any(j != i and (ts[i] in ts[j] or ts[j] in ts[i]) for j in ts))

    def shown(self, obj, ids):
        """-> [error, ids shown]"""
        def go():
            s = str(obj)
            assert isinstance(s, str)
            repr(obj)
            assert isinstance("{0} {1}".format(obj, "%s" % (obj,)), str)
            return s
        e, hang, s = call(go)
        return ["Hang" if hang else e, [] if e else [i for i in ids if self.token[i] in s]]


class Sink(logging.Handler):
    errors = 0

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            Sink.errors += 1


SINK = Sink()


def loud(on):
    root = logging.getLogger()
    root.handlers[:] = [SINK]
    root.setLevel(logging.DEBUG if on else logging.CRITICAL + 1)


class Twin:
    def __init__(self, env, quiet, noisy):
        self.env, self.q, self.n = env, quiet, noisy
        # a text may be asked for after every call, or only now and then
        self.often = random.Random(str(env.token)).choice([1, 1, .5, .25])
        self.rnd = random.Random(str(env.token) + "r")
        self.ids = []

    def step(self, act, look, things, op, h=1, to=0, mem=None):
        """act(twin) makes the call, look(twin) tells what it did; things(): the loud twin's objects as <<handle, object>>"""
        loud(False)
        a, b = act(self.q), None
        qa = look(self.q, a)
        loud(True)
        was = Sink.errors
        look_at = lambda: things() if self.rnd.random() < self.often else []
        for _, o in look_at():
            self.env.shown(o, [])
        b = act(self.n)
        loud(False)
        lb = look(self.n, b)
        loud(True)
        now = look_at()
        texts = [[k] + self.env.shown(o, self.ids) for k, o in now]
        again = [[k] + self.env.shown(o, self.ids) for k, o in now]
        loud(False)
        la = look(self.n, b)
        qa, lb = (json.dumps(x, sort_keys=True, default=str) for x in (qa, lb if la == lb else ["changed by rendering", lb, la]))
        dig = lambda x: hashlib.sha1(x.encode("utf8", "replace")).hexdigest()[:16]
        e = {"op": op, "h": h, "to": to, "quiet": dig(qa), "loud": dig(lb), "mem": mem() if mem else [], "texts": texts + [t for t in again if t not in texts], "fmt": Sink.errors - was}
        if qa != lb:
            e["raw"] = [qa[:3000], lb[:3000]]
        return e


def srt(x):
    return sorted(x, key=lambda y: json.dumps(y, default=str))


# ---------------------------------------------------------------- graphs
def rings(rnd, n):
    """many members, then one exchanged for another again and again: texts as long as before, of other members"""
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    inside, outside = order[:-4], order[-4:]
    L = [["add_edge", a, b, 1] for a, b in zip(inside, inside[1:] + inside[:1])]
    for _ in range(6):
        k = rnd.randrange(len(inside))
        old, new = inside[k], outside.pop(rnd.randrange(len(outside)))
        outside.append(old)
        inside[k] = new
        L += [["remove_vertex", old], ["add_edge", inside[k - 1], new, 1], ["add_edge", new, inside[(k + 1) % len(inside)], 1]]
    return [{"op": op, "h": 1, "to": 0} for op in L]


VALS = [["{", "%s", None, (1, 2), "", 0], [0, 1, 2, "x", (1, 2), -1], [frozenset([1]), object, 1, "a\nb", (), 1.5]]


def graph(rnd, length):
    n = rnd.choice([2, 3, 5, 7]) if rnd.random() < .9 else 25
    env = Env(rnd, n)
    vals = rnd.choice(VALS)
    rigs = [d_graph.Rig(env.N, vals, n) for _ in (0, 1)]
    for r in rigs:
        r.g[1] = Graph()
    tw = Twin(env, *rigs)
    tw.ids = env.usable()
    shadow = d_graph.Shadow()
    pre = d_graph.plan_structured(rnd, n, "G01")[:30] if rnd.random() < .5 else []
    if n == 25:
        pre = rings(rnd, n)
        length //= 2
    evs = []

    def look(r, ev):
        o = {k: [r.obs(k)] for k in sorted(r.g)}
        for k in o:
            for f, x in o[k][0].items():
                o[k][0][f] = srt([[y[0], srt(y[1])] if isinstance(y, list) and len(y) == 2 and isinstance(y[1], list) else y for y in x])
            r.raw[k] = []
        res = ev["res"]
        if ev["op"][0] == "path":
            res = [len(res) > 0] + res[:1] + res[-1:]
        elif isinstance(res, list):
            res = srt([srt(x) if isinstance(x, list) else x for x in res])
        return [ev["err"], ev["exc"], res, o]
    focus = rnd.choice(["G01", "G02", "G03", "G04"])
    for step in range(length + len(pre)):
        ev = pre[step] if step < len(pre) else d_graph.aim(rnd, d_graph.gen_event(rnd, n, focus, sorted(rigs[0].g), step, length), shadow, n)
        shadow.follow(ev["op"], ev["h"], ev["to"])
        e = tw.step(lambda r: r.apply({"op": list(ev["op"]), "h": ev["h"], "to": ev["to"]}), look, lambda: sorted(rigs[1].g.items()), ev["op"], ev["h"], ev["to"],
                    lambda: [[k, [env.N.i(v) for v in g.vertices()]] for k, g in sorted(rigs[0].g.items())])
        evs.append(e)
        # TLC cannot read null
        e["op"] = [x for x in e["op"]]
    return {"kind": "graph", "D": [], "tok": tw.ids, "class": [], "events": evs}


# ---------------------------------------------------------------- method graphs
def classes(env, objs):
    """-> class id of every object; registers the tokens of the classes"""
    out, known = [], {}
    for k, o in enumerate(objs, 1):
        own = getattr(o, "_token", None)
        if own:
            env.token[100 + k] = own
            out.append(100 + k)
        else:
            nm = getattr(o, "name", None)
            c = known.setdefault((type(o).__mro__[1].__name__, nm), 200 + k)
            if isinstance(nm, str) and nm:
                env.token[c] = nm
            out.append(c)
    return out


def method(rnd, length):
    focus = rnd.choice(["M01", "M03", "M04", "M05", "M06", "M07"])
    nv = rnd.choice([3, 4, 5, 5]) if focus != "M06" else rnd.choice([2, 3])
    wide = rnd.random() < .12
    if wide:
        nv, focus = 20, 'M01'
    defs, multi, mode = d_method.gen_defs(rnd, focus, nv)
    if wide and not multi and mode == 'int':
        defs = [{'kind': 'lin', 'ins': rnd.sample(range(1, 10), rnd.randint(0, 8)), 'outs': [k], 'c': 1} for k in range(10, 21)] + \
               [{'kind': 'lin', 'ins': [1], 'outs': list(range(8, 21)), 'c': 1}]
    env = Env(rnd, nv)
    mv = []
    for k in multi:
        if rnd.random() < .7:
            nm, env.token[k] = rnd.choice([("MV\u27e6%d\u27e7" % k,) * 2, (("MV\u27e6%d\u27e7" % k, 1), "MV\u27e6%d\u27e7" % k), (10 ** 24 + k * 7919, str(10 ** 24 + k * 7919)),
                                          (Obj(900 + k), str(Obj(900 + k)))])
            o = MultiVariable(nm)
        else:
            o = MultiVariable(rnd.choice([None, None, "", 0, (), 1.5, ("%s",)]))
        mv.append(o)
    env.N = Names([o for o, _ in env.pairs] + mv)
    form = rnd.choice(["<<m%d>>", "\u27e8m%d\u27e9 {0} %%s", "{m%d}"])
    mname = lambda mid: form % mid
    rigs = []
    for _ in (0, 1):
        r = d_method.Rig.__new__(d_method.Rig)
        r.mname = mname
        r.__init__(env.N, defs, d_method.Vals(mode), True)
        rigs.append(r)
    for mid, m in rigs[0].objs.items():
        if defs[mid - 1]["kind"] not in d_method.BUILTIN + ("sp",):
            m._token = (form % mid).split(" ")[0]
    cl = classes(env, [rigs[0].objs[m] for m in sorted(rigs[0].objs)])
    tw = Twin(env, *rigs)
    tw.ids = env.usable()
    allv = list(range(1, nv + 1)) + multi
    evs, failing, boomed = [], set(), [False]

    def look(r, ev):
        if ev["err"] in ("Boom", "other"):
            boomed[0] = True      # which method fails first may depend on the order of execution
        return [ev["err"], srt(ev["vars"]), srt(ev["mets"]), ev["ran"] if not boomed[0] else [], srt(ev["vals"]) if not boomed[0] else [], ev["hang"]]
    ops = dict(add_variable=2, set=6, add_method=6, rem_method=2, rem_variable=1.2, propagate=1.5, execute=1, clear=.2, get=.3, fail=1 if focus == "M05" else 0)
    def mem():
        ms = [getattr(m, "_mid", 0) for m in rigs[0].g.methods()]
        return [[1, [env.N.i(v) for v in rigs[0].g.variables()] + [100 + m for m in ms] + [cl[m - 1] for m in ms if m]]]
    swaps = []
    if wide:
        # fill it up, then exchange members
        ms, vs = list(range(1, len(defs) + 1)), list(allv)
        rnd.shuffle(ms)
        rnd.shuffle(vs)
        out = [vs.pop() for _ in range(3)]
        swaps = [("add_variable", x) for x in vs] + [("add_method", m) for m in ms]
        for _ in range(5):
            x, y = vs.pop(rnd.randrange(len(vs))), out.pop(0)
            vs.append(y)
            out.append(x)
            m = rnd.choice(ms)
            swaps += [("rem_variable", x), ("add_variable", y), ("rem_method", m), ("add_method", rnd.choice(ms)), ("add_method", m)]
    for step in range(length + len(swaps)):
        o = rnd.choices(list(ops), list(ops.values()))[0]
        v, m = rnd.choice(allv), rnd.randint(1, len(defs))
        ev = {"expl": rnd.random() < .5, "form": rnd.randint(0, 3), "prop": rnd.random() < .6}
        if step < len(swaps):
            o, x = swaps[step]
            v, m = (x, m) if "variable" in o else (v, x)
        if o in ("set", "add_variable"):
            ev["op"] = [o, v, d_method.rnd_value(rnd, v, multi, mode)]
        elif o in ("add_method", "rem_method", "execute"):
            ev["op"] = [o, m]
        elif o in ("rem_variable", "get"):
            ev["op"] = [o, v]
        elif o == "fail":
            ev["op"] = ["fail_off", failing.pop()] if failing and rnd.random() < .5 else ["fail_on", m, rnd.randint(0, 4)]
            if ev["op"][0] == "fail_on":
                failing.add(m)
        else:
            ev["op"] = [o]
        if o == "add_variable" and ev["op"][2] == ["n"]:
            ev["expl"] = False
        e = tw.step(lambda r: r.apply(dict(ev)), look, lambda: [(1, rigs[1].g)], ev["op"], mem=mem)
        evs.append(e)
    return {"kind": "method", "D": defs, "tok": tw.ids, "class": cl, "events": evs}


# ---------------------------------------------------------------- constraint graphs
class Sel(SelectionConstraint):
    def satisfied(self, mapping):
        return True


class Call:
    def __call__(self, *a):
        return True


def functions(rnd):
    def named(*a):
        return True
    return rnd.choice([named, lambda *a: True, functools.partial(named, 1), Call(), all, Call().__call__, [].append, bool])


def constraint_of(rnd, k, vs, token):
    kind = rnd.choice(["sel", "fun", "fun", "custom", "three", "plus", "default"])
    if kind in ("three", "plus") and len(vs) != 3:
        kind = "fun"
    if kind == "sel":
        c = Sel(token, vs)
    elif kind == "fun":
        c = FunctionConstraint(functions(rnd), rnd.choice([list, tuple, iter])(vs), name=token)
    elif kind == "default":
        return FunctionConstraint(functions(rnd), vs)
    elif kind == "three":
        return rnd.choice(d_constraint.THREE[:4])(*vs)
    elif kind == "plus":
        return PlusConstraint(*vs)
    else:
        c = d_constraint.Custom(k, vs, False)
        c.__class__ = CustomToken
        c.text = token
        return c
    c._token = token.split(" ")[0]
    return c


class CustomToken(d_constraint.Custom):
    def __str__(self):
        return self.text


def constraint(rnd, length):
    nv = rnd.choice([2, 3, 4, 6]) if rnd.random() < .85 else 25
    env = Env(rnd, nv)
    cons = [[rnd.randint(1, nv) for _ in range(rnd.choice([1, 2, 2, 3, 3, 3, 4, 0, 8]))] for _ in range(rnd.randint(2, 6) if nv < 9 else 20)]
    form = rnd.choice(["<<c%d>>", "\u27e8c%d\u27e9 {0} %%s", "{c%d}"])
    objs = [constraint_of(rnd, k, [env.N.o(i) for i in c], form % k) for k, c in enumerate(cons, 1)]
    for k, o in enumerate(objs, 1):
        if isinstance(o, CustomToken):
            o._token = (form % k).split(" ")[0]
    cl = classes(env, objs)
    # classes that also show in the text of others cannot be told apart
    tw = Twin(env, ConstraintGraph(), ConstraintGraph())
    tw.ids = env.usable()
    idx = {id(o): k for k, o in enumerate(objs, 1)}

    def look(g, r):
        sel = [env.N.o(i) for i in (1, nv)]
        f = lambda q: srt([idx.get(id(c), 999) for c in q])
        return [r, srt([env.N.i(v) for v in g.variables()]), f(g.constraints()), [f(g.get_constraints_on(env.N.o(v))) for v in range(1, nv + 1)],
                f(g.get_constraints_on_any(sel)), f(g.get_constraints_on_all(sel))]

    def mem():
        cs = [idx.get(id(c), 0) for c in tw.q.constraints()]
        return [[1, [env.N.i(v) for v in tw.q.variables()] + [100 + c for c in cs] + [cl[c - 1] for c in cs if c]]]
    evs = []
    swaps = []
    if nv > 9:
        cs, out = list(range(4, len(cons) + 1)), [1, 2, 3]
        swaps = [("add_constraint", c) for c in cs]
        for _ in range(5):
            x, y = cs.pop(rnd.randrange(len(cs))), out.pop(0)
            cs.append(y)
            out.append(x)
            v = rnd.randint(1, nv)
            swaps += [("rem_constraint", x), ("add_constraint", y), ("rem_variable", v), ("add_variable", v)]
    for step in range(length + len(swaps)):
        n = rnd.choices(["add_variable", "rem_variable", "add_constraint", "rem_constraint"], [2, 1.5, 5, 2])[0]
        x = rnd.randint(1, nv) if "variable" in n else rnd.randint(1, len(cons))
        if step < len(swaps):
            n, x = swaps[step]
        arg = env.N.o(x) if "variable" in n else objs[x - 1]
        evs.append(tw.step(lambda g: call(getattr(g, n), arg)[0], look, lambda: [(1, tw.n)], [n, x], mem=mem))
    return {"kind": "constraint", "D": cons, "tok": tw.ids, "class": cl, "events": evs}


# ---------------------------------------------------------------- configurations
def config(rnd, length):
    n = rnd.choice([2, 3, 5]) if rnd.random() < .85 else 25
    env = Env(rnd, n)
    P = list(range(1, n + 1))
    pos = {i: (rnd.uniform(-9, 9), rnd.uniform(-9, 9)) for i in P}
    tw = Twin(env, {}, {})
    tw.ids = env.usable()
    evs = []

    def look(live, r):
        return [r, {k: [srt([[env.N.i(v), float(c.get(v).x), float(c.get(v).y)] for v in c.vars()]), bool(c.underconstrained)] for k, c in sorted(live.items())}]

    def mem():
        return [[k, [env.N.i(v) for v in c.vars()]] for k, c in sorted(tw.q.items())]
    k = 0
    while k < 7 and len(evs) < length:
        o = rnd.choice(["new", "new", "copy", "add", "merge", "merge", "merge", "select", "transform", "eq"]) if k > 1 else "new"
        i, j = (rnd.randint(1, k), rnd.randint(1, k)) if k else (1, 1)
        if k and rnd.random() < .5 and o == "merge":
            i = k
        to = 0 if o == "eq" else k + 1
        arg = j
        if o == "new":
            arg = rnd.sample(P, rnd.randint(0 if rnd.random() < .15 else 1, n))
            base = {v: pos[v] for v in arg}
            if rnd.random() < .3 and arg:
                base[arg[0]] = (1.0, 1.0)
            if rnd.random() < .1:
                base = {v: (2.0, 2.0) for v in arg}
        elif o == "select":
            arg = [v for v in P if tw.q.get(i) is not None and env.N.o(v) in list(tw.q[i].vars()) and rnd.random() < .7]
        A = arg

        def act(live):
            def go():
                c = live.get(i)
                if o == "new":
                    return Configuration({env.N.o(v): Vector(*base[v]) for v in A})
                if o in ("copy",):
                    return c.copy()
                if o == "eq":
                    return bool(c == live[j])
                if o == "select":
                    return c.select([env.N.o(v) for v in A])
                if o == "transform":
                    return c.transform(Matrix([[0.0, -1.0, 2.0], [1.0, 0.0, 3.0], [0.0, 0.0, 1.0]]))
                r = getattr(c, o)(live[j])
                return r[0] if o == "merge" else r
            e, hang, r = call(go)
            if e or o == "eq":
                return [e, r]
            live[to] = r
            return ["", 0]
        e = tw.step(act, look, lambda: sorted(tw.n.items()), [o, arg], i, to, mem)
        evs.append(e)
        if to and to not in tw.q:
            evs.pop()      # the call failed: not for this check
            break
        if to:
            k = to
    return {"kind": "config", "D": [], "tok": tw.ids, "class": [], "events": evs}


# ---------------------------------------------------------------- clusters, relations, single methods and constraints
def fixed(rnd, length):
    n = rnd.choice([3, 4, 6]) if rnd.random() < .85 else 25
    env = Env(rnd, n)
    P = list(range(1, n + 1))
    N = env.N
    evs = []
    tw = Twin(env, 0, 1)
    tw.ids = env.usable()

    def cl():
        t = rnd.choice("RHB")
        lim = rnd.choice([6, 6, 6, n]) if t == "R" and n > 6 else min(n, 6)
        x = rnd.sample(P, rnd.randint({"R": 0}.get(t, 3), lim))
        return {"t": t, "c": x[0], "x": sorted(x[1:])} if t == "H" else {"t": t, "c": 0, "x": sorted(x)}
    for _ in range(length):
        op, things = [], {}
        what = rnd.choice(["clusters", "clusters", "relations", "methods", "constraints"])
        seed = rnd.random()
        if what == "clusters":
            a, b = cl(), cl()
            if max(len(a["x"]), len(b["x"])) > 6 and a["t"] + b["t"] != "RR":
                b = a      # angles of large clusters take the specification too long
                a = b if b["t"] == "R" else {"t": "R", "c": 0, "x": b["x"]}
                b = {"t": "R", "c": 0, "x": sorted(set(a["x"][:12]) | set(P[:3]))}
            flags = [rnd.random() < .4, rnd.random() < .4]
            op = [["cluster", a], ["cluster", b]]

            def act(t):
                r2 = random.Random(seed)

                def go():
                    ks = [d_cluster.build(N, d["t"], d["c"], d["x"], r2) for d in (a, b)]
                    for k, f in zip(ks, flags):
                        k.overconstrained = f
                    things[t] = list(ks)
                    i = ks[0].intersection(ks[1])
                    if i is not None:
                        things[t].append(i)
                    ex = [list(f(ks[1])) for f in (ks[0].common_distances, ks[0].common_angles, ks[0].common_constraints)]
                    return [d_cluster.describe(N, i), [srt([[srt([N.i(p) for p in r.points])] for r in x]) for x in ex], ks[0].n_constraints(), [k.overconstrained for k in ks],
                            [d_cluster.describe(N, k) for k in ks], [x for e in ex for x in e]]
                e, h, r = call(go)
                if not e:
                    rel = r.pop()
                    for x in rel[:4]:
                        things[t].append(x)
                return [e, r]
        elif what == "relations":
            ps = [[rnd.choice(P) for _ in range(rnd.choice([2, 3]))] for _ in range(3)]
            op = [["relation", p] for p in ps]

            def act(t):
                things[t] = [(Distance if len(p) == 2 else Angle)(*[N.o(i) for i in p]) for p in ps]
                return [[a == b for a in things[t] for b in things[t]], [hash(a) == hash(b) for a in things[t] for b in things[t]]]
        elif what == "methods":
            V = rnd.choice([1, None, "", (1, 2), "{0} %s", {"a": 1}, [1], 1.5, object, Vector(1, 2), d_method.np.array([1, 2])])
            q = [rnd.choice(P) for _ in range(3)]
            ins, outs = [rnd.choice(P) for _ in range(rnd.randint(0, n))], [rnd.choice(P) for _ in range(rnd.randint(0, n))]
            op = [["m", q], ["m", q], ["m", q[:1]], ["m", q[:2]], ["m", ins + outs], ["m", ins], ["m", q[:2]]]

            def act(t):
                o = [N.o(i) for i in q]

                class X(Method):
                    def execute(self, m):
                        return {}

                class Y(MultiMethod):
                    def multi_execute(self, m):
                        return [m[i] for i in self.inputs]
                y = Y("y", [N.o(i) for i in ins], [MultiVariable(rnd.choice([None, "q"]) if False else "q")])
                mv = MultiVariable()
                things[t] = [AddMethod(*o), SubMethod(*o), SetMethod(o[0], V), AssignMethod(*o[:2]), X("x", [N.o(i) for i in ins], [N.o(i) for i in outs]), y,
                             SumProdMethod(o[0], o[1], mv)]
                f = lambda m, d: call(lambda: srt([[0 if isinstance(k, MultiVariable) else N.i(k), srt([str(z) for z in v]) if isinstance(v, (set, list)) else str(v)] for k, v in m.execute(d).items()]))
                d = {N.o(i): i for i in P}
                return [[list(f(m, dict(d))) for m in things[t]]]
        else:
            vs = [[rnd.choice(P) for _ in range(rnd.choice([3, 3, 1, 2, 4, n]))] for _ in range(3)]
            op = [["c", v] for v in vs]

            def act(t):
                r2 = random.Random(seed)
                things[t] = [constraint_of(r2, k, [N.o(i) for i in v], "<c%d>" % k) for k, v in enumerate(vs)]
                # a custom constraint chooses its own text
                things[t] = [c if not isinstance(c, CustomToken) else Sel("s", [N.o(i) for i in v]) for c, v in zip(things[t], vs)]
                d = {N.o(i): Vector(i, i * i % 7) for i in P}
                return [[list(call(c.satisfied, d)) if not isinstance(c, PlusConstraint) else 0 for c in things[t]], [[N.i(x) for x in c.variables()] for c in things[t]]]
        # the texts are only there after the call
        e = tw.step(act, lambda t, r: [r, [d_cluster.describe(N, k) for k in things.get(t, []) if isinstance(k, Cluster)]],
                    lambda: [(k, o) for k, o in enumerate(things.get(1, []), 1)], op)
        if what == "clusters":
            r = things.get(1, [])
            if len(r) > 2:
                if isinstance(r[2], Cluster):
                    op.append(["inter", a, b])
                for x in r[len(op):]:
                    op.append(["relation", [N.i(p) for p in x.points]])
        e["op"] = op[:9]
        e["texts"] = [t for t in e["texts"] if t[0] <= min(9, len(op))]
        evs.append(e)
    return {"kind": "fixed", "D": [], "tok": tw.ids, "class": [], "events": evs}


# ---------------------------------------------------------------- many members, whose text is long
def crowd(rnd, length):
    """one call that adds many members, then some exchanged"""
    n = rnd.choice([40, 60, 95])
    env = Env(rnd, n)
    N, P = env.N, list(range(1, n + 1))
    kind = rnd.choice(["graph", "graph", "method", "constraint", "config", "fixed"])
    some = lambda lo=30: sorted(rnd.sample(P, rnd.randint(lo, n - 3)))
    make = {"graph": Graph, "method": MethodGraph, "constraint": ConstraintGraph}.get(kind, dict)
    tw = Twin(env, make(), make())
    tw.often = 1
    tw.ids = env.usable()
    defs, objs, ops = [], [], []
    a, b = some(), rnd.randint(1, n)
    if kind == "graph":
        ops = [["bulk", [[x, rnd.choice(a)] for x in a]], ["remove_vertex", rnd.choice(a)], ["add_edge", b, rnd.randint(1, n), 1], ["remove_vertex", b]]

        def act(g, o):
            if o[0] == "bulk":
                for x, y in o[1]:
                    g.add_edge(N.o(x), N.o(y))
            else:
                getattr(g, o[0])(*[N.o(x) for x in o[1:3]])
        look = lambda g: [srt([N.i(v) for v in g.vertices()]), srt([[N.i(v), N.i(w)] for v, w in g.edges()])]
        mem = lambda g: [N.i(v) for v in g.vertices()]
        cl = []
    elif kind == "method":
        outs = rnd.sample(P, n // 2)
        ins = [x for x in a if x not in outs]
        defs = [{"kind": "lin", "ins": ins, "outs": outs, "c": 1}, {"kind": "lin", "ins": [outs[0]], "outs": [x for x in P if x not in ins + outs][:9], "c": 1}]
        objs = []

        class X(Method):
            def execute(self, m):
                return {}
        objs = [X("<<m%d>>" % k, [N.o(i) for i in d["ins"]], [N.o(i) for i in d["outs"]]) for k, d in enumerate(defs, 1)]
        for k, o in enumerate(objs, 1):
            o._token = "<<m%d>>" % k
        ops = [["add_method", 1], ["add_method", 2], ["rem_variable", rnd.choice(ins + outs)], ["add_variable", b], ["rem_variable", b]]

        def act(g, o):
            getattr(g, o[0])(objs[o[1] - 1] if "method" in o[0] else N.o(o[1]))
        cl = classes(env, objs)
        idx = {id(o): k for k, o in enumerate(objs, 1)}
        look = lambda g: [srt([N.i(v) for v in g.variables()]), srt([idx[id(m)] for m in g.methods()])]
        mem = lambda g: [N.i(v) for v in g.variables()] + [100 + idx[id(m)] for m in g.methods()] + [cl[idx[id(m)] - 1] for m in g.methods()]
    elif kind == "constraint":
        defs = [a, some(5), [b]]
        objs = [constraint_of(rnd, k, [N.o(i) for i in c], "<<c%d>>" % k) for k, c in enumerate(defs, 1)]
        for k, o in enumerate(objs, 1):
            if isinstance(o, CustomToken):
                o._token = "<<c%d>>" % k
        ops = [["add_constraint", 1], ["add_constraint", 2], ["rem_variable", b], ["rem_constraint", 1], ["add_constraint", 3]]

        def act(g, o):
            getattr(g, o[0])(objs[o[1] - 1] if "constraint" in o[0] else N.o(o[1]))
        cl = classes(env, objs)
        idx = {id(o): k for k, o in enumerate(objs, 1)}
        look = lambda g: [srt([N.i(v) for v in g.variables()]), srt([idx[id(c)] for c in g.constraints()]), srt([idx[id(c)] for c in g.get_constraints_on(N.o(b))])]
        mem = lambda g: [N.i(v) for v in g.variables()] + [100 + idx[id(c)] for c in g.constraints()] + [cl[idx[id(c)] - 1] for c in g.constraints()]
    else:
        ops = []
    if make is not dict:
        evs = [tw.step(lambda g: list(call(act, g, o)[:2]), lambda g, r: [r, look(g)], lambda: [(1, tw.n)], o, mem=lambda: [[1, mem(tw.q)]]) for o in ops]
        return {"kind": kind, "D": defs, "tok": tw.ids, "class": cl, "events": evs}
    evs = []
    if kind == "config":
        for o in (["new", a], ["new", some()], ["merge", 2], ["copy", 3]):
            k = len(evs) + 1
            pick = {"merge": 1, "copy": 3}.get(o[0], 1)

            def act(live):
                def go():
                    if o[0] == "new":
                        return Configuration({N.o(v): Vector(v, v * v % 7) for v in o[1]})
                    return live[pick].merge(live[2])[0] if o[0] == "merge" else live[pick].copy()
                e, hang, r = call(go)
                live[k] = r
                return [e, hang]
            evs.append(tw.step(act, lambda live, r: [r, {i: srt([[N.i(v), c.get(v).x, c.get(v).y] for v in c.vars()]) for i, c in live.items() if c is not None}],
                               lambda: sorted(tw.n.items()), o, pick, k, lambda: [[i, [N.i(v) for v in c.vars()]] for i, c in sorted(tw.q.items()) if c is not None]))
            if evs[-1]["mem"][-1][0] != k:
                evs.pop()
                break
    else:
        x = some()
        op = [["cluster", {"t": "R", "c": 0, "x": x}], ["cluster", {"t": "B", "c": 0, "x": some()}], ["cluster", {"t": "H", "c": b, "x": [y for y in x if y != b]}], ["c", x], ["m", x]]

        class Y(Method):
            def execute(self, m):
                return {}

        def act(live):
            ks = [d_cluster.build(N, d["t"], d["c"], d["x"], random.Random(1)) for _, d in op[:3]]
            live.update(enumerate(ks + [Sel("s", [N.o(i) for i in x]), Y("y", [N.o(i) for i in x[:9]], [N.o(i) for i in x[9:]])], 1))
        evs.append(tw.step(lambda live: call(act, live)[:2], lambda live, r: [r, [d_cluster.describe(N, live[k]) for k in (1, 2, 3) if k in live]], lambda: sorted(tw.n.items()), op))
    return {"kind": kind, "D": [], "tok": tw.ids, "class": [], "events": evs}


KINDS = {"graph": graph, "method": method, "constraint": constraint, "config": config, "fixed": fixed}
CROWD = 4

if __name__ == "__main__":
    cfg = read_cfg()
    out = []
    for i in range(cfg["n"]):
        for k in KINDS:
            rnd = random.Random("%s/%s/%d" % (cfg["seed"], k, i))
            out.append(KINDS[k](rnd, rnd.choice([6, 12, cfg["length"]])))
        if i % CROWD == 0:
            out.append(crowd(random.Random("%s/crowd/%d" % (cfg["seed"], i)), 0))
    emit(cfg["out"], out)
