"""Shared by the drivers, which run the real code (venv python, PYTHONPATH=/repo)."""
import gc, collections, signal, sys, resource, random, json, os, logging, io


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)
try:
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
except Exception:
    pass
sys.setrecursionlimit(3000)


def setup_logging(mode):
    """mode: 'off' or 'debug' (debug records are formatted into a sink; a formatting error is counted)."""
    root = logging.getLogger()
    for hd in list(root.handlers):
        root.removeHandler(hd)
    if mode == "debug":
        class Sink(logging.Handler):
            errors = 0

            def emit(self, record):
                try:
                    record.getMessage()
                except Exception:
                    Sink.errors += 1
        root.addHandler(Sink())
        root.setLevel(logging.DEBUG)
        return Sink
    root.setLevel(logging.CRITICAL)
    return None


_stuck = [0]


def call(fn, *a, seconds=5, **k):
    """-> (err, hang, result); err is the exception class name or ''.  Code that keeps hanging gets less and less time."""
    if _stuck[0] > 2:
        seconds = min(seconds, 1 if _stuck[0] < 8 else .2)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    err = ""
    try:
        return "", False, fn(*a, **k)
    except Hang:
        _stuck[0] += 1
        return "Hang", True, None
    except MemoryError:
        err = "MemoryError"
    except Exception as e:
        return type(e).__name__, False, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    _stuck[0] += 1
    gc.collect()
    return err, False, None


class Same:
    """Distinct objects that all hash alike, compared by identity."""
    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Same%d" % self.n


class Key:
    """Equal by value, not by identity: lookups must use equality."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Key) and o.n == self.n

    def __hash__(self):
        return hash(("Key", self.n % 3))

    def __repr__(self):
        return "Key%d" % self.n


def name_palettes(size=10):
    """Concrete hashable objects standing for the names 1..size of the model."""
    out = [
        ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"],
        list(range(10)),                       # 0 is falsy
        ["", 0, (), None, frozenset(), -1, -2, 1.5, ("x",), "zz"],
        [Same(i) for i in range(10)],
        ["node10", "node9", "v 1", "v\t2", "x,y", "{0}", "%s", "A", "a", "\u03b1"],
        [(0, 0), (0, 1), (1, 0), (1, 1), (0,), (1,), (2, 0), (0, 2), (2, 2), (3,)],
        [object() for _ in range(10)],
        [-3, 10 ** 20, 2, 0.5, "1", 1, "0", 0, b"0", 3],
        [Key(i) for i in range(10)],
        [1000, 1001, -1000, 10 ** 9, "point one", "point two", ("p", 1), ("p", 2), b"bytes", 2.25],
    ]
    more = [lambda i: "n%d" % i, lambda i: i, lambda i: ("m", i), Same, lambda i: "v %d" % i, lambda i: (i, i), lambda i: object(), lambda i: str(i), Key, lambda i: i + .5]
    for p, f in zip(out, more):
        p += [f(i) for i in range(10, size)]
    return out


def twin(x):
    """An equal object, not the same one where that can be had."""
    t = type(x)
    if t is str:
        return "".join(list(x))
    if t is bytes:
        return bytes(bytearray(x))
    if t is tuple:
        return tuple(list(x))
    if t is frozenset:
        return frozenset(set(x))
    if t is int:
        return int(str(x))
    if t is float:
        return float(repr(x))
    if t is Key:
        return Key(x.n)
    return x


class Rich(dict):
    """a mapping that has an answer to everything"""
    def __missing__(self, k):
        return None


def mapping(rnd, d):
    """d as some kind of dictionary"""
    k = rnd.randrange(7)
    if k == 0:
        return collections.OrderedDict(d)
    if k == 1:
        return collections.defaultdict(lambda: None, d)
    if k == 2:
        return Rich(d)
    return dict(d)


def collection(rnd, xs, once=False):
    """distinct xs as some kind of collection"""
    k = rnd.randrange(9)
    if k == 0:
        return tuple(xs)
    if k == 1:
        return set(xs)
    if k == 2:
        return frozenset(xs)
    if k == 3:
        return dict.fromkeys(xs)
    if k == 4:
        return dict.fromkeys(xs).keys()
    if k == 5:
        return collections.deque(xs)
    if k == 6 and once:
        return iter(xs)
    return list(xs)


def run_all(rnd, gens):
    """Advances generators in a random order until all are done. -> what they returned"""
    out = [None] * len(gens)
    live = list(range(len(gens)))
    while live:
        i = rnd.choice(live)
        try:
            for _ in range(rnd.choice([1, 1, 2, 5])):
                next(gens[i])
        except StopIteration as x:
            out[i] = x.value
            live.remove(i)
    return out


class Names:
    """Names 1..n and the objects standing for them.  With rnd, o() now and then hands out an equal object instead of the
    same one; numbers may come as another numeric type (1, 1.0, True are one name to any Python collection)."""
    def __init__(self, objs, rnd=None, loose=True):
        self.objs, self.rnd = objs, rnd
        self.loose = loose
        self.byid = {id(x): k + 1 for k, x in enumerate(objs)}

    def o(self, i):
        x = self.objs[i - 1]
        if self.rnd is not None and self.rnd.random() < .5:
            if self.loose and type(x) in (int, float) and self.rnd.random() < .1:
                for y in (float(x), bool(x)):
                    if y == x and type(y) is not type(x) and hash(y) == hash(x) and self.rnd.random() < .6:
                        return y
            return twin(x)
        return x

    def i(self, obj):
        k = self.byid.get(id(obj))
        if k:
            return k
        for k, x in enumerate(self.objs):
            if x is obj:
                return k + 1
        for k, x in enumerate(self.objs):
            try:
                if x == obj:
                    return k + 1
            except Exception:
                pass
        return 999


def scribble(rnd, r):
    """a returned collection belongs to the caller"""
    try:
        if isinstance(r, list):
            k = rnd.randrange(4)
            if k == 0:
                r.clear()
            elif k == 1:
                r.append("scribble")
            elif k == 2:
                r.pop()
            else:
                r.reverse()
                r.extend(r[:1])
        elif isinstance(r, set):
            r.clear() if rnd.random() < .5 else r.add("scribble")
    except Exception:
        pass


def emit(path, data):
    with open(path, "w") as f:
        json.dump(data, f, separators=(",", ":"), default=repr, skipkeys=True)


def read_cfg():
    return json.load(open(sys.argv[1]))


class Walker:
    """Plans walks from init that together take every transition in todo.
    trans: state -> [(action, target)];  todo: state -> [indices still to take]"""
    def __init__(self, trans, todo, init, rnd, maxlen=300):
        self.trans, self.todo, self.init, self.rnd, self.maxlen = trans, todo, init, rnd, maxlen
        self.left = sum(map(len, todo.values()))
        # one random action per distinct successor
        self.succ = {}
        for s, ts in trans.items():
            d = {}
            for j, (a, t) in enumerate(ts):
                if t != s:
                    d.setdefault(t, []).append(j)
            L = [(t, js) for t, js in d.items()]
            rnd.shuffle(L)
            self.succ[s] = L
        # tree of shortest paths from init
        self.par, self.order = {init: None}, [init]
        for s in self.order:
            for t, js in self.succ.get(s, ()):
                if t not in self.par:
                    self.par[t] = (s, js)
                    self.order.append(t)
        self.open = list(self.order)
        rnd.shuffle(self.open)

    def near(self, cur):
        """a shortest way, of at most two steps, to a state with something left to take"""
        for t, js in self.succ.get(cur, ()):
            if self.todo.get(t):
                return [(cur, self.rnd.choice(js))]
        for t, js in self.succ.get(cur, ())[:12]:
            for u, ks in self.succ.get(t, ()):
                if self.todo.get(u):
                    return [(cur, self.rnd.choice(js)), (t, self.rnd.choice(ks))]
        return None

    def walks(self):
        """yields an iterator of (action, source, target) per walk; close it to abandon the walk"""
        while self.left > 0:
            while self.open and not self.todo.get(self.open[-1]):
                self.open.pop()
            if not self.open:
                return
            yield self.walk(self.open[-1])

    def walk(self, goal):
        path, s = [], goal
        while self.par[s]:
            s, js = self.par[s]
            path.append((s, self.rnd.choice(js)))
        path.reverse()
        cur, n = self.init, 0
        while n < self.maxlen:
            if not path:
                if self.todo.get(cur):
                    path = [(cur, self.todo[cur].pop())]
                    self.left -= 1
                else:
                    path = self.near(cur)
                    if not path:
                        return
            s, j = path.pop(0)
            if self.todo.get(s) and j in self.todo[s]:
                self.todo[s].remove(j)
                self.left -= 1
            a, t = self.trans[s][j]
            yield a, s, t
            cur = t
            n += 1
