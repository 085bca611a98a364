"""Checks P01-P06 and C03: exact expectations from the plane geometry specification, replayed."""
import json, os, random, math
import tlc

KINDS = {"P01": ["tri"], "P02": ["ll"], "P03": ["cl", "cc", "ch", "ln"], "P04": ["sc", "vc"], "P05": ["mat", "rnd", "hcs", "cst"], "P06": ["vec", "rot"], "C03": ["tri", "fun", "plus"]}
#            quick M, R   thorough M, R
GRID = {"tri": (3, 0, 5, 0), "ll": (2, 0, 3, 0), "cl": (2, 3, 4, 6), "cc": (5, 6, 9, 12), "ch": (6, 0, 7, 0), "ln": (4, 0, 5, 0), "sc": (6, 0, 14, 0), "vc": (4, 0, 7, 0), "hcs": (4, 0, 9, 0),
        "cst": (2, 0, 3, 0), "rnd": (6, 0, 40, 0), "vec": (2, 0, 3, 0), "rot": (2, 0, 5, 0), "fun": (0, 0, 0, 0), "plus": (1, 0, 2, 0)}
CFG = "SPECIFICATION Spec\nINVARIANT Emit Hold\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind = \"%s\" M = %d R = %d\n"


def gen(kind, n, seed):
    """random cases of one kind, meant to be awkward; the specification says what is right"""
    rnd = random.Random("%s/%s" % (kind, seed))
    pt = lambda m: [rnd.randint(-m, m), rnd.randint(-m, m)]

    def nz(m):
        while True:
            v = pt(m)
            if v != [0, 0]:
                return v
    PY = [[3, 4], [4, 3], [5, 12], [-12, 5], [8, -15], [1, 0], [0, -1], [-20, -21], [7, 24]]
    out = []
    for _ in range(n):
        t = rnd.random()
        if kind == "tri":
            e = rnd.choice([0, 0, 0, 0, 3, 4, 5, 6, 7, 8, 9])
            m = rnd.choice([4, 30, 2000])
            a, b = pt(m), pt(m)
            c = pt(m)
            if t < .2:      # collinear, or nearly
                k, v = rnd.randint(-3, 3), pt(m // 4 + 1)
                b = [a[0] + v[0], a[1] + v[1]]
                c = [a[0] + k * v[0], a[1] + k * v[1]]
                if rnd.random() < .5:
                    c[rnd.randrange(2)] += rnd.choice([1, -1])
            elif t < .4:    # right angle at b, or nearly
                v, k = pt(m // 4 + 1), rnd.randint(-3, 3)
                a = [b[0] + v[0], b[1] + v[1]]
                c = [b[0] - k * v[1], b[1] + k * v[0]]
                if rnd.random() < .5:
                    c[rnd.randrange(2)] += rnd.choice([1, -1])
            elif t < .5:
                b, c = rnd.choice([(a, c), (b, a), (b, b), (a, a)])
            elif t < .6 and e >= 8:
                v = pt(rnd.choice([2, 20]))
                b = [a[0] + v[0], a[1] + v[1]]
            elif t < .62 and e < 4:
                # areas next to nothing for arms of this length, yet far from flat: neighbours in a Farey sequence
                M = rnd.choice([300, 3000, 8000])
                u, w = rnd.randint(1, M), rnd.randint(1, M)
                g = math.gcd(u, w)
                u, w = u // g, w // g
                k = pow(u, -1, w) if w > 1 else 1       # u*k - w*l = 1
                l = (u * k - 1) // w
                j = rnd.choice([0, 1, -1, rnd.randint(-3, 3)])
                v = [l + j * u, k + j * w]
                if rnd.random() < .5:
                    v = [-v[0], -v[1]]
                a = pt(9)
                f = rnd.choice([1, -1])
                b = [a[0] + u * f, a[1] + w]
                c = [b[0] + v[0] * f, b[1] + v[1]]
            elif t < .75 and e >= 4:
                # areas around the tolerance
                w = 10 ** (e - 4)
                L = min(w, 1000)
                k = max(1, min(20000, int(w * w / L)))
                b = [a[0] + L, a[1]]
                c = [b[0] + rnd.randint(-L, L), b[1] + rnd.choice([1, -1]) * rnd.randint(0, 2 * k)]
            out.append(dict(k="tri", a=list(a), b=list(b), c=list(c), e=e))
        elif kind == "ll":
            m = rnd.choice([3, 8, 20])
            p, v, q, w = pt(m), nz(m), pt(m), nz(m)
            if t < .15:
                k = rnd.choice([-2, -1, 1, 3])
                w = [k * v[0], k * v[1]]
                if rnd.random() < .4:
                    q = [p[0] + k * v[0], p[1] + k * v[1]]
            elif t < .4:     # meet at or next to the origin of a ray
                k = rnd.randint(-3, 3)
                q = [p[0] + k * v[0], p[1] + k * v[1]]
            elif t < .55:
                v = rnd.choice([[v[0] or 1, 0], [0, v[1] or 1]])
                if rnd.random() < .5:
                    w = rnd.choice([[w[0] or 1, 0], [0, w[1] or 1]])
            elif t < .65:    # nearly parallel
                w = [3 * v[0] + rnd.choice([0, 1]), 3 * v[1] + rnd.choice([0, 1])]
                if w == [0, 0]:
                    w = [1, 0]
            if t > .98:      # no direction at all
                v, w = rnd.choice([(v, [0, 0]), ([0, 0], w), ([0, 0], [0, 0])])
            out.append(dict(k="ll", p=p, v=v, q=q, w=w))
        elif kind == "cl":
            m = rnd.choice([3, 8, 20])
            p, r, q, v = pt(m), rnd.randint(0, m), pt(m), nz(rnd.choice([2, 6]))
            if t < .3:       # tangent: the foot of the perpendicular has length r
                g = rnd.choice(PY)
                h = int(round(math.hypot(*g)))
                k = rnd.choice([-1, 1])
                r = h
                v = [-g[1] * k // 1, g[0] * k]
                j = rnd.randint(-2, 2)
                q = [p[0] + g[0] + j * v[0], p[1] + g[1] + j * v[1]]
                if rnd.random() < .25:
                    r += rnd.choice([1, -1])
            elif t < .5:     # the ray starts on the circle
                g = rnd.choice(PY)
                r = int(round(math.hypot(*g)))
                q = [p[0] + g[0], p[1] + g[1]]
            elif t < .6:
                v = rnd.choice([[v[0] or 1, 0], [0, v[1] or -1]])
            elif t < .65:
                q = list(p)
            if t > .98:
                v = [0, 0]
            out.append(dict(k="cl", p=p, r=r, q=q, v=v))
        elif kind == "cc":
            m = rnd.choice([3, 8, 20])
            p, r, q, s = pt(m), rnd.randint(0, m), pt(m), rnd.randint(0, m)
            if t < .4:
                g = rnd.choice(PY)
                h = int(round(math.hypot(*g)))
                q = [p[0] + g[0], p[1] + g[1]]
                s = rnd.choice([h - r, h + r, r - h, h])
                if s < 0:
                    s = -s
                if rnd.random() < .2:
                    s += 1
                s = min(s, 60)
            elif t < .5:
                s = r
            elif t < .55:
                q = list(p)
            elif t < .65:    # centre of one on the other
                g = rnd.choice(PY)
                q, r = [p[0] + g[0], p[1] + g[1]], int(round(math.hypot(*g)))
            out.append(dict(k="cc", p=p, r=r, q=q, s=s))
        elif kind == "ch":
            while True:
                m, k = rnd.randint(1, rnd.choice([10, 100, 1000, 20000])), rnd.randint(1, rnd.choice([1, 3, 30, 200]))
                if m * k < 30000 and m * m + k * k < 10 ** 9:
                    break
            out.append(dict(k="ch", m=m, n=k, g=rnd.choice([1, -1])))
        elif kind == "ln":
            b, c, g = 1, 1, 1
            if rnd.random() < .6:        # of one size: (a, e) = (ab, ce) = (ac, be)
                e = rnd.randint(1, rnd.choice([10, 100, 1000, 20000]))
                a = e + rnd.randint(1, rnd.choice([1, 3, 20, 100]))
            else:
                e = rnd.randint(1, rnd.choice([4, 20, 140]))
                a, b, c = (e + rnd.randint(0, rnd.choice([1, 3, 8])) for _ in range(3))
                g = rnd.choice([1, -1])
            out.append(dict(k="ln", a=a, b=b, c=c, e=e, g=g))
        elif kind in ("sc", "vc"):
            e = rnd.choice([4, 5, 6, 7, 8, 9, 10])
            d = rnd.choice(["both", "both", "both", "abs", "rel"])
            An, Ad = (10 ** (e - 8), 1) if e >= 8 else (1, 10 ** (8 - e))
            rn, rd = 1, 100000
            if d == "abs":
                rn, rd = rnd.choice([(0, 1), (1, 100), (1, 10), (1, 1)])
            if d == "rel":
                An, Ad = rnd.choice([0, 1, 50, 10 ** 4]), 1

            def near():
                b = rnd.choice([0, 1, rnd.randint(1, 200), rnd.randint(10 ** 5, 10 ** 7), rnd.randint(10 ** 8, 10 ** 9)]) * rnd.choice([1, -1])
                w = An / Ad + rn * abs(b) / rd
                if rnd.random() < .8:
                    a = b + rnd.choice([1, -1]) * max(0, int(w) + rnd.choice([-2, -1, 0, 1, 2, int(w * .3), -int(w * .3)]))
                else:
                    a = rnd.choice([0, -b, b, rnd.randint(-10 ** 9, 10 ** 9)])
                lim = 10 ** 9
                a = max(-lim, min(lim, a))
                return (a, b) if rnd.random() < .7 or rd != 100000 else (b, a)
            x = dict(k=kind, fam="dec", d=d, An=An, Ad=Ad, rn=rn, rd=rd, e=e)
            if kind == "sc":
                x["a"], x["b"] = near()
            else:
                (a, b), (c, f) = near(), near()
                x["u"], x["w"] = [a, c], [b, f]
            out.append(x)
        elif kind == "mat":
            i, j, l = rnd.choice([1, 2, 3, 3, 4]), rnd.choice([1, 2, 3, 3, 4]), rnd.choice([1, 2, 3, 4])
            if t < .5:
                j = i
            rows = lambda a, b: [[rnd.randint(-5, 5) for _ in range(b)] for _ in range(a)]
            A = rows(i, j)
            if t < .1 and i == j:   # a zero pivot
                A[0][0] = 0
            B = rows(j if rnd.random() < .8 else rnd.choice([1, 2, 3, 4]), l)
            out.append(dict(k="mat", A=A, B=B))
        elif kind == "rnd":
            d = rnd.random() < .3
            p = 4 if d else rnd.randint(-2, 6)
            u = 10 ** (6 - p)

            def num():
                s = rnd.random()
                if s < .4:
                    return rnd.randint(-5 * 10 ** 8, 5 * 10 ** 8)
                if s < .6:
                    return rnd.randint(-3 * u, 3 * u) if u < 10 ** 8 else rnd.randint(-u, u)
                b = rnd.randint(-20, 20) * u if u < 10 ** 7 else rnd.randint(-2, 2) * u
                return b + rnd.choice([0, u // 2, u // 2 + 1, -(u // 2) - 1, u // 2 - 1, 1, -1])
            i, j = rnd.choice([1, 2, 3, 4]), rnd.choice([1, 2, 3])
            if t < .3:
                i, j = 2, 1
            out.append(dict(k="rnd", M=[[num() for _ in range(j)] for _ in range(i)], p=p, **{"def": d}))
        elif kind == "hcs":
            e = rnd.choice([0, 0, 0, 8, 9, 10])
            m = rnd.choice([2, 9, 40])
            a = pt(m)
            b = pt(m) if rnd.random() < .8 else list(a)
            if e > 8:
                b = [a[0] + rnd.randint(-3, 3) * 10 ** (e - 8), a[1] + rnd.randint(-3, 3) * 10 ** (e - 8)]
            out.append(dict(k="hcs", a=a, b=b, e=e))
        elif kind == "cst":
            a, c = pt(9), pt(9)
            u, w = nz(9), nz(9)
            out.append(dict(k="cst", a=a, b=[a[0] + u[0], a[1] + u[1]], c=c, d=[c[0] + w[0], c[1] + w[1]]))
        elif kind == "vec":
            out.append(dict(k="vec", u=pt(1000), w=pt(rnd.choice([2, 1000])), n=rnd.randint(-100, 100)))
        elif kind == "rot":
            out.append(dict(k="rot", u=pt(rnd.choice([3, 200])), n=rnd.randint(-9, 9), g=rnd.choice(PY)))
    return out


def run(ctx):
    q = ctx.quick
    kinds = KINDS[ctx.prop]
    d = tlc.prepare(ctx.scratch, "plane")
    nrand = {"mat": 500}.get
    cases = []
    for k in kinds:
        if k not in ("fun", "plus"):
            cases += gen(k, (12000 if k != "mat" else 3000) * (1 if q else 8), ctx.seed)
    random.Random(ctx.seed).shuffle(cases)
    with open(os.path.join(d, "cases.json"), "w") as f:
        json.dump(cases, f)
    procs = [tlc.start(d, "PlaneFile", "PlaneFile.cfg", workers=2 if q else 4)]
    for k in kinds:
        if k != "mat":
            M, R = GRID[k][:2] if q else GRID[k][2:]
            procs.append(tlc.start(d, "PlaneGrid", "PlaneGrid_%s.cfg" % k, workers=2, cfgtext=CFG % (k, M, R)))
    f = os.path.join(d, "expect.jsonl")
    n = 0
    with open(f, "w") as out:
        for p in procs:
            res = tlc.finish(p, 800)
            ctx.tlc_done(res)
            m = 0
            for _, x in tlc.emitted(res, "EX"):
                out.write(json.dumps(x) + "\n")
                m += 1
            if 2 * m != res["distinct"] or m == 0:
                raise tlc.Machinery("%s: %d of %d expectations emitted" % (p.what, m, res["distinct"] // 2))
            n += m
    parts = 6
    ws = ctx.drive_many("d_geom", [dict(file=f, prop=ctx.prop, seed="%s/%d" % (ctx.seed, i), part=i, parts=parts, reps=5 if q else 10, debug=i == 1) for i in range(parts)],
                        [ctx.seed + i for i in range(parts)])
    if sum(w["cases"] for w in ws) != n:
        raise tlc.Machinery("driver replayed %d of %d cases" % (sum(w["cases"] for w in ws), n))
    ctx.cov["traces_validated_against_impl"] += n
    ctx.cov["calls_compared"] = sum(w["calls"] for w in ws)
    ctx.cov["comparisons_skipped_next_to_a_tolerance_boundary"] = sum(w["skipped"] for w in ws)
    if ctx.cov["comparisons_skipped_next_to_a_tolerance_boundary"] > .5 * ctx.cov["calls_compared"]:
        raise tlc.Machinery("most comparisons were skipped")
    ctx.assume.append("results are compared within a floating-point tolerance; cases within rounding of a tolerance boundary are not judged")
    ctx.sample({"case": cases[0]})
    for w in ws:
        for m in w["mismatches"]:
            ctx.violation("%s: %s" % (m["what"], json.dumps(m["case"])), m)
