"""Checks F01-F04: configurations."""
import json, os, random
import tlc

CLAUSES = {"F01": {"equality", "hash", "outcome"}, "F02": {"merge_vars", "merge_first", "merge_motion", "outcome"},
           "F03": {"flag", "flag_copy", "flag_changed", "flag_new", "outcome"},
           "F04": {"point_changed", "flag_changed", "mapping_changed", "outcome", "refusal", "new", "copy", "flag_copy", "add", "select", "transform", "merge_first"}}
OPS = {"F01": {"eq", "alien", "new"}, "F02": {"merge"}, "F03": {"merge", "copy"}, "F04": {"new", "copy", "add", "select", "transform", "merge", "eq"}}
PY = [(3, 4, 5), (4, -3, 5), (-5, 12, 13), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (1, 0, 1), (-8, -15, 17)]


def fits(A, B):
    """TLC computes the case in 32 bits"""
    far = lambda D, V: max([(D[i][0] - D[j][0]) ** 2 + (D[i][1] - D[j][1]) ** 2 for i in V for j in V] or [0])
    S = set(A) & set(B)
    turn = far(A, S) * far(B, S)
    return turn < 2 ** 29 and far(B, B) * turn < 2 ** 58 and far(A, A) < 2 ** 29


def gen(prop, n, seed):
    """pairs of configurations: related by a motion, nearly so, reflected, or unrelated"""
    rnd = random.Random("%s/%s" % (prop, seed))
    out = []
    while len(out) < n:
        N = rnd.choice([1, 2, 3, 3, 4, 5, 6]) if rnd.random() < .95 else rnd.choice([7, 8, 9, 10, 12, 14])
        m = rnd.choice([1, 2, 4])
        pt = lambda: [rnd.randint(-m, m), rnd.randint(-m, m)]
        base = {i: pt() for i in range(1, N + 1)}
        t = rnd.random()
        if t < .15:            # all on one spot, or on two
            spots = [pt() for _ in range(rnd.choice([1, 2]))]
            base = {i: list(rnd.choice(spots)) for i in base}
        elif t < .3:           # on a line
            d, o = pt(), pt()
            base = {i: [o[0] + k * d[0], o[1] + k * d[1]] for i in base for k in [rnd.randint(-2, 2)]}
        elif t < .5:           # some on one spot
            i = rnd.choice(list(base))
            for j in rnd.sample(list(base), rnd.randint(0, N - 1)):
                base[j] = list(base[i])
        c, s, h = rnd.choice(PY if m < 4 else [g for g in PY if g[2] < 10])
        sh = [rnd.randint(-9, 9), rnd.randint(-9, 9)]
        if rnd.random() < .25:  # one point stays where it is
            p = rnd.choice(list(base.values()))
            sh = [p[0] * h - (p[0] * c - p[1] * s), p[1] * h - (p[0] * s + p[1] * c)]
        A = {i: [p[0] * h, p[1] * h] for i, p in base.items()}
        B = {i: [p[0] * c - p[1] * s + sh[0], p[0] * s + p[1] * c + sh[1]] for i, p in base.items()}
        t = rnd.random()
        if t < .12:            # reflected
            B = {i: [-p[0], p[1]] for i, p in B.items()}
        elif t < .2:           # scaled
            B = {i: [2 * p[0], 2 * p[1]] for i, p in B.items()}
        elif t < .35:          # one point displaced
            i = rnd.choice(list(B))
            B[i] = [B[i][0] + rnd.choice([-1, 0, 1]), B[i][1] + rnd.choice([-1, 0, 1])]
        elif t < .45:          # two points exchanged
            i, j = rnd.choice(list(B)), rnd.choice(list(B))
            B[i], B[j] = B[j], B[i]
        elif t < .55:          # unrelated
            B = {i: pt() for i in B}
        elif t < .65:          # one collapses
            i = rnd.choice(list(B))
            B = {k: list(B[i]) for k in B}
        if prop == "F01":
            if rnd.random() < .2:
                A = {i: A[i] for i in rnd.sample(list(A), rnd.randint(0, len(A)))}
            if rnd.random() < .2:
                B = {i: B[i] for i in rnd.sample(list(B), rnd.randint(0, len(B)))}
        else:
            # how many names are shared
            names = list(A)
            rnd.shuffle(names)
            k = rnd.choice([0, 1, 1, 2, 2, 3, len(names)])
            shared, rest = names[:k], names[k:]
            a = shared + [i for i in rest if rnd.random() < .5]
            b = shared + [i for i in rest if i not in a]
            if rnd.random() < .3 and len(names) > 1:
                b += [i for i in rest if i not in b and rnd.random() < .3]
            A, B = {i: A[i] for i in a}, {i: B[i] for i in b}
            # points of one configuration alone, far from the ones that are shared
            if h <= 5 and set(A) != set(B) and rnd.random() < .3:
                for i in rnd.sample(sorted(set(A) ^ set(B)), rnd.randint(1, len(set(A) ^ set(B)))):
                    (A if i in A else B)[i] = [rnd.choice([-1, 1]) * rnd.randint(200, 2000), rnd.randint(-2000, 2000)]
        if not fits(A, B):
            continue
        seq = lambda d: [[i] + d[i] for i in rnd.sample(sorted(d), len(d))]
        M = [[rnd.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        if rnd.random() < .5:
            M[2] = [0, 0, rnd.choice([1, 2, -1])]
        sel = [rnd.randint(1, N + 1) for _ in range(rnd.randint(0, 3))] if rnd.random() < .4 else [i for i in A if rnd.random() < .6]
        out.append(dict(a=dict(m=seq(A), f=rnd.random() < .15), b=dict(m=seq(B), f=rnd.random() < .15), s=sel, t=M))
    return out


def run(ctx):
    q = ctx.quick
    d = tlc.prepare(ctx.scratch, "cases")
    cases = gen(ctx.prop, 6000 if q else 40000, ctx.seed)
    with open(os.path.join(d, "cases.json"), "w") as f:
        json.dump(cases, f)
    n, W, H = (3, 1, 1) if q else (3, 2, 1)
    ps = [tlc.start(d, "ConfigFile", "ConfigFile.cfg", workers=4),
          tlc.start(d, "ConfigGrid", "ConfigGrid.cfg", workers=4, cfgtext="SPECIFICATION Spec\nINVARIANT Emit Hold\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d W = %d H = %d\n" % (n, W, H))]
    # recorded histories meanwhile
    procs = 4
    cfgs = [dict(mode="random", n=400 if q else 4000, length=14, seed="%s/%s/%d" % (ctx.prop, ctx.seed, i), debug=i == 1) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_config", cfgs, [ctx.seed * 17 + i for i in range(procs)]) for h in r]
    f = os.path.join(d, "expect.jsonl")
    total = 0
    with open(f, "w") as out:
        for p in ps:
            res = tlc.finish(p, 800)
            ctx.tlc_done(res)
            m = 0
            for _, x in tlc.emitted(res, "EX"):
                out.write(json.dumps(x) + "\n")
                m += 1
            if 2 * m != res["distinct"] or not m:
                raise tlc.Machinery("%s: %d of %d expectations emitted" % (p.what, m, res["distinct"] // 2))
            total += m
    parts = 6
    ws = ctx.drive_many("d_config", [dict(mode="cases", file=f, prop=ctx.prop, seed="%s/%d" % (ctx.seed, i), part=i, parts=parts, reps=2 if q else 6, debug=i == 1) for i in range(parts)],
                        [ctx.seed + i for i in range(parts)])
    if sum(w["cases"] for w in ws) != total:
        raise tlc.Machinery("driver replayed %d of %d cases" % (sum(w["cases"] for w in ws), total))
    ctx.cov["traces_validated_against_impl"] += total + len(hs)
    ctx.cov["cases_replayed"] = total
    ctx.cov["histories_judged"] = len(hs)
    ctx.sample({"case": cases[0]})
    for w in ws:
        for m in w["mismatches"]:
            ctx.violation("%s: %s" % (m["what"], json.dumps(m["case"])), m)
    td = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(td, "ConfigTrace", "ConfigTrace.cfg", hs)
    ctx.tlc_done(res)
    ctx.cov["events_judged"] = sum(map(len, hs))
    ctx.sample([[e["o"], e["i"], e["j"]] for e in hs[0]])
    ctx.assume.append("results are compared within a floating-point tolerance; recorded histories use quarter turns, so that coordinates stay integers")
    for b in bad:
        evs = hs[b["h"] - 1][:b["l"]]
        if set(b["clauses"]) & CLAUSES[ctx.prop] and not (set(b["clauses"]) == {"outcome"} and evs[-1]["o"] not in OPS[ctx.prop]):
            ctx.violation("history rejected at call %d (%s): %s" % (b["l"], evs[-1]["o"], ",".join(b["clauses"])), {"clauses": b["clauses"], "events": evs})
