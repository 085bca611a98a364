"""Checks K01-K03."""
import json, os
import tlc

MINE = {"K01": {"outcome", "intersection", "intersection_swapped", "operand_changed", "constructor", "life_inter", "life_flag", "life_grow", "life_ask"},
        "K02": {"outcome", "common_distances", "common_angles", "common_constraints", "counts", "constructor", "life_ask"},
        "K03": {"life_given", "life_collect", "life_make", "life_alter"}}


def chains(ctx, parts):
    d = tlc.prepare(ctx.scratch, "mc")
    res = tlc.run(d, "ClusterMC", "ClusterMC.cfg", workers=1)
    ctx.tlc_done(res)
    f = os.path.join(d, "graph.jsonl")
    n = 0
    with open(f, "w") as out:
        for _, x in tlc.emitted(res, "ST", "TR"):
            out.write(json.dumps(x) + "\n")
            n += 1
    if n < 5000:
        raise tlc.Machinery("ClusterMC emitted almost nothing")
    for w in ctx.drive_many("d_cluster", [dict(mode="walk", file=f, nv=5, seed="%s/%d" % (ctx.seed, i), part=i, parts=parts if ctx.quick else 1) for i in range(parts)],
                            [ctx.seed + i for i in range(parts)]):
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["model_transitions_replayed"] = ctx.cov.get("model_transitions_replayed", 0) + w["steps"]
        if w["unvisited"] and not w["mismatches"]:
            raise tlc.Machinery("walk left %d transitions unvisited" % w["unvisited"])
        for m in w["mismatches"]:
            if set(m["clauses"]) & MINE[ctx.prop]:
                ctx.violation("chain of intersections not followed at %s (%s)" % (m["hist"][-2:], ",".join(m["clauses"])), m)


def traces(ctx, n, length, procs=4):
    cfgs = [dict(mode="random", n=n, length=length, seed="%s/%d" % (ctx.seed, i), debug=i == 1) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_cluster", cfgs, [ctx.seed * 13 + i for i in range(procs)]) for h in r]
    d = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(d, "ClusterTrace", "ClusterTrace.cfg", hs)
    ctx.tlc_done(res)
    ctx.cov["traces_validated_against_impl"] += len(hs)
    ctx.cov["events_judged"] = sum(map(len, hs))
    ctx.sample([[e["a"], e["b"], e["ab"]] for e in hs[0]])
    for b in bad:
        if set(b["clauses"]) & MINE[ctx.prop]:
            ctx.violation("clusters %s and %s: %s" % (hs[b["h"] - 1][b["l"] - 1]["a"], hs[b["h"] - 1][b["l"] - 1]["b"], ",".join(b["clauses"])), hs[b["h"] - 1][:b["l"]])


def relations(ctx):
    d = tlc.prepare(ctx.scratch, "rel")
    res = tlc.run(d, "RelationMC", "RelationMC.cfg", workers=2)
    ctx.tlc_done(res)
    f = os.path.join(d, "rel.jsonl")
    n = 0
    with open(f, "w") as out:
        for _, x in tlc.emitted(res, "EQ", "MK"):
            out.write(json.dumps(x) + "\n")
            n += 1
    if n != res["distinct"]:
        raise tlc.Machinery("RelationMC: %d of %d emitted" % (n, res["distinct"]))
    for w in ctx.drive_many("d_cluster", [dict(mode="relations", file=f, seed="%s/%d" % (ctx.seed, i)) for i in range(3)], [0, 1, ctx.seed + 40]):
        ctx.cov["traces_validated_against_impl"] += w["cases"]
        ctx.sample({"cases": w["cases"]})
        for m in w["mismatches"]:
            ctx.violation("relation or constructor: %s (%s)" % (m.get("relation") or m.get("constructor"), ",".join(m["clauses"])), m)


BIG = """SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
N = %(n)d
Cut = {%(cut)s}
Steps = 1000
Small = FALSE
"""


def blocks(ctx, n, num, most):
    """Closed forms compared with ClusterOps for every small pair, then demanded of large clusters."""
    d = tlc.prepare(ctx.scratch, "blk%d" % n)
    mid = n // 2
    res = tlc.run(d, "ClusterBlocks", "blk.cfg", cfgtext=BIG % dict(n=n, cut=", ".join(map(str, [1, 2, 3, 4, mid, mid + 1, mid + 2, n - 2, n - 1, n]))),
                  extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(ctx.seed * 100 + n)])
    cases = [x for _, x in tlc.emitted(res, "CL")]
    if len(cases) < 5 * num:
        raise tlc.Machinery("ClusterBlocks emitted almost nothing")
    k = 4
    cuts = [cases[i * len(cases) // k:(i + 1) * len(cases) // k] for i in range(k)]
    for w in ctx.drive_many("d_cluster", [dict(mode="blocks", cases=c, nv=n, most=most, seed="%s/%d" % (ctx.seed, i)) for i, c in enumerate(cuts)], [ctx.seed + i for i in range(k)]):
        ctx.cov["traces_validated_against_impl"] += w["cases"]
        ctx.cov["large_cluster_relations"] = ctx.cov.get("large_cluster_relations", 0) + w["relations"]
        for m in w["mismatches"]:
            if set(m["clauses"]) & MINE[ctx.prop]:
                ctx.violation("clusters among %d points: %s and %s (%s)" % (n, m["case"]["a"], m["case"]["b"], ",".join(m["clauses"])), m)


def large(ctx):
    d = tlc.prepare(ctx.scratch, "blk")
    text = open(os.path.join(d, "ClusterBlocks_small.cfg")).read()
    if not ctx.quick:
        text = text.replace("N = 5", "N = 6").replace("4, 5}", "4, 5, 6}")
    ps = tlc.start(d, "ClusterBlocks", "small.cfg", workers=2, cfgtext=text)
    blocks(ctx, 30, 24 if ctx.quick else 120, 20000)
    blocks(ctx, 240, 24 if ctx.quick else 120, 30000)
    blocks(ctx, 1200, 24 if ctx.quick else 120, 2000)
    ctx.tlc_done(tlc.finish(ps, 900))


def life(ctx, num, procs=4):
    """Programs that make, intersect, flag and change clusters (and the collections they came in)."""
    d = tlc.prepare(ctx.scratch, "life")
    small = tlc.start(d, "ClusterLife", "ClusterLife_small.cfg", workers=2, cfgtext=None if ctx.quick else open(os.path.join(d, "ClusterLife_small.cfg")).read().replace("MaxSrc = 1", "MaxSrc = 2"))
    text = open(os.path.join(d, "ClusterLife_draw.cfg")).read()
    ps = []
    for i in range(procs):
        t = text if i % 2 else text.replace("N = 6", "N = 4").replace("Steps = 40", "Steps = 25")
        ps.append((4 if not i % 2 else 6, tlc.start(d, "ClusterLife", "draw%d.cfg" % i, cfgtext=t, extra=["-simulate", "num=%d" % num, "-depth", "1000", "-seed", str(ctx.seed * 100 + i)])))
    cfgs, total = [], 0
    for i, (nv, p) in enumerate(ps):
        res = tlc.finish(p, 900)
        progs = [x for _, x in tlc.emitted(res, "LF")]
        total += len(progs)
        cfgs.append(dict(mode="life", progs=progs, nv=nv, room=5, seed="%s/%d" % (ctx.seed, i)))
    if total < 10 * num * procs:
        raise tlc.Machinery("ClusterLife emitted almost nothing")
    for w in ctx.drive_many("d_cluster", cfgs, [ctx.seed + i for i in range(procs)]):
        ctx.cov["traces_validated_against_impl"] += w["programs"]
        ctx.cov["program_steps_replayed"] = ctx.cov.get("program_steps_replayed", 0) + w["steps"]
        for m in w["mismatches"]:
            if set(m["clauses"]) & MINE[ctx.prop]:
                ctx.violation("program with clusters not followed at %s (%s)" % (m["hist"][-1], ",".join(m["what"])), m)
    ctx.tlc_done(tlc.finish(small, 900))


def run(ctx):
    q = ctx.quick
    life(ctx, 12 if q else 80)
    if ctx.prop == "K03":
        relations(ctx)
    else:
        chains(ctx, 4 if q else 8)
        large(ctx)
        traces(ctx, 120 if q else 2000, 12)
