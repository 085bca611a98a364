"""Checks G01-G04."""
import json, os
import tlc

REMOVALS = ("remove_vertex", "remove_edge", "remove_bi_edge")
DERIVES = ("copy", "ctor", "reverse", "subgraph")
REACH = ("path", "connected", "connected_in", "connected_out", "via_in", "via_out", "subsets", "connected_subsets")


def relevant(prop, hist_ops, clauses):
    """Is a divergence at the end of hist_ops (list of op names) a breach of this property?"""
    last = hist_ops[-1]
    reach = [c for c in clauses if c.replace("stale_", "") in REACH]
    other = [c for c in clauses if c.replace("stale_", "") not in REACH]
    if prop == "G01":
        return bool(other) and not (set(other) == {"outcome"} and last in REACH)
    if prop == "G02":
        return any(o in REMOVALS for o in hist_ops) and bool(other)
    if prop == "G03":
        return any(o in DERIVES for o in hist_ops) and bool(other)
    if prop == "G04":
        return bool(reach) or last in REACH
    return True


def model(ctx, cfg, only=None, reach=False, seeds=(0,)):
    """Exhaustive model, then a walk of every transition on the real class."""
    d = tlc.prepare(ctx.scratch, "mc_" + cfg)
    res = tlc.run(d, "GraphMC", "GraphMC_%s.cfg" % cfg, workers=1)
    ctx.tlc_done(res)
    f = os.path.join(d, "graph.jsonl")
    n = 0
    with open(f, "w") as out:
        for p, x in tlc.emitted(res, "ST", "TR"):
            out.write(json.dumps(x) + "\n")
            n += 1
    if n < 100:
        raise tlc.Machinery("GraphMC emitted almost nothing")
    nv = {"one": 3, "two": 2, "val": 2}[cfg]
    outs = ctx.drive_many("d_graph", [dict(mode="walk", file=f, seed="%s/%d" % (ctx.seed, i), nv=nv, ops=only, reach=reach) for i in range(len(seeds))], seeds)
    for w in outs:
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["model_transitions_replayed"] = ctx.cov.get("model_transitions_replayed", 0) + w["steps"]
        if w["unvisited"] and not w["mismatches"]:
            raise tlc.Machinery("walk left %d transitions unvisited" % w["unvisited"])
        for m in w["mismatches"]:
            ops = [e["op"][0] for e in m["hist"]]
            if relevant(ctx.prop, ops, m["clauses"]):
                ctx.violation("model transition not followed: %s after %s (%s)" % (m["hist"][-1]["op"], len(ops) - 1, ",".join(m["clauses"])), m)


def traces(ctx, n, length, sizes, procs=4):
    cfgs = [dict(mode="random", focus=ctx.prop, n=n, length=length, sizes=sizes, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_graph", cfgs, [ctx.seed * 7 + i for i in range(procs)]) for h in r]
    d = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(d, "GraphTrace", "GraphTrace.cfg", hs)
    ctx.tlc_done(res)
    ctx.cov["traces_validated_against_impl"] += len(hs)
    ctx.cov["events_judged"] = ctx.cov.get("events_judged", 0) + sum(map(len, hs))
    ctx.sample([e["op"] for e in hs[0]][:40])
    for b in bad:
        evs = hs[b["h"] - 1][:b["l"]]
        if relevant(ctx.prop, [e["op"][0] for e in evs], b["clauses"]):
            ctx.violation("history rejected at call %d %s: %s" % (b["l"], evs[-1]["op"], ",".join(b["clauses"])),
                          {"clauses": b["clauses"], "calls": [[e["op"], e["h"], e["to"]] for e in evs], "last": evs[-1]})


BIG = """SPECIFICATION Spec
CONSTANTS
  N = %(n)d
  Cut = {%(cut)s}
  Probe = {%(probe)s}
  MaxCalls = %(calls)d
  EmitOn = TRUE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
"""


def large(ctx, n, num, calls=5, procs=4):
    """Closed forms proved on small graphs, then demanded of large ones."""
    d = tlc.prepare(ctx.scratch, "gb")
    ps = [] if n < 100 else tlc.start(d, "GraphBlocks", "GraphBlocks_small.cfg" if ctx.quick else "GraphBlocks_five.cfg", workers=2)
    mid = n // 2
    cfg = BIG % dict(n=n, cut=", ".join(map(str, [1, 2, 3, mid, mid + 1, n - 1, n])), probe=", ".join(map(str, [1, 2, mid, n - 1, n])), calls=calls)
    res = tlc.run(d, "GraphBlocks", "gb_large.cfg", cfgtext=cfg, extra=["-simulate", "num=%d" % num, "-depth", str(calls + 1), "-seed", str(ctx.seed * 1000 + len(ctx.prop) + ord(ctx.prop[-1]))])
    # the siblings of each last step are printed too: keep one per walk
    stems = {}
    for i, (_, x) in enumerate(tlc.emitted(res, "HI")):
        k = json.dumps([y["a"] for y in x[:-1]])
        L = stems.setdefault(k, [])
        if len(L) < 60:
            L.append(x)
    hists = [L[(7 * i) % len(L)] for i, L in enumerate(stems.values())]
    if len(hists) < num // 3:
        raise tlc.Machinery("GraphBlocks emitted almost nothing")
    if ps:
        ctx.tlc_done(tlc.finish(ps, 600))
    outs = ctx.drive_many("d_graph", [dict(mode="large", hists=hists[i::procs], nv=n, seed="%s/%d" % (ctx.seed, i), reach=ctx.prop == "G04") for i in range(procs)], range(procs))
    for w in outs:
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["large_graph_calls"] = ctx.cov.get("large_graph_calls", 0) + w["steps"]
        for m in w["mismatches"]:
            if relevant(ctx.prop, [e["op"][0] for e in m["hist"]], m["clauses"]):
                ctx.violation("graph of %d vertices: %s (%s)" % (n, m["hist"][-1]["op"], ",".join(m["clauses"])), m)


def run(ctx):
    large(ctx, 1500 if ctx.quick else 4000, 40 if ctx.quick else 200)
    large(ctx, 60, 150 if ctx.quick else 1500, calls=4)
    q = ctx.quick
    seeds = (1, 2) if q else (1, 2, 3, 4)
    p = ctx.prop
    if p == "G01":
        model(ctx, "one", seeds=seeds)
        model(ctx, "val", seeds=seeds)
        traces(ctx, 60 if q else 600, 60, [2, 3, 4, 5])
    elif p == "G02":
        model(ctx, "one", seeds=seeds)
        traces(ctx, 60 if q else 600, 60, [2, 3, 4, 5])
    elif p == "G03":
        model(ctx, "two", seeds=seeds)
        traces(ctx, 60 if q else 600, 60, [2, 3, 4, 5])
    elif p == "G04":
        model(ctx, "one", reach=True, seeds=seeds)
        traces(ctx, 80 if q else 800, 60, [3, 4, 5, 6, 7])
