"""Checks C01 and C02."""
import json, os
import tlc

TABLE = [[1, 2], [2, 3, 4], [1, 1], [3], [4, 1, 2]]      # as in ConstraintMC.tla


def relevant(prop, ops):
    return prop == "C01" or any(o.startswith("rem") for o in ops)


def model(ctx, seeds):
    d = tlc.prepare(ctx.scratch, "mc")
    res = tlc.run(d, "ConstraintMC", "ConstraintMC.cfg")
    ctx.tlc_done(res)
    f = os.path.join(d, "graph.jsonl")
    n = 0
    with open(f, "w") as out:
        for _, x in tlc.emitted(res, "ST", "TR"):
            out.write(json.dumps(x) + "\n")
            n += 1
    if n < 500:
        raise tlc.Machinery("ConstraintMC emitted almost nothing")
    for w in ctx.drive_many("d_constraint", [dict(mode="walk", file=f, seed="%s/%d" % (ctx.seed, i), nv=4, cons=TABLE) for i in range(len(seeds))], seeds):
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["model_transitions_replayed"] = ctx.cov.get("model_transitions_replayed", 0) + w["steps"]
        if w["unvisited"] and not w["mismatches"]:
            raise tlc.Machinery("walk left %d transitions unvisited" % w["unvisited"])
        for m in w["mismatches"]:
            if relevant(ctx.prop, [o[0] for o in m["hist"]]):
                ctx.violation("model transition not followed: %s after %d calls (%s)" % (m["hist"][-1], len(m["hist"]) - 1, ",".join(m["clauses"])), m)


def traces(ctx, n, length, procs=4):
    cfgs = [dict(mode="random", focus=ctx.prop, n=n, length=length, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_constraint", cfgs, [ctx.seed * 11 + i for i in range(procs)]) for h in r]
    d = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(d, "ConstraintTrace", "ConstraintTrace.cfg", [{"cons": h["cons"], "events": h["events"]} for h in hs])
    ctx.tlc_done(res)
    ctx.cov["traces_validated_against_impl"] += len(hs)
    ctx.cov["events_judged"] = sum(len(h["events"]) for h in hs)
    ctx.sample({"constraints": hs[0]["cons"], "calls": [e["op"] for e in hs[0]["events"]]})
    for b in bad:
        h = hs[b["h"] - 1]
        evs = h["events"][:b["l"]]
        if relevant(ctx.prop, [e["op"][0] for e in evs]):
            ctx.violation("history rejected at call %d %s: %s" % (b["l"], evs[-1]["op"], ",".join(b["clauses"])),
                          {"clauses": b["clauses"], "constraints": h["cons"], "names": h["names"], "calls": [e["op"] for e in evs], "last": evs[-1]})


BIG = """SPECIFICATION Spec
CONSTANTS
  N = %(n)d
  Cut = {%(cut)s}
  MaxCalls = %(calls)d
  EmitOn = TRUE
  Small = FALSE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
"""


def large(ctx, n, num, calls, procs=4):
    """Closed forms compared with ConstraintOps on small graphs, then demanded of large ones."""
    d = tlc.prepare(ctx.scratch, "cb")
    text = open(os.path.join(d, "ConstraintBlocks_small.cfg")).read()
    if not ctx.quick:
        text = text.replace("MaxCalls = 3", "MaxCalls = 4")
    ps = tlc.start(d, "ConstraintBlocks", "small.cfg", workers=2, cfgtext=text)
    mid = n // 2
    res = tlc.run(d, "ConstraintBlocks", "big.cfg", cfgtext=BIG % dict(n=n, cut=", ".join(map(str, [1, 2, 3, mid, mid + 1, n - 1, n])), calls=calls),
                  extra=["-simulate", "num=%d" % num, "-depth", str(calls + 1), "-seed", str(ctx.seed * 1000 + ord(ctx.prop[-1]))])
    stems = {}
    for _, x in tlc.emitted(res, "HI"):
        stems.setdefault(json.dumps([y["a"] for y in x[:-1]]), []).append(x)
    hists = [L[(7 * i) % len(L)] for i, L in enumerate(stems.values())]
    if len(hists) < num // 3:
        raise tlc.Machinery("ConstraintBlocks emitted almost nothing")
    ctx.tlc_done(tlc.finish(ps, 900))
    for w in ctx.drive_many("d_constraint", [dict(mode="large", hists=hists[i::procs], nv=n, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)], range(procs)):
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["large_graph_calls"] = ctx.cov.get("large_graph_calls", 0) + w["steps"]
        for m in w["mismatches"]:
            if relevant(ctx.prop, [o[0] if o[0] != "unlink" and o[0] != "unwide" else "rem_constraint" for o in m["hist"]]):
                ctx.violation("graph of %d points: %s (%s)" % (n, m["hist"][-1], ",".join(m["clauses"])), m)


def run(ctx):
    large(ctx, 1400 if ctx.quick else 3000, 40 if ctx.quick else 200, 12)
    q = ctx.quick
    model(ctx, (1, 2) if q else tuple(range(1, 9)))
    traces(ctx, 120 if q else 2500, 40)
