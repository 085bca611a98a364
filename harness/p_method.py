"""Checks M01-M07."""
import json, os
import tlc

TABLES = {  # as in MethodTables.tla
    "Fan": [("mod", [1], [2], 0), ("mod", [1], [3], 1), ("mod", [2, 3], [4], 0), ("mod", [3], [5], 1)],
    "Mix": [("mod", [1], [2], 1), ("part", [2], [3], 0), ("mod", [1, 2], [3], 0), ("mod", [3], [1], 0)],
    "Two": [("mod", [1], [2, 3], 0), ("mod", [2, 3], [4], 1), ("set", [], [1], 1)],
    "Cyc": [("mod", [1], [2], 0), ("mod", [2], [3], 1), ("mod", [3, 1], [1], 0), ("nul", [3], [2], 0)],
}
MODELS = {"fan": "Fan", "fand": "Fan", "mix": "Mix", "two": "Two", "cyc": "Cyc"}
STRUCT = {"variables", "methods", "outcome", "ran", "settled", "unpropagated", "hang", "aborted", "swallowed"}
REM = ("rem_method", "rem_variable", "clear")


def relevant(prop, hist, clauses):
    """hist: [(op name, prop flag, err)] up to and including the offending call."""
    last = hist[-1]
    cl = set(clauses)
    names = [h[0] for h in hist]
    if prop == "M01":
        return bool(cl & {"settled", "hang", "outcome", "swallowed", "unpropagated", "variables"})
    if prop == "M02":
        return "unpropagated" in cl or "hang" in cl or any(n in ("set", "add_method") and not p for n, p, _ in hist)
    if prop == "M03":
        return names[-1] == "add_method" or any(n == "add_method" and e in ("determine", "cycle") for n, _, e in hist)
    if prop == "M04":
        return any(n in REM for n in names)
    if prop == "M05":
        return "fail_on" in names
    if prop in ("M06", "M07"):
        return True
    return True


def algo(ctx, names, sub=()):
    """The operational algorithm model (every interleaving) against the contract."""
    d = tlc.prepare(ctx.scratch, "algo")
    ps = []
    for n in names:
        text = open(os.path.join(d, "MethodAlgo_%s.cfg" % n)).read()
        for a, b in sub:
            text = text.replace(a, b)
        ps.append(tlc.start(d, "MethodAlgoMC", "MethodAlgo_%s.cfg" % n, workers=2, cfgtext=text))
    return ps


def model(ctx, cfg, parts=2, only=None):
    d = tlc.prepare(ctx.scratch, "mc_" + cfg)
    return cfg, d, tlc.start(d, "MethodTables", "MethodMC_%s.cfg" % cfg, workers=1), parts, only


def replay(ctx, started):
    cfg, d, p, parts, only = started
    res = tlc.finish(p, 900)
    ctx.tlc_done(res)
    f = os.path.join(d, "graph.jsonl")
    n = 0
    with open(f, "w") as out:
        for _, x in tlc.emitted(res, "TR"):
            out.write(json.dumps(x) + "\n")
            n += 1
    if n < 1000:
        raise tlc.Machinery("MethodMC emitted almost nothing")
    defs = [dict(kind=k, ins=i, outs=o, c=c) for k, i, o, c in TABLES[MODELS[cfg]]]
    outs = ctx.drive_many("d_method", [dict(mode="walk", file=f, seed="%s/%d" % (ctx.seed, i), defs=defs, ops=only, part=i, parts=parts) for i in range(parts)],
                          [ctx.seed + 3 * i for i in range(parts)])
    for w in outs:
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["model_transitions_replayed"] = ctx.cov.get("model_transitions_replayed", 0) + w["steps"]
        if w["unvisited"] and not w["mismatches"]:
            raise tlc.Machinery("walk left %d transitions unvisited" % w["unvisited"])
        for m in w["mismatches"]:
            hist = [(e["op"][0], e["prop"], e["err"]) for e in m["hist"]]
            if relevant(ctx.prop, hist, m["clauses"]):
                ctx.violation("model transition not followed: %s after %d calls (%s)" % (m["hist"][-1]["op"], len(hist) - 1, ",".join(m["clauses"])), m)


def traces(ctx, n, length, procs=4):
    cfgs = [dict(mode="random", focus=ctx.prop, n=n, length=length, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_method", cfgs, [ctx.seed * 5 + i for i in range(procs)]) for h in r]
    d = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(d, "MethodTrace", "MethodTrace.cfg", [{"defs": h["defs"], "events": h["events"]} for h in hs])
    ctx.tlc_done(res)
    ctx.cov["traces_validated_against_impl"] += len(hs)
    ctx.cov["events_judged"] = ctx.cov.get("events_judged", 0) + sum(len(h["events"]) for h in hs)
    ctx.sample({"defs": hs[1]["defs"], "calls": [[e["op"], e["prop"], e["err"]] for e in hs[1]["events"]][:30]})
    kinds = {}
    for h in hs:
        for e in h["events"]:
            k = e["op"][0] + (":" + e["err"] if e["err"] else "")
            kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["calls"] = kinds
    for b in bad:
        h = hs[b["h"] - 1]
        evs = h["events"][:b["l"]]
        if relevant(ctx.prop, [(e["op"][0], e["prop"], e["err"]) for e in evs], b["clauses"]):
            ctx.violation("history rejected at call %d %s: %s" % (b["l"], evs[-1]["op"], ",".join(b["clauses"])),
                          {"clauses": b["clauses"], "defs": h["defs"], "names": h["names"], "mode": h["mode"], "byvalue": h["byvalue"],
                           "calls": [[e["op"], e["prop"], e["err"]] for e in evs], "last": evs[-1]})


BIG = """SPECIFICATION Spec
CONSTANTS
  N = %(n)d
  Cut = {%(cut)s}
  Heads = {1000001, 0, 3, 50}
  Hubs = {0, 1, 7}
  MaxCalls = %(calls)d
  EmitOn = TRUE
  Small = FALSE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
"""


def large(ctx, n, num, calls=8, procs=4):
    """Closed forms compared with MethodOps on small graphs, then demanded of large ones."""
    d = tlc.prepare(ctx.scratch, "mb")
    text = open(os.path.join(d, "MethodBlocks_small.cfg")).read().replace("MaxCalls = 4", "MaxCalls = %d" % (3 if ctx.quick else 5))
    ps = tlc.start(d, "MethodBlocks", "MethodBlocks_small.cfg", workers=2, cfgtext=text)
    mid = n // 2
    cfg = BIG % dict(n=n, cut=", ".join(map(str, [1, 2, 3, mid, mid + 1, n - 1, n])), calls=calls)
    res = tlc.run(d, "MethodBlocks", "mb_large.cfg", cfgtext=cfg, extra=["-simulate", "num=%d" % num, "-depth", str(calls + 1), "-seed", str(ctx.seed * 1000 + ord(ctx.prop[-1]))])
    # the siblings of each last step are printed too: keep one per walk
    stems = {}
    for i, (_, x) in enumerate(tlc.emitted(res, "HI")):
        L = stems.setdefault(json.dumps([y["a"] for y in x[:-1]]), [])
        if len(L) < 60:
            L.append(x)
    hists = [L[(7 * i) % len(L)] for i, L in enumerate(stems.values())]
    if len(hists) < num // 3:
        raise tlc.Machinery("MethodBlocks emitted almost nothing")
    ctx.tlc_done(tlc.finish(ps, 900))
    outs = ctx.drive_many("d_method", [dict(mode="large", hists=hists[i::procs], nv=n, fan=1100 if ctx.quick else 3000, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)], range(procs))
    for w in outs:
        ctx.cov["traces_validated_against_impl"] += w["walks"]
        ctx.cov["large_graph_calls"] = ctx.cov.get("large_graph_calls", 0) + w["steps"]
        for m in w["mismatches"]:
            hist = [({"bad_method": "add_method", "set_hub": "set", "rem_hub": "rem_variable", "add_hub": "add_variable", "build": "add_method", "fan_on": "add_method", "fan_off": "rem_method",
                      "fault": "fail_on"}.get(e["op"][0], e["op"][0]), e["prop"], "determine" if e["op"][0] == "bad_method" else "") for e in m["hist"]]
            if relevant(ctx.prop, hist, m["clauses"]):
                ctx.violation("graph of %d variables: %s (%s)" % (n, m["hist"][-1]["op"], ",".join(m["clauses"])), m)


PLAN = {  # algorithm models, emitted models
    "M01": (["fan"], ["fan"]),
    "M02": (["mix"], ["two"]),
    "M03": ([], ["cyc"]),
    "M04": ([], ["mix"]),
    "M05": (["flt"], []),
    "M06": ([], []),
    "M07": ([], ["two"]),
}


def run(ctx):
    q = ctx.quick
    al, mo = PLAN[ctx.prop]
    if not q:
        al = al or ["fan"]
        mo = sorted(set(mo) | {"fan", "mix", "two", "cyc"} | ({"fand"} if ctx.prop in ("M01", "M02") else set()))
    ps = algo(ctx, al, sub=[] if q else [("MaxOps = 3", "MaxOps = 4"), ("MaxOps = 2", "MaxOps = 3")])
    if ctx.prop in ("M01", "M02", "M03", "M04", "M05"):
        large(ctx, 1200 if q else 1500, 64 if q else 300)
    ms = [model(ctx, c, 2 if q else 4) for c in mo]
    traces(ctx, 150 if q else 2000, 30, 4)
    for m in ms:
        replay(ctx, m)
    for p in ps:
        ctx.tlc_done(tlc.finish(p, 3000))
