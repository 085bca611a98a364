"""Check R01."""
import tlc


def run(ctx):
    q = ctx.quick
    procs = 4 if q else 8
    cfgs = [dict(n=100 if q else 600, length=20 if q else 40, seed="%s/%d" % (ctx.seed, i)) for i in range(procs)]
    hs = [h for r in ctx.drive_many("d_render", cfgs, [ctx.seed * 13 + i for i in range(procs)]) for h in r]
    d = tlc.prepare(ctx.scratch, "tr")
    res, bad = tlc.judge(d, "RenderTrace", "RenderTrace.cfg", hs)
    ctx.tlc_done(res)
    astray = sum(1 for _ in tlc.emitted(res, "ASTRAY"))
    ctx.cov["traces_validated_against_impl"] += len(hs)
    ctx.cov["events_judged"] = sum(len(h["events"]) for h in hs)
    ctx.cov["texts_judged"] = sum(len(e["texts"]) for h in hs for e in h["events"])
    ctx.cov["histories_left_to_other_properties"] = astray
    for k in ("graph", "method", "constraint", "config", "fixed"):
        ctx.cov["histories_" + k] = sum(h["kind"] == k for h in hs)
    ctx.sample({"kind": hs[0]["kind"], "calls": [e["op"] for e in hs[0]["events"]]})
    ctx.assume.append("a member counts as named when its own text occurs in the object's text; names without a distinctive text (empty string, 0, None...) are only checked not to disturb anything")
    for b in bad:
        h = hs[b["h"] - 1]
        evs = h["events"][:b["l"]]
        ctx.violation("%s history rejected at call %d %s: %s" % (h["kind"], b["l"], evs[-1]["op"], ",".join(b["clauses"])),
                      {"clauses": b["clauses"], "kind": h["kind"], "D": h["D"], "recognisable": h["tok"], "calls": [[e["op"], e["h"], e["to"]] for e in evs], "last": evs[-1]})
