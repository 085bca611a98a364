"""Running TLC on the committed specifications (in a scratch copy) and reading what it printed."""
import os, re, subprocess, shutil, json, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The verification machinery itself failed (never a verdict about the code)."""


def prepare(scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def start(d, module, cfg, workers=1, heap="3g", extra=(), cfgtext=None):
    """Start TLC in directory d; output to <cfg>.out"""
    if cfgtext is not None:
        with open(os.path.join(d, cfg), "w") as f:
            f.write(cfgtext)
    out = os.path.join(d, cfg + ".out")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "md_" + cfg), "-config", cfg] + list(extra) + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, stdout=open(out, "w"), stderr=subprocess.STDOUT)
    p.out_path, p.what = out, module + "/" + cfg
    return p


def finish(p, timeout, ok_codes=(0,)):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Machinery("TLC timed out on " + p.what)
    res = {"lines": [], "generated": 0, "distinct": 0, "depth": 0, "cov": {}}
    tail = []
    with open(p.out_path, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                res["lines"].append(line)
                continue
            tail.append(line)
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                res["generated"], res["distinct"] = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                res["depth"] = int(m.group(1))
    if p.returncode not in ok_codes:
        raise Machinery("TLC failed on %s (exit %s):\n%s" % (p.what, p.returncode, "".join(x for x in tail if not x.startswith(("Parsing", "Semantic processing")))[-3000:]))
    res["code"] = p.returncode
    return res


def run(d, module, cfg, timeout=600, **k):
    return finish(start(d, module, cfg, **k), timeout)


def unq(line):
    return json.loads(line)


def emitted(res, *prefixes):
    """The JSON records TLC printed with one of the given prefixes."""
    for line in res["lines"]:
        s = json.loads(line)
        for p in prefixes:
            if s.startswith(p + " "):
                yield p, json.loads(s[len(p) + 1:])
                break


def judge(d, module, cfg, traces, timeout=800, workers=4, heap="4g", batch=3000):
    """Validate recorded histories with a trace specification. -> (tlc result, [bad verdicts])
    Every history must come back as DONE or BAD, or the run does not count."""
    total, bad = {"distinct": 0, "generated": 0, "depth": 0, "lines": []}, []
    for lo in range(0, len(traces), batch):
        part = traces[lo:lo + batch]
        with open(os.path.join(d, "trace.json"), "w") as f:
            json.dump(part, f, separators=(",", ":"))
        res = run(d, module, cfg, timeout=timeout, workers=workers, heap=heap)
        b = [x for _, x in emitted(res, "BAD")]
        seen = {int(x) for _, x in emitted(res, "DONE")} | {x["h"] for x in b}
        if seen != set(range(1, len(part) + 1)):
            raise Machinery("trace validation incomplete: %d of %d histories judged" % (len(seen), len(part)))
        for x in b:
            x["h"] += lo
        bad += b
        for k in ("distinct", "generated"):
            total[k] += res[k]
        total["depth"] = max(total["depth"], res["depth"])
        total["lines"] += res["lines"]
    return total, bad
