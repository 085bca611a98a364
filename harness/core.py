"""Context of one check run: scratch space, drivers, verdicts, evidence."""
import os, sys, re, json, time, tempfile, shutil, subprocess, threading
import tlc
from tlc import Machinery

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class Raised(Exception):
    """An operation the harness performs outside its guarded calls, legal by the property, raised inside the code under test."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.viol = []       # [(what, detail)]
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- real code
    def drive_start(self, script, cfg, hashseed=0, tag=""):
        cfg = dict(cfg)
        base = os.path.join(self.scratch, "drv_%s_%s" % (script, tag or len(os.listdir(self.scratch))))
        cfg.setdefault("out", base + ".out.json")
        with open(base + ".cfg.json", "w") as f:
            json.dump(cfg, f)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        env.update(PYTHONPATH=REPO, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                   PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "nopyc"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script + ".py"), base + ".cfg.json"], cwd=self.scratch, env=env,
                             stdout=open(base + ".log", "w"), stderr=subprocess.STDOUT)
        p.cfg, p.base, p.script = cfg, base, script
        return p

    def drive_finish(self, p, timeout=600):
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Machinery("driver %s timed out" % p.script)
        if p.returncode != 0:
            log = open(p.base + ".log").read()
            frames = re.findall(r'^  File "([^"]+)", line (\d+), in (.*)$', log[log.rfind("Traceback (most recent call last)"):], re.M)
            if frames and "Traceback" in log and os.path.realpath(frames[-1][0]).startswith(os.path.realpath(REPO) + os.sep):
                raise Raised("%s:%s in %s raised inside the code under test: %s" % (frames[-1][0], frames[-1][1], frames[-1][2], log.strip().splitlines()[-1][:300]), log[-3000:])
            raise Machinery("driver %s failed (%s):\n%s" % (p.script, p.returncode, log[-3000:]))
        with open(p.cfg["out"]) as f:
            return json.load(f)

    def drive(self, script, cfg, hashseed=0, timeout=600, tag=""):
        return self.drive_finish(self.drive_start(script, cfg, hashseed, tag), timeout)

    def drive_many(self, script, cfgs, hashseeds, timeout=600):
        """Run several driver processes in parallel (different PYTHONHASHSEED each)."""
        ps = [self.drive_start(script, c, hs, "p%d" % i) for i, (c, hs) in enumerate(zip(cfgs, hashseeds))]
        return [self.drive_finish(p, timeout) for p in ps]

    # ---- verdicts
    def violation(self, what, detail):
        self.viol.append((what, detail))

    def tlc_done(self, res):
        self.cov["states"] += res["distinct"]
        self.cov["transitions"] += res["generated"]

    def sample(self, x):
        s = self.cov["samples"]
        if len(s) < 4:
            t = json.dumps(x, default=repr)
            s.append(x if len(t) < 3000 else t[:3000] + "...")

    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        if not self.viol:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.prop, self.cov["states"], self.cov["transitions"],
                  self.cov["traces_validated_against_impl"], time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump([{"what": w, "detail": d} for w, d in self.viol[:20]], f, indent=1, default=repr)
        for w, _ in self.viol[:5]:
            print("  " + w)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
