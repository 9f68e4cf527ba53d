"""Common part of all checks: runs cases, lets TLC judge the records, keeps
counts, writes evidence and replay files."""
import json, os, random, shutil, tempfile, time
import harness as H
import tlc
from harness import VERIF, BUILD, ToolError

REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
CHUNK = 20000


def cps(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.judged = self.void = self.cases = 0
        self.enumerated = 0
        self.models = []
        self.samples = []
        self.bad = []
        self.known = []
        self.notes = {}
        self.quick = tier == "quick"
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        self.binary = H.build()
        self._alpha = None

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def dump(self, name, value):
        with open(self.path(name), "w") as f:
            json.dump(value, f)
        return self.path(name)

    def alpha(self):
        """File with the alphabetic characters of the standard library."""
        if self._alpha is None:
            r = H.run_cases(self.binary, [H.alphabetic_line(0)])[0]
            if not r or "dead" in r:
                raise ToolError("no table of alphabetic characters")
            self._alpha = self.dump("alpha.json", r["set"])
        return self._alpha

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def log(self, msg):
        if os.environ.get("VERIF_LOG"):
            print(f"[{time.time() - self.t0:7.1f}] {msg}", flush=True)

    # --- TLC ----------------------------------------------------------------

    def count(self, stats):
        self.states += stats["states"]
        self.transitions += stats["transitions"]

    def model(self, module, cfg=None, env=None, timeout=800, workers=6, expect=None):
        """Checks a model exhaustively; a violated invariant is a fault of the
        specification, not of the implementation, hence a tool error."""
        cfgp = os.path.join(VERIF, "mc", cfg + ".cfg") if cfg else None
        out, stats = tlc.run(module, cfg=cfgp, env=env, timeout=timeout, workers=workers)
        self.count(stats)
        self.models.append({"model": cfg or module, "states": stats["states"],
                            "transitions": stats["transitions"]})
        return out

    def enumerate(self, module, env, timeout=600):
        out, stats = tlc.run(module, env=env, timeout=timeout)
        self.count(stats)
        return out

    def judge(self, module, items, env=None, timeout=800):
        """items: list of (trace, replay). TLC gives a verdict on every trace.
        Returns the list of (index, detail) that are not behaviours of the
        specification."""
        bad = []
        for base in range(0, len(items), CHUNK):
            part = items[base:base + CHUNK]
            name = self.path("traces.ndjson")
            with open(name, "w") as f:
                for tr, _ in part:
                    f.write(json.dumps(tr, separators=(",", ":")) + "\n")
            e = {"VERIF_PROP": self.prop, "VERIF_TRACES": name, "VERIF_ALPHA": self.alpha()}
            e.update(env or {})
            out, stats = tlc.run(module, env=e, timeout=timeout)
            self.count(stats)
            self.log(f"{module}: {len(part)} traces, {stats['states']} states")
            v = tlc.verdicts(out)
            for i in range(len(part)):
                if i + 1 not in v:
                    raise ToolError(f"{module}: no verdict on trace {i + 1}:\n" + out[-2000:])
                phase, detail = v[i + 1]
                if phase == "void":
                    self.void += 1
                    continue
                self.judged += 1
                if phase == "bad":
                    bad.append((base + i, detail))
        return bad

    def blame(self, module, items, bad, limit=5):
        """Turns rejected traces into violations; the smallest ones come first."""
        order = sorted(bad, key=lambda b: len(json.dumps(items[b[0]][0])))
        for i, detail in order[:limit]:
            tr, rep = items[i]
            self.bad.append({"property": self.prop, "module": module, "detail": detail,
                             "case": rep, "trace": tr})
        return bool(bad)

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    # --- results --------------------------------------------------------------

    def finish(self, level, assumptions):
        os.makedirs(EVIDENCE, exist_ok=True)
        out = []
        if self.bad:
            os.makedirs(REPLAYS, exist_ok=True)
        for n, b in enumerate(self.bad):
            p = os.path.join(REPLAYS, f"{self.prop}-{self.tier}-{n}.json")
            with open(p, "w") as f:
                json.dump(b, f)
            out.append(p)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.judged,
               "samples": self.samples or ["none"],
               "implementation_cases": self.cases,
               "traces_outside_the_property": self.void,
               "cases_enumerated_by_tlc": self.enumerated,
               "models_checked": self.models, **self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "assumptions": assumptions,
              "violations": len(out)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return out
