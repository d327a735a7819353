"""The frame every check runs in: collects evidence, decides the verdict, prints VIOLATION lines."""
import copy
import json
import os
import random
import time
import traceback
from pathlib import Path

from . import tlc

HOME = Path(os.environ["VERIF_HOME"])


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}-{self.seed}-{self.tier}")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.assumptions, self.known_lines = [], [], [], []
        self.models = []
        self.notes = {}
        kf = HOME / "known_findings.json"
        self.known = {f["id"]: f for f in json.loads(kf.read_text()).get("findings", [])} if kf.exists() else {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- the specification on its own ------------------------------------------------------------
    def model(self, module, cfg=None, thorough_cfg=None, **kw):
        """Model-check a specification exhaustively within the bounds of its .cfg.

        The specification is fixed, so a violation here is an error of the machinery, not of the code."""
        if self.thorough and thorough_cfg:
            cfg = thorough_cfg
        r = tlc.model_check(module, cfg, **kw)
        if not r["ok"]:
            raise tlc.TlcError(f"the specification {module} violates its own properties:\n{r['output'][-6000:]}")
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.models.append({"module": module, "cfg": cfg or module, "distinct_states": r["states"], "wall_s": round(r["wall"], 1)})
        return r

    # -- the implementation against the specification --------------------------------------------
    def validate(self, module, events, canaries=(), describe=None, **kw):
        """Decide recorded events with a trace specification.

        canaries: corrupted copies of events; the specification must reject each one, or the binding is vacuous."""
        if not events:
            raise tlc.TlcError(f"no events were recorded for {module}")
        bad, gen, dist = tlc.validate(module, list(events) + list(canaries), **kw)
        self.states += dist
        self.transitions += gen
        self.validated += len(events)
        flagged = {i for i, _ in bad}
        for i, clauses in bad:
            if i < len(events):
                self.fail(module, clauses, events[i])
        if not any(v for v in self.violations):
            for k in range(len(canaries)):
                if len(events) + k not in flagged:
                    raise tlc.TlcError(f"{module} accepted a corrupted event: {json.dumps(canaries[k])[:2000]}")
        if len(self.samples) < 6:
            s = copy.deepcopy(events[len(events) // 2])
            self.samples.append({"spec": module, "event": _shrink(s)})
        self.notes[f"events_{module}"] = self.notes.get(f"events_{module}", 0) + len(events)
        self.notes[f"canaries_{module}"] = self.notes.get(f"canaries_{module}", 0) + len(canaries)
        return bad

    def spoiled(self, good, spoil, n):
        """corrupted copies of events (a changed implementation may leave nothing in an event that this could corrupt)"""
        out = []
        for _ in range(10 * n):
            try:
                c = spoil(self.rng.choice(good), self.rng)
            except (LookupError, ValueError, TypeError, AttributeError):
                continue
            out += [c] if c is not None else []
            if len(out) == n:
                break
        return out

    def fail(self, module, clauses, event):
        kf = event.get("kf") if isinstance(event, dict) else None
        f = self.known.get(kf) if kf else None
        if f and f["property"] == self.pid and set(clauses) <= set(f["clauses"]):
            line = f"KNOWN-FINDING: property={self.pid} {f['what']}"
            if line not in self.known_lines:
                self.known_lines.append(line)
            return
        self.violations.append({"spec": module, "clauses": list(clauses), "event": event})

    def crash(self, where, exc):
        """The code under test raised where the property says it must answer."""
        self.violations.append({"spec": where, "clauses": ["unexpected exception"],
                                "event": {"traceback": "".join(traceback.format_exception(exc))[-6000:]}})

    def finish(self) -> int:
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples, "specifications": self.models, **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        (HOME / "evidence").mkdir(exist_ok=True)
        (HOME / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        (HOME / "evidence" / f"{self.pid}.violation.json").unlink(missing_ok=True)
        for line in self.known_lines:
            print(line)
        if self.violations:
            rep = HOME / "evidence" / f"{self.pid}.violation.json"
            rep.write_text(json.dumps(self.violations[:50], indent=1))
            for v in self.violations[:8]:
                print(f"failed clauses {v['clauses']} of {v['spec']}: {json.dumps(_shrink(v['event']))[:1500]}")
            print(f"{len(self.violations)} violating event(s)")
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        print(f"{self.pid} held: {self.validated} recorded events against the specification, {self.states} states, "
              f"{ev['wall_s']} s")
        return 0


def _shrink(x, depth=0):
    if isinstance(x, dict):
        return {k: _shrink(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        return [_shrink(v, depth + 1) for v in x[:12]] + (["..."] if len(x) > 12 else [])
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x
