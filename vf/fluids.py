"""Fluids: histories of the fluid service, its memory and the engine process, recorded on the real code over a stand-in engine."""
import copy
import itertools
import json
import random
import re
import sys
import threading
import types
from fractions import Fraction as F

from . import engine as eng
from . import tlc
from .modelcheck import pool_map
from .num import q, qs

FIELDS = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]
PROPS = ["temperature_kelvin", "pressure_bara", "density", "enthalpy_joule_per_kg", "z", "kappa", "vapor_fraction_molar", "molar_mass",
         "standard_density"]


def model_of(m):
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
    return FluidModel(eos_model=EoSModel(m["eos"]), composition=FluidComposition(**dict(zip(FIELDS, map(float, m["x"])))))


def composition_of(c):
    return [getattr(c, f) for f in FIELDS]


def props(p):
    return qs([getattr(p, f) for f in PROPS])


class Rng:
    def __init__(self, r):
        self.r = r

    def model(self, wet=None, eos=None):
        r = self.r
        eos = eos or r.choice(["SRK", "SRK", "PR", "GERG_SRK", "GERG_PR"])
        x = [F(0)] * 11
        x[3] = F(r.randint(40, 100), 100)
        for i in r.sample([1, 2, 4, 5, 6, 7, 8, 9, 10], r.randint(0, 5)):
            x[i] = F(r.randint(1, 40), r.choice([100, 400]))
        if wet is None:
            wet = r.random() < 0.3 and not eos.startswith("GERG")
        if wet:
            x[0] = F(r.randint(1, 60), 100) * sum(x)
        k = r.choice([F(1), F(1), F(100), 1 / sum(x)])
        return {"x": [float(v * k) for v in x], "eos": eos}

    def near(self, m):
        """the same fluid written otherwise, or one a little different from it"""
        r = self.r
        m = copy.deepcopy(m)
        c = r.random()
        if c < 0.3:
            k = r.choice([2, 10, 0.5, 3])
            m["x"] = [v * k for v in m["x"]]
        elif c < 0.5:
            i = r.choice([3, 4])
            m["x"][i] += sum(m["x"]) * r.choice([1e-2, 1e-4, 1e-6])
        elif c < 0.7:
            i, j = r.sample(range(3, 11), 2)
            m["x"][i], m["x"][j] = m["x"][j], m["x"][i]
            if m["x"][3] == 0:
                m["x"][3] = 0.5 * sum(m["x"])
        else:
            m["x"][0] = 0.0
            m["eos"] = r.choice(["SRK", "PR", "GERG_SRK", "GERG_PR"])
        return m

    def pressure(self):
        return float(F(self.r.randint(20, 2400), self.r.choice([8, 16, 20])))

    def temperature(self):
        return float(F(self.r.randint(275 * 4, 420 * 4), 4))

    def close(self, v, steps=(0.0, 2e-5, 1e-3, 0.5)):
        """v as it would come out of some calculation: the same, or different by more than the memory may round"""
        return v + self.r.choice(steps)


def err(x):
    from py4j.protocol import Py4JError
    n = type(x).__name__
    return "failed" if isinstance(x, Py4JError) or n == "NeqsimFlashCalculationError" else n


class Session:
    """one history: a fresh module state, operations performed one by one, each with what it answered"""

    def __init__(self, models):
        self.models = models
        self.ops = []

    def __enter__(self):
        import ecalc_neqsim_wrapper.java_service as js
        from ecalc_neqsim_wrapper.cache_service import CacheService
        from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
        self.js, self.S, self.C = js, NeqSimFluidService, CacheService
        self.cm = eng.engine()
        self.cm.__enter__()
        self.clean()
        return self

    def clean(self):
        self.js._neqsim_service = None
        self.js.NeqsimService._py4j_config = None
        self.S.reset_instance()
        self.C._caches.clear()
        sys.modules.pop("jneqsim", None)
        self.jp = None

    def __exit__(self, *a):
        self.clean()
        self.cm.__exit__(*a)

    def engine_(self):
        s = self.js._neqsim_service
        if s is None:
            return None
        return self.jp.engine if type(s) is self.js.NeqsimJPypeService else s._gateway.engine

    def do(self, op):
        e = self.engine_()
        if e is not None:
            e.fault = op.get("fault") or None
        try:
            k, v = "ok", self.perform(op) or []
        except Exception as x:  # noqa: BLE001
            k, v = err(x), []
        e = self.engine_()
        if e is not None:
            e.fault = None
        op["k"], op["v"] = k, v
        op["running"] = len(eng.Gateway.running)
        self.ops.append(op)

    def perform(self, op):
        o, js, S = op["o"], self.js, self.S
        if o == "start":
            if op["kind"] == "jpype" and self.jp is None:
                self.jp = eng.Gateway()
                sys.modules["jneqsim"] = types.SimpleNamespace(neqsim=self.jp.jvm.neqsim)
            n = len(eng.Gateway.options)
            js.NeqsimService.factory(use_jpype=op["kind"] == "jpype").initialize()
            return [str(x).removeprefix("-Xmx") for x in eng.Gateway.options[n]["javaopts"]] if len(eng.Gateway.options) > n else []
        if o == "stop":
            if js._neqsim_service is not None:
                js._neqsim_service.shutdown()
            return []
        if o == "leave":
            if js._neqsim_service is not None:
                with js._neqsim_service:
                    pass
            return []
        if o == "crashed":
            if js._neqsim_service is not None:
                try:
                    with js._neqsim_service:
                        raise KeyError("in the run")
                except KeyError:
                    return []
            return []
        if o == "engine":
            from ecalc_neqsim_wrapper.java_service import Py4JConfig
            js.NeqsimService.configure_py4j(Py4JConfig(maximum_memory=op["mem"], shutdown_on_exit=op["exit"]))
            return []
        if o == "engine reset":
            js.NeqsimService.reset_py4j_config()
            return []
        if o == "sizes":
            from ecalc_neqsim_wrapper.cache_service import CacheConfig
            S.configure(CacheConfig(reference_fluid_max_size=op["ref"], flash_max_size=op["n"]))
            return []
        if o == "reset":
            S.reset_instance()
            return []
        if o == "clear":
            self.C.clear_all()
            return []
        if o == "stats":
            from ecalc_neqsim_wrapper.fluid_service import get_fluid_service_stats
            s = get_fluid_service_stats()
            op["ref"] = int(s["reference_fluid"].get("size", -1))
            f = s["fluid_service_flash"]
            op["n"] = int(s["reference_fluid"].get("max_size", -1))
            return [q(f[k]) for k in ("hits", "misses", "evictions", "size", "max_size", "hit_rate_percent")] if f else []
        svc = S.instance() if op.get("how") != "new" else S()
        m = model_of(self.models[op["m"] - 1])
        if o == "flash":
            if op["f"] == "PT":
                if op.get("how") == "fluid":
                    return props(svc.create_fluid(m, op["p"], op["t"]).properties)
                return props(svc.flash_pt(m, op["p"], op["t"]))
            return props(svc.flash_ph(m, op["p"], op["t"], op.get("guess")))
        if o == "rate":
            if op["f"] == "mass":
                return [q(svc.standard_rate_to_mass_rate(m, op["p"]))]
            return [q(svc.mass_rate_to_standard_rate(m, op["p"]))]
        if o == "stream":
            if op["f"] == "standard":
                s = svc.create_stream_from_standard_rate(m, op["p"], op["t"], op["r"])
            else:
                s = svc.create_stream_from_mass_rate(m, op["p"], op["t"], op["r"])
            return qs([s.mass_rate_kg_per_h, s.standard_rate_sm3_per_day, s.volumetric_rate_m3_per_hour]) + props(s.fluid.properties)
        if o == "dry":
            f = svc.remove_liquid(svc.create_fluid(m, op["p"], op["t"]))
            return props(f.properties) + qs(composition_of(f.composition))
        raise AssertionError(o)


def encode(op):
    """numbers of an operation as the specification reads them"""
    d = {"o": op["o"], "k": op["k"], "v": op["v"], "running": op["running"], "m": op.get("m", 0), "f": op.get("f", ""), "fault": op.get("fault", ""),
         "p": q(op.get("p", 0)), "t": q(op.get("t", 0)), "r": q(op.get("r", 0)), "n": op.get("n", 0), "ref": op.get("ref", 0),
         "kind": op.get("kind", ""), "mem": op.get("mem", ""), "exit": op.get("exit", False),
         "valid": bool(re.fullmatch(r"\d+[kKmMgGtT]", op["mem"])) if "mem" in op else True}
    return d


def service_event(seed):
    r = random.Random(f"fluid-{seed}")
    g = Rng(r)
    models = [g.model()]
    while len(models) < r.randint(1, 5):
        models.append(g.model() if r.random() < 0.4 else g.near(r.choice(models)))
    kinds = r.choice([["py4j"], ["py4j"], ["py4j"], ["jpype"], ["py4j", "jpype"]])
    states = [(g.pressure(), g.temperature()) for _ in range(r.randint(1, 4))]
    past, pasth = [], []
    with Session(models) as s:
        if r.random() < 0.7:
            s.do({"o": "sizes", "ref": r.choice([0, 1, 2, 512]), "n": r.choice([0, 1, 2, 3, 5, 100000])})
        if r.random() < 0.4:
            s.do({"o": "engine", "mem": r.choice(["512M", "4g", "1T", "2048k", "2", "G", "2 G", "-1G", "2GB"]), "exit": r.random() < 0.5})
        if r.random() < 0.9:
            s.do({"o": "start", "kind": kinds[0]})
        for _ in range(r.randint(5, 26)):
            c = r.random()
            m = r.randint(1, len(models))
            p, t = r.choice(states)
            p, t = g.close(p), g.close(t)
            fault = r.choice([""] * 9 + ["raise"])
            if c < 0.30:
                if past and r.random() < 0.5:
                    p, t = r.choice(past)
                past.append((p, t))
                s.do({"o": "flash", "f": "PT", "m": m, "p": p, "t": t, "fault": fault, "how": r.choice(["", "", "new", "fluid"])})
            elif c < 0.52:
                mm = eng.System(eng.Engine(), "SRK", 300.0, 1.0)
                for n, v in zip(eng.NAMES, models[m - 1]["x"]):
                    if v:
                        mm.x[n] = v
                h = float(round((mm.cp() * t + 1500) / mm.mm()))
                h = g.close(h, (0.0, 0.0, 1e-3, 0.5))
                p = r.choice(states)[0]
                if pasth and r.random() < 0.6:
                    p, h = r.choice(pasth)
                pasth.append((p, h))
                s.do({"o": "flash", "f": "PH", "m": m, "p": p, "t": h, "guess": r.choice([None, None, t, 250.0]),
                      "fault": r.choice(["", "", "", "", "", "raise", "wrong"])})
            elif c < 0.62:
                s.do({"o": "rate", "f": r.choice(["mass", "standard"]), "m": m, "p": float(r.choice([0, 1, 1000, 24 * r.randint(1, 10**6)]))})
            elif c < 0.70:
                s.do({"o": "stream", "f": r.choice(["mass", "standard"]), "m": m, "p": p, "t": t, "r": float(r.choice([0, 24 * r.randint(1, 10**6)]))})
            elif c < 0.76:
                s.do({"o": "dry", "m": m, "p": p, "t": t})
            elif c < 0.84:
                s.do({"o": "stats"})
            elif c < 0.87:
                s.do({"o": r.choice(["stop", "leave", "crashed"])})
                if r.random() < 0.8:
                    s.do({"o": "start", "kind": r.choice(kinds)})
            elif c < 0.89:
                s.do({"o": "start", "kind": r.choice(kinds)})
            elif c < 0.92:
                s.do({"o": "engine", "mem": r.choice(["512M", "4g", "2"]), "exit": r.random() < 0.5})
            elif c < 0.94:
                s.do({"o": "engine reset"})
            elif c < 0.96:
                s.do({"o": "sizes", "ref": r.choice([0, 1, 512]), "n": r.choice([0, 1, 4])})
            elif c < 0.98:
                s.do({"o": "reset"})
            else:
                s.do({"o": "clear"})
        s.do({"o": "stats"})
        ops = s.ops
    return {"e": "service", "models": [{"x": qs(m["x"]), "eos": m["eos"]} for m in models], "ops": [encode(o) for o in ops]}


# ---- histories the specification generated -----------------------------------------------------------------------------
SMALL = [{"x": [0.0, 0.0, 0.0, 0.75, 0.25] + [0.0] * 6, "eos": "SRK"}, {"x": [0.0, 0.0, 0.0, 0.75, 0.0, 0.25] + [0.0] * 5, "eos": "SRK"}]


def replayed(h):
    with Session(SMALL) as s:
        for op in h:
            o = op["o"]
            if o == "start":
                s.do({"o": "start", "kind": "py4j"})
            elif o == "sizes":
                s.do({"o": "sizes", "ref": 2, "n": op["n"]})
            elif o == "flash":
                f, m, p, t = op["key"]
                s.do({"o": "flash", "f": f, "m": m, "p": float(p), "t": float(t), "fault": op["fault"]})
            else:
                s.do({"o": o})
        s.do({"o": "stats"})
        ops = s.ops
    return {"e": "service", "models": [{"x": qs(m["x"]), "eos": m["eos"]} for m in SMALL], "ops": [encode(o) for o in ops]}


def _replayed(hs):
    return [replayed(h) for h in hs]


def tagged(output, tag):
    """the JSON values TLC printed after a tag"""
    return [json.loads(json.loads(line)[len(tag):]) for line in output.splitlines() if line.startswith('"' + tag)]


def histories(output):
    return tagged(output, "HIST ")


# ---- the memory on its own ---------------------------------------------------------------------------------------------
def cache_event(seed):
    from ecalc_neqsim_wrapper.cache_service import CacheService, LRUCache
    r = random.Random(f"cache-{seed}")
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 7])
    named = r.random() < 0.4
    CacheService._caches.clear()
    names = ["a", "b"] if named else ["a"]
    caches, ops = {}, []
    for x in names:
        caches[x] = CacheService.create_cache(x, max_size=n) if named else LRUCache(n)
    for _ in range(r.randint(6, 60)):
        x = r.choice(names)
        c = caches[x]
        k = r.randint(1, max(2, n + 2))
        o = r.choice(["get", "get", "get", "put", "put", "put", "stats", "len", "clear" if r.random() < 0.2 else "get"])
        op = {"o": o, "name": x, "key": k, "val": r.randint(1, 1000), "k": "ok", "v": []}
        if o == "get":
            v = c.get(k)
            op["v"] = [] if v is None else [q(v)]
        elif o == "put":
            c.put(k, op["val"])
        elif o == "clear":
            w = r.choice(["own", "name", "all", "unknown"]) if named else "own"
            if w == "own":
                c.clear()
            elif w == "name":
                CacheService.clear_cache(x)
            elif w == "unknown":
                CacheService.clear_cache("c")
                op["o"] = "nothing"
            else:
                CacheService.clear_all()
                op["o"] = "clear all"
        elif o == "len":
            op["v"] = [q(len(c))]
        else:
            s = c.get_stats() if not named or r.random() < 0.5 else CacheService.get_all_stats()[x]
            op["v"] = [q(s[f]) for f in ("hits", "misses", "evictions", "size", "max_size", "hit_rate_percent")]
        if named and r.random() < 0.15:
            again = CacheService.create_cache(x, max_size=r.choice([n, n + 3]))
            if again is not caches[x] or CacheService.get_cache(x) is not caches[x]:
                op["k"] = "another cache"
            caches[x] = again
        ops.append(op)
    CacheService._caches.clear()
    return {"e": "cache", "max": n, "names": names, "ops": ops}


class Key:
    """a cache key at whose nth use another thread is let in"""
    hook = None

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        if Key.hook is not None:
            Key.hook()
        return self.n

    def __eq__(self, o):
        return self.n == o.n


def race_event(job):
    """operation a, and operation b of another thread let in at the nth use of the key in a"""
    from ecalc_neqsim_wrapper.cache_service import LRUCache
    size, held, a, b, nth = job
    c = LRUCache(size)
    for k in held:
        c.put(Key(k), k * 10)

    def act(op):
        try:
            if op[0] == "get":
                v = c.get(Key(op[1]))
                return [] if v is None else [q(v)]
            if op[0] == "put":
                c.put(Key(op[1]), op[1] * 10 + 1)
            elif op[0] == "clear":
                c.clear()
            elif op[0] == "stats":
                s = c.get_stats()
                return [q(s[f]) for f in ("hits", "misses", "evictions", "size", "max_size", "hit_rate_percent")]
            return []
        except Exception as x:  # noqa: BLE001
            return [f"raised {type(x).__name__}"]
    seen = {"n": 0, "b": None}
    other = threading.Thread(target=lambda: seen.update(b=act(b)))

    def hook():
        if threading.current_thread() is other:
            return
        seen["n"] += 1
        if seen["n"] == nth:
            other.start()
            other.join(0.02)
    Key.hook = hook
    try:
        va = act(a)
    finally:
        Key.hook = None
    if other.ident is None:
        return None
    other.join(5)
    enc = lambda op, v: {"o": op[0], "key": op[1], "val": op[1] * 10 + 1, "v": v}  # noqa: E731
    end = []
    s = c.get_stats()
    end = [q(s[f]) for f in ("hits", "misses", "evictions", "size", "max_size", "hit_rate_percent")]
    return {"e": "race", "max": size, "held": held, "a": enc(a, va), "b": enc(b, seen["b"] if seen["b"] is not None else ["did not end"]), "end": end}


def races(rng, n):
    jobs = []
    for a in (("get", 1), ("get", 3), ("put", 1), ("put", 3), ("stats", 1)):
        for b in (("get", 1), ("put", 3), ("put", 1), ("put", 2), ("clear", 1), ("stats", 1)):
            for nth in (1, 2, 3, 4):
                for size, held in ((1, [1]), (2, [1, 2]), (3, [1, 2]), (0, [])):
                    jobs.append((size, held, a, b, nth))
    rng.shuffle(jobs)
    return jobs[:n]


def _one(job):
    f, seed = job
    return {"service": service_event, "cache": cache_event}[f](seed)


def check(chk, n):
    chk.model("FluidServiceModel", "FluidServiceModel", thorough_cfg="FluidServiceDeep")
    gen = chk.model("FluidServiceModel", "FluidServiceGen")
    hs = histories(gen["output"])
    chk.notes["histories_generated_by_TLC"] = len(hs)
    chk.rng.shuffle(hs)
    hs = hs[:chk.n(1600, len(hs))]
    events = []
    for out in pool_map(_replayed, [hs[i::64] for i in range(64)]):
        events += out
    jobs = [("service", chk.rng.randrange(10**9)) for _ in range(n)] + [("cache", chk.rng.randrange(10**9)) for _ in range(n)]
    events += pool_map(_one, jobs)
    events += [e for e in pool_map(race_event, races(chk.rng, chk.n(160, 480))) if e is not None]
    chk.validate("FluidTrace", events, canaries(chk, events))


def canaries(chk, events):
    out = []
    svc = [e for e in events if e["e"] == "service"]
    for _ in range(12):
        e = copy.deepcopy(chk.rng.choice([e for e in svc if any(o["o"] == "flash" and o["v"] for o in e["ops"])]))
        o = chk.rng.choice([o for o in e["ops"] if o["o"] == "flash" and o["v"]])
        i = chk.rng.randrange(len(o["v"]))
        o["v"][i] = q(F(o["v"][i]) * F(1001, 1000) + F(1, 1000))
        out.append(e)
    for _ in range(6):
        e = copy.deepcopy(chk.rng.choice([e for e in svc if any(o["o"] == "stats" and o["v"] for o in e["ops"])]))
        o = chk.rng.choice([o for o in e["ops"] if o["o"] == "stats" and o["v"]])
        i = chk.rng.randrange(5)
        o["v"][i] = q(F(o["v"][i]) + 1)
        out.append(e)
    e = copy.deepcopy(next(e for e in svc if any(o["k"] not in ("ok",) for o in e["ops"])))
    next(o for o in e["ops"] if o["k"] != "ok")["k"] = "ok"
    out.append(e)
    e = copy.deepcopy(next(e for e in events if e["e"] == "cache" and any(o["o"] == "get" and o["v"] for o in e["ops"])))
    next(o for o in e["ops"] if o["o"] == "get" and o["v"])["v"] = []
    out.append(e)
    e = copy.deepcopy(next(e for e in events if e["e"] == "race"))
    e["end"][0] = q(F(e["end"][0]) + 1)
    out.append(e)
    return out
