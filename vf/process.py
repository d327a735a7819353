"""Process pipelines: units, and the solvers that find speed, recirculation and choking, on generated sections and histories of questions."""
import copy
import json
import random
from fractions import Fraction as F

from . import fluids
from .distribution import guard
from .fluids import FIELDS, composition_of, model_of
from .modelcheck import pool_map, preload
from .num import q, qs
from .sampled import enc
from .trains import CONTROLS, G, Gas, ends, forward

FAIL = {"CompressorStonewallFailure": "stonewall", "CompressorSurgeFailure": "surge", "LiquidAtInletFailure": "liquid", "OfftakeExceedsInletFailure": "offtake",
        "InsufficientInletPressureFailure": "inletp", "ThermodynamicCalculationFailure": "thermo", "ConvergenceFailure": "converge"}
ERR = {"CompressorStonewallError": "stonewall", "CompressorSurgeError": "surge", "LiquidAtInletError": "liquid", "OfftakeExceedsInletError": "offtake",
       "InsufficientInletPressureError": "inletp"}


def service():
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
    return NeqSimFluidService.instance()


def stream(m, p, t, sm):
    return service().create_stream_from_standard_rate(fluid_model=model_of(m), pressure_bara=float(p), temperature_kelvin=float(t), standard_rate_m3_per_day=float(sm))


def rec(s):
    return {"x": qs(composition_of(s.composition)), "p": q(s.pressure_bara), "t": q(s.temperature_kelvin), "mass": q(s.mass_rate_kg_per_h), "rho": q(s.density),
            "sm": q(s.standard_rate_sm3_per_day)}


def chart_data(ch, margin):
    from libecalc.domain.process.value_objects.chart.base import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
    return UserDefinedChartData(curves=[ChartCurve(speed_rpm=float(s), rate_actual_m3_hour=[float(p[0]) for p in c], polytropic_head_joule_per_kg=[float(p[1]) for p in c],
                                                   efficiency_fraction=[float(p[2]) for p in c]) for s, c in ch], control_margin=float(margin))


class Section:
    """a real section, and its units by kind"""

    def __init__(self, stages, control, shaft=None, wire=True):
        from libecalc.process.process_units.compressor import Compressor
        from libecalc.process.process_units.liquid_remover import LiquidRemover
        from libecalc.process.process_units.mixer import Mixer
        from libecalc.process.process_units.pressure_dropper import PressureDropper
        from libecalc.process.process_units.splitter import Splitter
        from libecalc.process.process_units.temperature_setter import TemperatureSetter
        from libecalc.process.shaft import VariableSpeedShaft
        fs = service()
        self.kind, units, comps = {}, [], []

        def add(u, k, **kw):
            units.append(u)
            self.kind[u.get_id()] = {"k": k, **kw}
            return u
        for i, st in enumerate(stages):
            if st.get("outs"):
                add(Splitter(fs, rate=float(st["outs"])), "split", v=q(st["outs"]))
            for x in st.get("ins", []):
                u = add(Mixer(fs), "mix")
                s = stream(x["m"], x["p"], x["t"], x["sm"])
                u.set_stream(s)
                self.kind[u.get_id()]["s"] = rec(s)
            pre = [lambda: add(TemperatureSetter(fs, required_temperature_kelvin=float(st["t"])), "cool", v=q(float(st["t"])))]
            if st["drop"]:
                pre.append(lambda: add(PressureDropper(fs, pressure_drop_bara=float(st["drop"])), "drop", v=q(st["drop"])))
            if st.get("turn"):
                pre.reverse()
            for f in pre:
                f()
            if st.get("scrub", True):
                add(LiquidRemover(fs), "scrub")
            comps.append(add(Compressor(chart_data(st["ch"], st["margin"]), fs), "comp", st=i + 1))
        self.shaft = shaft or VariableSpeedShaft()
        for c in comps:
            self.shaft.connect(c)
        self.control, self.raw, self.comps = control, units, comps
        if wire:
            self.wire()

    def wire(self):
        """when all compressors are on the shaft"""
        from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
        from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
        from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
        from libecalc.process.process_solver.section_assembly import assemble_process_section
        from libecalc.process.process_solver.solver_assembly import assemble_solver
        from libecalc.process.process_units.choke import Choke
        fs, control, units, comps = service(), self.control, self.raw, self.comps
        a = assemble_process_section(units, AntiSurgeType.COMMON_ASV if control == "COMMON_ASV" else AntiSurgeType.INDIVIDUAL_ASV, control, fs)
        self.loops = [h for h in a.configuration_handlers if isinstance(h, RecirculationLoop)]
        chokes = [h for h in a.configuration_handlers if isinstance(h, ChokeConfigurationHandler)]
        self.choke = chokes[0] if chokes else None
        for lp in self.loops:
            self.kind[lp.get_mixer_id()] = {"k": "in", "loop": lp}
            self.kind[lp.get_splitter_id()] = {"k": "out", "loop": lp}
        if self.choke:
            self.kind[self.choke.get_choke_id()] = {"k": "choke"}
        self.units = a.process_units
        self.sys = assemble_solver(process_units=a.process_units, configuration_handlers=[self.shaft, *a.configuration_handlers], compressors=comps, recirculation_loops=self.loops,
                                   shaft=self.shaft, pipeline_name="p", pressure_control_type=control,
                                   choke=next((u for u in a.process_units if isinstance(u, Choke)), None), choke_configuration_handler=self.choke)
        self.solver, self.section, self.runner = self.sys.solver, self.sys.pipeline_section, self.sys.runner

    def reset(self):
        for h in [*self.loops, *([self.choke] if self.choke else [])]:
            h.reset()

    def described(self):
        out = []
        for u in self.units:
            d = {k: v for k, v in self.kind[u.get_id()].items() if k != "loop"}
            if "loop" in self.kind[u.get_id()]:
                d["v"] = q(self.kind[u.get_id()]["loop"].get_recirculation_rate())
            if d["k"] == "choke":
                d["v"] = q(self.choke.get_pressure_change())
            out.append(d)
        return out

    def run(self, inlet):
        """the streams, unit by unit, as far as it goes"""
        ss = [inlet]
        try:
            for u in self.units:
                ss.append(u.propagate_stream(ss[-1]))
        except Exception as ex:
            return ss, type(ex).__name__
        return ss, None

    def observe(self, inlet, target, sol, ask):
        """what was found, applied to handles at rest: a solution must say all that is needed"""
        f = sol.failure
        kind = kind_of(f)
        self.reset()
        ids = {self.shaft.get_id(), *(lp.get_id() for lp in self.loops), *([self.choke.get_id()] if self.choke else [])}
        for c in sol.configuration:
            if c.configuration_handler_id in ids:
                self.runner.apply_configuration(c)
        ss, err = self.run(inlet)
        return {"ask": ask, "pd": q(float(target)), "fail": kind, "achieve": q(f.achievable_pressure_bara) if kind in ("max_below", "min_above") else "0", "n": q(self.shaft.get_speed()),
                "rec": [q(lp.get_recirculation_rate()) for lp in self.loops], "choke": q(self.choke.get_pressure_change() if self.choke else 0.0),
                "runs": err is None, "us": self.described(), "ss": [rec(s) for s in ss]}


class P(G):
    def kind(self):
        return self.r.choice(["variable"] * 9 + ["single"])

    def section(self):
        """stages with what is taken out and comes in, and questions: inlets and targets"""
        r = self.r
        e = self.train(r.choice([2, 3, 4]), F(1))
        e["wet"] = e["m"]["x"][0] > 0
        for k, st in enumerate(e["stages"]):
            st["turn"] = r.random() < 0.5
            st["scrub"] = r.random() < (0.97 if e["wet"] else 0.6)
            if k and r.random() < 0.25:
                self.streams(e, k, st)
        return e

    def streams(self, e, k, st):
        r = self.r
        rate = max(e["rate"]) if r.random() < 0.3 else min(e["rate"])
        c = r.random()
        if c < 0.6:
            st["outs"] = F(int(rate * F(r.choice([5, 10, 20, 20, 120]), 100)))
        if c > 0.4:
            g = fluids.Rng(r).near(e["m"]) if r.random() < 0.5 else copy.deepcopy(e["m"])
            g["x"][0], g["eos"] = e["m"]["x"][0], e["m"]["eos"]
            st["ins"] = [{"m": g, "p": F(950), "t": F(r.randint(280, 350)), "sm": F(1 + int(max(e["rate"]) * F(r.choice([2, 5, 10]), 100)))}]


def encode_stages(e):
    out = []
    for st in e["stages"]:
        d = enc({"curves": [{"n": s, "r": [p[0] for p in cc], "h": [p[1] for p in cc], "e": [p[2] for p in cc]} for s, cc in st["ch"]], "margin": st["margin"], "t": st["t"],
                 "drop": st["drop"], "outs": st.get("outs", F(0))})
        d["ins"] = [{"x": qs(x["m"]["x"]), "eos": x["m"]["eos"], "sm": q(x["sm"])} for x in st.get("ins", [])]
        out.append(d)
    return out


def solves(rng):
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    e = P(rng).section()
    sec = Section(e["stages"], e["control"])
    asks = list(range(len(e["rate"])))
    if rng.random() < 0.5:
        asks.append(rng.choice(asks))
    found, warm = [], 0 if e["wet"] else rng.choice([0, 0, 20])
    for i in asks:
        inlet = stream(e["m"], e["ps"][i], e["stages"][0]["t"] + warm, e["rate"][i])
        sol = sec.solver.find_solution([FloatConstraint(float(e["pd"][i]))], inlet)
        found.append(sec.observe(inlet, e["pd"][i], sol, i))
    return {"e": "solve", "control": e["control"], "eos": e["m"]["eos"], "stages": encode_stages(e), "decide": not e["wet"], "found": found}


def kind_of(f):
    return "none" if f is None else FAIL.get(type(f).__name__) or ("max_below" if getattr(getattr(f, "direction", None), "name", "") == "MAX_BELOW_TARGET" else
                                                                    "min_above" if getattr(f, "direction", None) else "other")


def spare(rng):
    """what is too much for a section"""
    from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    e = P(rng).section()
    sec = Section(e["stages"], e["control"])
    i = rng.randrange(len(e["rate"]))
    full, pd = float(e["rate"][i] * F(rng.choice([1, 1, 2, 3])) + 1000), FloatConstraint(float(e["pd"][i]))
    at = lambda x: stream(e["m"], e["ps"][i], e["stages"][0]["t"], x)
    over = FeasibilitySolver(sec.solver).get_excess_rate(at(full), pd)
    if over > 0 and full - over > 1000 and rng.random() < 0.7:
        # a little more than it can take
        full = (full - over) * rng.uniform(1.001, 1.02)
        over = FeasibilitySolver(sec.solver).get_excess_rate(at(full), pd)
    full = at(full).standard_rate_sm3_per_day
    rates = [full, full - over, min(full, (full - over) * 1.0003 + 1), full / 2, full / 4]
    found = []
    for k, x in enumerate(rates):
        found.append(sec.observe(at(x), e["pd"][i], sec.solver.find_solution([pd], at(x)), k) if k != 1 or x > 1 else {**found[0], "fail": "none", "ask": 1})
    return {"e": "spare", "control": e["control"], "eos": e["m"]["eos"], "stages": encode_stages(e), "decide": False, "found": found, "full": q(full), "over": q(over)}


def lines(rng):
    """sections one after the other"""
    from libecalc.common.errors.exceptions import EcalcError
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver
    from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver
    from libecalc.process.process_solver.pipeline_section import Pipeline
    from libecalc.process.shaft import VariableSpeedShaft
    e = P(rng).section()
    while len(e["stages"]) < 2:
        e = P(rng).section()
    how = rng.choice(["pressures", "pressures", "shafts", "ratio"])
    cuts = sorted(rng.sample(range(1, len(e["stages"])), rng.randint(1, min(2, len(e["stages"]) - 1))))
    parts = [e["stages"][a:b] for a, b in zip([0, *cuts], [*cuts, len(e["stages"])])]
    wrong = how == "pressures" and rng.random() < 0.1
    inner = ["INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV"]
    controls = [rng.choice(inner + (["UPSTREAM_CHOKE"] if not k or how != "pressures" or wrong else []) + (["DOWNSTREAM_CHOKE"] if k == len(parts) - 1 or how != "pressures" or wrong else []))
                for k in range(len(parts))]
    shaft = VariableSpeedShaft() if how == "pressures" else None
    secs = [Section(p, c, shaft, wire=False) for p, c in zip(parts, controls)]
    for s in secs:
        s.wire()
    i = rng.randrange(len(e["rate"]))
    ps, pd = float(e["ps"][i]), float(e["pd"][i])
    n = len(e["stages"])
    targets = [ps * (pd / ps) ** ((b + (rng.uniform(-0.4, 0.4) if how != "ratio" and b < n and rng.random() < 0.7 else 0)) / n) for b in [*cuts, n]]
    if how == "ratio":
        targets = [ps * (pd / ps) ** ((k + 1) / len(secs)) for k in range(len(secs) - 1)] + [pd]
    inlet = stream(e["m"], ps, e["stages"][0]["t"], e["rate"][i])
    base = {"e": "line", "how": how, "eos": e["m"]["eos"], "controls": controls, "ps": q(ps), "decide": not e["wet"], "refused": False, "fail": "none",
            "secs": [{"stages": encode_stages({"stages": p})} for p in parts], "alone": [], "here": []}
    try:
        whole = MultiPressureSolver(Pipeline([s.section for s in secs])) if how == "pressures" else (MultiShaftSolver if how == "shafts" else MultiShaftEqualRatioSolver)([s.section for s in secs])
    except EcalcError:
        return {**base, "refused": True}
    # each by itself
    at = inlet
    for s, t in zip(secs, targets):
        sol = s.solver.find_solution([FloatConstraint(t)], at)
        base["alone"].append(s.observe(at, t, sol, 0))
        if not sol.success or not base["alone"][-1]["runs"]:
            break
        at = s.run(at)[0][-1]
    sol = whole.find_solution([FloatConstraint(pd)] if how == "ratio" else [FloatConstraint(t) for t in targets], inlet)
    base["fail"] = kind_of(sol.failure)
    if sol.success:
        at = inlet
        for s, t in zip(secs, targets):
            base["here"].append(s.observe(at, t, sol, 0))
            if not base["here"][-1]["runs"]:
                break
            at = s.run(at)[0][-1]
    return base


def unit(rng):
    """one unit on one stream"""
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.compressor import Compressor
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.liquid_remover import LiquidRemover
    from libecalc.process.process_units.mixer import Mixer
    from libecalc.process.process_units.pressure_dropper import PressureDropper
    from libecalc.process.process_units.splitter import Splitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter
    fs = service()
    m = fluids.Rng(rng).model()
    p, t, sm = rng.choice([1, 5, rng.uniform(1, 120)]), rng.uniform(275, 370), rng.choice([10000, rng.randint(1000, 5000000)])
    a = stream(m, p, t, sm)
    k = rng.choice(["drop", "choke", "cool", "scrub", "in", "out", "mix", "split", "comp", "comp", "comp"])
    d, n = {"k": k}, 1.0
    if k in ("drop", "choke"):
        v = rng.choice([0.0, rng.uniform(0, 1.3) * p, rng.uniform(0, 0.9) * p])
        u = PressureDropper(fs) if k == "drop" else Choke(fs)
        (u.set_pressure_drop if k == "drop" else u.set_pressure_change)(v)
        d["v"] = q(v)
    elif k == "cool":
        v = rng.choice([t, rng.uniform(275, 370)])
        u = TemperatureSetter(fs)
        u.set_temperature(v)
        d["v"] = q(v)
    elif k == "scrub":
        u = LiquidRemover(fs)
    elif k == "in":
        v = rng.choice([0, rng.uniform(0, 3) * sm])
        u = DirectMixer()
        u.set_mix_rate(v)
        d["v"] = q(v)
    elif k == "out":
        v = rng.choice([0, rng.uniform(0, 0.99) * sm])
        u = DirectSplitter()
        u.set_split_rate(v)
        d["v"] = q(v)
    elif k == "mix":
        g = fluids.Rng(rng).near(m) if rng.random() < 0.5 else fluids.Rng(rng).model(eos=m["eos"])
        g["eos"] = m["eos"]
        s = stream(g, rng.choice([p, rng.uniform(1, 120)]), rng.uniform(275, 370), rng.choice([0.01, 1, 2]) * sm)
        u = Mixer(fs)
        u.set_stream(s)
        d["s"] = rec(s)
    elif k == "split":
        v = rng.choice([0.0, rng.uniform(0, 1) * sm, rng.uniform(1, 1.5) * sm])
        u = Splitter(fs)
        u.set_rate(v)
        d["v"] = q(v)
    else:
        while True:
            e = P(rng).train(1, F(1))
            st = e["stages"][0]
            if rng.random() < 0.8:
                e["m"]["x"][0] = 0.0
            n = float(rng.choice([st["ch"][0][0], st["ch"][-1][0], rng.choice(st["ch"])[0], st["ch"][0][0] + (st["ch"][-1][0] - st["ch"][0][0]) * F(rng.randint(0, 64), 64)]))
            lo, hi = ends(st["ch"], st["margin"], n)
            x = lo + (hi - lo) * rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.uniform(-0.5, 1.5)])
            if x > 0:
                break
        m = e["m"]
        a = stream(m, float(e["ps"][0]), float(st["t"]), 1000)
        a = a.with_mass_rate(x * a.density)
        u = Compressor(chart_data(st["ch"], st["margin"]), fs)
        u.set_speed(n)
        d["ch"] = {z: w for z, w in encode_stages({"stages": [st]})[0].items() if z in ("curves", "margin")}
    err, b = "none", a
    try:
        b = u.propagate_stream(a)
    except Exception as ex:
        err = ERR.get(type(ex).__name__) or repr(ex)[:200]
    return {"e": "unit", "u": d, "a": rec(a), "b": rec(b), "eos": m["eos"], "n": q(n), "err": err}


def _solves(job):
    seed, n = job
    out = []
    for i in range(n):
        rng = random.Random(f"{seed}-{i}")
        out += guard(lambda: [solves(rng)])
    return out


def _others(job):
    seed, n = job
    out = []
    for i in range(n):
        rng = random.Random(f"{seed}-{i}")
        out += guard(lambda: [(lines if i % 3 else spare)(rng)])
    return out


def _units(job):
    seed, n = job
    rng = random.Random(seed)
    return guard(lambda: [unit(rng) for _ in range(n)])


def corrupt(e, rng):
    c = copy.deepcopy(e)
    up = lambda x: q(F(x) * F(100001, 100000) + F(1, 100000))
    if c["e"] == "unit":
        if c["err"] != "none":
            c["err"] = "other"
        else:
            k = rng.choice(["mass", "t", "rho", "sm", "err"])
            if k == "err":
                c["err"] = "other"
            else:
                c["b"][k] = up(c["b"][k])
        return c
    if c["e"] == "spare":
        c["over"] = q(F(c["full"]) * F(11, 10))
        return c
    if c["e"] == "line":
        if c["refused"] or c["fail"] != "none":
            c["fail"] = "other" if not c["refused"] else "none"
            c["refused"] = False
            c["controls"] = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE"] + c["controls"] if c["fail"] == "none" else c["controls"]
            c["how"] = "pressures" if c["fail"] == "none" else c["how"]
            return c
        o = rng.choice(c["here"])
        k = rng.choice(["runs", "mass", "t", "n", "pd"])
        if k == "runs":
            o["runs"] = False
        elif k in ("mass", "t"):
            x = rng.choice(o["ss"][1:])
            x[k] = up(x[k])
        elif k == "n":
            o["n"] = "1000000"
        else:
            o["pd"] = q(F(o["pd"]) * F(101, 100))
        return c
    o = rng.choice(c["found"])
    if o["fail"] == "none" and o["runs"]:
        k = rng.choice(["runs", "mass", "t", "rho", "n", "pd"])
        if k == "runs":
            o["runs"] = False
        elif k in ("mass", "t", "rho"):
            s = rng.choice(o["ss"][1:])
            s[k] = up(s[k])
        elif k == "n":
            o["n"] = "1000000"
        else:
            o["pd"] = q(F(o["pd"]) * F(101, 100))
    else:
        o["n"] = "1000000"
    return c


def check(chk, n, m, o, canaries=40):
    preload()
    es = [e for r in pool_map(_solves, [(chk.rng.getrandbits(48), 2) for _ in range(n)]) for e in r]
    es += [e for r in pool_map(_units, [(chk.rng.getrandbits(48), 40) for _ in range(m)]) for e in r]
    es += [e for r in pool_map(_others, [(chk.rng.getrandbits(48), 3) for _ in range(o)]) for e in r]
    good = [e for e in es if "crash" not in e]
    for e in es:
        if "crash" in e:
            chk.violations.append({"spec": "ProcessTrace", "clauses": ["the solver ended with an error of its own"], "event": e})
    if good:
        chk.validate("ProcessTrace", good, chk.spoiled(good, corrupt, canaries))
