"""Process simulations written in models: what the units, sections, pressures, events and streams of them become."""
import copy
import json
import random
import shutil
import tempfile
import traceback
from fractions import Fraction as F
from pathlib import Path

from .liquid import day
from .model import dec
from .modelcheck import pool_map, preload
from .num import q, qs

COMP = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]
KINDS = ["COMPRESSOR", "PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER", "MIXER", "SPLITTER"]


class G:
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.S = {"cols": [[F(r.randint(0, 60), r.choice([1, 2, 4])) for _ in range(n)] for _ in range(r.randint(1, 4))],
                  "defs": [], "fluids": [], "streams": [], "pipes": [], "sims": [], "events": [], "pevents": []}
        self.count = 0

    def name(self, what):
        self.count += 1
        return f"{what} {self.count}" if self.r.random() < 0.3 else f"{what}_{self.count}"

    def x(self, low=1, high=200):
        r = self.r
        c = F(r.randint(low * 4, high * 4), 4)
        return {"c": c, "col": r.randint(1, len(self.S["cols"])) if r.random() < 0.4 else 0}

    def rate(self):
        r = self.r
        conds = [{"col": r.randint(1, len(self.S["cols"])), "c": F(r.randint(0, 40))} for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]
        return {"x": self.x(0, 9000), "type": r.choice(["", "STREAM_DAY", "CALENDAR_DAY"]), "conds": conds}

    def chart(self):
        r = self.r
        hu, eu = r.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"]), r.choice(["PERCENTAGE", "FRACTION"])
        curves, speed = [], r.randint(1000, 5000)
        for _ in range(r.choice([1, 1, 2, 3])):
            speed += r.randint(100, 900)
            m = r.randint(2, 4)
            rate = sorted(r.sample(range(500, 5000), m))
            head = sorted((F(r.randint(4000, 9000)) for _ in rate), reverse=True)
            eff = [F(r.randint(50, 90)) / (100 if eu == "FRACTION" else 1) for _ in rate]
            curves.append({"speed": F(speed), "rate": [F(z) for z in rate], "head": [h / 100 if hu == "KJ_PER_KG" else h for h in head], "eff": eff})
        mu = r.choice(["PERCENTAGE", "FRACTION"])
        margin = F(r.choice([0, 0, 1, 5, 10, 25]), 1 if mu == "PERCENTAGE" else 100)
        return {"curves": curves, "hu": hu, "eu": eu, "mu": mu, "margin": margin, "file": r.random() < 0.3, "broken": False}

    def fluid(self):
        r = self.r
        f = {"eos": r.choice(["SRK", "PR", "GERG_SRK", "GERG_PR"]), "gas": "", "comp": []}
        if r.random() < 0.4:
            f["gas"] = r.choice(["ULTRA_DRY", "DRY", "MEDIUM", "RICH", "ULTRA_RICH"])
        else:
            f["comp"] = [self.x(1, 50) if c == "methane" or r.random() < 0.4 else {"c": F(0), "col": 0} for c in COMP]
        return f

    def ref(self, pool, key, make):
        """{"ref": name, key: ""} or {"ref": "", key: the thing in its place}"""
        if self.r.random() < 0.5:
            have = self.S[pool]
            if not have or self.r.random() < 0.5:
                have.append({"name": self.name(pool), key: make()})
            return {"ref": self.r.choice(have)["name"]}
        return {"ref": "", key: make()}

    def stream(self):
        return {"p": self.x(), "t": self.x(250, 400), "rate": self.rate(), "fluid": self.ref("fluids", "f", self.fluid)}

    def unit(self, kind=None):
        kind = kind or self.r.choice(KINDS[1:])
        u = {"kind": kind}
        if kind == "COMPRESSOR":
            u["chart"] = self.chart()
        elif kind in ("PRESSURE_DROPPER", "TEMPERATURE_SETTER"):
            u["x"] = self.x(1, 40)
        elif kind == "MIXER":
            u["stream"] = self.ref("streams", "s", self.stream)
        elif kind == "SPLITTER":
            u["rate"] = self.rate()
        return u

    def item(self, kind, name=""):
        r = self.r
        if r.random() < 0.4:
            have = [d for d in self.S["defs"] if d["u"]["kind"] == kind]
            if not have or r.random() < 0.5:
                have.append({"name": self.name("unit"), "u": self.unit(kind)})
                self.S["defs"].append(have[-1])
            return {"name": name, "ref": r.choice(have)["name"]}
        return {"name": name, "ref": "", "u": self.unit(kind)}

    def pipe(self):
        """a pipeline and pressures for it"""
        r = self.r
        units, cs, names = [], [], 0
        sections = r.choice([1, 1, 2, 2, 3])
        for j in range(sections):
            asv = r.choice(["COMMON_ASV", "INDIVIDUAL_ASV", "INDIVIDUAL_ASV"])
            mine = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    k = r.choice(KINDS[1:4] if asv == "COMMON_ASV" else KINDS[1:])
                    mine.append(k)
                mine.append("COMPRESSOR")
            if r.random() < 0.4:
                mine.append(r.choice(KINDS[1:4] if asv == "COMMON_ASV" else KINDS[1:]))
            for k in mine:
                names += 1
                units.append(self.item(k, f"u{names}" if r.random() < 0.5 else ""))
            c = {"at": "", "p": self.x(), "as": asv,
                 "pc": r.choice(["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"] + (["COMMON_ASV"] * 2 if asv == "COMMON_ASV" else ["INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]))}
            if j < sections - 1 or r.random() < 0.3:
                units[-1]["name"] = c["at"] = units[-1]["name"] or f"u{names}"
                if j == sections - 1 and r.random() < 0.5:
                    units.append(self.item(r.choice(KINDS[1:4]), r.choice(["", "last"])))
            cs.append(c)
        r.shuffle(cs)
        p = {"name": self.name("pipe"), "units": units, "events": []}
        comps = [u for u in units if u["name"] and self.kind(u) == "COMPRESSOR"]
        if comps and self.S["pevents"]:
            for _ in range(r.choice([0, 1, 1, 2])):
                to = self.item("COMPRESSOR")
                if not to["ref"]:
                    self.S["defs"].append({"name": self.name("new"), "u": to["u"]})
                    to = {"ref": self.S["defs"][-1]["name"]}
                p["events"].append({"target": r.choice(comps)["name"], "to": to["ref"], "ref": r.choice(self.S["pevents"])["name"]})
        return p, cs

    def kind(self, it):
        return (it["u"] if not it["ref"] else next(d["u"] for d in self.S["defs"] if d["name"] == it["ref"]))["kind"]

    def model(self):
        r, S = self.r, self.S
        k = r.choice([None, 0, r.randint(1, self.n - 2)])
        S["start"], first = k, k or 0
        S["end"] = self.n if r.random() < 0.6 else r.randint(first + 1, self.n)
        S["first"], S["cnt"] = first + 1, S["end"] - first
        for _ in range(r.choice([0, 1, 2, 3])):
            S["events"].append({"name": self.name("event"), "type": r.choice(["OPERATIONAL_MEASUREMENT", "ENERGY_EFFICIENCY_MEASUREMENT", "CALIBRATION", "TIE_IN", "OTHER"]),
                                "start": day(r.randint(0, self.n)), "desc": r.choice(["", "why"])})
        for _ in range(r.randint(0, 4) if S["events"] else 0):
            again = S["pevents"] and r.random() < 0.15
            S["pevents"].append({"name": r.choice(S["pevents"])["name"] if again else self.name("change"), "type": r.choice(["INCREASED_GAS_RATE", "INCREASED_WATER_INJECTION", "OTHER"]),
                                 "ref": r.choice(S["events"])["name"], "desc": r.choice(["", "because"])})
        pool = []
        for _ in range(r.choice([1, 2, 2, 3])):
            p, cs = self.pipe()
            S["pipes"].append(p)
            pool.append((p, cs))
        for _ in range(r.choice([1, 1, 2])):
            use = r.sample(pool, r.randint(1, len(pool)))
            targets = [p["name"] for p, _ in use]
            cons = [{"pipe": p["name"], "cs": [dict(c, p=self.x()) for c in cs]} for p, cs in use]
            r.shuffle(cons)
            d = {"method": r.choice(["COMMON_STREAM", "INDIVIDUAL_STREAMS"]), "settings": []}
            if d["method"] == "COMMON_STREAM":
                d["streams"] = [self.ref("streams", "s", self.stream)]
                for _ in range(r.choice([1, 1, 2, 3])):
                    over = [dict(zip(("from", "to"), r.sample(targets, 2))) for _ in range(r.choice([0, 1, 2]))] if len(targets) > 1 else []
                    d["settings"].append({"fr": [self.x(0, 1) for _ in targets], "over": over})
            else:
                d["streams"] = [self.ref("streams", "s", self.stream) for _ in targets]
            S["sims"].append({"name": self.name("sim"), "targets": targets, "cons": cons, "dist": d})
        if r.random() < 0.5:
            self.spoil()
        r.shuffle(S["pipes"])
        r.shuffle(S["defs"])
        return S

    def spoil(self):
        """something that may not be (whether it is then refused is for the specification to say: it may be nothing that is used)"""
        r, S = self.r, self.S
        p, m = r.choice(S["pipes"]), r.choice(S["sims"])
        c = r.choice(m["cons"])
        if r.random() < 0.8:
            p = next(x for x in S["pipes"] if x["name"] == c["pipe"])
        it = r.choice(p["units"])
        why = r.choice(["unit", "target", "constraint", "nothing", "empty", "unknown", "twice", "outlets", "names", "asv", "none", "control", "splitter", "splitter", "compressor", "behind",
                        "stream", "fluid", "negative", "event", "target of event", "to", "kind of to", "events", "pevents", "overflow", "chart"])
        if why == "unit":
            it.update(ref="nothing like it")
            it.pop("u", None)
            p["units"] = [x if x is not it else {"name": it["name"], "ref": it["ref"]} for x in p["units"]]
        elif why == "target":
            m["targets"].append("nothing like it")
        elif why == "constraint":
            m["cons"].append({"pipe": r.choice(["nothing like it", *[x["name"] for x in S["pipes"] if x["name"] not in m["targets"]]]), "cs": c["cs"]})
        elif why == "nothing":
            m["cons"].remove(c)
        elif why == "empty":
            c["cs"] = []
        elif why == "unknown":
            r.choice(c["cs"])["at"] = "nobody"
        elif why in ("twice", "outlets"):
            x = dict(r.choice(c["cs"]), p=self.x())
            if why == "outlets":
                x["at"] = ""
            c["cs"].append(x)
        elif why == "names":
            named = [x for x in p["units"] if x["name"]]
            if named and len(p["units"]) > 1:
                it["name"] = r.choice(named)["name"]
        elif why == "asv":
            x = r.choice(c["cs"])
            x["as"] = r.choice(["COMMON_ASV", "INDIVIDUAL_ASV"])
        elif why == "none":
            r.choice(c["cs"])["as"] = "NO_ASV"
        elif why == "control":
            r.choice(c["cs"])["pc"] = r.choice(["COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"])
        elif why == "splitter":
            if r.random() < 0.5:
                for x in c["cs"]:
                    x["as"] = "COMMON_ASV"
                    x["pc"] = r.choice(["COMMON_ASV", "UPSTREAM_CHOKE"])
            p["units"].insert(r.randint(0, len(p["units"])), self.item(r.choice(["SPLITTER", "MIXER"])))
        elif why == "compressor":
            at = [i for i, x in enumerate(p["units"]) if (x["ref"] == "" or any(d["name"] == x["ref"] for d in S["defs"])) and self.kind(x) == "COMPRESSOR" and not x["name"]]
            if at and len(p["units"]) > 1:
                del p["units"][r.choice(at)]
        elif why == "behind":
            p["units"].append(self.item(r.choice(KINDS)))
        elif why == "stream":
            r.choice(m["dist"]["streams"]).update(ref="nothing like it")
        elif why == "fluid":
            s = r.choice([d["s"] for d in S["streams"]] + [x["s"] for x in m["dist"]["streams"] if not x["ref"]] or [self.stream()])
            s["fluid"].update(ref="nothing like it")
        elif why == "negative":
            rates = [d["s"]["rate"] for d in S["streams"]] + [x["s"]["rate"] for x in m["dist"]["streams"] if not x["ref"]]
            rates += [x["u"]["rate"] for x in p["units"] if not x["ref"] and x["u"]["kind"] == "SPLITTER"]
            if rates:
                x = r.choice(rates)["x"]
                x["c"] = -abs(x["c"]) - 1
        elif why in ("event", "target of event", "to", "kind of to"):
            evs = [e for x in S["pipes"] for e in x["events"]]
            if evs:
                e = r.choice(evs)
                if why == "kind of to":
                    S["defs"].append({"name": self.name("unit"), "u": self.unit(r.choice(KINDS[1:4]))})
                e[{"event": "ref", "target of event": "target"}.get(why, "to")] = S["defs"][-1]["name"] if why == "kind of to" else "nothing like it"
        elif why == "events" and S["events"]:
            S["events"].append(dict(r.choice(S["events"]), start=day(0)))
        elif why == "pevents" and S["pevents"]:
            r.choice(S["pevents"])["ref"] = "nothing like it"
        elif why == "overflow":
            for s in m["dist"]["settings"]:
                s["over"] = [*s["over"], {"from": m["targets"][0], "to": "nothing like it"}][:: r.choice([1, -1])]
        elif why == "chart":
            us = [d["u"] for d in S["defs"]] + [x["u"] for x in p["units"] if not x["ref"]]
            us = [u for u in us if u["kind"] == "COMPRESSOR"]
            if us:
                r.choice(us)["chart"].update(file=True, broken=True)


def num(x):
    return dec(q(x))


class Writer:
    def __init__(self, S, r):
        self.S, self.r, self.files = S, r, {}

    def x(self, x):
        if x["col"]:
            a, b = f"SIM;C{x['col']}", num(x["c"]) if x["c"] >= 0 else f"(0 {{-}} {num(-x['c'])})"
            return self.r.choice([f"{a} {{*}} {b}", f"{b} {{*}} {a}"]) if x["c"] != 1 else a
        return self.r.choice([num(x["c"]), float(x["c"])])

    def rate(self, d):
        out = {"VALUE": self.x(d["x"]), "UNIT": "SM3_PER_DAY"}
        if d["type"]:
            out["TYPE"] = d["type"]
        cs = [f"SIM;C{c['col']} > {num(c['c'])}" for c in d["conds"]]
        if len(cs) == 1 and self.r.random() < 0.5:
            out["CONDITION"] = cs[0]
        elif cs:
            out["CONDITIONS"] = cs
        return out

    def fluid(self, f):
        if f["gas"]:
            return {"TYPE": "PREDEFINED", "EOS_MODEL": f["eos"], "GAS_TYPE": f["gas"]}
        return {"TYPE": "COMPOSITION", "EOS_MODEL": f["eos"],
                "COMPOSITION": {c: self.x(x) for c, x in zip(COMP, f["comp"]) if c == "methane" or x["c"] != 0 or self.r.random() < 0.3}}

    def stream(self, s, name):
        return {"NAME": name, "FLUID": s["fluid"]["ref"] or self.fluid(s["fluid"]["f"]), "TEMPERATURE": self.x(s["t"]), "PRESSURE": self.x(s["p"]), "RATE": self.rate(s["rate"])}

    def streamref(self, r):
        return r["ref"] or self.stream(r["s"], f"inline {self.r.getrandbits(40)}")

    def chart(self, c):
        units = {"RATE": "AM3_PER_HOUR", "HEAD": c["hu"], "EFFICIENCY": c["eu"]}
        if c["file"]:
            name = f"chart{len(self.files)}.csv"
            cols = ["RATE", "HEAD", "EFFICIENCY"] + ([] if c["broken"] else ["SPEED"])
            self.r.shuffle(cols)
            rows = [{"SPEED": k["speed"], "RATE": a, "HEAD": b, "EFFICIENCY": e} for k in c["curves"] for a, b, e in zip(k["rate"], k["head"], k["eff"])]
            self.files[name] = ",".join(cols) + "\n" + "".join(",".join(num(w[h]) for h in cols) + "\n" for w in rows)
            curves = {"FILE": name}
        else:
            curves = [{"SPEED": float(k["speed"]), "RATE": [float(v) for v in k["rate"]], "HEAD": [float(v) for v in k["head"]], "EFFICIENCY": [float(v) for v in k["eff"]]} for k in c["curves"]]
        return {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": curves, "UNITS": units}, "CONTROL_MARGIN": {"UNIT": c["mu"], "VALUE": float(c["margin"])}}

    def unit(self, u):
        out = {"TYPE": u["kind"]}
        if u["kind"] == "COMPRESSOR":
            out["COMPRESSOR_MODEL"] = self.chart(u["chart"])
        elif u["kind"] == "PRESSURE_DROPPER":
            out["PRESSURE_DROP"] = self.x(u["x"])
        elif u["kind"] == "TEMPERATURE_SETTER":
            out["TEMPERATURE"] = self.x(u["x"])
        elif u["kind"] == "MIXER":
            out["SIDESTREAM"] = self.streamref(u["stream"])
        elif u["kind"] == "SPLITTER":
            out["OFFTAKE_RATE"] = self.rate(u["rate"])
        return out

    def pipe(self, p):
        out = {"NAME": p["name"], "PROCESS_UNITS": [dict({"TARGET": u["ref"] or self.unit(u["u"])}, **({"NAME": u["name"]} if u["name"] else {})) for u in p["units"]]}
        if p["events"]:
            out["EVENTS"] = [{"TYPE": "CHANGE", "CHANGE_TARGET": e["target"], "CHANGE_FROM": "before", "CHANGE_TO": e["to"], "CHANGE_TYPE": "REBUNDLE", "REF": e["ref"]} for e in p["events"]]
        return out

    def sim(self, m):
        d = m["dist"]
        if d["method"] == "COMMON_STREAM":
            dist = {"METHOD": d["method"], "INLET_STREAM": self.streamref(d["streams"][0]), "SETTINGS": [
                dict({"RATE_FRACTIONS": [self.x(f) for f in s["fr"]]},
                     **({"OVERFLOW": [{"FROM_REFERENCE": o["from"], "TO_REFERENCE": o["to"]} for o in s["over"]]} if s["over"] else {})) for s in d["settings"]]}
        else:
            dist = {"METHOD": d["method"], "INLET_STREAMS": [self.streamref(s) for s in d["streams"]]}
        return {"NAME": m["name"], "TARGETS": m["targets"], "STREAM_DISTRIBUTION": dist, "CONSTRAINTS": {c["pipe"]: [
            dict({"OUTLET_PRESSURE": self.x(k["p"]), "PRESSURE_CONTROL": k["pc"], "ANTI_SURGE": k["as"]}, **({"PROCESS_UNIT": k["at"]} if k["at"] else {})) for k in c["cs"]] for c in m["cons"]}}

    def event(self, e, **more):
        return dict({"TYPE": e["type"], "NAME": e["name"]}, **more, **({"DESCRIPTION": e["desc"]} if e["desc"] else {}))

    def all(self):
        import yaml
        S, n = self.S, len(self.S["cols"][0])
        self.files["sim.csv"] = "DATE," + ",".join(f"C{j + 1}" for j in range(len(S["cols"]))) + "\n" + "".join(
            f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(num(c[i]) for c in S["cols"]) + "\n" for i in range(n))
        dm = {"TIME_SERIES": [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "sim.csv"}],
              "DEFINITIONS": {"PROCESS_UNITS": {d["name"]: self.unit(d["u"]) for d in S["defs"]}, "FLUIDS": {d["name"]: self.fluid(d["f"]) for d in S["fluids"]}},
              "INLET_STREAMS": {f"key {k}": self.stream(d["s"], d["name"]) for k, d in enumerate(S["streams"])},
              "PROCESS_PIPELINES": {f"pipeline key {k}": self.pipe(p) for k, p in enumerate(S["pipes"])},
              "PROCESS_SIMULATIONS": [self.sim(m) for m in S["sims"]],
              "ECALC_EVENTS": [self.event(e, START=e["start"]) for e in S["events"]], "PROCESS_EVENTS": [self.event(e, REF=e["ref"]) for e in S["pevents"]],
              "FUEL_TYPES": [{"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}], **({"START": day(S["start"])} if S["start"] is not None else {}), "END": day(S["end"]),
              "INSTALLATIONS": [{"NAME": "A", "FUEL": "gas", "REGULARITY": 0.5, "FUELCONSUMERS": [
                  {"NAME": "flare", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1}}]}]}
        keys = list(dm)
        self.r.shuffle(keys)
        text = yaml.safe_dump({k: dm[k] for k in keys if dm[k] not in ([], {})}, sort_keys=False, width=10000)
        for i in range(n + 1):     # dates without quotes
            text = text.replace(f"'{day(i)}'", day(i))
        self.files["model.yml"] = text
        return self.files


def values(x):
    return qs(x.get_masked_values())


def a_stream(s, periods):
    comps = [s.fluid_model.get_value(p) for p in periods]
    return {"p": values(s.pressure_bara), "t": values(s.temperature_kelvin), "rate": qs(s.standard_rate_m3_per_day.get_stream_day_values()), "eos": str(comps[0].eos_model.name),
            "comp": [[q(getattr(c.composition, name)) for c in comps] for name in COMP]}


def a_chart(c):
    return {"curves": [{"speed": q(k.speed), "rate": qs(k.rate_values), "head": qs(k.head_values), "eff": qs(k.efficiency_values)} for k in c.chart_data.get_original_curves()],
            "floors": [q(min(k.rate_values)) for k in c.chart_data.get_adjusted_curves()]}


def observe(fs, first):
    from libecalc.ecalc_model.ecalc_event import EcalcEventService
    from .model import load
    folder = Path(tempfile.mkdtemp(dir=str(__import__("vf.tlc", fromlist=["SCRATCH"]).SCRATCH)))
    for n, text in fs.items():
        (folder / n).write_text(text)
    try:
        model = load(folder)
        events = model.get_events()
        pipes, sims = model.get_process_simulations(EcalcEventService(events))
        days = {day(i): i + 1 for i in range(40)}
        by, ids = {p.get_id(): p for p in pipes}, [u.get_id() for p in pipes for u in p.get_process_units()]
        out = {"events": [{"name": e.name, "type": e.type.value, "start": str(e.start.date()), "desc": e.description or "",
                           "pe": [{"name": p.name, "type": p.type.value, "desc": p.description or ""} for p in e.process_events]} for e in events],
               "alone": len(set(ids)) == len(ids) and len(by) == len(pipes) and sum(len(s.process_problems) for s in sims) == len(pipes),
               "days": None, "sims": []}
        for s in sims:
            out["sims"].append({"name": s.get_name(), "pipes": [], "dist": None})
            mine = [by[p.get_process_pipeline_id()] for p in s.process_problems]
            no = {p.get_id(): k + 1 for k, p in enumerate(mine)}
            for pr in s.process_problems:
                p = by[pr.get_process_pipeline_id()]
                for ps in (p.get_process_periods(), s.get_process_periods()):
                    d = [days.get(str(x.start.date()), 0) for x in ps] + [days.get(str(ps[-1].end.date()), 0)]
                    out["days"] = d if out["days"] in (None, d) else [0]
                units = list(p.get_process_units())
                at = {u.get_id(): i + 1 for i, u in enumerate(units)}
                links = list(p.get_process_unit_connections())
                hand = []
                for h in pr.get_configuration_handlers():
                    if hasattr(h, "get_compressor_ids"):
                        hand.append({"kind": "shaft", "at": [at.get(i, 0) for i in h.get_compressor_ids()]})
                    elif hasattr(h, "get_mixer_id"):
                        hand.append({"kind": "loop", "at": [at.get(h.get_mixer_id(), 0), at.get(h.get_splitter_id(), 0)]})
                    else:
                        hand.append({"kind": "choke", "at": [at.get(h.get_choke_id(), 0)]})
                secs = {x.get_id(): k + 1 for k, x in enumerate(p.get_process_pipeline_sections())}
                conns = {c.get_id(): at[c.get_from_process_unit_id()] for c in links}
                conf = []
                for i, c in s.process_configurations[p.get_id()].items():
                    kind = {"TimeSeriesPressureDropperConfiguration": "PRESSURE_DROPPER", "TimeSeriesTemperatureSetterConfiguration": "TEMPERATURE_SETTER",
                            "TimeSeriesMixerConfiguration": "MIXER", "TimeSeriesSplitterConfiguration": "SPLITTER"}[type(c).__name__]
                    v = (values(c.pressure_drop_in_bara) if kind == "PRESSURE_DROPPER" else values(c.temperature_in_celsius) if kind == "TEMPERATURE_SETTER"
                         else qs(c.offtake_rate.get_stream_day_values()) if kind == "SPLITTER" else a_stream(c.sidestream, p.get_process_periods()))
                    conf.append({"at": at.get(i, 0), "kind": kind, "v": v})
                out["sims"][-1]["pipes"].append({
                    "name": p.get_name(), "units": [type(u).__name__ for u in units], "lens": [len(x.get_process_units()) for x in p.get_process_pipeline_sections()],
                    "links": [[at[c.get_from_process_unit_id()], at[c.get_to_process_unit_id()]] for c in links],
                    "charts": [a_chart(u.compressor_chart) if hasattr(u, "compressor_chart") else {"curves": [], "floors": []} for u in units], "hand": hand,
                    "ev": [{"action": str(e.action.value), "type": str(e.change_type.value), "at": at.get(e.change_target, 0), "when": str(e.change_time.date()),
                            "chart": a_chart(e.change_to.compressor_chart)} for e in p.get_events()],
                    "probs": [{"sec": secs.get(b.get_process_pipeline_section_id(), 0), "p": values(b.get_constraint().outlet_pressure), "at": at.get(b.get_constraint().target_process_unit_id, 0),
                               "link": conns.get(b.get_constraint().target_process_connection_id, 0), "pc": b.get_pressure_control().type, "as": str(b.get_anti_surge().type.value)}
                              for b in pr.get_process_problem_sections()], "conf": conf})
            d = s.stream_distribution
            periods = s.get_process_periods()
            common = hasattr(d, "settings")
            out["sims"][-1]["dist"] = {
                "method": "COMMON_STREAM" if common else "INDIVIDUAL_STREAMS", "streams": [a_stream(x, periods) for x in s.get_inlet_streams()],
                "settings": [{"fr": [values(f) for f in x.rate_fractions], "over": [[no.get(o.from_id, 0), no.get(o.to_id, 0)] for o in x.overflow]} for x in d.settings] if common else []}
        return out, None
    except BaseException as e:  # noqa: BLE001
        return None, e
    finally:
        shutil.rmtree(folder)


def enc(x):
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, list):
        return [enc(v) for v in x]
    return q(x) if isinstance(x, F) else x


def one(rng):
    S = G(rng, rng.choice([3, 6, 14])).model()
    fs = Writer(S, rng).all()
    got, err = observe(fs, S["first"])
    from libecalc.common.errors.exceptions import EcalcError
    e = {"S": {k: enc(v) for k, v in S.items() if k not in ("start", "end")}, "refused": err is not None, "files": json.dumps(fs)}
    if err is not None and not isinstance(err, EcalcError):
        return {"crash": "".join(traceback.format_exception(err))[-3000:], "files": fs}
    e.update({"raised": repr(err)[:300]} if err is not None else got)
    return e


def _job(seed):
    return one(random.Random(seed))


def spoil(e, r):
    """a wrong one"""
    c = copy.deepcopy(e)
    if c["refused"] or r.random() < 0.1:
        if c["refused"]:
            c.update(refused=False, events=[], alone=True, days=[], sims=[])
        else:
            c["refused"] = True
        return c
    m = r.choice(c["sims"])
    p = r.choice(m["pipes"])
    s = r.choice(m["dist"]["streams"])
    up = lambda xs: xs.__setitem__(k := r.randrange(len(xs)), q(F(xs[k]) + F(1, 1000)))  # noqa: E731
    what = r.choice(["alone", "days", "name", "units", "lens", "links", "shaft", "loop", "p", "pc", "at", "link", "conf", "curve", "floor", "stream", "comp", "eos", "drop", "ev", "when"])
    if what == "alone":
        c["alone"] = False
    elif what == "days":
        c["days"][-1] += 1
    elif what == "name":
        p["name"] += "x"
    elif what == "units":
        p["units"][0] = "Choke"
    elif what == "lens":
        p["lens"][-1] += 1
    elif what == "links":
        p["links"].pop()
    elif what in ("shaft", "loop"):
        r.choice(p["hand"])["at"].reverse() if what == "loop" and len(p["hand"][1]["at"]) == 9 else p["hand"].pop()
    elif what == "p":
        up(r.choice(p["probs"])["p"])
    elif what == "pc":
        r.choice(p["probs"])["pc"] = "NONE"
    elif what in ("at", "link"):
        r.choice(p["probs"])[what] -= 1
    elif what == "conf" and p["conf"]:
        p["conf"].pop()
    elif what in ("curve", "floor"):
        ch = r.choice([x for x in p["charts"] if x["curves"]])
        up(ch["floors"] if what == "floor" else r.choice(ch["curves"])[r.choice(["rate", "head", "eff"])])
    elif what == "stream":
        up(s[r.choice(["p", "t", "rate"])])
    elif what == "comp":
        up(r.choice(s["comp"]))
    elif what == "ev" and p["ev"]:
        p["ev"].pop()
    elif what == "when" and p["ev"]:
        p["ev"][0]["when"] = "2019-01-01"
    elif what == "drop":
        m["dist"]["streams"].pop()
    else:
        s["eos"] += "x"
    return c


def check(chk, n, canaries=40):
    preload()
    import libecalc.ecalc_model.ecalc_event  # noqa: F401
    good = []
    for e in pool_map(_job, [chk.rng.getrandbits(48) for _ in range(n)]):
        if "crash" in e:
            chk.violations.append({"spec": "SimulationTrace", "clauses": ["neither accepted nor refused"], "event": e})
        else:
            good.append(e)
    chk.notes["refused"] = sum(e["refused"] for e in good)
    if good:
        chk.validate("SimulationTrace", good, chk.spoiled(good, spoil, canaries))
