"""Whole eCalc models: generation, rendering to YAML and CSV files, running the real code, recording what it reported.

A model is described by the dictionary M that spec/Model.tla reads.  Numbers are strings as in Rat.tla,
instants whole minutes since 1900-01-01, expressions token sequences."""
import json
from datetime import datetime, timedelta
from fractions import Fraction
from pathlib import Path

from .num import EPOCH, minutes, q, qs

ALWAYS = -2_000_000_000
DAY = 1440


def when(m):
    return EPOCH + timedelta(minutes=m)


def dec(s):
    """The exact decimal text of a number written to a file (numbers in generated models are short decimals)."""
    f = Fraction(s)
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    assert d == 1, s
    if f.denominator == 1:
        return str(f.numerator)
    txt = format(float(f), "f").rstrip("0")
    k = 0
    while Fraction(txt) != f:
        k += 1
        txt = f"{float(f):.{6 + k}f}".rstrip("0")
        assert k < 40, s
    return txt


def num(x):
    return {"k": "n", "v": q(x)}


def ref(x):
    return {"k": "r", "v": x}


def op(x):
    return {"k": "o", "v": x}


LP, RP = {"k": "(", "v": "("}, {"k": ")", "v": ")"}


def text(tokens):
    return " ".join(dec(t["v"]) if t["k"] == "n" else t["v"] for t in tokens)


class Gen:
    """Random models.  Values are multiples of 1/4 (halves of small integers in tables), so the operators other than
    division are exact in binary floating point and comparisons have no rounding ambiguity."""

    def __init__(self, rng, **opt):
        self.r = rng
        self.o = {
            "n_inst": (1, 2), "n_ts": (1, 2), "n_rows": (1, 5), "n_vars": (0, 3), "n_gensets": (0, 2), "n_cons": (1, 3),
            "n_fuelcons": (0, 2), "n_vents": (0, 2), "p_temporal": 0.35, "p_late": 0.3, "p_cond": 0.25, "p_plf": 0.2,
            "p_tab": 0.35, "p_reg": 0.7, "p_reg_zero": 0.06, "p_time_of_day": 0.08, "depth": 2, "n_fuels": (1, 3),
            "p_start": 0.6, "p_end": 0.6, "p_neg": 0.08, "span": 1200, "p_cat_temporal": 0.15, "p_calendar": 0.3,
            "p_multi_tab": 0.3, "p_out": 0.2, "p_shuffle_rows": 0.25, "p_infl": 0.6, "p_default_ts": 0.4, "p_many_em": 0.4,
            "wide": False, "tod_start": 0.1, "tod_end": 0.1, "p_edge": 0.15, "p_formats": 0.4, "p_shuffle_tab": 0.3,
        }
        self.o.update(opt)
        self.base = minutes(datetime(rng.choice([2018, 2019, 2020, 2023]), rng.randint(1, 12), rng.choice([1, 1, 1, 15])))

    # -- small helpers
    def p(self, k):
        return self.r.random() < self.o[k]

    def between(self, k):
        a, b = self.o[k]
        return self.r.randint(a, b)

    def quarter(self, lo=0, hi=20):
        return Fraction(self.r.randint(lo * 4, hi * 4), 4)

    def date(self):
        d = self.base + self.r.randint(0, self.o["span"]) * DAY
        if self.r.random() < 0.5:  # snap to the first of the month
            w = when(d)
            d = minutes(datetime(w.year, w.month, 1))
            d = max(d, self.base)
        if self.p("p_time_of_day"):
            d += self.r.choice([1, 360, 720, 1439, 13 * 60 + 30])
        return d

    def dates(self, n):
        s = set()
        while len(s) < n:
            s.add(self.date())
        return sorted(s)

    def expr(self, depth=None, lo=0, hi=20, refs=None, cmp=False, neg=False):
        """A random expression over the given references; non-negative unless neg."""
        depth = self.o["depth"] if depth is None else depth
        refs = self.refs if refs is None else refs
        if depth == 0 or self.r.random() < 0.35:
            if refs and self.r.random() < 0.6:
                return [ref(self.r.choice(refs))]
            return [num(self.quarter(lo, hi))]
        a = self.expr(depth - 1, lo, hi, refs, neg=neg)
        b = self.expr(depth - 1, lo, hi, refs, neg=neg)
        o = self.r.choice(["<", ">", "<=", ">=", "==", "!="]) if cmp else self.r.choice(
            ["{+}", "{+}", "{*}", "{*}", "{-}", "{-}"] if neg else ["{+}", "{+}", "{*}"])
        if o == "{*}":
            b = [num(self.r.choice([Fraction(1, 2), 1, 2, Fraction(3, 2), 0, Fraction(1, 4)]))]
        e = a + [op(o)] + b
        if self.r.random() < 0.3:
            e = [LP] + e + [RP]
        return e

    def temporal(self, make, late=None, p=None, n=None, start=None):
        """A temporal value: one entry for all time, or dated entries, the first possibly after the start."""
        if self.r.random() >= (self.o["p_temporal"] if p is None else p):
            return [{"t": ALWAYS, "v": make()}]
        late = self.p("p_late") if late is None else late
        ds = self.dates(n or self.r.randint(1, 3))
        if not late:
            ds[0] = start if start is not None else self.base - self.r.choice([0, 0, 200]) * DAY
            ds = sorted(set(ds))
        return [{"t": d, "v": make()} for d in ds]

    # -- parts
    def series(self, k):
        default = self.p("p_default_ts")
        n = self.between("n_rows")
        tod = self.o["p_time_of_day"]
        t = self.dates(n)
        cols = [{"name": c, "v": qs([self.quarter() for _ in range(n)])}
                for c in self.r.sample(["OIL", "GAS", "WAT", "PRESS"], self.r.randint(1, 3))]
        if self.p("p_shuffle_rows"):
            order = self.r.sample(range(n), n)
            t = [t[i] for i in order]
            for c in cols:
                c["v"] = [c["v"][i] for i in order]
        return {"name": ["SIM", "MISC", "AUX"][k], "infl": True if default else self.p("p_infl"), "default": default,
                "interp": "RIGHT" if default else self.r.choice(["RIGHT", "LEFT", "LINEAR"]),
                "extrap": False if default else self.r.random() < 0.5, "t": t, "cols": cols,
                "fmt": self.r.choice(["eu", "eu/", "eu-", "iso", "iso/", "isoT"]) if self.p("p_formats") else "eu",
                "hdr": self.r.choice(["DATE", "DATES", "TIME"]) if self.p("p_formats") else "DATE",
                "pos": self.r.randint(0, len(cols)) if self.p("p_formats") else 0}

    def table(self, kind, dims=1):
        """A facility table.  kind: genset | power | fuel."""
        if dims == 1:
            n = self.r.randint(2, 5)
            xs = sorted(self.r.sample(range(0, 41), n))
            if kind == "genset":
                if self.r.random() < 0.5:
                    xs[0] = 0
                ys = sorted(self.r.randint(0, 400) for _ in range(n))
            else:
                ys = [self.r.randint(0, 60) for _ in range(n)]
                if self.o["p_neg"] and self.r.random() < 0.1:
                    ys[self.r.randrange(n)] = -5
            if self.r.random() < self.o["p_shuffle_tab"]:
                order = self.r.sample(range(n), n)
                xs, ys = [xs[i] for i in order], [ys[i] for i in order]
            cols = [{"name": "POWER" if kind == "genset" else "RATE", "v": qs(xs)}]
            return {"kind": kind, "cols": cols, "y": qs(ys), "base": "0"}
        names = ["RATE", "PD", "PS"][:dims]
        cols = [{"name": nm, "lo": q(self.r.randint(0, 3)), "hi": q(self.r.randint(12, 40)), "coef": q(self.quarter(0, 3))} for nm in names]
        return {"kind": kind, "cols": cols, "y": [], "base": q(self.r.randint(0, 5))}

    def conds(self):
        if not self.p("p_cond"):
            return []
        n = self.r.choice([1, 1, 2])
        return [self.expr(1, 0, 12, cmp=True) if self.r.random() < 0.7 else [num(self.r.choice([0, 1, 2, Fraction(1, 2)]))]
                for _ in range(n)]

    def usage(self, kind, el):
        plf = [num(self.r.choice([Fraction(1, 4), Fraction(1, 2), Fraction(1, 8), 0, Fraction(3, 4)]))] if self.p("p_plf") else []
        if plf and self.series_refs and self.r.random() < 0.2:
            plf = [LP, ref(self.r.choice(self.series_refs)), op(">"), num(5), RP, op("{*}"), num(Fraction(1, 4))]
        if kind == "direct":
            e = self.expr()
            if el and self.p("p_neg"):
                e = self.expr(neg=True)
            return {"k": "direct", "e": e, "cond": self.conds(), "plf": plf,
                    "rt": "CALENDAR_DAY" if self.p("p_calendar") else self.r.choice(["STREAM_DAY", "DEFAULT"])}
        tab = self.new_table("power" if el else "fuel", 1 if not self.p("p_multi_tab") else self.r.randint(2, 3))
        T = self.tabs[tab]
        vs = []
        for c in T["cols"]:
            if self.p("p_out"):
                e = self.expr(1)
            elif "lo" in c:
                lo, hi = int(Fraction(c["lo"])), int(Fraction(c["hi"]))
                e = [num(Fraction(self.r.randint(lo * 4, hi * 4), 4))]
            else:
                xs = [Fraction(x) for x in c["v"]]
                e = [num(self.r.choice(xs) if self.r.random() < 0.4 else Fraction(self.r.randint(int(min(xs)) * 4, int(max(xs)) * 4), 4))]
            vs.append({"name": c["name"], "e": e, "rate": c["name"] == "RATE"})
        self.r.shuffle(vs)
        return {"k": "tab", "tab": tab, "vars": vs, "cond": self.conds(), "plf": plf, "rt": "DEFAULT", "e": [num(0)]}

    def new_table(self, kind, dims=1):
        name = f"tab{len(self.tabs)}"
        self.tabs[name] = self.table(kind, dims)
        return name

    def category(self, choices):
        return self.temporal(lambda: self.r.choice(choices), late=False, p=self.o["p_cat_temporal"])

    def shore_sometimes(self):
        c = self.temporal(lambda: self.r.choice(["POWER-FROM-SHORE", "TURBINE-GENERATOR"]), late=False, p=1)
        self.r.choice(c)["v"] = "POWER-FROM-SHORE"
        return c

    def consumer(self, name, el):
        kind = "tab" if self.p("p_tab") else "direct"
        return {"name": name, "models": self.temporal(lambda: self.usage(kind, el)), "fuel": [],
                "cat": self.category((["BASE-LOAD", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR", "BOILER"] if el else
                                      ["FLARE", "BOILER", "HEATER", "GAS-DRIVEN-COMPRESSOR", "TURBINE-GENERATOR", "MISCELLANEOUS"])
                                     if self.o["wide"] else ["BASE-LOAD", "PUMP", "FLARE", "MISCELLANEOUS", "COMPRESSOR"])}

    def fuel_def(self, not_after):
        """A fuel assignment that covers everything from not_after on."""
        def pick():
            return self.r.choice(list(self.fuels))
        f = self.temporal(pick, late=False, start=not_after if not_after != ALWAYS else self.base - 400 * DAY)
        if not_after == ALWAYS and f[0]["t"] != ALWAYS:
            f = [{"t": ALWAYS, "v": pick()}]
        return f

    def emission(self, name):
        return {"name": name, "e": self.expr(1), "cond": self.conds() if self.r.random() < 0.5 else [],
                "unit": self.r.choice(["KG_PER_DAY", "TONS_PER_DAY", "DEFAULT"]),
                "rt": self.r.choice(["STREAM_DAY", "CALENDAR_DAY", "DEFAULT"])}

    def vent(self, name):
        names = self.r.sample(["co2", "CH4", "nmVOC"], self.r.randint(1, 2))
        cat = self.r.choice(["COLD-VENTING-FUGITIVE", "LOADING", "STORAGE"]) if self.o["wide"] else "COLD-VENTING-FUGITIVE"
        if self.r.random() < 0.5:
            return {"name": name, "cat": cat, "k": "direct", "ems": [self.emission(n) for n in names], "rate": {}}
        return {"name": name, "cat": cat, "k": "oil", "rate": self.emission("rate"),
                "ems": [{"name": n, "factor": self.expr(1, 0, 3)} for n in names]}

    def installation(self, k):
        iname = f"INST{k}"
        nf = self.between("n_fuelcons")
        ng = self.between("n_gensets")
        nv = self.between("n_vents")
        if nf + ng + nv == 0:
            nf = 1
        cons = [self.consumer(f"{iname}_fc{j}", False) for j in range(nf)]
        gens = []
        for j in range(ng):
            cs = [self.consumer(f"{iname}_g{j}_c{i}", True) for i in range(self.between("n_cons"))]
            cs[0]["models"] = cs[0]["models"][:1]  # a set needs at least one consumer
            cs[0]["models"][0]["t"] = ALWAYS
            e2f = self.temporal(lambda: self.new_table("genset"))
            if e2f[0]["t"] >= self.end:  # a set must have a model in the evaluated period
                e2f[0]["t"] = self.first
            shore = self.r.random() < (0.45 if self.o["wide"] else 0.25)
            if shore:
                cat = self.shore_sometimes() if self.o["wide"] and self.r.random() < 0.4 else [{"t": ALWAYS, "v": "POWER-FROM-SHORE"}]
            elif self.o["wide"] and self.r.random() < 0.3:
                cat = self.shore_sometimes()
            else:
                cat = self.category(["TURBINE-GENERATOR", "OFFSHORE-WIND"])
            gens.append({"name": f"{iname}_g{j}", "fuel": [], "e2f": e2f, "cat": cat, "cons": cs,
                         "loss": ([ref(self.r.choice(self.series_refs)), op("{*}"), num(Fraction(1, 64))] if self.o["wide"] and self.series_refs and self.r.random() < 0.4
                                  else [num(self.r.choice([Fraction(1, 4), Fraction(1, 8), 0]))]) if shore and self.r.random() < 0.7 else [],
                         "maxshore": (self.expr(1) if self.o["wide"] else [num(self.quarter())]) if shore and self.r.random() < 0.7 else []})
        # fuels: the installation's, overridden per consumer
        firsts = [c["models"][0]["t"] for c in cons] + [g["e2f"][0]["t"] for g in gens]
        fuel = self.fuel_def(min(firsts)) if firsts else []
        for x, first in zip(cons + gens, firsts):
            if self.r.random() < 0.4:
                x["fuel"] = self.fuel_def(first)
        reg = [{"t": ALWAYS, "v": [num(1)]}]
        explicit = self.p("p_reg")
        if explicit:
            def mk():
                if self.p("p_reg_zero"):
                    return [num(0)]
                return [num(self.r.choice([Fraction(1, 2), Fraction(3, 4), Fraction(7, 8), 1, Fraction(1, 4), Fraction(9, 10)]))]
            reg = self.temporal(mk)
        hc = self.temporal(lambda: self.expr(neg=True))
        ehc = self.r.random() < 0.8
        icat = self.r.choice(["FIXED", "FIXED", "MOBILE"]) if self.o["wide"] else "FIXED"
        return {"name": iname, "cat": icat, "reg": reg, "explicit_reg": explicit, "hc": hc if ehc else [{"t": ALWAYS, "v": [num(0)]}],
                "explicit_hc": ehc, "fuel": fuel, "gensets": gens, "fuelcons": cons,
                "vents": [self.vent(f"{iname}_v{j}") for j in range(nv)]}

    def model(self):
        self.tabs, self.fuels, self.fuelcat = {}, {}, {}
        ts = [self.series(k) for k in range(self.between("n_ts"))]
        if ts and not any(s["infl"] for s in ts):
            ts[0]["infl"] = True
        self.series_refs = [f"{s['name']};{c['name']}" for s in ts for c in s["cols"]]
        self.refs = list(self.series_refs)
        for k in range(self.between("n_fuels")):
            names = self.r.sample(["co2", "CH4", "NOx", "nmvoc"] if self.o["wide"] else ["co2", "CH4", "NOx"], 2 if self.p("p_many_em") else 1)
            self.fuelcat[f"fuel{k}"] = self.r.choice(["FUEL-GAS", "FUEL-GAS", "DIESEL", ""]) if self.o["wide"] else "FUEL-GAS"
            self.fuels[f"fuel{k}"] = [{"name": n, "factor": self.expr(1, 0, 4) if self.r.random() < 0.3 else [num(self.quarter(0, 4))]}
                                      for n in names]
        vs = []
        for k in range(self.between("n_vars")):
            refs = list(self.refs)
            vs.append({"name": f"v{k}", "def": self.temporal(lambda: self.expr(refs=refs))})
            self.refs.append(f"$var.v{k}")
        self.r.shuffle(vs)
        every = sorted({t for s in ts if s["infl"] for t in s["t"]})
        start = ALWAYS
        if self.p("p_start") or not every:
            start = self.base + self.r.randint(-100, 300) * DAY
            if self.p("tod_start"):
                start += self.r.choice([60, 720])
        first = start if start != ALWAYS else every[0]
        end = max([first] + every) + self.r.randint(1, 300) * DAY
        if self.p("p_end"):
            end = first + self.r.randint(1, 900) * DAY
            end -= end % DAY
        if self.p("tod_end"):
            end += self.r.choice([0, 60, 720, 1439])
        later = [t for t in every if t > first]
        if later and self.p("p_edge"):
            end = self.r.choice(later)
        if every and start != ALWAYS and self.p("p_edge"):
            start = self.r.choice([t for t in every if t < end] or [start])
        if end <= first:
            end = first + DAY
        self.end, self.first = end, first
        M = {"start": start, "end": end, "ts": ts, "vars": vs, "tabs": self.tabs, "fuels": self.fuels, "fuelcat": self.fuelcat}
        M["inst"] = [self.installation(k) for k in range(self.between("n_inst"))]
        return M


# ------------------------------------------------------------------------------------------ writing

def stamp(m):
    w = when(m)
    return w.strftime("%Y-%m-%d") if (w.hour, w.minute) == (0, 0) else w.strftime("%Y-%m-%d %H:%M:%S")


class Raw(str):
    pass


def y(x, ind=0):
    """YAML text of nested dicts (keys in the given order), lists, Raw scalars and strings."""
    pad = "  " * ind
    if isinstance(x, dict):
        return "".join(f"{pad}{k}:" + (f" {v}\n" if isinstance(v, Raw) else f" {json.dumps(v)}\n" if not isinstance(v, (dict, list))
                                       else "\n" + y(v, ind + 1)) for k, v in x.items())
    out = ""
    for v in x:
        if isinstance(v, str):
            out += f"{pad}- {v}\n" if isinstance(v, Raw) else f"{pad}- {json.dumps(v)}\n"
            continue
        body = y(v, ind + 1)
        out += f"{pad}-" + body[len(pad) + 1:]
    return out


def scalar(tokens):
    t = text(tokens)
    return Raw(t)


def temporal(tm, f):
    if tm[0]["t"] == ALWAYS:
        return f(tm[0]["v"])
    return {stamp(e["t"]): f(e["v"]) for e in tm}


def usage_yaml(m, el):
    if m["k"] == "direct":
        d = {"TYPE": "DIRECT", "LOAD" if el else "FUELRATE": scalar(m["e"])}
        if m["rt"] != "DEFAULT":
            d["CONSUMPTION_RATE_TYPE"] = m["rt"]
    else:
        d = {"TYPE": "TABULATED", "ENERGYFUNCTION": m["tab"],
             "VARIABLES": [{"NAME": w["name"], "EXPRESSION": scalar(w["e"])} for w in m["vars"]]}
    if m["plf"]:
        d["POWERLOSSFACTOR"] = scalar(m["plf"])
    cond(d, m["cond"])
    return d


def cond(d, cs):
    if len(cs) == 1:
        d["CONDITION"] = scalar(cs[0])
    elif cs:
        d["CONDITIONS"] = [Str(text(c)) for c in cs]


class Str(Raw):
    pass


def rate_yaml(r, unit=True):
    d = {"VALUE": scalar(r["e"])}
    if r["unit"] != "DEFAULT" and unit:
        d["UNIT"] = r["unit"]
    if r["rt"] != "DEFAULT":
        d["TYPE"] = r["rt"]
    cond(d, r["cond"])
    return d


def document(M):
    doc = {}
    if M["ts"]:
        doc["TIME_SERIES"] = []
    for s in M["ts"]:
        e = {"NAME": s["name"], "TYPE": "DEFAULT" if s["default"] else "MISCELLANEOUS", "FILE": f"{s['name']}.csv"}
        if not s["default"]:
            e.update({"INFLUENCE_TIME_VECTOR": Raw(str(s["infl"]).lower()), "EXTRAPOLATION": Raw(str(s["extrap"]).lower()),
                      "INTERPOLATION_TYPE": s["interp"]})
        doc["TIME_SERIES"].append(e)
    fac = [{"NAME": n, "FILE": f"{n}.csv", "TYPE": "ELECTRICITY2FUEL" if t["kind"] == "genset" else "TABULAR"} for n, t in M["tabs"].items()]
    if fac:
        doc["FACILITY_INPUTS"] = fac
    doc["FUEL_TYPES"] = [{"NAME": n, **({"CATEGORY": M["fuelcat"][n]} if M["fuelcat"][n] else {}),
                          "EMISSIONS": [{"NAME": e["name"], "FACTOR": scalar(e["factor"])} for e in es]} for n, es in M["fuels"].items()]
    if M["vars"]:
        doc["VARIABLES"] = {v["name"]: temporal(v["def"], lambda x: {"VALUE": scalar(x)}) for v in M["vars"]}
    if M["start"] != ALWAYS:
        doc["START"] = Raw(stamp(M["start"]))
    doc["END"] = Raw(stamp(M["end"]))
    doc["INSTALLATIONS"] = []
    for i in M["inst"]:
        d = {"NAME": i["name"], "CATEGORY": i["cat"]}
        if i["explicit_hc"]:
            d["HCEXPORT"] = temporal(i["hc"], scalar)
        if i["explicit_reg"]:
            d["REGULARITY"] = temporal(i["reg"], scalar)
        if i["fuel"]:
            d["FUEL"] = temporal(i["fuel"], str)

        def cons(c, el):
            e = {"NAME": c["name"], "CATEGORY": temporal(c["cat"], str)}
            if c["fuel"]:
                e["FUEL"] = temporal(c["fuel"], str)
            e["ENERGY_USAGE_MODEL"] = temporal(c["models"], lambda m: c["yaml"](m) if "yaml" in c else usage_yaml(m, el))
            return e
        if i["gensets"]:
            d["GENERATORSETS"] = []
            for g in i["gensets"]:
                e = {"NAME": g["name"], "CATEGORY": temporal(g["cat"], str)}
                if g["fuel"]:
                    e["FUEL"] = temporal(g["fuel"], str)
                e["ELECTRICITY2FUEL"] = temporal(g["e2f"], str)
                if g["loss"]:
                    e["CABLE_LOSS"] = scalar(g["loss"])
                if g["maxshore"]:
                    e["MAX_USAGE_FROM_SHORE"] = scalar(g["maxshore"])
                e["CONSUMERS"] = [cons(c, True) for c in g["cons"]]
                d["GENERATORSETS"].append(e)
        if i["fuelcons"]:
            d["FUELCONSUMERS"] = [cons(c, False) for c in i["fuelcons"]]
        if i["vents"]:
            d["VENTING_EMITTERS"] = []
            for v in i["vents"]:
                e = {"NAME": v["name"], "CATEGORY": v["cat"]}
                if v["k"] == "direct":
                    e["TYPE"] = "DIRECT_EMISSION"
                    e["EMISSIONS"] = [{"NAME": x["name"], "RATE": rate_yaml(x)} for x in v["ems"]]
                else:
                    e["TYPE"] = "OIL_VOLUME"
                    e["VOLUME"] = {"RATE": rate_yaml(v["rate"], unit=False),
                                   "EMISSIONS": [{"NAME": x["name"], "EMISSION_FACTOR": scalar(x["factor"])} for x in v["ems"]]}
                d["VENTING_EMITTERS"].append(e)
        doc["INSTALLATIONS"].append(d)
    return doc


def files(M):
    """All files of the model: name -> text."""
    out = {"model.yml": y(M.get("doc") or document(M))}
    for s in M["ts"]:
        fmt = {"eu": "%d.%m.%Y", "eu/": "%d/%m/%Y", "eu-": "%d-%m-%Y", "iso": "%Y-%m-%d", "iso/": "%Y/%m/%d", "isoT": "%Y-%m-%d"}[s["fmt"]]
        if s["fmt"] == "isoT":
            fmt += "T%H:%M:%S"
        elif any(t % DAY for t in s["t"]):
            fmt += " %H:%M:%S"
        pos = 0 if s["hdr"] == "TIME" else s["pos"]

        def row(first, rest):
            return ",".join(rest[:pos] + [first] + rest[pos:])
        rows = [row(s["hdr"], [c["name"] for c in s["cols"]])]
        for k, t in enumerate(s["t"]):
            rows.append(row(when(t).strftime(fmt), [dec(c["v"][k]) for c in s["cols"]]))
        out[f"{s['name']}.csv"] = "\n".join(rows) + "\n"
    for n, t in M["tabs"].items():
        ynm = "FUEL" if t["kind"] in ("genset", "fuel") else "POWER"
        rows = [",".join(c["name"] for c in t["cols"]) + "," + ynm]
        if t["y"]:
            rows += [f"{dec(a)},{dec(b)}" for a, b in zip(t["cols"][0]["v"], t["y"])]
        else:
            import itertools
            for pt in itertools.product(*[(c["lo"], c["hi"]) for c in t["cols"]]):
                yv = Fraction(t["base"]) + sum(Fraction(c["coef"]) * Fraction(x) for c, x in zip(t["cols"], pt))
                rows.append(",".join(dec(x) for x in pt) + "," + dec(yv))
        out[f"{n}.csv"] = "\n".join(rows) + "\n"
    return out


def write(M, folder):
    folder = Path(folder)
    folder.mkdir(parents=True, exist_ok=True)
    for name, body in files(M).items():
        (folder / name).write_text(body)
    return folder


# ------------------------------------------------------------------------------------------ running

def load(folder, name="model.yml"):
    """The validated model of the files in folder (raises what the code raises)."""
    from ecalc_cli.infrastructure.file_resource_service import FileResourceService
    from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
    from libecalc.presentation.yaml.model import YamlModel
    p = Path(folder) / name
    c = FileConfigurationService(configuration_path=p).get_configuration()
    return YamlModel(configuration=c, resource_service=FileResourceService(working_directory=p.parent, configuration=c)).validate_for_run()


def run(folder, name="model.yml"):
    from libecalc.presentation.json_result.mapper import get_asset_result
    m = load(folder, name)
    m.evaluate_energy_usage()
    return m, get_asset_result(m)


# ------------------------------------------------------------------------------------------ recording

def tv_of(periods):
    ps = list(periods)
    for a, b in zip(ps, ps[1:]):
        if a.end != b.start:
            return [minutes(p.start) for p in ps] + ["gap"]
    return [minutes(p.start) for p in ps] + [minutes(ps[-1].end)]


def rate(x):
    if x is None:
        return {"v": [], "rt": "", "unit": "", "reg": []}
    return {"v": qs(x.values), "rt": str(x.rate_type.value), "unit": str(x.unit.name), "reg": qs(x.regularity)}


def series(x):
    if x is None:
        return {"v": [], "unit": ""}
    return {"v": qs(x.values), "unit": str(x.unit.name)}


def comp(c):
    d = {
        "name": c.name, "kind": str(c.componentType.value), "level": str(c.component_level.value), "parent": c.parent or "",
        "tv": tv_of(c.periods), "energy": rate(c.energy_usage), "cum": series(c.energy_usage_cumulative),
        "power": rate(c.power), "pcum": series(c.power_cumulative), "valid": [bool(v) for v in c.is_valid.values],
        "em": [{"name": k, "rate": rate(e.rate), "cum": series(e.cumulative)} for k, e in sorted(c.emissions.items())],
    }
    if hasattr(c, "power_capacity_margin"):
        d["margin"] = rate(c.power_capacity_margin)
    if hasattr(c, "hydrocarbon_export_rate"):
        d["hc"] = rate(c.hydrocarbon_export_rate)
        d["pel"], d["pmech"] = rate(c.power_electrical), rate(c.power_mechanical)
        d["pelcum"], d["pmechcum"] = series(c.power_electrical_cumulative), series(c.power_mechanical_cumulative)
    if hasattr(c, "regularity"):
        d["reg"] = qs(c.regularity.values)
    return d


class Missing(Exception):
    pass


def record(M, model, result):
    """The reported results aligned with M; consumers that were not reported are taken out of M and listed as absent."""
    by, absent = {}, []

    def present(cs):
        kept = [c for c in cs if c["name"] in by]
        absent.extend(c for c in cs if c["name"] not in by)
        cs[:] = kept
        return kept
    for c in result.sub_components:
        if c.name in by:
            raise Missing(f"component {c.name} reported twice")
        by[c.name] = c

    def get(n):
        if n not in by:
            raise Missing(f"component {n} not reported")
        return comp(by.pop(n))
    o = {"tv": tv_of(model.variables.get_periods()), "asset": comp(result.component_result), "inst": []}
    o["vars"] = {k: qs(v) for k, v in model.variables.variables.items()}
    for i in M["inst"]:
        d = {"c": get(i["name"]), "fuelcons": [get(c["name"]) for c in present(i["fuelcons"])], "gensets": [], "vents": [get(v["name"]) for v in i["vents"]]}
        for g in i["gensets"]:
            d["gensets"].append({"c": get(g["name"]), "cons": [get(c["name"]) for c in present(g["cons"])]})
        o["inst"].append(d)
    if by:
        raise Missing(f"unexpected components {sorted(by)}")
    o["absent"] = absent
    tvs = {json.dumps(x["tv"]) for x in all_comps(o)}
    o["tvs"] = [json.loads(t) for t in sorted(tvs)]
    # model entries: one per consumer model and period
    o["models"] = []
    for m in result.models:
        o["models"].append({"name": m.name, "tv": tv_of(m.periods), "energy": rate(m.energy_usage), "power": rate(m.power),
                            "cum": series(m.energy_usage_cumulative), "pcum": series(m.power_cumulative),
                            "valid": [bool(v) for v in m.is_valid.values]})
    return o


def all_comps(o):
    yield o["asset"]
    for i in o["inst"]:
        yield i["c"]
        yield from i["fuelcons"]
        yield from i["vents"]
        for g in i["gensets"]:
            yield g["c"]
            yield from g["cons"]


SPEC_KEYS_DROP = ("doc",)


def spec_M(M):
    """M as the specification reads it (rates' and units' defaults made explicit)."""
    m = json.loads(json.dumps({k: v for k, v in M.items() if k not in SPEC_KEYS_DROP}, default=lambda f: "code"))
    m["other"] = []
    for i in m["inst"]:
        for c in i["fuelcons"] + [c for g in i["gensets"] for c in g["cons"]]:
            for e in c["models"]:
                u = e["v"]
                if u.get("rt") == "DEFAULT":
                    u["rt"] = "STREAM_DAY"
        for v in i["vents"]:
            for x in (v["ems"] if v["k"] == "direct" else [v["rate"]]):
                if x["unit"] == "DEFAULT":
                    x["unit"] = "KG_PER_DAY"
                if x["rt"] == "DEFAULT":
                    x["rt"] = "STREAM_DAY"
    return m


def event(M, folder, want):
    write(M, folder)
    model, result = run(folder)
    m = spec_M(M)
    return {"M": m, "o": record(m, model, result), "want": list(want)}, model, result
