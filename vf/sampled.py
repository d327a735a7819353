"""Compressors with sampled tables, alone and driving turbines: generated tables and operating points, through whole models."""
import copy
import itertools
import json
from fractions import Fraction as F

from .model import dec, run
from .modelcheck import pool_map
from .num import q, qs

VARS = ("r", "s", "d")
HEAD = {"r": "RATE", "s": "SUCTION_PRESSURE", "d": "DISCHARGE_PRESSURE"}


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))


def full(P):
    """do the points span the space?"""
    n = len(P[0])
    return any(det([[b - a for a, b in zip(T[0], t)] for t in T[1:]]) != 0 for T in itertools.combinations(P, n + 1))


def sound(P, dims):
    """is there a part of the operating area where the highest rate falls with the pressure increase asked for?  (If it rises all
    over, as in no real machine, the program refuses the table.)"""
    if "r" not in dims or len(dims) == 1:
        return True
    n = len(dims)
    k = dims.index("r")
    for T in itertools.combinations(P, n):
        N = [(-1) ** j * det([[x - o for m, (x, o) in enumerate(zip(t, T[0])) if m != j] for t in T[1:]]) for j in range(n)]
        if N[k] < 0:
            N = [-x for x in N]
        if N[k] > 0 and all(sum(a * (x - o) for a, x, o in zip(N, p, T[0])) <= 0 for p in P):
            if all((N[j] <= 0 if v == "s" else N[j] >= 0) for j, v in enumerate(dims) if v != "r"):
                return True
    return False


class G:
    def __init__(self, r):
        self.r = r

    def quarter(self, lo, hi):
        return F(self.r.randint(int(lo * 4), int(hi * 4)), 4)

    def points(self, dims, scale):
        """points of the operating area: rate multiples of scale, suction 10..40, discharge 50..100"""
        r = self.r
        lo = {"r": F(10), "s": F(10), "d": F(50)}
        hi = {"r": F(90), "s": F(40), "d": F(100)}
        ax = {v: sorted({self.quarter(lo[v], hi[v]) for _ in range(r.choice([2, 2, 3]))} | {self.quarter(lo[v], hi[v])}) for v in dims}
        for v in dims:
            while len(ax[v]) < 2:
                ax[v] = sorted(set(ax[v]) | {self.quarter(lo[v], hi[v])})
        n = len(dims)
        if n == 1:
            P = [(x,) for x in sorted({self.quarter(lo[dims[0]], hi[dims[0]]) for _ in range(r.randint(2, 6))} | set(ax[dims[0]]))]
        else:
            kind = r.choice(["box", "cut", "cut", "frontier", "frontier", "shear", "random" if n == 2 else "shear"])
            corners = list(itertools.product(*[(ax[v][0], ax[v][-1]) for v in dims]))
            worst = tuple(ax[v][0] if v == "s" else ax[v][-1] for v in dims)   # the hardest corner: never required
            if kind == "box":
                P = corners
            elif kind == "cut":
                P = [c for c in corners if c != worst]
                if n == 3 and r.random() < 0.6:
                    bad = [c for c in P if sum(a == b for a, b in zip(c, worst)) == 2]
                    for b in r.sample(bad, r.randint(0, len(bad))):
                        P.remove(b)
            elif kind == "shear":
                k = {"r": F(1, 2), "d": -F(1, 4), "s": F(1, 4)}
                P = []
                for c in corners:
                    p = dict(zip(dims, c))
                    if "r" in p and n > 1:
                        p["r"] = p["r"] + sum(k[v] * (p[v] - ax[v][0]) for v in dims if v != "r")
                    P.append(tuple(p[v] for v in dims))
            elif kind == "frontier":   # all that is easier than a few hard points
                H = [tuple(self.quarter(lo[v], hi[v]) for v in dims) for _ in range(2)]
                easy = tuple((max if v == "s" else min)(ax[v] + [h[k] for h in H]) for k, v in enumerate(dims))
                P = sorted({p for h in H for p in itertools.product(*[{a, b} for a, b in zip(h, easy)])})
            else:
                P = list({tuple(self.quarter(lo[v], hi[v]) for v in dims) for _ in range(r.randint(n + 2, 7))})
            for _ in range(r.choice([0, 0, 1, 2])):
                w = [r.randint(1, 4) for _ in P]
                if sum(w) in (1, 2, 4, 8, 16, 32):
                    P.append(tuple(sum(F(a) * p[k] for a, p in zip(w, P)) / sum(w) for k in range(n)))
            P = list(dict.fromkeys(P))
        if any(x <= 0 for p in P for x in p) or n > 1 and not (full(P) and sound(P, dims)):
            return self.points(dims, scale)
        return [tuple(x * scale if v == "r" else x for v, x in zip(dims, p)) for p in P]

    def table(self, drive):
        r = self.r
        dims = r.choice([["r"], ["s"], ["d"], ["r", "d"], ["r", "d"], ["r", "s"], ["s", "d"]] + [["r", "s", "d"]] * 4)
        scale = r.choice([1, 1000, 1000, 100000])
        P = self.points(dims, scale)
        r.shuffle(P)
        cols = {v: [p[dims.index(v)] for p in P] if v in dims else [] for v in VARS}
        for v in VARS:
            if v not in dims and r.random() < 0.35:   # a variable that is the same all over the table
                cols[v] = [{"r": self.quarter(10, 90) * scale, "s": self.quarter(10, 40), "d": self.quarter(50, 100)}[v]] * len(P)
        a = {"c": self.quarter(10, 60), "r": F(r.randint(0, 8), 16 * scale), "s": -F(r.randint(0, 8), 64), "d": F(r.randint(0, 8), 32)}
        for v in VARS:
            if v not in dims:
                a[v] = F(0)
        t = {v: cols[v] for v in VARS}
        if len(dims) == 1 or r.random() < 0.25:
            e = [self.quarter(1, 60) for _ in P]
            a = None
        else:
            e = [a["c"] + sum(a[v] * p[dims.index(v)] for v in dims) for p in P]
        t["p"] = []
        if drive == "fuel":
            e = [x * 100 for x in e]
            if a:
                a = {k: x * 100 for k, x in a.items()}
            if r.random() < 0.6:
                f = {x: k for k, x in enumerate(sorted(set(e)))}
                step = [F(0)]
                for _ in f:
                    step.append(step[-1] + self.quarter(1, 4))
                t["p"] = [step[f[x]] for x in e]
                if len(f) < len(e) or len(e) < 2:
                    t["p"] = []
        t["e"] = e
        return t, a, dims, scale

    def query(self, t, scale):
        """an operating point (rate, suction, discharge)"""
        r = self.r
        out = {}
        row = r.randrange(len(t["e"]))
        base = r.choice(["row", "mix", "free"])
        ws = [r.randint(0, 3) for _ in t["e"]]
        ws[row] += 1
        while sum(ws) not in (1, 2, 4, 8, 16, 32, 64):
            ws[row] += 1
        for v, lo, hi, k in (("r", 2, 110, scale), ("s", 2, 60, 1), ("d", 30, 130, 1)):
            if t[v] and base != "free":
                x = t[v][row] if base == "row" else sum(w * c for w, c in zip(ws, t[v])) / F(sum(ws))
                if r.random() < 0.3:
                    x = x + r.choice([-1, 1]) * self.quarter(1, 25) * k
            else:
                x = self.quarter(lo, hi) * k
            out[v] = x
        out["r"] = F(0) if r.random() < 0.07 else max(out["r"], F(1, 4))
        out["s"] = max(out["s"], F(1))
        out["d"] = max(out["d"], out["s"])
        return out

    def consumer(self, n, reg):
        r = self.r
        drive = r.choice(["el", "el", "fuel", "turbine"])
        t, a, dims, scale = self.table(drive)
        e = {"drive": drive, "t": t, "a": [a] if a else [], "reg": reg, "w": {}, "g": {}, "dims": dims}
        Q = [self.query(t, scale) for _ in range(n)]
        e["rate"] = [x["r"] * (reg if reg else 1) for x in Q]
        e["s"] = [x["s"] for x in Q] if t["s"] or r.random() < 0.3 else []
        e["d"] = [x["d"] for x in Q] if t["d"] or r.random() < 0.3 else []
        e["cond"] = [F(r.random() < 0.85) for _ in Q] if r.random() < 0.3 else [F(1)] * n
        e["plf"] = [r.choice([F(0), F(1, 2), F(1, 4)]) for _ in Q] if r.random() < 0.25 else [F(0)] * n
        if drive == "turbine":
            L = [F(0)] + sorted({self.quarter(1, 90) for _ in range(r.randint(1, 4))})
            g = {"loads": L, "effs": [F(0)] + [F(r.randint(4, 16), 32) for _ in L[1:]], "lhv": F(r.randint(30, 45)), "c": F(0), "f": F(1)}
            if r.random() < 0.3:
                g["c"], g["f"] = self.quarter(0, 10), r.choice([F(1), F(1, 2), F(2), F(5, 4)])
            if r.random() < 0.3:
                g["effs"][0] = F(1, 8)
            e["g"] = g
            e["w"] = {"c": self.quarter(0, 10), "f": r.choice([F(1), F(1, 2), F(2), F(5, 4)])} if r.random() < 0.4 else {"c": F(0), "f": F(1)}
        return e


def files(cs, n, reg, rng):
    """the model's files"""
    out = {}
    fac, mods, el, fuel, cols = [], [], [], [], {}
    for k, e in enumerate(cs):
        t = e["t"]
        names = [(HEAD[v], t[v]) for v in VARS if t[v]]
        names.append(("FUEL" if e["drive"] == "fuel" else "POWER", t["e"]))
        if t["p"]:
            names.append(("POWER", t["p"]))
        rng.shuffle(names)
        out[f"t{k}.csv"] = ",".join(h for h, _ in names) + "\n" + "".join(",".join(dec(q(c[i])) for _, c in names) + "\n" for i in range(len(t["e"])))
        fac.append(f"  - {{NAME: t{k}, TYPE: COMPRESSOR_TABULAR, FILE: t{k}.csv}}")
        ref = f"t{k}"
        if e["drive"] == "turbine":
            def adj(x):
                return (f", POWER_ADJUSTMENT_CONSTANT: {dec(q(x['c']))}" if x["c"] else "") + (f", POWER_ADJUSTMENT_FACTOR: {dec(q(x['f']))}" if x["f"] != 1 else "")
            g = e["g"]
            mods.append(f"  - {{NAME: g{k}, TYPE: TURBINE, LOWER_HEATING_VALUE: {dec(q(g['lhv']))}, TURBINE_LOADS: [{', '.join(dec(q(x)) for x in g['loads'])}], "
                        f"TURBINE_EFFICIENCIES: [{', '.join(dec(q(x)) for x in g['effs'])}]{adj(g)}}}")
            mods.append(f"  - {{NAME: w{k}, TYPE: COMPRESSOR_WITH_TURBINE, COMPRESSOR_MODEL: t{k}, TURBINE_MODEL: g{k}{adj(e['w'])}}}")
            ref = f"w{k}"
        u = [f"TYPE: COMPRESSOR", f"ENERGYFUNCTION: {ref}", f"RATE: SIM;R{k}"]
        cols[f"R{k}"] = e["rate"]
        for v, kw in (("s", "SUCTION_PRESSURE"), ("d", "DISCHARGE_PRESSURE")):
            if e[v]:
                u.append(f"{kw}: SIM;{v.upper()}{k}")
                cols[f"{v.upper()}{k}"] = e[v]
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        c = [f"- NAME: c{k}", "  CATEGORY: COMPRESSOR", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u]
        (el if e["drive"] == "el" else fuel).append(c)
    out["sim.csv"] = "DATE," + ",".join(cols) + "\n" + "".join(f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(dec(q(c[i])) for c in cols.values()) + "\n" for i in range(n))
    out["gen.csv"] = "POWER,FUEL\n0,0\n1000000,1000000\n"
    y = ["TIME_SERIES:", "  - {NAME: SIM, TYPE: DEFAULT, FILE: sim.csv}", "FACILITY_INPUTS:", "  - {NAME: gen, TYPE: ELECTRICITY2FUEL, FILE: gen.csv}", *fac,
         "FUEL_TYPES:", "  - {NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}", *(["MODELS:"] + mods if mods else []),
         "START: 2020-01-01", f"END: {2020 + n // 12}-{n % 12 + 1:02d}-01", "INSTALLATIONS:", "  - NAME: A", "    FUEL: gas", "    HCEXPORT: 0", f"    REGULARITY: {dec(q(reg))}"]
    if el:
        y += ["    GENERATORSETS:", "      - NAME: gs", "        CATEGORY: TURBINE-GENERATOR", "        ELECTRICITY2FUEL: gen", "        CONSUMERS:"]
        y += ["          " + x for c in el for x in c]
    if fuel:
        y += ["    FUELCONSUMERS:"] + ["      " + x for c in fuel for x in c]
    out["model.yml"] = "\n".join(y) + "\n"
    return out


def enc(x):
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, F):
        return q(x)
    return x


def put(folder, fs):
    folder.mkdir(parents=True, exist_ok=True)
    for n, text in fs.items():
        (folder / n).write_text(text)


def _one(job):
    import random
    import shutil
    import tempfile
    import traceback
    from pathlib import Path
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1, 2), F(1, 4), F(0)] if rng.random() < 0.3 else [F(1), F(1, 2)])
    cs = [g.consumer(n, reg) for _ in range(ncons)]
    fs = files(cs, n, reg, rng)
    folder = Path(tempfile.mkdtemp(dir=str(__import__("vf.tlc", fromlist=["SCRATCH"]).SCRATCH)))
    put(folder, fs)
    try:
        _, res = run(folder)
    except BaseException as e:  # noqa: BLE001
        return [{"crash": "".join(traceback.format_exception(e))[-3000:], "files": fs}]
    finally:
        shutil.rmtree(folder)
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    out = []
    for k, e in enumerate(cs):
        c = by[f"c{k}"]
        d = enc(e)
        d["energy"] = qs(c.energy_usage.values)
        d["power"] = qs(c.power.values) if c.power is not None else []
        d["valid"] = [bool(v) for v in c.is_valid.values]
        d["unit"] = c.energy_usage.unit.value
        d["load"] = []
        if e["drive"] == "turbine":
            d["load"] = qs(models[f"c{k}"].stage_results[0].power.values)
        d["files"] = json.dumps({f: fs[f] for f in (f"t{k}.csv", "sim.csv", "model.yml")})
        out.append(d)
    return out


def corrupt(e, rng):
    c = copy.deepcopy(e)
    I = [i for i, x in enumerate(c["energy"]) if x not in ("nan", "0") and F(x) > 1]
    if not I:
        return None
    i = rng.choice(I)
    k = rng.choice(["energy", "nan", "valid", "power"])
    if k == "energy":
        c["energy"][i] = q(F(c["energy"][i]) * F(1001, 1000)) if c["a"] or len(c["dims"]) == 1 else q(F(c["energy"][i]) * 100)
    elif k == "nan":
        c["energy"][i] = "nan"
    elif k == "valid":
        if c["drive"] == "turbine" and (c["g"]["c"] != "0" or c["g"]["f"] != "1"):
            return None
        c["valid"][i] = not c["valid"][i]
    elif not c["power"]:
        return None
    else:
        c["power"][i] = q(F(c["power"][i]) + 1) if c["power"][i] != "nan" else "3"
    return c


def check(chk, n, canaries=40):
    jobs = [(chk.rng.getrandbits(48), 6, 24) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "SampledTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("SampledTrace", good, chk.spoiled(good, corrupt, canaries))
