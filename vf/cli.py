"""The command line interface, run in-process on generated models: which files it writes and what is in them."""
import contextlib
import copy
import csv
import io
import json
import os
import random
import shutil
import traceback
from datetime import datetime
from fractions import Fraction
from pathlib import Path

from . import model as m
from .num import minutes, q


class Gateway:
    """Stands in for the Java process (NeqSim is not available offline); counts starts and stops."""
    starts = stops = 0

    class java_process:
        pid = 1

    class gateway_parameters:
        port = 1
    jvm = None

    @classmethod
    def launch_gateway(cls, *a, **k):
        Gateway.starts += 1
        return Gateway()

    def shutdown(self, *a, **k):
        Gateway.stops += 1


@contextlib.contextmanager
def no_java():
    import py4j.java_gateway as jg
    real = jg.JavaGateway.launch_gateway
    Gateway.starts = Gateway.stops = 0
    jg.JavaGateway.launch_gateway = Gateway.launch_gateway
    try:
        yield Gateway
    finally:
        jg.JavaGateway.launch_gateway = real


def invoke(args):
    from ecalc_cli.main import app
    from typer.testing import CliRunner
    r = CliRunner().invoke(app, args)
    return r


# ---- results as the specification reads them: every leaf with its path ----
def leaves(x, path="", out=None, js=False, tabular=False):
    """path -> leaf of a result object (or of parsed JSON): numbers exact, instants in minutes."""
    out = {} if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            leaves(v, f"{path}/{k}", out, js)
    elif isinstance(x, (list, tuple)):
        if not x:
            out[path] = {"k": "empty", "v": ""}
        for i, v in enumerate(x):
            leaves(v, f"{path}/{i}", out, js)
    elif isinstance(x, bool):
        out[path] = {"k": "s", "v": str(x).lower()}
    elif x is None:
        if js:
            out[path] = {"k": "n", "v": "nan"}
    elif isinstance(x, str):
        out[path] = {"k": "s", "v": str(getattr(x, "value", x))}
    elif isinstance(x, (int, float, Fraction)):
        out[path] = {"k": "n", "v": q(x)}
    elif isinstance(x, datetime):
        out[path] = {"k": "d", "v": str(minutes(x)), "t": minutes(x)}
    elif hasattr(x, "value") and hasattr(x, "name"):
        leaves(x.value, path, out, js)
    else:
        from libecalc.common.time_utils import Periods
        from libecalc.presentation.json_result.result.tabular_time_series import TabularTimeSeries
        fields = [k for k in (type(x).model_fields if hasattr(type(x), "model_fields") else x.__dict__)]
        for k in fields:
            v = getattr(x, k)
            if v is not None:
                leaves(v, f"{path}/{k}", out, js, isinstance(x, TabularTimeSeries))
        if isinstance(x, Periods) and tabular:
            leaves([p.start for p in x.periods], f"{path}/timesteps", out, js)
    return out


def number(s):
    return Fraction(s)


def parsed(text):
    return json.loads(text, parse_float=Fraction, parse_int=Fraction)


def simple(text):
    d = parsed(text)
    seq = lambda v: ["nan" if x is None else q(x) for x in v] if v is not None else []
    per = lambda p: [{"s": x["start"], "e": x["end"]} for x in p["periods"]]
    return {"periods": per(d["periods"]), "components": [
        {"name": c["name"], "kind": c["componentType"], "level": c["component_level"], "parent": c.get("parent", ""), "periods": per(c["periods"]),
         "valid": [q(Fraction(v)) for v in c["is_valid"]], "energy": seq(c["energy_usage"]), "unit": c["energy_usage_unit"], "power": seq(c.get("power")),
         "em": [{"key": k, "name": e["name"], "rate": seq(e["rate"])} for k, e in sorted(c["emissions"].items())]} for c in d["components"]]}


def columns(obj, prefix):
    """The series of a result object in the order they are declared: (heading prefix, attribute, unit, rate type, values)."""
    from libecalc.common.utils.rates import TimeSeries, TimeSeriesBoolean, TimeSeriesRate, TimeSeriesVolumesCumulative
    out = []
    for k in type(obj).model_fields:
        v = getattr(obj, k)
        if isinstance(v, TimeSeries) or (hasattr(v, "unit") and hasattr(v, "values") and hasattr(v, "periods")):
            out.append({"p": prefix, "a": k, "unit": str(v.unit.value),
                        "kind": "rate" if isinstance(v, TimeSeriesRate) else "cum" if isinstance(v, TimeSeriesVolumesCumulative) else "other",
                        "rt": str(v.rate_type.value) if isinstance(v, TimeSeriesRate) else "",
                        "s": [minutes(p.start) for p in v.periods], "v": [q(int(x)) if isinstance(v, TimeSeriesBoolean) else q(x) for x in v.values]})
        elif isinstance(v, dict):
            for e in v.values():
                if hasattr(e, "periods"):
                    out += columns(e, f"{prefix}.{e.name}")
    return out


def table(text):
    rows = list(csv.reader(io.StringIO(text)))
    return {"head": rows[0], "stamps": [r[0] for r in rows[1:]],
            "rows": [["nan" if x == "nan" else x if x in ("inf", "-inf", "") else q(Fraction(x.strip())) for x in r[1:]] for r in rows[1:]]}


def comp_simple(c):
    from .model import comp
    d = comp(c)
    return {"name": d["name"], "kind": d["kind"], "level": d["level"], "parent": d["parent"], "tv": d["tv"], "energy": d["energy"]["v"],
            "unit": str(c.energy_usage.unit.value), "power": d["power"]["v"], "valid": d["valid"],
            "em": [{"name": k, "rate": [q(x) for x in e.rate.values]} for k, e in sorted(c.emissions.items())]}


def _one(job):
    seed, opts, folder = job
    M = {}
    try:
        rng = random.Random(seed)
        M = m.Gen(rng, **opts).model()
        m.write(M, folder)
        folder = Path(folder)
        stem = rng.choice(["model", "model", "case-1", "a b"])
        (folder / "model.yml").rename(folder / f"{stem}.yml")
        a = {"freq": rng.choice(["NONE", "YEAR", "MONTH", "NONE"]), "csv": rng.random() < 0.8, "json": rng.random() < 0.7, "detailed": rng.random() < 0.5,
             "prefix": rng.choice(["", "", "case", "case.v2", "x.1.2"]), "folder": rng.choice(["", "out", "res.ults"]), "fmt": rng.choice([0, 1, 2]),
             "ltp": rng.random() < 0.4, "stp": rng.random() < 0.4, "stem": stem}
        out = folder / (a["folder"] or "output")
        if rng.random() < 0.3:
            out.mkdir()
        args = ["run", str(folder / f"{stem}.yml"), "-f", a["freq"], "--date-format-option", str(a["fmt"])]
        args += ["--csv" if a["csv"] else "--no-csv"] + (["--json"] if a["json"] else []) + (["--detailed-output"] if a["detailed"] else [])
        args += (["-n", a["prefix"]] if a["prefix"] else []) + (["-o", str(folder / a["folder"])] if a["folder"] else [])
        args += (["--ltp-export"] if a["ltp"] else []) + (["--stp-export"] if a["stp"] else [])
        with no_java() as g:
            r = invoke(args)
            java = {"starts": g.starts, "stops": g.stops}
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        name = a["prefix"] or stem
        got = {p.name: p.read_text() for p in out.iterdir()}
        # the same evaluation through the public interface
        _, result = m.run(folder, f"{stem}.yml")
        from ecalc_cli.emission_intensity import EmissionIntensityCalculator
        from libecalc.common.time_utils import Frequency
        f = Frequency[a["freq"]]
        res = result.resample(f) if f != Frequency.NONE else result
        ints = EmissionIntensityCalculator(hydrocarbon_export_rate=res.component_result.hydrocarbon_export_rate, emissions=res.component_result.emissions, frequency=f).get_results()
        e = {"a": a, "name": name, "exit": r.exit_code, "java": java, "files": sorted(got), "insts": [i["name"] for i in M["inst"]],
             "starts": [minutes(p.start) for p in res.periods], "csv": [], "cols": [], "icsv": [], "icols": [], "json": [], "comps": [], "simple": [],
             "ijson": [], "iwant": [], "info": []}
        if f"{name}.csv" in got:
            e["csv"] = [table(got[f"{name}.csv"])]
            e["cols"] = [c for x in res.components for c in columns(x, x.name)]
        if f"{name}_intensity.csv" in got and ints.results:
            e["icsv"] = [table(got[f"{name}_intensity.csv"])]
            e["icols"] = [c for x in ints.results for c in columns(x, x.name)]
        if f"{name}_v3.json" in got:
            if a["detailed"]:
                e["json"] = [{"got": leaves(parsed(got[f"{name}_v3.json"]), js=True), "want": leaves(res)}]
            else:
                e["simple"] = [simple(got[f"{name}_v3.json"])]
                e["comps"] = [comp_simple(c) for c in res.components]
        if f"{name}_intensity.json" in got:
            e["ijson"] = [{"got": leaves(parsed(got[f"{name}_intensity.json"]), js=True), "want": leaves(ints)}]
        if f"{name}_run_info.json" in got:
            d = json.loads(got[f"{name}_run_info.json"])
            e["info"] = [{"has": sorted(d), "ordered": d["start"] <= d["end"]}]
        return ("ok", e)
    except BaseException as x:  # noqa: BLE001
        return ("crash", type(x).__name__ + ": " + str(x)[:600], "".join(traceback.format_exception(x))[-4000:], m.files(M) if M else {})
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def corrupt(e, rng):
    e = copy.deepcopy(e)
    k = rng.randrange(5)
    if k == 0:
        e["files"].append("extra.csv")
    elif k == 1 and e["csv"]:
        e["csv"][0]["head"][-1] += "x"
    elif k == 2 and e["csv"]:
        rows = e["csv"][0]["rows"]
        r = rng.choice(rows)
        r[rng.randrange(len(r))] = "123456789/7"
    elif k == 3 and e["json"]:
        g = e["json"][0]["got"]
        p = rng.choice([p for p in g if g[p]["k"] == "n"])
        g[p]["v"] = "123456789/7"
    elif k == 4 and e["simple"]:
        c = rng.choice(e["simple"][0]["components"])
        c["energy"][0] = "123456789/7"
    else:
        return None
    return e


def check(chk, plans, canaries=6):
    import ecalc_cli.main  # noqa: F401

    from .modelcheck import pool_map, preload
    preload()
    base = Path(os.environ["VERIF_SCRATCH"]) / "models"
    jobs = [(f"{chk.pid}-{chk.seed}-{chk.tier}-{p}-{k}", opts, str(base / f"{p}_{k}")) for p, (n, opts) in enumerate(plans) for k in range(n)]
    events = []
    for r in pool_map(_one, jobs):
        if r[0] == "ok":
            events.append(r[1])
        else:
            chk.violations.append({"spec": "Output", "clauses": ["a valid model was not run: " + r[1]], "event": {"traceback": r[2], "files": r[3]}})
    rng = random.Random(5)
    bad = [c for c in (corrupt(e, rng) for e in rng.sample(events, min(len(events), 8 * canaries))) if c][:canaries]
    if events:
        chk.validate("OutputTrace", events, canaries=bad)


def _cache(job):
    r, f, folder = job
    try:
        from ecalc_neqsim_wrapper import CacheConfig, NeqSimFluidService
        from ecalc_neqsim_wrapper.cache_service import CacheService
        M = m.Gen(random.Random(1), n_inst=(1, 1), n_gensets=(0, 0), n_fuelcons=(1, 1), n_ts=(1, 1)).model()
        m.write(M, folder)
        NeqSimFluidService.reset_instance()
        CacheService._caches.clear()
        args = ["run", str(Path(folder) / "model.yml")] + (["--reference-cache-size", str(r)] if r >= 0 else []) + (["--flash-cache-size", str(f)] if f >= 0 else [])
        with no_java():
            x = invoke(args)
        if x.exception is not None and not isinstance(x.exception, SystemExit):
            raise x.exception
        NeqSimFluidService.instance()
        d = CacheConfig.default()
        got = CacheService.get_all_stats()
        return ("ok", {"cache": True, "r": r, "f": f, "dr": d.reference_fluid_max_size, "df": d.flash_max_size,
                       "gr": got["reference_fluid"]["max_size"], "gf": got["fluid_service_flash"]["max_size"]})
    except BaseException as x:  # noqa: BLE001
        return ("crash", type(x).__name__ + ": " + str(x)[:600], "".join(traceback.format_exception(x))[-4000:], {})
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def cache_sizes(chk):
    """The sizes of the fluid caches are those asked for."""
    import ecalc_cli.main  # noqa: F401

    from .modelcheck import pool_map, preload
    preload()
    base = Path(os.environ["VERIF_SCRATCH"]) / "caches"
    sizes = [-1, 0, 1, 7, 512, 100000]
    jobs = [(r, f, str(base / f"{r}_{f}")) for r in sizes for f in sizes]
    events = []
    for r in pool_map(_cache, jobs):
        if r[0] == "ok":
            events.append(r[1])
        else:
            chk.violations.append({"spec": "Output", "clauses": ["cache sizes: " + r[1]], "event": {"traceback": r[2]}})
    if events:
        chk.validate("OutputTrace", events, canaries=[{**events[0], "gr": 3}, {**events[-1], "gf": 3}])
