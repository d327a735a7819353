"""P07: resampling results to another frequency."""
import copy
import os
import random
import shutil
from fractions import Fraction
from pathlib import Path

from vf import model as m
from vf.modelcheck import pool_map, preload
from vf.num import q
from vf.series import G, encode, resample_event

KINDS = ["rate", "rate", "rate", "vol", "cum", "bool", "float", "int", "str"]


def pairs(a, b, path=""):
    """every time series of a result with its resampled counterpart"""
    from libecalc.common.utils.rates import TimeSeries
    from pydantic import BaseModel
    if isinstance(a, TimeSeries):
        yield path, a, b
    elif isinstance(a, BaseModel):
        for k in type(a).model_fields:
            yield from pairs(getattr(a, k), getattr(b, k), f"{path}.{k}")
    elif isinstance(a, list):
        if a and isinstance(a[0], BaseModel):
            for i, (x, y) in enumerate(zip(a, b, strict=True)):
                yield from pairs(x, y, f"{path}[{i}]")
    elif isinstance(a, dict):
        for k in a:
            if isinstance(a[k], BaseModel | list):
                yield from pairs(a[k], b[k], f"{path}[{k}]")


def model_events(job):
    from libecalc.common.time_utils import Frequency
    seed, opts, folder, freq = job
    try:
        M = m.Gen(random.Random(seed), **opts).model()
        m.write(M, folder)
        _, result = m.run(folder)
        before = [encode(a) for _, a, _ in pairs(result, result)]
        res = result.resample(Frequency[freq])
        out = []
        for (p, a, b), old in zip(pairs(result, res), before, strict=True):
            e = {"op": "resample", "a": old, "freq": freq, "first": True, "last": True, "where": p, "res": "ok", "r": encode(b)}
            if encode(a) != old:
                e = {**e, "res": "the original result was changed"}
            out.append(e)
        return ("ok", out)
    except Exception as x:  # noqa: BLE001
        import traceback
        return ("crash", repr(x)[:600], "".join(traceback.format_exception(x))[-4000:], m.files(M))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run(chk):
    r = chk.rng
    g = G(r)
    ev = []
    for _ in range(chk.n(900, 12000)):
        freq = r.choice(["YEAR", "YEAR", "MONTH", "MONTH", "DAY", "NONE"])
        ds = g.dates(r.randint(1, 6), midnight=0.6, spread=r.choice([2, 15, 30]) if freq == "DAY" else None)
        if freq == "DAY" and (ds[-1] - ds[0]).days > 90:
            freq = "MONTH"
        kind = r.choice(KINDS)
        first, last = (r.random() < 0.6, r.random() < 0.6) if r.random() < 0.4 else (True, True)
        x = g.series(kind, ds, nan=0.05 if kind == "rate" else 0)
        if not (first and last) and len([d for d in ds]) < 2:
            continue
        try:
            ev.append(resample_event(x, freq, first, last)[0])
        except Exception as err:  # noqa: BLE001
            ev.append({"op": "resample", "a": encode(x), "freq": freq, "first": first, "last": last, "res": "crash: " + repr(err)[:200]})
    preload()
    base = Path(os.environ["VERIF_SCRATCH"]) / "models"
    jobs = []
    for k in range(chk.n(24, 300)):
        opts = {"p_time_of_day": 0.5} if k % 3 == 0 else {}
        jobs.append((f"P07-{chk.seed}-{chk.tier}-{k}", opts, str(base / f"r{k}"), ["YEAR", "MONTH", "YEAR"][k % 3]))
    for res in pool_map(model_events, jobs):
        if res[0] == "ok":
            ev += res[1]
        else:
            chk.violations.append({"spec": "Series", "clauses": ["the result of a model was not resampled: " + res[1]],
                                   "event": {"traceback": res[2], "files": res[3]}})
    canaries, seen = [], {}
    for e in r.sample(ev, len(ev)):
        if e["res"] != "ok" or seen.get(e["a"]["k"], 0) >= 2 or not e["r"]["v"] or "nan" in e["r"]["v"] or len(e["a"]["v"]) < 2:
            continue
        c = copy.deepcopy(e)
        v = c["r"]["v"]
        if e["r"]["k"] == "bool":
            v[0] = not v[0]
        elif e["r"]["k"] == "str":
            v[0] = "?"
        else:
            v[0] = q(Fraction(v[0]) * 2 + 1)
            if e["r"]["k"] == "rate":
                c["r"]["reg"][0] = "1/3"
        canaries.append(c)
        seen[e["a"]["k"]] = seen.get(e["a"]["k"], 0) + 1
    chk.validate("SeriesTrace", ev, canaries)
