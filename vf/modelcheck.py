"""Checks on whole models: generate, run the real code, let TLC decide the recorded evaluations."""
import copy
import multiprocessing as mp
import os
import random
import shutil
import traceback
from fractions import Fraction
from pathlib import Path

from . import model as m
from .num import q

GROUPS = ["periods", "series", "vars", "reg", "hc", "energy", "valid", "genset", "emissions", "vents", "cumulative", "total"]


def _one(job):
    seed, opts, want, folder, maker = job
    try:
        if maker is None:
            M = m.Gen(random.Random(seed), **opts).model()
        else:
            M = maker(random.Random(seed), opts)
        e, _, _ = m.event(M, folder, want)
        return ("ok", e)
    except Exception as x:  # noqa: BLE001
        try:
            files = m.files(M)
        except Exception:  # noqa: BLE001
            files = {}
        return ("crash", type(x).__name__ + ": " + str(x)[:600], "".join(traceback.format_exception(x))[-4000:], files)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def preload():
    import ecalc_cli.infrastructure.file_resource_service  # noqa: F401
    import libecalc.presentation.json_result.mapper  # noqa: F401
    import libecalc.presentation.yaml.file_configuration_service  # noqa: F401
    import libecalc.presentation.yaml.model  # noqa: F401


def pool_map(f, jobs, procs=8):
    """Run jobs in forked workers (the code under test is imported once, before the fork)."""
    procs = min(procs, len(jobs), os.cpu_count() or 1)
    if procs <= 1:
        return [f(j) for j in jobs]
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(f, jobs, chunksize=max(1, len(jobs) // (procs * 8)))


def record_models(chk, plans, want, maker=None):
    """plans: list of (number of models, generator options).  Returns the recorded events; crashes are violations."""
    preload()
    jobs = []
    base = Path(os.environ["VERIF_SCRATCH"]) / "models"
    for p, (n, opts) in enumerate(plans):
        for k in range(n):
            seed = f"{chk.pid}-{chk.seed}-{chk.tier}-{p}-{k}"
            jobs.append((seed, opts, want, str(base / f"{p}_{k}"), maker))
    events = []
    for r in pool_map(_one, jobs):
        if r[0] == "ok":
            events.append(r[1])
        else:
            chk.violations.append({"spec": "Model", "clauses": ["a valid model was not evaluated: " + r[1]],
                                   "event": {"traceback": r[2], "files": r[3]}})
    return events


def _bump(seq, rng):
    i = rng.randrange(len(seq))
    seq[i] = "1" if seq[i] == "nan" else q(Fraction(seq[i]) * Fraction(101, 100) + Fraction(1, 10)) if seq[i] not in ("inf", "-inf") else "0"


def corrupt(e, group, rng):
    """A copy of event e with one recorded value of the stage falsified, or None when e has none."""
    e = copy.deepcopy(e)
    o = e["o"]
    fuel = [c for i in o["inst"] for c in i["fuelcons"]]
    gens = [g["c"] for i in o["inst"] for g in i["gensets"]]
    els = [c for i in o["inst"] for g in i["gensets"] for c in g["cons"]]
    vents = [c for i in o["inst"] for c in i["vents"]]
    e["want"] = [group]
    try:
        if group == "periods":
            o["tv"].pop(rng.randrange(len(o["tv"])))
        elif group == "series":
            names = [k for k in o["vars"] if not k.startswith("$var")]
            _bump(o["vars"][rng.choice(names)], rng)
        elif group == "vars":
            _bump(o["vars"][rng.choice([k for k in o["vars"] if k.startswith("$var")])], rng)
        elif group == "reg":
            _bump(rng.choice(o["inst"])["c"]["reg"], rng)
        elif group == "hc":
            _bump(rng.choice(o["inst"])["c"]["hc"]["v"], rng)
        elif group == "energy":
            c = rng.choice(fuel + els)
            _bump(c["energy"]["v"], rng)
        elif group == "valid":
            c = rng.choice(fuel + els)
            i = rng.randrange(len(c["valid"]))
            c["valid"][i] = not c["valid"][i]
        elif group == "genset":
            g = rng.choice(gens)
            what = rng.choice(["power", "energy", "margin", "valid"])
            if what == "valid":
                i = rng.randrange(len(g["valid"]))
                g["valid"][i] = not g["valid"][i]
            else:
                _bump(g[what]["v"], rng)
        elif group == "emissions":
            _bump(rng.choice(rng.choice(fuel + gens)["em"])["rate"]["v"], rng)
        elif group == "vents":
            _bump(rng.choice(rng.choice(vents)["em"])["rate"]["v"], rng)
        elif group == "cumulative":
            c = rng.choice(fuel + els + gens + [o["asset"]] + [i["c"] for i in o["inst"]])
            _bump(c["cum"]["v"], rng)
        elif group == "total":
            c = rng.choice([o["asset"]] + [i["c"] for i in o["inst"]])
            what = rng.choice(["energy", "em", "valid"])
            if what == "valid":
                i = rng.randrange(len(c["valid"]))
                c["valid"][i] = not c["valid"][i]
            elif what == "em":
                _bump(rng.choice(c["em"])["rate"]["v"], rng)
            else:
                _bump(c["energy"]["v"], rng)
        else:
            return None
    except IndexError:
        return None
    return e


def check_models(chk, plans, want, canaries=3, maker=None, post=None):
    events = record_models(chk, plans, want, maker)
    if post:
        post(events)
    if not events:
        return events
    bad = []
    rng = random.Random(7)
    for g in want:
        k = 0
        for e in rng.sample(events, len(events)):
            c = corrupt(e, g, rng)
            if c is not None:
                bad.append(c)
                k += 1
                if k == canaries:
                    break
    chk.validate("ModelTrace", events, canaries=bad)
    return events
