"""Recording the prognosis exports (LTP/STP) and emission intensities of generated models."""
import copy
import os
import random
import shutil
import traceback
from fractions import Fraction
from pathlib import Path

from . import model as m
from .num import minutes, q, qs


def table(path):
    rows = path.read_text().split("\n")
    if rows[-1] != "" or not rows[1].startswith("#"):
        raise ValueError(f"unexpected layout of {path.name}")
    out = []
    for r in rows[2:-1]:
        c = r.split("\t")
        out.append({"y": int(c[0]), "m": int(c[1]), "v": [q(Fraction(x)) if x not in ("nan", "inf", "-inf") else x for x in c[2:]]})
    return {"ids": rows[0].split("\t"), "titles": rows[1][1:].split("\t"), "rows": out}


def exports(M, model, freq, folder):
    from ecalc_cli.io.output import write_ltp_export, write_stp_export
    from libecalc.common.time_utils import Frequency
    out = Path(folder) / "export"
    out.mkdir()
    write_ltp_export(model=model, frequency=Frequency[freq], output_folder=out, name_prefix="case")
    write_stp_export(model=model, frequency=Frequency[freq], output_folder=out, name_prefix="case")
    return [{k: table(out / f"case.{i['name']}.{k}.tsv") for k in ("ltp", "stp")} for i in M["inst"]]


def intensities(result, freq):
    from ecalc_cli.emission_intensity import EmissionIntensityCalculator
    from libecalc.common.time_utils import Frequency
    r = result.resample(Frequency[freq]) if freq != "NONE" else result
    c = r.component_result
    out = []
    for x in EmissionIntensityCalculator(hydrocarbon_export_rate=c.hydrocarbon_export_rate, emissions=c.emissions, frequency=Frequency[freq]).get_results().results:
        ps = list(x.intensity_sm3.periods)
        out.append({"name": x.name, "s": [minutes(p.start) for p in ps], "e": [minutes(p.end) for p in ps],
                    "unit_sm3": str(x.intensity_sm3.unit.value), "unit_boe": str(x.intensity_boe.unit.value),
                    "sm3": qs(x.intensity_sm3.values), "boe": qs(x.intensity_boe.values),
                    "ysm3": qs(x.intensity_yearly_sm3.values) if x.intensity_yearly_sm3 is not None else [],
                    "yboe": qs(x.intensity_yearly_boe.values) if x.intensity_yearly_boe is not None else []})
    return out


def _one(job):
    seed, opts, want, folder = job
    M = {}
    try:
        rng = random.Random(seed)
        M = m.Gen(rng, **opts).model()
        freq = rng.choice(["NONE", "YEAR", "YEAR", "MONTH"])
        e, model, result = m.event(M, folder, want)
        e["freq"] = freq
        e["exp"] = exports(M, model, freq, folder) if "export" in want else []
        e["int"] = intensities(result, freq) if "intensity" in want else []
        return ("ok", e)
    except Exception as x:  # noqa: BLE001
        return ("crash", type(x).__name__ + ": " + str(x)[:600], "".join(traceback.format_exception(x))[-4000:], m.files(M) if M else {})
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def record(chk, plans, want):
    import ecalc_cli.emission_intensity  # noqa: F401
    import ecalc_cli.io.output  # noqa: F401

    from .modelcheck import pool_map, preload
    preload()
    base = Path(os.environ["VERIF_SCRATCH"]) / "models"
    jobs = [(f"{chk.pid}-{chk.seed}-{chk.tier}-{p}-{k}", opts, want, str(base / f"{p}_{k}")) for p, (n, opts) in enumerate(plans) for k in range(n)]
    events = []
    for r in pool_map(_one, jobs):
        if r[0] == "ok":
            events.append(r[1])
        else:
            chk.violations.append({"spec": "Export", "clauses": ["a valid model was not exported: " + r[1]], "event": {"traceback": r[2], "files": r[3]}})
    return events


def corrupt(e, rng, group):
    e = copy.deepcopy(e)
    if group == "export":
        t = rng.choice(e["exp"])[rng.choice(["ltp", "stp"])]
        rows = [r for r in t["rows"] if any(v != "0" for v in r["v"])]
        k = rng.randrange(4)
        if k == 0:
            t["rows"].pop()
        elif k == 1:
            t["rows"][0]["m"] = t["rows"][0]["m"] % 12 + 1
        else:
            if not rows:
                return None
            r = rng.choice(rows)
            i = rng.choice([i for i, v in enumerate(r["v"]) if v != "0"])
            r["v"][i] = q(Fraction(r["v"][i]) * Fraction(10001, 10000) + Fraction(1, 1000))
    else:
        if not e["int"]:
            return None
        x = e["int"][0]
        k = rng.choice(["sm3", "boe"])
        c = [i for i, v in enumerate(x[k]) if v not in ("nan", "inf", "-inf", "0")]
        if not c:
            return None
        x[k][rng.choice(c)] = "1234567/3"
    return e


def check(chk, plans, want, canaries=6):
    events = record(chk, plans, want)
    rng = random.Random(5)
    bad = [c for c in (corrupt(e, rng, want[0]) for e in rng.sample(events, min(len(events), 4 * canaries))) if c][:canaries]
    if events:
        chk.validate("ExportTrace", events, canaries=bad)
