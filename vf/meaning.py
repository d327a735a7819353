"""P30: models of the same meaning (spec/Meaning.tla) have the same results, whatever was run before."""
import copy
import os
import pickle
import random
import shutil
import tempfile
from pathlib import Path

import yaml

from .distribution import guard
from .modelcheck import pool_map, preload
from .num import minutes, q
from .validity import COLS, FILES, G, change, document


# ---------------------------------------------------------------------------------------- the same meaning otherwise described
def expressions(M):
    for v in M["vars"]:
        yield v, "expr"
    for f in M["fuels"]:
        yield f, "factor"
    for i in M["insts"]:
        for h in i["hc"]:
            yield h, "v"
        for v in i["vents"]:
            for e in v["ems"]:
                yield e, "expr"
        for c in [*i["cons"], *(c for g in i["gens"] for c in g["cons"])]:
            for u in c["use"]:
                yield u["v"], "expr"
                yield u["v"], "cond"


def consumers(M):
    return [c for i in M["insts"] for c in (*i["cons"], *(c for g in i["gens"] for c in g["cons"]))]


def rename(M, old, new, kind):
    sub = lambda x: new if x == old else x
    if kind in ("facs", "models"):
        for m in M["models"]:
            m["refs"] = [sub(x) for x in m["refs"]]
        for c in consumers(M):
            for u in c["use"]:
                u["v"]["refs"] = [sub(x) for x in u["v"]["refs"]]
        for i in M["insts"]:
            for g in i["gens"]:
                for e in g["model"]:
                    e["v"] = sub(e["v"])
    elif kind == "fuels":
        for x in [*M["insts"], *consumers(M), *(g for i in M["insts"] for g in i["gens"])]:
            for e in x["fuel"]:
                e["v"] = sub(e["v"])
    else:
        tok = (lambda t: f"$var.{new}" if t == f"$var.{old}" else t) if kind == "vars" else (lambda t: new + t[len(old):] if t.startswith(old + ";") else t)
        for d, k in expressions(M):
            d[k] = [tok(t) for t in d[k]]
    for d in M[kind]:
        d["name"] = sub(d["name"])


def otherwise(M, rng):
    M = copy.deepcopy(M)
    too = f"x{rng.randrange(10**9)}"
    k = rng.choice(["order", "order", "names", "unused", "split", "split", "sums", "copies"])
    if k == "order":
        for n in ("facs", "models", "fuels", "ts", "vars", "insts", "files"):
            rng.shuffle(M[n])
        for i in M["insts"]:
            for n in ("gens", "cons", "vents"):
                rng.shuffle(i[n])
            for g in i["gens"]:
                rng.shuffle(g["cons"])
            for v in i["vents"]:
                rng.shuffle(v["ems"])
        for f in M["fuels"]:
            rng.shuffle(f["ems"])
    elif k == "names":
        for kind in ("facs", "models", "fuels", "ts", "vars"):
            names = {d["name"] for d in M[kind]}
            for n in names:
                if rng.random() < 0.5:
                    rename(M, n, rng.choice(["a", "zz", "M", "Q"]) + str(rng.randrange(10**6)), kind)
    elif k == "unused":
        M["facs"].append({"name": too + "a", "type": "TABULAR", "file": "tabp.csv"})
        M["models"].append({"name": too + "b", "type": "FLUID", "refs": [], "kind": ""})
        M["fuels"].insert(0, {"name": too + "c", "ems": ["co2", "nmvoc"], "factor": []})
        M["vars"].insert(0, {"name": too + "d", "expr": ["TS1;B"] if M["ts"] and any(t["name"] == "TS1" for t in M["ts"]) else []})
    elif k == "split":
        for t in [x[n] for x in [*M["insts"], *consumers(M), *(g for i in M["insts"] for g in i["gens"])] for n in ("fuel", "hc", "reg", "cat", "model", "use") if n in x and x[n] and isinstance(x[n], list)]:
            if rng.random() < 0.5:
                continue
            if t[0]["from"] == 0:
                if not M["start"] or len(t) > 1:
                    continue
                t[0]["from"] = M["start"]
            j = rng.randrange(len(t))
            ys = [y for y in (2020, 2021, 2022) if y > t[j]["from"] and (j + 1 == len(t) or y < t[j + 1]["from"])]
            v = t[j]["v"]
            if not ys or isinstance(v, dict) and from_input(M, v["refs"]):
                continue
            t.insert(j + 1, {"from": rng.choice(ys), "v": copy.deepcopy(v)})
    elif k == "sums":
        for d, n in expressions(M):
            rng.shuffle(d[n])
    elif k == "copies":
        for v in list(M["vars"]):
            M["vars"].append({"name": v["name"] + too, "expr": list(v["expr"])})
            for d, n in expressions(M):
                d[n] = [t + too if t == f"$var.{v['name']}" and rng.random() < 0.5 else t for t in d[n]]
        for kind in ("facs", "models"):
            for f in list(M[kind]):
                if rng.random() < 0.3:
                    M[kind].append({**copy.deepcopy(f), "name": f["name"] + too})
                    for c in consumers(M):
                        for u in c["use"]:
                            u["v"]["refs"] = [x + too if x == f["name"] and rng.random() < 0.5 else x for x in u["v"]["refs"]]
    return M


def from_input(M, refs):
    todo, kinds = list(refs), set()
    while todo:
        x = todo.pop()
        for m in M["models"]:
            if m["name"] == x:
                kinds.add(m["kind"])
                todo += m["refs"]
    return bool(kinds & {"GENERIC_FROM_INPUT", "UNKNOWN"})


# ---------------------------------------------------------------------------------------- the same document otherwise written
class Include(str):
    pass


class Dumper(yaml.SafeDumper):
    pass


class Flat(Dumper):
    def ignore_aliases(self, data):
        return True


Dumper.add_representer(Include, lambda d, x: d.represent_scalar("!include", str(x)))


def write(folder, text, rng, plain):
    """the document as model.yml and the files it includes; plain: as it is"""
    if plain or plain is None:
        (folder / "model.yml").write_text(text)
        return
    keys, cut = rng.random() < 0.6, rng.choice([0, 0.05, 0.3])
    count = [0]

    def dump(d):
        return yaml.dump(d, Dumper=rng.choice([Dumper, Flat]), sort_keys=False, default_flow_style=rng.choice([None, True, False, False]), width=rng.choice([40, 80, 10**6]))

    def go(d, top=False, dates=False):
        if isinstance(d, dict):
            items = list(d.items())
            if keys and not all(not isinstance(k, str) for k in d):
                rng.shuffle(items)
            d = {k: go(v) for k, v in items}
        elif isinstance(d, list):
            d = [go(v) for v in d]
        else:
            return d
        if not top and d and rng.random() < cut:
            count[0] += 1
            name = f"{rng.choice(['', 'parts/'])}part{count[0]}.yml"
            (folder / name).parent.mkdir(exist_ok=True)
            (folder / name).write_text(dump(d))
            return Include(name)
        return d
    (folder / "model.yml").write_text(dump(go(yaml.safe_load(text), True)))


# ---------------------------------------------------------------------------------------- results
def num(x):
    return "nan" if x is None else "1" if x is True else "0" if x is False else q(x)


def leaves(x, key, out):
    if x is None or isinstance(x, str):
        return
    if hasattr(x, "values") and hasattr(x, "periods") and not isinstance(x, dict):
        unit = getattr(x, "unit", None)
        out.append((key + [str(unit.value) if unit is not None else ""], [minutes(p.start) for p in x.periods], [num(v) for v in x.values]))
    elif isinstance(x, dict):
        for k in x:
            leaves(x[k], key + [str(k)], out)
    elif isinstance(x, list):
        for k, v in enumerate(x):
            leaves(v, key + [str(k)], out)
    elif hasattr(type(x), "model_fields"):
        for k in type(x).model_fields:
            if "cumulative" not in k and k not in ("periods", "chart"):
                leaves(getattr(x, k), key + [k], out)


def results(r):
    out = []
    for c in r.components:
        leaves(c, [str(c.componentType.value), c.name, c.parent or ""], out)
    parts = {}
    for m in r.models:
        got = []
        leaves(m, ["model", str(m.componentType.value), m.name, m.parent], got)
        for k, f, v in got:
            parts.setdefault(tuple(k), []).append((f, v))
    for k, xs in parts.items():
        xs.sort()
        out.append((list(k), [t for f, _ in xs for t in f], [t for _, v in xs for t in v]))
    return [{"key": "|".join(k), "from": f, "v": v} for k, f, v in out]


def content(name, scale):
    """the files of another model: the last column is another one"""
    head, *rows = FILES[name].strip().split("\n")
    if scale == 1 or name.startswith("x"):
        return FILES[name]
    return "\n".join([head, *(",".join([*x[:-1], f"{float(x[-1]) * scale:g}"]) for x in (r.split(",") for r in rows))]) + "\n"


def apart(f):
    """f() in a process of its own, where nothing has been run"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as out:
                pickle.dump(guard(f), out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as got:
        data = got.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def go(top, k, M, rng, plain):
    """one run: (the model, its record); None if it is refused"""
    from libecalc.common.errors.exceptions import EcalcError
    from .model import run
    folder = top / rng.choice(["here", "here", "there"])
    folder.mkdir()
    try:
        for n in FILES:
            (folder / n).write_text(content(n, M["data"] / 10))
        write(folder, document(M), rng, plain)
        try:
            m, r = run(folder)
        except EcalcError as ex:
            if plain is None:
                return None  # which ones are refused: P22
            raise AssertionError(f"refused: {ex}: {(folder / 'model.yml').read_text()[:3000]}") from ex
    finally:
        shutil.rmtree(folder)
    return m, {"M": {**M, "cols": [{"file": n, "cols": c, "bad": n.startswith("x")} for n, c in COLS.items()]}, "as": k, "r": results(r)}


def record(x):
    return [x and x[1]]


def history(rng):
    top = Path(tempfile.mkdtemp(prefix="p30-"))
    try:
        base, runs = [], []
        for _ in range(40):
            if len(base) == 2:
                break
            M = {**G(rng).model(), "data": 10}
            if base and rng.random() < 0.6:  # nearly the same as the other
                M = {**copy.deepcopy(base[0]), "data": rng.choice([9, 10, 11])}
                for _ in range(rng.choice([0, 1, 1, 2])):
                    change(M, rng)
                if M == base[0] or [d["name"] for d in M["vars"]] != [d["name"] for d in base[0]["vars"]]:
                    continue
            x = apart(lambda: record(go(top, len(base), M, rng, None)))[0]
            if x is None:
                continue
            if "crash" in x:
                return [x]
            base.append(M)
            runs.append(x)
        if len(base) < 2:
            raise AssertionError("forty models were refused")
        got = apart(lambda: histories(rng, top, base))
        return got if got and "crash" in got[0] else [{"runs": runs + got}]
    finally:
        shutil.rmtree(top)


def histories(rng, top, base):
    from libecalc.presentation.json_result.mapper import get_asset_result
    runs, kept = [], {}
    for k in [*rng.sample([0, 1], 2), *(rng.randrange(2) for _ in range(3))]:
        if k in kept and rng.random() < 0.15:
            kept[k].evaluate_energy_usage()
            runs.append({"M": {**base[k], "cols": runs[0]["M"]["cols"]}, "as": k, "r": results(get_asset_result(kept[k]))})
            continue
        M = base[k]
        for _ in range(rng.choice([0, 1, 1, 2])):
            M = otherwise(M, rng)
        kept[k], x = go(top, k, M, rng, rng.random() < 0.3)
        runs.append(x)
    return runs


def _job(job):
    seed, n = job
    return [e for i in range(n) for e in guard(lambda: history(random.Random(f"{seed}-{i}")))]


def check(chk, n, canaries=20):
    preload()
    es = [e for r in pool_map(_job, [(chk.rng.getrandbits(48), 3) for _ in range(n)]) for e in r]
    for e in [e for e in es if "crash" in e]:
        chk.violations.append({"spec": "Meaning", "clauses": ["ended with an error of its own"], "event": e})
    es = [e for e in es if "crash" not in e]
    cs = []
    for _ in range(canaries):
        c = copy.deepcopy(chk.rng.choice(es))
        x = c["runs"][-1]["r"]
        s = chk.rng.choice([s for s in x if s["v"]])
        if chk.rng.random() < 0.3:
            x.remove(s)
        else:
            s["v"][-1] = q(float(chk.rng.choice([7777.5, -1.25])))
        cs.append(c)
    chk.validate("MeaningTrace", es, cs)
    chk.notes["runs"] = sum(len(e["runs"]) for e in es)
