"""P29: what the results and the flow diagram of a model contain."""
import copy
import json
import random
import shutil
import tempfile
from pathlib import Path

from .distribution import guard
from .modelcheck import pool_map, preload
from .validity import COLS, FILES, G, change, document


def drawing(d):
    """all nodes and edges of a diagram and those within it"""
    nodes, edges, closed, subs = [], [], True, []
    name = {n["id"]: n["title"] for n in d["nodes"]}
    closed = len(name) == len(d["nodes"])
    for n in d["nodes"]:
        nodes.append([d["title"], n["title"], n["type"]])
        subs += n.get("subdiagram") or []
    flows = {f["id"]: f["type"] for f in d["flows"]}
    for e in d["edges"]:
        a, b, f = e.get("fromNode", e.get("from_node")), e.get("toNode", e.get("to_node")), e["flow"]
        closed = closed and a in name and b in name and f in flows
        edges.append([d["title"], name.get(a, a), name.get(b, b), flows.get(f, f)])
    for s in subs:
        n, e, c = drawing(s)
        nodes, edges, closed = nodes + n, edges + e, closed and c and (s["startDate" if "startDate" in s else "start_date"], s["endDate" if "endDate" in s else "end_date"]) == (
            d["startDate" if "startDate" in d else "start_date"], d["endDate" if "endDate" in d else "end_date"])
    return nodes, edges, closed


def one(rng):
    from ecalc_cli.io.output import write_flow_diagram
    from libecalc.common.errors.exceptions import EcalcError
    from .model import run
    g = G(rng)
    M = g.model()
    if rng.random() < 0.2:  # a crowd somewhere
        i = rng.choice(M["insts"])
        if i["gens"] and rng.random() < 0.7:
            rng.choice(i["gens"])["cons"] += [g.consumer(True) for _ in range(rng.randint(2, 4))]
        else:
            i["cons"] += [g.consumer(False) for _ in range(rng.randint(2, 4))]
    for _ in range(rng.choice([0, 1, 2])):
        change(M, rng)
    for v in M["vars"]:
        v["expr"] = [w for w in M["vars"] if w["name"] == v["name"]][-1]["expr"]
    folder = Path(tempfile.mkdtemp(prefix="p29-"))
    try:
        for n in M["files"]:
            (folder / n).write_text(FILES[n])
        (folder / "model.yml").write_text(document(M))
        try:
            m, r = run(folder)
        except EcalcError:
            return None  # which ones are refused: P22
        write_flow_diagram(energy_model=m.get_energy_model(), model_period=m.variables.period, output_folder=folder, name_prefix="d")
        d = json.loads((folder / "d.flow-diagram.json").read_text())[0]
    finally:
        shutil.rmtree(folder)
    nodes, edges, closed = drawing(d)
    year = lambda k, j: int(str(d[k] if k in d else d[j])[:4])
    return {"M": {**M, "cols": [{"file": n, "cols": c, "bad": n.startswith("x")} for n, c in COLS.items()]},
            "rows": [{"type": str(c.componentType.value), "name": c.name, "parent": c.parent or "", "level": str(c.component_level.value), "ems": [e.name for e in c.emissions.values()],
                      "unit": str(c.energy_usage.unit.value)} for c in r.components],
            "parts": [{"type": str(c.componentType.value), "name": c.name, "parent": c.parent} for c in r.models],
            "nodes": nodes, "edges": edges, "closed": closed, "begin": year("startDate", "start_date"), "end": year("endDate", "end_date")}


def _job(job):
    seed, n = job
    return [e for i in range(n) for e in guard(lambda: [one(random.Random(f"{seed}-{i}"))]) if e]


def spoil(e, r):
    k = r.choice(["rows", "parts", "nodes", "edges", "end", "ems", "parent"])
    if k == "end":
        e["end"] += 1
    elif k == "ems":
        c = r.choice(e["rows"])
        c["ems"] = c["ems"][1:] if c["ems"] else ["co2"]
    elif k == "parent":
        r.choice(e["rows"])["parent"] = "elsewhere"
    elif e[k] and r.random() < 0.5:
        e[k].pop(r.randrange(len(e[k])))
    elif e[k]:
        e[k].append(copy.deepcopy(r.choice(e[k])))
    else:
        e["end"] += 1


def check(chk, n, canaries=40):
    preload()
    es = [e for r in pool_map(_job, [(chk.rng.getrandbits(48), 10) for _ in range(n)]) for e in r]
    for e in [e for e in es if "crash" in e]:
        chk.violations.append({"spec": "Structure", "clauses": ["ended with an error of its own"], "event": e})
    es = [e for e in es if "crash" not in e]
    cs = [copy.deepcopy(chk.rng.choice(es)) for _ in range(canaries if es else 0)]
    for c in cs:
        spoil(c, chk.rng)
    if es:
        chk.validate("StructureTrace", es, cs)
