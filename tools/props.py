"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import sys
from pathlib import Path

HOME = Path(__file__).resolve().parent.parent
S = "src/libecalc/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique="TLA+ specification; TLC trace validation of recorded runs"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


MODELNOTE = ("Every recorded stage of every generated model is decided by TLC with exact rational arithmetic against the specification; "
             "assurance is over the models generated in a run (bounded sizes, random with VERIF_SEED), not over all models. "
             "Trusted: the recording of public results, the rational-number override of TLC, relative tolerance 1e-6 for float results.")

prop("P01", "The definition in force at a period's start is the one applied",
     "Wherever a model gives dated values (energy models, fuels, categories, regularity, export, variables, electricity-to-fuel tables), "
     "each period is evaluated with the entry having the latest date not after the period's start, and with no other. "
     "Before the first dated entry the quantity is reported as absent (zero or inactive), never as a later or earlier definition's value. "
     "Definitions that lie wholly outside the evaluated period neither contribute nor make the run fail.",
     ["inputs", "configurations"], "for all models, all sets of dated definitions and all evaluated periods",
     "Tests have a few fixed date layouts; the claim is about every arrangement of dates relative to start, end and time-series dates, including times of day and late first dates.",
     [S + "common/temporal_model.py", S + "common/time_utils.py", S + "presentation/yaml/mappers/component_mapper.py", S + "presentation/yaml/mappers/consumer_function_mapper.py", S + "domain/regularity.py"],
     [("TemporalModel.get_model / get_periods", S + "common/temporal_model.py"), ("define_time_model_for_period", S + "common/time_utils.py"), ("Reference/ConsumerFunctionMapper", S + "presentation/yaml/mappers/consumer_function_mapper.py")],
     MODELNOTE)
prop("P02", "The evaluated periods are exactly those the model implies",
     "A run is evaluated and reported on the periods between consecutive dates of: start, end, every date of a time series that influences the time vector and every date used in the model, restricted to [start, end]. "
     "The dates appear once, in order and without gaps, and every component of the result is reported on those same periods.",
     ["inputs", "configurations"], "for all time series, start/end settings and dated definitions",
     "Tests use a handful of time vectors; duplicates, times of day, unsorted rows, dates on the boundary and non-influencing series are combinations.",
     [S + "presentation/yaml/mappers/variables_mapper/get_global_time_vector.py", S + "presentation/yaml/model.py", S + "presentation/yaml/yaml_models/pyyaml_yaml_model.py"],
     [("get_global_time_vector", S + "presentation/yaml/mappers/variables_mapper/get_global_time_vector.py"), ("YamlModel.variables", S + "presentation/yaml/model.py")],
     MODELNOTE)
prop("P03", "Time series are fitted to the periods as their interpolation rule says",
     "For each period the value of a time series is the one its interpolation rule gives at the period's start: LEFT the next known value, RIGHT the previous one, LINEAR the straight line between them. "
     "Before the first known date the value is zero; after the last it is the last value if extrapolation is on and zero otherwise. "
     "Row order, date format and column order of the file do not matter.",
     ["inputs"], "for all series, rules, file layouts and time vectors",
     "Tests sample a few series; boundaries (equal dates, one row, before first and after last) times rule times extrapolation are not exhausted.",
     [S + "presentation/yaml/domain/time_series.py", S + "presentation/yaml/domain/time_series_collection.py", S + "presentation/yaml/mappers/variables_mapper/variables_mapper.py", S + "presentation/yaml/domain/time_series_resource.py"],
     [("TimeSeries.fit_to_time_vector", S + "presentation/yaml/domain/time_series.py"), ("TimeSeriesResource", S + "presentation/yaml/domain/time_series_resource.py")],
     MODELNOTE)
prop("P05", "Variables evaluate to their definitions, whatever order they are written in",
     "Every variable has, in every period, the value of the definition in force evaluated on the values of the time series and variables it refers to, and zero before its first definition. "
     "The order in which variables are written, and how deeply they refer to each other, does not matter.",
     ["inputs", "programs"], "for all acyclic sets of variables and all expressions",
     "Tests have one or two hand-written dependency chains; the claim is over all dependency graphs and orders.",
     [S + "presentation/yaml/mappers/variables_mapper/variables_mapper.py", S + "expression/expression.py", S + "expression/expression_evaluator.py"],
     [("VariableProcessor / _evaluate_variables", S + "presentation/yaml/mappers/variables_mapper/variables_mapper.py")],
     MODELNOTE)
prop("P08", "Direct and tabulated consumers report the energy their definition gives",
     "A direct or tabulated consumer reports in each period the rate or load of its definition in force: zero where a condition is not met, raised for power loss, converted between calendar and stream day by the regularity, and looked up in its table (not available outside it). "
     "It is reported valid exactly where that energy could be computed.",
     ["inputs", "configurations"], "for all expressions, conditions, regularities, power-loss factors and tables",
     "The combinations of condition, loss factor, rate type, regularity and table range are a product the tests sample pointwise.",
     [S + "domain/infrastructure/energy_components/legacy_consumer/consumer_function", S + "domain/infrastructure/energy_components/legacy_consumer/tabulated", S + "presentation/yaml/mappers/consumer_function_mapper.py"],
     [("DirectConsumerFunction.evaluate", S + "domain/infrastructure/energy_components/legacy_consumer/direct_consumer_function.py"), ("TabularConsumerFunction.evaluate", S + "domain/infrastructure/energy_components/legacy_consumer/tabulated")],
     MODELNOTE)
prop("P09", "A generator set supplies exactly its consumers and burns fuel by its table",
     "The power a generator set delivers is the sum of the power of its consumers, its fuel rate is its table (in force) at that power, zero at no power, and its capacity margin is the table's highest power minus the power. "
     "It is reported valid exactly where it has a table and the power is known and within capacity.",
     ["inputs", "configurations"], "for all sets of consumers, tables, powers including overload, negative and unknown, and all dated tables",
     "Tests check a few powers on two tables; overload, unknown consumer power, table changes and several sets interact.",
     [S + "domain/infrastructure/energy_components/generator_set/generator_set_component.py", S + "domain/infrastructure/energy_components/generator_set/generator_set_model.py"],
     [("GeneratorSetEnergyComponent.evaluate_*", S + "domain/infrastructure/energy_components/generator_set"), ("GeneratorSetModel.evaluate", S + "domain/infrastructure/energy_components/generator_set")],
     MODELNOTE)
prop("P10", "Emissions follow the fuel burned and the fuel type in force",
     "For every fuel consumer and generator set and every emission of its fuel in force, the emitted tonnes per day equal the reported fuel rate times the emission factor of that period. "
     "Emissions a fuel does not have are not reported, and electricity consumers emit nothing themselves.",
     ["inputs", "configurations"], "for all fuels, factor expressions, dated fuel changes and fuel rates",
     "Fuel changes over time with different emission names and factor expressions are not combined in tests.",
     [S + "dto/emission.py", S + "dto/fuel_type.py", S + "domain/infrastructure/energy_components/fuel_model/fuel_model.py"],
     [("FuelModel.evaluate_emissions", S + "domain/infrastructure/energy_components/fuel_model/fuel_model.py")],
     MODELNOTE)
prop("P11", "Venting emitters report the emissions their definition gives",
     "A venting emitter emits in each period its stated rate (with conditions applied), or its oil rate times the emission factor, converted to tonnes per calendar day whatever unit and rate type it was given in. "
     "It uses no energy and reports exactly the emissions it declares.",
     ["inputs", "configurations"], "for all rates, units, rate types, conditions, factors and regularities",
     "Unit times rate type times regularity times condition is sampled in tests with regularity mostly one.",
     [S + "domain/infrastructure/emitters/venting_emitter.py", S + "presentation/yaml/mappers/component_mapper.py"],
     [("VentingEmitter.get_emissions / EmissionRate", S + "domain/infrastructure/emitters/venting_emitter.py")],
     MODELNOTE)
prop("P12", "Totals are the sums of their parts, and one invalid part makes the total invalid",
     "The fuel, electrical and mechanical power, hydrocarbon export and each emission of an installation and of the asset are, in every period, the sums over what they contain; cumulative values are the running sum of rate times duration (regularity applied to stream-day rates). "
     "An installation or asset is valid in a period exactly when everything below it is.",
     ["inputs", "configurations"], "for all models and component trees",
     "Snapshot tests freeze the totals of a few models; consistency over all trees, missing emissions and unavailable values is not asserted.",
     [S + "presentation/json_result/mapper.py", S + "presentation/json_result/aggregators.py", S + "common/utils/rates.py"],
     [("get_asset_result", S + "presentation/json_result/mapper.py"), ("aggregate_emissions / aggregate_is_valid", S + "presentation/json_result/aggregators.py")],
     MODELNOTE)

exec((Path(__file__).parent / "props_more.py").read_text()) if (Path(__file__).parent / "props_more.py").exists() else None
NA = globals().get("NA", [])

P.sort(key=lambda p: p["id"])
with open(HOME / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
na = {n["property"] for n in NA}
man = {"version": 1, "setup_cmd": "./setup",
       "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] not in na],
       "not_applicable": NA,
       "notes": "All checks: TLA+ specifications in spec/, decided by TLC; no hooks in /repo. See DESIGN.md."}
(HOME / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert len([x for x in p["statement"].replace("e.g.", "").split(". ") if x]) <= 3, p["id"]
    for f in p["files"]:
        if not (Path("/repo") / f).exists():
            print("missing anchor", p["id"], f, file=sys.stderr)
