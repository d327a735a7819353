"""Distribution of a stream over parallel items: generated and enumerated cases on the real classes."""
import copy
import json
import random
from fractions import Fraction as F
from uuid import UUID

from .modelcheck import pool_map, preload
from .num import q, qs


def running(f):
    from .engine import engine
    from ecalc_neqsim_wrapper.cache_service import CacheService
    from ecalc_neqsim_wrapper.java_service import NeqsimService
    with engine():
        try:
            with NeqsimService.factory(use_jpype=False).initialize():
                return f()
        finally:
            CacheService.clear_all()


def gas(rng, rate):
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
    m = FluidModel(eos_model=rng.choice([EoSModel.SRK, EoSModel.PR]), composition=FluidComposition(methane=rng.choice([0.8, 0.9]), ethane=0.1, propane=rng.choice([0.0, 0.05])))
    return NeqSimFluidService.instance().create_stream_from_standard_rate(
        fluid_model=m, pressure_bara=float(rng.choice([1, 20, 55])), temperature_kelvin=float(rng.choice([280, 303.15, 350])), standard_rate_m3_per_day=float(rate))


def like(s, t):
    return (s.fluid_model == t.fluid_model and abs(s.pressure_bara - t.pressure_bara) < 1e-9 and abs(s.temperature_kelvin - t.temperature_kelvin) < 1e-9)


def make(rng, own, cap, to, total=None):
    """the real distribution of a case, with the items and overflows in some order -- how things are listed has no meaning"""
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, HasExcessRate, Overflow
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
    n = len(own)
    total = sum(own) if total is None else total
    stream = gas(rng, total)
    asked = []

    class Item(HasExcessRate):
        def __init__(self, c):
            self.c = c

        def get_excess_rate(self, s):
            asked.append(s)
            return max(0.0, s.standard_rate_sm3_per_day - self.c)

    ident = rng.choice([lambda i: f"item{(7 * i) % 10}", lambda i: i, lambda i: UUID(int=(i * 7919) % 101), lambda i: ("t", -i)])
    frac = [float(o) / float(total) if total else 0.0 for o in own]
    items = {ident(i): Item(float(cap[i])) for i in range(n)}
    flows = [Overflow(from_id=ident(i), to_id=ident(to[i] - 1)) for i in range(n) if to[i]]
    rng.shuffle(flows)
    d = CommonStreamDistribution(inlet_stream=stream, items=items, rate_fractions=frac, overflows=flows, fluid_service=NeqSimFluidService.instance())
    return d, stream, frac, asked


def shuffle(rng, own, cap, to):
    """the same case with the items listed in another order"""
    n = len(own)
    p = list(range(n))
    rng.shuffle(p)
    at = {j: k for k, j in enumerate(p)}
    return [own[j] for j in p], [cap[j] for j in p], [at[to[j] - 1] + 1 if to[j] else 0 for j in p]


def share(rng, own, cap, to, total=None):
    d, stream, frac, asked = make(rng, own, cap, to, total)
    out = d.get_streams()
    again = d.get_streams()
    return {"e": "share", "q": q(float(stream.standard_rate_sm3_per_day)), "frac": qs(frac), "cap": qs([float(c) for c in cap]), "to": to,
            "out": qs([s.standard_rate_sm3_per_day for s in out]), "again": qs([s.standard_rate_sm3_per_day for s in again]),
            "same": all(like(s, stream) for s in out + asked), "n": d.get_number_of_streams()}


def forest(rng, n):
    """where the items overflow: anywhere, but not in a circle"""
    p = list(range(n))
    rng.shuffle(p)
    to = [0] * n
    for k, i in enumerate(p):
        if k + 1 < n and rng.random() < 0.75:
            to[i] = (p[k + 1] if rng.random() < 0.5 else rng.choice(p[k + 1:])) + 1
    return to


def _scaled(job):
    seed, cases = job
    rng = random.Random(seed)

    def go():
        out = []
        for c in cases:
            k = F(rng.choice([1, 1000, 100000]))
            own, cap, to = shuffle(rng, [F(x) * k for x in c["own"]], [F(x) * k for x in c["cap"]], c["to"])
            out.append(share(rng, own, cap, to))
        return out
    return guard(go)


def guard(f):
    try:
        return running(f)
    except Exception as ex:
        import traceback
        return [{"crash": repr(ex), "where": traceback.format_exc()[-1500:]}]


def one(rng):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.stream_distribution.individual_stream_distribution import IndividualStreamDistribution
    from libecalc.process.stream_distribution.priorities_stream_distribution import HasValidity, PrioritiesStreamDistribution
    n = rng.randint(1, 7)
    own = [F(rng.choice([0, rng.randint(1, 100), rng.randint(1, 100)]) * 1000) for _ in range(n)]
    cap = [F(rng.choice([0, rng.randint(1, 150), rng.randint(1, 150)]) * 1000) for _ in range(n)]
    k = rng.random()
    if k < 0.5:
        total = sum(own) * rng.choice([1, 1, 2]) or F(1000)
        return share(rng, own, cap, forest(rng, n), total)
    if k < 0.7:
        to = [rng.choice([0, rng.randint(1, n)]) for _ in range(n)]
        try:
            make(rng, own, cap, to, sum(own) or F(1000))
            refused = False
        except EcalcValidationException:
            refused = True
        return {"e": "cycle", "to": to, "refused": refused}
    if k < 0.9:
        class Valid(HasValidity):
            def __init__(self, c):
                self.c = c

            def is_valid(self, s):
                return s.standard_rate_sm3_per_day <= self.c
        n = rng.randint(1, 4)
        cap = [rng.randint(2, 10) * 1000.5 for _ in range(n)]
        ways, dist = [], []
        for _ in range(rng.randint(1, 5)):
            hard = rng.choice([7, 9, 12])
            if rng.random() < 0.5:
                rates = [rng.randint(0, hard) * 1000.0 for _ in range(n)]
                dist.append(IndividualStreamDistribution([gas(rng, r) for r in rates]))
            else:
                o = [F(rng.randint(0, hard) * 1000) for _ in range(n)]
                dist.append(make(rng, o, [F(rng.randint(1, 9) * 1000) for _ in range(n)], forest(rng, n), sum(o) or F(1000))[0])
            ways.append([s.standard_rate_sm3_per_day for s in dist[-1].get_streams()])
        d = PrioritiesStreamDistribution(dist, [Valid(c) for c in cap])
        out = d.get_streams()
        return {"e": "choose", "cap": qs(cap), "ways": [qs(w) for w in ways], "out": qs([s.standard_rate_sm3_per_day for s in out]), "n": d.get_number_of_streams()}
    ss = [gas(rng, o) for o in own]
    d = IndividualStreamDistribution(ss)
    out = d.get_streams()
    return {"e": "each", "ways": qs([s.standard_rate_sm3_per_day for s in ss]), "out": qs([s.standard_rate_sm3_per_day for s in out]), "n": d.get_number_of_streams()}


def _random(job):
    seed, n = job
    rng = random.Random(seed)
    return guard(lambda: [one(rng) for _ in range(n)])


def corrupt(e, rng):
    c = copy.deepcopy(e)
    if c["e"] == "cycle":
        c["refused"] = not c["refused"]
        return c
    k = rng.choice(["out", "out", "n"] + (["same", "again"] if c["e"] == "share" else []))
    if k == "n":
        c["n"] += 1
    elif k == "same":
        c["same"] = False
    else:
        i = rng.randrange(len(c[k]))
        c[k][i] = q(F(c[k][i]) * F(1000001, 1000000) + F(1, 1000))
    return c


def check(chk, n, m, canaries=60):
    preload()
    from .fluids import tagged
    cases = tagged(chk.model("DistributionModel", "DistributionGen")["output"], "CASE ")
    cases = [json.loads(s) for s in sorted({json.dumps(c, sort_keys=True) for c in cases})]
    chk.model("DistributionModel", thorough_cfg="DistributionDeep")
    chk.notes["behaviours_replayed"] = len(cases[:n]) if n else len(cases)
    chk.rng.shuffle(cases)
    cases = cases[:n] if n else cases
    jobs = [(chk.rng.getrandbits(48), cases[i:i + 60]) for i in range(0, len(cases), 60)]
    es = [e for r in pool_map(_scaled, jobs) for e in r]
    es += [e for r in pool_map(_random, [(chk.rng.getrandbits(48), 25) for _ in range(m)]) for e in r]
    good = [e for e in es if "crash" not in e]
    for e in es:
        if "crash" in e:
            chk.violations.append({"spec": "DistributionTrace", "clauses": ["a distribution could not be made"], "event": e})
    if good:
        chk.validate("DistributionTrace", good, chk.spoiled(good, corrupt, canaries))
