"""A thermodynamic engine standing in for NeqSim, at the level of the Java gateway.

The program talks to it as to NeqSim: the wrapper, its caches and everything above run as they are.  Its physics is
simple and known to the specification (Fluid.tla): constant heat capacities, a compressibility per equation of state, and
water condensing out where there is more of it than the pressure and temperature let the gas carry.  Objects of an
engine that was shut down fail, as those of a dead Java process do."""
import contextlib

NAMES = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i-butane", "n-butane", "i-pentane", "n-pentane", "n-hexane"]
MASS = dict(zip(NAMES, [0.01801534, 0.02801340, 0.04400995, 0.01604246, 0.03006904, 0.04409562, 0.05812220, 0.05812220,
                        0.07214878, 0.07214878, 0.08617536]))
CP = dict(zip(NAMES, [34.0, 29.0, 37.0, 36.0, 53.0, 74.0, 97.0, 99.0, 119.0, 120.0, 143.0]))
R = 8.3144621
#        z at zero pressure, its fall per bar, enthalpy offset J/mol, enthalpy per bar J/mol
EOS = {"SRK": (1.0, 0.0, 0.0, 0.0), "PR": (0.9375, 0.00048828125, 1000.0, -2.0)}
KAPPA = {"SRK": 0.0, "PR": 0.03125}    # heat capacity per bar, as far as the heat capacity ratio goes
GERG = {"SRK": (0.875, 0.0, 2000.0, 0.0), "PR": (0.8125, 0.0, 3000.0, 0.0)}


def capacity(t, p):
    """the highest mole fraction of water the gas carries"""
    return min(1.0, max(0.001, (t - 270.0) / 1000.0) / p)


class Engine:
    def __init__(self):
        self.alive = True
        self.fault = None      # "raise": the next flash fails; "wrong": the next PH flash ends in the wrong state
        self.flashes = 0

    def use(self):
        if not self.alive:
            from py4j.protocol import Py4JNetworkError
            raise Py4JNetworkError("the Java process has ended")


class System:
    def __init__(self, engine, eos, t, p):
        self.e, self.eos, self.t, self.p = engine, eos, t, p
        self.x, self.moles, self.mixing, self.done = {}, None, None, None

    # -- as the program calls it --
    def addComponent(self, name, x):
        self.e.use()
        if name not in MASS:
            raise ValueError(name)
        self.x[name] = self.x.get(name, 0.0) + x

    def setTotalFlowRate(self, rate, unit):
        self.e.use()
        assert unit == "kg/hr"
        self.moles = rate / self.mm()

    def setMixingRule(self, n):
        self.e.use()
        self.mixing = n

    def clone(self):
        self.e.use()
        s = System(self.e, self.eos, self.t, self.p)
        s.x, s.moles, s.mixing, s.done = dict(self.x), self.moles, self.mixing, self.done
        return s

    def setPressure(self, p, unit):
        self.e.use()
        assert unit == "bara"
        self.p = p

    def setTemperature(self, t, unit):
        self.e.use()
        assert unit == "K"
        self.t = t

    def init(self, n):
        self.e.use()

    def initProperties(self):
        self.e.use()
        self.done = (self.t, self.p)

    def state(self):
        self.e.use()
        if self.done is None:
            from py4j.protocol import Py4JError
            raise Py4JError("properties asked for before they were calculated")
        return self.done

    def getTemperature(self, unit):
        self.e.use()
        assert unit == "K"
        return self.t

    def getPressure(self, unit):
        self.e.use()
        assert unit == "bara"
        return self.p

    def getMolarMass(self):
        self.e.use()
        return self.mm()

    def getTotalNumberOfMoles(self):
        self.e.use()
        return self.moles

    def getMolarComposition(self):
        self.e.use()
        return list(self.fr().values())

    def getComponentNames(self):
        self.e.use()
        return list(self.fr())

    def getZ(self):
        return self.zz(EOS, self.state()[1])

    def getDensity(self, unit):
        assert unit == "kg/m3"
        t, p = self.state()
        v = self.gas_fraction(t, p)
        return 1e5 * p * self.mm() / (self.zz(EOS, p) * R * t * v)

    def getEnthalpy(self, unit):
        assert unit == "J/kg"
        t, p = self.state()
        return self.h(EOS, 0.0, t, p) / self.mm()

    def getGamma2(self):
        c = self.cp() + KAPPA[self.eos] * self.state()[1]
        return c / (c - R)

    def hasPhaseType(self, kind):
        t, p = self.state()
        return kind == "gas"

    def getPhaseNumberOfPhase(self, kind):
        assert kind == "gas"
        return 0

    def getMoleFraction(self, n):
        assert n == 0
        return self.gas_fraction(*self.state())

    def phaseToSystem(self, kind):
        assert kind == "gas"
        t, p = self.state()
        s = self.clone()
        s.x = self.gas(t, p)
        s.moles = self.moles * self.gas_fraction(t, p)
        s.done = None
        return s

    def getPhase(self, n):
        assert n == 0
        t, p = self.state()
        s = self.clone()
        s.x = self.gas(t, p)
        return s

    def getProperties_GERG2008(self):
        t, p = self.state()
        out = [0.0] * 15
        out[1] = self.zz(GERG, p)
        out[7] = self.h(GERG, 1.0, t, p)
        out[10] = self.cp() + 1.0
        return out

    def getDensity_GERG2008(self):
        t, p = self.state()
        return 1e5 * p * self.mm() / (self.zz(GERG, p) * R * t)

    # -- its physics --
    def fr(self):
        total = sum(self.x.values())
        return {k: v / total for k, v in self.x.items()}

    def mm(self):
        return sum(v * MASS[k] for k, v in self.fr().items())

    def cp(self):
        return sum(v * CP[k] for k, v in self.fr().items())

    def zz(self, table, p):
        z0, fall, _, _ = table[self.eos]
        return max(0.25, z0 - fall * p)

    def h(self, table, extra, t, p):
        _, _, off, per = table[self.eos]
        return (self.cp() + extra) * t + off + per * p

    def t_of(self, table, extra, h, p):
        _, _, off, per = table[self.eos]
        return (h - off - per * p) / (self.cp() + extra)

    def gas_fraction(self, t, p):
        w, y = self.fr().get("water", 0.0), capacity(t, p)
        return 1.0 if w <= y else (1.0 - w) / (1.0 - y)

    def gas(self, t, p):
        w, y, f = self.fr().get("water", 0.0), capacity(t, p), self.fr()
        if w <= y:
            return f
        return {k: (y if k == "water" else v * (1.0 - y) / (1.0 - w)) for k, v in f.items()}


class Operations:
    def __init__(self, system):
        self.s = system

    def begin(self):
        e = self.s.e
        e.use()
        e.flashes += 1
        if self.s.mixing != 2 or not self.s.x or self.s.p <= 0:
            from py4j.protocol import Py4JError
            raise Py4JError("a system that is not set up was flashed")
        if e.fault == "raise":
            e.fault = None
            from py4j.protocol import Py4JError
            raise Py4JError("flash failed")
        return e.fault

    def TPflash(self):
        self.begin()
        if self.s.t <= 0:
            from py4j.protocol import Py4JError
            raise Py4JError("flash failed")

    def PHflash(self, h, unit):
        assert unit == "J/kg"
        fault = self.begin()
        self.s.t = self.s.t_of(EOS, 0.0, h * self.s.mm(), self.s.p) + (40.0 if fault == "wrong" else 0.0)

    def PHflashGERG2008(self, h):
        fault = self.begin()
        self.s.t = self.s.t_of(GERG, 1.0, h / self.s.moles, self.s.p) + (40.0 if fault == "wrong" else 0.0)


class Space:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Gateway:
    """what py4j's JavaGateway.launch_gateway returns"""
    running = []
    options = []

    def __init__(self):
        e = self.engine = Engine()
        self.java_process = Space(pid=1)
        self.gateway_parameters = Space(port=1)
        self.jvm = Space(neqsim=Space(
            thermo=Space(system=Space(SystemSrkEos=lambda t, p: (e.use(), System(e, "SRK", t, p))[1],
                                      SystemPrEos=lambda t, p: (e.use(), System(e, "PR", t, p))[1])),
            thermodynamicoperations=Space(ThermodynamicOperations=lambda s: (e.use(), Operations(s))[1])))

    @classmethod
    def launch_gateway(cls, *a, **k):
        g = cls()
        cls.running.append(g)
        cls.options.append(k)
        return g

    def shutdown(self, *a, **k):
        self.engine.alive = False
        if self in Gateway.running:
            Gateway.running.remove(self)


@contextlib.contextmanager
def engine():
    """py4j starts the stand-in instead of a Java process"""
    import py4j.java_gateway as jg
    real = jg.JavaGateway.launch_gateway
    Gateway.running, Gateway.options = [], []
    jg.JavaGateway.launch_gateway = Gateway.launch_gateway
    try:
        yield Gateway
    finally:
        jg.JavaGateway.launch_gateway = real
