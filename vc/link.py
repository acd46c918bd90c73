"""F03: the connection table of assembled missions.
Part 1 (bounded in the aircraft models): every mission profile and option set is assembled by the repository's own set-up and configure code around
generated aircraft models; each state's start is traced through OpenMDAO's resolved connection table.
Part 2 (proof): the linking functions themselves executed on opaque names (specs/mission.py)."""
import warnings, traceback, time
import openmdao.api as om
from . import configs
from .unit import Result
from .contract import conv

# ------------------------------------------------------------------ generated aircraft models
class Rate(om.ExplicitComponent):
    """outputs of a given list of (name, units, tags), no inputs of interest"""
    def initialize(self): self.options.declare("num_nodes", default=1); self.options.declare("outs", default=())
    def setup(self):
        nn = self.options["num_nodes"]; self.add_input("throttle", shape=(nn,))
        for n, u, t in self.options["outs"]: self.add_output(n, shape=(nn,), units=u, tags=list(t))
def tag(name, units=None, val=None, promotes=None):
    t = ["integrate", "state_name:" + name]
    if units: t.append("state_units:" + units)
    if val is not None: t.append("state_val:%r" % val)
    if promotes is not None: t.append("state_promotes:%r" % promotes)
    return t
def rate_units(units, tu): return None if units is None else "(%s)/(%s)" % (units, tu)

class Spec:
    """a node of the model: kind 'comp' (tagged rates), 'integ' (a plain Integrator), 'group' / 'igroup' (children)"""
    def __init__(self, kind, name, items=(), promotes=("*",), time_units="s", only=None): self.kind = kind; self.name = name; self.items = items; self.promotes = promotes; self.time_units = time_units; self.only = only
def comp(name, *states, **k): return Spec("comp", name, states, **k)
def integ(name, *states, **k): return Spec("integ", name, states, **k)
def igroup(name, *items, **k): return Spec("igroup", name, items, **k)
def group(name, *items, **k): return Spec("group", name, items, **k)

def fill(g, items, nn, phase, tu, Integrator, IG):
    for s in items:
        if s.only is not None and phase not in s.only: continue
        pr = dict(promotes=list(s.promotes)) if s.promotes else {}
        if s.kind == "comp":
            g.add_subsystem(s.name, Rate(num_nodes=nn, outs=[(st["rate"], rate_units(st.get("units"), tu), tag(st["name"], st.get("units"), st.get("val"), st.get("promotes"))) for st in s.items]), **pr)
        elif s.kind == "integ":
            c = g.add_subsystem(s.name, Integrator(num_nodes=nn, method="simpson", diff_units=s.time_units, time_setup="duration"), **pr)
            for st in s.items: c.add_integrand(st["name"], **{k: v for k, v in st.items() if k != "name"})
        elif s.kind == "group":
            c = g.add_subsystem(s.name, om.Group(), **pr); fill(c, s.items, nn, phase, tu, Integrator, IG)
        else:
            c = g.add_subsystem(s.name, IG(num_nodes=nn, time_units=s.time_units), **pr); fill(c, s.items, nn, phase, s.time_units, Integrator, IG)
def model_class(spec):
    Integrator = configs.find("Integrator"); IG = configs.find("IntegratorGroup")
    base = IG if spec.kind == "igroup" else om.Group
    class Aircraft(base):
        def __init__(self, **kw):
            if spec.kind == "igroup": kw["time_units"] = spec.time_units
            super().__init__(**kw)
        def initialize(self):
            if spec.kind == "igroup": super().initialize()
            else: self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)
        def setup(self):
            nn = self.options["num_nodes"]; ph = self.options["flight_phase"]
            self.add_subsystem("forces", Rate(num_nodes=nn, outs=[("thrust", "N", ()), ("drag", "N", ()), ("weight", "kg", ())]), promotes=["*"])
            fill(self, spec.items, nn, ph, spec.time_units, Integrator, IG)
    return Aircraft
S = dict
MODELS = {
 "no states": group("m"),
 "one state": igroup("m", comp("eng", S(name="fuel_used", rate="fuel_flow", units="kg", val=1.0))),
 "promoted states": igroup("m", comp("eng", S(name="fuel_used", rate="fuel_flow", units="lbm", val=0.0, promotes=True), S(name="climbrate", rate="cr", units="m", promotes=True)), comp("batt", S(name="SOC", rate="dSOC", val=1.0, promotes=True), S(name="T_batt", rate="dT", units="degK", val=300.0, promotes=True)), time_units="min"),
 "states of nested groups": group("m", igroup("left", comp("eng", S(name="fuel_used", rate="ff", units="kg")), promotes=()), igroup("right", comp("eng", S(name="fuel_used", rate="ff", units="g", promotes=True)), promotes=()), group("deep", group("climb", igroup("sys", comp("x", S(name="T", rate="dT", units="degK")), promotes=()), promotes=()), promotes=())),
 "own integrators": group("m", integ("tank", S(name="W", rate_name="mdot", units="kg", start_name="W_at_start", end_name="W_at_end"), S(name="Q", rate_units="kW"), S(name="Z", units="m", zero_start=True), promotes=()), group("sub", integ("heat", S(name="E", units="MJ", final_only=True), promotes=("E_final", "E_initial")), promotes=())),
 "start names of their own": group("m", integ("tank", S(name="W", rate_name="mdot", units="kg", start_name="W_a", end_name="W_b"), promotes=(), only=("v0v1", "v1vr", "cruise", "reserve_climb", "reserve_descent")), integ("tank", S(name="W", rate_name="mdot", units="kg"), promotes=(), only=("rotate", "v1v0", "climb", "descent", "reserve_cruise", "loiter"))),
 "states of some phases": igroup("m", comp("eng", S(name="fuel_used", rate="ff", units="kg")), comp("apu", S(name="apu_fuel", rate="af", units="kg", promotes=True), only=("climb", "cruise", "v1vr", "rotate", "reserve_climb", "loiter", "reserve_descent")), comp("gear", S(name="brake_T", rate="dT", units="degK"), only=("v0v1", "v1v0", "descent", "reserve_climb"))),
}
PROFILES = [("FullMissionWithReserve", {"transition_method": "simplified"}), ("FullMissionWithReserve", {"transition_method": "ode"}), ("FullMissionAnalysis", {"transition_method": "simplified"}), ("FullMissionAnalysis", {"transition_method": "ode"}),
    ("MissionWithReserve", {}), ("BasicMission", {"include_ground_roll": False}), ("BasicMission", {"include_ground_roll": True})]
def sequence(name, opts):
    """(pairs of consecutive phases, first phases) of a profile"""
    main = ["climb", "cruise", "descent"]; pairs = []; take = name.startswith("Full"); res = name.endswith("WithReserve")
    if res: main += ["reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]
    if take: main = ["v0v1", "v1vr", "rotate"] + main; pairs.append(("v0v1", "v1v0"))
    if opts.get("include_ground_roll"): main = ["groundroll"] + main
    return list(zip(main, main[1:])) + pairs, main[0]

# ------------------------------------------------------------------ connection table
class Table:
    def __init__(self, p, base):
        self.m = p.model; self.base = base; self.conns = dict(p.model._conn_global_abs_in2out); self.parent = {}; self.cache = {}
        from .group import prommap
        self.prom = prommap(p.model)
        for s in p.model.system_iter(recurse=True, typ=om.BalanceComp):
            for n, o in s._state_vars.items():
                if o.get("use_mult"): continue
                l, r = (self.src(s.pathname + "." + o[x]) for x in ("lhs_name", "rhs_name"))
                if l and r: self.union(l, r)
    def src(self, a): return self.conns.get(a)
    def find(self, a):
        while a in self.parent: a = self.parent[a]
        return a
    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b: self.parent[a] = b
    def same(self, a, b): return a is not None and b is not None and self.find(a) == self.find(b)
    def rel(self, a, ph):
        """name of a variable as its phase promotes it"""
        if (a, ph) not in self.cache: self.cache[a, ph] = self._rel(a, ph)
        return self.cache[a, ph]
    def _rel(self, a, ph):
        s = self.m._get_subsystem(self.base + ph)
        if hasattr(s, "_resolver"):
            for io in ("input", "output"):
                try: return s._resolver.abs2prom(a, io)
                except Exception: pass
        for io in ("input", "output"):
            try: return s._var_allprocs_abs2prom[io][a]
            except Exception: pass
        return a[len(self.base + ph) + 1:]
    def states(self, ph, Integrator):
        """[(path, promoted name, start abs or None, end abs, units, integrator abs)] of a phase, from the integrators themselves"""
        g = self.m._get_subsystem(self.base + ph); out = []
        for s in g.system_iter(recurse=True, typ=Integrator):
            for n, o in s._state_vars.items():
                pre = s.pathname + "."
                nm = self.rel(pre + (n if not o["final_only"] else o["end_name"]), ph)
                if o["final_only"] and nm.endswith("_final"): nm = nm[:-6]
                out.append(dict(path=pre[len(self.base + ph) + 1:] + n, name=nm, start=None if o["zero_start"] else pre + o["start_name"], end=pre + o["end_name"], units=o["units"], integ=s.pathname))
        return out
    def meta(self, a):
        for io in ("input", "output"):
            if a in self.m._var_allprocs_abs2meta[io]: return self.m._var_allprocs_abs2meta[io][a]
    def named(self, ph, prom):
        """absolute variables of the phase with this promoted name -> inputs, outputs"""
        pre = self.base + ph + "."; ins = []; outs = []
        for io, l in (("input", ins), ("output", outs)):
            for a in self.m._var_allprocs_abs2meta[io]:
                if a.startswith(pre) and self.rel(a, ph) == prom: l.append(a)
        return ins, outs

def assemble(profile, opts, spec, nested, nn=3):
    cls = configs.find(profile) if isinstance(profile, str) else profile
    p = om.Problem(reports=False); top = p.model; base = ""
    if nested:
        top.add_subsystem("study", om.Group()); top = top.study; base = "study."
        t = top.add_subsystem("mission", cls(num_nodes=nn, aircraft_model=model_class(spec), **opts)); base += "mission."
    else: t = top.add_subsystem("mission", cls(num_nodes=nn, aircraft_model=model_class(spec), **opts), promotes=["*"]); base = "mission."
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); p.setup(force_alloc_complex=False, mode="fwd"); p.set_solver_print(-1); p.final_setup()
    return p, base

def check_mission(profile, opts, spec, nested):
    """-> [(claim, holds, detail)]"""
    Integrator = configs.find("Integrator")
    p, base = assemble(profile, opts, spec, nested); T = Table(p, base); out = []
    pairs, first = sequence(profile, opts)
    phases = [first] + [b for _, b in pairs]
    st = {ph: T.states(ph, Integrator) for ph in phases}
    def claim(label, ok, detail=""): out.append((label, bool(ok), detail))
    claim("the states of a phase are found", sum(len(s) for s in st.values()) >= 3)
    fed = set()
    for a, b in pairs:
        for s in st[b]:
            if s["start"] is None: continue
            src = T.src(s["start"])
            prev = [q["end"] for q in st[a] if q["path"] == s["path"]] or [q["end"] for q in st[a] if q["name"] == s["name"]]
            if not prev: prev = T.named(a, s["name"] + "_final")[1]       # phases without an integrator for the quantity (analytic transition)
            lab = "%s: %s starts where %s ends" % (b, s["name"], a); d = "%s is fed by %s" % (s["start"], src)
            if b == "loiter" and s["name"] == "fltcond|h": claim("loiter: starts at the given loiter altitude", src == base + "missionparams.loiter|h0", d)
            elif prev: fed.add((b, s["path"])); claim(lab, len(prev) == 1 and T.same(src, prev[0]), d + "; %s ends with %s" % (a, prev))
            else: claim("%s: %s, not a state of %s, starts from its own given value" % (b, s["name"], a), src is not None and src.startswith("_auto_ivc.") or src == base + "missionparams.takeoff|h" or s["name"] == "vel_q", d)
        # quantities of phases without an integrator for them: promoted start values
        if opts.get("transition_method") == "simplified" and b == "rotate":
            ins, _ = T.named(b, "range_initial"); end = [q["end"] for q in st[a] if q["name"] == "range"]
            claim("rotate: range starts where v1vr ends", ins and end and all(T.same(T.src(x), end[0]) for x in ins), str([T.src(x) for x in ins]))
        if b == "v1v0":
            end = [q["end"] for q in st[a] if q["name"] == "fltcond|Utrue"]; o = T.named(b, "fltcond|Utrue_initial")[1]
            claim("v1v0: the rejected take-off starts at the speed at which v0v1 ends", len(end) == 1 and len(o) == 1 and T.same(o[0], end[0]), str((o, end)))
    for s in st[first]:
        if s["start"] is None: continue
        src = T.src(s["start"]); d = "%s is fed by %s" % (s["start"], src)
        if first == "climb" and s["name"] == "fltcond|h": claim("climb: starts at the given take-off altitude", src == base + "missionparams.takeoff|h", d)
        elif s["name"] == "fltcond|Utrue": claim("%s: starts from a given speed" % first, src is not None, d)
        else: claim("%s: %s starts from its own given value" % (first, s["name"]), src is not None and src.startswith("_auto_ivc.") and len({t for t, x in T.conns.items() if x == src and t.startswith(base)}) == 1, d)
    for ph in phases:
        D = {T.src(a) for a in T.named(ph, "duration")[0]} | set(T.named(ph, "duration")[1])
        for s in st[ph]:
            u = s["units"]
            us = [T.meta(x)["units"] for x in (s["start"], s["end"]) if x]
            claim("%s: %s starts and ends in its own unit" % (ph, s["name"]), all(x == u or x and u and conv(x, u) == (1, 0) for x in us), "%s %s" % (u, us))
            t = T.src(s["integ"] + ".duration")
            claim("%s: %s is integrated over the phase's duration" % (ph, s["name"]), t is not None and D == {t}, "%s.duration is fed by %s; the phase's duration is %s" % (s["integ"], t, D))
    # tagged rates: one integrator state each, with the unit, bounds and rate asked for
    for s in p.model.system_iter(recurse=True, typ=Rate):
        for n, u, tags in s.options["outs"]:
            if "integrate" not in tags: continue
            kv = dict(t.split(":", 1) for t in tags if ":" in t); a = s.pathname + "." + n
            tgt = [x for x, y in T.conns.items() if y == a]
            integ_ = [x for x in tgt if isinstance(T.m._get_subsystem(x.rsplit(".", 1)[0]), Integrator)]
            ph = next((q for q in phases if s.pathname.startswith(base + q + ".")), None)
            if ph is None: continue
            ok = len(integ_) == 1; c = T.m._get_subsystem(integ_[0].rsplit(".", 1)[0]) if ok else None
            o = c._state_vars.get(kv["state_name"]) if ok else None
            claim("%s: the tagged rate %s feeds its state %s once" % (ph, n, kv["state_name"]), ok and o is not None and o["rate_name"] == integ_[0].rsplit(".", 1)[1], str(tgt))
            if o is None: continue
            claim("%s: %s has the unit asked for" % (ph, kv["state_name"]), o["units"] == kv.get("state_units"), "%s" % o["units"])
            if kv.get("state_promotes") == "True":
                pn = T.rel(c.pathname + "." + kv["state_name"], ph); par = c.pathname.rsplit(".", 1)[0]
                claim("%s: promoted state %s is visible in its group" % (ph, kv["state_name"]), _promoted(T, par, c.pathname + "." + kv["state_name"]) == kv["state_name"], pn)
    return out
def _promoted(T, path, a):
    s = T.m._get_subsystem(path)
    if hasattr(s, "_resolver"): return s._resolver.abs2prom(a, "output")
    return s._var_allprocs_abs2prom["output"][a]

# ------------------------------------------------------------------ user-made trajectories
CUSTOM = [[], ["fuel_used"], ["acmodel.ode_integ.fuel_used"], ["range"], ["ode_integ_phase.range", "fltcond|h"], ["acmodel.left.ode_integ.fuel_used"], ["Q", "acmodel.tank.W"]]
def custom_class(skips, order):
    TG = configs.find("TrajectoryGroup"); SFP = configs.find("SteadyFlightPhase")
    class Trajectory(TG):
        def initialize(self): self.options.declare("num_nodes", default=3); self.options.declare("aircraft_model", default=None)
        def setup(self):
            ph = [self.add_subsystem(n, SFP(num_nodes=self.options["num_nodes"], aircraft_model=self.options["aircraft_model"], flight_phase="climb")) for n in ("p", "p1", "p11")]
            for g in ph: g.add_subsystem("dt", om.IndepVarComp("duration", 100.0, units="s"), promotes=["*"])
            for i, j in order:
                if skips: self.link_phases(ph[i], ph[j], states_to_skip=list(skips))
                else: self.link_phases(ph[i], ph[j])
    return Trajectory
def check_custom(skips, order, spec, nested):
    Integrator = configs.find("Integrator"); names = ("p", "p1", "p11")
    p, base = assemble(custom_class(skips, order), {}, spec, nested); T = Table(p, base); out = []
    st = {ph: T.states(ph, Integrator) for ph in names}
    want = {}
    for i, j in order:
        for s in st[names[j]]:
            prev = [q for q in st[names[i]] if q["path"] == s["path"]]
            if prev and s["start"] and not (s["path"] in skips or s["name"] in skips): want[s["start"]] = prev[0]["end"]
    for ph in names:
        for s in st[ph]:
            if not s["start"]: continue
            src = T.src(s["start"]); w = want.get(s["start"])
            if w: out.append(("%s: a linked state starts where the linked phase ends" % s["name"], src == w, "%s is fed by %s, expected %s (skip %s)" % (s["start"], src, w, skips)))
            else: out.append(("%s: a state that is skipped or not linked keeps its given value" % s["name"], src is not None and src.startswith("_auto_ivc."), "%s is fed by %s (skip %s)" % (s["start"], src, skips)))
    return out

def run(kind, seed=1):
    """one unit of part 1"""
    t0 = time.time(); what, items = kind
    R = Result(what); R.functions += ["openconcept.mission.mission_groups.TrajectoryGroup", "openconcept.mission.mission_groups.PhaseGroup", "openconcept.mission.mission_groups.IntegratorGroup", "openconcept.mission.profiles"]
    R.bounded.append("connection table of the assembled mission for %d generated aircraft models" % len(MODELS)); n = 0; seen = set()
    for args in items:
        fn, a = args[0], args[1:]
        desc = [x if not isinstance(x, Spec) else next((k for k, v in MODELS.items() if v is x), "model") for x in a]
        try: res = fn(*a)
        except Exception as e:
            res = [("the mission can be assembled", False, "%r %s" % (e, traceback.format_exc()[-400:]))]
        for lab, ok, det in res:
            n += 1
            if ok or lab in seen: continue
            seen.add(lab)
            R.viol.append(dict(label="%s: %s" % (what, lab), key=[what, lab], replay=dict(mission=what, configuration=[str(x) for x in desc], claim=lab, observed=det, how="assemble this mission with openconcept.mission and look at the source OpenMDAO connects to the variable"), detail=det))
    R.count("bounded: connection table", n); R.cross = n; R.t = time.time() - t0
    return R
def units():
    out = []
    for name, opts in PROFILES:
        what = name + "".join("<%s>" % v for v in opts.values())
        for nested in (False, True):
            out.append((what + (" (nested)" if nested else ""), [(check_mission, name, opts, spec, nested) for spec in MODELS.values()]))
    orders = [[(0, 1), (1, 2)], [(1, 2), (0, 1)], [(2, 1), (1, 0)], [(0, 1), (0, 2)]]
    out.append(("user-made trajectory", [(check_custom, sk, orders[(i + j) % 4], spec, (i + j) % 2 == 0) for i, sk in enumerate(CUSTOM) for j, spec in enumerate(MODELS.values())]))
    return out
