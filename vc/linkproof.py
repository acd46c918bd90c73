"""F03 part 2: contracts of the linking functions, for arbitrary names.  The functions' real bodies run on opaque names (vc/opaque.py); every case of
the questions they ask is executed and compared with the contract.  Lists are enumerated up to two entries (stated in the evidence)."""
import time, types, inspect, sys, warnings
import openmdao.api as om
from . import configs, opaque
from .opaque import Name, atom, uf, AnyOf, Stop
from .unit import Result

def fake(cls, **attrs):
    o = object.__new__(cls)
    for k, v in attrs.items(): object.__setattr__(o, k, v)
    return o
class Prom:
    """the promoted names of a group: arbitrary, except that a variable keeps its system's prefix or loses it completely"""
    def __init__(self, io, maybe_missing=(), prefix=()): self.io = io; self.mm = maybe_missing; self.prefix = prefix; self.alias = {}
    def _get(self, a):
        a = Name(a)
        for n in self.mm:
            if n.ps == a.ps and opaque.CASES.ask(("missing", self.io, repr(a))): raise KeyError(repr(a))
        for owner, full in self.prefix:
            if full.ps == a.ps:
                if opaque.CASES.ask(("keeps prefix", repr(a))): return owner + "." + uf("rel", a)
                return Name(("free", repr(a)))
        return uf("prom_" + self.io, a)
    def __getitem__(self, a): return [self._get(a)]
    def get(self, a, d=None):
        try: return self[a]
        except KeyError: return d
    def __contains__(self, a):
        try: self._get(a); return True
        except KeyError: return False
class Resolver:
    def __init__(self, i, o): self._abs2prom = {"input": i, "output": o}
    def abs2prom(self, a, io=None): return self._abs2prom[io][a][0]

def same_calls(got, want):
    """the same calls, each once, in any order"""
    if len(got) != len(want): return False
    left = list(want)
    for g in got:
        for n, w in enumerate(left):
            if all(bool(x == y) for x, y in zip(g, w)): left.pop(n); break
        else: return False
    return not left

# ---- TrajectoryGroup._link_phases
def link_case(n1, n2, nested):
    TG = configs.find("TrajectoryGroup")
    def run():
        calls = []
        ph = [types.SimpleNamespace(name=atom("phase%d" % i)) for i in (1, 2)]
        # a state path is the system path and the state's name; start and end names are the integrator's choice
        for i, n in ((0, n1), (1, n2)): ph[i]._oc_states_list = [tuple(atom("%s%d_%d" % (w, i + 1, j)) for w in ("state", "start", "end")) for j in range(n)]
        pre = (atom("path") + ".") if nested else Name()
        ab = lambda i, x: pre + ph[i].name + "." + x
        skip = AnyOf("states_to_skip")
        hist = [ab(0, t[0]) for t in ph[0]._oc_states_list]
        outp = Prom("output", maybe_missing=hist, prefix=[(ph[0].name, h) for h in hist])
        inp = Prom("input", maybe_missing=[ab(1, t[1]) for t in ph[1]._oc_states_list])
        tg = fake(TG, pathname=atom("path") if nested else "", name=atom("path") if nested else "", _setup_var_data=lambda: None, _resolver=Resolver(inp, outp), connect=lambda a, b, **k: calls.append((a, b)))
        TG._link_phases(tg, ph[0], ph[1], skip)
        want = []
        for t in ph[0]._oc_states_list:
            u = [u for u in ph[1]._oc_states_list if t[0] == u[0]]
            if not u: continue
            try: tgt = inp[ab(1, u[0][1])][0]
            except KeyError: continue
            try: p = outp[ab(0, t[0])][0]; rel = opaque.strip(p, ph[0].name + "."); rel = p if rel is None else rel
            except KeyError: rel = t[0]
            if t[0] in skip or rel in skip: continue
            want.append((outp[ab(0, t[2])][0], tgt))
        return same_calls(calls, want), "connections made %r, contract %r" % (calls, want)
    run.given = opaque.different(*[atom("state1_%d" % j) for j in range(n1)]) + opaque.different(*[atom("state2_%d" % j) for j in range(n2)])      # the states of a phase have different paths
    return run
# ---- find_integrators_in_model
def find_group(n, top, nested_kind):
    mod = sys.modules[configs.find("TrajectoryGroup").__module__]
    def run():
        real = mod.find_integrators_in_model; calls = []
        subs = [types.SimpleNamespace(name=atom("sub%d" % i)) for i in range(n)]
        g = fake(configs.find("PhaseGroup") if nested_kind else om.Group, _subsystems_allprocs=_D([(atom("sub%d" % i), (s, i)) for i, s in enumerate(subs)]), name=atom("g"))
        tv, st = [], []; ns = "" if top else atom("ns")
        mod.find_integrators_in_model = lambda *a: calls.append(a)          # a caller is checked against the callee's contract, not its body
        try: real(g, ns, tv, st, "duration")
        finally: mod.find_integrators_in_model = real
        want = [(s, (Name(s.name) if top else ns + "." + s.name), tv, st, "duration") for s in subs]
        ok = len(calls) == len(want) and all(a[0] is b[0] and bool(Name(a[1]) == b[1]) and a[2] is b[2] and a[3] is b[3] and a[4] == "duration" for a, b in zip(calls, want)) and not tv and not st
        return ok, "visits %r" % [(c[0].name, c[1]) for c in calls]
    return run
def find_integ(nin, nst):
    mod = sys.modules[configs.find("TrajectoryGroup").__module__]; I = configs.find("Integrator")
    def run():
        ins = [atom("in%d" % i) for i in range(nin)] + ["duration"]
        sv = [(atom("s%d" % i), dict(name=atom("s%d" % i), start_name=atom("a%d" % i), end_name=atom("e%d" % i))) for i in range(nst)]
        s = fake(I, _var_rel_names={"input": ins, "output": []}, _state_vars=_D(sv), name=atom("integ"))
        tv, st = [], []; ns = atom("ns")
        mod.find_integrators_in_model(s, ns, tv, st, "duration")
        wt = [ns + "." + i for i in ins if i == "duration"]
        ws = [tuple(ns + "." + o[k] for k in ("name", "start_name", "end_name")) for _, o in sv]
        return [repr(Name(x)) for x in tv] == [repr(x) for x in wt] and [tuple(repr(Name(x)) for x in t) for t in st] == [tuple(repr(x) for x in t) for t in ws], "times %r states %r" % (tv, st)
    return run
class _D(dict):
    """a dictionary keyed by distinct opaque names (looked up by identity of the name)"""
    def __init__(self, l): self.l = list(l)
    def keys(self): return [k for k, _ in self.l]
    def values(self): return [v for _, v in self.l]
    def items(self): return list(self.l)
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.l)
    def __getitem__(self, k):
        for a, v in self.l:
            if a.ps == k.ps: return v
        raise KeyError(k)
def find_other():
    mod = sys.modules[configs.find("TrajectoryGroup").__module__]
    def run():
        tv, st = [], []
        mod.find_integrators_in_model(fake(om.ExplicitComponent, name=atom("c"), _var_rel_names={"input": ["duration"], "output": []}), atom("ns"), tv, st, "duration")
        return not tv and not st, "a component that is no integrator contributes %r %r" % (tv, st)
    return run
# ---- PhaseGroup.configure
def phase_case(n, nested):
    PG = configs.find("PhaseGroup"); mod = sys.modules[PG.__module__]
    def run():
        real = mod.find_integrators_in_model; calls = []
        tvs = [atom("tv%d" % i) for i in range(n)]; sts = [tuple(atom("%s%d" % (w, i)) for w in "abc") for i in range(2)]
        def stub(system, ns, timevars, states, dur): timevars.extend(tvs); states.extend(sts); calls.append(("find", system, ns, dur))
        inp = Prom("input"); made = []
        pg = fake(PG, pathname=atom("path") if nested else "", name=atom("phase"), _setup_var_data=lambda: None, _resolver=Resolver(inp, Prom("output")), connect=lambda a, b, **k: made.append((a, b)), _oc_time_var_name="duration", _oc_num_nodes=3, _oc_states_list=None)
        mod.find_integrators_in_model = stub
        try: PG.configure(pg)
        finally: mod.find_integrators_in_model = real
        pre = (atom("path") + ".") if nested else Name()
        proms = []
        for t in tvs:
            p = inp[pre + t][0]
            if p == "duration": continue                          # promoted all the way: already the phase's duration
            if any(p == x for x in proms): continue               # promoted together: one connection
            proms.append(p)
        ok = same_calls(made, [("duration", p) for p in proms]) and len(calls) == 1 and calls[0][1] is pg and calls[0][2] == "" and calls[0][3] == "duration" and pg._oc_states_list == sts if True else False
        return ok, "connections %r, contract %r" % (made, proms)
    return run
# ---- TrajectoryGroup.link_phases / _configure
def order_case(n):
    TG = configs.find("TrajectoryGroup"); PG = configs.find("PhaseGroup")
    def run():
        tg = fake(TG, _oc_phases_to_link=[]); done = []
        args = [(fake(PG, name=atom("p%d" % i)), fake(PG, name=atom("q%d" % i)), AnyOf("skip%d" % i)) for i in range(n)]
        for a in args: TG.link_phases(tg, a[0], a[1], states_to_skip=a[2])
        base = TG.__mro__[1]; old = base._configure; tg._link_phases = lambda a, b, c=(): done.append((a, b, c))
        base._configure = lambda self: done.append("configured")
        try: TG._configure(tg)
        finally: base._configure = old
        return done[:1] == ["configured"] and len(done) == n + 1 and all(x[0] is y[0] and x[1] is y[1] and x[2] is y[2] for x, y in zip(done[1:], args)), "%r" % (done,)
    return run

def obligations():
    M = "openconcept.mission.mission_groups."
    for nested in (False, True):
        for n1 in range(3):
            for n2 in range(3): yield "_link_phases: exactly the common, not skipped states are connected, end to start [%d,%d states%s]" % (n1, n2, ", nested" if nested else ""), M + "TrajectoryGroup._link_phases", link_case(n1, n2, nested)
    for top in (True, False):
        for kind in (True, False):
            for n in range(3): yield "find_integrators_in_model: a group hands every child on with its own namespace [%d children%s%s]" % (n, ", top" if top else "", ", phase" if kind else ""), M + "find_integrators_in_model", find_group(n, top, kind)
    for a in range(3):
        for b in range(3): yield "find_integrators_in_model: an integrator reports all states and its duration [%d inputs, %d states]" % (a, b), M + "find_integrators_in_model", find_integ(a, b)
    yield "find_integrators_in_model: other components report nothing", M + "find_integrators_in_model", find_other()
    for nested in (False, True):
        for n in range(4): yield "PhaseGroup.configure: every integrator's duration is the phase's, once; states are kept [%d integrators%s]" % (n, ", nested" if nested else ""), M + "PhaseGroup.configure", phase_case(n, nested)
    for n in range(4): yield "link_phases/_configure: every requested link is made, with its own skip list [%d links]" % n, M + "TrajectoryGroup._configure", order_case(n)

def run(seed=1):
    t0 = time.time(); R = Result("linking functions on arbitrary names"); seen = set()
    R.bounded.append("lists of states, children and inputs enumerated up to 2 (3) entries; names are arbitrary")
    for lab, fn, r in obligations():
        if fn not in R.functions: R.functions.append(fn)
        try: out = opaque.explore(r, getattr(r, "given", ()))
        except Stop as e: R.notes.append("%s: outside the subset: %s" % (lab, e)); continue
        R.cases += len(out)
        bad = [(f, x) for f, x in out if isinstance(x, Exception) or x[0] is False]
        exc = [x for _, x in bad if isinstance(x, Exception)]
        if not bad: R.count("proved: case enumeration")
        else:
            R.count("unconfirmed"); f, x = bad[0]
            R.undecided.append(dict(label=lab, detail="in the case %s: %s" % (f, repr(x) if isinstance(x, Exception) else x[1])[:600]))
    R.t = time.time() - t0
    return R
