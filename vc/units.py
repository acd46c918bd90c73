"""property -> verification units (name, callable(seed) -> Result)"""
import functools
from . import configs, unit

def _d(i, prop, seed): return unit.run_deriv(configs.cfgs_for(prop)[i], seed)
def _db(i, prop, seed): return unit.only_bounded(configs.cfgs_for(prop)[i], seed)
def _cs(i, prop, seed): return unit.run_cs(configs.cfgs_for(prop)[i], seed)

def units(prop, tier="quick"):
    """-> list of (name, fn, fallback fn)"""
    out = []
    if prop in ("D01", "D02", "D03", "D04", "D05"):
        for i, c in enumerate(configs.cfgs_for(prop)): out.append((c.name, functools.partial(_d, i, prop), functools.partial(_db, i, prop)))
    elif prop == "D06":
        for a in ("D01", "D02", "D03", "D04", "D05"):
            for i, c in enumerate(configs.cfgs_for(a)):
                if unit.uses_cs(c): out.append((c.name, functools.partial(_cs, i, a), functools.partial(_db, i, a)))
    else:
        out, missing = contract_units(prop)
        for name, fn in CUSTOM.get(prop, lambda: [])(): out.append((name, fn, None))
    return out
def _f03():
    from . import link, linkproof
    return [("mission:" + k[0], functools.partial(_link, n)) for n, k in enumerate(link.units())] + [("linking functions", linkproof.run)]
def _link(n, seed):
    from . import link
    return link.run(link.units()[n], seed)
def _u03():
    from . import dictvar
    return [("dictionary-driven sources", dictvar.run)]
CUSTOM = {"F03": _f03, "U03": _u03}

def _load():
    from . import contract
    import importlib, pkgutil
    from . import specs
    for m in pkgutil.iter_modules(specs.__path__): importlib.import_module("vc.specs." + m.name)
    return contract.CONTRACTS
def contract_targets(ct):
    """-> list of (cfg, make_runner, modes)"""
    from .group import GCfg, GroupRunner
    cls = configs.find(ct.cls) if isinstance(ct.cls, str) else ct.cls
    if cls is None: return None
    modes = ct.kw.get("modes")
    if "group" in ct.kw:
        out = []
        for g in ct.kw["group"]:
            g = dict(g); m = g.pop("modes", None) or modes
            c = GCfg(cls, **g); out.append((c, (lambda mode, c=c: GroupRunner(c, mode)), m or ["sym", 1]))
        return out
    if "runner" in ct.kw: return ct.kw["runner"](cls)
    cfgs = ct.kw.get("cfgs")
    if cfgs is not None: cfgs = [f(cls) for f in cfgs]
    else: cfgs = configs.cfgs_of(cls)
    out = []
    for c in cfgs:
        c.dom.update(ct.kw.get("dom", {})); configs.apply_domains(c)
        out.append((c, None, modes or c.modes))
    return out
def _ct(prop, n, i, seed):
    from . import contract
    ct = _load()[prop][n]; cfg, mk, modes = contract_targets(ct)[i]
    return contract.run_contract(cfg, ct.body, ct.label, seed, modes, mk, ct.kw.get("batch", False), ct.kw.get("bounded"))
def _ctb(prop, n, i, seed):
    from . import contract
    ct = _load()[prop][n]; cfg, mk, modes = contract_targets(ct)[i]
    R = unit.Result(cfg.name); m = [m for m in (modes or [3]) if m != "sym"] or [3]
    runner = (mk or (lambda m: unit.Runner(cfg, m)))(m[0])
    contract.bounded_contract(R, runner, ct.body, ct.label, seed, 12)
    return R
def contract_units(prop):
    out = []; missing = []
    seen = {}
    for n, ct in enumerate(_load().get(prop, [])):
        ts = contract_targets(ct)
        if ts is None: missing.append(ct.cls); continue
        for i, (cfg, mk, modes) in enumerate(ts):
            name = "%s:%s" % (ct.label, cfg.name); seen[name] = seen.get(name, 0) + 1
            if seen[name] > 1: name += "#%d" % seen[name]
            out.append((name, functools.partial(_ct, prop, n, i), functools.partial(_ctb, prop, n, i)))
    return out, missing
