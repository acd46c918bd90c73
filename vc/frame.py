"""Frame condition of the executed functions: a call leaves nothing behind that a later call could see.  The state a component can reach - its own attributes
and options, the attributes of its classes, module-level values and mutable default arguments of the repository - is compared before and after
the call.  When nothing was written, what is proved about one call holds, by induction, for every call of every history.  When something
was written, the unit is executed again with an arbitrary earlier call (other inputs) in front of the call the obligations are about."""
import sys, types, numpy as np
from .terms import Term
import openmdao.api as om

BASE = None
def base():
    global BASE
    if BASE is None: BASE = {n for c in (om.ExplicitComponent, om.ImplicitComponent) for n in c().__dict__}
    return BASE
PLAIN = (int, float, complex, str, bytes, bool, type(None))
def snap(x, keep, depth=0):
    if isinstance(x, Term): return ("t", x.id)
    if isinstance(x, PLAIN): return x if x == x else "nan"
    if depth > 6: return id(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object: return ("o", x.shape, tuple(snap(v, keep, depth + 1) for v in x.view(np.ndarray).ravel().tolist()))
        return ("a", x.shape, x.tobytes())
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, dict): return ("d", tuple((snap(k, keep, depth + 1), snap(v, keep, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)): return ("l", tuple(snap(v, keep, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)): return ("s", tuple(sorted(map(repr, x))))
    if type(x).__module__.startswith("scipy.sparse") and hasattr(x, "indptr"): return ("m", snap(np.asarray(x.data), keep, depth + 1), x.indptr.tobytes(), x.indices.tobytes())
    keep.append(x)
    if type(x).__module__.startswith("openconcept") and not isinstance(x, type) and hasattr(x, "__dict__"): return ("i", id(x), snap({k: v for k, v in x.__dict__.items() if not k.startswith("_vc")}, keep, depth + 1))
    return id(x)
SKIPT = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, property, classmethod, staticmethod, types.MethodType)
def own(): return [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] == "openconcept" and ".tests" not in n and ".examples" not in n]
CONST = {}
def shared():
    """module-level values and mutable default arguments that could carry something from one call to the next"""
    out = {}
    for m in own():
        for n, v in list(vars(m).items()):
            if n.startswith("__"): continue
            if type(v).__name__ == "_lru_cache_wrapper": out[m.__name__, n + ".cache"] = v.cache_info().currsize; continue
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                d = [x for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) if isinstance(x, (list, dict, set, np.ndarray))]
                if d: out[m.__name__, n + "()"] = d
                if v.__dict__: out[m.__name__, n + ".*"] = {k: x for k, x in v.__dict__.items() if not k.startswith("_vc") and not isinstance(x, SKIPT)}
            elif not isinstance(v, SKIPT) and isinstance(v, PLAIN + (list, dict, set, tuple, np.ndarray)): out[m.__name__, n] = v
    return out
def classes_(cls):
    d = {}
    for k in cls.__mro__:
        if k.__module__.startswith("openconcept"):
            for n, v in vars(k).items():
                if isinstance(v, types.FunctionType):
                    df = [x for x in v.__defaults__ or () if isinstance(x, (list, dict, set, np.ndarray))]
                    if df: d["%s.%s()" % (k.__name__, n)] = df
                elif type(v).__name__ == "_lru_cache_wrapper": d["%s.%s.cache" % (k.__name__, n)] = v.cache_info().currsize
                elif not n.startswith("__") and not n.startswith("_vc") and not isinstance(v, SKIPT): d["%s.%s" % (k.__name__, n)] = v
    return d
def common(cls):
    """what instances of a class share"""
    keep = []; d = classes_(cls)
    for (m, n), v in shared().items(): d["%s.%s" % (m, n)] = v
    return {n: snap(v, keep) for n, v in d.items()}, keep
def state(c, wide):
    """everything of the repository a method of the component c can reach"""
    keep = []; d = classes_(type(c))
    for n, v in c.__dict__.items():
        if n not in base() and not n.startswith("_vc"): d["self." + n] = v
    o = {k: m["val"] for k, m in c.options._dict.items() if "val" in m}
    for n, v in o.items(): d["self.options[%r]" % n] = v
    if wide:
        for (m, n), v in shared().items(): d["%s.%s" % (m, n)] = v
    return {n: snap(v, keep) for n, v in d.items()}, keep
def written(a, b): return sorted(n for n in set(a[0]) | set(b[0]) if a[0].get(n, a) != b[0].get(n, b))

SAVED = {}
def save(cls):
    """remember what instances of a class share as it is before anything of it has run"""
    import copy
    def keep(v):
        try: return copy.deepcopy(v) if isinstance(v, (list, dict, set, np.ndarray)) else v
        except Exception: return v
    if None not in SAVED:
        SAVED[None] = [(m, n, v, keep(v)) for m in own() for n, v in list(vars(m).items()) if not n.startswith("__") and not isinstance(v, SKIPT)]
        SAVED[()] = {m.__name__: set(vars(m)) for m in own()}
        SAVED[1] = [(x, keep(x)) for m in own() for f in vars(m).values() if isinstance(f, types.FunctionType) and f.__module__ == m.__name__
                    for x in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()) if isinstance(x, (list, dict, set, np.ndarray))]
        SAVED[2] = {f: set(f.__dict__) for m in own() for f in vars(m).values() if isinstance(f, types.FunctionType)}
    for k in cls.__mro__:
        if k.__module__.startswith("openconcept") and k not in SAVED:
            SAVED[k] = [(n, v, keep(v)) for n, v in vars(k).items() if not n.startswith("__") and not isinstance(v, SKIPT)]
            SAVED[1] += [(x, keep(x)) for f in vars(k).values() if isinstance(f, types.FunctionType) for x in f.__defaults__ or () if isinstance(x, (list, dict, set, np.ndarray))]
def back(v, w):
    import copy
    if isinstance(v, dict): v.clear(); v.update(copy.deepcopy(w))
    elif isinstance(v, list): v[:] = copy.deepcopy(w)
    elif isinstance(v, set): v.clear(); v.update(w)
    elif isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable: v[...] = w
def restore(cls):
    """the shared state of a fresh interpreter"""
    for v, w in SAVED[1]: back(v, w)
    for f, had in SAVED[2].items():
        for n in set(f.__dict__) - had:
            if not n.startswith("_vc"): delattr(f, n)
    for m in own():
        for n, v in list(vars(m).items()):
            if type(v).__name__ == "_lru_cache_wrapper": v.cache_clear()
            elif n not in SAVED[()].get(m.__name__, vars(m)) and isinstance(v, PLAIN + (list, dict, set, np.ndarray)): delattr(m, n)
    for m, n, v, w in SAVED[None]:
        if type(v).__name__ == "_lru_cache_wrapper": continue
        if isinstance(v, (list, dict, set, np.ndarray)): back(v, w)
        if vars(m).get(n) is not v and isinstance(v, PLAIN + (list, dict, set, np.ndarray)): setattr(m, n, v)
    for k in cls.__mro__:
        if k not in SAVED: continue
        had = {n for n, v, w in SAVED[k]}
        for n, v in list(vars(k).items()):
            if type(v).__name__ == "_lru_cache_wrapper": v.cache_clear()
            elif not n.startswith("__") and not n.startswith("_vc") and not isinstance(v, SKIPT) and n not in had: delattr(k, n)
        for n, v, w in SAVED[k]:
            if type(v).__name__ == "_lru_cache_wrapper": continue
            if isinstance(v, (list, dict, set, np.ndarray)): back(v, w)
            if vars(k).get(n) is not v: setattr(k, n, v)
