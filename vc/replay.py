"""The real, unmodified component at concrete inputs: evaluation, its Jacobian, and independent numerical differentiation.
Used to replay the verifier's counterexamples, to validate the engine on every run, and as the bounded stand-in."""
import numpy as np, warnings, io, contextlib, json, math
import openmdao.api as om
from openmdao.core.implicitcomponent import ImplicitComponent

class Real:
    def __init__(self, cfg, nn, optvals, cs=False):
        """build the component un-instrumented inside a real OpenMDAO problem"""
        cfg.cur_nn = int(nn) if nn is not None else 3
        if cfg.hist:
            from .component import other_configs
            from . import frame
            frame.restore(cfg.cls)
            for oc in other_configs(cfg):
                try: o = Real(oc, nn, {}); o.jac({n: np.full(o.meta(n)["shape"], 0.7) for n in o.wrts()})
                except Exception: pass
        c = cfg.make()
        if "num_nodes" in c.options and not hasattr(cfg, "fixed_nn"): c.options["num_nodes"] = int(nn)
        for k, v in optvals.items(): c.options[k] = float(v)
        self.comp = c
        p = om.Problem(reports=False) if "reports" in om.Problem.__init__.__code__.co_varnames else om.Problem()
        p.model.add_subsystem("c", c)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p.setup(force_alloc_complex=True, mode="fwd"); p.set_solver_print(-1); p.final_setup()
            for _ in range(cfg.setups - 1): p.setup(force_alloc_complex=True, mode="fwd"); p.set_solver_print(-1); p.final_setup()
        self.p = p; self.implicit = isinstance(c, ImplicitComponent); self.hist = cfg.hist
        self.ins = [n for n in c._var_rel_names["input"]]; self.outs = [n for n in c._var_rel_names["output"]]
    def meta(self, n): return self.comp._var_rel2meta[n]
    def set(self, vals):
        for n, v in vals.items():
            if n in self.ins or (self.implicit and n in self.outs): self.p.set_val("c." + n, np.asarray(v, float).reshape(self.meta(n)["shape"]))
    def f(self, vals):
        """outputs (explicit) / residuals (implicit), flat, at input values"""
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if self.hist and any(n.startswith("hist:") for n in vals): self.earlier({n[5:]: v for n, v in vals.items() if n.startswith("hist:")})
            self.set(vals)
            if self.implicit:
                # inputs reach the component through the connection from the automatic source
                self.p.model._transfer("nonlinear", "fwd") if False else None
                for n in self.ins: self.comp._inputs[n] = np.asarray(vals[n], float).reshape(self.meta(n)["shape"])
                for n in self.outs: self.comp._outputs[n] = np.asarray(vals[n], float).reshape(self.meta(n)["shape"])
                self.comp.run_apply_nonlinear()
                return {n: self.comp._residuals[n].copy().ravel() for n in self.outs}
            for n in self.ins: self.comp._inputs[n] = np.asarray(vals[n], float).reshape(self.meta(n)["shape"])
            self.comp.run_solve_nonlinear()
            return {n: self.comp._outputs[n].copy().ravel() for n in self.outs}
    def earlier(self, vals):
        """an earlier call, with other inputs"""
        try:
            for n in self.ins: self.comp._inputs[n] = np.asarray(vals[n], float).reshape(self.meta(n)["shape"])
            if self.implicit:
                for n in self.outs: self.comp._outputs[n] = np.asarray(vals[n], float).reshape(self.meta(n)["shape"])
                self.comp.run_apply_nonlinear()
            else: self.comp.run_solve_nonlinear()
            self.comp.run_linearize()
        except (ValueError, ZeroDivisionError, FloatingPointError, RuntimeError): pass
    def wrts(self): return self.ins + (self.outs if self.implicit else [])
    def jac(self, vals):
        """the Jacobian the component reports: {(of, wrt): dense}"""
        self.f(vals)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            self.comp.run_linearize()
            out = {}
            for o in self.outs:
                no = self.comp._outputs[o].size
                for w in self.wrts():
                    nw = (self.comp._inputs[w] if w in self.ins else self.comp._outputs[w]).size
                    m = self.comp._subjacs_info.get(("c." + o, "c." + w))
                    if m is None or not m.get("dependent", True): out[(o, w)] = np.zeros((no, nw)); continue
                    v = m["val"]
                    if m.get("rows") is not None:
                        d = np.zeros((no, nw)); np.add.at(d, (np.asarray(m["rows"]), np.asarray(m["cols"])), np.broadcast_to(np.asarray(v, float).ravel(), (len(m["rows"]),)))
                    else:
                        d = np.asarray(v.toarray() if hasattr(v, "toarray") else v, float).reshape(no, nw).copy()
                    if not self.implicit: pass
                    out[(o, w)] = d
            return out
    def deriv(self, vals, o, w, c):
        """Ridders extrapolation of d(o)/d(w[c]) -> (value, error estimate) arrays"""
        x0 = np.asarray(vals[w], float).ravel().copy(); sh = self.meta(w)["shape"]
        best = None; err = np.inf
        for rel in (3e-2, 1e-3):
            h = rel * max(abs(x0[c]), 1e-3 if x0[c] == 0 else abs(x0[c])); con = 1.6; A = []
            for i in range(9):
                r = []
                for s in (1, -1):
                    v = dict(vals); y = x0.copy(); y[c] += s * h; v[w] = y.reshape(sh)
                    try: r.append(self.f(v)[o])
                    except Exception: r.append(np.nan * np.ones(1))
                A.append([(r[0] - r[1]) / (2 * h)])
                fac = con * con
                for j in range(1, i + 1):
                    A[i].append((A[i][j - 1] * fac - A[i - 1][j - 1]) / (fac - 1)); fac *= con * con
                    e = np.maximum(abs(A[i][j] - A[i][j - 1]), abs(A[i][j] - A[i - 1][j - 1]))
                    if best is None: best = A[i][j].copy(); be = e.copy()
                    m = np.isfinite(e) & ((e < be) | ~np.isfinite(be))
                    best[m] = A[i][j][m]; be[m] = e[m]
                h /= con
        return best, be
    def onesided(self, vals, o, w, c):
        x0 = np.asarray(vals[w], float).ravel().copy(); sh = self.meta(w)["shape"]; f0 = self.f(vals)[o]; out = []
        for s in (1, -1):
            h = 1e-6 * max(abs(x0[c]), 1e-6); v = dict(vals); y = x0.copy(); y[c] += s * h; v[w] = y.reshape(sh)
            out.append((self.f(v)[o] - f0) / (s * h))
        return out

def compare_jac(real, vals, pairs=None, rtol=1e-4):
    """-> list of (o, w, row, col, reported, true) confirmed mismatches between the reported and the true Jacobian"""
    J = real.jac(vals); bad = []
    for o in real.outs:
        for w in real.wrts():
            if pairs is not None and (o, w) not in pairs: continue
            Jw = J[(o, w)]
            for c in range(Jw.shape[1]):
                d, e = real.deriv(vals, o, w, c)
                if d is None or d.shape[0] != Jw.shape[0]: continue
                for r in range(Jw.shape[0]):
                    if not np.isfinite(d[r]) or not np.isfinite(e[r]): continue
                    jr = Jw[r, c]; sc = max(abs(jr), abs(d[r])) if np.isfinite(jr) else max(abs(d[r]), 1.0)
                    fl = abs(real.f(vals)[o][r]) / max(abs(np.asarray(vals[w], float).ravel()[c]), 1e-12)
                    noise = 1e-9 * fl
                    if sc <= 1e2 * noise: continue
                    if not np.isfinite(jr) or abs(jr - d[r]) > max(rtol * sc, 30 * e[r], 1e2 * noise):
                        p, m = real.onesided(vals, o, w, c)
                        if abs(p[r] - m[r]) > 0.05 * sc + 30 * noise * 1e3: continue       # kink: not differentiable here
                        if e[r] > 1e-2 * sc: continue
                        bad.append((o, w, r, c, float(jr), float(d[r])))
            real.f(vals)
    return bad
