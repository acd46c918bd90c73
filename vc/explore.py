"""Path exploration (the weakest-precondition calculus' case split) over the symbolic conditions that the executed
code branches on, with a sign store over canonical polynomials, integer facts and z3 feasibility pruning."""
from fractions import Fraction
import math, random, time
import z3
from . import terms as T
from .terms import *
from .nf import Norm, Dom, F1

class PathAbort(Exception): pass

class Facts:
    """what is known on the current path: sign sets of canonical polynomials, integer facts, opaque booleans, universal facts"""
    def __init__(self, o=None):
        self.sign = dict(o.sign) if o else {}
        self.ints = list(o.ints) if o else []
        self.opaque = dict(o.opaque) if o else {}
        self.foralls = list(o.foralls) if o else []
        self.conds = list(o.conds) if o else []          # (Term atom, bool) trail for sampling / reports
        self.memo = dict(o.memo) if o else {}
    def copy(self): return Facts(self)

class Explorer:
    """norm: the normaliser of the current verification unit.  open_only: consider only full-dimensional regions (derivative obligations)"""
    def __init__(self, norm, open_only=True, facts=None, max_paths=4000, timeout=240, int_facts=()):
        self.norm = norm; self.open_only = open_only
        self.base = facts.copy() if facts else Facts()
        for a in int_facts: self.base.ints.append(a)
        self.max_paths = max_paths; self.deadline = time.time() + timeout
        self.facts = None; self.paths = 0; self.pruned = 0
        self.ndec = 0
    # ------------------------------------------------------------------ exploration
    def run(self, fnc):
        """yields (facts, result) for every feasible path; exceptions of the executed code are results (Raised)"""
        work = [[]]
        while work:
            prefix = work.pop()
            self.prefix = prefix; self.pos = 0; self.taken = []
            self.facts = self.base.copy()
            self.work = work
            self.paths += 1
            if self.paths > self.max_paths or time.time() > self.deadline: raise Unsupported("path limit (%d paths)" % self.paths)
            old = T.ORACLE; T.ORACLE = self
            try:
                try: res = fnc()
                except PathAbort: self.pruned += 1; continue
                except Unsupported: raise
            finally: T.ORACLE = old
            yield self.facts, res
    def choose(self, options):
        """options: list of (label, apply) ; deterministic replay by prefix"""
        if self.pos < len(self.prefix): k = self.prefix[self.pos]
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1): self.work.append(self.taken + [j])
        self.pos += 1; self.taken = self.taken + [k]
        return options[k]
    # ------------------------------------------------------------------ deciding
    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        self.ndec += 1
        if c.op == "not": return not self.decide(c.args[0])
        if c.op == "and": return self.decide(c.args[0]) and self.decide(c.args[1])
        if c.op == "or": return self.decide(c.args[0]) or self.decide(c.args[1])
        r = self.facts.memo.get(c.id)
        if r is None and c.op == "lt" and c.args[1].op == "c" and c.args[1].args[0] > 0:      # |x| < tolerance: two sides, no case for the sign of x
            x = magnitude_of(c.args[0])
            if x is not None: r = self.facts.memo[c.id] = self.decide(lt(x, c.args[1])) and self.decide(lt(mul(C(-1), x), c.args[1]))
        if r is None:
            r = self._decide(c); self.facts.memo[c.id] = r
        return r
    def _decide(self, c):
        if c.op in ("lt", "eq"):
            a, b = (self.resolve(x) for x in c.args)
            try: p = self.norm.addp(self.norm.norm(b), self.norm.norm(a), -F1)
            except Unsupported: return self.opaque(c)
            s = self.sign_of(p, c, (a, b))
            return s == "+" if c.op == "lt" else s == "0"
        if c.op in ("ile", "ieq"): return self.int_decide(c)
        if c.op in ("any", "bvar"): return self.opaque(c)
        raise Unsupported("decide " + c.op)
    def opaque(self, c):
        r = self.facts.opaque.get(c.id)
        if r is not None: return r
        r = self.choose([True, False])
        self.facts.opaque[c.id] = r
        self.facts.conds.append((c, r))
        if c.op == "any" and not r: self.facts.foralls.append(c)
        return r
    def canon(self, p):
        """p = k * canonical (leading coefficient 1 in tuple order, positive monomial content removed); returns (key, sign of k)"""
        c, mono, prim = self.norm.content(p)
        pos = tuple((a, e) for a, e in mono if self.norm.atoms[a][2])
        rest = tuple((a, e) for a, e in mono if not self.norm.atoms[a][2])
        if rest: prim = self.norm.mulp(prim, {rest: F1})
        # clear positive sum atoms in denominators: sign unchanged when the atom is positive
        sg = 1
        if prim[min(prim)] < 0: prim = self.norm.scale(prim, -F1); sg = -1
        return prim, sg
    def rep(self, prim):
        """representative of the polynomials that differ from prim by a positive factor once the sums in denominators are cleared -> (prim, key, relative sign)"""
        n = self.norm; key = n.key(prim)
        if not any(n.atoms[a][0] == "S" for m in prim for a, _ in m): return prim, key, 1
        memo = n.__dict__.setdefault("_rep", {})
        if key in memo: return memo[key]
        out = (prim, key, 1); cl = n.cleared(n.trig(prim))
        if cl is not None and cl[0]:
            q, sg = self.canon(cl[0]); k2 = (n.key(q), cl[1])
            first = n.__dict__.setdefault("_reps", {}).setdefault(k2, (prim, key, sg))
            out = (first[0], first[1], first[2] * sg)
        memo[key] = out
        return out
    def sign_of(self, p, c, ab):
        n = self.norm
        if not p or n.is_zero(p, 1e-13): return "0"
        if len(p) == 1:
            (m, k), = p.items()
            if n.positive_mono(m): return "+" if k > 0 else "-"
        if n.positive_poly(p): return "+"
        if n.positive_poly(n.scale(p, -F1)): return "-"
        if all(n.const_data("x", [(m, 1)]) if False else all(n.atoms[a][0] in ("p", "pi") for a, _ in m) for m in p):
            r = n.ref(p)
            return "+" if r > 0 else "-"
        prim, sg = self.canon(p)
        prim, key, s2 = self.rep(prim)
        sg *= s2
        allowed = self.facts.sign.get(key)
        if allowed is None:
            allowed = "-+" if self.open_only else "-0+"
        if len(allowed) > 1:
            feas = [s for s in allowed if self.feasible(prim, key, s)]
            if not feas: raise PathAbort()
            if len(feas) > 1:
                # an lt only needs {+} against the rest; keep the sets coarse
                if c.op == "lt":
                    pos = "+" if sg > 0 else "-"
                    yes = [s for s in feas if s == pos]; no = [s for s in feas if s != pos]
                else:
                    yes = [s for s in feas if s == "0"]; no = [s for s in feas if s != "0"]
                if yes and no:
                    pick = self.choose([yes, no])
                    self.facts.conds.append((c, pick is yes))
                else: pick = yes or no
                feas = pick
            allowed = "".join(feas)
            self.facts.sign[key] = allowed
        if len(allowed) == 1:
            s = allowed
            return {"+": "-", "-": "+", "0": "0"}[s] if sg < 0 else s
        # several signs left, all equivalent for this condition?
        if c.op == "eq":
            if "0" not in allowed: return "x"
        else:
            pos = "+" if sg > 0 else "-"
            if pos not in allowed: return "x"
        # undetermined: refine
        pick = self.choose(list(allowed))
        self.facts.sign[key] = pick
        self.facts.conds.append((c, (pick == ("+" if sg > 0 else "-")) if c.op == "lt" else pick == "0"))
        return {"+": "-", "-": "+", "0": "0"}[pick] if sg < 0 else pick
    # ------------------------------------------------------------------ feasibility
    _fcache = {}
    def feasible(self, prim, key, s):
        """may `prim` have sign s together with the known facts?  unknown -> True"""
        if not self.facts.sign and len(prim) > 40: return True
        ck = (id(self.norm), key, s, frozenset(self.facts.sign.items()))
        r = Explorer._fcache.get(ck)
        if r is None:
            r = self._feasible(prim, s); Explorer._fcache[ck] = r
        return r
    def _feasible(self, prim, s):
        try:
            z = Z3Enc(self.norm)
            sol = z3.Solver(); sol.set("timeout", 400)
            for k, al in self.facts.sign.items(): sol.add(z.signset(dict(k), al))
            sol.add(z.signset(prim, s))
            for x in z.side: sol.add(x)
            return sol.check() != z3.unsat
        except Unsupported: return True
    def int_decide(self, c):
        d = c.args[0]
        def zi(x):
            r = z3.IntVal(x.c)
            for k, v in x.m: r = r + v * z3.Int(k)
            return r
        sol = z3.Solver(); sol.set("timeout", 1000)
        names = set(k for k, _ in d.m)
        for (op, x, tv) in self.facts.ints:
            e = zi(x) >= 0 if op == "ile" else zi(x) == 0
            sol.add(e if tv else z3.Not(e))
        g = zi(d) >= 0 if c.op == "ile" else zi(d) == 0
        sol.push(); sol.add(g); can_t = sol.check() != z3.unsat; sol.pop()
        sol.push(); sol.add(z3.Not(g)); can_f = sol.check() != z3.unsat; sol.pop()
        if can_t and can_f:
            r = self.choose([True, False]); self.facts.conds.append((c, r))
        elif can_t: return True
        elif can_f: return False
        else: raise PathAbort()
        self.facts.ints.append((c.op, d, r))
        return r
    def assume(self, c):
        if not self.decide(c): raise PathAbort()
    # ------------------------------------------------------------------ ite elimination
    def resolve(self, t, _c=None):
        """replace every ite by the branch taken on this path (decisions are made lazily, innermost conditions first)"""
        if not has_ite(t): return t
        cache = {}
        stack = [t]
        while stack:
            s = stack[-1]
            if s.id in cache: stack.pop(); continue
            if not has_ite(s): cache[s.id] = s; stack.pop(); continue
            if s.op == "ite":
                br = s.args[1] if self.decide(s.args[0]) else s.args[2]
                if br.id not in cache: stack.append(br); continue
                cache[s.id] = cache[br.id]; stack.pop(); continue
            pend = [a for a in s.args if isinstance(a, Term) and a.id not in cache]
            if pend: stack.extend(pend); continue
            args = [cache[a.id] if isinstance(a, Term) else a for a in s.args]
            cache[s.id] = {"+": add, "*": mul, "^": power, "fn": fn}.get(s.op, lambda *a: Term.mk(s.op, *a))(*args)
            stack.pop()
        return cache[t.id]

def magnitude_of(t):
    """x if t is |x| as terms.absolute writes it"""
    if t.op == "ite" and t.args[0].op == "lt" and t.args[0].args[0] is t.args[2] and t.args[0].args[1] is ZERO and t.args[1] is mul(C(-1), t.args[2]): return t.args[2]
_ite = {}
def has_ite(t):
    r = _ite.get(t.id)
    if r is None:
        for s in subterms(t):
            if s.id not in _ite:
                _ite[s.id] = s.op == "ite" or any(_ite[a.id] for a in s.args if isinstance(a, Term))
        r = _ite[t.id]
    return r

class Z3Enc:
    """normal-form polynomials -> z3 real arithmetic; transcendental atoms are opaque reals with their sign and basic lemmas"""
    def __init__(self, norm):
        self.n = norm; self.side = []; self.av = {}; self.roots = {}
    def const(self, c): return z3.RealVal("%d/%d" % (c.numerator, c.denominator))
    def atom(self, a):
        v = self.av.get(a)
        if v is not None: return v
        kind, d, pos, ref = self.n.atoms[a]
        if kind == "p": v = z3.RealVal(d); self.av[a] = v; return v
        v = z3.Real("a%d" % a); self.av[a] = v
        if pos or kind in ("E", "P"): self.side.append(v > 0)
        if kind == "pi": self.side += [v > z3.RealVal("3141592653/1000000000"), v < z3.RealVal("3141592654/1000000000")]
        elif kind == "v":
            b = self.n.dom.d.get(d.args[0])
            if b and b[0] == 0 and pos: pass
            lim = getattr(self.n.dom, "hard", {}).get(d.args[0])
            if lim:
                lo, hi = lim
                if lo is not None: self.side.append(v >= self.const(q(lo)))
                if hi is not None: self.side.append(v <= self.const(q(hi)))
        elif kind == "S":
            self.side.append(v == self.poly(dict(d)))
        elif kind in ("sin", "cos"):
            o = self.n.index.get(("cos" if kind == "sin" else "sin", d))
            self.side += [v >= -1, v <= 1]
            if o is not None: self.side.append(v * v + self.atom(o) * self.atom(o) == 1)
        elif kind == "E" :
            if d != ():
                x = self.mono(d)
                self.side += [v >= 1 + x, z3.Implies(x < 1, v * (1 - x) <= 1)]
        elif kind == "L":
            x = self.poly(dict(d)); self.side += [x > 0, v <= x - 1, v * x >= x - 1]
        return v
    def root(self, a, den):
        """a^(1/den) as a nonnegative real"""
        if den == 1: return self.atom(a)
        k = (a, den); v = self.roots.get(k)
        if v is None:
            v = z3.Real("r%d_%d" % k); self.roots[k] = v
            x = self.atom(a); pw = v
            for _ in range(den - 1): pw = pw * v
            self.side += [v >= 0, pw == x]
        return v
    def mono(self, m):
        num = None; den = None
        for a, e in m:
            if e.denominator > 12 or abs(e.numerator) > 24: 
                b = z3.Real("w%d_%d_%d" % (a, e.numerator, e.denominator)); self.atom(a); self.side.append(b > 0); k = 1
            else: b = self.root(a, e.denominator); k = e.numerator
            p = None
            for _ in range(abs(k)): p = b if p is None else p * b
            if k > 0: num = p if num is None else num * p
            else:
                den = p if den is None else den * p
        if den is not None: self.side.append(den != 0)
        if num is None: num = z3.RealVal(1)
        return num if den is None else num / den
    def poly(self, p):
        r = None
        for m, c in p.items():
            t = self.const(c) * self.mono(m) if m else self.const(c)
            r = t if r is None else r + t
        return r if r is not None else z3.RealVal(0)
    def signset(self, p, s):
        x = self.poly(p)
        return z3.Or([{"+": x > 0, "-": x < 0, "0": x == 0}[k] for k in s])
