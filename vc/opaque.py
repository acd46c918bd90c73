"""Execution of set-up code on opaque names.  A name is a sequence of literal pieces and atoms (arbitrary strings without a dot); questions about
names the pieces do not settle (equality, membership in an arbitrary collection) are case splits, and every case is executed."""
import itertools
class Stop(Exception): pass
class Cases:
    """depth-first enumeration of the answers to the questions asked during one execution"""
    def __init__(self): self.pending = [[]]; self.cur = []; self.pos = 0; self.facts = {}; self.classes = {}
    def start(self, pre): self.cur = list(pre); self.pos = 0; self.facts = {}; self.eqs = []; self.neqs = []
    def ask(self, key):
        if key in self.facts: return self.facts[key]
        if self.pos < len(self.cur): v = self.cur[self.pos]
        else:
            v = True; self.pending.append(self.cur[:self.pos] + [False]); self.cur.append(True)
        self.pos += 1; self.facts[key] = v
        return v
CASES = None
class Name:
    """sequence of pieces: ('lit', text) | ('at', id) | ('uf', fn, Name)"""
    def __init__(self, *ps):
        out = []
        for p in ps:
            for x in (p.ps if isinstance(p, Name) else [("lit", p)] if isinstance(p, str) else [p]):
                if x == ("lit", ""): continue
                if out and out[-1][0] == "lit" and x[0] == "lit": out[-1] = ("lit", out[-1][1] + x[1])
                else: out.append(x)
        self.ps = tuple(out)
    @property
    def lit(self): return "".join(p[1] for p in self.ps) if all(p[0] == "lit" for p in self.ps) else None
    def __add__(self, o): return Name(self, o) if isinstance(o, (str, Name)) else NotImplemented
    def __radd__(self, o): return Name(o, self) if isinstance(o, (str, Name)) else NotImplemented
    def __format__(self, spec): return TOKENS.put(self)
    def __str__(self): return TOKENS.put(self)
    def __repr__(self): return "".join(p[1] if p[0] == "lit" else "<%s>" % p[1] if p[0] in ("at", "free") else "%s(%r)" % (p[1], p[2]) for p in self.ps)
    def __hash__(self): return 7
    def __bool__(self): return bool(self.ps)
    def __eq__(self, o):
        if isinstance(o, str): o = Name(o)
        if not isinstance(o, Name): return False
        return equal(self, o)
    def __ne__(self, o): return not self == o
    def startswith(self, pre):
        if isinstance(pre, tuple): return any(self.startswith(x) for x in pre)
        r = strip(self, Name(pre))
        if r is not None: return True
        return False if certain_mismatch(self, Name(pre)) else CASES.ask(("startswith", self.ps, Name(pre).ps))
    def removeprefix(self, pre): r = strip(self, Name(pre)); return self if r is None else r
    def replace(self, a, b, n=-1):
        r = strip(self, Name(a))
        if r is not None and n == 1: return Name(b, r)
        if r is None: return self                       # atoms are free of dots: the prefix of another system cannot occur inside
        raise Stop("replace %r" % (a,))
    def __len__(self): return max(1, len(self.ps))
    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None and i.stop is None and isinstance(i.start, Length):
            r = strip(self, i.start.name)
            if r is not None: return r
        raise Stop("slice of an opaque name")
class Length:
    def __init__(self, name): self.name = name
def strip(n, pre):
    """n without the leading pre, None if pre is not syntactically its beginning"""
    a, b = list(n.ps), list(pre.ps)
    while b:
        if not a: return None
        x, y = a[0], b[0]
        if x == y: a.pop(0); b.pop(0); continue
        if x[0] == "lit" and y[0] == "lit" and x[1].startswith(y[1]): a[0] = ("lit", x[1][len(y[1]):]); b.pop(0); continue
        return None
    return Name(*a)
def certain_mismatch(n, pre):
    return not n.ps or (n.ps[0][0] == "free")
def equal(a, b):
    if a.ps == b.ps: return True
    if a.lit is not None and b.lit is not None: return a.lit == b.lit
    # common beginnings and ends cancel
    x, y = list(a.ps), list(b.ps)
    while x and y and x[0] == y[0]: x.pop(0); y.pop(0)
    while x and y and x[-1] == y[-1]: x.pop(); y.pop()
    if not x or not y: return False                      # pieces are not empty
    x, y = Name(*x), Name(*y)
    if x.lit is not None and y.lit is not None: return False
    return CASES.ask(("eq",) + tuple(sorted((repr(x), repr(y)))))
class Tokens:
    """opaque names that pass through str formatting"""
    def __init__(self): self.d = {}
    def put(self, n): raise Stop("an opaque name is formatted")
TOKENS = Tokens()
def atom(i): return Name(("at", i))
def uf(f, n): return Name(("uf", f, Name(n)))
class AnyOf:
    """an arbitrary collection of names"""
    def __init__(self, i): self.i = i
    def __contains__(self, n): return CASES.ask(("in", self.i, repr(n if isinstance(n, Name) else Name(n))))
    def __iter__(self): raise Stop("an arbitrary collection is enumerated")
def different(*names):
    return [(("eq",) + tuple(sorted((repr(a), repr(b)))), False) for a, b in itertools.combinations(names, 2)]
def consistent(facts):
    par = {}
    def find(x):
        while x in par: x = par[x]
        return x
    for k, v in facts.items():
        if k[0] == "eq" and v:
            a, b = find(k[1]), find(k[2])
            if a != b: par[a] = b
    return not any(k[0] == "eq" and not v and find(k[1]) == find(k[2]) for k, v in facts.items())
def explore(run, given=(), limit=4000):
    """run() under every combination of answers -> list of (facts, result or exception)"""
    global CASES
    C = CASES = Cases(); out = []; given = {k: v for k, v in given}
    try:
        while C.pending and len(out) < limit:
            C.start(C.pending.pop()); C.facts.update(given)
            try: r = run()
            except Stop: raise
            except Exception as e: r = e
            if consistent(C.facts): out.append((dict(C.facts), r))
        if C.pending: raise Stop("more than %d cases" % limit)
    finally: CASES = None
    return out
