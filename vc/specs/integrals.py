"""I01/I02 integrators, I03 numerical differentiation.  The schemes are linear maps built from the number of points: the contracts are proved for
symbolic rates, samples, initial values and time steps at each stated number of points (bounded in the number of points)."""
from ..contract import contract
from ..terms import *
from ..component import Cfg
from ..configs import ICfg, QI, QF
from fractions import Fraction as F

def mag(d, p): return sum((absolute(dj) * C(j) ** p for j, dj in enumerate(d)), C(0))
def states(k):
    """(name, rate, start or None, end, has history)"""
    for n, o in k.statevars().items(): yield n, o["rate_name"], None if o["zero_start"] else o["start_name"], o["end_name"], not o["final_only"]
def step(k):
    n = k.nn; ts = k.opt("time_setup")
    if n == 1: return C(0)
    if ts == "dt": return k.i("dt", at=0)
    if ts == "duration": return k.i("duration", at=0) / (n - 1)
    return (k.i("t_final", at=0) - k.i("t_initial", at=0)) / (n - 1)
def order(k, method, i, n):
    """highest power of time integrated exactly at point i"""
    return (3 if i % 2 == 0 else 2) if method == "simpson" else 2
def exact(k, name, out, rate, i, n, start, at_out, base=0):
    """claims about one entry of the history: affine in the rates, exact on polynomial rates"""
    h = step(k) if base == 0 else None
    d = [k.D(out, rate, a=at_out, b=j) for j in range(n)]
    q0 = C(0) if start is None else k.i(start, at=0)
    k.eq("%s: affine in rates and initial value" % name, k.o(out, at=at_out), sum((dj * k.i(rate, at=j) for j, dj in enumerate(d)), q0))
    for p in range(order(k, k.opt("method"), i, n) + 1):
        k.eq("%s: exact on rates t^%d" % (name, p), sum((dj * C(j) ** p for j, dj in enumerate(d)), C(0)), h * C(F(i ** (p + 1), p + 1)), mag(d, p))
def integ01(k):
    i, n = k.node, k.nn
    if i is None: i = 0
    for name, rate, start, end, hist in states(k):
        if hist and n > 1: exact(k, name, name, rate, i, n, start, (i,))
        if i == n - 1 and n > 1: exact(k, end, end, rate, n - 1, n, start, (0,))
def integ02(k):
    i, n = k.node, k.nn
    if i is None: i = 0
    for name, rate, start, end, hist in states(k):
        q0 = C(0) if start is None else k.i(start, at=0)
        if hist and i == 0: k.eq("%s: history starts at the initial value" % name, k.o(name, at=(0,)), q0)
        if hist and i == n - 1: k.eq("%s: final value is the last entry" % name, k.o(end, at=0), k.o(name, at=(n - 1,)))
        if n == 1: k.eq("%s: one point, nothing to integrate" % name, k.o(end, at=0), q0)
        if n > 1 and hist:      # the same history for the same time axis, whatever the time specification: no dependence on time except through the step
            h = step(k); ref = sum((k.D(name, rate, a=(i,), b=j) / h * k.i(rate, at=j) for j in range(n)), C(0))
            k.eq("%s: history = initial value + step x (rates)" % name, k.o(name, at=(i,)), q0 + h * ref)

MORE = [(("x",), dict()), (("w",), dict(rate_units="kW", val=3.0)), (("y",), dict(units="m", rate_name="ydot", zero_start=True))]
def integ_cfgs(sizes):
    out = []
    for meth in ("simpson", "bdf3"):
        for ts in ("dt", "duration", "bounds"):
            for nn in sizes:
                if nn < (5 if meth == "bdf3" else 3): continue
                ints = QI if nn not in (5, 9) else (QI + QF if nn == 5 else MORE)
                out.append(lambda cls, meth=meth, ts=ts, nn=nn, ints=ints: ICfg(cls, ints, dict(method=meth, time_setup=ts, diff_units="min" if nn == 9 else "s"), "%s,%s,%d" % (meth, ts, nn), nn))
    for ts in ("dt", "duration"): out.append(lambda cls, ts=ts: ICfg(cls, QI, dict(method="simpson", time_setup=ts, diff_units="s"), "%s,1" % ts, 1))
    return out
SZ = (3, 5, 7, 9, 11)
contract("I01", "Integrator", cfgs=integ_cfgs(SZ), batch=True, bounded="num_nodes in %s" % (SZ,))(integ01)
contract("I02", "Integrator", cfgs=integ_cfgs((3, 5, 7, 9)), batch=True, bounded="num_nodes in (3,5,7,9)")(integ02)

# ------------------------------------------------------------------ several segments
def segs(k):
    s = k.opt("segment_names"); cnt = k.opt("segments_to_count")
    return (list(s) if s is not None else [None]), (lambda s: s is None or cnt is None or s in cnt)
def old(k, which):
    n = k.opt("num_nodes"); names, counted = segs(k); meth = k.opt("method"); ns = len(names)
    dts = []
    for s in names:
        if n == 1: dts.append(C(0))
        elif s is not None: dts.append(k.i(s + "|dt", at=0))
        else: dts.append(k.i("dt", at=0) if k.opt("time_setup") == "dt" else k.i("duration", at=0) / (n - 1) if k.opt("time_setup") == "duration" else (k.i("t_final", at=0) - k.i("t_initial", at=0)) / (n - 1))
    q0 = C(0) if k.opt("zero_start") else k.i("q_initial", at=0)
    rows = [("q_final", (0,), ns - 1, n - 1)] + ([] if k.opt("final_only") else [("q", (s * n + i,), s, i) for s in range(ns) for i in range(n)])
    for out, a, s, i in rows:
        tag = "%s[%s]" % (out, a[0])
        d = [k.D(out, "dqdt", a=a, b=j) for j in range(ns * n)]
        if which == 1: k.eq(tag + ": affine in rates and initial value", k.o(out, at=a), sum((dj * k.i("dqdt", at=j) for j, dj in enumerate(d)), q0))
        for t in range(ns):
            blk = d[t * n:(t + 1) * n]; last = i if t == s else n - 1
            if t > s or not counted(names[t]) or (t == s and i == 0):
                if which == 2:
                    for j, dj in enumerate(blk): k.eq(tag + ": no contribution of segment %d entry %d" % (t, j), dj, C(0), mag(d, 0))
            elif which == 1:
                for p in range((3 if last % 2 == 0 else 2) + 1 if meth == "simpson" else 3):
                    k.eq(tag + ": segment %d exact on rates t^%d" % (t, p), sum((dj * C(j) ** p for j, dj in enumerate(blk)), C(0)), dts[t] * C(F(last ** (p + 1), p + 1)), mag(blk, p))
    if which == 2 and not k.opt("final_only"):
        k.eq("history starts at the initial value", k.o("q", at=(0,)), q0)
        k.eq("final value is the last entry", k.o("q_final", at=0), k.o("q", at=(ns * n - 1,)))
        for s in range(1, ns): k.eq("segment %d starts where segment %d ends" % (s, s - 1), k.o("q", at=(s * n,)), k.o("q", at=(s * n - 1,)))
def old1(k): old(k, 1)
def old2(k): old(k, 2)
contract("I01", "OldIntegrator", label="old", batch=True, bounded="num_nodes in (1,3,5,9), 1 to 4 segments")(old1)
contract("I02", "OldIntegrator", label="old", batch=True, bounded="num_nodes in (1,3,5,9), 1 to 4 segments")(old2)

# ------------------------------------------------------------------ I03
def fd(k):
    names = k.opt("segment_names"); ni = k.opt("num_intervals"); n = 2 * ni + 1; ord_ = k.opt("order"); names = list(names) if names is not None else [None]; ns = len(names)
    for s in range(ns):
        dt = k.i("dt" if names[s] is None else names[s] + "|dt", at=0)
        for i in range(n):
            a = (s * n + i,); tag = "dqdt[%d]" % a
            d = [k.D("dqdt", "q", a=a, b=j) for j in range(ns * n)]
            k.eq(tag + ": linear in the samples", k.o("dqdt", at=a), sum((dj * k.i("q", at=j) for j, dj in enumerate(d)), C(0)))
            for p in range(ord_ + 1):
                k.eq(tag + ": exact on samples t^%d" % p, sum((d[s * n + j] * C(j) ** p for j in range(n)), C(0)) * dt, C(p * i ** (p - 1) if p else 0), mag(d[s * n:(s + 1) * n], p) * dt)
            for j, dj in enumerate(d):
                if not s * n <= j < (s + 1) * n: k.eq(tag + ": no influence of other segments", dj, C(0), mag(d, 0))
def fd_more():
    out = []
    for o in (2, 4):
        for sn in (None, ["climb", "cruise"], ["climb", "cruise", "descent"]):
            for n in (1, 2, 3, 4, 5):
                if o == 4 and n < 2: continue
                out.append(lambda cls, o=o, sn=sn, n=n: Cfg(cls, dict(segment_names=sn, num_intervals=n, order=o, quantity_units="m", diff_units="min" if n == 4 else "s"), tag="%s,%d,%s" % (o, n, len(sn or [0])), modes=[1]))
    return out
contract("I03", "FirstDerivative", cfgs=fd_more(), batch=True, bounded="num_intervals in 1..5, 1 to 3 segments")(fd)
