"""helpers shared by the spec files"""
from ..terms import *

def history(k, label, x, x0, rate, dur, xu, ru, settled=False):
    """x is the time integral of its rate: quadratic interpolation of the rate over each pair of steps (Simpson), node by node
    (settled: the rate is taken from this pass over a feedback loop, not from the one before)"""
    n, i = k.nn, k.nodeint; dt = dur / (n - 1)
    X = lambda j: k.o(x, xu, at=j); R = lambda j: (k.o if settled else k.fb)(rate, ru, at=j) if rate in k.vars("o") else k.i(rate, ru, at=j)
    if i == 0: k.eq(label + ": starts at its initial value", X(0), x0)
    elif i % 2 == 0: k.eq(label + ": increment over a pair of steps", X(i) - X(i - 2), dt / 3 * (R(i - 2) + 4 * R(i - 1) + R(i)))
    else: k.eq(label + ": increment over the first step of a pair", X(i) - X(i - 1), dt / 12 * (5 * R(i - 1) + 8 * R(i) - R(i + 1)))
def final(k, label, name, x, xu):
    if k.nodeint == k.nn - 1: k.eq(label + ": reported final value is the last one", k.o(name, xu), k.o(x, xu))
