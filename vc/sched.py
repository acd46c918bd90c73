"""Runs verification units in forked worker processes with a time limit each and a deadline for the whole check."""
import os, sys, time, signal, traceback, pickle, multiprocessing as mp, resource

def _child(conn, fn, seed, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception: pass
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2)
    sys.setrecursionlimit(20000)
    try: r = ("ok", fn(seed))
    except BaseException as e: r = ("err", "%r\n%s" % (e, traceback.format_exc()[-1500:]))
    try: conn.send(r)
    except Exception as e: conn.send(("err", "result not transferable: %r" % e))
    conn.close(); os._exit(0)

def run(jobs, seed, ncpu=8, limit=240, deadline=None, mem=6 << 30, log=None):
    """jobs: list of (name, callable).  -> {name: ("ok", result) | ("err", text) | ("timeout", secs)}"""
    ctx = mp.get_context("fork")
    todo = list(jobs)[::-1]; live = {}; out = {}
    while todo or live:
        now = time.time()
        while todo and len(live) < ncpu:
            name, fn = todo.pop()
            if deadline and now > deadline: out[name] = ("timeout", 0.0); continue
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, fn, seed, mem), daemon=True); p.start(); b.close()
            live[name] = (p, a, time.time())
        if not live: continue
        mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
        now = time.time()
        for name in list(live):
            p, a, t0 = live[name]
            if a.poll():
                try: out[name] = a.recv()
                except (EOFError, pickle.UnpicklingError, Exception) as e: out[name] = ("err", "worker died: %r" % e)
                p.join(5)
                if p.is_alive(): p.kill()
                a.close(); del live[name]
            elif not p.is_alive():
                out[name] = ("err", "worker died with code %s" % p.exitcode); a.close(); del live[name]
            elif now - t0 > limit or (deadline and now > deadline + 20):
                p.kill(); p.join(); out[name] = ("timeout", now - t0); a.close(); del live[name]
            else: continue
            if log: log(name, out[name][0], now - t0)
    return out
