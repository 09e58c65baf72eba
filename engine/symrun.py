"""Symbolic side: run the harnesses of one property, print JSON results."""
from __future__ import annotations
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import api  # noqa


def load_spec(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", pid + ".py")
    spec = importlib.util.spec_from_file_location("spec_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    api.REGISTRY.clear()
    spec.loader.exec_module(mod)
    return list(api.REGISTRY)


def run_one(ob, seed, tier):
    from engine import explore, loader, smt, terms as T
    from engine.qsym import QSym

    t0 = time.time()
    out = dict(name=ob.name, obligations={}, paths=0, functions=[], errors=[], raised=[], assumptions=[], stubs=[], seconds=0)
    try:
        m = loader.setup()
        sec = ob.seconds * (4 if tier == "thorough" else 1)
        ex = explore.Explorer(seconds=sec, max_paths=ob.paths * (4 if tier == "thorough" else 1), seed=seed)
        seen = set()

        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if fn.startswith(loader.PKG):
                    seen.add(os.path.basename(fn)[:-3] + "." + frame.f_code.co_qualname)

        def fn(ctx):
            q = QSym(ctx, seed, ob.name)
            first = ex.paths <= 6
            if first:
                sys.setprofile(prof)
            try:
                ob.fn(q, m)
            finally:
                if first:
                    sys.setprofile(None)
                q.undo()

        ex.run(fn)
        agg = {}
        for o in ex.obls:
            a = agg.setdefault(o.name, dict(proved=0, refuted=0, undecided=0, backends={}, info=None, cex=None))
            a[o.status] += 1
            if o.status == "proved":
                a["backends"][o.backend] = a["backends"].get(o.backend, 0) + 1
            elif a["info"] is None or (o.status == "refuted" and not a["cex"]):
                a["info"] = o.info
                a["cex"] = o.cex
        out.update(
            obligations=agg, paths=ex.paths, aborted=ex.aborted, sat_paths=ex.sat_paths,
            functions=sorted(seen), errors=[f"{k}: {e}" for k, e in ex.errors][:5], nerrors=len(ex.errors),
            raised=ex.raised[:3], assumptions=sorted(ex.assumptions), stubs=sorted(ex.stubs),
            defs=[ex.ndefs, ex.ndefs_ok], def_assumed=sorted(ex.def_assumed)[:12],
        )
    except Exception as e:
        from engine.terms import Unsupported
        out["errors"] = [("unsupported: " if isinstance(e, Unsupported) else "engine: ") + f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:]]
        out["nerrors"] = 1
    out["seconds"] = round(time.time() - t0, 2)
    out["smt"] = dict(smt.STATS)
    return out


def _child(ob, seed, tier, conn):
    try:
        r = run_one(ob, seed, tier)
    except BaseException as e:
        r = dict(name=ob.name, obligations={}, errors=[f"engine: {type(e).__name__} {e}"], nerrors=1, raised=[], functions=[], assumptions=[], stubs=[], paths=0)
    conn.send(r)
    conn.close()


def run_all(obs, seed, tier, jobs, outp=None):
    from engine import loader, explore, smt, shim_numpy, shim_scipy, shim_bd  # preload
    res = []
    pend = list(obs)
    act = []
    while pend or act:
        while pend and len(act) < jobs:
            o = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(o, seed, tier, b))
            p.start()
            b.close()
            act.append((o, p, a, time.time()))
        nxt = []
        for o, p, a, t in act:
            if a.poll(0):
                try:
                    res.append(a.recv())
                except EOFError:
                    res.append(dict(name=o.name, obligations={}, errors=["engine: worker died"], nerrors=1, raised=[], functions=[], assumptions=[], stubs=[], paths=0))
                p.join()
            elif not p.is_alive() and not a.poll(0.1):
                res.append(dict(name=o.name, obligations={}, errors=["engine: worker died"], nerrors=1, raised=[], functions=[], assumptions=[], stubs=[], paths=0))
            elif time.time() - t > o.seconds * (4 if tier == "thorough" else 1) + 45:
                p.kill()
                res.append(dict(name=o.name, obligations={}, errors=["budget: hard time limit"], nerrors=1, raised=[], functions=[], assumptions=[], stubs=[], paths=0))
            else:
                nxt.append((o, p, a, t))
        if outp and len(nxt) != len(act):
            json.dump(res, open(outp, "w"), default=str)
        act = nxt
        time.sleep(0.02)
    order = {o.name: i for i, o in enumerate(obs)}
    res.sort(key=lambda r: order[r["name"]])
    return res


if __name__ == "__main__":
    pid, tier, seed, outp = sys.argv[1:5]
    only = sys.argv[5:] or None
    obs = [o for o in load_spec(pid) if o.kw.get("sym", True) and (tier == "thorough" or o.tier == "quick")]
    if only:
        obs = [o for o in obs if o.name in only]
    r = run_all(obs, int(seed), tier, int(os.environ.get("JOBS", "6")), outp)
    json.dump(r, open(outp, "w"), indent=1, default=str)
