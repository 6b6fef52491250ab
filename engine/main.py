"""Discharge the obligations of one property.

main.py PID [--filter S] [--json] [--tier quick|thorough] [--budget S]
Every contract runs in its own process (fork); a contract that exceeds the budget is undecided.
"""
import sys, os, importlib, time, json, argparse, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "contracts")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import threading
import verify


def flat(r):
    out = dict(r)
    out["obs"] = []
    for o in r["obs"]:
        d = dict(name=o.name, status=o.status, by=o.by, kind=o.kind)
        if o.status != "proved":
            d["detail"] = (o.detail or "")[:1500]
            d["path"] = [str(x) for x in (o.path or [])][:40]
            d["refuted"] = getattr(o, "refuted", None)
            d["soft"] = bool(getattr(o, "soft", False))
        out["obs"].append(d)
    return out


def work(i, pid, q):
    try:
        c = verify.CONTRACTS[pid][i]
        r = verify.run_contract(c)
        q.send(flat(r))
    except BaseException as e:
        q.send(dict(name="?", pid=pid, quals=[], obs=[], paths=0, stuck=None, error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-2000:], seconds=0, solver=0, used=[]))
    q.close()


def run_all(pid, filt="", tier="quick", budget=300, jobs=8):
    try:
        importlib.import_module(pid.lower())
    except ModuleNotFoundError as e:
        if e.name != pid.lower():
            raise
        return []
    cs = verify.CONTRACTS.get(pid, [])
    todo = [i for i, c in enumerate(cs) if (filt in c.name if isinstance(filt, str) else c.name in filt) and (tier == "thorough" or not c.thorough)]
    res, live = {}, {}
    t0 = time.time()
    queue = list(todo)
    while queue or live:
        while queue and len(live) < jobs and time.time() - t0 < budget:
            i = queue.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=work, args=(i, pid, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i, (p, a, t) in list(live.items()):
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(error="the generator process ended")
            over = time.time() - t0 > budget
            if got is None and not over and p.is_alive():
                continue
            if got is None:
                got = dict(stuck="time budget of %ds reached" % budget if over else None, error=None if over else "the generator process ended")
            if "name" not in got or got.get("name") == "?":
                c = cs[i]
                d = dict(name=c.name, pid=pid, quals=c.quals, obs=[], paths=0, stuck=None, error=None, seconds=time.time() - t, solver=0, used=[])
                d.update({k: v for k, v in got.items() if k != "name"})
                got = d
            got["trust"] = cs[i].trust
            res[i] = got
            p.kill()
            p.join()
            del live[i]
        if time.time() - t0 > budget and not live:
            for i in queue:
                c = cs[i]
                res[i] = dict(name=c.name, pid=pid, quals=c.quals, obs=[], paths=0, stuck="time budget reached before start", error=None, seconds=0, solver=0, used=[], trust=c.trust)
            queue = []
    return [res[i] for i in todo]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("filter", nargs="?", default="")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--names", help="json list of contract names")
    a = ap.parse_args()
    pid = a.pid.upper()
    rs = run_all(pid, json.loads(a.names) if a.names else a.filter, a.tier, a.budget, a.jobs)
    if a.json:
        json.dump(rs, sys.stdout)
        return
    for r in rs:
        bad = [o for o in r["obs"] if o["status"] != "proved"]
        print("%-58s paths=%d obs=%d proved=%d%s%s %.1fs (solver %.1f)" % (r["name"], r["paths"], len(r["obs"]), len(r["obs"]) - len(bad),
              " STUCK " + r["stuck"] if r["stuck"] else "", " ERR " + r["error"] if r["error"] else "", r["seconds"], r["solver"]))
        if r["error"]:
            print(r.get("trace"))
        for o in bad:
            print("     ", o["kind"], o["name"], o["status"], o["detail"][:900], o["path"], o["refuted"])


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
