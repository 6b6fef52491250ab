"""run-time contracts of one property: run.py PID --seed S --scale X [--replay FILE] -> JSON on stdout"""
import sys, os, signal, multiprocessing as mp, json, time, argparse, tempfile, shutil, io, contextlib, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMEXPR_NUM_THREADS", "1")
import lib


HANG = 90.0        # seconds of processor time for one case
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT}


def cases(item, a, t0, send):
    n = max(1, int(item.n * a.scale))
    bad = 0
    for i in (range(n) if a.case is None else [a.case]):
        if time.time() - t0 > a.budget and a.case is None:
            send(("note", "time budget reached after %d of %d cases" % (i, n)))
            break
        send(("start", i))
        c = lib.Case(a.seed, item, i)
        try:
            item.fn(c)
            send(("ok", i))
        except lib.Skip as e:
            send(("skip", str(e)))
        except lib.Violation as e:
            send(("bad", dict(item=item.name, case=i, seed=a.seed, message=str(e), inputs=c.notes)))
            bad += 1
            if a.only or bad >= 2:
                break
        except Exception as e:
            import traceback
            send(("harness", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:]))
    send(("end",))


def cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


def run_item(item, a, t0):
    """every item in a process of its own: code that crashes or never returns is a failed case, not a dead harness"""
    rec = dict(item=item.name, quals=list(item.quals), cases=0, skipped=0, note="")
    fails, ti = [], time.time()
    r, w = mp.Pipe(False)
    pid = os.fork()
    if pid == 0:
        r.close()
        try:
            cases(item, a, t0, w.send)
        except BaseException:
            os._exit(3)
        os._exit(0)
    w.close()
    cur, c0, ended = None, 0.0, False
    while True:
        try:
            if r.poll(1.0):
                m = r.recv()
            else:
                if cur is not None and cpu(pid) - c0 > HANG:
                    fails.append(dict(item=item.name, case=cur, seed=a.seed, message="no result after %d s of processor time" % HANG, inputs={}))
                    rec["cases"] += 1
                    break
                continue
        except EOFError:
            break
        if m[0] == "start":
            cur, c0 = m[1], cpu(pid)
        elif m[0] == "ok":
            rec["cases"] += 1
        elif m[0] == "skip":
            rec["skipped"] += 1
            rec["note"] = "skipped: " + m[1]
        elif m[0] == "bad":
            rec["cases"] += 1
            fails.append(m[1])
        elif m[0] == "note":
            rec["note"] = m[1]
        elif m[0] == "harness":
            rec["skipped"] += 1
            rec["note"] = "harness: " + m[1]
            rec["trace"] = m[2]
            rec["harness_errors"] = rec.get("harness_errors", 0) + 1
        elif m[0] == "end":
            ended = True
            break
    if not ended:
        try:
            if fails and "processor time" in fails[-1]["message"]:
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    st = os.waitpid(pid, 0)[1]
    if not ended and os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH and cur is not None:
        rec["cases"] += 1
        fails.append(dict(item=item.name, case=cur, seed=a.seed, message="the process ended with signal %d" % os.WTERMSIG(st), inputs={}))
    elif not ended and not fails:
        rec["note"] = "harness: the process ended (status %d)" % st
    rec["seconds"] = round(time.time() - ti, 2)
    return rec, fails


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--only", default="")
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--nobuild", action="store_true")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="verif_rt_")
    os.environ["VERIF_SCRATCH"] = tmp
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(tmp, "mpl"))
    out = dict(pid=a.pid, items=[], failures=[], error=None)
    real = sys.stdout
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            os.makedirs(os.path.join(tmp, "cy"), exist_ok=True)
            try:
                if a.pid not in ("C01", "C02", "C03", "C04", "C18", "C22"):
                    lib.build_cython(os.path.join(tmp, "cy"))
            except Exception as e:
                out["error"] = "build: %s" % e
                raise SystemExit
            sys.path[1:1] = [os.path.join(tmp, "cy"), lib.SRC]
            warnings.simplefilter("ignore")
            import numpy as np
            np.seterr(all="ignore")
            __import__(a.pid.lower())
            t0 = time.time()
            for item in lib.ITEMS[a.pid]:
                if a.only and a.only != item.name:
                    continue
                rec, fl = run_item(item, a, t0)
                out["items"].append(rec)
                out["failures"] += fl
    except SystemExit:
        pass
    except BaseException as e:
        import traceback
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-2000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    json.dump(out, real, indent=1)
    real.write("\n")


main()
