#!/usr/bin/env python3
"""Build /verif/seeded/<id> from tools/seeds.py after confirming each in a scratch copy of /repo.
usage: mkseed.py [id ...]   (not used by any check)"""
import sys, os, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mpl", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
           NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", OPENBLAS_CORETYPE="Haswell", NUMEXPR_NUM_THREADS="1")
HEAD = '''import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "CasimirRio"))
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/bash
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)


def main():
    ids = sys.argv[1:]
    for s in SEEDS:
        sid = s["id"]
        if ids and sid not in ids:
            continue
        w = tempfile.mkdtemp(prefix="seed")
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        pyx = False
        for f, old, new in s["edits"]:
            p = os.path.join(r, "CasimirRio", f)
            t = open(p).read()
            n = t.count(old)
            want = s.get("count", 1)
            assert n == want, (sid, f, n)
            open(p, "w").write(t.replace(old, new))
            pyx |= f.endswith(".pyx")
        diff = run(["git", "diff"], r).stdout
        if pyx:
            inc = run([PY, "-c", "import numpy;print(numpy.get_include())"], w).stdout.strip()
            for m in ("cython_gaunt", "matrix_balancing"):
                b = subprocess.run([PY, m + "_setup.py", "build_ext", "--inplace", "--force"], cwd=r + "/CasimirRio", env=dict(ENV, CFLAGS="-I" + inc), capture_output=True, text=True)
                assert b.returncode == 0, b.stderr[-500:]
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "tests"], r + "/CasimirRio")
        tail = t.stdout.strip().splitlines()[-1]
        tests_ok = "55 passed" in tail
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(HEAD + s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        c = run(["bash", d + "/demo.sh"], "/repo")
        m = run(["bash", d + "/demo.sh"], r)
        good = tests_ok and c.returncode == 0 and m.returncode != 0
        print(sid, s["property"], "OK" if good else "BAD", tail, "clean", c.returncode, "mutated", m.returncode, (m.stderr.strip().splitlines() or [""])[-1][:120])
        if c.returncode:
            print(c.stderr[-600:])
        if good:
            o = os.path.join(HERE, "..", "seeded", sid)
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.py", o)
            shutil.copy(d + "/demo.sh", o)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(w)


main()
