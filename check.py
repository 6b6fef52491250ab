#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]

1. engine/: generate the obligations of the contracts on /repo's current source and discharge them
   (normal form, z3, cvc5).
2. rt/: the same contracts evaluated on the running code (bounded stand-in for what the verifier cannot
   reach, replay of counterexamples, cross-check of the verifier's reading of the code).
Exit 0, or exit 1 with a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import sys, os, json, time, subprocess, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "python3-vt"
PY = "/opt/venv/bin/python"
TRUST = [
    "engine/ (symbolic reading of the Python/numpy subset, loop rules, term normaliser) and z3 / cvc5",
    "machine floating point and fixed-width integers treated as mathematical reals and integers",
    "numpy / scipy / numexpr functions as modelled in engine/npstub.py (documented meaning)",
]


def start_engine(pid, tier, budget, names=None):
    a = [VT, os.path.join(HERE, "engine", "main.py"), pid, "--json", "--tier", tier, "--budget", str(budget)]
    env = dict(os.environ)
    if names:
        a += ["--names", json.dumps(names)]
        env["VERIF_SLOW"] = "4"
    return subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, env=env)


def start_rt(pid, seed, scale, budget, only=None):
    a = [PY, os.path.join(HERE, "rt", "run.py"), pid, "--seed", str(seed), "--scale", str(scale), "--budget", str(budget)]
    if only:
        a += ["--only", only]
    return subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE)


def finish(p, timeout, what):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "%s: no answer within %ds" % (what, timeout)
    try:
        return json.loads(out), None
    except ValueError:
        return None, "%s: exit %s, %s" % (what, p.returncode, err.decode(errors="replace")[-800:])


# facts of analysis and linear algebra used by the contracts, proved in lemmas/*.lean (trusted as they stand when Lean
# does not answer); they do not depend on the repository
LEMMAS = {
    "det(D^-1 A D) = det A": ("Similarity.lean", "det_bal, trace_bal"),
    "i_l, k_l positive with x i_{l-1} > (2l+1) i_l, x k_{l+1} > (2l+1) k_l (recurrences)": ("Bessel.lean", "k_pos, k_ratio, i_pos, i_rec, i_ratio, wronskian"),
    "i_l, (x i_l)' increase and k_l, -(x k_l)' decrease with x": ("Bessel.lean", "i_mono, dxi_mono, k_anti, dxk_anti"),
    "leading terms of k_l, i_l at 0": ("Bessel.lean", "i_lead, k_lead"),
    "the factor c^(l1-l2) leaves traces and determinants unchanged": ("Similarity.lean", "similarity_det, trace_bal"),
}
USES = {"C11": ["Similarity.lean"], "C12": ["Similarity.lean"], "C04": ["Bessel.lean"], "C06": ["Bessel.lean"], "C07": ["Bessel.lean"], "C08": ["Bessel.lean"],
        "C09": ["Bessel.lean"], "C10": ["Bessel.lean"]}


def start_lean(pid):
    out = []
    for f in USES.get(pid, []):
        try:
            # Lean names a .olean next to nothing: the file is only checked
            out.append((f, time.time(), subprocess.Popen(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(HERE, "lemmas"))))
        except OSError:
            pass
    return out


def finish_lean(ps):
    done = {}
    for f, t, p in ps:
        try:
            out = p.communicate(timeout=max(1, 180 - (time.time() - t)))[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            continue
        ax = set()
        for l in out.splitlines():
            if "depends on axioms: [" in l:
                ax |= {x.strip() for x in l.split("[", 1)[1].rstrip("]").split(",")}
        if p.returncode == 0 and "error" not in out and ax and ax <= {"propext", "Classical.choice", "Quot.sound"}:
            done[f] = dict(file="lemmas/" + f, theorems=out.count("depends on axioms"), axioms=sorted(ax), checker="lean (Mathlib)")
    return done


def known(pid):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("open: property=%s " % pid):
                out.append(l[len("open: property=%s " % pid):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    pid, tier = a.pid, "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    quick = tier == "quick"
    ebud, rbud = (150, 100) if quick else (1500, 1200)
    pe = start_engine(pid, tier, ebud)
    pl = start_lean(pid)
    pr = start_rt(pid, seed, 1 if quick else 12, rbud)
    rt, rerr = finish(pr, rbud + 120, "run-time contracts")
    en, eerr = finish(pe, ebud + 120, "verifier")
    lem = finish_lean(pl)
    en = en or []
    rt = rt or dict(items=[], failures=[], error=rerr)

    # an obligation that was not discharged gets a second attempt with four times the solver time
    hard = lambda o: o["status"] != "proved" and not o.get("soft") and o["kind"] != "loop"
    again = [c["name"] for c in en if not c["stuck"] and not c["error"] and any(hard(o) and not o.get("refuted") for o in c["obs"])]
    if again and not rt["failures"]:
        p2 = start_engine(pid, tier, ebud * 2, again)
        en2, _ = finish(p2, ebud * 2 + 120, "verifier, second attempt")
        new = {c["name"]: c for c in en2 or []}
        en = [new.get(c["name"], c) if not (new.get(c["name"], c)["stuck"] or new.get(c["name"], c)["error"]) else c for c in en]
    obs = [(c, o) for c in en for o in c["obs"]]
    openo = [(c, o) for c, o in obs if o["status"] != "proved"]
    stuck = [c for c in en if c["stuck"] or c["error"]]
    failed = [(c, o) for c, o in openo if o.get("refuted") or (hard(o) and not c["stuck"] and not c["error"])]
    extra = []
    if not rt["failures"] and (openo or stuck) and not rt.get("error"):
        # an obligation is not discharged: look harder for a failing input of the real code
        for k in range(1, 4 if quick else 6):
            if time.time() - t0 > (240 if quick else 2400):
                break
            r2, e2 = finish(start_rt(pid, seed + 1000 * k, 2.5, 70), 200, "search")
            if r2:
                extra.append(sum(i["cases"] for i in r2["items"]))
                if r2["failures"]:
                    rt["failures"] = r2["failures"]
                    break
    kf = known(pid)
    lines, viol = [], 0
    for l in kf:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, l))
    fails = rt["failures"]
    failed_ob = [dict(contract=c["name"], obligation=o["name"], status=o["status"], detail=o.get("detail", ""), path=o.get("path"), counterexample=o.get("refuted")) for c, o in openo]
    und = [dict(contract=c["name"], functions=c["quals"], why=c["stuck"] or c["error"]) for c in stuck]
    if fails or failed:
        viol = 1
        rep = dict(property=pid, tier=tier, seed=seed, repository_commit=head(),
                   failing_inputs=[dict(f, rerun="cd %s && %s rt/run.py %s --only %r --case %d --seed %s" % (HERE, PY, pid, f["item"], f["case"], f["seed"])) for f in fails[:8]],
                   failed_obligations=failed_ob[:40], undecided=und)
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(rep, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if fails else " no-failing-input-found"))
        for f in fails[:3]:
            lines.append("  failing input: %s: %s" % (f["item"], f["message"][:400]))
        for o in failed_ob[:5]:
            lines.append("  failed obligation: %s / %s (%s)" % (o["contract"], o["obligation"], o["status"]))

    posts = [x for x in obs if x[1]["kind"] == "post"]
    by = {}
    for c, o in obs:
        if o["status"] == "proved":
            for b in (o["by"] or "nf").split("+"):
                by[b] = by.get(b, 0) + 1
    funcs = {}
    for c in en:
        st = "undecided" if (c["stuck"] or c["error"]) else "discharged" if all(o["status"] == "proved" for o in c["obs"]) and c["obs"] else "open"
        for q in c["quals"]:
            funcs.setdefault(q, []).append("%s: %s" % (c["name"], st))
    good = [c for c in en if c["obs"] and not c["stuck"] and not c["error"] and all(o["status"] == "proved" for o in c["obs"])]
    allproved = bool(en) and len(good) == len(en)
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    except Exception:
        pass
    level = man.get(pid, {}).get("level", "proof")
    cov = dict(
        obligations=len(obs), discharged=sum(1 for _, o in obs if o["status"] == "proved"),
        checker_cmd="%s engine/main.py %s --tier %s" % (VT, pid, tier),
        trusted_base=TRUST + sorted({t for c in en for t in c.get("trust", []) if not (t in LEMMAS and LEMMAS[t][0] in lem)}) + (["Lean kernel, Mathlib (lemmas)"] if lem else []),
        lemmas=list(lem.values()), facts_proved_as_lemmas=["%s: lemmas/%s, %s" % (t, LEMMAS[t][0], LEMMAS[t][1]) for t in sorted({t for c in en for t in c.get("trust", [])}) if t in LEMMAS and LEMMAS[t][0] in lem],
        postconditions=len(posts), postconditions_discharged=sum(1 for _, o in posts if o["status"] == "proved"),
        contracts=len(en), contracts_fully_discharged=len(good), discharged_by=by,
        functions_under_contract=funcs, code_executed_symbolically=sorted({u for c in en for u in c.get("used", [])}),
        symbolic_paths=sum(c["paths"] for c in en), solver_seconds=round(sum(c["solver"] for c in en), 2),
        verifier_seconds=round(sum(c["seconds"] for c in en), 2),
        open_obligations=failed_ob[:60], undecided_contracts=und, verifier_error=eerr,
        bounded=dict(label="bounded: run-time contracts on the real code, never counted as proved",
                     evaluations=sum(i["cases"] for i in rt["items"]) + sum(extra), seeds=[seed],
                     items=[{k: v for k, v in i.items() if k != "trace"} for i in rt["items"]], error=rt.get("error")),
    )
    if level != "proof":
        cov["evaluations"] = cov["bounded"]["evaluations"]
        cov["distinct_nontrivial"] = sum(i["cases"] for i in rt["items"])
        cov["rule"] = "each case is drawn from a seeded generator of the item's input domain; cases are distinct by construction of the seed, skipped ones are not counted"
        cov["samples"] = [i["item"] for i in rt["items"]]
        cov["explanation"] = man.get(pid, {}).get("level_note", "")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=["run-time numbers are compared with the stated tolerances; rounding errors below them are not seen"]
              + ["%s: %s" % (x["contract"], x["why"]) for x in und]
              + ["not discharged, bounded stand-in only: %s / %s" % (o["contract"], o["obligation"]) for o in failed_ob])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s %s: %d contracts (%d fully discharged), %d/%d obligations, %d run-time cases, %.1fs" % (
        pid, tier, len(en), len(good), cov["discharged"], cov["obligations"], cov["bounded"]["evaluations"], ev["wall_s"]))
    for x in und:
        print("  undecided by the verifier: %s (%s)" % (x["contract"], x["why"]))
    for o in failed_ob:
        print("  not discharged: %s / %s" % (o["contract"], o["obligation"]))
    if viol:
        sys.exit(1)
    if rt.get("error") and not en:
        print("check could not run: %s / %s" % (rt.get("error"), eerr))
        sys.exit(2)
    if not any(i["cases"] for i in rt["items"]) and not good:
        print("nothing was decided")
        sys.exit(2)
    sys.exit(0)


def head():
    try:
        return subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return ""


main()
