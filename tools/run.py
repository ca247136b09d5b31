#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: build the harnesses of a property from /repo's working tree, search,
   write /verif/evidence/PROPERTY.json, report. Exit 0: held on everything explored; 1: VIOLATION printed; 2: error."""
import json, os, subprocess, sys, tempfile, shutil, time, argparse
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from props import P

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == prop: out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args()
    prop, t0 = a.property, time.time()
    runs = P[prop]; kf = known_findings(prop)
    try:
        built = B.build(sorted({r["check"] for r in runs}), a.repo)
    except B.BuildError as e:
        print("build failed:", str(e)[-4000:]); return 2
    tbuild = time.time() - t0
    os.makedirs(a.evidence, exist_ok=True)
    repd = os.path.join(a.evidence, "replays"); os.makedirs(repd, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf.")
    ev = dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, discarded=0, rule=[], samples=[], classes={}, harnesses=[], known_hits=0, unreproduced=0)
    viol = []
    try:
        for f in kf:   # listed findings: shown by their own committed reproduction
            b, progs = built[f["check"]]
            env = dict(os.environ, VERIF_REPO=a.repo, **{"PROG_" + k.upper(): v for k, v in progs.items()})
            sd = os.path.join(scratch, "k"); os.makedirs(sd, exist_ok=True)
            r = subprocess.run([b, "--replay", os.path.join(VERIF, f["replay"]), "--scratch", sd], capture_output=True, text=True, errors="replace", env=env)
            shutil.rmtree(sd, ignore_errors=True)
            if r.returncode == 1: print(f"KNOWN-FINDING: property={prop} {f['what']}")
            else: print(f"note: listed finding no longer fails: {f['what']}")
        for i, r in enumerate(runs):
            b, progs = built[r["check"]]
            sd = os.path.join(scratch, str(i)); os.makedirs(sd)
            kn = os.path.join(scratch, f"known{i}")
            with open(kn, "w") as k:
                for f in kf:
                    if f["check"] == r["check"]: k.write(f["sub"] + "\t" + f["tag"] + "\n")
            cases = int(r["quick"] * a.scale); tmax = r.get("time", 200)
            if a.tier == "thorough": cases = int(cases * r.get("scale", 30)); tmax = r.get("ttime", 780 // len(runs))
            out = os.path.join(scratch, f"out{i}.json")
            cmd = [b, "--prop", prop, "--seed", str(a.seed), "--cases", str(cases), "--time", str(tmax), "--workers", str(r.get("workers", 8)),
                   "--out", out, "--scratch", sd, "--known", kn, "--tier", a.tier, "--replay-dir", repd, "--case-timeout", str(r.get("timeout", 20))]
            if r.get("only"): cmd += ["--only", r["only"]]
            env = dict(os.environ, VERIF_REPO=a.repo, VERIF_DIR=VERIF, **{"PROG_" + k.upper(): v for k, v in progs.items()})
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env)
            shutil.rmtree(sd, ignore_errors=True)
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("harness error", r["check"], p.returncode, p.stdout[-2000:], p.stderr[-4000:]); return 2
            d = json.load(open(out))
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "known_hits", "unreproduced"): ev[k] += d[k]
            ev["discarded"] += d["discards"]
            ev["rule"] += [f"{r['check']}/{k}: {v}" for k, v in d["rules"].items()]
            ev["samples"] += d["samples"][:12]
            for k, v in d["labels"].items(): ev["classes"][r["check"] + "/" + k] = v
            ev["harnesses"].append(dict(check=r["check"], cases=d["evaluations"], wall_s=d["wall_s"]))
            if d["unreproduced"]: print("note: not reproduced on replay, not reported:", d["unreproduced_what"].strip())
            for f in d["failures"]:
                viol.append(f)
                print(f"--- {f['sub']}: {f['tag']}\n{f['msg'][:3000]}")
                print(f"VIOLATION property={prop} replay={f['replay']}", flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev["rule"] = "Generated from pinned choice sequences (structured generators, one per sub-check); a case is non-trivial when: " + "; ".join(ev["rule"])
    doc = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", coverage=ev,
               assumptions=["the reference model/oracle in /verif is right", "sanitized build (clang ASan+UBSan) behaves as the release build" ],
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(a.evidence, prop + ".json"), "w") as f: json.dump(doc, f, indent=1)
    print(f"{prop} {a.tier} seed={a.seed}: {ev['evaluations']} cases, {ev['distinct_nontrivial']} distinct non-trivial, {len(viol)} violations, build {tbuild:.1f}s, total {time.time()-t0:.1f}s")
    if not viol and ev["evaluations"] == 0: print("nothing was evaluated"); return 2
    return 1 if viol else 0
sys.exit(main())
