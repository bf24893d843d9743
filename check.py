#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough]     decides one property
check.py --suite SUITE PROFILE NUM [SEED]      runs a suite and prints all failing clauses (for development)
check.py --replay FILE                         replays the behaviours of a replay file
"""
import json, os, sys, time, tempfile, shutil, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
from vp import Broken
from suites import SUITES
from props import PROPS

BASE = int(os.environ.get("VERIF_SEED", "1") or 1)


def plans_of(suite, profile, num, seed, work, jobs):
    """jobs JVMs generate num behaviours between them; tids are unique in the run"""
    s = SUITES[suite]
    if s.get("mode", "simulate") != "simulate":
        p, st = vp.generate(s["gen"], s["gen"] + ".cfg", profile, num, 0, seed, work, mode="enumerate")
        if num and len(p) > num:                       # a seeded sample of the enumeration
            import random
            p = random.Random(seed).sample(p, num)
        return p, st
    jobs = max(1, min(jobs, num // 5))
    from concurrent.futures import ThreadPoolExecutor
    share = [num // jobs + (1 if k < num % jobs else 0) for k in range(jobs)]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: vp.generate(s["gen"], s["gen"] + ".cfg", profile, share[k], s["depth"],
                                               vp.seed_of(seed, suite, profile, k), work), range(jobs)))
    return sum((r[0] for r in rs), []), (sum(r[1][0] for r in rs), sum(r[1][1] for r in rs))


def run_suite(suite, profiles, seed, work):
    """profiles: list of (profile, num). Returns plans, traces, fails, statistics"""
    from concurrent.futures import ThreadPoolExecutor
    s = SUITES[suite]
    tot = sum(n for _, n in profiles) or 1
    with ThreadPoolExecutor(8) as ex:
        gens = list(ex.map(lambda pn: plans_of(suite, pn[0], pn[1], seed, work, max(1, round(8 * pn[1] / tot))), profiles))
    plans, seen = {}, set()
    for (ps, _), (prof, _) in zip(gens, profiles):
        for p in ps:
            if p in seen:
                continue
            seen.add(p)
            tid = len(plans) + 1
            d = json.loads(p)
            d["tid"] = tid
            plans[tid] = json.dumps(d)
    lines, errs = vp.replay(s["driver"], [plans[t] for t in sorted(plans)], work)
    if errs:
        raise Broken("\n".join(errs))
    if len(lines) != len(plans):
        raise Broken(f"driver {s['driver']}: {len(lines)} behaviours recorded of {len(plans)}")
    fails, total = vp.validate(s["trace"], lines, work)
    return plans, {json.loads(x)["tid"]: x for x in lines} if fails else {}, fails, total, lines


def load_known():
    path = os.path.join(vp.ROOT, "known-findings.txt")
    return [json.loads(x) for x in open(path) if x.startswith("{")] if os.path.exists(path) else []


def known(entries, prop, suite, ev, clause):
    """the entry of the known-findings file for this very failure: same property, suite, clause and inputs"""
    def match(pat, v):
        if isinstance(pat, dict):
            return isinstance(v, dict) and all(k in v and match(x, v[k]) for k, x in pat.items())
        return pat == v
    for k in entries:
        if k.get("status") == "known" and k["property"] == prop and k["suite"] == suite and clause in k["clauses"] \
                and match(k["event"], ev):
            return k
    return None


def decide(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = vp.seed_of(BASE, prop)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    mcs, nstates, ntrans, ntraces, nevents, bad, hits = [], 0, 0, 0, 0, [], {}
    samples, per = [], collections.Counter()
    entries = load_known()
    budget = 600 if tier == "thorough" else None
    rounds = 0
    try:
        done = set()
        for run in P["runs"]:
            for m in SUITES[run["suite"]].get("mc_" + tier, SUITES[run["suite"]].get("mc", [])):
                if m in done:
                    continue
                done.add(m)
                r = vp.model_check(m[0], m[1], work)
                if not r["ok"]:
                    raise Broken(f"the specification violates {r['violated']}: {r['out'][-3000:]}")
                mcs.append({k: r[k] for k in ("module", "config", "states", "transitions", "wall_s")})
                nstates += r["states"]; ntrans += r["transitions"]
        while True:
            rounds += 1
            for run in P["runs"]:
                suite = run["suite"]
                profs = [(p, n * (4 if tier == "thorough" else 1)) for p, n in run["profiles"]]
                plans, traces, fails, total, lines = run_suite(suite, profs, vp.seed_of(seed, rounds), work)
                ntraces += len(lines); nevents += total[0] - len(lines)
                nstates += total[0]; ntrans += total[1]
                for p, n in profs:
                    per[f"{suite}/{p}"] += n
                if len(samples) < 3:
                    x = json.loads(lines[len(lines) // 2])
                    samples.append({"suite": suite, "behaviour": json.loads(json.dumps(x))} if len(json.dumps(x)) < 20000
                                   else {"suite": suite, "plan": json.loads(plans[x["tid"]])})
                want = set(run["clauses"]) | {"crash"}
                for tid, step, op, clause in fails:
                    if clause not in want:
                        continue
                    b = json.loads(traces[tid])
                    k = known(entries, prop, suite, b["evs"][step - 1], clause)
                    if k:
                        hits[k["id"]] = k
                    else:
                        bad.append({"suite": suite, "tid": tid, "step": step, "op": op, "clause": clause,
                                    "plan": json.loads(plans[tid]), "event": b["evs"][step - 1]})
            if tier != "thorough" or bad or time.time() - t0 > budget:
                break
            # another round, if it fits
            if (time.time() - t0) * (rounds + 1) / rounds > budget + 60:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov = {"states": nstates, "transitions": ntrans, "traces_validated_against_impl": ntraces,
           "events_judged": nevents, "model_checking_runs": mcs, "behaviours_by_profile": dict(per), "rounds": rounds,
           "clauses": sorted({c for r in P["runs"] for c in r["clauses"]} | {"crash"}), "samples": samples,
           "exhaustive": False}
    os.makedirs(os.path.join(vp.ROOT, "evidence"), exist_ok=True)
    rp = None
    if bad:
        d = os.path.join(vp.ROOT, "build", "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{prop}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": BASE,
                       "how": f"{vp.ROOT}/check.py --replay {rp}", "failures": bad[:20]}, f, indent=1)
        c = collections.Counter(b["clause"] for b in bad)
        cov["failing_clauses"] = dict(c)
    with open(os.path.join(vp.ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": BASE, "level": "model_checking", "coverage": cov,
                   "assumptions": P.get("assumptions", []) + COMMON,
                   "wall_s": round(time.time() - t0, 1), "violations": len(bad)}, f, indent=1)
    for k in hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad:
        b = bad[0]
        print(f"{len(bad)} violations: {dict(c)}; first: suite {b['suite']} step {b['step']} ({b['op']}) clause {b['clause']}")
        print(json.dumps({k: v for k, v in b["event"].items() if k not in ("st", "rows", "uis", "dig")})[:1500])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop} held: {nstates} states, {ntraces} behaviours ({nevents} events) validated, {time.time() - t0:.0f} s")
    return 0


COMMON = ["TLC, its Java override for exact rationals (module Rat) and the drivers are trusted",
          "the code is observed on the generated behaviours only; the model is checked exhaustively within its constants"]


def main():
    a = sys.argv[1:]
    if a[0] == "--suite":
        seed = int(a[4]) if len(a) > 4 else 1
        work = tempfile.mkdtemp(prefix="verif-dev-")
        keep = os.environ.get("KEEP", "/tmp/x/tr.ndjson")
        t = time.time()
        plans, traces, fails, total, lines = run_suite(a[1], [(p, int(a[3])) for p in a[2].split(",")], seed, work)
        shutil.rmtree(work)
        with open(keep, "w") as f:
            f.write("\n".join(lines) + "\n")
        print(len(lines), "behaviours", total, f"{time.time() - t:.1f} s")
        for (o, c), n in collections.Counter((o, c) for _, _, o, c in fails).most_common():
            print(n, o, c, [(x, y) for x, y, oo, cc in fails if (oo, cc) == (o, c)][:6])
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        bad = 0
        for f in d["failures"]:
            s = SUITES[f["suite"]]
            work = tempfile.mkdtemp(prefix="verif-replay-")
            lines, errs = vp.replay(s["driver"], [json.dumps(f["plan"])], work)
            fails, _ = vp.validate(s["trace"], lines, work)
            shutil.rmtree(work)
            hit = [x for x in fails if x[1] == f["step"] and x[3] == f["clause"]]
            print(f["suite"], "tid", f["tid"], "step", f["step"], f["clause"], "still fails" if hit else "passes", [x[1:] for x in fails][:8])
            bad += bool(hit)
        return 1 if bad else 0
    if a[0] == "--setup":
        print(vp.classes())
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return decide(a[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK BROKEN:", e)
        sys.exit(3)
