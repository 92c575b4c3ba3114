#!/usr/bin/env python3
"""run.py <property> [quick|thorough]

Regenerates the encoding from the repository's current source, decides every job of the property
symbolically, replays what the solver found against the unmodified command-line checker, and
reports. Exit 0: nothing found. Exit 1: a VIOLATION line was printed."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import jobs as jobtable  # noqa: E402
import pipeline  # noqa: E402
import replay as rep  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pipeline.build_std()
    carsym = pipeline.build_carsym()
    ll, key, ll_s = pipeline.build_ll()
    work = os.path.join(pipeline.BUILD, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    js = jobtable.jobs(prop, tier)
    jf = os.path.join(work, "jobs.txt")
    open(jf, "w").write("\n".join(js) + "\n")
    out = os.path.join(work, "out.json")
    job_s, total = jobtable.limits(prop, tier)
    budget = max(60, total - (time.time() - t0))
    threads = os.cpu_count() or 4
    log = open(os.path.join(work, "log.txt"), "w")
    try:
        subprocess.run([carsym, ll, jf, out, str(threads), str(int(budget)), str(job_s), "200000"], stdout=log, stderr=log, timeout=budget + 120)
        d = json.load(open(out))
    except Exception as e:
        # no verdict from the engine: say so rather than claim anything
        print(f"engine failure: {e}", file=sys.stderr)
        return 3
    known = rep.load_known(os.path.join(VERIF, "known-findings.jsonl"), prop)
    found, unconfirmed, knownhits, nrep = [], [], {}, 0
    seen = set()
    for j in d["jobs"]:
        per = 0
        for msg, text in j["violations"]:
            h = hashlib.sha256(text.encode()).hexdigest()[:12]
            if h in seen:
                continue
            seen.add(h)
            k = rep.match_known(known, j["job"], msg, text)
            if k:
                knownhits.setdefault(k["id"], []).append(text)
                continue
            if per >= 6 or len(found) >= 12:
                continue
            per += 1
            nrep += 1
            path = os.path.join(work, "replay", h)
            ok, why = rep.replay(prop, j["job"], msg, text, path)
            (found if ok else unconfirmed).append((path, j["job"], msg, why))
    for k in known:
        if k["id"] in knownhits:
            # a listed finding is shown to be real once per run
            path = os.path.join(work, "replay", "known-" + k["id"])
            nrep += 1
            rep.replay(prop, "known", "", knownhits[k["id"]][0], path)
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, job, msg, why in unconfirmed:
        print(f"note: not reproduced on the real checker ({why}): {job} {msg} {path}")
    for path, job, msg, why in found:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {job}: {msg}: {why}")
    rep.evidence(VERIF, prop, tier, seed, d, js, key, ll_s, t0, found, unconfirmed, knownhits, nrep)
    return 1 if found else 0


sys.exit(main())
