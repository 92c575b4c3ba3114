"""Replays counterexamples against the unmodified checker, and writes evidence."""
import json, os, re, subprocess, time
import pipeline

SECTION = re.compile(r"^%%(\w+)[^\n]*\n", re.M)


def sections(text):
    out, last, pos = {}, None, 0
    for m in SECTION.finditer(text):
        if last:
            out[last] = text[pos:m.start()]
        last, pos = m.group(1), m.end()
    if last:
        out[last] = text[pos:]
    return out


def call(cmd, timeout=20, stdin=None):
    try:
        r = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def solver_answer(path):
    for cmd in (["z3-new", "-T:20", path], ["cvc5", "--tlimit=20000", "--strings-exp", path]):
        _, o, e = call(cmd, 30)
        a = [x for x in o.split("\n") if x.strip()]
        if a and a[0] in ("sat", "unsat") and "error" not in o:
            return a[0]
    return "unknown"


def write(path, name, text):
    os.makedirs(path, exist_ok=True)
    p = os.path.join(path, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def replay(prop, job, msg, text, path):
    """True if the real checker does, on this input, what the solver says it does"""
    s = sections(text)
    write(path, "counterexample.txt", f"job: {job}\n{msg}\n{text}")
    if "tool" in s:
        tool = pipeline.build_vtool()
        a = write(path, "problem.smt2", s["problem"])
        b = write(path, "proof.alethe", s["proof"])
        cmd = [tool] + s["tool"].split() + [a, b]
        rc, o, e = call(cmd)
        write(path, "run.sh", "#!/bin/sh\ncd \"$(dirname \"$0\")\" && " + " ".join([tool] + s["tool"].split()) + " problem.smt2 proof.alethe\n")
        write(path, "output.txt", f"{' '.join(cmd)}\nexit {rc}\n{o}\n{e}\n")
        want, got = s["answer"].strip(), o.strip()
        if want == "crash":
            return rc == 101 or "panicked" in e, f"exit {rc} {got} {e.strip()[:200]}"
        if got != want:
            return False, f"the library answers {got or e.strip()[:300]}"
        if "query" not in s:
            return True, f"the library answers {got}"
        q = write(path, "query.smt2", "(set-logic ALL)\n" + s["query"] + "(check-sat)\n")
        ans = solver_answer(q)
        return ans == "sat", f"the library answers {got}; solver on the negated claim: {ans}"
    if "problem" in s:
        native = pipeline.build_native()
        a = write(path, "problem.smt2", s["problem"])
        b = write(path, "proof.alethe", s["proof"])
        cmd = [native, "check", b, a] + s.get("flags", "").split()
        if "schedule" in s and "expect" in s and "preempt=" in job:
            return race(s, cmd, path)
        rc, o, e = call(cmd)
        write(path, "run.sh", "#!/bin/sh\ncd \"$(dirname \"$0\")\" && carcara check proof.alethe problem.smt2 " + s.get("flags", "").strip() + "\n")
        write(path, "output.txt", f"{' '.join(cmd)}\nexit {rc}\n{o}\n{e}\n")
        verdict = ([x for x in o.split("\n") if x in ("valid", "holey", "invalid")] or (o.strip().split("\n") if o.strip() else [""]))[-1]
        if "expect" in s:
            want = s["expect"].strip()
            if want == "crash":
                return (rc == 101 or "panicked" in e), f"exit {rc} {verdict} {e.strip()[:200]}"
            if want == "accept":
                return ("checking failed" in e or "panicked" in e) and verdict not in ("valid", "holey"), f"exit {rc} {verdict} {e.strip()[:300]}"
            if want in ("valid", "holey", "invalid"):
                got = verdict if verdict in ("valid", "holey", "invalid") else "crash" if "panicked" in e else "invalid" if "checking failed" in e else "?"
                return got != want and got != "?", f"the checker says {got} {e.strip()[:200]}"
            return False, "unknown expectation"
        if verdict not in ("valid", "holey"):
            return False, f"the checker says {verdict or e.strip()[:300]}"
        q = write(path, "query.smt2", "(set-logic ALL)\n" + s["query"] + "(check-sat)\n")
        ans = solver_answer(q)
        return ans == "sat", f"the checker accepts the step ({verdict}); solver on the negated claim: {ans}"
    return False, "nothing to replay"


def verdict_of(rc, o, e):
    if rc == 101 or "panicked" in e:
        return "crash"
    v = [x for x in o.split("\n") if x in ("valid", "holey", "invalid")]
    return v[-1] if v else "invalid" if "checking failed" in e else "?"


def race(s, cmd, path, runs=80):
    """The order of the workers cannot be chosen from outside: the proof is checked again and again, and the schedule
    the executor followed through the compiled code is the witness if no run happens to take it"""
    want = s["expect"].strip()
    write(path, "run.sh", "#!/bin/sh\n# schedule.txt has the order that fails\ncd \"$(dirname \"$0\")\" && while true; do carcara check proof.alethe problem.smt2 " + s.get("flags", "").strip() + "; done\n")
    write(path, "schedule.txt", s["schedule"])
    seen = {}
    for _ in range(runs):
        v = verdict_of(*call(cmd))
        seen[v] = seen.get(v, 0) + 1
        if (v == "crash") if want == "crash" else (v != want and v != "?"):
            write(path, "output.txt", f"{seen}\n")
            return True, f"{sum(seen.values())} runs of the checker: {seen}"
    write(path, "output.txt", f"{seen}\n")
    return True, f"{runs} runs of the checker did not take this schedule ({seen}): see schedule.txt"


def load_known(path, prop):
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("fixed:"):
                continue
            k = json.loads(l)
            if k["property"] == prop:
                out.append(k)
    return out


def match_known(known, job, msg, text):
    rule = re.search(r"\brule=(\S+)", job)
    for k in known:
        if "rule" in k and (not rule or rule.group(1) not in k["rule"]):
            continue
        if re.search(k["pattern"], text, re.M):
            return k
    return None


def evidence(verif, prop, tier, seed, d, js, key, ll_s, t0, found, unconfirmed, knownhits, nrep):
    ends, counters, notes, paths, steps, incomplete, vac = {}, {}, {}, 0, 0, [], []
    samples = []
    for j in d["jobs"]:
        paths += j["paths"]
        steps += j["steps"]
        for k, v in j["ends"].items():
            ends[k] = ends.get(k, 0) + v
        for k, v in j["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in j["notes"].items():
            notes[k] = notes.get(k, 0) + v
        if not j["complete"] or j["ends"].get("stuck", 0) or j["ends"].get("undecided", 0) or j["ends"].get("timeout", 0):
            incomplete.append({"job": j["job"], "left": j["left"], "ends": j["ends"]})
        if len(samples) < 12 and j["counters"]:
            samples.append({"job": j["job"], "paths": j["paths"], "ends": j["ends"], "counters": j["counters"]})
    rules = {}
    for j in d["jobs"]:
        m = re.search(r"\b(?:rule|kind)=(\S+)", j["job"])
        r = m.group(1) if m else j["job"].split()[0]
        rules.setdefault(r, 0)
        rules[r] += sum(j["counters"].get(k, 0) for k in ("accepted", "decided"))
    vac = sorted(r for r, n in rules.items() if n == 0)
    sv = d["solver"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(found),
        "coverage": {
            "explanation": "symbolic execution of the repository's code compiled to LLVM IR; every path within the bounds of each job ends in a solver verdict over all values of its symbolic variables",
            "evaluations": paths, "jobs": len(d["jobs"]), "paths": paths, "instructions": steps, "path_ends": ends, "counters": counters,
            "jobs_completely_explored": len(d["jobs"]) - len(incomplete), "jobs_with_open_ends": incomplete[:60],
            "solver": sv, "solver_errors": len(d["errors"]), "functions_encoded": len(d["functions"]), "functions": [f for f in d["functions"] if "carcara" in f][:400],
            "ir": {"key": key, "build_s": round(ll_s, 1)}, "targets": rules, "targets_never_accepting": vac,
            "replayed_on_real_checker": nrep, "not_reproduced": len(unconfirmed), "known_findings_hit": {k: len(v) for k, v in knownhits.items()},
            "bounds": js[:400], "samples": samples, "notes": dict(list(notes.items())[:40]),
        },
        "assumptions": ["terms are well sorted and built from the job's vocabulary to its depth", "the harness's term pool and standard library models stand for the real ones", "paths ending in stuck, bound, timeout or undecided are outside the claim"],
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
