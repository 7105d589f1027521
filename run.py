#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough - decides one property on /repo's current tree.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample
found by the solver fails when replayed on the natively compiled code.  Exit 2:
the check itself could not do its work."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, jobs as joblib  # noqa: E402

Z3 = "/usr/lib/x86_64-linux-gnu/libz3.so"
Z3NEW = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
REPLAYS = os.path.join(build.BUILD, "replays")
KNOWN = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
HANG = 30


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_all():
    try:
        return build.everything()
    except RuntimeError as e:
        log("build failed:", e)
        sys.exit(2)


def case(entry, cfg, inputs):
    return f"case {entry} {','.join(map(str, cfg)) or '0'} {','.join(f'{i}={v}' for i, v in inputs) or '0=0'}\n"


def native(binary, path, batch=False, timeout=HANG):
    """(status, output); status: held, failed, panic, hang, skipped"""
    try:
        p = subprocess.run([binary] + (["--batch"] if batch else []) + [path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace",
                           env={"PATH": os.environ.get("PATH", ""), "RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    out = p.stdout + p.stderr
    st = {0: "held", 10: "failed", 3: "skipped"}.get(p.returncode, "panic")
    return st, out


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    r = []
    for l in open(KNOWN):
        l = l.strip()
        if l.startswith("{"):
            k = json.loads(l)
            if k.get("status") == "open" and k["property"] == prop:
                r.append(k)
    return r


def matches(k, j, v):
    return k["entry"] == j["entry"] and k["cfg"] == j["cfg"] and dict(map(tuple, k["inputs"])) == dict(map(tuple, v["inputs"]))


def symex(b, lines, tag, deadline, opts=()):
    jf = os.path.join(build.BUILD, f"jobs-{tag}-{os.getpid()}")
    of = os.path.join(build.BUILD, f"out-{tag}-{os.getpid()}")
    with open(jf, "w") as f:
        f.writelines(lines)
    cmd = [b["engine"], "--ir", b["ir"], "--jobs", jf, "--out", of, "--threads", str(os.cpu_count() or 8),
           "--deadline", str(max(5, int(deadline))), *opts]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=deadline + 120)
        if p.returncode != 0:
            log("executor failed:", p.stderr[-2000:])
            sys.exit(2)
        with open(of) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        log("executor overran its deadline")
        sys.exit(2)
    finally:
        for f in (jf, of):
            if os.path.exists(f):
                os.remove(f)


def shape(j):
    return f"{j['entry']} {' '.join(map(str, j['cfg']))}"


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    b = build_all()
    tb = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    todo = joblib.jobs(prop, tier)
    lines = [f"{n} {e} {' '.join(map(str, c))}\n" for n, e, c in todo]
    quick = tier == "quick"
    deadline = 420 if quick else 640
    d = symex(b, lines, prop, deadline,
              ("--samples", "2" if quick else "4", "--seed", str(seed), "--timeout-ms", "20000" if quick else "60000"))
    J = d["jobs"]

    # ---- counterexamples: only what the natively compiled code confirms counts
    rep, known, unconf = [], [], []
    kf = known_findings(prop)
    cands = [(j, v) for j in J for v in j["violations"]]
    rel = None
    for n, (j, v) in enumerate(cands):
        path = os.path.join(REPLAYS, f"{prop}-{n}.case")
        with open(path, "w") as f:
            f.write(f"# property {prop}: {v['msg']}\n# replay with build/replay/debug/replay (see replay.sh)\n")
            f.write(case(j["entry"], j["cfg"], v["inputs"]))
        st, out = native(b["dev"], path)
        prof = "dev"
        if st in ("held", "skipped"):
            if rel is None:
                with build.Lock():
                    rel = build.replayer("release")
            st2, out2 = native(rel, path)
            if st2 not in ("held", "skipped"):
                st, out, prof = st2, out2, "release"
        tail = next((l for l in out.splitlines() if l.startswith("FAILED") or "panicked" in l), "")
        rec = {"msg": v["msg"], "job": shape(j), "inputs": v["inputs"], "native": st, "profile": prof, "native_says": tail,
               "path": path, "trace": v["trace"][:6]}
        if st in ("held", "skipped"):
            unconf.append(rec)
        elif any(matches(k, j, v) for k in kf):
            known.append(rec)
        else:
            rep.append(rec)
        if len(rep) >= 4:
            break

    # ---- sampled paths: what the executor observed must be what the real code does
    samples = [(j, s) for j in J for s in j["samples"]]
    validated, mismatch = 0, []
    if samples and not rep:
        sf = os.path.join(build.BUILD, f"samples-{prop}-{os.getpid()}")
        with open(sf, "w") as f:
            f.writelines(case(j["entry"], j["cfg"], s["inputs"]) for j, s in samples)
        st, out = native(b["dev"], sf, True, 200)
        obs = [l[4:] for l in out.splitlines() if l.startswith("obs ")]
        for (j, s), o in zip(samples, obs):
            if o.strip() == ",".join(map(str, s["obs"])):
                validated += 1
            else:
                mismatch.append((j, s, o))
        os.remove(sf)
        if st != "held":
            j, s = samples[len(obs)]
            path = os.path.join(REPLAYS, f"{prop}-sample.case")
            with open(path, "w") as f:
                f.write(case(j["entry"], j["cfg"], s["inputs"]))
            st, out = native(b["dev"], path)
            if st in ("failed", "panic", "hang"):
                rep.append({"msg": "a path the executor took to hold fails natively", "job": shape(j), "inputs": s["inputs"],
                            "native": st, "profile": "dev", "native_says": out[-300:], "path": path, "trace": []})
            else:
                mismatch.append((j, s, st))

    # ---- thorough: decide a part again with another solver and with pure bit-vector encodings
    cross = []
    if not quick and not rep:
        sub = sorted((j for j in J if j["complete"]), key=lambda j: j["wall"])
        left = max(0, 840 - (time.time() - t0))
        for nm, opts, share, dl in (("z3 %s" % "new", ("--z3", Z3NEW), 4, left * 0.5), ("bit-vectors only", ("--force-bv",), 8, left * 0.3)):
            if dl < 20:
                continue
            pick = [j for i, j in enumerate(sub) if i % share == seed % share and j["wall"] < dl / 8]
            ls = [f"{j['name']} {j['entry']} {' '.join(map(str, j['cfg']))}\n" for j in pick]
            if not ls:
                continue
            c = symex(b, ls, prop + "x", dl, opts)
            same = sum(1 for j, k in zip(pick, c["jobs"]) if k["complete"] and j["paths"] == k["paths"] and not k["violations"])
            diff = [shape(k) for j, k in zip(pick, c["jobs"]) if k["complete"] and (j["paths"] != k["paths"] or k["violations"])]
            cross.append({"with": nm, "solver": c["solver"], "jobs": len(pick), "same_verdict": same, "disagree": diff[:5],
                          "not_finished": sum(not k["complete"] for k in c["jobs"])})
            if diff:
                log("solvers disagree:", diff[:5])
                sys.exit(2)

    # ---- evidence
    S = lambda k: sum(j[k] for j in J)
    incomplete = [j for j in J if not j["complete"]]
    errors = sorted({e[:300] for j in J for e in j["errors"]})
    fns = sorted(f for f in d["functions"] if "generic_btree" in f)
    lines_hit = {f.split("/repo/")[-1]: f"{len(v['hit'])} of {len(v['known'])} lines with code" for f, v in d["lines"].items()
                 if "/repo/" in f or f.startswith("src/")}
    reach = sorted({r for j in J for r in j["reach"]})
    msgs = {}
    for j in J:
        for m, n in j["msgs"].items():
            msgs[m] = msgs.get(m, 0) + n
    vac = [shape(j) for j in J if j["complete"] and (j["paths"] == 0 or j["checks"] == 0)]
    bysz = sorted(J, key=lambda j: -j["paths"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"),
            "transitions": S("instrs"),
            "traces_validated_against_impl": validated,
            "exhaustive": not incomplete,
            "what_states_are": "complete symbolic paths, each standing for every input that satisfies its path condition; "
                               "transitions are LLVM instructions executed symbolically",
            "jobs": len(J), "jobs_completely_explored": len(J) - len(incomplete),
            "jobs_not_completely_explored": [shape(j) for j in incomplete][:40],
            "solver": d["solver"],
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
            "queries_linear_integer": S("lia"), "queries_bit_vector": S("bv"),
            "solver_time_s": round(S("solver_time"), 2), "longest_query_s": max((j["max_query"] for j in J), default=0),
            "infeasible_paths": S("infeasible"), "forks": S("forks"),
            "assertions_reached": S("checks"), "assertions_decided_by_solver": S("checks_solver"),
            "assertions_by_message": dict(sorted(msgs.items(), key=lambda x: -x[1])[:60]),
            "jobs_asserting_nothing": vac[:40],
            "reach_markers": reach,
            "bounds": joblib.describe(prop, todo),
            "repo_functions_encoded": [f[:140] for f in fns][:160],
            "repo_functions_encoded_total": len(fns),
            "all_functions_encoded_total": len(d["functions"]),
            "ir_instructions": d["ir_instructions"],
            "lines_executed_symbolically": lines_hit,
            "samples": [{"job": shape(j), "inputs": s["inputs"], "path_condition_size": s["pc"], "observed": s["obs"][:40]}
                        for j, s in samples[:3] + samples[len(samples) // 2:len(samples) // 2 + 3]]
                       or [{"job": shape(j), "paths": j["paths"]} for j in bysz[:3]],
            "largest_jobs": [{"job": shape(j), "paths": j["paths"], "wall_s": j["wall"]} for j in bysz[:5]],
            "sample_mismatches": len(mismatch),
            "executor_errors": errors[:10],
            "unconfirmed_counterexamples": [{k: r[k] for k in ("msg", "job", "native")} for r in unconf][:5],
            "cross_checks": cross,
            "build_s": round(tb, 1), "explore_s": d["run_s"],
        },
        "assumptions": joblib.ASSUMPTIONS,
        "violations": len(rep),
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    print(f"{prop} {tier}: {len(J)} jobs ({len(incomplete)} not finished), {S('paths')} paths, {S('queries')} queries, "
          f"{S('checks')} assertions, {validated}/{len(samples)} sampled paths agree natively, build {tb:.0f}s explore {d['run_s']:.0f}s")
    for r in known:
        print(f"KNOWN-FINDING: property={prop} {r['msg']} ({r['job']})")
    for e in errors[:3]:
        log("executor:", e)
    if rep:
        for r in rep:
            print(f"  {r['msg']}  [{r['job']}] native {r['profile']}: {r['native']} {r['native_says'][:200]}")
        print(f"VIOLATION property={prop} replay={rep[0]['path']}")
        sys.exit(1)
    bad = [r for r in unconf if "does not finish" not in r["msg"] and "memory bound" not in r["msg"]
           and "stack" not in r["msg"] and "call depth" not in r["msg"]]
    if bad:
        log("counterexamples that do not reproduce natively:", json.dumps(bad[:3])[:3000])
        sys.exit(2)
    if mismatch:
        j, s, o = mismatch[0]
        log("executor and native run disagree:", shape(j), s["inputs"], s["obs"], o)
        sys.exit(2)
    if len(vac) * 2 > len(J) or S("checks") == 0:
        log("nothing was asserted in most jobs:", vac[:5])
        sys.exit(2)
    if len(incomplete) * 2 > len(J):
        log("most jobs could not be finished")
        sys.exit(2)


main()
