#!/usr/bin/env python3
"""run.py ID: decide one property on /repo's current tree.

exit 0 held on everything explored, 1 violated (VIOLATION line), 2 no verdict.
"""
import json, os, signal, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props

VERIF = build.VERIF


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split(" ")[1:3])
                out[(f["property"], f["tag"])] = line.split(" ", 3)[3]
    return out


def show(inputs):
    out, i = [], 0
    while i < len(inputs):
        name, w, v = inputs[i]
        if w == 8 and name.endswith("[0]"):
            base, b = name[:-3], []
            while i < len(inputs) and inputs[i][0] == f"{base}[{len(b)}]":
                b.append(inputs[i][2])
                i += 1
            out.append(f"{base}={bytes(b)!r}")
            continue
        out.append(f"{name}={v}")
        i += 1
    return " ".join(out)


def run_exe(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        rc = "timeout"
    return rc, out.decode(errors="replace")


def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
          "assumptions": P.get("assumptions", []), "wall_s": 0.0, "violations": 0}

    def finish(rc, msg=None):
        ev["wall_s"] = round(time.time() - t0, 2)
        if msg:
            print(msg, flush=True)
            if rc == 2:
                ev["coverage"]["explanation"] = "no verdict: " + msg[:1500]
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        sys.exit(rc)

    harness = P["harness"]
    srcs = [harness + ".cpp", "h.cpp", *P.get("extra", [])]
    try:
        exe, info = build.build(harness, [*srcs, "sup.cpp", *P.get("extra_sym", [])], "sym")
    except build.BuildError as e:
        finish(2, f"ERROR property={pid} the instrumented build failed: {e}")
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("SYM_") and k not in ("SYM_JOBS", "SYM_ONLY", "SYM_REPO", "SYM_BUILD"):
            del env[k]
    for k in ("CLAZY_CHECKS", "CLAZY_EXPORT_FIXES", "CLAZY_CHECKS_AS_ERRORS", "CLAZY_NO_WERROR", "CLAZY_EXTRA_OPTIONS", "CLAZY_HEADER_FILTER", "CLAZY_IGNORE_DIRS"):
        env.pop(k, None)
    params = {**P.get("quick", {}), **(P.get("thorough", {}) if tier == "thorough" else {})}
    for k, v in params.items():
        env["SYM_" + k] = str(v)
    budget = float(P["budget"] or (700 if tier == "quick" else 6 * 3600)) if tier == "quick" else 6 * 3600.0
    env["SYM_BUDGET_S"] = str(budget)
    env["TMPDIR"] = "/tmp"
    if os.environ.get("SYM_VERBOSE"):
        env["SYM_VERBOSE"] = "1"
    os.makedirs(os.path.join(build.BUILD, "out"), exist_ok=True)
    out_json = os.path.join(build.BUILD, "out", f"{pid}.{os.getpid()}.json")
    env["SYM_OUT"] = out_json
    rc, log = run_exe([exe], env, budget + 120)
    try:
        d = json.load(open(out_json))
        os.unlink(out_json)
    except (OSError, ValueError):
        finish(2, f"ERROR property={pid} the symbolic run ended abnormally (status {rc}):\n{log[-3000:]}")
    H = d["harnesses"]
    S = lambda k: sum(x[k] for x in H)
    fns = sorted(set(f for f in d["functions"] if f))
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(fns), capture_output=True, text=True).stdout.split("\n")
    except OSError:
        dem = fns
    repo_fns = sorted({x for x in dem if x and not x.startswith(("std::", "void std::", "bool std::", "__gnu", "h::")) and "sym_c_" not in x})
    samples = []
    for x in H:
        for s in x.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"harness": x["name"], "input": s})
    ev["coverage"] = {
        "states": S("sat") + S("unsat") + S("unknown"),
        "transitions": S("branches"),
        "traces_validated_against_impl": S("paths"),
        "samples": samples or [{"harness": x["name"], "input": "(no symbolic input on the first path)"} for x in H[:3]],
        "meaning": "states: path-condition prefixes put to the solver; transitions: symbolic branch decisions executed; "
                   "traces: complete paths, each executed by the real code on a solver-chosen input with every symbolic value checked against the concrete one",
        "exhaustive": all(x["complete"] for x in H),
        "bounds": P["bounds"].get(tier) if isinstance(P["bounds"], dict) else P["bounds"],
        "outside_bounds": P.get("outside", ""),
        "parameters": params,
        "explorations": len(H),
        "paths": S("paths"), "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
        "assertions_checked": S("assertions"), "assertion_queries": S("assertion_queries"), "assertion_queries_unsat": S("assertion_unsat"),
        "symbolic_operations": S("symbolic_ops"), "max_symbolic_inputs": max([x["max_vars"] for x in H] or [0]),
        "max_branches_on_a_path": max([x["max_branches"] for x in H] or [0]),
        "solver_s": round(S("solver_s"), 3), "explore_wall_s": round(S("wall_s"), 2), "build_s": info["build_s"], "recompiled_objects": info["compiled"],
        "functions_encoded": repo_fns[:400], "functions_encoded_count": len(repo_fns),
        "native_calls_trusted": [f"{a[0]}: {a[1]}" for a in d["allowed_native"] if a[1] != "!"][:60],
        "per_exploration": [{k: x[k] for k in ("name", "paths", "queries", "assertions", "wall_s", "complete")} for x in H[:80]],
    }
    # counterexamples
    known = known_findings()
    confirmed, unconfirmed, shown = 0, [], set()
    cex = d["counterexamples"]
    if cex:
        new = []
        for c in cex:
            if c["known"] and (pid, c["known"]) in known:
                if c["known"] not in shown:
                    shown.add(c["known"])
                    print(f"KNOWN-FINDING: property={pid} {known[(pid, c['known'])]}", flush=True)
            else:
                new.append(c)
        if new:
            try:
                nat, _ = build.build(harness, srcs, "nat")
            except build.BuildError as e:
                finish(2, f"ERROR property={pid} the plain build for the replay failed: {e}")
            rd = os.path.join(build.BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, c in enumerate(new[:6]):
                rp = os.path.join(rd, f"{pid}-{i + 1}.txt")
                with open(rp, "w") as f:
                    f.write(c["harness"] + "\n" + "".join(f"{x[2]}\n" for x in c["inputs"]))
                env2 = dict(env)
                env2["SYM_REPLAY"] = rp
                r, out = run_exe([nat], env2, 60)
                viol = "REPLAY violated" in out or (isinstance(r, int) and r < 0) or r == "timeout"
                text = f"{c['what']} [{c['harness']}] {c['describe']} input: {show(c['inputs'])}"
                with open(rp + ".log", "w") as f:
                    f.write(text + "\n\nreplay on the plain build (exit %s):\n%s\n\nrun again: SYM_REPLAY=%s %s\n" % (r, out, rp, nat))
                if viol:
                    confirmed += 1
                    print(f"VIOLATION property={pid} replay={rp}", flush=True)
                    print("  " + text[:1500], flush=True)
                    print("  replay on the uninstrumented code: " + (" | ".join(x for x in out.splitlines() if x.startswith("REPLAY")) or f"ended with {r}")[:800], flush=True)
                    if confirmed >= 2:
                        break
                else:
                    unconfirmed.append((text, r, out))
    ev["violations"] = confirmed
    ev["coverage"]["known_findings_seen"] = sorted(shown)
    if confirmed:
        finish(1)
    if unconfirmed:
        t, r, o = unconfirmed[0]
        finish(2, f"ERROR property={pid} the solver's counterexample did not reproduce on the plain build: {t[:1200]}\n  replay ended with {r}: {o[-800:]}")
    bad, leaks = [], []
    if rc != 0:
        bad.append(f"exit status {rc}: {log[-1500:]}")
    for x in H:
        if x["inconclusive"] or not x["complete"]:
            bad.append(f"{x['name']}: incomplete {x['inconclusive'][:3]}")
        if x["leaks"]:
            leaks.append(f"{x['name']}: symbolic data reached uninstrumented code: {x['leaks'][:5]}")
        if x["unreached"]:
            bad.append(f"{x['name']}: a situation the check is about was never reached: {x['unreached']}")
    if not H or S("assertions") == 0 or S("queries") == 0:
        bad.append("nothing was decided")
    if leaks: # (none on the unchanged tree) at these calls the input was fixed to the values of the paths taken
        ev["coverage"]["exhaustive"] = False
        ev["coverage"]["reduced_by_native_calls"] = [x[:600] for x in leaks[:10]]
        print(f"NOTE property={pid} reduced coverage, " + "; ".join(leaks[:3])[:1500], flush=True)
        if os.environ.get("SYM_STRICT"):
            bad += leaks
    if bad:
        finish(2, f"ERROR property={pid} no verdict: " + "\n  ".join(b[:1500] for b in bad[:6]))
    finish(0, f"OK property={pid} {len(H)} explorations, {S('paths')} paths, {S('queries')} solver queries, {S('assertions')} assertions, {time.time() - t0:.1f} s (solver {S('solver_s'):.1f} s)")


main()
