#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by discharging its contracts on /repo's current source.

exit 0: every obligation that could be decided holds; exit 1 + VIOLATION line: an obligation fails."""
import concurrent.futures as cf, glob, json, os, re, sys, threading, time
import vclib
from vclib import VERIF

TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
TOTAL = 560 if TIER == "quick" else 840      # seconds for a whole check (the limit is 900)


def load_property(pid):
    hs = []
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        m = re.search(r"^//\s*PROPERTY:\s*(.*)$", open(p).read(), re.M)
        if m and pid in m.group(1).split():
            hs.append(os.path.basename(p)[:-4])
    return hs


def write_replay(pid, contract, meta, kind, fail, native, inputs):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (pid, contract))
    with open(p, "w") as f:
        f.write("property: %s\ncontract: %s (%s)\nstates: %s\nharness: %s\n" % (pid, contract, meta["claim"], meta["text"], meta["file"]))
        f.write("failed obligation: %s\n" % kind)
        if fail:
            f.write("verifier output: %s\n" % json.dumps(fail))
        f.write("\ninputs (name<TAB>value; replay on the compiled code: <harness exe> %s replay <this file>):\n" % contract)
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))
        f.write("\nreal code:\n%s\n" % native)
    return os.path.relpath(p, VERIF)


def irv_job(bc, name, meta, deadline):
    rest = deadline - time.time()
    if rest < 5:
        return {"crash": "no time left for this contract"}
    budget = min(meta.get("budget", 150), rest)
    if TIER == "thorough":
        budget = min(max(600, meta.get("budget", 150)), rest)
    return vclib.run_irv(bc, name, meta, int(budget), meta.get("shard"))


def merge(parts):
    """merge the results of the shards of one contract"""
    if len(parts) == 1:
        return parts[0]
    out = {"exhausted": True, "paths": 0, "paths_done": 0, "infeasible": 0, "steps": 0, "queries": 0, "external_queries": 0, "solver_s": 0.0, "wall_s": 0.0, "mem_checks": 0, "obligations": {}, "covers": {}, "undecided": {}, "assumptions": [], "functions": [], "failures": [], "wall": 0.0}
    for d in parts:
        if "crash" in d:
            out["exhausted"] = False
            out["undecided"][d["crash"]] = out["undecided"].get(d["crash"], 0) + 1
            continue
        out["exhausted"] = out["exhausted"] and d["exhausted"]
        for k in ("paths", "paths_done", "infeasible", "steps", "queries", "external_queries", "solver_s", "wall_s", "mem_checks", "wall"):
            out[k] += d[k]
        for o, v in d["obligations"].items():
            t = out["obligations"].setdefault(o, {})
            for k, x in v.items():
                t[k] = t.get(k, 0) + x
        for k in ("covers", "undecided"):
            for o, v in d[k].items():
                out[k][o] = out[k].get(o, 0) + v
        for k in ("assumptions", "functions"):
            out[k] = sorted(set(out[k]) | set(d[k]))
        out["failures"] += d["failures"]
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "other", "coverage": {}, "assumptions": [], "wall_s": 0.0, "violations": 0}
    level = "other"
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                level = c["level"]
    except Exception:
        pass
    ev["level"] = level
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k.get("property") == pid and k.get("status", "open") == "open"]
    known_contracts = {k["contract"]: k for k in known}

    jobs = []        # (harness, contract, meta, bc, nat)
    notes = []
    names = load_property(pid)
    if not names:
        print("no harness for", pid)
        sys.exit(2)
    for h in names:
        try:
            bc, nat, cons = vclib.build_harness(h)
        except vclib.BuildError as e:
            notes.append("harness %s could not be built against this tree, nothing decided for it: %s" % (h, str(e)[-1200:]))
            continue
        for c, m in cons.items():
            if m.get("thorough") and TIER != "thorough":
                continue
            jobs.append((h, c, m, bc, nat))
    build_s = time.time() - t0
    deadline = t0 + max(TOTAL, build_s + 120) if build_s < 600 else time.time() + 100

    results = {}
    pool = cf.ThreadPoolExecutor(8)
    futs = []
    for j in sorted(jobs, key=lambda j: -j[2].get("budget", 150)):
        h, c, m, bc, nat = j
        n = m.get("shards", 1)
        for i in range(n):
            mm = dict(m)
            if n > 1:
                mm["shard"] = (i, n)
            futs.append((c, pool.submit(irv_job, bc, c, mm, deadline - 60)))
    nats = {}
    for h, c, m, bc, nat in jobs:
        if m.get("native", True):
            nats[c] = pool.submit(vclib.native_random, nat, c, SEED, 1000000, 4 if TIER == "quick" else 30)
    acc = {}
    for c, f in futs:
        acc.setdefault(c, []).append(f.result())
    for c in acc:
        results[c] = merge(acc[c])
    nres = {c: f.result() for c, f in nats.items()}

    violations, table, undecided_list = [], [], []
    tot = {"obligations": 0, "discharged": 0, "paths": 0, "queries": 0, "solver_s": 0.0, "native_runs": 0, "mem_checks": 0}
    funcs, assumptions = set(), set()
    kf_lines = []
    for h, c, m, bc, nat in jobs:
        d = results[c]
        row = {"contract": c, "harness": m["file"], "states": m["text"], "arithmetic": m["mode"], "claim": m["claim"]}
        rnd = nres.get(c, ("none", "not run", []))
        mr = re.search(r"runs=(\d+) completed=(\d+)", rnd[1])
        if mr:
            row["native_runs_of_the_same_contract"] = int(mr.group(2))
            tot["native_runs"] += int(mr.group(2))
        viol = None
        if "crash" in d:
            row["result"] = "undecided: " + d["crash"]
            undecided_list.append("%s: %s" % (c, d["crash"]))
        else:
            ob = sum(v.get("checked", 0) for v in d["obligations"].values())
            bad = sum(v.get("failed", 0) for v in d["obligations"].values())
            unk = sum(v.get("unknown", 0) for v in d["obligations"].values())
            row.update(obligations=ob, discharged=ob - bad - unk, paths=d["paths_done"], memory_checks=d["mem_checks"], solver_queries=d["queries"], solver_s=round(d["solver_s"], 2), wall_s=round(d["wall_s"], 2), covers=d["covers"])
            row["by_backend"] = {"simplifier": sum(v.get("trivial", 0) for v in d["obligations"].values()), "z3/cvc5": sum(v.get("smt", 0) for v in d["obligations"].values()), "polynomial normal form": sum(v.get("poly", 0) for v in d["obligations"].values())}
            tot["obligations"] += ob
            tot["discharged"] += ob - bad - unk
            tot["paths"] += d["paths_done"]
            tot["queries"] += d["queries"]
            tot["solver_s"] += d["solver_s"]
            tot["mem_checks"] += d["mem_checks"]
            funcs |= set(d["functions"])
            assumptions |= set(d["assumptions"])
            seen = set()
            unconfirmed = None
            for f in d["failures"]:
                if viol and viol[1] is not None:
                    break
                k = (f["obligation"], f["kind"])
                if k in seen and not (viol is None and len([x for x in seen]) < 1):
                    if f["obligation"] in seen:
                        continue
                seen.add(k)
                memory = f["kind"] != "contract"
                st, out = vclib.native_replay(nat, c, f["inputs"])
                if st != "fail" and memory:
                    st, out = vclib.native_replay(nat, c, f["inputs"], valgrind=True)
                if st == "fail":
                    viol = (f, f["inputs"], out)
                    break
                unconfirmed = unconfirmed or (f, st, out)
            if viol is None and unconfirmed:
                f, st, out = unconfirmed
                if rnd[0] == "fail":
                    viol = (f, rnd[2], rnd[1])
                else:
                    r2 = vclib.native_random(nat, c, SEED + 7, 10000000, 20)
                    if r2[0] == "fail":
                        viol = (f, r2[2], r2[1])
                    elif m["mode"] in ("int", "ieee") or f["kind"] != "contract":
                        viol = (f, None, "replay of the counterexample on the compiled code: %s\n%s" % (st, out))
                    else:
                        undecided_list.append("%s: obligation '%s' not discharged over the reals, not reproduced in floating point" % (c, f["obligation"]))
            incomplete = bool(d["undecided"]) or not d["exhausted"] or unk
            if viol is None:
                missing = [k for k in m.get("need_covers", []) if not d["covers"].get(k)]
                if ob == 0 or d["paths_done"] < 1 or missing:
                    incomplete = True
                    undecided_list.append("%s: vacuous on this tree (no obligation reached%s)" % (c, ", missing " + ", ".join(missing) if missing else ""))
                for r, n in sorted(d["undecided"].items()):
                    undecided_list.append("%s: %s (%d paths)" % (c, r, n))
                if not d["exhausted"] and not d["undecided"]:
                    undecided_list.append("%s: time budget ended before every path was explored" % c)
                if unk:
                    undecided_list.append("%s: %d obligations unknown to every solver" % (c, unk))
            row["result"] = "violated" if viol else ("partly undecided" if incomplete else ("proved" if m["claim"] == "proof" else "holds within the stated bound"))
        if viol is None and rnd[0] == "fail":
            viol = ({"obligation": "contract evaluated on the compiled code", "kind": "native"}, rnd[2], rnd[1])
            row["result"] = "violated (native evaluation of the contract)"
        elif viol is None and rnd[0] == "none":
            notes.append("%s: native evaluation not available (%s)" % (c, rnd[1][:100]))
        if viol is not None:
            f, ins, out = viol
            if c in known_contracts:
                kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, known_contracts[c]["what"]))
                row["result"] = "known finding reproduced"
            else:
                rp = write_replay(pid, c, m, f["obligation"], f, out, ins if ins is not None else f.get("inputs", []))
                violations.append("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if ins is not None else " no-failing-input-found"))
                print("contract %s failed: %s [%s]" % (c, f["obligation"], f.get("where", "")))
        table.append(row)

    rfuncs = sorted(f for f in funcs if not f.startswith("vc_main"))
    repo_f = demangle([f for f in rfuncs if "3rpy" in f or "3lal" in f or "rpycompute" in f or "rpy" in f])
    ev["coverage"] = {
        "obligations": tot["obligations"], "discharged": tot["discharged"],
        "checker_cmd": "python3 check.py %s  (irv over LLVM IR extracted from /repo; z3 4.8.12 API, cvc5 1.1.2 and z3-new as fall-back)" % pid,
        "trusted_base": ["clang 18 front end and -O1 (source to LLVM IR)", "engine/irv.cpp, exec.inc, builtins.inc, poly.h (this verifier)", "z3 4.8.12, cvc5, z3-new", "engine/rt.cpp: models of libstdc++ functions that exist only as binary", "contracts in harness/*.cpp as written", "assumption: allocation does not fail; no concurrency"],
        "explanation": "Each contract is a precondition/postcondition on the real functions, checked by symbolic execution of the LLVM IR compiled from /repo's current sources; every assertion and every memory access is an obligation. claim=proof: all inputs of the stated domain, loops exhausted with no bound assumed; claim=bounded: shapes (sizes, widths, depths, numbers of points) enumerated, all values inside a shape symbolic.",
        "contracts": table,
        "contracts_proved": sum(1 for r in table if r["result"] == "proved"),
        "contracts_holding_within_bound": sum(1 for r in table if r["result"].startswith("holds within")),
        "functions_under_contract": len(repo_f), "functions": repo_f[:400],
        "paths": tot["paths"], "memory_access_checks": tot["mem_checks"], "solver_queries": tot["queries"], "solver_s": round(tot["solver_s"], 2),
        "native_evaluations_of_contracts": tot["native_runs"],
        "undecided": undecided_list, "notes": notes, "build_s": round(build_s, 1),
    }
    ev["assumptions"] = sorted(assumptions) + ["real-mode contracts treat IEEE doubles as exact real numbers" if any(j[2]["mode"] == "real" for j in jobs) else "machine integers and IEEE doubles are bit-precise", "clang's IR is the semantics of the source; gcc builds the shipped library"]
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in table:
        print("%-34s %-10s %-7s %s" % (r["contract"], r["claim"], r["arithmetic"], r["result"]))
    for u in undecided_list:
        print("undecided:", u[:300])
    for n in notes:
        print("note:", n[:600])
    print("%s: %d obligations, %d discharged, %d paths, solver %.1f s, wall %.1f s" % (pid, tot["obligations"], tot["discharged"], tot["paths"], tot["solver_s"], ev["wall_s"]))
    for k in kf_lines:
        print(k)
    for v in violations:
        print(v)
    sys.stdout.flush()
    os._exit(1 if violations else 0)


def demangle(fs):
    if not fs:
        return []
    r = vclib.subprocess.run(["c++filt"], input="\n".join(fs), stdout=vclib.subprocess.PIPE, text=True)
    return r.stdout.splitlines()


if __name__ == "__main__":
    main()
