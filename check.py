#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: compiles the contracts in kani/src/<property>.rs together with
/repo's current working tree, has Kani/CBMC discharge every obligation, and reports
failed obligations as violations (with the counterexample replayed on the real code).
"""
import json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
KANI = os.path.join(ROOT, "kani")
NATIVE = os.path.join(ROOT, "native")
HOOK = "--cfg dnglab_verif"
T0 = time.time()
BUDGET = {"quick": 780, "thorough": 5400}

def env(hooks):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = HOOK if hooks else ""
    e.pop("RUSTC_WRAPPER", None)
    return e

def tgt(name):
    d = os.path.join(ROOT, "target", name)
    os.makedirs(d, exist_ok=True)
    return d

def harness_names(prop, tier):
    """Harnesses declared in the property's source, by tier."""
    src = open(os.path.join(KANI, "src", prop.lower() + ".rs")).read()
    out = []
    part = re.split(r"\bhooked!\s*\{", src)
    for i, text in enumerate(part):
        for m in re.finditer(r"^\s*fn ((?:t?[pb])_\w+) \[(\d+)\]", text, re.M):
            name = m.group(1)
            if name.startswith("t") and tier != "thorough":
                continue
            out.append((prop.lower() + "::" + name, i > 0, int(m.group(2))))
    for m in re.finditer(r"^\s*fn (c_\w+)\(\)", src, re.M):   # proof_for_contract harnesses
        out.append((prop.lower() + "::contracts::" + m.group(1), True, 0))
    return out

def kani(prop, harnesses, hooks, timeout, extra=(), jobs=8, json_out=None, total=None):
    cmd = ["cargo", "kani", "--features", prop.lower(), "-Z", "unstable-options", "-Z", "function-contracts",
           "-Z", "stubbing", "--harness-timeout", f"{timeout}s", "--target-dir", tgt("kani"), "--exact"]
    if json_out:
        cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", json_out]
        if os.path.exists(json_out):
            os.remove(json_out)
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, cwd=KANI, env=env(hooks), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=total or 3600)
        return p.returncode, p.stdout, cmd
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, o.decode(errors="replace") if isinstance(o, bytes) else o, cmd

def compile_error(out):
    return bool(re.search(r"^error(\[E\d+\])?:", out, re.M)) and "Checking harness" not in out

SKIP_CATEGORIES = {"unsupported_construct"}
def classify(res):
    """-> (verdict, failed checks): ok | fail | undecided"""
    failed = [c for c in res["checks"] if c["status"] == "Failure"]
    real = [c for c in failed if c["category"] not in ("unwind", "unsupported_construct")
            and "unwinding assertion" not in c["description"] and "not currently supported" not in c["description"]]
    if res["status"] == "Success":
        return "ok", []
    if real:
        return "fail", real
    return "undecided", failed

def concrete(prop, name, hooks, timeout, extra=()):
    """The verifier's counterexample, as the flat bytes the harness read."""
    rc, out, _ = kani(prop, [name], hooks, timeout, extra=["-Z", "concrete-playback", "--concrete-playback=print", *extra],
                      total=timeout + 240)
    cands = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        flat = []
        for v in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1)):
            flat += [int(x) for x in v.split(",") if x.strip()]
        cands.append(bytes(flat).hex())
    return cands, out

_native = {}
def native(prop, hooks):
    """Builds the replay binary: the same harnesses, real dependencies, no verifier."""
    key = (prop, hooks)
    if key in _native:
        return _native[key]
    t = tgt("native")
    cmd = ["cargo", "build", "--offline", "--features", prop.lower(), "--target-dir", t, "--bin", "replay"]
    p = subprocess.run(cmd, cwd=NATIVE, env=env(hooks), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    _native[key] = os.path.join(t, "debug", "replay") if p.returncode == 0 else None
    if p.returncode:
        print("note: native replay build failed:\n" + p.stdout[-1500:], file=sys.stderr)
    return _native[key]

def run_native(binary, args, timeout=120):
    try:
        p = subprocess.run([binary, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
        if p.returncode < 0:
            return 1, f"FAIL killed by signal {-p.returncode}\n" + p.stdout
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 1, "FAIL does not terminate within %d s" % timeout

def search_native(prop, hooks, seed, each=4, total=90):
    """Looks for an input on which one of the property's contracts fails on the real code."""
    binary = native(prop, hooks)
    if not binary:
        return None
    src = open(os.path.join(KANI, "src", prop.lower() + ".rs")).read()
    names = re.findall(r"^\s*fn ((?:n|t?[pb])_\w+) \[", src, re.M)
    t = time.time()
    for n in sorted(names, key=lambda n: not n.startswith("n_")):
        if time.time() - t > total:
            break
        rc, o = run_native(binary, ["--search", f"{prop.lower()}::{n}", str(seed), str(each)], timeout=60)
        if rc == 1:
            m = re.search(r"INPUT ([0-9a-f]*)", o)
            return n, (m.group(1) if m else ""), o.strip().splitlines()[0]
    return None

def executions(prop, hooks, seed, each):
    """Bounded stand-in for functions the verifier does not reach: the property's native
    contracts (n_ harnesses) executed on generated inputs for `each` seconds."""
    src = open(os.path.join(KANI, "src", prop.lower() + ".rs")).read()
    names = [n for i, t in enumerate(re.split(r"\bhooked!\s*\{", src)) if hooks or i == 0 for n in re.findall(r"^\s*fn (n_\w+) \[", t, re.M)]
    out = []
    if not names:
        return out
    binary = native(prop, hooks)
    if not binary:
        return [(n, None, "native build failed", "") for n in names]
    def one(n):
        rc, o = run_native(binary, ["--search", f"{prop.lower()}::{n}", str(seed), str(each)], timeout=each + 60)
        m = re.search(r"INPUT ([0-9a-f]*)", o)
        return (n, rc, o.strip().splitlines()[0] if o.strip() else "", m.group(1) if m else "")
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(one, names))

def write_replay(prop, name, body):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name.replace('::', '-')}.txt")
    open(p, "w").write(body)
    return p

def describe(c):
    l = c.get("location", {})
    return f"{c['description'].strip()} [{c['function']} at {l.get('file')}:{l.get('line')}]"

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from meta import META, COMMON
    meta = META[prop]
    hs = harness_names(prop, tier)
    htimeout = 240 if tier == "quick" else 1500
    jout = os.path.join(tgt("kani"), "result.json")
    hooks = True
    names = [h for h, _, _ in hs]
    notes = []
    rc, out, cmd = kani(prop, names, True, htimeout, json_out=jout, total=BUDGET[tier] - 120)
    if not os.path.exists(jout) and compile_error(out):
        notes.append("build with hooks failed; only contracts over public items were decided")
        print("note: " + notes[-1]); print(out[-1500:], file=sys.stderr)
        hooks = False
        names = [h for h, hk, _ in hs if not hk]
        if names:
            rc, out, cmd = kani(prop, names, False, htimeout, json_out=jout, total=BUDGET[tier] - 120)
    if not names:
        d = {"verification_results": {"results": []}, "cbmc": []}
    elif not os.path.exists(jout):
        if rc == 124:
            print("note: verification ran out of time")
        print(out[-3000:], file=sys.stderr)
        print("ERROR: the verifier produced no result")
        sys.exit(2)
    if names:
        d = json.load(open(jout))
    results = {r["harness_id"]: r for r in d["verification_results"]["results"]}
    solver = {x["harness_id"]: x["cbmc_stats"].get("runtime_decision_procedure_s", 0) for x in d["cbmc"] if x.get("cbmc_stats")}
    unwinds = {h: u for h, _, u in hs}

    violations, undecided, ok, vacuous = [], [], [], []
    known = load_known(prop)
    known_hit = []
    for name in names:
        r = results.get(name)
        if r is None:
            undecided.append((name, "no result")); continue
        v, failed = classify(r)
        if v == "ok":
            mine = [c for c in r["checks"] if is_postcondition(c)]
            if not any(c["status"] == "Success" for c in mine):
                vacuous.append(name)
                undecided.append((name, "vacuous: no reachable postcondition"))
            else:
                ok.append(name)
        elif v == "undecided":
            undecided.append((name, "; ".join(sorted({c["description"] for c in failed}))[:300] or "timeout"))
        else:
            violations.append((name, failed))

    # undecided: retry with a larger unwinding bound when that is the reason
    still = []
    retry = [(n, why) for n, why in undecided if "unwinding assertion" in why][:6]
    for n, why in undecided:
        if (n, why) not in retry:
            still.append((n, why)); continue
        if time.time() - T0 > BUDGET[tier] - 250:
            still.append((n, why)); continue
        j2 = jout + ".retry"
        kani(prop, [n], hooks, 150, extra=["--unwind", str(2 * unwinds.get(n, 16) + 4)], json_out=j2, total=200)
        if os.path.exists(j2):
            r = json.load(open(j2))["verification_results"]["results"][0]
            v, failed = classify(r)
            if v == "ok":
                ok.append(n); results[n] = r; continue
            if v == "fail":
                violations.append((n, failed)); results[n] = r; continue
        still.append((n, why))
    undecided = still

    # replay counterexamples on the real code
    reported = []
    quota = 3
    for name, failed in violations:
        if reported and len(reported) >= quota:
            break
        left = BUDGET[tier] - (time.time() - T0)
        cands, log = ([], "")
        if left > 150:
            cands, log = concrete(prop, name, hooks, int(min(240, left / 2)))
        confirmed = None
        binary = native(prop, hooks) if cands else None
        if binary:
            for hexs in cands:
                rc2, o = run_native(binary, [name, hexs])
                if rc2 == 1:
                    confirmed = (hexs, o.strip()); break
        if not confirmed and native(prop, hooks):
            rc2, o = run_native(native(prop, hooks), ["--search", name, str(seed), "10"], timeout=60)
            if rc2 == 1:
                m = re.search(r"INPUT ([0-9a-f]*)", o)
                confirmed = (m.group(1) if m else "", o.strip().splitlines()[0])
        key = match_known(known, name, failed, confirmed)
        if key:
            known_hit.append(key); continue
        body = [f"property {prop}", f"obligation {name}", "failed checks:"] + ["  " + describe(c) for c in failed[:12]]
        if confirmed:
            body += [f"input bytes (hex): {confirmed[0]}", f"replayed on the real code: {confirmed[1]}",
                     f"rerun: cd {NATIVE} && RUSTFLAGS='{HOOK if hooks else ''}' cargo run --offline --features {prop.lower()} --bin replay -- {name} {confirmed[0]}"]
        else:
            body += ["no failing input was confirmed on the natively compiled code", "verifier output:", log[max(0, log.find("SUMMARY:")):][:6000]]
        path = write_replay(prop, name, "\n".join(body) + "\n")
        reported.append((name, path, bool(confirmed)))
    # undecided obligations: look for a failing input on the real code before giving up
    if undecided and not reported:
        binary = native(prop, hooks)
        for name, why in undecided[:8]:
            if not binary or time.time() - T0 > BUDGET[tier] - 40:
                break
            rc2, o = run_native(binary, ["--search", name, str(seed), "8"], timeout=40)
            if rc2 == 1:
                m = re.search(r"INPUT ([0-9a-f]*)", o)
                confirmed = (m.group(1) if m else "", o.strip().splitlines()[0])
                key = match_known(known, name, [], confirmed)
                if key:
                    known_hit.append(key); continue
                path = write_replay(prop, name, f"property {prop}\nobligation {name}\nverifier: undecided ({why})\ninput bytes (hex): {confirmed[0]}\nreplayed on the real code: {confirmed[1]}\n")
                reported.append((name, path, True))

    # bounded stand-ins: native contracts executed on the real code
    ran = executions(prop, hooks, seed, 5 if tier == "quick" else 60)
    for n, rc2, msg, hexs in ran:
        if rc2 == 1:
            key = match_known(known, f"{prop.lower()}::{n}", [], (hexs, msg))
            if key:
                known_hit.append(key); continue
            path = write_replay(prop, n, f"property {prop}\ncontract {n} (bounded: executed on generated inputs)\ninput bytes (hex): {hexs}\nreplayed on the real code: {msg}\n")
            reported.append((n, path, True))

    # additional back end (Verus on extracted functions), where the property has one
    verus = None
    try:
        import verus_layer
        verus = verus_layer.run(prop, tier, ROOT, REPO)
    except ImportError:
        pass
    if verus:
        for f in verus["failed"]:
            body = f"property {prop}\nobligation {f['name']} (Verus)\nverifier output:\n{f['output']}\n"
            found = search_native(prop, hooks, seed)
            if found:
                body += f"contract {found[0]} fails on the real code\ninput bytes (hex): {found[1]}\nreplayed on the real code: {found[2]}\n"
            path = write_replay(prop, "verus-" + f["name"], body)
            reported.append(("verus:" + f["name"], path, bool(found)))
        if verus["notes"] and not reported:   # the text is outside the verifier's reach: stand in by executing the contracts
            found = search_native(prop, hooks, seed, each=3, total=60)
            if found:
                path = write_replay(prop, "verus-lost-" + found[0], f"property {prop}\ncontract {found[0]} fails on the real code\ninput bytes (hex): {found[1]}\nreplayed on the real code: {found[2]}\n{verus['notes']}\n")
                reported.append((found[0], path, True))
        notes += verus["notes"]

    write_evidence(prop, tier, seed, meta, COMMON, d, results, ok, undecided, violations, reported, solver, cmd, notes, hooks, known_hit, verus, ran)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for n, why in undecided:
        print(f"UNDECIDED {n}: {why}")
    print(f"{prop}: {len(ok)} of {len(names)} contract harnesses discharged, {sum(len(results[n]['checks']) for n in ok)} obligations, {time.time()-T0:.0f} s")
    if ran:
        print(f"{prop}: {sum(r[1] == 0 for r in ran)} of {len(ran)} native contracts hold on generated inputs (bounded)")
    if verus:
        print(f"{prop}: verus {verus['verified']} obligations verified, {len(verus['failed'])} failed")
    if reported:
        reported.sort(key=lambda x: not x[2])
        for name, path, conf in reported:
            print(f"VIOLATION property={prop} replay={path}" + ("" if conf else " no-failing-input-found"))
        sys.exit(1)
    if not ok and not any(r[1] == 0 for r in ran):
        print("ERROR: nothing was decided"); sys.exit(2)
    sys.exit(0)

def is_postcondition(c):
    f = c["location"].get("file", "")
    return (f.startswith("src/") and c["category"] == "assertion") or (c["category"] == "assertion" and c["description"].startswith("|"))

def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]

def match_known(known, name, failed, confirmed):
    for k in known:
        if k["harness"] == name and all(any(s in describe(c) for s in k["checks"]) for c in failed):
            return k["what"]
    return None

def write_evidence(prop, tier, seed, meta, common, d, results, ok, undecided, violations, reported, solver, cmd, notes, hooks, known_hit, verus, ran):
    fns, files = set(), set()
    obligations = discharged = unreachable = 0
    per = []
    for n in sorted(results):
        r = results[n]
        s = [c["status"] for c in r["checks"]]
        good = sum(x in ("Success", "Satisfied") for x in s); un = s.count("Unreachable")
        obligations += len(s) - un; discharged += good; unreachable += un
        for c in r["checks"]:
            f = c["location"].get("file", "")
            if f.startswith(REPO) and c["status"] != "Unreachable":
                fns.add(c["function"]); files.add(os.path.relpath(f, REPO))
        kind = "complete" if n.split("::")[-1].lstrip("t").startswith(("p_", "c_")) else "bounded"
        per.append({"harness": n, "kind": kind, "status": r["status"], "checks": len(s), "wall_s": r["duration_ms"] / 1000,
                    "solver_s": round(solver.get(n, 0), 3)})
    bounded = [p["harness"] for p in per if p["kind"] == "bounded"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "obligations_complete": sum(p["checks"] for p in per if p["kind"] == "complete"),
            "obligations_bounded": sum(p["checks"] for p in per if p["kind"] == "bounded"),
            "obligations": obligations + (verus["verified"] + len(verus["failed"]) if verus else 0),
            "discharged": discharged + (verus["verified"] if verus else 0),
            "checker_cmd": " ".join(cmd[:14]) + " … (RUSTFLAGS=%s)" % (HOOK if hooks else ""),
            "trusted_base": common["trusted_base"],
            "harnesses": per,
            "harnesses_discharged": len(ok),
            "complete_harnesses": len(per) - len(bounded),
            "bounded_harnesses": len(bounded),
            "bounds": meta.get("bounds", ""),
            "functions_under_contract": sorted(fns) + [f"verus: {f}" for f in (verus["functions"] if verus else [])],
            "files": sorted(files),
            "unreachable_checks": unreachable,
            "undecided": [{"harness": n, "why": w} for n, w in undecided],
            "back_end": "Kani %s / CBMC / %s" % (d["tools"]["kani"], d["tools"]["solvers"][0]["name"]) if "tools" in d else "none (hooks unavailable): native execution only",
            "solver_s": round(sum(solver.values()), 2),
            "explanation": meta["how"],
            "notes": notes,
            "known_findings": known_hit,
        },
        "assumptions": common["assumptions"] + meta.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(reported),
    }
    if ran:
        ev["coverage"]["bounded_executions"] = [{"contract": n, "result": m} for n, _, m, _ in ran]
    if verus:
        ev["coverage"]["verus"] = {k: verus[k] for k in ("verified", "functions", "notes", "rewrites", "wall_s")}
        ev["coverage"]["verus"]["failed"] = [f["name"] for f in verus["failed"]]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    main()
