#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property by symbolic execution of the real code.

1. slice /repo's working tree (same slicer the repository's build uses), inject the harness, compile to
   one LTO'd LLVM module and a native binary of the same harnesses;
2. run the engine on every harness of the property: the solver decides every branch, a reachable panic
   (failed assertion, index out of range, overflow, unwrap on an error) is a counterexample;
3. replay counterexamples natively; print VIOLATION only when the real code misbehaves;
4. replay witnesses of completed paths natively (engine validation); check the reachability witnesses;
5. write evidence/<id>.json.
"""
import sys, os, json, subprocess, time, re, shutil, resource
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def die(msg, code=2):
    print("CHECK-ERROR: " + msg); sys.stdout.flush(); sys.exit(code)
def demangle(n):
    if not n.startswith("_ZN"): return n
    out, i = [], 3
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit(): j += 1
        k = int(n[i:j]); out.append(n[j:j+k]); i = j + k
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]): out.pop()
    s = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("..", "::"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'")):
        s = s.replace(a, b)
    return s
def native(cmd, limit):
    """Run the native build; a run that does not end, or eats all memory, is a failure of its own."""
    def cap(): resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit, preexec_fn=cap)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, f"the native run does not end within {limit} s on this input")
def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1].split(",") if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    reg = json.load(open(f"{V}/harness/registry.json"))
    if pid not in reg["properties"]: die(f"unknown property {pid}")
    P = reg["properties"][pid]
    t0 = time.time()
    work = os.environ.get("VERIF_WORK", f"{V}/.work")
    os.makedirs(work, exist_ok=True)
    eng_t = f"{work}/engine-target"
    env = dict(os.environ); env["CARGO_NET_OFFLINE"] = "true"; env["CARGO_TARGET_DIR"] = eng_t
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"): env.pop(k, None)
    eng = subprocess.Popen(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", f"{V}/engine/Cargo.toml"],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    groups, opt = P["groups"], P.get("optional_groups", [])
    dropped = []
    def build(gs): return subprocess.run(["bash", f"{V}/bin/build_ir.sh", f"{work}/w"] + gs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = build(groups + opt)
    if b.returncode and opt:
        # these groups use private items of the code, which may have been renamed or moved
        print("  note: the harness groups using private items do not compile against this tree; going on without " + ", ".join(opt))
        dropped = list(opt)
        for g in opt if len(opt) > 1 else []:
            if not build(groups + [x for x in opt if x not in dropped] + [g]).returncode: dropped.remove(g)
        b = build(groups + [x for x in opt if x not in dropped])
    eo, _ = eng.communicate()
    if eng.returncode: die("engine build failed\n" + eo)
    if b.returncode: die("building the sliced crate with the harness failed\n" + b.stdout[-6000:])
    build_s = time.time() - t0
    symex = f"{eng_t}/release/symex"
    W = f"{work}/w"
    hs = [h for h in P["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    if tier == "thorough": hs = [h for h in hs if not h.get("quick_only")]
    gone = {m for g in dropped for m in re.findall(r"^ *(vh_[a-z0-9_]+) =>", open(f"{V}/harness/verif/{g}.rs").read(), re.M)}
    hs = [h for h in hs if h["name"] not in gone]
    if not hs: die("no harness of this property compiles against this tree\n" + b.stdout[-3000:])
    if only: hs = [h for h in hs if h["name"] in only]
    out = f"{work}/out-{pid}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    results, samples, viol, errs = [], [], [], []
    funcs = set()
    validated = 0
    total_budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "14400"))
    for h in hs:
        left = total_budget - (time.time() - t0)
        to = int(min(h.get("timeout", 300 if tier == "quick" else 3600), left))
        if to < 5: errs.append(f"{h['name']}: no time left"); continue
        cmd = [symex, "--ir", f"{W}/vmain.bc", "--entry", h["name"], "--out", out, "--timeout", str(to)]
        if h.get("fp"): cmd.append("--fp")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: s = json.load(open(f"{out}/{h['name']}/summary.json"))
        except Exception: errs.append(f"{h['name']}: engine failed: {r.stdout[-500:]}"); continue
        st = s["status"]
        d = f"{out}/{h['name']}"
        fl = sorted({demangle(f) for f in s.pop("functions")})
        funcs.update(f for f in fl)
        s["repo_functions"] = sum(1 for f in fl if "tonbo" in f and "verif" not in f)
        s["fork_sites"] = [[n, demangle(f)] for n, f in s["fork_sites"][:8]]
        s["bounds"] = h.get("bounds", "")
        s["asserts"] = h.get("what", "")
        results.append(s)
        print(f"  {h['name']}: {st} paths={s['paths_completed']} queries={s['queries']} solver={s['solver_s']}s wall={s['wall_s']}s"); sys.stdout.flush()
        if st == "violation":
            rd = f"{V}/replays"; os.makedirs(rd, exist_ok=True)
            rp = f"{rd}/{pid}-{h['name']}.txt"
            shutil.copy(f"{d}/values.txt", rp)
            rr = native([f"{W}/vmain", h["name"], rp], 120)
            if rr.returncode in (0, 77):
                # the counterexample may need a preemption: try them instruction by instruction
                try: rr = subprocess.run([f"{W}/vmain", h["name"], rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, env={**os.environ, "VF_STEP": "1"})
                except subprocess.TimeoutExpired: pass
            if rr.returncode in (0, 77):
                errs.append(f"{h['name']}: counterexample does not reproduce natively (exit {rr.returncode}): " + open(f"{d}/violation.txt").read()[:600])
            else:
                msg = "\n".join(l for l in rr.stdout.splitlines() if l.strip())[:1200]
                viol.append((h["name"], rp, msg))
                break
        elif st != "held":
            det = ""
            for f in ("error.txt", "inconclusive.txt"):
                if os.path.exists(f"{d}/{f}"): det += open(f"{d}/{f}").read()[:1500]
            errs.append(f"{h['name']}: {st} {det}")
        else:
            miss = [c for c in h.get("covers", []) if c not in s["cover"]]
            if miss: errs.append(f"{h['name']}: vacuous: witnesses {miss} not reached")
            if s["paths_completed"] == 0: errs.append(f"{h['name']}: no path completed")
            for f in sorted(x for x in os.listdir(d) if x.startswith("sample-")):
                rr = subprocess.run([f"{W}/vmain", h["name"], f"{d}/{f}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                if rr.returncode != 0 or "REPLAY-OK" not in rr.stdout:
                    errs.append(f"{h['name']}: engine and native run disagree on witness {f} (exit {rr.returncode}): {rr.stdout[-400:]}")
                else:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"harness": h["name"], "inputs": open(f"{d}/{f}").read().split()[:64]})
    known = []
    kf = f"{V}/known_findings.json"
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    for k in known:
        # a recorded defect: its demonstration harness must still fail on the recorded input
        rr = subprocess.run([f"{W}/vmain", k["harness"], f"{V}/{k['input']}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if rr.returncode not in (0, 77): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    repo_f = sorted(f for f in funcs if "tonbo" in f and "verif" not in f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": sum(r["paths_completed"] for r in results),
            "transitions": sum(r["forks"] for r in results),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states = execution paths of the compiled real code explored to the end, each standing for all inputs satisfying its path condition; transitions = feasible symbolic branch splits; every branch feasibility and assertion decided by the solver",
            "queries_discharged": sum(r["queries"] for r in results),
            "queries_unsat": sum(r["unsat"] for r in results),
            "solver": results[0]["solver"] if results else "",
            "solver_time_s": round(sum(r["solver_s"] for r in results), 3),
            "instructions_interpreted": sum(r["instructions"] for r in results),
            "functions_encoded": len(funcs), "repo_functions_encoded": repo_f,
            "harnesses": results, "harnesses_not_compiled": sorted(gone), "build_s": round(build_s, 1),
            "exhaustive": not errs and not viol,
        },
        "assumptions": reg["assumptions"] + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for n, rp, msg in viol:
        print(f"{n}: counterexample reproduced on the native build:\n{msg}\nreplay: {W}/vmain {n} {rp}")
        print(f"VIOLATION property={pid} replay={rp}")
    if viol: sys.exit(1)
    if errs: die("; ".join(errs))
    print(f"{pid}: held within the stated bounds ({len(results)} harnesses, {ev['coverage']['states']} paths, {ev['coverage']['queries_discharged']} queries, {ev['wall_s']} s)")
if __name__ == "__main__": main()
