#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Proves the harnesses of one property with Kani against /repo's current working tree.
exit 0: every obligation discharged (or, where the verifier gives no answer for a harness, no failing
run of it on the real code: printed and recorded as BOUNDED, never counted as proved);
exit 1 + VIOLATION line: an obligation fails; exit 2: undecided (the harness does not build or run)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
T0 = time.time()
BUDGET = {"quick": 840, "thorough": 3000}
FIRST = {"quick": 430, "thorough": 1500}  # per harness
KANI = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks"]
UNWIND = 40  # for loops under no bound of their own


def left(tier):
    return BUDGET[tier] - (time.time() - T0)


def run(cmd, cwd, env, timeout, out):
    """Runs cmd in its own process group, output to a file; returns the exit code or None on timeout."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


class Crate:
    """A scratch copy of a harness crate, with its own target directory."""

    def __init__(self, name, scratch):
        self.name, self.scratch = name, scratch
        self.dir = os.path.join(scratch, name)
        self.target = os.path.join(scratch, "target")
        self.prefix = ""

    def env(self, cfgs):
        e = dict(os.environ)
        e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=self.target, CARGO_TERM_COLOR="never",
                 PCICS_CONTRACTS=os.path.join(self.scratch, "contracts"),
                 RUSTFLAGS=" ".join("--cfg " + c for c in cfgs))
        if not cfgs:
            e.pop("RUSTFLAGS")
        for k in ("RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
            e.pop(k, None)
        return e

    def kani(self, filters, cfgs, timeout, extra=(), jobs=8, tag="main", harness_timeout=None, exact=False):
        """Runs Kani; -> (exit code or None on timeout, its JSON report, its log file, the command)"""
        out = os.path.join(self.scratch, f"{self.name}-{tag}.log")
        js = os.path.join(self.scratch, f"{self.name}-{tag}.json")
        if os.path.exists(js):
            os.unlink(js)
        cmd = ["cargo", "kani"] + KANI + ["--output-format", "terse" if jobs > 1 else "regular", "--export-json", js]
        if jobs > 1:
            cmd += ["-j", str(jobs)]
        if harness_timeout:
            cmd += ["--harness-timeout", f"{int(harness_timeout)}s"]
        if exact:
            cmd += ["--exact"]
        if "--unwind" not in extra:
            cmd += ["--default-unwind", str(UNWIND)]
        for f in filters:
            cmd += ["--harness", f]
        cmd += list(extra)
        rc = run(cmd, self.dir, self.env(cfgs), timeout, out)
        data = None
        if os.path.exists(js):
            try:
                data = json.load(open(js))
            except ValueError:
                data = None
        return rc, data, out, " ".join(cmd)


def make_crates(names, scratch):
    shutil.copytree(os.path.join(VERIF, "contracts"), os.path.join(scratch, "contracts"))
    crates = {}
    for n in names:
        c = Crate(n, scratch)
        if n == "walk":
            import extract
            extract.build(os.path.join(VERIF, "walk"), c.dir)
        else:
            shutil.copytree(os.path.join(VERIF, n), c.dir, ignore=shutil.ignore_patterns("target"))
        crates[n] = c
    return crates


FINE = ("Success", "Satisfied", "Unreachable", "Covered")


def own(check):
    """A failed assert of the harness or its specification text, not of the code under test."""
    f = check["location"]["file"]
    return not f.startswith("/") and ("contracts" in f or f.startswith("src/")) and check["description"].startswith("assertion failed")


def classify(data, panics_only):
    """-> {harness: (verdict, [failed checks])}, verdict in ok / violated / undecided"""
    res = {}
    for r in data["verification_results"]["results"]:
        bad = [c for c in r["checks"] if c["status"] not in FINE]
        failed = [c for c in bad if c["status"] == "Failure" and c["category"] not in ("unwind", "unsupported_construct", "cover")]
        if panics_only:
            failed = [c for c in failed if not own(c)]
        covers = [c for c in r["checks"] if c["category"] == "cover" and c["status"] not in ("Satisfied",)]
        if failed:
            res[r["harness_id"]] = ("violated", failed)
        elif r["status"] == "Success" and r["checks"] and not covers:
            res[r["harness_id"]] = ("ok", [])
        elif panics_only and r["checks"] and not covers and all(own(c) or c["status"] in FINE for c in r["checks"]):
            res[r["harness_id"]] = ("ok", [])
        else:
            res[r["harness_id"]] = ("undecided", bad[:5] + covers)
    return res


def short(c):
    l = c["location"]
    return f"{c['description']} [{c['category']}] in {c['function']} at {l['file']}:{l['line']}"


def dictionary():
    """The numbers above 255 in each file of the code under test (test modules aside) and of the specification."""
    groups = []
    for top in ("/repo/src", os.path.join(VERIF, "contracts")):
        for d, _, fs in os.walk(top):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    found = set()
                    text = open(os.path.join(d, f)).read().split("#[cfg(test)]")[0]
                    for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:u\d+|usize)?\b", text):
                        try:
                            found.add(int(m.group(1).replace("_", ""), 0))
                        except ValueError:
                            pass
                    found = sorted(x for x in found if 255 < x < 1 << 64)
                    if found:
                        groups.append("&" + str(found))
    return groups


def native(crate, harness, recorded, seed, secs, lines, cfgs=()):
    """Runs a harness natively on the real code: on recorded values, then on generated ones. -> True if a run fails."""
    vals = ", ".join("vec![" + ", ".join("vec!" + str(v) for v in t) + "]" for t in recorded)
    os.makedirs(os.path.join(crate.dir, "src", "bin"), exist_ok=True)
    with open(os.path.join(crate.dir, "src", "bin", "replay.rs"), "w") as f:
        f.write(f"fn main() {{ pcics_contracts::native::main(pcics_contracts::{harness}, vec![{vals}], {seed}, {secs}) }}\n")
    with open(os.path.join(crate.dir, "src", "dict.rs"), "w") as f:
        f.write("pub const DICT: &[&[u64]] = &[%s];\n" % ", ".join(dictionary()))
    out = os.path.join(crate.scratch, "replay.log")
    rc = run(["cargo", "build", "--offline", "--bin", "replay"], crate.dir, crate.env(list(cfgs)), 200, out)
    if rc != 0:
        lines.append("native replay did not build:\n" + open(out).read()[-3000:])
        return False
    rc = run([os.path.join(crate.target, "debug", "replay")], crate.dir, crate.env([]), secs + 60, out)
    text = open(out).read()
    lines.append(text)
    return rc == 1 and "FAILING-INPUT" in text


def replay(crates, name, harness, p, seed, tier, lines, playback=True, secs=25):
    """Looks for a concrete failing input of `harness` on the real code. -> True if one was exhibited."""
    real = crates["harness"]
    if name == "walk":
        runs = p.get("native", [])
    elif harness.startswith("ind::"):  # one step of an iteration: run it from end to end instead
        runs = [harness.rsplit("::", 1)[0] + "::whole"]
    elif "::next::" in harness:
        runs = [harness.replace("::next::", "::").rstrip("0123456789")]
    else:
        runs = [harness]
    for h in runs:
        lines.append(f"native runs of {h}:")
        if native(real, h, [], seed, min(secs, 6) if name == "walk" else secs, lines):
            return True
    if left(tier) < 60 or not playback or (name != "walk" and runs != [harness]):
        return False
    hook = "pcics_states" if name == "walk" else "pcics_contracts"
    rc, data, out, cmd = crates[name].kani([harness], [hook, "pcics_replay"], min(left(tier) - 60, 400), jobs=1, tag="playback", exact=True,
                                           extra=["-Z", "concrete-playback", "--concrete-playback=print"])
    text = open(out).read()
    tests = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        body = re.sub(r"//[^\n]*", "", m.group(1))
        tests.append([[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([^\]]*)\]", body)])
    lines.append(f"verifier counterexamples for {harness}: {len(tests)} ({cmd})")
    return bool(tests) and native(real, harness, tests, seed, 1, lines, ["pcics_states"] if name == "walk" else [])


def main():
    pid = sys.argv[1]
    if pid == "--selftest":  # setup: the tools are there
        return subprocess.run(["cargo", "kani", "--version"]).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    props = json.load(open(os.path.join(VERIF, "props.json")))
    p = props[pid]
    panics_only = p.get("panics_only", False)
    scratch = tempfile.mkdtemp(prefix="pcics-verif-")
    try:
        return decide(pid, p, tier, seed, panics_only, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, p, tier, seed, panics_only, scratch):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    crates = make_crates([n for n in ("harness", "walk") if n in p or n == "harness"], scratch)
    total = {"obligations": 0, "discharged": 0, "vcc": 0, "solver_s": 0.0}
    functions, per, cmds, modes = set(), [], [], []
    violated, undecided, verdicts = [], [], {}
    for name, crate in crates.items():
        if name not in p:
            continue
        filters = p[name]
        for cfgs in [["pcics_states"], []] if name == "walk" else [["pcics_contracts", "pcics_states"], ["pcics_contracts"], ["pcics_states"], []]:
            rc, data, out, cmd = crate.kani(filters, cfgs, left(tier) - 150, harness_timeout=min(FIRST[tier], left(tier) - 200))
            if data and data["verification_results"]["results"]:
                break
            if rc is None:
                break
        text = open(out).read()
        if not data or not data["verification_results"]["results"]:
            why = "timeout" if rc is None else "no verification results"
            print(f"UNDECIDED property={pid} {name}: {why}\n" + text[-6000:])
            undecided.append((name + ":" + p["native"][0] if name == "walk" else name, why))
            continue
        if name == "harness":
            modes.append("in-place contracts " + ("checked" if "pcics_contracts" in cfgs else "NOT compiled (fallback: specification asserted by the harness only)"))
        if "pcics_states" not in cfgs:
            modes.append(f"{name}: iterator state hooks NOT compiled (fallback: unrolled, bounded proofs of the iterators)")
        elif name == "walk" or any("ind::" in r["harness_id"] for r in data["verification_results"]["results"]):
            modes.append(f"{name}: iterators proved by induction over their states (hook), for any number of items")
        cmds.append("RUSTFLAGS=" + repr(" ".join("--cfg " + c for c in cfgs)) + " " + cmd.replace(scratch, "$SCRATCH"))
        if name == "walk" and not cfgs:
            undecided.append((name + ":" + p["native"][0], "the iterator state hook does not compile; proved for the first two entries only"))
        for h in data["harness_metadata"]:
            fn = (h.get("contract") or {}).get("contracted_function_name")
            if fn:
                functions.add(fn)
        res = classify(data, panics_only)
        # no answer, for a loop that does not fit its unwinding bound or has none: another bound
        bounds = {h["pretty_name"]: h["attributes"].get("unwind_value") for h in data["harness_metadata"]}
        again = {}
        for h in res:
            if res[h][0] == "undecided":
                again.setdefault(2 * bounds.get(h) + 8 if bounds.get(h) else 3 * UNWIND, []).append(h)
        for u in sorted(again):
            if any(v[0] == "violated" for v in res.values()) or left(tier) < 200:
                break
            _, more, _, cmd2 = crate.kani(again[u], cfgs, left(tier) - 110, harness_timeout=left(tier) - 130, tag=f"unwind{u}",
                                          exact=True, extra=["--unwind", str(u)])
            if not more:
                continue
            new = classify(more, panics_only)
            for r in more["verification_results"]["results"]:
                h = r["harness_id"]
                if new[h][0] == "undecided":
                    continue
                res[h] = new[h]
                rs = data["verification_results"]["results"]
                rs[:] = [x for x in rs if x["harness_id"] != h] + [r]
            cmds.append(cmd2.replace(scratch, "$SCRATCH"))
        verdicts.update({h: v for h, v in res.items()})
        want = [f"{name}:{h}" for h in p.get("expect", {}).get(name, []) if h not in res]
        if want:
            undecided.append((name, "harnesses did not run: " + ", ".join(want)))
        stats = {c["harness_id"]: c["cbmc_stats"] for c in data.get("cbmc", []) if c.get("cbmc_stats")}
        for r in data["verification_results"]["results"]:
            cs = [c for c in r["checks"] if c["category"] != "cover"]
            ok = sum(c["status"] in FINE for c in cs)
            total["obligations"] += len(cs)
            total["discharged"] += ok
            st = stats.get(r["harness_id"], {})
            total["vcc"] += int(st.get("vccs_generated") or 0)
            total["solver_s"] += float(st.get("runtime_decision_procedure_s") or 0)
            per.append({"harness": r["harness_id"], "obligations": len(cs), "discharged": ok,
                        "covers": sum(c["category"] == "cover" for c in r["checks"]),
                        "seconds": round(r["duration_ms"] / 1000, 2), "verdict": res[r["harness_id"]][0]})
        dur = {r["harness_id"]: r["duration_ms"] for r in data["verification_results"]["results"]}
        for h in sorted(res, key=lambda h: dur[h]):
            if res[h][0] == "violated":
                violated.append((crate, h, res[h][1], out))
            elif res[h][0] == "undecided":
                undecided.append((name + ":" + h, "; ".join(short(c) for c in res[h][1][:5]) or "no result (timeout or memory)"))
    # a loop that no longer fits its unwinding bound: a limit of the check, unless a run on the real code fails
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": total["obligations"], "discharged": total["discharged"],
                       "checker_cmd": " ; ".join(cmds) or "none ran",
                       "trusted_base": TRUSTED, "back_end": "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL",
                       "harnesses": per, "functions_under_proved_contract": sorted(functions),
                       "verification_conditions_generated": total["vcc"], "solver_seconds": round(total["solver_s"], 2),
                       "modes": modes, "undecided": [list(u) for u in undecided]},
          "assumptions": ASSUMPTIONS + p.get("assumptions", []), "wall_s": 0, "violations": 0}
    code = 0
    bounded = []
    if violated or undecided:
        lines, found = [], False
        rp = os.path.join(VERIF, "replays", pid + ".txt")
        for crate, h, failed, out in violated:
            lines.append(f"harness {crate.name}::{h}: {len(failed)} obligation(s) fail")
            lines += ["  " + short(c) for c in failed[:20]]
        head = [f"property {pid}: obligations that the verifier does not discharge on /repo's working tree", ""]
        if violated:
            for crate, h, failed, out in violated[:3]:
                if left(tier) < 60:
                    break
                lines.append(f"\n--- replay of {h} on the real code")
                if replay(crates, crate.name, h, p, seed, tier, lines):
                    found = True
                    break
        else:
            # undecided by the verifier: only a failing run of the real code makes it a violation
            for hn, why in undecided:
                lines.append(f"undecided: {hn}: {why}")
                if ":" in hn and left(tier) > 40:
                    n, h = hn.split(":", 1)
                    before = len(lines)
                    lines.append(f"\n--- runs of {h} on the real code")
                    secs = max(2, min(25, int((left(tier) - 60) / len(undecided)) - 6))
                    if replay(crates, n, h, p, seed, tier, lines, playback=False, secs=secs):
                        found = True
                        break
                    runs = [re.search(r"no failing input in (\d+) native runs", l) for l in lines[before:] if not l.startswith(("native runs of", "\n---"))]
                    if runs and all(runs):
                        bounded.append((hn, sum(int(m.group(1)) for m in runs)))
        with open(rp, "w") as f:
            f.write("\n".join(head + lines) + "\n")
            for out in sorted({v[3] for v in violated}):
                f.write("\n--- verifier output (end)\n" + open(out).read()[-20000:])
        if violated or found:
            print("\n".join(lines[:40]))
            print(f"VIOLATION property={pid} replay={rp}" + ("" if found else " no-failing-input-found"))
            ev["violations"] = max(1, len(violated))
            code = 1
        else:
            for hn, why in undecided:
                print(f"UNDECIDED property={pid} {hn}: {why}")
            if len(bounded) == len(undecided) and (any(x["verdict"] == "ok" for x in per) or "walk" in p):
                for hn, n in bounded:
                    print(f"BOUNDED property={pid} {hn}: no answer from the verifier; {n} runs of it on the real code found no failure")
                ev["level"] = "other"
                ev["coverage"]["explanation"] = ("The verifier gave no answer for the harnesses under 'undecided'; for them only, the stated number of "
                                                 "native runs on generated inputs stand in (bounded, not proved). The other harnesses are proved.")
                ev["coverage"]["native_runs"] = {hn: n for hn, n in bounded}
            else:
                code = 2
    for k in known(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    ev["wall_s"] = round(time.time() - T0, 2)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0 and not bounded:
        print(f"property={pid} held: {total['discharged']} of {total['obligations']} obligations discharged by {len(per)} harnesses in {ev['wall_s']} s")
    return code


def known(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


TRUSTED = [
    "Kani 0.68.0 (MIR to goto translation, contract instrumentation) and its model of the Rust core library",
    "CBMC 6.11.0 symbolic execution and bit-blasting, CaDiCaL SAT solver",
    "rustc nightly-2026-08-21 front end (the MIR that is verified is produced by Kani's own toolchain, not by the stable compiler that builds the release)",
    "specification functions under /verif/contracts, written from the PCI, PCI Express and CXL register definitions",
    "harness text under /verif (which inputs are unconstrained, which function is called)",
]
ASSUMPTIONS = [
    "heterob 0.3.0 and snafu 0.7.5 are verified together with the code that calls them, not by contract",
    "machine integers are bit-precise; memory allocation does not fail; slices are at most isize::MAX bytes long (as Rust requires)",
    "panics are failures; termination is only covered where a loop is fully unwound (unwinding assertions are on)",
]

if __name__ == "__main__":
    sys.exit(main())
