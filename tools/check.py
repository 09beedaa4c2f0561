#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of properties.jsonl against /repo's current working tree:
 1. deductive layer  - expands the property's proof units from the current source, runs Verus;
 2. execution layer  - builds /repo's real code and runs the property's contract driver on it
                       (witness search for failed obligations, and the labelled bounded
                       stand-in for what the deductive layer cannot reach).
Exit 0 / exit 1 + VIOLATION line, evidence in /verif/evidence/<id>.json. See DESIGN.md.
"""
import hashlib
import json
import os
import resource
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from vp import verus            # noqa: E402
from vp.props import PROPS      # noqa: E402

HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), RUST_BACKTRACE="0", HOME="/root",
             PATH="/root/.cargo/bin:" + e.get("PATH", ""))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def build_driver(name):
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "drivers", "--bin", name],
                       cwd=HARNESS, env=cargo_env(), capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def run_driver(name, tier, seed, timeout):
    exe = os.path.join(HARNESS, "target", "debug", name)
    try:
        # code that allocates without end is stopped long before the sandbox runs out of memory
        cap = lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        p = subprocess.run([exe, tier, str(seed)], cwd=BUILD, env=cargo_env(), capture_output=True, text=True,
                           errors="replace", timeout=timeout, preexec_fn=cap)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return "timeout", out.decode(errors="replace") if isinstance(out, bytes) else out, ""


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" | ")
                out.append((key.strip(), desc.strip()))
    return out


def demote_restructured(results):
    """Loop invariants are written for the loops of the pinned source (proofs/skeleton.json), ghost text
    for the statements it is anchored at. If an obligation of a function fails in which a loop has been
    rewritten, an anchor is gone or a new closure (which has no contract) stands, its annotations no longer fit the code and the failure says nothing
    about it: the unit is undecided, not violated. (Each function is verified against the contracts of
    the others, so failures in functions whose annotations all apply count.)"""
    try:
        sk = json.load(open(os.path.join(ROOT, "proofs", "skeleton.json")))
    except (OSError, ValueError):
        return
    for u, r in results:
        if r.status != "failed":
            continue
        base, closures = sk.get(u, {}), sk.get("closures", {}).get(u, {})
        changed = [i["item"] for i in r.infos if i["loops"] != base.get(i["item"], i["loops"]) or i["missing"] or i["closures"] > closures.get(i["item"], 0)]
        left = [f for f in r.failures if f[0] is not None and f[0] not in changed]
        if changed and left:
            r.failures = left
            r.reason = "; ".join(f"{f}: {m}" for f, m, _ in left[:4])
        elif changed:
            r.status = "lost"
            gone = [f"{i['item']}: {m}" for i in r.infos for m in i["missing"]]
            r.reason = "annotations do not fit " + ", ".join(changed) + (" (" + "; ".join(gone[:3]) + ")" if gone else "") + "; then: " + r.reason


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = PROPS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    drv = {"built": None, "stats": {}, "witness": [], "note": ""}

    def exec_layer():
        name = cfg.get("driver")
        if not name:
            return
        ok, log = build_driver(name)
        drv["built"] = ok
        if not ok:
            drv["note"] = "driver does not build against the current tree"
            drv["log"] = log[-3000:]
            return
        limit = cfg.get("timeout", {"quick": 240, "thorough": 600})[tier] if isinstance(cfg.get("timeout"), dict) else (240 if tier == "quick" else 700)
        rc, out, err = run_driver(name, tier, seed, limit)
        for line in out.split("\n"):
            if line.startswith("WITNESS "):
                try:
                    drv["witness"].append(json.loads(line[8:]))
                except ValueError:
                    drv["witness"].append({"raw": line[8:]})
            elif line.startswith("STATS "):
                drv["stats"] = json.loads(line[6:])
        if rc == "timeout":
            drv["note"] = "driver stopped at its time limit"
            if cfg.get("hang_is_violation"):
                drv["witness"].append({"what": "no termination within the limit", "last": out[-300:]})
        elif rc not in (0, 3):
            # abort (stack overflow, process::abort) inside the real code
            drv["witness"].append({"what": f"the driver process died (status {rc}) while running the real code",
                                   "stderr": err[-1500:], "stdout": out[-500:]})

    th = threading.Thread(target=exec_layer)
    th.start()
    results = []
    for u in cfg.get("units", []):
        results.append((u, verus.check_unit(os.path.join(ROOT, "proofs", u + ".rs"), work,
                                            probe=True, thorough=tier == "thorough")))
    th.join()

    demote_restructured(results)
    failed = [(u, r) for u, r in results if r.status == "failed"]
    undecided = [(u, r) for u, r in results if r.status not in ("ok", "failed")]
    proved = [(u, r) for u, r in results if r.status == "ok"]
    wit = drv["witness"]
    known = known_findings(pid)
    fresh = []
    for w in wit:
        key = w.get("key", "")
        k = next((d for kk, d in known if kk == key), None)
        if k is None:
            fresh.append(w)
    reported = {w.get("key") for w in wit}
    for kk, d in known:
        if kk in reported:
            print(f"KNOWN-FINDING: property={pid} {kk}: {d}")

    violation = None
    if fresh:
        violation = "witness"
    elif failed:
        violation = "obligation"
    # nothing decided at all?
    no_answer = (not results or (not proved and not failed)) and not drv["stats"] and not wit

    lines = []
    if violation:
        rp = os.path.join(work, f"replay-{tier}-{seed}.json")
        json.dump({
            "property": pid, "tier": tier, "seed": seed,
            "witness": fresh[:20],
            "replay_cmd": f"cd {HARNESS} && cargo build --offline -p drivers --bin {cfg.get('driver')} && target/debug/{cfg.get('driver')} {tier} {seed}" if cfg.get("driver") else None,
            "failed_obligations": [{"unit": u, "function": f, "obligation": m, "verifier_output": rd}
                                   for u, r in failed for f, m, rd in r.failures],
            "verifier_cmds": [r.cmd for _, r in failed],
            "undecided": [{"unit": u, "status": r.status, "reason": r.reason} for u, r in undecided],
        }, open(rp, "w"), indent=1)
        tail = "" if violation == "witness" else " no-failing-input-found"
        lines.append(f"VIOLATION property={pid} replay={rp}{tail}")

    # ---- evidence
    trusted = sorted({t for _, r in results for t in r.trusted})
    obligations = sum(r.verified + r.errors for _, r in results)
    discharged = sum(r.verified for _, r in results)
    level = cfg["level"]
    if level == "proof" and (undecided or not results):
        level = "exploration" if drv["stats"] else "other"
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": " ; ".join(r.cmd for _, r in results) or "none",
        "trusted_base": trusted + cfg.get("trusted", []),
        "backend": "Verus 0.2026.09.13 / Z3",
        "solver_ms": sum(r.smt_ms for _, r in results),
        "functions_under_contract": [f"{i['file']}:{i['source_line']} {i['item']}"
                                     for _, r in results for i in r.infos if i["kind"] == "fn"],
        "extraction_rewrites": [f"{i['item']}: {w}" for _, r in results for i in r.infos for w in i["rewrites"]],
        "units": [{"unit": u, "status": r.status, "reason": r.reason, "verified": r.verified, "errors": r.errors,
                   "reachability_probes": r.probes, "probes_reached": r.probes_hit, "wall_s": round(r.wall, 2)}
                  for u, r in results],
        "execution_layer": {"driver": cfg.get("driver"), "built": drv["built"], "note": drv["note"],
                            "label": cfg.get("exec_label", "bounded: witness search / stand-in, never counted as proved")},
    }
    st = drv["stats"]
    if st:
        cov["evaluations"] = st.get("evaluations", 0)
        cov["distinct_nontrivial"] = st.get("distinct_nontrivial", 0)
        cov["rule"] = st.get("rule", "")
        cov["samples"] = st.get("samples", [])
        cov["execution_layer"]["bounds"] = st.get("bounds", "")
    if level == "other":
        cov["explanation"] = "; ".join(f"{u}: {r.status} {r.reason}" for u, r in undecided) or drv["note"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)

    for u, r in results:
        print(f"{pid} {u}: {r.status} verified={r.verified} errors={r.errors} probes={r.probes_hit}/{r.probes} {r.wall:.1f}s {r.reason}")
    if cfg.get("driver"):
        print(f"{pid} driver {cfg['driver']}: built={drv['built']} {drv['note']} evaluations={st.get('evaluations')} witnesses={len(wit)}")
    if drv.get("log"):
        print(drv["log"])
    for w in fresh[:3]:
        print("  witness:", json.dumps(w)[:600])
    for l in lines:
        print(l)
    if violation:
        return 1
    if no_answer:
        print(f"{pid}: no layer could decide the property on this tree", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
