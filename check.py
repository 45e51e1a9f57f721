#!/usr/bin/env python3
"""Decide one property on the current tree of /repo.

usage: check.py <property id> [quick|thorough]
       check.py --record [<property id> ...]     rewrite the floors in expected.json (never done by a check)

Contracts (harness/src) are interpreted abstractly by the analyser (checker/); type-level obligations
(witness/) are decided by the compiler's type checker. See DESIGN.md.
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from proptable import PROPS  # noqa: E402

ENGINE_LABELS = {"memory safety", "no panic", "drops", "loops end without interference", "only a second panic aborts"}
TRUSTED = [
    "rustc nightly front end and MIR construction (the analysed program is the MIR of the current tree)",
    "the analyser in /verif/checker: transfer functions, join/widening, linear arithmetic",
    "summaries of core/alloc intrinsics, layouts, atomics and the global allocator (checker/src/summ.rs)",
    "the contracts in /verif/harness/src",
]


TIER = "thorough"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_checker():
    exe = os.path.join(HERE, "checker/target/release/vchk")
    os.makedirs(os.path.join(HERE, "checker/target"), exist_ok=True)
    with open(os.path.join(HERE, "checker/target/.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "checker/target"), CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER"):
            env.pop(k, None)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--locked"], cwd=os.path.join(HERE, "checker"), env=env)
        if r.returncode or not os.path.exists(exe):
            print(r.stdout[-4000:])
            sys.exit("the analyser could not be built")


def run_contracts(mods, mode, feats, shards):
    """-> (list of roots, error text)"""
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda i: run_shard(mods, mode, feats, f"{i}/{shards}"), range(shards)))
    for roots, err in res:
        if roots is None:
            return None, err
    return sorted((r for roots, _ in res for r in roots), key=lambda r: r["root"]), None


def run_shard(mods, mode, feats, shard):
    tgt = tempfile.mkdtemp(prefix="vchk.", dir="/tmp")
    try:
        out = os.path.join(tgt, "out.json")
        env = dict(os.environ, VERIF_TGT=tgt, VERIF_SHARD=shard, VERIF_TIER=TIER)
        r = sh(["bash", os.path.join(HERE, "checker/run.sh"), ",".join(mods), out, mode] + ([feats] if feats else []), env=env)
        if not os.path.exists(out):
            return None, r.stdout
        return json.load(open(out)), None
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


def known(prop):
    """entries of known-findings.txt: {key: text}"""
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3)
    return res


def contract_labels(root):
    return sorted(o["label"] for o in root["obligations"] if o["label"] not in ENGINE_LABELS and o["checked"])


def variant_name(v):
    return v[0] + (("+" + v[1]) if v[1] else "")


def decide_contracts(prop, spec, tier, expected, record):
    violations, ev = [], {"variants": {}, "functions": set(), "obligations": 0, "discharged": 0, "by_label": {}, "roots": 0, "paths": 0, "steps": 0, "calls": 0, "loop_visits": 0, "joins": 0}
    variants = list(spec.get("variants", [("debug", ""), ("release", "")]))
    if tier == "thorough":
        variants += spec.get("thorough_variants", [])
    rec = {}
    with ThreadPoolExecutor(2) as ex:
        results = list(ex.map(lambda v: run_contracts(spec["mods"], *v, spec.get("shards", 3)), variants))
    for v, (roots, err) in zip(variants, results):
        vn = variant_name(v)
        if roots is None:
            first = [l for l in err.splitlines() if l.startswith("error")]
            violations.append({"key": "type check", "variant": vn, "what": "the contracts no longer type-check against the current interface: " + " / ".join(first[:3]), "log": err[-6000:]})
            continue
        exp = expected.get(vn, {})
        rec[vn] = {}
        for r in roots:
            name = r["root"]
            rec[vn][name] = {"reach": sorted(r["reached"]), "labels": contract_labels(r)}
            ev["roots"] += 1
            for k in ("paths", "steps", "calls", "loop_visits", "joins"):
                ev[k] += r[k]
            ev["functions"].update(f for f in r["functions"] if not f.startswith("vharness::"))
            for o in r["obligations"]:
                ev["obligations"] += o["checked"]
                ev["discharged"] += o["checked"] - o["failed"]
                b = ev["by_label"].setdefault(o["label"], [0, 0])
                b[0] += o["checked"]
                b[1] += o["failed"]
                if o["failed"]:
                    violations.append({"key": f"{name}: {o['label']}", "variant": vn, "what": f"contract {name}: obligation '{o['label']}' fails at {o['failed']} of {o['checked']} places", "failures": o["failures"]})
            for u in r["undecided"]:
                violations.append({"key": f"{name}: undecided", "variant": vn, "what": f"contract {name}: not decided: {u}"})
            for u in r["unmodeled"]:
                violations.append({"key": f"{name}: unmodelled", "variant": vn, "what": f"contract {name}: call into unmodelled code: {u}"})
        if record:
            continue
        if not exp:
            violations.append({"key": "floors", "variant": vn, "what": f"no floors recorded for variant {vn}"})
        for name, e in exp.items():
            got = rec[vn].get(name)
            if got is None:
                violations.append({"key": f"{name}: missing", "variant": vn, "what": f"contract {name} was not analysed"})
                continue
            for l in e["reach"]:
                if l not in got["reach"]:
                    violations.append({"key": f"{name}: reach {l}", "variant": vn, "what": f"contract {name}: no path of the current code reaches the outcome '{l}'"})
            for l in e["labels"]:
                if l not in got["labels"]:
                    violations.append({"key": f"{name}: vacuous {l}", "variant": vn, "what": f"contract {name}: obligation '{l}' no longer applies to any path"})
        ev["variants"][vn] = len(roots)
    ev["functions"] = sorted(ev["functions"])
    return violations, ev, rec


def main():
    args = sys.argv[1:]
    record = args and args[0] == "--record"
    if record:
        build_checker()
        p = os.path.join(HERE, "expected.json")
        exp = json.load(open(p)) if os.path.exists(p) else {}
        for prop in args[1:] or list(PROPS):
            spec = PROPS[prop]
            e = {}
            if "mods" in spec:
                v, _, rec = decide_contracts(prop, spec, "thorough", {}, True)
                e.update(rec)
                for x in v:
                    print("note:", prop, x["variant"], x["what"])
            if "witness" in spec:
                import witness
                e["witness"] = witness.names(spec["witness"])
            exp[prop] = e
        with open(p, "w") as f:
            json.dump(exp, f, indent=1, sort_keys=True)
            f.write("\n")
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    global TIER
    TIER = tier
    spec = PROPS[prop]
    t0 = time.time()
    build_checker()
    expected = json.load(open(os.path.join(HERE, "expected.json"))).get(prop, {})
    violations, cov = [], {}
    if "mods" in spec:
        v, ev, _ = decide_contracts(prop, spec, tier, expected, False)
        violations += v
        cov["contracts"] = {
            "rule": "abstract interpretation of the MIR of every path of every contract, callees from the current tree inlined, loops generalised to an inductive state; each obligation has to follow from the abstract state at its place",
            "configurations": ev["variants"], "contracts_analysed": ev["roots"], "paths": ev["paths"], "basic_blocks_interpreted": ev["steps"],
            "call_sites": ev["calls"], "loop_head_visits": ev["loop_visits"], "joins": ev["joins"], "functions": ev["functions"],
            "obligations_by_rule": {k: {"checked": c, "failed": f} for k, (c, f) in sorted(ev["by_label"].items())},
        }
        cov["obligations"] = ev["obligations"]
        cov["discharged"] = ev["discharged"]
    if "witness" in spec:
        import witness
        v, ev = witness.decide(prop, spec["witness"], tier, expected.get("witness", []))
        violations += v
        cov["witnesses"] = ev
        cov["obligations"] = cov.get("obligations", 0) + ev["programs"]
        cov["discharged"] = cov.get("discharged", 0) + ev["programs"] - len(v)
    kf = known(prop)
    listed = [v for v in violations if v["key"] in kf]
    new = [v for v in violations if v["key"] not in kf]
    cov["explanation"] = "static analysis of the current source of /repo: see 'rule' for how each obligation is decided and the counts for what was analysed in this run"
    cov["checker_cmd"] = f"python3 check.py {prop} {tier}"
    cov["trusted_base"] = TRUSTED
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", f"{prop}.violations.json")
    if os.path.exists(replay):
        os.unlink(replay)
    doc = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    for k in sorted({v["key"] for v in listed}):
        print(f"KNOWN-FINDING: property={prop} {kf[k]} [{k}]")
    if new:
        with open(replay, "w") as f:
            json.dump({"property": prop, "replay": f"python3 /verif/check.py {prop} {tier}", "violations": new}, f, indent=1)
            f.write("\n")
        for v in new[:12]:
            print(f"  {v['variant']}: {v['what']}")
            for x in v.get("failures", [])[:2]:
                print(f"      {x['msg'][:400]}\n      at {x['at']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"{prop} holds: {cov.get('discharged', 0)} obligations discharged, {round(time.time() - t0, 1)} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
