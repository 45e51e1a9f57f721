"""Type-level obligations: programs the compiler has to reject, each with a twin it has to accept.

witness/programs/<spec>.txt holds programs as
    ### name : codes        (codes: error codes one of which has to be the reason; `lifetime` for
                             lifetime errors, which have no code; `ok`: no rejected program, the
                             twin alone is decided)
    lines; `//-` ends lines only of the program to reject, `//+` lines only of the twin to accept.
Nothing is executed; the deciding step is the type and borrow checker on the current tree of /repo.
"""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = """#![allow(unused, dead_code, mismatched_lifetime_syntaxes, deprecated)]
extern crate alloc;
use std::{mem::{self, MaybeUninit}, pin::Pin, alloc::Layout, cell::Cell, ptr::NonNull, fmt::{self, Debug, Display}, any::Any, marker::PhantomPinned};
"""


def load(spec):
    progs, cur = [], None
    for line in open(os.path.join(HERE, "witness/programs", spec + ".txt")):
        m = re.match(r"### (\S+) : (.*)", line)
        if m:
            cur = {"name": m.group(1), "codes": m.group(2).split(), "lines": []}
            progs.append(cur)
        elif cur:
            cur["lines"].append(line.rstrip("\n"))
    head = [p for p in progs if p["name"] == "prelude"]
    progs = [p for p in progs if p["name"] != "prelude"]
    pre = PRELUDE + ("\n".join(head[0]["lines"]) + "\n" if head else "")
    for p in progs:
        p["bad"] = pre + "\n".join(l for l in p["lines"] if not l.rstrip().endswith("//+"))
        p["good"] = pre + "\n".join(l for l in p["lines"] if not l.rstrip().endswith("//-"))
    assert len({p["name"] for p in progs}) == len(progs)
    return progs


def names(spec):
    return sorted(p["name"] for p in load(spec))


def decide(prop, spec, tier, expected):
    tgt = tempfile.mkdtemp(prefix="vwit.", dir="/tmp")
    try:
        return _decide(prop, spec, expected, tgt)
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


def _decide(prop, spec, expected, tgt):
    violations, ev = [], {
        "rule": "each program has to be rejected by the compiler for the stated reason against the current crates, and its twin, which differs in the offending lines only, has to be accepted",
        "programs": 0, "rejected": {}, "accepted_twins": 0}
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-A warnings -A dangerous_implicit_autorefs")
    env.pop("RUSTC_WRAPPER", None)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=json"], cwd=os.path.join(HERE, "witness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    externs, dirs = [], set()
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d["reason"] == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith(".rmeta"):
                    dirs.add(os.path.dirname(f))
                    if d["package_id"].startswith("path+file:///repo/"):
                        externs += ["--extern", d["target"]["name"].replace("-", "_") + "=" + f]
    progs = load(spec)
    if r.returncode:
        return [{"key": "type check", "variant": "witness", "what": "the crates do not type-check: " + r.stderr[-1500:]}], ev
    libs = [x for d in sorted(dirs) for x in ("-L", "dependency=" + d)]

    def compile(p, kind):
        src = os.path.join(tgt, f"{p['name']}_{kind}.rs")
        with open(src, "w") as f:
            f.write(p[kind] + "\n")
        c = subprocess.run(["rustc", "+nightly", "--edition=2021", "--crate-type=lib", "--emit=metadata", "-A", "warnings", "--error-format=json", "-o", src[:-3] + ".rmeta", src] + libs + externs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=tgt, env=env)
        errs = []
        for l in c.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                errs.append((None, l[:300]))
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"):
                code = (d.get("code") or {}).get("code")
                if code is None and "lifetime" in d["message"]:
                    code = "lifetime"
                errs.append((code, d["message"]))
        return c.returncode, errs

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bad = {p["name"]: ex.submit(compile, p, "bad") for p in progs if p["codes"] != ["ok"]}
        good = {p["name"]: ex.submit(compile, p, "good") for p in progs}
        for p in progs:
            n = p["name"]
            ev["programs"] += 1
            rc, errs = good[n].result()
            if rc:
                violations.append({"key": f"{spec}: {n}: twin", "variant": "witness", "what": f"program {n}: the legal use is rejected: {errs[:2]}", "program": p["good"]})
                continue
            ev["accepted_twins"] += 1
            if n not in bad:
                continue
            rc, errs = bad[n].result()
            codes = {c for c, _ in errs}
            if rc == 0:
                violations.append({"key": f"{spec}: {n}", "variant": "witness", "what": f"program {n} is accepted by the compiler, but violates the property", "program": p["bad"]})
            elif not codes <= set(p["codes"]):
                violations.append({"key": f"{spec}: {n}: reason", "variant": "witness", "what": f"program {n} is rejected for another reason than {p['codes']}: {errs[:2]}", "program": p["bad"]})
            else:
                for c in codes:
                    ev["rejected"][c] = ev["rejected"].get(c, 0) + 1
        for n in expected:
            if n not in good:
                violations.append({"key": f"{spec}: {n}: missing", "variant": "witness", "what": f"program {n} was not decided"})
    return violations, ev
