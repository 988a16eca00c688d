#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
DRV = os.path.join(B, "driver/release/vdriver")


def die(msg):
    print("CHECK ERROR: " + msg)
    sys.exit(2)


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def build_driver():
    if not os.path.exists(DRV):
        r = subprocess.run(["bash", os.path.join(V, "tools/b.sh")], capture_output=True, text=True)
        if not os.path.exists(DRV):
            die("the analyser does not build:\n" + r.stdout[-3000:] + r.stderr[-3000:])


def prepare(c):
    """the sources of a front end, with its specification as one more module, as a library of their own"""
    src, main, spec = c["front"]
    d = os.path.join(V, c["dir"])
    if os.path.isdir(os.path.join(d, "src")):
        shutil.rmtree(os.path.join(d, "src"))
    shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"))
    text = open(os.path.join(src, "src", main)).read()
    if main != "lib.rs":
        os.remove(os.path.join(d, "src", main))
    for name, path in (("spec", "harness/src/spec.rs"), ("models", "harness/src/models.rs"), ("frames", "front/frames.rs"), ("front", f"front/{spec}.rs")):
        text += f'\n#[path = "{V}/{path}"]\npub mod {name};\n'
    open(os.path.join(d, "src/lib.rs"), "w").write(text)
    toml = open(os.path.join(src, "Cargo.toml")).read()
    toml = re.sub(r'path = "\.\."', 'path = "/repo"', toml)
    toml = re.sub(r"\[lib\][^\[]*", "", toml)
    if "[features]" in toml:
        toml = toml.replace("[features]", "[features]\nfull = []", 1)
    else:
        toml += "\n[features]\nfull = []\n"
    toml = toml.replace("[dependencies]", '[dependencies]\narrayvec = { version = "0.7", default-features = false }', 1)
    toml += f'\n[lib]\nname = "{c["crate"]}"\npath = "src/lib.rs"\n\n[workspace]\n'
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    lock = os.path.join(V, f"front/{spec}.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))


def build(cfg):
    """compile /repo and the harness in one feature configuration; returns the recorded compiler arguments"""
    c = plan.CONFIGS[cfg]
    args = os.path.join(B, f"{cfg}.args")
    if os.path.exists(args):
        os.remove(args)
    target = os.path.join(B, "t-" + c["target"])
    rec = os.path.join(target, "args")
    os.makedirs(rec, exist_ok=True)
    crate = c.get("crate", "harness")
    e = env(RUSTC_WRAPPER=DRV, CARGO_TARGET_DIR=target, VARGS=args, VCRATE=crate, VREC=rec, VRECDIRS="/repo:" + os.path.join(V, "fixtures"))
    lock = os.path.join(c["dir"], "Cargo.lock") if c["dir"].startswith("/repo") else ""
    made = False
    with open(os.path.join(B, f"lock-{c['target']}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if "front" in c:
            prepare(c)
        # the final crate is always compiled anew, so that its arguments are recorded
        again = [crate]
        if any(not os.path.exists(os.path.join(rec, n + ".args")) for n in c["records"]):
            again += c["records"]
        for n in again:
            d = os.path.join(target, "debug/build", n.replace("_", "-"))
            if os.path.isdir(d):
                shutil.rmtree(d)
        if lock and not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)
            made = True
        r = subprocess.run(["cargo", "+nightly", "-Zchecksum-freshness", "check", "--offline"] + c["cargo"], cwd=os.path.join(V, c["dir"]), env=e, capture_output=True, text=True)
        if made:
            os.remove(lock)
    for n in c["records"]:
        if r.returncode == 0 and not os.path.exists(os.path.join(rec, n + ".args")):
            die(f"configuration {cfg}: the compilation of {n} was not recorded")
    if r.returncode != 0 or not os.path.exists(args):
        die(f"configuration {cfg} does not compile:\n" + r.stderr[-4000:])
    return args


def unfinished(fn, why):
    """an analysis that blows up shows nothing: its obligations count as not discharged"""
    o = {"kind": "analysis", "func": fn, "site": "", "what": "analysis ends within its budget", "why": why, "stack": "", "bad": 1, "n": 1}
    return {"functions": [], "loops": [], "opaque": {}, "obligations": [o], "unsupported": {}, "steps": 0, "secs": 0}


def analyse(job):
    cfg, fn, tmo = job
    out = os.path.join(B, "out", f"{cfg}.{fn.replace('::', '.')}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    try:
        r = subprocess.run(["bash", "-c", f"ulimit -v 14000000; exec {DRV} analyse {B}/{cfg}.args"], cwd=os.path.join(V, plan.CONFIGS[cfg]["dir"]), env=env(VFN=fn, VOUT=out, VBUDGET=str(tmo)), capture_output=True, text=True, timeout=tmo + 60)
    except subprocess.TimeoutExpired:
        return (job, unfinished(fn, f"no result within {tmo + 60} s"), None)
    if not os.path.exists(out) and r.returncode in (-6, -9, 134, 137):
        return (job, unfinished(fn, "out of memory"), None)
    if not os.path.exists(out):
        return (job, None, "no result: " + (r.stderr or r.stdout)[-1500:])
    return (job, json.load(open(out)), None)


def short(p):
    return re.sub(r"/repo/", "", p)


def key(pid, o):
    """identity of a violated obligation, independent of line numbers"""
    site = re.sub(r":\d+(:\d+)?$", "", short(o["site"]))
    return f"{pid}|{o['kind']}|{o['func']}|{site}|{o['what']}"


def main():
    pid = sys.argv[1]
    p = plan.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    build_driver()
    jobs = [(c, f, p.get("budget", 300)) for (c, f) in p["jobs"] + (p.get("thorough", []) if tier == "thorough" else [])]
    cfgs = []
    for j in jobs:
        if j[0] not in cfgs:
            cfgs.append(j[0])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build, cfgs))
    with ThreadPoolExecutor(p.get("par", 8)) as ex:
        res = list(ex.map(analyse, jobs))
    errs = [f"{j[0]}:{j[1]}: {e}" for (j, r, e) in res if e]
    if errs:
        die("; ".join(errs))
    kinds = p["kinds"]
    obls, bad, reached, funcs, loops, opaque = 0, {}, {}, set(), 0, {}
    discharged = 0
    per, repo = {}, {}
    for (cfg, fn, _), r, _ in res:
        funcs |= set(r["functions"])
        loops += len(r["loops"])
        for k, n in r["opaque"].items():
            opaque[k] = opaque.get(k, 0) + n
        cnt = 0
        for o in r["obligations"]:
            if o["kind"] == "reached":
                reached[(fn, o["what"])] = reached.get((fn, o["what"]), 0) + o["n"]
                continue
            if o["kind"] not in kinds and o["kind"] != "analysis":
                continue
            if o["kind"] == "analysis" and not o["bad"]:
                continue
            obls += 1
            cnt += 1
            if o["bad"]:
                bad.setdefault(key(pid, o), (cfg, fn, o))
            else:
                discharged += 1
        if "loop" in kinds:
            for l in r["loops"]:
                obls += 1
                cnt += 1
                if l["ok"]:
                    discharged += 1
                else:
                    o = {"kind": "loop", "func": l["func"], "site": l["site"], "what": "loop progress", "why": l["measure"], "stack": ""}
                    bad.setdefault(key(pid, o), (cfg, fn, o))
        for k in r["unsupported"]:
            o = {"kind": "unsupported", "func": fn, "site": "", "what": k, "why": "construct outside what the analyser understands", "stack": ""}
            obls += 1
            bad.setdefault(key(pid, o), (cfg, fn, o))
        repo[(cfg, fn)] = sorted(f for f in r["functions"] if "m_bus" in f or "mbus" in f)
        per[f"{cfg}:{fn}"] = {"obligations": cnt, "functions": len(r["functions"]), "loops": len(r["loops"]), "steps": r["steps"], "secs": r["secs"]}
    for (fn, label) in p.get("reach", []):
        obls += 1
        if reached.get((fn, label)):
            discharged += 1
        else:
            o = {"kind": "reach", "func": fn, "site": "", "what": label, "why": "no path of the analysed code reaches this point: the rule would hold vacuously", "stack": ""}
            bad.setdefault(key(pid, o), ("", fn, o))
    if obls < p.get("floor", 1) and not bad:
        die(f"only {obls} obligations were generated, at least {p['floor']} expected: anchors missing")
    known = {}
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith("known: "):
                k, _, text = line[7:].rstrip("\n").partition(" :: ")
                known[k] = text
    viol, listed = [], []
    for k, (cfg, fn, o) in sorted(bad.items()):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
            obls -= 1
            listed.append(known[k])
        else:
            viol.append((k, cfg, fn, o))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    samples = sorted(f for f in funcs if "m_bus" in f or "mbus" in f)
    cov = {
        "obligations": obls, "discharged": discharged,
        "checker_cmd": f"python3 tools/check.py {pid}",
        "trusted_base": plan.TRUSTED + p.get("trusted", []),
        "entry_points": per,
        "functions_analysed": len(funcs),
        "repository_functions_analysed": len(samples),
        "loops_analysed": loops,
        "rule": p["rule"],
        "configurations": {c: plan.CONFIGS[c]["what"] for c in cfgs},
        "calls_left_opaque": opaque,
        "samples": samples[:40],
        "known_findings": listed,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "proof"), "coverage": cov,
          "assumptions": p.get("assumptions", []), "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    if p.get("level") == "other":
        cov["explanation"] = p["rule"]
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {obls} obligations, {discharged} discharged, {len(funcs)} functions, {loops} loops, {len(jobs)} entry points, {ev['wall_s']} s")
    if viol:
        rp = os.path.join(V, "evidence", f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for k, cfg, fn, o in viol:
                f.write(f"{k}\n  rule: {o['kind']}: {o['what']}\n  at: {short(o['site'])} in {o['func']}\n  configuration {cfg}, entry {fn}\n  path: {short(o.get('stack', ''))}\n  not shown: {o['why']}\n  repository functions on the analysed paths: {', '.join(repo.get((cfg, fn), []))}\n")
        for k, cfg, fn, o in viol[:20]:
            print(f"  {o['kind']}: {o['what']} at {short(o['site'])} in {o['func']} [{cfg}:{fn}]: {o['why'][:300]}")
        seen = []
        for k, cfg, fn, o in viol:
            for f in repo.get((cfg, fn), []):
                if f not in seen:
                    seen.append(f)
        print("  constructs involved: " + ", ".join(seen[:12]))
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)


if __name__ == "__main__":
    main()
