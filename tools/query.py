#!/usr/bin/env python3
"""query.py ID: decide one property by a query over the compiled crates or their call graph (see DESIGN.md)."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan
from check import V, B, DRV, die, env, short

# what the compiler itself puts into derived code
DERIVED = {"core::Clone", "core::Copy", "core::PartialEq", "core::Eq", "core::Hash", "core::Debug", "core::Default", "core::PartialOrd", "core::Ord"}
# glue generators of the front ends
GLUE = {"wasm_bindgen", "wasm_bindgen_macro", "pyo3", "pyo3_macros", "pyo3_ffi"}


def run(cfg, crate, what, roots="", out=None, mode=""):
    out = out or os.path.join(B, "out", f"q.{cfg}.{crate}.{what}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    a = os.path.join(B, "t-" + plan.CONFIGS[cfg]["target"], "args", crate + ".args")
    if crate == plan.CONFIGS[cfg].get("crate", "harness") and not os.path.exists(a):
        a = os.path.join(B, cfg + ".args")
    r = subprocess.run([DRV, "analyse", a], cwd=V, env=env(VQ=what, VFN=roots, VOUT=out, VTAINT=mode), capture_output=True, text=True, timeout=600)
    if not os.path.exists(out):
        die(f"{cfg}:{crate}: no result: " + r.stderr[-2000:])
    return json.load(open(out))


def build(cfgs):
    os.makedirs(B, exist_ok=True)
    check.build_driver()
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(check.build, cfgs))


def many(jobs):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: run(*j), jobs))


class Result:
    def __init__(self):
        self.obl = 0
        self.bad = []          # (key, rule, func, site, why, path)
        self.cov = {}
        self.cfgs = []

    def add(self, rule, func, site, why, path=""):
        site = re.sub(r":\d+$", "", short(site))
        k = f"{rule}|{func}|{site}"
        if k not in [b[0] for b in self.bad]:
            self.bad.append((k, rule, func, site, why, path))


def c22():
    """no unsafe construct in any crate, in any configuration"""
    build(["core", "std", "pbe", "front", "fix"])
    r = Result()
    r.cfgs = ["core", "std", "pbe", "front"]
    jobs = [(c, n, "crate") for c in ("core", "std", "pbe") for n in plan.LIB] + [("front", n, "crate") for n in plan.LIB + plan.FRONT]
    jobs.append(("fix", "fixtures", "crate"))
    per, glue = {}, {}
    for (cfg, crate, _), f in zip(jobs, many(jobs)):
        if cfg == "fix":
            got = {(u["what"], u["func"]) for u in f["unsafe"] if not u["macro"]}
            want = [("unsafe block", "unchecked"), ("unsafe function", "declared"), ("unsafe block", "through_macro"), ("static mut", "GLOBAL"), ("union", "Bits")]
            kinds = {g[0] for g in got}
            for w in want:
                if w not in got:
                    die(f"the rule does not find its example {w}")
            for k in ("unsafe impl", "foreign functions"):
                if k not in kinds:
                    die(f"the rule does not find its example of: {k}")
            continue
        n = f["functions"] + f["items"] + f["blocks"]
        r.obl += n
        per[f"{cfg}:{crate}"] = {"functions": f["functions"], "items": f["items"], "blocks": f["blocks"]}
        for u in f["unsafe"]:
            m = u["macro"]
            if m in DERIVED:
                continue
            if m.split("::")[0] in GLUE and crate in plan.FRONT:
                glue[m] = glue.get(m, 0) + 1
                continue
            r.add(u["what"], f"{crate}::{u['func']}", u["site"], f"{u['what']} in configuration {cfg}" + (f", from macro {m}" if m else ""))
    r.cov = {"crates": per, "generated_glue_not_judged": glue,
             "rule": "no unsafe block, unsafe function, unsafe implementation, mutable static, union, foreign function or assembly is written in any crate of the workspace, in any configuration; code generated by the binding generators is listed, not judged"}
    floors = {"m_bus_core": 120, "wired_mbus_link_layer": 30, "wireless_mbus_link_layer": 30, "m_bus_application_layer": 200, "m_bus_parser": 10}
    for k, v in per.items():
        if sum(v.values()) < floors.get(k.split(":")[1], 5):
            die(f"{k}: only {sum(v.values())} constructs seen")
    return r


def c19():
    """without features, nothing outside core is linked"""
    build(["core", "std"])
    r = Result()
    r.cfgs = ["core"]
    jobs = [("core", n, "crate") for n in plan.LIB] + [("std", "m_bus_parser", "crate")]
    jobs += [("core", n, "reach", "*") for n in plan.LIB]
    res = many(jobs)
    links, reach = {}, {}
    for j, f in zip(jobs, res):
        cfg, crate, what = j[:3]
        if cfg == "std":
            if not {"std", "alloc"} <= set(f["linked"]):
                die("the rule does not see the standard library in the configuration that has it")
            continue
        if what == "crate":
            links[crate] = f["linked"]
            for c in f["linked"]:
                r.obl += 1
                if c in ("std", "alloc"):
                    r.add("linked crate", crate, "", f"without optional features the crate is linked with {c}: " + ", ".join(x for x in f["linked"] if not x.startswith("rustc_std")))
        else:
            reach[crate] = {"roots": len(f["roots"]), "instances": f["instances"], "calls": f["calls"]}
            r.obl += f["instances"]
            for x in f["leaves"] + f["external"]:
                if x["crate"] in ("std", "alloc"):
                    r.add("call outside core", x["func"], x["site"], f"{x['what']} of {x['crate']} is reached", x["stack"])
            for x in f["unresolved"]:
                r.add("unresolved", x["func"], x["site"], x["what"], x["stack"])
            for x in f["foreign"]:
                r.add("foreign function", crate, "", f"{x} is reached: what it does is outside the language")
    r.cov = {"linked": links, "call_graph": reach,
             "rule": "compiled without features, no crate of the parser is linked, directly or through a dependency, with alloc or std, and no function reachable from any function of the parser lies outside core and the parser's own dependencies"}
    if sum(x["instances"] for x in reach.values()) < 400:
        die("call graph too small: anchors missing")
    return r


# modules of the standard library whose functions return what their arguments determine
STD_OK = ("alloc", "ascii", "error", "f32", "f64", "num", "collections", "ffi::os_str", "path", "sync::once", "sync::lazy_lock", "sync::once_lock", "sync::LazyLock", "sync::OnceLock", "sync::Once", "sync::poison", "sys::sync", "io::cursor", "io::impls", "io::buffered", "io::error", "hash::random", "hash", "rt::begin_panic", "panic", "panicking", "thread::panicking")
# caches of processor features: both branches compute the same
CPU = {"memchr", "std_detect", "aes", "cpufeatures", "core", "zmij"}
ITER = re.compile(r"hash_(map|set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf)\b|Hash(Map|Set)\b.*(::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if)$|fmt::Debug)")


def impure(f):
    """what in a call graph can make a result depend on more than the arguments: (rule, item)"""
    out = []
    repo = set(plan.LIB + plan.FRONT + ["fixtures"])
    for x in f["entries"]:
        w = x["what"]
        m = re.search(r"std::([a-z0-9_:A-Z]+)", w)
        p = m.group(1) if m else w
        if not any(p == o or p.startswith(o + "::") for o in STD_OK):
            out.append(("standard library effect", x))
        if w.endswith(" (random order)") and ITER.search(w[:-15]):
            out.append(("order of a hash table", x))
    for x in f["marks"]:
        k = x["kind"]
        if k == "lazily initialised static":
            continue
        if k == "address as number":
            if x["crate"] in repo:
                out.append((k, x))
            continue
        if x["crate"] in CPU and x["crate"] not in repo:
            continue
        if x["crate"] == "std":
            # state of the library itself is judged by the call that enters it
            continue
        out.append((k, x))
    for x in f["unresolved"]:
        out.append(("unresolved", x))
    for n in f["foreign"]:
        if not n.startswith("alloc::alloc::__rust"):
            x = next(y for y in f["leaves"] if y["what"] == n)
            if x["crate"] not in ("std", "core", "alloc", "std_detect"):
                out.append(("foreign function", x))
    return out


def c15():
    build(["core", "front", "fix"])
    r = Result()
    r.cfgs = ["core", "front"]
    jobs = [("core", n, "reach", "*") for n in plan.LIB] + [("front", n, "reach", "*") for n in plan.LIB]
    jobs += [("fix", "fixtures", "reach", "impure::*", os.path.join(B, "out/q.fix.bad.json")), ("fix", "fixtures", "reach", "pure::*", os.path.join(B, "out/q.fix.ok.json"))]
    per = {}
    for j, f in zip(jobs, many(jobs)):
        if j[0] == "fix":
            found = impure(f)
            if j[3] == "pure::*":
                if found:
                    die("the rule reports an example that is pure: " + "; ".join(f"{k}: {x['what']} in {x['func']}" for k, x in found[:5]))
                continue
            # every example must be reported from its own body
            names = f["roots"]
            hit = set()
            for k, x in found:
                hit.add(x["stack"].split(" > ")[0].split(" [")[0])
                for n in names:
                    if x["func"].startswith(n):
                        hit.add(n)
            alone = {}
            for n in names:
                if n not in hit and "__rust" not in n:
                    g = run("fix", "fixtures", "reach", n, os.path.join(B, "out/q.fix.one.json"))
                    if not impure(g):
                        die(f"the rule does not find its example {n}")
            continue
        per[f"{j[0]}:{j[1]}"] = {"roots": len(f["roots"]), "instances": f["instances"], "calls": f["calls"], "statics": len(f["statics"]), "functions_without_body": len(f["leaves"])}
        r.obl += f["instances"] + len(f["statics"])
        for k, x in impure(f):
            r.add(k, x["func"], x["site"] or x["at"], f"{x['what']} ({x['crate']})", x["stack"])
    if sum(x["instances"] for x in per.values()) < 8000:
        die("call graph too small: anchors missing")
    r.cov = {"call_graph": per,
             "rule": "from every function of the library, in the configurations with and without features, no call path reaches mutable global or thread-local state, the clock, the environment, files, random hash order, the address of an object or a function whose effect is unknown"}
    return r


def c14():
    """the bytes of a key reach nothing but the cipher"""
    build(["std", "front", "fix"])
    r = Result()
    r.cfgs = ["std", "front"]
    jobs = [("std", "harness", "taint", "c14::*", None, "")]
    for n in plan.FRONT:
        for m in ("bytes", "text"):
            jobs.append(("front", n, "taint", "*", os.path.join(B, f"out/q.{n}.{m}.json"), m))
    per = {}
    for j, f in zip(jobs, many(jobs)):
        name = j[1] + (":" + j[5] if j[5] else "")
        per[name] = {"entry_points": [x.split(" {")[0] for x in f["roots"]] if j[5] == "" else len(f["roots"]), "sources": f["sources"], "functions_entered_with_a_key": len(f["functions"]), "calls_with_a_key": f["calls"], "summaries": f["summaries"],
                     "consumed_by": f["consumed_by"], "treated_as_copying_everything": sorted(f["opaque"])}
        r.obl += f["calls"] + len(f["functions"]) + f["sources"]
        for x in f["found"]:
            r.add(x["what"], x["func"], x["site"], "the key flows " + " > ".join(y.split(" [")[0] for y in x["stack"].split(" > ")[-6:]), x["stack"])
        if j[5] == "" and (len(f["roots"]) < 9 or not f["consumed_by"]):
            die(f"{name}: no key reaches a cipher from the library entry points")
        if j[5] == "bytes" and not f["sources"]:
            die(f"{name}: no key found")
    # the rule finds its examples, each alone, and is silent on uses that keep the secret
    ex = run("fix", "fixtures", "taint", "leak::*", os.path.join(B, "out/q.leak.json"))
    names = [x.split(" {")[0] for x in ex["roots"]]
    if len(names) < 14:
        die("examples missing")
    res = many([("fix", "fixtures", "taint", n, os.path.join(B, f"out/q.leak.{n.split('::')[1]}.json")) for n in names])
    for n, f in zip(names, res):
        if not f["found"]:
            die(f"the rule does not find its example {n}")
    ok = run("fix", "fixtures", "taint", "kept::*", os.path.join(B, "out/q.kept.json"))
    if ok["found"] or len(ok["roots"]) < 5:
        die("the rule reports an example that keeps the secret: " + str(ok["found"][:1])[:400])
    r.cov = {"flows": per, "examples_reported": len(names), "examples_silent": len(ok["roots"]),
             "rule": "no value computed from the bytes of a key (library: the sixteen-byte arrays in the arguments; front ends: every sixteen-byte array and every text parameter or field named key) reaches a result, an output argument, standard output, a panic message or a branch, other than through the cipher; validation of key text may branch on it"}
    return r


RULES = {"C14": c14, "C15": c15, "C19": c19, "C22": c22}


def main():
    pid = sys.argv[1]
    t0 = time.time()
    r = RULES[pid]()
    viol, listed = [], []
    known = {}
    for line in open(os.path.join(V, "known-findings.txt")):
        if line.startswith("known: "):
            k, _, text = line[7:].rstrip("\n").partition(" :: ")
            known[k] = text
    for b in r.bad:
        k = f"{pid}|{b[0]}"
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
            listed.append(known[k])
        else:
            viol.append(b)
    p = plan.QUERY[pid]
    cov = {"obligations": r.obl - len(listed), "discharged": max(0, r.obl - len(r.bad)), "checker_cmd": f"python3 tools/query.py {pid}", "trusted_base": p["trusted"],
           "configurations": {c: plan.CONFIGS[c]["what"] for c in r.cfgs}, "known_findings": listed}
    cov.update(r.cov)
    ev = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof", "coverage": cov,
          "assumptions": p.get("assumptions", []), "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {cov['obligations']} obligations, {len(viol)} violated, {ev['wall_s']} s")
    if viol:
        rp = os.path.join(V, "evidence", f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for k, rule, func, site, why, path in viol:
                f.write(f"{k}\n  rule: {rule}\n  at: {site} in {func}\n  found: {why}\n  path: {short(path)}\n")
        for k, rule, func, site, why, path in viol[:20]:
            print(f"  {rule} at {site} in {func}: {why[:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)


if __name__ == "__main__":
    main()
