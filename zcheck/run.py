"""check driver:  python3 -m zcheck.run --property C01 --tier quick

Generates the harness translation units of one property from the catalogue,
compiles them against /repo/zpp_bits.h, decides every obligation with the abstract
interpreter and every compile-time witness with the compiler front end, writes
evidence/<id>.json and prints a VIOLATION line when a rule fails."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
import multiprocessing as mp
from . import harness as HN
from . import props, catalog, witness

ROOT = HN.ROOT


def known():
    """known findings: property, instance, rule triples that are reported as KNOWN-FINDING"""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[8:].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                res.append((d["property"], d["instance"], d["rule"], text.strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--evidence", default=os.path.join(ROOT, "evidence"))
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    prop = props.PROPS[pid]
    os.makedirs(a.evidence, exist_ok=True)
    work = tempfile.mkdtemp(prefix="zcheck-%s-" % pid)
    try:
        rc = run(pid, prop, tier, a, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def run(pid, prop, tier, a, work, t0):
    hs = [h for h in catalog.harnesses(tier) if prop["select"](h) and (prop.get("exc") or "exc" not in h.tags) and (prop.get("pb") or "pb" not in h.tags)] if prop.get("select") else []
    ws = [w for w in witness.witnesses(tier) if pid in w.props]
    if not hs and not ws:
        print("error: no analysis instance selected for %s" % pid)
        return 2
    if not os.path.exists(HN.HEADER):
        print("error: %s is missing" % HN.HEADER)
        return 2
    pool = mp.Pool(a.jobs)
    # tool and precompiled headers
    flagsets = sorted({tuple(catalog.flags(h)) for h in hs} | {tuple(w.flags) for w in ws})
    asy = pool.map_async(HN.build_pch, [(work, f) for f in flagsets])
    pre = os.path.join(ROOT, "build", "irdump")
    fresh = os.path.exists(pre) and os.path.getmtime(pre) > os.path.getmtime(os.path.join(ROOT, "tool", "irdump.cpp"))
    tool = (pre if fresh else HN.build_tool(os.path.join(work, "irdump"))) if hs else None
    pch = {}
    for f, p, err in asy.get():
        if p is None:
            print("error: the library header does not compile with flags %r:\n%s" % (f, err[:2000]))
            return 2
        pch[f] = p
    groups = {}
    for h in hs:
        groups.setdefault(tuple(catalog.flags(h)), []).append(h)
    jobs, k = [], 0
    per = 4 if len(hs) > 64 else 2 if len(hs) > 16 else 1
    for f, l in groups.items():
        heavy = [h for h in l if h.heavy]
        l = heavy + [h for h in l if not h.heavy]
        i = 0
        while i < len(l):
            n = 1 if l[i].heavy else per
            jobs.append((tool, work, "u%d" % k, l[i:i + n], f, 300 if tier == "quick" else 600, pch[f]))
            i += n
            k += 1
    wres = pool.imap_unordered(witness.decide_one, [(w, work, pch[tuple(w.flags)], "w%d" % j) for j, w in enumerate(ws)])
    ures = pool.imap_unordered(HN.run_unit, jobs)
    results = {}
    for r in ures:
        for x in r:
            results[x["name"]] = x
    wout = list(wres)
    pool.close()
    rules = prop.get("rules")
    filt = prop.get("filter")
    viol, unresolved, other = [], [], 0
    for h in hs:
        x = results[h.name]
        if x["status"] == "compile-error":
            viol.append(dict(instance=h.name, rule="does-not-compile", text="the operation no longer compiles for this supported type and configuration: " + first_error(x["text"]), where=""))
        elif x["status"] != "ok":
            unresolved.append(x)
    by = {h.name: h for h in hs}
    if filt:
        viol = [v for v in viol if filt(by_name(hs)[v["instance"]], v["rule"], v["text"], results)]
    for n, x in results.items():
        for rule, text, loc in x["viol"]:
            if rules is not None and rule not in rules and not any(rule.startswith(q[:-1]) for q in rules if q.endswith("*")):
                other += 1
                continue
            if filt and not filt(by[n], rule, text, results):
                other += 1
                continue
            viol.append(dict(instance=n, rule=rule, text=text, where=loc))
    for w in wout:
        if w["status"] == "violated":
            viol.append(dict(instance=w["name"], rule=w["rule"], text=w["text"], where=w.get("where", "")))
        elif w["status"] == "unresolved":
            unresolved.append(w)
    ast = None
    if prop.get("ast"):
        from . import astscan
        try:
            ast = astscan.mutable_state(work)
            for t in ast[2]:
                viol.append(dict(instance="header", rule="shared-state", text="mutable object with static storage duration: " + t, where=HN.HEADER))
        except RuntimeError as x:
            unresolved.append(dict(name="syntax tree query", text=str(x)))
    kf = known()
    new, old = [], []
    for v in viol:
        m = [k for k in kf if k[0] == pid and k[1] == v["instance"] and k[2] == v["rule"]]
        (old if m else new).append((v, m))
    for m in sorted({(k[1], k[3]) for v, mm in old for k in mm}):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, m[0], m[1]))
    ok = [x for x in results.values() if x["status"] == "ok"]
    tot = lambda f: sum(x["stats"].get(f, 0) for x in ok)
    byrule = {}
    for x in ok:
        for r, c in x["stats"].get("byrule", {}).items():
            byrule[r] = byrule.get(r, 0) + c
    cov = {
        "explanation": props.EXPLAIN if hs else props.EXPLAIN_W,
        "instances_analysed": len(ok), "instances_unresolved": [x["name"] + ": " + x.get("text", "")[:200] for x in unresolved],
        "analysed_functions": sorted(x["name"] for x in ok),
        "abstract_states": tot("states"), "basic_blocks": tot("blocks"), "loops_with_invariants": tot("loops"), "instructions": tot("insts"),
        "exits_compared_with_format": tot("exits"), "specified_outcomes_compared": tot("outcomes"),
        "obligations": tot("obligations"), "discharged": tot("discharged"), "obligations_by_rule": byrule,
        "witnesses": len(wout), "witness_kinds": {k: sum(1 for w in wout if w["kind"] == k) for k in {w["kind"] for w in wout}},
        "witness_names": sorted(w["name"] for w in wout),
        "static_variables_inspected": ast[0] if ast else 0, "functions_inspected_for_static_variables": ast[1] if ast else 0,
        "rules_applied": sorted(rules) if rules is not None else "all",
        "reports_of_rules_owned_by_other_properties": other,
        "header": HN.HEADER, "known_findings_matched": len(old),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(a.evidence, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s (%s): %d analysed operations (%d/%d obligations, %d exits), %d witnesses, %d unresolved, %.0f s" % (
        pid, tier, len(ok), cov["discharged"], cov["obligations"], cov["exits_compared_with_format"], len(wout), len(unresolved), time.time() - t0))
    for x in unresolved[:10]:
        print("  unresolved: %s: %s" % (x["name"], x.get("text", "")[:200]))
    if new:
        rp = os.path.join(a.evidence, pid + ".violations.txt")
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("%s [%s] at %s\n    %s\n" % (v["instance"], v["rule"], v["where"], v["text"]))
        for v, _ in new[:int(os.environ.get("ZSHOW", "12"))]:
            print("  %s [%s] %s\n      at %s" % (v["instance"], v["rule"], v["text"][:400], v["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    total = len(hs) + len(ws)
    if len(unresolved) > total * 0.6:
        print("error: %d of %d instances could not be analysed" % (len(unresolved), total))
        return 2
    return 0


def by_name(hs):
    return {h.name: h for h in hs}


def first_error(t):
    for l in t.split("\n"):
        if "error:" in l:
            return l[:300]
    return t[:300]


if __name__ == "__main__":
    sys.exit(main())
