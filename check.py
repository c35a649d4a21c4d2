#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's current tree
   check.py replay <file>                 show / re-run a replay file
   check.py build                         build extractor and harness
"""
import json, os, re, subprocess, sys, threading, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "out")
CFG = json.load(open(os.path.join(V, "checks.json")))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
EXTRACT = os.path.join(V, "extract/target/release/extract")
CONFORM = os.path.join(V, "harness/target/release/conform")


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env or ENV, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return -1, d(e.stdout), d(e.stderr) + "\ntimeout"


def build(which):
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(V, which, "Cargo.toml")], 800)
    return rc == 0, e


def fn_of(meta, line):
    for f in meta["functions"]:
        if f["first"] <= line <= f["last"]:
            return f
    return None


def solver(cmd, limit):
    rc, o, e = sh(cmd, limit)
    try:
        d = json.loads(o[o.index("{"):])
    except Exception:
        d = {}
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return rc, d, diags, e


def functions_of(d):
    return [f for mod in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in mod.get("function-breakdown", [])]


def failing(d):
    """The functions with an open obligation, or None if the verifier gave no verdict."""
    vr = d.get("verification-results")
    if not vr or vr.get("encountered-vir-error") or not functions_of(d):
        return None
    return {f["function"].split("::", 1)[1] for f in functions_of(d) if not f["success"]}


FOUND = threading.Event()  # a failing input is known: open obligations need no second try


def verify(tpl, tag="", env=None, extra=()):
    """Extract one template from the current source and run Verus on it."""
    src, meta = os.path.join(OUT, tpl + tag + ".rs"), os.path.join(OUT, tpl + tag + ".json")
    res = {"template": tpl, "status": "undecided", "why": "", "errors": [], "verified": 0, "functions": [], "smt_ms": 0, "items": []}
    rc, o, e = sh([EXTRACT, os.path.join(V, "specs", tpl + ".vt"), REPO, src, meta], 120, env)
    if rc != 0:
        res["why"] = "extraction failed: " + e[-600:]
        return res
    m = json.load(open(meta))
    res["functions"], res["lost"] = m["functions"], m["lost"]
    text = open(src).read()
    res["source"] = text
    # a proof by cases cuts the arms of the other cases (extract: @@split); nothing else may be assumed
    uncut = re.sub(r"assume\(false\);\s*other_case\s*\(\s*\)", "", text)
    if re.search(r"\b(assume|admit)\s*\(", uncut) and not env:
        res["why"] = "the specification text contains assume/admit"
        return res
    cmd = ["verus", "--output-json", "--time-expanded", "--error-format=json", *(() if "--multiple-errors" in extra else ("--multiple-errors", "6")), "--num-threads", "4", *extra, src]
    res["cmd"] = " ".join(cmd)
    t0 = time.time()
    rc, d, diags, e = solver(cmd, 320)
    # an obligation is discharged if some run discharges it: what one run leaves open is tried with other seeds and more steps
    todo = failing(d)
    if not env and rc != -1 and todo:
        first = d
        for k in (1, 2):
            left = 560 - (time.time() - t0)
            if FOUND.is_set() or left < 60:
                break
            rc2, d2, diags2, e2 = solver(cmd[:-1] + ["--smt-option", f"smt.random_seed={k}", "--rlimit", "20", src], min(240, left))
            open2 = failing(d2)
            if open2 is None:
                break
            todo &= open2
            res["retries"] = k
            d, diags, e = d2, diags2, e2
            if not todo:
                break
        vr = d["verification-results"]
        if not todo and not vr["success"]:
            vr.update(success=True, errors=0, verified=first["verification-results"]["verified"] + first["verification-results"]["errors"])
            diags = []
        res["open"] = sorted(todo)
    vr = d.get("verification-results")
    errs = [x for x in diags if x["level"] == "error" and x.get("spans")]
    soft = [x for x in diags if "rlimit" in x["message"].lower() or "resource limit" in x["message"].lower()]
    if not vr or vr.get("encountered-vir-error") or (not vr["success"] and vr["errors"] == 0) or rc == -1:
        res["why"] = "the verifier does not accept the text: " + " | ".join(x["message"] for x in diags if x["level"] == "error")[:600] + (e[-300:] if not diags else "")
        return res
    res["verified"] = vr["verified"]
    for f in functions_of(d):
        res["items"].append({"name": f["function"].split("::", 1)[1], "mode": f.get("mode:"), "ms": f["time"], "ok": f["success"]})
    res["smt_ms"] = d.get("times-ms", {}).get("smt", {}).get("total", 0)
    res["nerrors"] = vr["errors"]
    if vr["success"] and vr["errors"] == 0:
        res["status"] = "proved" if vr["verified"] > 0 else "undecided"
        return res
    lostf = {l.split(":")[0] for l in m["lost"]}
    for x in errs:
        f = None
        tags = set()
        lines = []
        for s in x["spans"]:
            f = f or fn_of(m, s["line_start"])
            for ln in range(s["line_start"], s["line_end"] + 1):
                lines.append(ln)
        srcl = text.splitlines()
        for s in x["spans"]:
            # a clause may name the properties it states: // [C02]
            if s["line_start"] - 1 < len(srcl):
                t = re.search(r"//\s*\[([C0-9, ]+)\]", srcl[s["line_start"] - 1])
                if t and s["line_end"] - s["line_start"] < 6:
                    tags |= {q.strip() for q in t.group(1).split(",")}
        limit = x in soft or "rlimit" in x["message"].lower() or "resource limit" in x["message"].lower()
        res["errors"].append({"function": f["id"] if f else None, "path": f["path"] if f else None, "src": f"{f['src']}:{f['line']}" if f else None,
                              "props": sorted(tags) if tags else (f["props"].split(",") if f else []), "obligation": x["message"], "line": x["spans"][0]["line_start"], "lines": sorted({y["line_start"] for y in x["spans"]}),
                              "rendered": x.get("rendered", "")[:3000], "limit": limit, "safety": bool(f) and safety(x, srcl, f["first"]), "lost": bool(f and f["id"] in lostf)})
    res["status"] = "failed"
    if vr["errors"] and not res["errors"]:
        res["status"], res["why"] = "undecided", "errors without position"
    return res


def safety(x, srcl, first):
    """Is it an obligation of safe execution (termination, arithmetic, precondition of a call in the program text)?"""
    if "decreases" in x["message"] or "arithmetic" in x["message"]:
        return True
    if not x["message"].startswith("precondition not satisfied"):
        return False
    line = next((s["line_start"] for s in x["spans"] if s.get("is_primary")), x["spans"][0]["line_start"])
    depth = ghost = 0
    for l in srcl[first - 1:line]:
        if not ghost and re.match(r"\s*proof\s*\{", l):
            ghost = depth + 1
        depth += l.count("{") - l.count("}")
        if ghost and depth < ghost and l is not srcl[line - 1]:
            ghost = 0
    return not ghost


def conform(prop, tier, seed, mult, name, limit=700):
    path = os.path.join(OUT, name)
    if os.path.exists(path):
        os.remove(path)
    rc, o, e = sh([CONFORM, "run", prop, tier, str(seed), path, str(mult)], limit)
    for l in reversed(o.splitlines()):
        if l.startswith("{"):
            return json.loads(l), path, rc
    return {"evaluations": 0, "nontrivial": 0, "samples": [], "failures": [], "error": f"harness gave no result (exit {rc}): {e[-400:]}"}, path, rc


def trusted(results):
    """Every assumption in the verified text, found mechanically."""
    t = set()
    for r in results:
        src = r.get("source", "")
        for mm in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:proof\s+|broadcast\s+proof\s+)?(fn|struct)\s+(\w+)", src):
            t.add(f"{r['template']}: external_body {mm.group(1)} {mm.group(2)}")
        for mm in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", src):
            t.add(f"{r['template']}: assumed contract of {mm.group(1)}")
        for mm in re.finditer(r"\baxiom\s+fn\s+(\w+)", src):
            t.add(f"{r['template']}: axiom {mm.group(1)}")
        for mm in re.finditer(r"exec_allows_no_decreases_clause[^{;]*?fn\s+(\w+)", src):
            t.add(f"{r['template']}: {mm.group(1)}: its main loop has no decreases clause; a decreasing rank is an invariant instead")
    return sorted(t)


def main():
    a = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if a[:1] == ["build"]:
        for w in ("extract", "harness"):
            ok, e = build(w)
            if not ok:
                print(e)
                sys.exit(2)
        return
    if a[:1] == ["replay"]:
        d = open(a[1]).read()
        if '"obligation_report"' in d:
            print(d)
            return
        build("harness")
        rc, o, e = sh([CONFORM, "replay", a[1]], 300)
        print(o + e)
        sys.exit(rc)
    prop, tier = a[0], (a[1] if len(a) > 1 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = CFG["properties"][prop]
    with cf.ThreadPoolExecutor(4) as ex:
        be, bh = ex.submit(build, "extract"), ex.submit(build, "harness")
        if not be.result()[0]:
            print("extractor does not build:", be.result()[1][-800:])
            sys.exit(2)
        vf = [ex.submit(verify, t) for t in cfg["templates"]]
        if not bh.result()[0]:
            print("harness does not build against /repo:", bh.result()[1][-1500:])
            sys.exit(2)
        mult = cfg.get("mult", {}).get(tier, 3 if tier == "quick" else 40)
        hc, hpath, _ = conform(prop, tier, seed, mult, f"{prop}.replay.json")
        if hc["failures"]:
            FOUND.set()
        results = [f.result() for f in vf]
    viol, notes = [], []
    # --- the verifier's verdict on the obligations of this property
    failed = []
    for r in results:
        if r["status"] == "undecided":
            notes.append(f"{r['template']}: not decided by the verifier ({r['why']})")
        for l in r.get("lost") or []:
            notes.append(f"{r['template']}: lost anchor {l}")
        for x in r["errors"]:
            if x["props"] and prop not in x["props"] and not (x["safety"] and r["template"] in cfg.get("safety", [])):
                continue
            if x["limit"] or x["lost"]:
                notes.append(f"{r['template']}: {x['function']}: not decided ({x['obligation']})")
            else:
                failed.append((r, x))
    if hc.get("error"):
        notes.append(hc["error"])
    if hc["failures"]:
        viol.append((hpath, "", f"input: {hc['failures'][0]}"))
    elif failed or notes:
        # replay: look harder for an input that shows the failed obligation on the real code (or stands in for what is not decided)
        hd, hp, _ = conform(prop, "thorough", seed + 17, cfg.get("mult", {}).get("search", 12), f"{prop}.replay.json", max(60, 820 - (time.time() - t0)) if tier == "quick" else 700)
        hc["evaluations"] += hd["evaluations"]
        hc["nontrivial"] += hd["nontrivial"]
        if hd["failures"]:
            viol.append((hp, "", f"input: {hd['failures'][0]}"))
        elif failed:
            path = os.path.join(OUT, f"{prop}.obligation.json")
            json.dump({"obligation_report": True, "property": prop, "failed": [dict(x, template=r["template"], cmd=r.get("cmd")) for r, x in failed]}, open(path, "w"), indent=1)
            viol.append((path, " no-failing-input-found", "obligations: " + "; ".join(f"{x['function'] or 'lemma'} ({x['src']}): {x['obligation']}" for _, x in failed[:4])))
    if hc.get("error") and not viol and not any(r["status"] == "proved" for r in results):
        print("no verdict:", hc["error"])
        sys.exit(2)
    # --- vacuity probes
    probes = None
    if tier == "thorough" and not viol:
        probes = {"run": 0, "refuted": 0}
        for t in cfg["templates"]:
            base = next(r for r in results if r["template"] == t)
            if base["status"] != "proved":
                continue
            pr = verify(t, "_vac", dict(ENV, VACUITY="1"), ("--multiple-errors", "20", "--rlimit", "3"))
            want = set(re.findall(r"// PROBE (\S+ \S+)", pr.get("source", "")))
            srcl = pr.get("source", "").splitlines()
            got = set()
            for x in pr["errors"]:
                for ln in x["lines"]:
                    mm = re.search(r"// PROBE (\S+ \S+)", srcl[ln - 1])
                    if mm:
                        got.add(mm.group(1))
                # out of steps without having derived false
                if x["limit"] and x["obligation"].startswith("while loop"):
                    nx = next((mm for ln in srcl[x["line"] - 1:] for mm in [re.search(r"// PROBE (\S+ loop\S+)", ln)] if mm), None)
                    if nx:
                        got.add(nx.group(1))
                elif x["limit"]:
                    got.add(f"{x['function']} begin")
            probes["run"] += len(want)
            probes["refuted"] += len(want & got)
            for w in sorted(want - got):
                notes.append(f"vacuity probe not refuted: {t} {w}")
    # --- evidence
    fns = []
    for r in results:
        for f in r["functions"]:
            if prop in f["props"].split(",") or r["template"] in cfg.get("safety", []):
                fns.append({"function": f["path"], "at": f"{f['src']}:{f['line']}", "template": r["template"], "loops": f["loops"], "rewrites": f["rewrites"],
                            "status": "undecided" if r["status"] == "undecided" or any(l.split(":")[0] == f["id"] for l in r.get("lost") or []) else ("failed" if any(x["function"] == f["id"] for x in r["errors"]) else "proved")})
    obligations = sum(r["verified"] + r.get("nerrors", 0) for r in results)
    discharged = sum(r["verified"] for r in results)
    cov = {"obligations": obligations, "discharged": discharged, "checker_cmd": "; ".join(r.get("cmd", "") for r in results), "trusted_base": trusted(results) + CFG["trusted"],
           "functions_under_contract": fns, "solver_ms": sum(r["smt_ms"] for r in results), "back_end": "Verus 0.2026.09.13 / Z3",
           "proved_part": cfg.get("proved", ""), "bounded_part": cfg.get("bounded", ""), "undecided": notes,
           "evaluations": hc["evaluations"], "distinct_nontrivial": hc["nontrivial"],
           "rule": cfg.get("rule", ""), "samples": hc.get("samples", [])[:5], "exhaustive": False}
    if probes:
        cov["vacuity_probes"] = probes
    level = cfg["level"]
    if level == "proof" and any(r["status"] == "undecided" for r in results):
        level = "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": CFG["assumptions"] + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    # --- verdict
    for n in notes:
        print("NOTE:", n[:500])
    if hc.get("known_empty"):
        for k in json.load(open(os.path.join(V, "known_findings.json")))["known"]:
            if k["property"] == prop:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: {discharged}/{obligations} obligations discharged, {len(fns)} functions under contract, {hc['evaluations']} conformance cases ({hc['nontrivial']} non-trivial), {ev['wall_s']} s")
    if viol:
        path, tail, what = viol[0]
        print(what[:1500])
        print(f"VIOLATION property={prop} replay={path}{tail}")
        sys.exit(1)


main()
