#!/usr/bin/env python3
"""One check: extract the functions under contract from /repo, let Verus discharge every obligation,
and run the concrete falsifier of the property (replay of counterexamples / bounded stand-in for what
stays outside the verifier's reach).  Usage: check.py C03 [quick|thorough]"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
sys.path.insert(0, ROOT)
from props import PROPS, TEMPLATES, COMMON_ASSUMPTIONS

def log(*a):
    print(*a, flush=True)

def run(cmd, timeout, **kw):
    """(rc, stdout, stderr); rc is None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e

def cargo(dir_, target, extra=(), timeout=600, env=None, toolchain=()):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target", target), CARGO_NET_OFFLINE="true")
    e.update(env or {})
    return run(["cargo", *toolchain, "build", "--offline", *extra], timeout, cwd=os.path.join(ROOT, dir_), env=e)

# ------------------------------------------------------------------ deductive part
TAG = re.compile(r"\[(C\d\d[^\]]*)\]")

class Unit:
    """result of one template"""
    def __init__(self, name):
        self.name, self.state, self.why = name, "ok", ""
        self.failures, self.fns, self.verified, self.errors, self.smt_ms = [], [], 0, 0, 0
        self.timeouts, self.queries = [], []
        self.trusted = []

def context(lines, ln):
    """(function under contract, properties) of a line of the generated file"""
    fn, props = None, []
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*// \[fn\] (.*)", lines[i])
        if m and fn is None:
            fn = m.group(1)
        m = re.match(r"\s*// \[props ([^\]]*)\]", lines[i])
        if m:
            props = re.findall(r"C\d\d", m.group(1))
            break
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", lines[i])
        if m and fn is None:
            fn = "lemma " + m.group(1)
    return fn or "?", props

def enclosing(lines, ln):
    """name of the function which a line of the generated file lies in"""
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?(?:axiom |proof )?(?:unsafe )?fn (\w+)", lines[i])
        if m:
            return m.group(1)
    return None

def parse_errors(u, text, lines):
    blocks = re.split(r"(?m)^(?=error|warning|note)", text)
    for b in blocks:
        if not b.startswith("error"):
            continue
        head = b.splitlines()[0]
        if "aborting due to" in head:
            continue
        locs = [int(x) for x in re.findall(r"-->\s*\S+?:(\d+):", b)]
        nums = [int(x) for x in re.findall(r"(?m)^\s*(\d+)\s*\|", b)]
        tags = []
        for n in dict.fromkeys(locs + nums):
            if 0 < n <= len(lines):
                # only the marked lines carry the failing clause
                tags += [t for t in TAG.findall(lines[n - 1])]
        fn, props = context(lines, locs[0]) if locs else ("?", [])
        # the obligation belongs to the function whose body is checked
        for n in nums:
            f2, p2 = context(lines, n)
            props = props + [p for p in p2 if p not in props]
        marked = [t for n in locs for t in TAG.findall(lines[n - 1])] or tags
        tp = [p for t in marked for p in re.findall(r"C\d\d", t)]
        ent = {"function": fn, "message": head, "labels": marked, "props": sorted(set(tp or props)), "text": b.strip()[:4000],
               "names": {n for x in nums + locs for n in [enclosing(lines, x)] if n}}
        ent["timeout"] = any(w in head.lower() for w in ("rlimit", "resource limit", "timed out"))
        if ent["timeout"]:
            u.timeouts.append(ent)
        else:
            u.failures.append(ent)

SEMANTIC = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|recommendation not met|unable to prove|might (?:not|be)|index out of|bit shift|conclusion|failed")

def run_template(spec):
    name, tmpl, kv = spec
    u = Unit(name)
    out = os.path.join(WORK, name + ".rs")
    rc, o, e = run([os.path.join(ROOT, "target/extract/debug/extract"), REPO + "/src", f"{ROOT}/verus/{tmpl}.rs.in", out, *kv.split()], 120)
    if rc != 0:
        u.state, u.why = "structural", (e or o).strip()[:800]
        return u
    try:
        u.fns = [l for l in open(out + ".report").read().splitlines() if l.strip()]
    except OSError:
        pass
    lines = open(out).read().splitlines()
    scan_trusted(u, lines)
    attempt(u, out, lines, ["--rlimit", "20"])
    if u.state in ("failed", "undecided") and (u.failures or u.timeouts):
        # a proof may fail for the solver's search alone: a function counts as failed only when no seed discharges it
        open_fns, known, ents = lost_fns(u), bool(u.queries), u.failures + u.timeouts
        for seed in (7, 23):
            v = Unit(name)
            v.fns, v.trusted = u.fns, u.trusted
            attempt(v, out, lines, ["--rlimit", "40", "--smt-option", f"smt.random_seed={seed}"])
            if v.state == "ok":
                v.why = f"(with solver seed {seed})"
                return v
            if v.state not in ("failed", "undecided") or not v.queries or not known:
                continue
            open_fns &= lost_fns(v)
            ents += v.failures + v.timeouts
            if not open_fns:
                u.state, u.failures, u.timeouts, u.why = "ok", [], [], f"(with solver seeds up to {seed})"
                u.errors, u.verified = 0, u.verified + u.errors
                for f in u.queries:
                    f["success"] = True
                return u
        if known:
            last = {f.split("::")[-1] for f in open_fns}
            mine = [f for f in ents if f["names"] & last] or ents
            seen, keep = set(), []
            for f in mine:
                k = (f["function"], f["message"], tuple(f["labels"]), tuple(sorted(f["names"])))
                if k not in seen:
                    seen.add(k)
                    keep.append(f)
            u.timeouts = [f for f in keep if f["timeout"]]
            u.failures = [f for f in keep if not f["timeout"]]
            u.state = "failed" if u.failures else "undecided"
            if u.state == "undecided":
                u.why = "solver resource limit: " + "; ".join(t["function"] for t in u.timeouts)
    return u

def lost_fns(u):
    """functions with an obligation which was not discharged"""
    return {f["function"] for f in u.queries if not f.get("success")}

def attempt(u, out, lines, extra):
    rc, o, e = run(["verus", "--triggers-mode", "silent", "--multiple-errors", "8", "--time-expanded", "--output-json", *extra, os.path.basename(out)], 150, cwd=WORK)
    if rc is None:
        u.state, u.why = "undecided", "verus timed out"
        return
    j = None
    for i in [m.start() for m in re.finditer(r"(?m)^\{", o)]:
        try:
            j, _ = json.JSONDecoder().raw_decode(o[i:])
            break
        except ValueError:
            continue
    if j is None:
        u.state, u.why = "structural", (e or o).strip()[-1500:]
        return
    vr = j.get("verification-results", {})
    u.verified, u.errors = vr.get("verified", 0), vr.get("errors", 0)
    try:
        smt = j["times-ms"]["smt"]
        u.smt_ms = smt.get("total", 0)
        u.queries = [f for m in smt["smt-run-module-times"] for f in m["function-breakdown"]]
    except (KeyError, TypeError):
        u.queries = []
    if vr.get("success"):
        if u.verified == 0:
            u.state, u.why = "structural", "no obligation generated"
        return
    if vr.get("encountered-vir-error") or (u.errors == 0):
        u.state, u.why = "structural", "rejected by the verifier's front end: " + "\n".join(x for x in e.splitlines() if x.startswith("error"))[:1500]
        return
    parse_errors(u, e, lines)
    u.state = "failed" if u.failures else "undecided"
    if u.state == "undecided":
        u.why = "solver resource limit: " + "; ".join(t["function"] for t in u.timeouts)

def scan_trusted(u, lines):
    """mechanical scan for everything the verifier takes on trust"""
    for i, l in enumerate(lines):
        if re.search(r"\baxiom fn\b|external_body|\bassume\(|\badmit\(|assume_specification|uninterp spec fn", l):
            m = re.search(r"(?:fn|struct) (\w+)", l) or (re.search(r"(?:fn|struct) (\w+)", lines[i + 1]) if i + 1 < len(lines) else None)
            if m:
                u.trusted.append(m.group(1))

# ------------------------------------------------------------------ main
def main():
    global WORK
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    WORK = os.path.join(ROOT, "work", prop)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(WORK, "violation.txt")
    if os.path.exists(replay):
        os.remove(replay)

    with cf.ThreadPoolExecutor(8) as ex:
        f_nat = ex.submit(cargo, "native", "native", ("--release",), 800)
        f_512 = ex.submit(cargo, "native", "native512", ("--release", "--features", "unstable"), 800, None, ("+nightly",))
        rc, o, e = cargo("extract", "extract")
        if rc != 0:
            log("extractor does not build", e[-2000:])
            return 2
        units = list(ex.map(run_template, [t for t in TEMPLATES if t[0] in P["templates"]]))
        nrc, no, ne = f_nat.result()
        n512 = f_512.result()[0] == 0
    if not n512:
        log("NOTE: the AVX-512 build of the falsifier is not available, its path is not exercised")
    if nrc != 0:
        # /repo itself does not compile against its public API: nothing to judge
        log("the falsifier does not build against /repo:\n" + ne[-3000:])
        return 2

    deductive_ok = all(u.state == "ok" for u in units)
    failures = [dict(f, template=u.name) for u in units for f in u.failures]
    mine = [f for f in failures if prop in f["props"]]
    for u in units:
        log(f"[verus] {u.name}: {u.state}, {u.verified} verified, {u.errors} errors, {u.smt_ms} ms solver {u.why[:300]}")
    for f in failures:
        log(f"[verus] FAILED OBLIGATION {f['function']}: {f['message']} {f['labels']}")

    # concrete falsifier: always (it also stands in for the trusted leaves), longer when a proof is lost
    secs = P["secs"][tier]
    if not deductive_ok:
        secs = max(secs, P.get("fallback_secs", 60))
    bins = ["native"] + (["native512"] if n512 else [])
    t1 = time.time()
    def search(k):
        out = os.path.join(WORK, f"found.{bins[k]}.txt")
        if os.path.exists(out):
            os.remove(out)
        return out, run([f"{ROOT}/target/{bins[k]}/release/ezknative", "search", "--prop", prop, "--secs", str(secs), "--seed", str(seed * 10 + k), "--jobs", str(8 // len(bins)), "--out", out], secs + 200, cwd=WORK)
    with cf.ThreadPoolExecutor(2) as ex:
        runs = list(ex.map(search, range(len(bins))))
    cases = samples = rejected = 0
    found = None
    for k, (out, (rc, o, e)) in enumerate(runs):
        m = re.search(r"STATS cases=(\d+) samples=(\d+) rejected=(\d+)", o or "")
        if rc not in (0, 1) or not m:
            log("falsifier error", rc, (o or "")[-1000:], (e or "")[-2000:])
            return 2
        c, sm, rj = map(int, m.groups())
        cases, samples, rejected = cases + c, samples + sm, rejected + rj
        if rc == 1 and not found:
            found = (bins[k], out, o)
        log(f"[falsifier] {bins[k]}: {c} cases, {sm} compared samples, {rj} rejected calls")

    violations = 0
    code = 0
    if found:
        b, out, o = found
        txt = open(out).read()
        with open(replay, "w") as fh:
            fh.write(txt)
            fh.write(f"\nreplay: {ROOT}/target/{b}/release/ezknative replay {replay}\n")
            for f in mine or failures:
                fh.write(f"\nfailed obligation: {f['function']}: {f['message']} {f['labels']}\n{f['text']}\n")
        log(o.strip())
        log(f"VIOLATION property={prop} replay={replay}")
        violations, code = 1, 1
    elif mine:
        with open(replay, "w") as fh:
            fh.write(f"property={prop}\nno failing input found by {cases} cases of the falsifier\n")
            for f in mine:
                fh.write(f"\nfailed obligation: {f['function']} (template {f['template']}): {f['message']} {f['labels']}\n{f['text']}\n")
        log(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        violations, code = len(mine), 1

    q = [f for u in units for f in getattr(u, "queries", [])]
    obligations = len(q)
    discharged = sum(1 for f in q if f.get("success"))
    fns = sorted({l for u in units for l in u.fns if l.startswith("fn\t")})
    # contracts used but not proved by any unit of this check (trait declarations are proved at their impls)
    key = lambda l: tuple(x.strip() for x in l.split("\t")[1:3])
    done = {key(l) for l in fns}
    assumed = sorted({" ".join(key(l)) for u in units for l in u.fns if l.startswith("contract only\t") and key(l) not in done and not key(l)[1].startswith("trait ")})
    lost = [f"{u.name}: {u.why}" for u in units if u.state in ("structural", "undecided")]
    proved = deductive_ok and obligations > 0
    level = P["level"] if (proved or P["level"] != "proof") else "exploration"
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "verus --triggers-mode silent <unit>.rs  (units: " + ", ".join(f"{u.name} from verus/{[t for t in TEMPLATES if t[0]==u.name][0][1]}.rs.in" for u in units) + ")",
        "trusted_base": ["Verus 0.2026.09.13 and its Z3", "verif/extract (mechanical extraction, rules listed in the report)"] + sorted({t for u in units for t in u.trusted}) + ["assumed contract: " + a for a in assumed] + P.get("trusted", []),
        "functions_under_contract": fns,
        "solver_ms": sum(u.smt_ms for u in units),
        "units": {u.name: {"state": u.state, "verified": u.verified, "errors": u.errors, "solver_ms": u.smt_ms} for u in units},
        "extraction": sorted({l for u in units for l in u.fns if not l.startswith(("fn\t", "contract only\t"))}),
        "evaluations": cases,
        "distinct_nontrivial": max(cases - rejected, 0),
        "rule": "random images, layouts, windows and colors from the generator of the property; non-trivial = the call was accepted and its whole output compared with the specification (or a guard page)",
        "samples": [l[7:] for _, (_, o, _) in runs for l in o.splitlines() if l.startswith("SAMPLE ")],
        "compared_samples": samples,
        "falsifier_builds": bins,
    }
    if lost:
        cov["explanation"] = "deductive part not decided on this tree, bounded stand-in only: " + " | ".join(lost)[:2000]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if code == 0:
        if lost:
            log("NOTE: proof not available on this tree (" + "; ".join(lost)[:400] + "); decided by the bounded stand-in only")
        log(f"OK property={prop} obligations={obligations} discharged={discharged} cases={cases}")
    return code

sys.exit(main())
