#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree (see DESIGN.md)"""
import json, os, re, subprocess, sys, time, hashlib, threading, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vext, ws
from props import PROPS
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(ws.SRC, "fcb_core", "src")
PROOF_ERR = re.compile(r"(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|possible bit shift|decreases not satisfied|assertion not satisfied|constructed value may fail|cannot show|unreachable|possible|recursive function|might)", re.I)
UNDEC = re.compile(r"(Resource limit|rlimit|timed out|timeout)", re.I)

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); return -9, o or "", (e or "") + "\ntimed out"

def run_verus(path, extra=(), timeout=400):
    t = time.time()
    rc, o, e = sh(["verus", path, "--output-json", "--time", "--multiple-errors", "4", *extra, "--error-format=json"], timeout, cwd=os.path.dirname(path))
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"): diags.append(d)
    try: j = json.loads(o)
    except ValueError: j = {}
    vr = j.get("verification-results", {})
    smt = j.get("times-ms", {}).get("smt", {})
    return dict(rc=rc, diags=diags, verified=vr.get("verified", 0), errors=vr.get("errors", 0), ok=bool(vr.get("success")),
                smt_ms=smt.get("total", 0) if isinstance(smt, dict) else 0, wall=time.time() - t, raw=e[-4000:] if not diags else "")

def line_of(d, path):
    b = os.path.basename(path); ls = []
    for s in d.get("spans", []):
        if os.path.basename(s["file_name"]) == b: ls.append((not s["is_primary"], s["line_start"], s["line_end"]))
    return [(a, c) for _, a, c in sorted(ls)]

class UnitRun:
    """one Verus unit: status ok | failed | undecided"""
    def __init__(self, name, tag, ignore=None):
        self.name = name; self.ignore = re.compile(ignore) if ignore else None; self.out_of_scope = []; self.status = "undecided"; self.why = ""; self.failed = []; self.res = {}; self.vac = {}
        self.functions = []; self.report = []; self.dir = os.path.join(BUILD, "vx", tag); self.assumed = []
    def run(self):
        try: self._run()
        except vext.Lost as e: self.why = f"anchor lost: {e}"
        except Exception as e: self.why = f"{type(e).__name__}: {e}"
    def _run(self):
        os.makedirs(self.dir, exist_ok=True)
        vx = os.path.join(VERIF, "contracts", self.name + ".vx")
        vext.Source.cache.clear()
        u = vext.Unit(SRC, vx); text = u.build()
        uv = vext.Unit(SRC, vx, vacuity=True); vtext = uv.build()
        self.functions = u.functions; self.report = u.report
        self.assumed = scan_assumed(text)
        p = os.path.join(self.dir, self.name + ".rs"); pv = os.path.join(self.dir, self.name + "_vac.rs")
        open(p, "w").write(text); open(pv, "w").write(vtext)
        box = {}
        th = threading.Thread(target=lambda: box.update(v=run_verus(pv)))
        th.start()
        self.res = run_verus(p)
        th.join(); self.vac = box["v"]
        if not self.res["ok"]:
            bad = self.classify(u, p, self.res)
            if bad is None: return
            if not bad: self.status = "ok"; self.check_probes(uv, pv); return
            # the solver gets a second chance with other limits before a failure is believed
            r2 = run_verus(p, ["--rlimit", "40"])
            if r2["ok"]: self.res = r2
            else:
                b2 = self.classify(u, p, r2)
                if b2 is None: return
                if not b2: self.status = "ok"; self.check_probes(uv, pv); return
                names = {x["function"] for x in b2}
                self.failed = [x for x in bad if x["function"] in names] or b2
                self.status = "failed"; return
        self.status = "ok"; self.check_probes(uv, pv)
    def check_probes(self, uv, pv):
        hit = set()
        for d in self.vac["diags"]:
            for a, b in line_of(d, pv): hit.update(range(a, b + 1))
        und = any(UNDEC.search(d["message"]) for d in self.vac["diags"])
        missed = [lab for (n, lab) in uv.probes if n not in hit]
        self.vac_total = len(uv.probes); self.vac_missed = missed
        if missed and not und:
            self.why = "vacuous at " + "; ".join(missed); self.status = "undecided"
    def arm_of(self, u, p, ls, name):
        """@X when the failed obligation lies in the arm `Query::X(..) => {` of the function's match over the query"""
        lines = open(p).read().split("\n"); arms = set()
        for a, _ in ls:
            for x, y, lab in u.spans:
                if lab != name or not x <= a <= y: continue
                for i in range(a - 1, x - 2, -1):
                    m = re.search(r"Query::(\w+)\(.*\) =>", lines[i])
                    if m: arms.add(m.group(1)); break
        return "@" + arms.pop() if len(arms) == 1 else ""
    def classify(self, u, p, res):
        """failed obligations inside extracted functions, or None when the run decides nothing"""
        bad = []; und = []
        for d in res["diags"]:
            m = d["message"]
            if d.get("code") or UNDEC.search(m) or not PROOF_ERR.search(m) or "not supported" in m or "not yet support" in m or "unsupported" in m:
                und.append(m); continue
            ls = line_of(d, p); name = None
            for a, b in ls:
                for x, y, lab in u.spans:
                    if x <= a <= y: name = lab
                if name: break
            if name is None: und.append(m + " (in a lemma)"); continue
            # functions the property does not depend on (lib/props.py `ignore`): other checks report them
            arm = self.arm_of(u, p, ls, name)
            if self.ignore and (self.ignore.search(name) or self.ignore.search(name + arm)): self.out_of_scope.append(f"{name}: {m}"); continue
            bad.append(dict(function=name, obligation=m, where=[l for l in ls], text=(d.get("rendered") or "")[:1500]))
        if any("E0" in str(x) for x in [d.get("code") for d in res["diags"]]) or not bad and (und or not self.out_of_scope):
            self.why = "; ".join(und)[:600] or res["raw"][-600:] or "no result"; return None
        return bad

def scan_assumed(text):
    out = []
    for m in re.finditer(r"(?:pub )?(?:broadcast )?axiom fn (\w+)", text): out.append("axiom " + m.group(1))
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)? ?\[([^\]]+(?:\[[^\]]*\])?[^\]]*)\]", text): out.append("assumed contract of " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:fn|const fn|struct) (\w+)", text): out.append("external body " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\(", text): out.append("UNPROVED " + m.group(0))
    if "exec_allows_no_decreases_clause" in text: out.append("termination of the loops without a measure is not proved")
    return sorted(set(out))

def build_driver(env):
    t = time.time()
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "-p", "driver"], 800, cwd=ws.WS, env=env)
    return rc, e, time.time() - t

def run_driver(prop, seed, tier, secs, out, only=None):
    rc, o, e = sh([os.path.join(BUILD, "target", "debug", "driver"), prop, str(seed), tier, str(secs), out] + ([str(only)] if only is not None else []), secs + 120,
                  env={**os.environ, "TMPDIR": scratch()})
    try: return json.load(open(out))
    except Exception: return dict(crashed=f"driver ended with {rc}: {e[-800:]}")

def scratch():
    d = os.path.join(BUILD, "scratch"); os.makedirs(d, exist_ok=True); return d

def known_findings(prop):
    res = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\w+) \[([\w-]+)\] (.*)", l.strip())
            if m and m.group(1) == prop: res[m.group(2)] = m.group(3)
    except OSError: pass
    return res

def main():
    prop = sys.argv[1]; t0 = time.time()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    env = ws.make()
    units = [UnitRun(n, prop, cfg.get("ignore", {}).get(n)) for n in cfg["units"]]
    ths = [threading.Thread(target=u.run) for u in units]
    for t in ths: t.start()
    kres = {}
    kth = None
    if cfg.get("kani"):
        import kani
        kth = threading.Thread(target=lambda: kres.update(kani.run(cfg["kani"], tier)))
        kth.start()
    brc, berr, bt = build_driver(env)
    if brc != 0:
        print(berr[-3000:]); print("the crate or the driver does not build"); sys.exit(2)
    out = os.path.join(BUILD, f"{prop}.json")
    if os.path.exists(out): os.remove(out)
    secs = 20 if tier == "quick" else 420
    d = run_driver(prop, seed, tier, secs, out)
    for t in ths: t.join()
    if kth: kth.join()
    bad_units = [u for u in units if u.status == "failed"]
    und = [u for u in units if u.status == "undecided"]
    kbad = kres.get("failed", []); kund = kres.get("undecided", [])
    if "crashed" in d:
        print(d["crashed"]); sys.exit(2)
    extended = False
    if not d.get("violation") and (bad_units or und or kbad or kund) and tier == "quick":
        extended = True
        for k in range(1, 4):
            e = run_driver(prop, seed + 1000 * k, "thorough", 25, out)
            if "crashed" in e: break
            for q in ("cases", "evaluations", "distinct_nontrivial"): d[q] += e[q]
            d["known"].update(e["known"])
            if e.get("violation"): d["violation"] = e["violation"]; break
    listed = known_findings(prop)
    for k, what in d.get("known", {}).items():
        if k in listed: print(f"KNOWN-FINDING: property={prop} [{k}] {listed[k]}")
        elif not d.get("violation"):
            d["violation"] = dict(property=prop, seed=seed, what=f"[{k}] {what}", input=what)
    viol = None; suffix = ""
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{prop}.json")
    if os.path.exists(replay): os.remove(replay)
    proof_note = [dict(unit=u.name, failed=u.failed) for u in bad_units] + ([dict(kani=kbad)] if kbad else [])
    if d.get("violation"):
        v = d["violation"]
        viol = dict(property=prop, kind="failing input on the real code", input=v, failed_obligations=proof_note,
                    replay_cmd=f"{BUILD}/target/debug/driver {prop} {v['seed']} {tier} 600 /tmp/out.json {v.get('case', '')}")
    elif kres.get("replayed"):
        viol = dict(property=prop, kind="Kani counterexample replayed on the real code", **kres["replayed"], failed_obligations=proof_note)
    elif bad_units or kbad:
        viol = dict(property=prop, kind="failed obligation, no failing input found", failed_obligations=proof_note)
        suffix = " no-failing-input-found"
    obligations = sum(u.res.get("verified", 0) + u.res.get("errors", 0) for u in units) + kres.get("obligations", 0)
    discharged = sum(u.res.get("verified", 0) for u in units if u.status != "undecided") + kres.get("discharged", 0)
    proved = bool(units or cfg.get("kani")) and not (bad_units or und or kbad or kund)
    cov = dict(obligations=obligations, discharged=discharged,
        checker_cmd=f"python3 check.py {prop}: lib/vext.py on {', '.join('contracts/%s.vx' % u.name for u in units) or '-'} then `verus`" + ("; cargo kani " + ",".join(cfg["kani"]) if cfg.get("kani") else ""),
        trusted_base=cfg["trusted"] + [f"{u.name}: {a}" for u in units for a in u.assumed],
        functions_under_contract=[f for u in units for f in u.functions],
        solver_ms=sum(u.res.get("smt_ms", 0) for u in units), backend={"verus (Z3)": sum(u.res.get("verified", 0) for u in units), "kani (CBMC)": kres.get("discharged", 0)},
        extraction=[dict(unit=u.name, of=f, rewrites=r) for u in units for f, r in u.report if r],
        reachability_probes={u.name: dict(total=getattr(u, "vac_total", 0), unreached=getattr(u, "vac_missed", [])) for u in units},
        units={u.name: dict(status=u.status, why=u.why, out_of_scope=u.out_of_scope, wall_s=round(u.res.get("wall", 0), 1)) for u in units}, kani=kres.get("harnesses", {}),
        evaluations=d["evaluations"], distinct_nontrivial=d["distinct_nontrivial"], rule=d["rule"], samples=d["samples"], driver_cases=d["cases"], driver_tags=d.get("tags", {}), driver_extended=extended)
    if cfg.get("bounded_note"): cov["bounded"] = cfg["bounded_note"]
    level = cfg.get("level", "proof") if proved else "exploration"
    if not proved and (und or kund):
        cov["explanation"] = "the proof could not be redone on this source, so this run decides by the bounded driver only: " + "; ".join(f"{u.name}: {u.why}" for u in und) + " ".join(kund)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cov["trusted_base"], wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for u in units: print(f"unit {u.name}: {u.status} {u.res.get('verified', 0)} verified {u.res.get('errors', 0)} errors {u.why}")
    for k, v in kres.get("harnesses", {}).items(): print(f"kani {k}: {v}")
    print(f"driver: {d['cases']} cases, {d['evaluations']} evaluations, {d['distinct_nontrivial']} distinct non-trivial; {time.time() - t0:.1f}s")
    if viol:
        json.dump(viol, open(replay, "w"), indent=1)
        for x in bad_units:
            for f in x.failed[:4]: print(f"failed obligation: {f['function']}: {f['obligation']}")
        for x in kbad[:6]: print(f"failed obligation: {x['function']}: {x['obligation']}")
        if d.get("violation"): print("failing input:", str(d["violation"].get("what"))[:600])
        print(f"VIOLATION property={prop} replay={replay}{suffix}")
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
