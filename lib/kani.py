"""runs the Kani harness sets and says per harness: ok, failed, undecided.  A set is (crate, harness prefixes).
Harnesses named *_slow run in the thorough tier only (feature `slow`), *_bounded carry a bound stated at the harness."""
import os, re, signal, subprocess, threading, time
import ws
SETS = {"keys": ("kharn", ["keys::"]), "nodes": ("kharn", ["nodes::"]), "floats": ("kfloat", [])}
MIN = {"keys": 38, "nodes": 4, "floats": 3}

def cargo_kani(crate, args, timeout):
    env = ws.make(); env.pop("CARGO_TARGET_DIR", None); env.pop("RUSTUP_TOOLCHAIN", None)
    cwd = ws.WS if crate == "kharn" else os.path.join(ws.VERIF, "kanif")
    cmd = ["cargo", "kani", "--target-dir", os.path.join(ws.VERIF, "build", "ktarget" if crate == "kharn" else "kftarget")] + (["-p", crate] if crate == "kharn" else []) + args
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate(); return -9, o or ""

def parse(out):
    """harness -> (status, failed checks, seconds)"""
    cur = {}; res = {}; th = None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m: th = m.group(1) or "0"; cur[th] = m.group(2); res[m.group(2)] = ["none", [], 0.0]; continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m: th = m.group(1); continue
        h = cur.get(th)
        if not h: continue
        if l.startswith("Failed Checks:"): res[h][1].append(l[14:].strip())
        elif l.startswith("VERIFICATION:- SUCCESSFUL"): res[h][0] = "ok"
        elif l.startswith("VERIFICATION:- FAILED"): res[h][0] = "failed"
        elif l.startswith("Verification Time:"): res[h][2] = float(re.sub(r"[^\d.]", "", l[18:]) or 0)
        elif "timed out" in l.lower() or "CBMC failed" in l or "out of memory" in l.lower(): res[h][1].append("TOOL " + l.strip())
    return res

def run(sets, tier):
    res = dict(harnesses={}, failed=[], undecided=[], obligations=0, discharged=0)
    lim = 150 if tier == "quick" else 600
    for s in sets:
        crate, pre = SETS[s]
        args = ["--output-format", "terse", "-j", "6", "--harness-timeout", f"{lim}s", "-Z", "unstable-options"] + [x for p in pre for x in ("--harness", p)]
        if tier == "thorough": args += ["--features", "slow"]
        rc, out = cargo_kani(crate, args, lim + 250)
        got = parse(out)
        if not got:
            res["undecided"].append(f"kani {s}: no harness ran: " + "; ".join([l for l in out.splitlines() if l.startswith("error")][:3])); continue
        for h, (st, bad, t) in sorted(got.items()):
            name = f"{s}/{h}"
            tool = [b for b in bad if re.search(r"TOOL|unwinding assertion|not (currently )?supported", b)]
            if st == "ok": res["harnesses"][name] = f"ok {t:.1f}s"
            elif st == "failed" and bad and not tool:
                res["harnesses"][name] = "failed: " + "; ".join(bad)[:300]; res["failed"].append(dict(function=name, obligation="; ".join(bad[:8])))
            else:
                res["harnesses"][name] = "undecided " + "; ".join(bad)[:200]; res["undecided"].append(f"kani {name} gave no verdict")
            if h.endswith("_bounded"): res["harnesses"][name] += " (bounded, not counted)"
            else: res["obligations"] += 1; res["discharged"] += st == "ok"
        if len(got) < MIN[s]: res["undecided"].append(f"kani {s}: {len(got)} harnesses ran, {MIN[s]} expected")
    return res
