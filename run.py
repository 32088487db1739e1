#!/usr/bin/env python3
"""Driver: decides one property by solver-based checking of /repo's current sources.

  run.py <PROPERTY-ID> [--tier quick|thorough] [--only HARNESS]

Kani compiles /repo's server sources (path-included by /verif/harness), executes each harness
symbolically and asks the SAT solver for a violating value.  Every counterexample is replayed
natively (debug profile, release profile, then Miri) before a VIOLATION is printed.
Exit 0: held within the stated bounds; 1: VIOLATION; 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, signal, tempfile

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
T0 = time.time()

def log(*a):
    print(*a, flush=True)

def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC")) or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            if k != "CARGO_HOME":
                e.pop(k)
    f = os.path.join(H, "fakessl")
    e.update(CARGO_NET_OFFLINE="true", SKYVERIF_DIR=os.path.join(H, "hooks"), CARGO_TERM_COLOR="never",
             OPENSSL_NO_VENDOR="1", OPENSSL_INCLUDE_DIR=f + "/include", OPENSSL_LIB_DIR=f + "/lib",
             OPENSSL_LIBS="ssl:crypto", OPENSSL_STATIC="1")
    return e

def sh(cmd, timeout, env=None, cwd=H):
    """run in its own process group, return (rc, out); rc=None on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

def fail(msg):
    log("ERROR:", msg)
    sys.exit(2)

# --------------------------------------------------------------------------------------------

class Check:
    def __init__(self, pid, tier, only):
        self.pid, self.tier, self.only = pid, tier, only
        self.meta = json.load(open(os.path.join(V, "checks.json")))[pid]
        self.low = pid.lower()
        self.budget = 840 if tier == "quick" else 6 * 3600
        self.htmo = self.meta.get("harness_timeout", {}).get(tier, 500 if tier == "quick" else 3 * 3600)
        self.target = os.environ.get("SKYVERIF_TARGET", os.path.join(H, "target"))
        self.tmp = tempfile.mkdtemp(prefix="skyverif-")
        self.features = [self.low] + (["thorough"] if tier == "thorough" else [])
        self.jobs = self.meta.get("jobs", 8)
        self.flags = self.meta.get("flags", [])

    def left(self):
        return self.budget - (time.time() - T0)

    def kani(self, extra, timeout):
        js = os.path.join(self.tmp, "out.json")
        if os.path.exists(js): os.unlink(js)
        cmd = ["cargo", "kani", "--target-dir", os.path.join(self.target, "kani"), "-Z", "stubbing",
               "-Z", "unstable-options", "--features", ",".join(self.features),
               "--harness-timeout", f"{int(min(self.htmo, max(10, timeout - 60)))}s",
               "--export-json", js] + self.flags + extra
        if self.meta.get("cbmc_args"):
            cmd += ["--cbmc-args"] + self.meta["cbmc_args"]
        rc, out = sh(cmd, timeout)
        data = None
        if os.path.exists(js):
            try: data = json.load(open(js))
            except ValueError: pass
        return rc, out, data

    # -- replay ------------------------------------------------------------------------------
    def build_replay(self, prof):
        e = base_env()
        td = os.path.join(self.target, "native")
        e["RUSTFLAGS"] = "-C link-arg=-Wl,--unresolved-symbols=ignore-all --cap-lints allow"
        e["RUSTUP_TOOLCHAIN"] = "stable"
        cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", td, "--features", ",".join(self.features)]
        if prof == "release": cmd.append("--release")
        rc, out = sh(cmd, max(60, self.left()), e)
        if rc != 0:
            log(out[-3000:]); return None
        return [os.path.join(td, "release" if prof == "release" else "debug", "replay")]

    def replay(self, name, vecs):
        """vecs: list of files. returns (how, file, output) for the first one that reproduces"""
        for prof in ("debug", "release"):
            exe = self.build_replay(prof)
            if not exe: continue
            for f in vecs:
                rc, out = sh(exe + [name, f], 30, cwd=self.tmp)
                if rc == 0 or rc in (77, 78, 79): 
                    log(f"  replay[{prof}] {os.path.basename(f)}: rc={rc} {out.strip()[-200:]}")
                    continue
                how = "does not terminate" if rc is None else (f"killed by signal {-rc}" if rc < 0 else f"exit {rc}")
                return f"{prof}: {how}", f, out
        # undefined behaviour that does not crash: Miri
        e = base_env(); e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
        for f in vecs:
            rc, out = sh(["cargo", "miri", "run", "--offline", "--bin", "replay", "--target-dir",
                          os.path.join(self.target, "miri"), "--features", ",".join(self.features), "--", name, f],
                         min(300, max(60, self.left())), e)
            if rc is not None and rc not in (0, 77, 78, 79) and "Undefined Behavior" in out:
                return "miri: undefined behaviour", f, out
            log(f"  replay[miri] {os.path.basename(f)}: rc={rc} {out.strip()[-300:]}")
        return None

    def direct(self, full, unwind=None):
        """One CBMC query on the harness (witnesses compiled out), stopping at the first violated
        property; returns [(description, values)] or [] (held / out of time)."""
        extra = ["--harness", full, "--exact", "--no-assertion-reach-checks", "--verbose", "--output-format", "terse"]
        if unwind: extra += ["--unwind", str(unwind)]
        feats = self.features
        self.features = feats + ["nowitness"]
        h, self.htmo = self.htmo, 2
        try:
            rc, out, _ = self.kani(extra, max(60, self.left()))
        finally:
            self.features, self.htmo = feats, h
        m = re.findall(r"Running: `(cbmc [^`]*)`", out)
        if not m:
            return []
        cmd = [x for x in m[-1].split() if x != "--slice-formula"]
        kb = sorted(x for x in os.listdir(os.path.expanduser("~/.kani")) if x.startswith("kani-"))[-1]
        cmd[0] = os.path.join(os.path.expanduser("~/.kani"), kb, "bin", "cbmc")
        try:
            p = subprocess.run(cmd + ["--stop-on-fail", "--trace"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=max(30, self.left() - 120))
            d = json.loads(p.stdout)
        except (subprocess.TimeoutExpired, ValueError) as e:
            log("   direct query:", type(e).__name__)
            return []
        for x in d:
            t = x.get("trace")
            if not t: continue
            vals = []
            for st in t:
                fn = (st.get("sourceLocation") or {}).get("function", "")
                if st.get("stepType") == "assignment" and fn.startswith("kani::any_raw") and st["lhs"].startswith("goto_symex$$return_value"):
                    v = st["value"]
                    if "binary" in v:  # (arrays are listed whole, then element by element)
                        n = max(1, len(v["binary"]) // 8)
                        vals.append(list(int(v["binary"], 2).to_bytes(n, "little")))
            return [(x.get("description", "?"), vals)]
        return []

    def playback(self, full, unwind=None):
        """Kani's own concrete playback (enumerates every failing property: slower)"""
        extra = ["--harness", full, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
        if unwind: extra += ["--unwind", str(unwind)]
        rc, out, _ = self.kani(extra, max(60, self.left() - 100))
        tests = []
        for blk in out.split("Concrete playback unit test for")[1:]:
            m = re.search(r"Check for `([^`]*)`: ?\"(.*)\"", blk)
            kind, desc = (m.group(1), m.group(2)) if m else ("?", "?")
            body = blk.split("vec![", 1)[1] if "vec![" in blk else ""
            body = body.split("];\n    kani::concrete_playback_run")[0]
            vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"^\s+vec!\[([0-9, ]*)\],?$", body, re.M)]
            if kind == "cover": continue
            tests.append((desc, vals))
        return tests

    def confirm(self, short, tests, tag):
        rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        files = []
        for i, (desc, vals) in enumerate(tests[:12]):
            p = os.path.join(rdir, f"{short}-{tag}{i}.vals")
            with open(p, "w") as f:
                f.write("".join(" ".join(map(str, v)) + "\n" for v in vals))
            files.append(p)
        return self.replay(short, files) if files else None

    # -- main --------------------------------------------------------------------------------
    def run(self):
        extra = ["-j", str(self.jobs), "--output-format", "terse"]
        if self.only:
            for o in self.only: extra += ["--harness", o]
        rc, out, data = self.kani(extra, self.left() - 20)
        if data is None or not data.get("verification_results"):
            log(out[-6000:])
            fail("Kani produced no result (compile error, or out of time)")
        res = {r["harness_id"]: r for r in data["verification_results"]["results"]}
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
        names = [h["pretty_name"] for h in data["harness_metadata"]]
        mine = [n for n in names if n.split("::")[-1].startswith(self.low + "_")]
        if self.only: mine = [n for n in mine if any(o in n for o in self.only)]
        if not mine: fail("no harness selected")
        bad, undecided, late, funcs, nchecks = [], [], [], set(), 0
        known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == self.pid and k.get("status") == "open"]
        klines = []
        rows = []
        for n in mine:
            r, short = res.get(n), n.split("::")[-1]
            st = stats.get(n, {})
            row = dict(harness=short, status=(r or {}).get("status", "no result"),
                       wall_s=round((r or {}).get("duration_ms", 0) / 1000, 2), vccs=st.get("vccs_generated"),
                       solver_s=st.get("runtime_decision_procedure_s"), bounds=self.meta["harnesses"].get(short, ""))
            rows.append(row)
            if r is None:
                undecided.append((n, "no result")); continue
            checks = r.get("checks") or []
            nchecks += sum(1 for c in checks if c["category"] != "cover")
            for c in checks:
                fn = c.get("function") or ""
                if ("engine::" in fn or "util::" in fn) and "skyverif" not in fn: funcs.add(fn)
            failing = [c for c in checks if c["status"].lower() in ("failure", "failed")]
            unsat = [c for c in checks if c["category"] == "cover" and c["status"].lower() in ("unsatisfiable", "unreachable")]
            kf = [k for k in known if k["harness"] == short]
            row["checks"] = len(checks)
            if r["status"] == "Success" and not failing:
                if unsat:
                    undecided.append((n, "vacuity witness not satisfiable: " + "; ".join(c["description"] for c in unsat)))
                continue
            if not failing:
                late.append((n, f"{r['status']} (timeout or solver error)")); continue
            if kf:
                k = kf[0]
                unexpected = [c for c in failing if not any(s in (c.get("description") or "") + " @ " + (c.get("function") or "") for s in k["sites"])]
                if not unexpected:
                    klines.append(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                    row["status"] = "known finding"
                    continue
            bad.append((n, failing))
        violations = 0
        for n, failing in sorted(bad, key=lambda b: res[b[0]].get("duration_ms", 0)):
            short = n.split("::")[-1]
            if violations:
                log(f"(also refuted: {short})")
                continue
            log(f"solver counterexample in {short}:")
            for c in failing[:8]:
                loc = c.get("location") or {}
                log(f"   [{c['category']}] {c['description']}  @ {c.get('function')} {loc.get('file')}:{loc.get('line')}")
            unwind = None
            if all("unwind" in c["category"] or "unwinding" in c["description"] for c in failing):
                unwind = 3 * self.meta.get("unwind_hint", 20)
                log(f"   loop bound too small here; retrying with --unwind {unwind}")
                rc, out, d2 = self.kani(["--harness", n, "--exact", "--unwind", str(unwind), "--output-format", "terse"], max(60, self.left()))
                r2 = ((d2 or {}).get("verification_results") or {}).get("results") or []
                if r2 and r2[0]["status"] == "Success":
                    for row in rows:
                        if row["harness"] == short: row["status"] = f"Success (unwind {unwind})"
                    continue
            tests = self.direct(n, unwind)
            hit = self.confirm(short, tests, "q")
            if not hit and self.left() > 150:
                tests = self.playback(n, unwind)
                hit = self.confirm(short, tests, "p")
            if hit:
                how, f, o = hit
                violations += 1
                log(f"   reproduced on the real code ({how}):")
                log("\n".join("     " + l for l in o.strip().splitlines()[-25:]))
                with open(f + ".txt", "w") as fh:
                    fh.write(f"harness {short}\nreplayed {how}\n{o}\n")
                log(f"VIOLATION property={self.pid} replay={f}")
            else:
                undecided.append((n, "counterexample did not reproduce natively"))
        for n, why in late:
            # no verdict within the cap: a violation may still be cheap to find
            hit = None
            if not violations and self.left() > 200:
                hit = self.confirm(n.split("::")[-1], self.direct(n), "q")
            if hit:
                violations += 1
                log(f"   reproduced on the real code ({hit[0]}):\n" + hit[2][-2000:])
                log(f"VIOLATION property={self.pid} replay={hit[1]}")
            else:
                undecided.append((n, why))
        for l in klines: log(l)
        dec = [r for r in rows if str(r["status"]).startswith("Success")]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Bounded symbolic execution of /repo's current sources (Kani -> CBMC -> SAT). Each harness "
                               "below was decided for every value within its bounds, with unwinding assertions on; every "
                               "vacuity witness was found satisfiable. Nothing is claimed outside the bounds.",
                "obligations": nchecks, "harnesses": rows, "harnesses_decided": len(dec),
                "queries_discharged": sum(r["vccs"] or 0 for r in rows),
                "solver_s": round(sum(r["solver_s"] or 0 for r in rows), 3),
                "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
                "outside_bounds": self.meta.get("outside", ""),
                "tool": data.get("tools"),
                "undecided": [f"{a.split('::')[-1]}: {b}" for a, b in undecided],
                "known_findings": klines,
            },
            "assumptions": self.meta.get("assumptions", []),
            "wall_s": round(time.time() - T0, 1), "violations": violations,
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r in rows:
            log(f"  {r['harness']}: {r['status']} ({r['wall_s']} s, {r['vccs']} vccs)")
        if violations: return 1
        if undecided:
            for a, b in undecided: log(f"UNDECIDED {a}: {b}")
            # a solver time-out limits what was explored (reported in the evidence); anything else is no answer
            hard = [u for u in undecided if "timeout" not in u[1]]
            if hard or 2 * len(dec) < len(rows):
                return 2
        log(f"property {self.pid} held: {len(dec)} harnesses, {nchecks} obligations, {len(funcs)} functions, {time.time()-T0:.0f} s")
        return 0

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = []
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--only": only.append(a.pop(0))
    c = Check(pid, tier, only)
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)

main()
