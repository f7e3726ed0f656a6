#!/usr/bin/env python3
"""check.py <property-id> [--thorough]

Decides one property: builds the contract harnesses of that property against the
current working tree of /repo with Kani (CBMC back end), plus its Verus proofs over
functions extracted from /repo's source, and reports obligation by obligation.
exit 0: held;  exit 1 + VIOLATION line: broken;  exit 2: the check itself could not run.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "kani")
WORK = os.path.join(HERE, "work")
KANI_FLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options",
              "-Z", "mem-predicates"]
T0 = time.time()
DEADLINE = 860  # seconds, hard budget of one quick check


def left(reserve=0):
    return max(5, DEADLINE - reserve - (time.time() - T0))


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, timeout, cwd=CRATE, log=None):
    """Run in its own process group; kill the group at the time limit."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    # whatever it left running, and nothing of anyone else's
    subprocess.run(["pkill", "-KILL", "-s", str(p.pid)], check=False)
    if log:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + out)
    return rc, out


TOOL_LIMIT = ("unwinding assertion", "is not currently supported by kani", "unsupported",
              "not supported", "recursion unwinding", "max allocation size exceeded",
              "call to foreign", "unimplemented", "concurrency")


def is_tool_limit(chk):
    d = chk["description"].lower()
    c = (chk.get("category") or "").lower()
    return c in ("unwind", "unsupported_construct", "missing_definition", "recursion") or \
        any(t in d for t in TOOL_LIMIT)


def classify(res):
    """-> (verdict, failed_checks, tool_checks, n_obligations, n_discharged, covers)"""
    bad, tool, ob, ok, cov = [], [], 0, 0, []
    for c in res.get("checks", []):
        st = c["status"].lower()
        if (c.get("category") or "") == "cover" or st in ("satisfied", "unsatisfiable"):
            cov.append((c["description"], st))
            continue
        ob += 1
        if st in ("success", "unreachable"):
            ok += 1
        elif st == "failure":
            (tool if is_tool_limit(c) else bad).append(c)
    st = res["status"].lower()
    if bad and tool:
        # an exceeded loop bound does not weaken a found counterexample, but let the
        # bounded re-run and the native replay decide
        v = "fail"
    elif bad:
        v = "fail"
    elif tool:
        v = "undecided"
    elif st == "success":
        v = "ok"
    else:
        v = "undecided"
    return v, bad, tool, ob, ok, cov


def kani(feats, harnesses, per_harness, budget, tag, extra=()):
    js = os.path.join(WORK, f"{tag}.json")
    if os.path.exists(js):
        os.unlink(js)
    cmd = ["cargo", "kani", "--lib", "--features", ",".join(feats), *KANI_FLAGS,
           "--harness-timeout", f"{int(per_harness)}s",
           *([] if "--concrete-playback=print" in extra else ["-j", "8", "--output-format=terse"]),
           "--export-json", js, *extra]
    for h in harnesses:
        cmd += ["--harness", h]
    if harnesses:
        cmd += ["--exact"]
    t = time.time()
    rc, out = run(cmd, budget, log=os.path.join(WORK, f"{tag}.log"))
    dt = time.time() - t
    try:
        d = json.load(open(js))
    except Exception:
        d = None
    return rc, out, d, cmd, dt


def parse_vectors(out):
    """concrete_vals of every playback test Kani printed -> list of byte strings"""
    res = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        b = bytearray()
        for v in re.finditer(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M):
            b += bytes(int(x) for x in v.group(1).split(",") if x.strip())
        if bytes(b) not in res:
            res.append(bytes(b))
    return res


class Check:
    def __init__(self, pid, tier, conf):
        self.pid, self.tier, self.conf = pid, tier, conf
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.feat = pid.lower()
        self.notes, self.undecided, self.viol, self.known = [], [], [], []
        self.oblig = self.disch = 0
        self.harness_ev, self.cmds = [], []
        self.replay_bin = None
        self.verus_failed = []

    # ---- native side -------------------------------------------------------
    def native(self):
        if self.replay_bin:
            return self.replay_bin
        td = os.path.join(CRATE, "target", "native")
        cmd = ["cargo", "build", "--offline", "--bin", "replay", "--features",
               f"{self.feat},bnd,std", "--target-dir", td,
               "--config", "profile.dev.opt-level=1"]  # overflow checks and debug assertions stay on
        rc, out = run(cmd, left(60), log=os.path.join(WORK, f"{self.pid}.native.log"))
        if rc != 0:
            self.die("native replay build failed", out)
        self.replay_bin = os.path.join(td, "debug", "replay")
        return self.replay_bin

    def replay(self, h, data):
        rc, out = run(self.limited([self.native(), "bytes", h, data.hex()]), 60)
        return (rc not in (0, 3)), (out.strip() or f"ended with {rc}")

    @staticmethod
    def limited(cmd, **env):
        """Under a memory limit: an allocation of a size taken from the file ends the run, not the sandbox."""
        return ["env", *[f"{k}={v}" for k, v in env.items()], "bash", "-c", 'ulimit -v 16000000; exec "$@"', "-", *cmd]

    def search(self, h, ms, mode="search"):
        """-> (failing input or None, what happened)"""
        runs = os.path.join(WORK, f"{self.pid}.{h.split('::')[-1]}.runs")
        cmd = [self.native(), mode, h, str(self.seed), str(ms)]
        rc, out = run(self.limited(cmd, OBJ_RUNS=runs), ms / 1000 + 90)
        m = re.search(r"FAILED (.*) INPUT ([0-9a-f]*)", out)
        if m:
            return bytes.fromhex(m.group(2)), m.group(1)
        if rc in (0, None):  # None: the machine is too slow for the stand-in, not an answer
            return None, out.strip()
        # a run ended the process (stack or memory exhausted) or does not end: trace its draws
        n = int.from_bytes(open(runs, "rb").read(8), "little")
        tr = runs + ".trace"
        open(tr, "w").close()
        rc2, out2 = run(self.limited(cmd, OBJ_AT=n, OBJ_TRACE=tr), ms / 1000 + 90)
        if rc2 == 0:
            return None, f"run {n} ended with {rc}, but not again"
        return bytes.fromhex(open(tr).read()), f"{out2.strip()[-300:]} (ended with {rc2})"

    def die(self, msg, out=""):
        sys.stderr.write(f"check error: {msg}\n{out[-4000:]}\n")
        sys.exit(2)

    # ---- violations --------------------------------------------------------
    def violation(self, obligation, detail, data=None, harness=None, how=None):
        n = len(self.viol)
        path = os.path.join(HERE, "work", f"{self.pid}.violation{n}.txt")
        with open(path, "w") as f:
            f.write(f"property: {self.pid}\nharness: {harness}\nobligation: {obligation}\n")
            if data is not None:
                f.write(f"failing input (little-endian symbolic values, in order): {data.hex()}\n")
                f.write(f"replay: (cd {CRATE} && cargo run --offline --bin replay --features "
                        f"{self.feat},bnd,std --target-dir target/native -- bytes {harness} {data.hex()})\n")
                f.write(f"real code says: {how}\n")
            else:
                f.write("no failing input found\n")
            f.write("\n" + detail + "\n")
        self.viol.append((obligation, path, data is not None, harness))

    def handle_failed(self, h, bad, detail, proof_mode):
        """A genuine obligation failed: extract an input and run the real code on it."""
        names = "; ".join(sorted({c["description"] for c in bad}))[:600] if bad else "(undecided)"
        tried = []
        if left() > 60:
            rc, out, d, _, _ = kani([self.feat, "bnd"], [h], min(240, left(60)), min(270, left(40)),
                                    f"{self.pid}.cex", ["-Z", "concrete-playback", "--concrete-playback=print",
                                                         "--default-unwind", str(self.conf.get("unwind", 20))])
            for v in parse_vectors(out):
                okv, how = self.replay(h.replace("::k::", "::"), v)
                tried.append(how)
                if okv:
                    self.violation(names, detail, v, h.replace("::k::", "::"), how)
                    return "violation"
            res = (d or {}).get("verification_results", {}).get("results", [])
            bv = classify(res[0])[0] if res else "undecided"
        else:
            bv = "undecided"
        data, how = self.search(h.replace("::k::", "::"), 15000 if left() > 60 else 3000)
        if data is not None:
            self.violation(names, detail, data, h.replace("::k::", "::"), how)
            return "violation"
        if bad and proof_mode:
            self.violation(names, detail + "\n" + "\n".join(tried), None, h.replace("::k::", "::"))
            return "violation"
        return bv

    # ---- main --------------------------------------------------------------
    def run_kani(self):
        c = self.conf
        feats = [self.feat] + (["thorough"] if self.tier == "thorough" else [])
        per = c.get("timeout", 150) * (4 if self.tier == "thorough" else 1)
        rc, out, d, cmd, dt = kani(feats, [], per, left(120), f"{self.pid}.main")
        self.cmds.append(" ".join(cmd))
        if d is None:
            if "could not compile" in out or "error:" in out or "error[" in out:
                self.die("harness crate does not build against /repo", out)
            self.die("kani produced no result", out)
        results = d["verification_results"]["results"]
        names = [m["pretty_name"] for m in d["harness_metadata"]]
        got = {r["harness_id"] for r in results}
        if not results:
            self.die("zero harnesses", out)
        stats = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d.get("cbmc", []) if x.get("cbmc_stats")}
        todo = []
        for r in sorted(results, key=lambda r: r["harness_id"]):
            v, bad, tool, ob, ok, cov = classify(r)
            h = r["harness_id"]
            short = h.split("::")[-1]
            bounded = short.startswith("b_")
            unreached = [x for x, s in cov if s != "satisfied"]
            if v == "ok" and ob == 0:
                v = "undecided"
            ev = dict(harness=h, kind="bounded" if bounded else "proof", verdict=v, obligations=ob,
                      discharged=ok if v != "undecided" else 0, seconds=r["duration_ms"] / 1000.0,
                      solver_s=stats.get(h, {}).get("runtime_decision_procedure_s"),
                      vccs=stats.get(h, {}).get("vccs_generated"),
                      reach=len(cov), unreached=unreached)
            self.harness_ev.append(ev)
            detail = "\n".join(f"  {x['status']}: {x['description']} @ {x['function']} "
                               f"{x['location'].get('file')}:{x['location'].get('line')}" for x in bad + tool)
            if v == "fail":
                todo.append((ev, h, bad, detail, not bounded))
            elif v == "undecided":
                todo.append((ev, h, [], detail or "tool limit or timeout", not bounded))
            elif unreached:
                todo.append((ev, h, [], "unreachable: " + "; ".join(unreached), not bounded))
        for h in sorted(set(names) - got):
            ev = dict(harness=h, kind="bounded" if "::b_" in h else "proof", verdict="undecided",
                      obligations=1, discharged=0, seconds=None, solver_s=None, vccs=None, reach=0, unreached=[])
            self.harness_ev.append(ev)
            todo.append((ev, h, [], "no result", True))
        todo.sort(key=lambda t: t[0]["verdict"] != "fail")
        for ev, h, bad, detail, pm in todo:
            if self.viol and not bad:
                continue
            if len(self.viol) >= 2:
                break
            r = self.handle_failed(h, bad, f"Kani ({' '.join(cmd)}):\n{detail}", pm and bool(bad))
            ev["after"] = r
            if r != "violation":
                ev["discharged"] = 0
                ev["fallback"] = "bounded re-run: " + r
                self.undecided.append(f"{h}: {detail[:300]} -> bounded re-run {r}")

    def run_verus(self):
        jobs = self.conf.get("verus", [])
        if not jobs:
            return
        sys.path.insert(0, os.path.join(HERE, "verus"))
        import extract
        for j in jobs:
            r = extract.run_job(j, WORK, min(200, left(100)), 60 if self.tier == "quick" else 400)
            self.cmds.append(f"verus --crate-type=lib work/verus_{j}.rs (expanded from verus/{j}.rs and /repo/src by verus/extract.py)")
            st = r["status"]
            ev = dict(harness="verus:" + j, kind="proof", verdict={"ok": "ok", "failed": "fail"}.get(st, "undecided"),
                      obligations=max(1, r["verified"] + r["errors"]), discharged=r["verified"], seconds=round(r["seconds"], 2),
                      solver_s=round(r.get("solver_s", 0.0), 3), vccs=None, reach=0, unreached=[], functions=r["fns"],
                      assumed=r["assumed"])
            self.harness_ev.append(ev)
            if st == "failed":
                # The stand-ins on the real code get to look for an input first (run_native).
                self.verus_failed.append((j, r["detail"]))
            elif st != "ok":
                ev["discharged"] = 0
                self.undecided.append(f"verus:{j}: {st}: {r['detail'][:300]}")

    def listed(self):
        known = []
        kf = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=(.*?) :: (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    known.append(m.groups()[1:])
        return known

    def fresh(self):
        """Violations that known-findings.txt does not list."""
        known = self.listed()
        return [v for v in self.viol if not any(k[0] == v[3] and k[1] in v[0] for k in known)]

    def verus_verdict(self):
        for j, detail in self.verus_failed:
            if self.fresh():
                return
            m = re.findall(r"^error: (.*)$", detail, re.M)
            self.violation(f"verus:{j}: {'; '.join(m[:3])}", detail)

    def run_native(self):
        """Bounded stand-ins (labelled): enumerations over the real build."""
        jobs = self.conf.get("native", [])
        if not jobs:
            return
        self.native()
        slots = 6
        rounds = -(-len(jobs) // slots)
        cap = max(1000, (left(120) / rounds) * 1000)

        def one(j):
            ms = int(min(j.get("ms", 15000) * (8 if self.tier == "thorough" else 1), cap))
            t = time.time()
            return self.search(j["harness"], ms, j.get("mode", "exhaust")), time.time() - t

        with concurrent.futures.ThreadPoolExecutor(slots) as ex:
            res = list(ex.map(one, jobs))
        for j, ((data, how), dt) in zip(jobs, res):
            ev = dict(harness="native:" + j["harness"], kind="bounded", verdict="ok", obligations=0, discharged=0,
                      seconds=round(dt, 1), solver_s=None, vccs=None, reach=0, unreached=[], result=how[:300])
            self.harness_ev.append(ev)
            if data is not None:
                ev["verdict"] = "fail"
                if len(self.fresh()) < 3:
                    self.violation(f"bounded stand-in {j['harness']}", how, data, j["harness"], how)

    def finish(self):
        known = self.listed()
        out = []
        for ob, path, conf, h in self.viol:
            k = next((k for k in known if k[0] == h and k[1] in ob), None)
            if k:
                print(f"KNOWN-FINDING: property={self.pid} {k[2]}")
            else:
                out.append((ob, path, conf))
        proof = [e for e in self.harness_ev if e["kind"] == "proof"]
        bnd = [e for e in self.harness_ev if e["kind"] != "proof"]
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=self.conf.get("level", "proof"),
            wall_s=round(time.time() - T0, 1), violations=len(out),
            assumptions=self.conf.get("assumptions", []) + COMMON_ASSUMPTIONS,
            coverage=dict(
                **({"explanation": "Contracts of the functions that place sections are proved (proof_harnesses); that a whole file reads back as it was given is checked on random files by the bounded stand-ins (bounded_harnesses), and not proved."} if self.conf.get("level") == "other" else {}),
                obligations=sum(e["obligations"] for e in proof),
                discharged=sum(e["discharged"] for e in proof),
                checker_cmd=" ;; ".join(self.cmds),
                trusted_base=TRUSTED,
                backends={"kani 0.68.0 / CBMC 6.11.0 / CaDiCaL": sum(e["discharged"] for e in proof if not e["harness"].startswith("verus:")),
                          "verus / z3": sum(e["discharged"] for e in proof if e["harness"].startswith("verus:"))},
                functions_under_contract=self.conf.get("functions", []) + [f"{e['harness']}::{f}" for e in proof for f in e.get("functions", [])],
                solver_s=round(sum(e["solver_s"] or 0 for e in self.harness_ev), 3),
                proof_harnesses=proof, bounded_harnesses=bnd,
                bounded_obligations=sum(e["obligations"] for e in bnd),
                bounded_discharged=sum(e["discharged"] for e in bnd),
                bounded_note="harnesses named b_* and native:* are bounded stand-ins with the bound stated in DESIGN.md; not counted in obligations/discharged",
                undecided=self.undecided,
                samples=[f"{e['harness']}: {e['verdict']} {e['discharged']}/{e['obligations']}" for e in self.harness_ev[:5]],
            ))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {len(proof)} proof harnesses, {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations; "
              f"{len(bnd)} bounded stand-ins; {len(self.undecided)} undecided; {ev['wall_s']}s")
        for u in self.undecided:
            print("UNDECIDED " + u.replace("\n", " ")[:400])
        for ob, path, conf in out:
            print(f"  obligation: {ob}")
            if not conf and any(o[2] for o in out):
                continue
            print(f"VIOLATION property={self.pid} replay={path}" + ("" if conf else " no-failing-input-found"))
        sys.exit(1 if out else 0)


COMMON_ASSUMPTIONS = [
    "Kani models the 64-bit little-endian host target with panic=abort and overflow checks on",
    "core/alloc/std are verified through their real MIR except where Kani substitutes models",
    "object crate built with features read,write,build,std (no wasm, no compression back ends)",
    "symbolic-length inputs are shorter than 2^47 bytes and start at an arbitrary heap address",
    "termination is not proved by Kani",
]
TRUSTED = ["kani-compiler 0.68.0", "CBMC 6.11.0", "CaDiCaL", "rustc MIR", "harness contracts in /verif/kani/src",
           "contract of memchr::memchr (assumed in proof mode where stubbed)"]


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    global DEADLINE
    if tier == "thorough":
        DEADLINE = 3 * 3600
    os.makedirs(WORK, exist_ok=True)
    conf = json.load(open(os.path.join(HERE, "props.json")))[pid]
    c = Check(pid, tier, conf)
    if conf.get("kani", True):
        c.run_kani()
    if not c.viol:
        c.run_verus()
    if not any(v[2] for v in c.viol):
        # Also when an obligation failed and no input was found for it yet.
        c.run_native()
    c.verus_verdict()
    c.finish()


if __name__ == "__main__":
    main()
