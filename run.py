#!/usr/bin/env python3
"""Decides one property: `run.py C01`.

Builds the harnesses of the property against /repo's working tree, has Kani/CBMC execute them symbolically,
replays every counterexample natively and reports it only when the real build shows it too.
`run.py --replay FILE` repeats a saved counterexample.  See DESIGN.md.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FX_REPO", "/repo")
WORK = os.path.join(V, ".work")
MODELLED = ["parking_lot", "parking_lot_core", "lock_api", "tokio", "async-trait"]
PROPS = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
# A check's own bookkeeping failing is not a verdict on the property.
NOT_A_VERDICT = ("unwind", "unsupported_construct", "unsupported", "missing_function", "recursion")
BASE_ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    BASE_ENV.pop(k, None)
HARNESS_TIMEOUT = {"quick": 400, "thorough": 3000}
# wall clock for the symbolic execution of all harnesses, and for the check as a whole
STAGE = {"quick": 700, "thorough": 14400}
TOTAL = {"quick": 860, "thorough": 18000}


def log(*a):
    print(*a, flush=True)


def manifest(dst, feats, models, native=False):
    os.makedirs(dst, exist_ok=True)
    patch = f"""
fieldx_aux            = {{ path = "{REPO}/fieldx_aux" }}
fieldx_derive         = {{ path = "{REPO}/fieldx_derive" }}
fieldx_derive_support = {{ path = "{REPO}/fieldx_derive_support" }}
"""
    if models:
        patch += "".join(f'{m} = {{ path = "{V}/models/{m}" }}\n' for m in ("parking_lot", "tokio", "async-trait"))
    binary = f'[[bin]]\nname = "replay"\npath = "{V}/harness/src/main.rs"\n' if native else ""
    text = f"""[package]
name = "fxh"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[lib]
path = "{V}/harness/src/lib.rs"
{binary}[features]
thorough = []
model = []
{"".join(p.lower() + " = []" + chr(10) for p in PROPS)}
default = [{", ".join('"%s"' % f for f in feats)}]
[dependencies]
fieldx = {{ path = "{REPO}/fieldx", features = ["sync", "async", "serde"] }}
parking_lot = "0.12"
tokio = {{ version = "1.39", default-features = false, features = ["sync"] }}
serde = {{ version = "1", features = ["derive"] }}
[patch.crates-io]
{patch}
[profile.dev]
debug = 0
"""
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(text)
    lock = open(os.path.join(V, "harness", "base.lock")).read().split("[[package]]\n")
    if models:
        lock = [p for p in lock if not (m := re.match(r'name = "([^"]+)"', p)) or m.group(1) not in MODELLED]
    with open(os.path.join(dst, "Cargo.lock"), "w") as f:
        f.write("[[package]]\n".join(lock))


def kani_cmd(target, extra):
    return ["cargo", "kani", "--target-dir", target, "-Z", "unstable-options", "-Z", "restrict-vtable",
            "--no-memory-safety-checks", "--no-assertion-reach-checks"] + extra


def kani_env():
    return dict(BASE_ENV)


def limits():
    # one runaway solver must not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    os.setpgid(0, 0)


CHILDREN = set()


def kill_group(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass


def kill_children():
    for p in list(CHILDREN):
        kill_group(p)


def run(cmd, cwd, env, timeout, out):
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)
        CHILDREN.add(p)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill_group(p)
            p.wait()
            return None
        finally:
            CHILDREN.discard(p)


class Native:
    """The harness crate built without Kani: `real` against the real lock crates, `model` against ours."""

    def __init__(self, base, feats, kind):
        self.kind = kind
        self.rc, self.mutex = None, threading.Lock()
        self.dir = os.path.join(base, "native-" + kind)
        self.target = os.path.join(WORK, "target-" + kind)
        self.log = os.path.join(base, f"native-{kind}.log")
        self.bin = os.path.join(base, "replay-" + kind)
        manifest(self.dir, feats + (["model"] if kind == "model" else []), kind == "model", True)

    def build(self):
        with self.mutex:
            return self.rc if self.rc is not None else self._build()

    def _build(self):
        env = dict(BASE_ENV, RUSTUP_TOOLCHAIN="stable")
        rc = run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", self.target], self.dir, env, 600, self.log)
        if rc == 0:
            shutil.copy(os.path.join(self.target, "debug", "replay"), self.bin)
        self.rc = rc if rc is not None else 1
        return self.rc

    def names(self):
        return set(subprocess.run([self.bin], capture_output=True, text=True).stdout.split())

    def replay(self, harness, data):
        """ok | fails | hangs | rejected (the input is outside the harness's assumptions) | absent"""
        try:
            p = subprocess.run([self.bin, harness, ",".join(map(str, data))], capture_output=True, text=True,
                               timeout=20, errors="replace")
        except subprocess.TimeoutExpired:
            return "hangs", "no progress within 20 s (deadlock)", []
        reached = re.findall(r"^REACHED (.*)$", p.stdout, re.M)
        if "ASSUME-FAILED" in p.stdout:
            return "rejected", "", reached
        if "NO-SUCH-HARNESS" in p.stdout:
            return "absent", "", reached
        if p.returncode == 0 and "REPLAY-OK" in p.stdout:
            return "ok", "", reached
        m = re.search(r"panicked at .*?(?=\n(note: |stack backtrace)|\Z)", p.stderr, re.S)
        return "fails", (m.group(0) if m else f"exit {p.returncode}: {p.stderr.strip()}")[:600], reached


def parse_playback(text):
    """[(kind, description, bytes)] printed by --concrete-playback=print"""
    res = []
    for m in re.finditer(r"/// Test generated for harness `[^`]*`(.*?)#\[test\](.*?)kani::concrete_playback_run", text, re.S):
        head, body = m.groups()
        k = re.search(r"Check for `?(\w+)[^:]*: \"(.*?)\"\s*$", head.replace("\n/// ", " ").strip(), re.S)
        data = [int(x) for v in re.findall(r"vec!\[([0-9, ]*)\]", body) for x in v.split(",") if x.strip()]
        res.append((k.group(1) if k else "?", k.group(2) if k else head.strip(), data))
    return res


def encoded_functions(goto_file):
    """Functions of fieldx (runtime or generated) in the call graph of one harness."""
    try:
        goto_file = goto_file.replace(".symtab.out", ".out")
        g = subprocess.run(["goto-instrument", "--reachable-call-graph", goto_file], capture_output=True, text=True, timeout=120).stdout
        names = json.load(open(goto_file.replace(".out", ".pretty_name_map.json")))
    except Exception:
        return set()
    out = set()
    for f in set(re.findall(r"-> (\S+)", g)):
        p = names.get(f) or f
        if isinstance(p, str):
            out.add(p)
    return out


def playback(base, harness, tier, limit=None):
    d = os.path.join(base, "kani")
    out = os.path.join(base, "playback-%s.log" % harness.replace("::", "-"))
    limit = max(5, min(HARNESS_TIMEOUT[tier] + 120, limit or 10 ** 9))
    run(kani_cmd(os.path.join(WORK, "target-kani"), ["--harness", harness, "--exact", "-Z", "concrete-playback",
        "--concrete-playback=print", "--harness-timeout", "%ds" % limit]), d, kani_env(), limit, out)
    return parse_playback(open(out, errors="replace").read())


def verdicts(klog):
    """{harness: failed checks} of the harnesses Kani has finished with so far, from its output."""
    text = open(klog, errors="replace").read() if os.path.exists(klog) else ""
    now, res = {}, {}
    for m in re.finditer(r"^Thread (\d+): *(?:Checking harness (\S+?)\.\.\.$|\nVERIFICATION RESULT:(.*?^Verification Time:))", text, re.M | re.S):
        t, h, body = m.groups()
        if h:
            now[t] = h
        elif t in now:
            bad = re.findall(r"^Failed Checks: (.*)$", body, re.M)
            res[now.pop(t)] = bad if "VERIFICATION:- FAILED" in body else []
    return res


class Kani:
    """All harnesses of a property; `early(harness)` is called with each failing one as soon as it is known."""

    def __init__(self, cmd, cwd, limit, out):
        self.f = open(out, "w")
        self.out, self.end = out, time.time() + limit
        self.p = subprocess.Popen(cmd, cwd=cwd, env=kani_env(), stdout=self.f, stderr=subprocess.STDOUT, preexec_fn=limits)

    def kill(self):
        kill_group(self.p)
        self.p.wait()

    def wait(self, early):
        seen = set()
        while True:
            done = self.p.poll() is not None
            v = verdicts(self.out)
            for h, bad in v.items():
                if h not in seen and any("unwinding assertion" not in b and "recursion" not in b for b in bad):
                    early(h)
                seen.add(h)
            if done:
                return True
            if time.time() > self.end:
                self.kill()
                return False
            time.sleep(1)


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in HARNESS_TIMEOUT else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = prop.lower()
    base = os.path.join(WORK, prop)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    feats = [mod] + (["thorough"] if tier == "thorough" else [])
    kdir = os.path.join(base, "kani")
    manifest(kdir, feats + ["model"], True)
    real, model = Native(base, feats, "real"), Native(base, feats, "model")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)

    def finish(code, violations):
        ev["wall_s"] = round(time.time() - t0, 1)
        ev["violations"] = violations
        ev.setdefault("coverage", {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                                   "explanation": "the run ended before the symbolic execution"})
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{prop}: exit {code} after {ev['wall_s']} s")
        return code

    def save(name, obj):
        p = os.path.join(replays, f"{prop}-{name}.json")
        with open(p, "w") as f:
            json.dump(dict(obj, property=prop, tier=tier), f, indent=1)
        return os.path.relpath(p, V)

    jfile = os.path.join(base, "kani.json")
    klog = os.path.join(base, "kani.log")
    ht = HARNESS_TIMEOUT[tier]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]

    def confirm(h, left=None):
        """The solver's counterexample of one harness, replayed: (native build, outcome, message, what failed, input)"""
        hit = None
        # Kani prints equal inputs once, under the name of the first thing they show: a goal's input may be the failing one
        for kind, desc, data in sorted(playback(base, h, tier, left), key=lambda c: c[0] == "cover"):
            for nat in (real, model):
                if nat is model and model.build() != 0:
                    continue
                out, msg, _ = nat.replay(h, data)
                if out in ("fails", "hangs"):
                    hit = (nat.kind, out, msg, desc if kind != "cover" else msg.split("\n")[-1], data)
                    break
            if hit and hit[0] == "real":
                break
        return hit

    def violation(h, hit):
        p = save(h.replace("::", "-"), {"kind": "input", "harness": h, "bytes": hit[4], "failed": hit[3], "native": hit[0],
                                        "outcome": hit[1], "message": hit[2]})
        log(f"{h}: {hit[3]}: input {hit[4]} {hit[1]} natively ({hit[0]} locks): {hit[2][-300:]}")
        log(f"VIOLATION property={prop} replay={p}")

    def genuine(h, hit):
        return bool(hit) and (hit[0] == "real" or h not in real.names())

    # The first counterexample which the native code confirms settles the matter; the rest need not be waited for.
    kani = Kani(kani_cmd(os.path.join(WORK, "target-kani"), ["-j", "8", "--output-format=terse", "--export-json", jfile,
                "--harness-timeout", f"{ht}s"]), kdir, STAGE[tier], klog)
    early = {}
    with cf.ThreadPoolExecutor(1) as bx, cf.ThreadPoolExecutor(3) as ex:
        fr = bx.submit(real.build)
        lock = threading.Lock()
        found = []

        def first(h):
            if fr.result() != 0 or found or time.time() > t0 + TOTAL[tier] - 20:
                return None
            hit = confirm(h, t0 + TOTAL[tier] - time.time())
            with lock:
                if genuine(h, hit) and not found:
                    found.append((h, hit))
                    kani.kill()
                    kill_children()
            return hit

        def submit(h):
            if not known:
                early[h] = ex.submit(first, h)

        complete = kani.wait(submit)
        fr.result()
        played = {h: f.result() for h, f in early.items()}

    if real.rc != 0:
        text = open(real.log, errors="replace").read()
        if "could not compile `fxh`" in text or "could not compile `fxh` " in text:
            # fieldx itself was built; what it generates for the documented declarations was rejected.
            errs = re.findall(r"^error.*?(?=\n\n|\Z)", text, re.S | re.M)
            p = save("generated-code", {"kind": "compile", "errors": errs[:5]})
            log("the code generated for valid declarations is rejected by the compiler:")
            log("\n".join(errs[:2])[:1500])
            log(f"VIOLATION property={prop} replay={p}")
            return finish(1, 1)
        log("ERROR: native build failed, see", real.log)
        log(text[-1500:])
        return finish(2, 0)
    if found:
        violation(*found[0])
        ev["coverage"] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 1, "harnesses": len(verdicts(klog)),
                          "samples": [{"harness": found[0][0], "failed": found[0][1][3], "input": found[0][1][4]}],
                          "explanation": "ended by the first counterexample confirmed natively"}
        return finish(1, 1)
    if not complete or not os.path.exists(jfile):
        log("ERROR: no verdict from Kani, see", klog)
        log(open(klog, errors="replace").read()[-2500:])
        return finish(2, 0)

    j = json.load(open(jfile))
    results = j["verification_results"]["results"]
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in j.get("cbmc", [])}
    gotos = {m["pretty_name"]: m["goto_file"] for m in j["harness_metadata"]}
    errors, failing, vacuous = [], [], []
    nchecks = 0
    unwound = set()
    if not results or len(results) != len(gotos):
        errors.append(f"{len(results)} of {len(gotos)} harnesses reported")
    for r in results:
        h = r["harness_id"]
        bad = [c for c in r["checks"] if c["status"] in ("Failure", "FAILURE", "Failed")]
        nchecks += len(r["checks"])
        verdict = [c for c in bad if c["category"] not in NOT_A_VERDICT]
        if bad and not verdict and any("unwind" in c["category"] or "recursion" in c["category"] for c in bad):
            # more iterations than any correct execution needs: a hang or a crash of the real code, or a too small bound
            unwound.add(h)
            failing.append((h, bad))
        elif bad and not verdict:
            errors.append(f"{h}: {bad[0]['category']}: {bad[0]['description']}")
        if verdict:
            failing.append((h, verdict))
        elif not bad:
            unsat = [c for c in r["checks"] if c["category"] == "cover" and c["status"] != "Satisfied"]
            covers = [c for c in r["checks"] if c["category"] == "cover"]
            if r["status"] != "Success":
                errors.append(f"{h}: no verdict ({r['status']}) within {ht} s")
            elif not covers:
                errors.append(f"{h}: has no reachability goal")
            elif unsat:
                vacuous.append(f"{h}: unreachable goal: {unsat[0]['description']}")

    # --- evidence
    fns = set()
    with cf.ThreadPoolExecutor(8) as ex:
        for s in ex.map(encoded_functions, gotos.values()):
            fns |= s
    strip = lambda f: re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"(?<=::)<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>", "", f)))
    runtime = sorted({f for f in fns if re.match(r"<?&?(mut )?fieldx::(?!OnceCell)", f) and "{closure@" not in f})
    runtime = sorted({re.sub(r"::+", "::", strip(f)) if not f.startswith("<") else f[:100] for f in runtime})
    gen = sorted({f for f in fns if re.match(rf"{mod}::\w+(::<.*>)?::\w+$", f)})
    tot = lambda k: sum((s.get(k) or 0) for s in stats.values())
    samples = []

    # --- violations
    nviol, confirmed_known = 0, set()
    dur = {r["harness_id"]: r["duration_ms"] for r in results}
    failing.sort(key=lambda x: (x[0] in unwound, dur[x[0]]))
    rest = [h for h, _ in failing if h not in played]
    # all of them when some are known findings: each must be told apart from a new violation
    rest = rest if known else rest[:4]
    with cf.ThreadPoolExecutor(6) as ex:
        played.update(zip(rest, ex.map(lambda h: confirm(h, t0 + TOTAL[tier] - time.time()), rest)))
    for h, bad in failing:
        if h not in played:
            continue
        hit = played[h]
        if not hit:
            errors.append(f"{h}: the solver's counterexample ({bad[0]['description']}) did not reproduce natively")
        elif not genuine(h, hit):
            errors.append(f"{h}: the counterexample shows only with the lock models, not with the real crates: {hit[3]}")
        elif kf := [k for k in known if k["harness"] == h and k["message"] in (hit[2] + hit[3])]:
            confirmed_known.add(h)
            log(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
        elif nviol < 4:
            nviol += 1
            violation(h, hit)

    # --- witnesses: what the solver says is reachable is reached by the real code
    validated = 0
    if not failing and not errors:
        names = real.names()
        cand = [r["harness_id"] for r in sorted(results, key=lambda r: r["duration_ms"]) if r["harness_id"] in names]
        if not cand:
            model.build()
            nat = model
            cand = [r["harness_id"] for r in sorted(results, key=lambda r: r["duration_ms"])]
        else:
            nat = real
        pick = cand[:3] if tier == "quick" else cand[:16]
        if nat is real or model.rc == 0:
            with cf.ThreadPoolExecutor(3) as ex:
                for h, cases in zip(pick, ex.map(lambda h: playback(base, h, tier), pick)):
                    for kind, desc, data in cases:
                        if kind != "cover":
                            continue
                        out, msg, reached = nat.replay(h, data)
                        if out == "ok" and any(d in desc or desc in d for d in reached):
                            validated += 1
                            samples.append({"harness": h, "goal": desc, "input": data, "replayed_with": nat.kind + " locks"})
                        else:
                            errors.append(f"{h}: witness for '{desc}' ends in '{out}' natively ({msg[-200:]}): encoding and code disagree")
    ev["coverage"] = {
        "states": tot("size_program_expression"),
        "transitions": tot("vccs_generated"),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"harness": r["harness_id"], "status": r["status"], "checks": len(r["checks"])} for r in results[:3]],
        "explanation": "states: program steps of the symbolic executions (CBMC SSA steps); transitions: verification conditions "
                       "generated from them; a trace is a solver witness replayed natively. Each harness is decided for every value "
                       "of its symbolic inputs within the bounds.",
        "harnesses": len(results),
        "queries": len(results),
        "properties_checked": nchecks,
        "vccs_to_solver": tot("vccs_remaining"),
        "solver_time_s": round(tot("runtime_decision_procedure_s"), 2),
        "symex_time_s": round(tot("runtime_symex_s"), 2),
        "runtime_functions_encoded": runtime[:80],
        "generated_functions_encoded": len(gen),
        "generated_functions_sample": gen[:25],
        "bounds": {"history_length": 6 if tier == "thorough" else 4, "note": "per-harness bounds: see DESIGN.md; loops are fully "
                   "unwound, with unwinding assertions"},
    }
    ev["assumptions"] = ["parking_lot, tokio::sync and async-trait are replaced by models (/verif/models)",
                         "no unwinding: a panic ends the execution", "sequentially consistent memory"]
    if nviol:
        return finish(1, nviol)
    if errors or vacuous:
        for e in errors + vacuous:
            log("ERROR:", e)
        return finish(2, 0)
    log(f"{prop}: {len(results)} harnesses hold; {tot('size_program_expression')} steps, {tot('vccs_generated')} conditions, "
        f"{len(runtime)} runtime + {len(gen)} generated functions, {validated} witnesses replayed")
    return finish(0, 0)


def replay(path):
    o = json.load(open(path))
    if o["kind"] == "compile":
        log("\n".join(o["errors"]))
        return 1
    base = os.path.join(WORK, "replay")
    feats = [o["property"].lower()] + (["thorough"] if o.get("tier") == "thorough" else [])
    n = Native(base, feats, o["native"])
    if n.build() != 0:
        log("build failed, see", n.log)
        return 2
    out, msg, _ = n.replay(o["harness"], o["bytes"])
    log(out, msg)
    return 0 if out == "ok" else 1


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        need = ["cargo", "cbmc", "goto-instrument"]
        missing = [t for t in need if not shutil.which(t)]
        log("missing tools: " + ", ".join(missing) if missing else "nothing to build: each check builds from the working tree of " + REPO)
        sys.exit(1 if missing else 0)
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
