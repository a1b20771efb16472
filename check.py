#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py ID [quick|thorough]   (or: --setup)

Builds the harness against /repo's working tree for both runtimes, replays the saved inputs, runs the
property's campaigns and writes evidence/<ID>.json. Exit 0: held; 1: VIOLATION; 2: error of the check.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
RUNTIMES = ["tokio", "agnostic"]
MEM = 10 << 30
CPU_BUDGET = 60  # seconds of CPU for replaying one case, which normally takes milliseconds


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUST_LOG"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = sorted(
                os.path.join(d, f)
                for d, ds, fs in os.walk(base)
                if not any(p in d.split(os.sep) for p in ("target", ".git"))
                for f in fs
            )
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def binary(rt):
    return os.path.join(TARGET, rt, "debug", "harness")


def build(rt, jobs):
    """Builds one runtime. Freshness is decided by content, not by modification times."""
    d = os.path.join(TARGET, rt)
    os.makedirs(d, exist_ok=True)
    stamps = {
        "tower-lsp": [f"{REPO}/src", f"{REPO}/Cargo.toml"],
        "tower-lsp-macros": [f"{REPO}/tower-lsp-macros"],
        "harness": [f"{HARNESS}/src", f"{HARNESS}/Cargo.toml", f"{HARNESS}/Cargo.lock"],
    }
    base = ["--offline", "--target-dir", d, "--manifest-path", f"{HARNESS}/Cargo.toml"]
    stale = []
    for pkg, paths in stamps.items():
        f = os.path.join(d, f"{pkg}.stamp")
        now = tree_hash(paths)
        old = open(f).read() if os.path.exists(f) else None
        if old != now:
            stale.append((pkg, f, now))
    if stale and os.path.exists(os.path.join(d, "debug")):
        args = [a for pkg, _, _ in stale for a in ("-p", pkg)]
        subprocess.run(["cargo", "clean", *base, *args], env=env(), cwd=HARNESS, capture_output=True)
    for _, f, _ in stale:
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run(
        ["cargo", "build", "-q", "-j", str(jobs), *base, "--features", f"rt-{rt}"],
        env=env(), cwd=HARNESS, capture_output=True, text=True,
    )
    if r.returncode != 0:
        raise CheckError(f"building the harness ({rt}) failed:\n{r.stderr[-6000:]}")
    for _, f, now in stale:
        with open(f, "w") as fh:
            fh.write(now)


def build_all():
    jobs = max(2, (os.cpu_count() or 8) // 2)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(build, rt, jobs) for rt in RUNTIMES]:
            f.result()


def limits(cpu=None):
    def apply():
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return apply


def parked(pid):
    """Number of context switches of all threads of our child if each of them sleeps, else None."""
    total = 0
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/status") as f:
                text = f.read()
            if not re.search(r"^State:\s+S", text, re.M):
                return None
            total += sum(int(n) for n in re.findall(r"ctxt_switches:\s+(\d+)", text))
    except OSError:
        return None
    return total


def replay(rt, path):
    """(verdict, text): 'pass', 'fail', 'crash', 'hang' or 'error'."""
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen([binary(rt), "replay", path], env=env(), cwd=VERIF, stdout=out, stderr=out,
                             preexec_fn=limits(CPU_BUDGET))
        last, still, deadlock = None, 0, False
        for _ in range(600):
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                # Blocked for good: every thread sleeps and none has run for a while.
                now = parked(p.pid)
                still = still + 1 if now is not None and now == last else 0
                last = now
                if still >= 40:
                    deadlock = True
                    break
        over = p.poll() is None
        if over:
            p.kill()
            p.wait()
        out.seek(0)
        text = out.read().decode(errors="replace").strip()[-3000:]
    if deadlock:
        return "hang", "deadlock: every thread is blocked"
    if over:
        return "error", "the replay did not end, though it used little CPU time"
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "hang", f"still running after {CPU_BUDGET} s of CPU time"
    if p.returncode < 0:
        return "crash", f"killed by signal {-p.returncode}: {text}"
    return {0: "pass", 1: "fail"}.get(p.returncode, "error"), text


def save(prop, rt, value):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{value.get('campaign', 'x')}-{rt}.json")
    with open(path, "w") as f:
        json.dump(value, f, indent=1)
    return path


def campaign_run(prop, rt, tier, seed, shards, journal=None, again=True, guided=None):
    """(exit code, results, None) or (1, None, (replay file, text)). `guided`: (binary, seconds per campaign)."""
    tmp = os.path.join(TARGET, rt, f"guided-{seed}" if guided else "run")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    out, hang = os.path.join(tmp, "out.json"), os.path.join(tmp, "hang.json")
    cmd = [guided[0] if guided else binary(rt), "run", prop, "--seed", str(seed), "--tier", tier, "--shards", str(shards),
           "--out", out, "--hang-file", hang,
           "--max-secs", str(500 if tier == "quick" else 6 * 3600)]
    if guided:
        cmd += ["--guided", str(guided[1])]
    if journal:
        cmd += ["--journal", os.path.join(tmp, "journal")]
    r = subprocess.run(cmd, env=env(), cwd=VERIF, capture_output=True, text=True, errors="replace",
                       preexec_fn=limits())
    if r.returncode in (0, 1, 2) and os.path.exists(out):
        with open(out) as f:
            return r.returncode, json.load(f), None
    if r.returncode == 3:
        with open(hang) as f:
            v = json.load(f)
        path = save(prop, rt, v)
        verdict, text = replay(rt, path)
        if verdict in ("hang", "crash", "fail"):
            return 1, None, (path, text)
        if again:
            return campaign_run(prop, rt, tier, seed, shards, journal, again=False, guided=guided)
        if "threads" in v.get("campaign", ""):
            # It depends on timing, and hung twice.
            return 1, None, (path, "a case on real threads did not finish, twice")
        raise CheckError(f"{prop} ({rt}): a case timed out, but its replay ends with: {verdict} {text}")
    if r.returncode < 0:
        if journal is None:
            # Run again, noting each case before it is executed.
            return campaign_run(prop, rt, tier, seed, shards, journal=True, guided=guided)
        for n in sorted(os.listdir(tmp)):
            if n.startswith("journal."):
                with open(os.path.join(tmp, n)) as f:
                    v = json.load(f)
                path = save(prop, rt, v)
                verdict, text = replay(rt, path)
                if verdict in ("hang", "crash", "fail"):
                    return 1, None, (path, text)
                os.unlink(path)
        raise CheckError(f"{prop} ({rt}): killed by signal {-r.returncode}; no single case reproduces it")
    raise CheckError(f"{prop} ({rt}): exit {r.returncode}: {r.stderr[-3000:]}")


def guided_runs(prop, seed):
    """Searches guided by coverage: a process for each seed and runtime. Yields (runtime, result of the run)."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import guided
    cpus = os.cpu_count() or 8
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            bins = dict(zip(RUNTIMES, ex.map(
                lambda rt: guided.build(HARNESS, TARGET, rt, env(), max(2, cpus // 2)), RUNTIMES)))
    except (RuntimeError, ValueError) as e:
        raise CheckError(str(e))
    secs = float(os.environ.get("VERIF_GUIDED_SECS", "150"))
    with concurrent.futures.ThreadPoolExecutor(cpus) as ex:
        futs = [(rt, ex.submit(campaign_run, prop, rt, "thorough", seed * 1000 + i, 1, guided=(bins[rt], secs)))
                for rt in RUNTIMES for i in range(max(1, cpus // 2))]
        for rt, f in futs:
            yield rt, f
    shutil.rmtree(os.path.join(TARGET, "guided"), ignore_errors=True)


def known(prop):
    """Entries 'known: property=ID runtime=RT replay=PATH signature=TEXT | description'."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) runtime=(\S+) replay=(\S+) signature=\"([^\"]*)\" \| (.*)", line)
        if m and m.group(1) == prop:
            yield m.groups()[1:]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_all()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build_all()
    t_build = time.time() - t0
    violations, infos, campaigns, errors = [], [], [], []

    def collect(rt, future, suffix):
        try:
            _, res, bad = future.result()
        except CheckError as e:
            errors.append(str(e))
            return
        if bad:
            violations.append(bad)
            return
        for c in res["campaigns"]:
            if "failure" in c:
                violations.append((save(prop, rt, c["failure"]["replay"]), c["failure"]["message"]))
            if "harness_error" in c:
                errors.append(c["harness_error"])
            c["name"] += suffix
            campaigns.append((rt, c))

    # Saved inputs: past failures that must stay fixed, and known findings.
    n_regress = 0
    d = os.path.join(VERIF, "regress", prop)
    for name in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        path = os.path.join(d, name)
        for rt in RUNTIMES:
            verdict, text = replay(rt, path)
            n_regress += 1
            if verdict in ("fail", "crash", "hang"):
                violations.append((path, text))
            elif verdict == "error":
                errors.append(f"replay of {path}: {text}")
    for rt, path, signature, what in known(prop):
        full = os.path.join(VERIF, path)
        verdict, text = replay(rt, full)
        if verdict == "fail" and signature in text:
            infos.append(f"KNOWN-FINDING: property={prop} {what}")
        elif verdict in ("fail", "crash", "hang"):
            violations.append((full, text))
        elif verdict == "error":
            errors.append(f"replay of {full}: {text}")

    if not violations and not errors:
        shards = max(1, (os.cpu_count() or 8) // 2)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            futs = [(rt, ex.submit(campaign_run, prop, rt, tier, seed, shards)) for rt in RUNTIMES]
            for rt, f in futs:
                collect(rt, f, "")
        if tier == "thorough" and not violations and not errors:
            for rt, f in guided_runs(prop, seed):
                collect(rt, f, " (guided)")

    evals = sum(c["evaluations"] for _, c in campaigns) + n_regress
    rules = {c["name"]: c["rule"] for _, c in campaigns}
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for _, c in campaigns),
            "rule": " || ".join(f"{n}: {re.sub(r'[ ]+', ' ', r)}" for n, r in rules.items()) or "saved inputs only",
            "samples": [dict(s, runtime=rt) for rt, c in campaigns for s in c["samples"]][:8],
            "saved_inputs_replayed": n_regress,
            "campaigns": [
                {k: v for k, v in c.items() if k not in ("samples", "rule", "failure")} | {"runtime": rt}
                for rt, c in campaigns
            ],
        },
        "assumptions": [
            "cases are sampled, not exhaustive; both runtimes (tokio, agnostic) run the same oracles",
            "the harness's executor polls a task only after its waker fired, in generated order",
        ],
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for i in infos:
        print(i)
    print(f"{prop}: {evals} cases in {evidence['wall_s']} s (build {evidence['build_s']} s)")
    for path, text in violations:
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + text.replace("\n", "\n  ")[:2000])
    if violations:
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
