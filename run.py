#!/usr/bin/env python3
"""Run the monitors of one property against /repo's current tree.

    run.py ID [quick|thorough]     0: held on everything observed, 1: VIOLATION line, 2: no verdict
    run.py replay FILE             run one recorded case again
    run.py setup                   nothing persists between runs: only checks that things build
"""
import array
import glob
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", f"{V}/target")
NPROC = 8
sys.path.insert(0, f"{V}/tools")
import plan  # noqa: E402


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def build(crate, asan=False, env=None, features=""):
    """Build a harness crate (it depends on /repo by path)."""
    e = dict(os.environ, CARGO_TARGET_DIR=TARGET + ("/" + features if features else ""), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    cmd = ["cargo"]
    if asan:
        e["CARGO_TARGET_DIR"] = f"{TARGET}/asan"
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        cmd += ["+nightly", "build", "--target", "x86_64-unknown-linux-gnu", "--features", "plain_alloc"]
        out = f"{TARGET}/asan/x86_64-unknown-linux-gnu/release/{crate}"
    else:
        cmd += ["build"]
        out = e["CARGO_TARGET_DIR"] + f"/release/{crate}"
        if features:
            cmd += ["--features", features]
    cmd += ["--release", "--offline", "-q"]
    t = time.time()
    r = subprocess.run(cmd, cwd=f"{V}/harness/{crate}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        say("\n".join(l for l in r.stdout.splitlines() if "warning" not in l)[-4000:])
        raise NoVerdict(f"{crate} does not build")
    say(f"built {crate}{' with AddressSanitizer' if asan else ''} in {time.time() - t:.0f} s")
    return out


def build_sourisd():
    """The daemon and the command-line client, as the repository builds them."""
    e = dict(os.environ, CARGO_TARGET_DIR=TARGET + "/repo", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", f"{REPO}/Cargo.toml", "-p", "sourisd", "-p", "mouse"],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        say("\n".join(l for l in r.stdout.splitlines() if "warning" not in l)[-4000:])
        raise NoVerdict("/repo does not build")
    say(f"built sourisd and mouse in {time.time() - t:.0f} s")
    return f"{TARGET}/repo/debug/sourisd"


def build_shim():
    out = f"{TARGET}/shim.so"
    os.makedirs(TARGET, exist_ok=True)
    r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", out, f"{V}/harness/shim/shim.c", "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        say(r.stdout[-3000:])
        raise NoVerdict("the shim does not build")
    return out


ASAN_ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:max_allocation_size_mb=1024:handle_abort=1:symbolize=0"}


def limited(secs):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (secs, secs + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def nocore():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Result:
    def __init__(self):
        self.evals = 0
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.known = set()
        self.violations = []   # (kind, idx, msg, extra)
        self.harness = []
        self.per_kind = {}
        self.capped = False
        self.seen = set()
        self.inconclusive = []


def prepare_net(work, features=""):
    """The monitor of the daemon, the daemon and the shim between it and libc."""
    with ThreadPoolExecutor() as ex:
        d, s, b = ex.submit(build_sourisd), ex.submit(build_shim), ex.submit(build, "netmon", features=features)
        os.makedirs(f"{work}/scratch", exist_ok=True)
        return b.result(), {"SOURISD": d.result(), "SHIM": s.result(), "NETMON_DIR": f"{work}/scratch"}


def run_one(binary, prop, kind, idx, seed, env, cpu=90, wall=150):
    try:
        p = subprocess.run([binary, "replay", prop, kind, str(idx), str(seed)], env=dict(os.environ, **env), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=wall, preexec_fn=limited(cpu))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return None, "no end in sight"


def campaign(binary, prop, seed, tier, cap, scale, env, work, res, label="", stall=60, shards=NPROC, replayable=True, nice=None):
    """One run of all cases, spread over worker processes that are watched."""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for s in range(shards):
        err = open(f"{work}/err{s}", "wb")
        p = subprocess.Popen([binary, "worker", prop, str(seed), tier, str(s), str(shards), work, str(cap), str(scale)],
                             env=dict(os.environ, **env), stdout=err, stderr=err, preexec_fn=nocore, start_new_session=True)
        procs.append(dict(p=p, s=s, cur=None, at=time.time(), cpu=0, done=False))
    crashed = []
    try:
        while any(not x["done"] for x in procs):
            time.sleep(0.05)
            for x in procs:
                if x["done"]:
                    continue
                rc = x["p"].poll()
                if rc is not None:
                    x["done"] = True
                    if rc == 3 or rc == 101:
                        res.harness.append(f"shard {x['s']}: " + tail(f"{work}/err{x['s']}"))
                    elif rc != 0:
                        crashed.append((x["s"], rc))
                    continue
                cur = read(f"{work}/cur{x['s']}")
                if cur != x["cur"]:
                    x["cur"], x["at"] = cur, time.time()
                elif time.time() - x["at"] > stall:
                    x["p"].kill()
                    x["p"].wait()
                    x["done"] = True
                    crashed.append((x["s"], "stall"))
    finally:
        for x in procs:
            if x["p"].poll() is None:
                try:
                    os.killpg(x["p"].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                x["p"].wait()
    for s in range(shards):
        try:
            d = json.load(open(f"{work}/shard{s}.json"))
        except (OSError, ValueError):
            continue
        res.evals += d["evals"]
        for k, n in d["counters"].items():
            res.counters[label + k] = res.counters.get(label + k, 0) + n
        for k, n in d["maxima"].items():
            res.maxima[k] = max(res.maxima.get(k, 0), n)
        for k, n in d["per_kind"].items():
            res.per_kind[label + k] = res.per_kind.get(label + k, 0) + n
        res.samples += d["samples"]
        res.known |= set(d["known"])
        res.capped |= d["capped"]
        res.harness += [f"{h['kind']} {h['idx']}: {h['msg']}" for h in d["harness"]]
        for v in d["violations"]:
            res.violations.append(dict(kind=v["kind"], idx=v["idx"], msg=v["msg"], how=label or "monitor", data=v.get("data")))
        try:
            a = array.array("Q")
            with open(f"{work}/seen{s}", "rb") as f:
                a.frombytes(f.read())
            res.seen.update(a)
        except OSError:
            pass
    for s, rc in crashed:
        cur = (read(f"{work}/cur{s}") or "").split()
        err = tail(f"{work}/err{s}")
        if len(cur) < 3:
            res.inconclusive.append(f"worker {s} ended with {rc} before its first case: {err}")
            continue
        kind, idx = cur[1], int(cur[2])
        if not replayable:
            res.inconclusive.append(f"worker {s} ended with {rc} in {kind} {idx}: {err}")
            continue
        done = False
        for _ in range(3):
            c, out = run_one(binary, prop, kind, idx, seed, env, cpu=120 if rc == "stall" else 90)
            if c == 1:
                res.violations.append(dict(kind=kind, idx=idx, msg=out[-1500:], how=label or "monitor", data=None))
                done = True
                break
            if c is not None and c not in (0, 3) and c != -signal.SIGKILL:
                what = "ran over its CPU limit" if c == -signal.SIGXCPU else f"ended with {c}"
                keep = out if "Sanitizer" in out else out[-1500:]
                res.violations.append(dict(kind=kind, idx=idx, msg=f"process {what}: {keep[:2500]}", how=label or "monitor", data=None))
                done = True
                break
            if rc == "stall" and c == 0:
                break
        if not done:
            res.inconclusive.append(f"worker {s} ended with {rc} in {kind} {idx}, not reproduced: {err}")


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return None


def tail(p):
    t = read_bytes(p)
    return t[-1500:].decode(errors="replace").strip()


def read_bytes(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""


def known_findings():
    out = {}
    for l in open(f"{V}/known_findings.txt"):
        l = l.strip()
        if l.startswith("known: "):
            f = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
            out[(f["property"], f["key"])] = l[7:].split(" ", 2)[2]
    return out


def check(prop, tier, seed):
    t0 = time.time()
    P = plan.PLAN[prop]
    res = Result()
    work = f"{V}/work/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    notes = {}
    try:
        P["run"](sys.modules[__name__], prop, tier, seed, work, res, notes)
    except NoVerdict as e:
        say(f"no verdict for {prop}: {e}")
        return 2
    known = known_findings()
    code = 0
    for k in sorted(res.known):
        if (prop, k) in known:
            say(f"KNOWN-FINDING: property={prop} {known[(prop, k)]}")
        else:
            res.violations.append(dict(kind="known", idx=0, msg=f"{k} (not a listed finding of {prop})", how="monitor", data=None))
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    for old in glob.glob(f"{V}/evidence/replay/{prop}-*.json"):
        os.remove(old)
    for i, v in enumerate(res.violations[:10]):
        path = f"{V}/evidence/replay/{prop}-{i}.json"
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
        say(f"  {v['how']}: case {v['kind']} {v['idx']}: {v['msg'][:1200]}")
        say(f"VIOLATION property={prop} replay={path}")
        code = 1
    for h in res.harness[:5]:
        say("harness error:", h[:1500])
    for h in res.inconclusive[:5]:
        say("inconclusive:", h[:1500])
    if code == 0 and (res.harness or res.inconclusive):
        code = 2
    short = [k for k, n in P.get("needs", {}).items() if res.counters.get(k, 0) < n and tier == "quick"]
    if code == 0 and short:
        say("observed too little:", {k: res.counters.get(k, 0) for k in short}, "of", {k: P["needs"][k] for k in short})
        code = 2
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.seen), rule=P["rule"], samples=res.samples[:6],
               cases=res.per_kind, observed=dict(sorted(res.counters.items())), largest=res.maxima, stopped_early=res.capped,
               known_findings_seen=sorted(res.known), **notes)
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov, assumptions=P.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(res.violations))
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    say(f"{prop} {tier} seed {seed}: {res.evals} cases, {len(res.seen)} distinct, {len(res.violations)} violations, {time.time() - t0:.0f} s"
        + (" (stopped early)" if res.capped else ""))
    return code


def replay(path):
    d = json.load(open(path))
    P = plan.PLAN[d["property"]]
    if d.get("data"):
        say(json.dumps(d["data"])[:20000])
    if "replay" in P:
        return P["replay"](sys.modules[__name__], d)
    say("this history was recorded while it happened: see the file")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        say(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "setup":
        os.makedirs(f"{V}/evidence", exist_ok=True)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier, seed)
    except KeyboardInterrupt:
        return 2


if __name__ == "__main__":
    sys.exit(main())
