#!/usr/bin/env python3
"""Runs the check of one property: ./run.py C01 [--replay FILE]; ./run.py setup builds everything once.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402
import buildtui  # noqa: E402

EXIT_RUNAWAY = {41: "does not terminate (CPU time)", 42: "does not terminate (memory)"}


def log(*a):
    print(*a, flush=True)


def go_env():
    env = dict(os.environ)
    env.update({
        "HOME": "/root",
        "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly -buildvcs=false", "GOWORK": "off",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GOTRACEBACK": "all",
    })
    for k in ("GODEBUG", "GOGC", "GOEXPERIMENT", "GOARCH", "GOOS"):
        env.pop(k, None)
    return env


def sh(cmd, cwd, env, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


class Infra(Exception):
    pass


def build(check, out, env):
    """Builds the check's binaries from /repo's working tree."""
    e = dict(env)
    cmd = ["go", "test", "-c", "-o", os.path.join(out, "check.test")]
    if check.get("race"):
        cmd.append("-race")
        e["CGO_ENABLED"] = "1"
    cmd.append("./" + check["pkg"])
    rc, o = sh(cmd, os.path.join(HERE, "harness"), e)
    if rc != 0:
        raise Infra("building the check fails:\n" + o)
    for tool in check.get("tools", []):
        if tool == "bbn":
            rc, o = sh(["go", "build", "-o", os.path.join(out, "bbn"), "./cmd/bbn"], REPO, env)
            if rc != 0:
                raise Infra("building bbn fails:\n" + o)
        elif tool == "bbni":
            buildtui.build(REPO, os.path.join(out, "bbni"), env, sh, Infra)


def run_shard(k, shards, check, bindir, work, env, conf, results):
    d = os.path.join(work, "shard%d" % k)
    os.makedirs(d)
    e = dict(env)
    e.update({
        "VX_SEED": str(conf["seed"] * 1000003 + k * 7919 + 1), "VX_SCALE": str(conf["scale"]), "VX_BUDGET_S": str(conf["budget"]),
        "VX_STATS": os.path.join(d, "stats.json"), "VX_SHARD": str(k), "VX_SHARDS": str(shards), "VX_TIER": conf["tier"],
        "VX_BBN": os.path.join(bindir, "bbn"), "VX_BBNI": os.path.join(bindir, "bbni"), "VX_REPO": REPO,
        "TMPDIR": d, "GOMAXPROCS": str(check.get("gomaxprocs", 2)),
    })
    e.update(conf.get("env", {}))
    cmd = [os.path.join(bindir, "check.test"), "-test.run", "^Test%s$" % check["id"], "-test.timeout", "0",
           "-rapid.shrinktime", "20s"] + conf.get("args", [])
    if check.get("race"):
        e["GORACE"] = "halt_on_error=0 exitcode=66"
    path = os.path.join(d, "log.txt")
    try:
        with open(path, "wb") as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=conf["hard"])
            except subprocess.TimeoutExpired:
                rc = "timeout"
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
    except OSError as ex:
        results[k] = ("error", str(ex), d)
        return
    results[k] = (rc, path, d)


def run_fuzz(check, work, env, seconds):
    """Coverage-guided fuzzing of the check's fuzz targets: (executions by target, [(target, log, failing input)])."""
    execs, found = {}, []
    for target in check["fuzz"]:
        d = os.path.join(work, target)
        os.makedirs(d)
        exe = os.path.join(d, "fuzz.test")
        rc, o = sh(["go", "test", "-c", "-fuzz=%s" % target, "-o", exe, "./" + check["pkg"]], os.path.join(HERE, "harness"), env)
        if rc != 0:
            raise Infra("building %s fails:\n%s" % (target, o))
        e = dict(env, VX_REPO=REPO, TMPDIR=d)
        rc, o = sh([exe, "-test.run", "^$", "-test.fuzz", "^%s$" % target, "-test.fuzztime", "%ds" % seconds, "-test.fuzzminimizetime", "200x",
                    "-test.fuzzcachedir", os.path.join(d, "cache"), "-test.parallel", "8"], d, e, timeout=seconds + 600)
        m = re.findall(r"execs: (\d+)", o)
        execs[target] = int(m[-1]) if m else 0
        inputs = glob.glob(os.path.join(d, "testdata", "fuzz", target, "*"))
        if rc == 1 and inputs:
            with open(inputs[0]) as fh:
                found.append((target, o[-100000:], fh.read()))
        elif rc == 1 and re.search(r"^\s*--- FAIL", o, re.M) and "deadline" not in o:
            found.append((target, o[-100000:], None))
        elif rc != 0 and "deadline" not in o:
            raise Infra("%s ends with %r:\n%s" % (target, rc, o[-4000:]))
    return execs, found


def replay_fuzz(check, replay, work, bindir, env):
    d = os.path.join(work, "replay")
    corpus = os.path.join(d, "testdata", "fuzz", replay["test"])
    os.makedirs(corpus)
    if replay["fuzz_input"]:
        with open(os.path.join(corpus, "input"), "w") as fh:
            fh.write(replay["fuzz_input"])
    return sh([os.path.join(bindir, "check.test"), "-test.run", "^%s$" % replay["test"], "-test.timeout", "300s"], d,
              dict(env, VX_REPO=REPO, TMPDIR=d))


def tail(path, n):
    with open(path, "rb") as f:
        b = f.read()
    s = b.decode("utf-8", "replace")
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def classify(rc, text):
    """'ok', 'violation' or 'infra' and a reason."""
    if rc == 0:
        return "ok", ""
    if rc in EXIT_RUNAWAY:
        return "violation", EXIT_RUNAWAY[rc]
    if "INFRA:" in text:
        return "infra", "the harness reports a problem of its own"
    if rc == 1 and re.search(r"^\s*--- FAIL", text, re.M):
        return "violation", "property failed"
    if rc == 66 or "WARNING: DATA RACE" in text:
        return "violation", "data race"
    if rc == 2 and re.search(r"^(fatal error|panic|runtime): ", text, re.M) and "out of memory" not in text:
        return "violation", "crash"
    return "infra", "unexpected end (%r)" % (rc,)


def write_replay(check, conf, k, shards, rc, path, d, reason):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    text = tail(path, 400000)
    fail = sorted(glob.glob(os.path.join(d, "testdata", "rapid", "**", "*.fail"), recursive=True))
    rep = {"property": check["id"], "reason": reason, "seed": conf["seed"], "tier": conf["tier"], "scale": conf["scale"],
           "shard": k, "shards": shards, "exit": rc, "log": text}
    if fail:
        f = fail[0]
        rep["test"] = os.path.basename(os.path.dirname(f))
        with open(f) as fh:
            rep["rapid_failfile"] = fh.read()
        m = re.search(r"--- FAIL: (Test\S+/\S+)", text)
        if m:
            rep["test"] = m.group(1)
    out = os.path.join(HERE, "replays", "%s-seed%s-shard%d.json" % (check["id"], conf["seed"], k))
    with open(out, "w") as fh:
        json.dump(rep, fh, indent=1)
    return out


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        log(__doc__)
        return 2
    env = go_env()
    if sys.argv[1] == "setup":
        tmp = tempfile.mkdtemp(prefix="vx-setup-")
        try:
            seen = set()
            for c in CHECKS.values():
                key = (c["pkg"], c.get("race"), tuple(c.get("tools", [])))
                if key in seen:
                    continue
                seen.add(key)
                build(c, tmp, env)
        except Infra as ex:
            log(str(ex))
            return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        log("setup done in %.0f s" % (time.time() - t0))
        return 0
    prop = sys.argv[1]
    if prop not in CHECKS:
        log("unknown property", prop)
        return 2
    check = dict(CHECKS[prop], id=prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    conf = {"seed": seed, "tier": tier, "scale": check["quick" if tier == "quick" else "thorough"],
            "budget": 300 if tier == "quick" else 2400, "hard": 800 if tier == "quick" else 3600}
    if os.environ.get("VX_SCALE_PCT"):
        conf["scale"] = max(1, conf["scale"] * int(os.environ["VX_SCALE_PCT"]) // 100)
    conf["env"] = {}
    for key, _ in known_findings(prop):
        conf["env"].setdefault("VX_KNOWN", "")
        conf["env"]["VX_KNOWN"] += key + ","
    shards = check.get("shards", 8)
    work = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    try:
        bindir = os.path.join(work, "bin")
        os.makedirs(bindir)
        try:
            build(check, bindir, env)
        except (Infra, subprocess.TimeoutExpired) as ex:
            log(str(ex))
            return 2
        t1 = time.time()
        todo = range(shards)
        if replay and "fuzz_input" in replay:
            rc, o = replay_fuzz(check, replay, work, bindir, env)
            log(o[-20000:])
            if rc != 0:
                log("VIOLATION property=%s replay=%s" % (prop, sys.argv[sys.argv.index("--replay") + 1]))
                return 1
            log("replay does not fail any more")
            return 0
        if replay:
            conf["scale"] = replay["scale"]
            todo = [replay["shard"]]
            if "rapid_failfile" in replay:
                ff = os.path.join(work, "replay.fail")
                with open(ff, "w") as fh:
                    fh.write(replay["rapid_failfile"])
                conf["args"] = ["-rapid.failfile", ff, "-test.v"]
                if "/" in replay.get("test", ""):
                    t, s = replay["test"].split("/", 1)
                    conf["args"] += ["-test.run", "^%s$/^%s$" % (t, s)]
        results = {}
        threads = [threading.Thread(target=run_shard, args=(k, shards, check, bindir, work, env, conf, results)) for k in todo]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        violations, infra = [], []
        cov = {"evaluations": 0, "by_part": {}, "labels": {}, "skipped_after_deadline": 0}
        hashes, samples, known = set(), {}, {}
        for k in sorted(results):
            rc, path, d = results[k]
            if rc == "error":
                infra.append(path)
                continue
            text = tail(path, 2000000)
            kind, reason = classify(rc, text)
            if kind == "violation":
                if replay:
                    log(tail(path, 20000))
                    violations.append((sys.argv[sys.argv.index("--replay") + 1], reason))
                else:
                    violations.append((write_replay(check, conf, k, shards, rc, path, d, reason), reason))
                    log("---- shard %d: %s" % (k, reason))
                    log("\n".join(x for x in tail(path, 60000).splitlines() if "[rapid] draw" not in x)[:6000])
            elif kind == "infra":
                infra.append("shard %d: %s\n%s" % (k, reason, tail(path, 6000)))
            sp = os.path.join(d, "stats.json")
            if os.path.exists(sp):
                st = json.load(open(sp))
                cov["evaluations"] += st["evaluations"]
                cov["skipped_after_deadline"] += st["skipped_after_deadline"]
                for m in ("by_prop", "labels", "known"):
                    dst = {"by_prop": cov["by_part"], "labels": cov["labels"], "known": known}[m]
                    for a, b in (st[m] or {}).items():
                        dst[a] = dst.get(a, 0) + b
                hashes.update(st["hashes"] or [])
                for a, b in (st["samples"] or {}).items():
                    samples.setdefault(a, b)
        if replay:
            if violations:
                log("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
                return 1
            for x in infra:
                log(x)
            log("replay does not fail any more")
            return 2 if infra else 0
        if tier == "thorough" and check.get("fuzz") and not violations:
            try:
                cov["fuzz_executions"], found = run_fuzz(check, work, env, int(os.environ.get("VX_FUZZ_S", "300")))
                for target, text, inp in found:
                    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                    out = os.path.join(HERE, "replays", "%s-%s.json" % (prop, target))
                    with open(out, "w") as fh:
                        json.dump({"property": prop, "reason": "fuzzing", "seed": seed, "tier": tier, "scale": conf["scale"], "shard": 0,
                                   "test": target, "fuzz_input": inp, "log": text}, fh, indent=1)
                    log("---- %s\n%s" % (target, text[-6000:]))
                    violations.append((out, "fuzzing"))
            except (Infra, subprocess.TimeoutExpired) as ex:
                infra.append(str(ex))
        cov["distinct_nontrivial"] = len(hashes)
        cov["rule"] = check["rule"]
        cov["samples"] = [{"part": a, "case": b} for a, b in sorted(samples.items())]
        cov["shards"] = shards
        cov["run_s"] = round(time.time() - t1, 1)
        if known:
            cov["known_finding_hits"] = known
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        for key, what in known_findings(prop):
            if known.get(key):
                log("KNOWN-FINDING: property=%s %s" % (prop, what))
        log("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (prop, cov["evaluations"], len(hashes), cov["skipped_after_deadline"], time.time() - t0))
        if violations:
            log("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
            return 1
        if infra:
            for x in infra:
                log("NO ANSWER:", x)
            return 2
        if cov["evaluations"] == 0:
            log("NO ANSWER: nothing was run")
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
