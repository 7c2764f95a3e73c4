#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

    run.py C07 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: a generated
case breaks the property. Exit 2: the check could not decide (build failure,
timeout, a fault of the harness itself).
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
LIMIT = {"quick": 700, "thorough": 3600}
SHARDS = 8

# CONF: checks per shard and the rule counted by, per property
exec(open(os.path.join(VERIF, "conf.py")).read())


def env(extra=None):
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "")
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off", GO111MODULE="on", CGO_ENABLED="0")
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e.update(extra or {})
    return e


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build(tmp, name, tags=None, race=False):
    out = os.path.join(tmp, name)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        # needs cgo; without it the caller goes on without the race detector
        r = subprocess.run(cmd + ["-race", "."], cwd=HARNESS, env=env({"CGO_ENABLED": "1"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        return out if r.returncode == 0 and os.path.exists(out) else None
    if tags:
        cmd += ["-tags", tags]
    r = subprocess.run(cmd + ["."], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0 or not os.path.exists(out):
        fail("the harness does not build against /repo:\n" + r.stdout[-4000:])
    return out


def seed_for(seed, shard, rnd=0):
    # 0 would mean a random seed to rapid
    return (seed * 1000003 + 7919 * shard + 104729 * rnd + 12345) % (2**62) + 1


REAL_FAIL = re.compile(r"^\s*--- FAIL|^--- FAIL|^panic: |^fatal error: ", re.M)


def classify(text, rc):
    """Decides what a failing process means: 'violation' or an explanation."""
    if "HARNESS-ERROR:" in text:
        return "harness error"
    if rc < 0:
        return "killed by signal %d" % -rc
    if "[rapid] only generated" in text or "[rapid] failed to find" in text:
        return "too many invalid cases"
    if "[rapid] flaky test" in text:
        # a failure that was seen against the real code, although the same
        # input does not fail each time: the harness itself has no state or
        # schedule of its own, so the code's answer varies (map order, pools)
        return "violation"
    if "panic: test timed out" in text:
        return "test timed out"
    if "fatal error: " in text:
        m = re.search(r"fatal error: (.*)", text)
        if ("stack overflow" in m.group(1) or "concurrent map" in m.group(1)) and "/repo/" in text:
            return "violation"
        return "fatal error: " + m.group(1)
    if "[rapid] failed after" in text or "[rapid] panic after" in text or "[verif] failed" in text or "--- FAIL" in text:
        return "violation"
    if "cannot allocate memory" in text:
        return "out of memory"
    return "unexpected exit %d" % rc


def clean_log(text):
    keep, skip = [], False
    for l in text.splitlines():
        if re.match(r"\s*\S+\.go:\d+: \[rapid\] draw ", l):
            skip = True
            continue
        if re.match(r"\s*\S+\.go:\d+: ", l) or l.startswith("---"):
            skip = False
        if not skip:
            keep.append(l)
    return "\n".join(keep)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only warm the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--checks", type=int)
    ap.add_argument("--shards", type=int, default=SHARDS)
    a = ap.parse_args()
    if a.setup:
        with tempfile.TemporaryDirectory(prefix="verif-setup-") as tmp:
            build(tmp, "h.test")
        return
    if a.id not in CONF:
        fail("no check for " + a.id)
    conf = CONF[a.id]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    try:
        rc = run(a, conf, seed, tmp, t0)
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: timeout: %s" % e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def start(conf, tmp, wd, cmd, **kw):
    """Starts a test process; checks that write files do so as nobody, who can
    write nowhere but below its own directory."""
    if conf.get("nobody") and os.geteuid() == 0:
        try:
            os.chmod(tmp, 0o755)
            for d, _, _ in os.walk(wd):
                os.chown(d, 65534, 65534)
            return subprocess.Popen(cmd, user=65534, group=65534, extra_groups=[], **kw)
        except (PermissionError, subprocess.SubprocessError):
            pass
    return subprocess.Popen(cmd, **kw)


def race_env(base, wd):
    """The race detector reports to a file, which the test reads after each case."""
    if "VERIF_RACE" not in base:
        return {}
    log = os.path.join(wd, "race")
    return {"VERIF_RACE_LOG": log, "GORACE": "log_path=%s suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2" % log}


def run(a, conf, seed, tmp, t0):
    base = {"VERIF_PROP": a.id, "VERIF_TIER": a.tier}
    binary = None
    if conf.get("race"):
        binary = build(tmp, "race.test", race=True)
        if binary is None:
            print("note: no race detector here, only results are compared")
        else:
            base["VERIF_RACE"] = "1"
    binary = binary or build(tmp, "h.test")
    if conf.get("purego"):
        base["VERIF_PUREGO_BIN"] = build(tmp, "purego.test", "purego")
    if conf.get("purego") or conf.get("peer"):
        base["VERIF_PEER_BIN"] = binary
    checks = a.checks or conf["q" if a.tier == "quick" else "t"]
    test = conf.get("test", "^Test%s$" % a.id)
    if a.replay:
        return replay(a, binary, base, tmp)
    procs = []
    for s in range(a.shards):
        wd = os.path.join(tmp, "s%d" % s)
        os.makedirs(os.path.join(wd, "tmp"))
        log = open(os.path.join(wd, "log"), "w")
        cmd = [binary, "-test.run", test, "-test.timeout", "0", "-rapid.seed=%d" % seed_for(seed, s), "-rapid.checks=%d" % checks,
               "-rapid.shrinktime=30s" if a.tier == "quick" else "-rapid.shrinktime=120s"]
        p = start(conf, tmp, wd, cmd, cwd=wd, env=env(dict(base, **race_env(base, wd), VERIF_SHARD=str(s), VERIF_SHARDS=str(a.shards), VERIF_EVID=os.path.join(wd, "evid.json"),
                             TMPDIR=os.path.join(wd, "tmp"), GOMAXPROCS=str(conf.get("procs", 2)), GOMEMLIMIT="3GiB")),
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((s, p, wd, cmd))
    deadline = t0 + LIMIT[a.tier]
    errors, violations = [], []
    pending = list(procs)
    while pending:
        for item in list(pending):
            s, p, wd, cmd = item
            if p.poll() is not None:
                pending.remove(item)
        if pending and time.time() > deadline:
            for s, p, wd, cmd in pending:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                errors.append("shard %d: time limit" % s)
            break
        time.sleep(0.02)
    for s, p, wd, cmd in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if p.returncode == 0:
            continue
        text = open(os.path.join(wd, "log"), errors="replace").read()
        what = classify(text, p.returncode)
        if what == "violation":
            violations.append((s, wd, text, cmd))
        elif not any(e.startswith("shard %d:" % s) for e in errors):
            errors.append("shard %d: %s\n%s" % (s, what, clean_log(text)[-3000:]))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    for k in known.get("known", []):
        if k["property"] == a.id:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    write_evidence(a, seed, procs, t0, len(violations), conf)
    if violations:
        s, wd, text, cmd = min(violations, key=lambda v: len(v[2]))
        path = save_replay(a, seed, s, wd, text, cmd)
        print(clean_log(text)[:6000])
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if errors:
        print("CHECK-ERROR: " + "\n".join(errors))
        return 2
    return 0


def save_replay(a, seed, shard, wd, text, cmd):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    stem = os.path.join(d, "%s-seed%d-shard%d" % (a.id, seed, shard))
    with open(stem + ".log", "w") as f:
        f.write("# %s\n# cwd %s\n" % (" ".join(cmd), wd) + text)
    fails = glob.glob(os.path.join(wd, "testdata", "rapid", "*", "*.fail"))
    if fails:
        shutil.copy(fails[0], stem + ".fail")
        return stem + ".fail"
    return stem + ".log"


def replay(a, binary, base, tmp):
    wd = os.path.join(tmp, "replay")
    os.makedirs(os.path.join(wd, "tmp"))
    test = CONF[a.id].get("test", "^Test%s$" % a.id)
    cmd = [binary, "-test.run", test, "-test.timeout", "0", "-rapid.nofailfile"]
    if a.replay.endswith(".fail"):
        cmd += ["-rapid.failfile=" + os.path.abspath(a.replay), "-rapid.checks=1"]
    else:
        first = open(a.replay).readline()
        cmd += [x for x in first.split() if x.startswith("-rapid.seed") or x.startswith("-rapid.checks")]
    r = start(CONF[a.id], tmp, wd, cmd, cwd=wd, env=env(dict(base, **race_env(base, wd), TMPDIR=os.path.join(wd, "tmp"))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    out = r.communicate(timeout=900)[0]
    print(clean_log(out))
    if r.returncode == 0:
        return 0
    if classify(out, r.returncode) == "violation":
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return 1
    return 2


def write_evidence(a, seed, procs, t0, nviol, conf):
    evals, hashes, classes, samples, extra = 0, set(), {}, [], {}
    for s, p, wd, cmd in procs:
        try:
            d = json.load(open(os.path.join(wd, "evid.json")))
        except (OSError, ValueError):
            continue
        evals += d["evals"]
        hashes.update(d["hashes"] or [])
        for k, v in (d["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (d["extra"] or {}).items():
            extra[k] = extra.get(k, 0) + v
        if len(samples) < 6:
            samples += (d["samples"] or [])[:2]
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=conf["rule"], samples=samples, classes=dict(sorted(classes.items())))
    if extra:
        cov["extra"] = extra
    out = dict(property=a.id, tier=a.tier, seed=seed, level="exploration", coverage=cov,
               assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
