#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness from the current tree of /repo, spreads the search over
several processes with seeds derived from VERIF_SEED, merges what they report,
writes evidence/<ID>.json and prints the verdict."""
import argparse, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin"
T0 = time.time()

# processes, scale of the quick tier, how many times that the thorough tier does, options, and how many seconds
# the thorough tier gives to the coverage-guided search of each check that has one
DEFAULT = dict(shards=6, quick=30, thorough=10, race=False, mem=0, guided=60)
CHECKS = {
    "C01": dict(quick=50),
    "C02": dict(quick=50),
    "C03": dict(quick=18, mem=6 << 30, guided=150),
    "C04": dict(quick=200),
    "C05": dict(quick=50),
    "C06": dict(quick=100),
    "C07": dict(quick=150),
    "C08": dict(quick=60),
    "C09": dict(quick=60),
    "C10": dict(quick=80),
    "C11": dict(quick=8),
    "C12": dict(quick=45),
    "C21": dict(quick=12),
    "C22": dict(quick=10),
    "C23": dict(quick=15),
    "C24": dict(quick=1.5, race=True),
    "C26": dict(quick=9),
    "C27": dict(quick=150),
    "C28": dict(quick=30),
    "C29": dict(quick=15),
    "C30": dict(quick=5),
    "C31": dict(quick=3, race=True),
}


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_", "GO"))}
    e.update(PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="",
             GOWORK="off", GOSUMDB="off", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             LC_ALL="C.UTF-8", TZ="UTC")
    return e


class Broken(Exception):
    pass


def build(scratch, race, guided=False):
    """A copy of go.mod points at the tree under test, so that the committed one stays as it is."""
    mod = os.path.join(scratch, "go.mod")
    text = open(os.path.join(VERIF, "harness", "go.mod")).read()
    open(mod, "w").write(re.sub(r"(replace \S+ => )\S+", r"\g<1>" + REPO, text))
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(scratch, "go.sum"))
    binary = os.path.join(scratch, "g.test" if guided else "h.test")
    cmd = ["go", "test", "-mod=mod", "-modfile=" + mod, "-vet=off", "-c", "-o", binary]
    if race:
        cmd.append("-race")
    if guided:
        cmd.append("-fuzz=FuzzGuided")
    r = subprocess.run(cmd + ["."], cwd=os.path.join(VERIF, "harness"), env=env(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(binary):
        raise Broken("the harness does not build:\n" + r.stdout + r.stderr)
    return binary


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def execute(binary, prop, out, opts, timeout, seed=1, shard=0, shards=1, scale=1.0, tier="quick", replay=None):
    os.makedirs(out, exist_ok=True)
    e = env()
    e.update(VERIF_OUT=out, VERIF_SCALE=repr(scale), VERIF_TIER=tier, VERIF_SHARD=str(shard),
             VERIF_SHARDS=str(shards), GORACE="halt_on_error=1 exitcode=66 history_size=3",
             GOMAXPROCS="4" if opts["race"] else "2", GOTRACEBACK="all")
    if replay:
        e["VERIF_REPLAY"] = replay
    cmd = [binary, "-test.run", "^Test%s_" % prop, "-test.timeout", "0", "-rapid.seed", str(seed), "-rapid.nofailfile",
           "-rapid.shrinktime", "25s"]
    log = os.path.join(out, "log")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=out, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             preexec_fn=limits(opts["mem"]))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    with open(log, "rb") as f:
        data = f.read()
    text = (data[:400000] + (b"\n...\n" + data[-100000:] if len(data) > 500000 else data[400000:])).decode("utf-8", "replace")
    return rc, text


DEATHS = ("WARNING: DATA RACE", "fatal error:", "HANG:", "panic:", "runtime: goroutine stack exceeds")


def guided_search(binary, scratch, prop, opts, seconds, seed):
    """Go's coverage-guided fuzzer on each check of the property that allows for it. Returns what each check reported,
    the failures it wrote down, and the cases that were running if a process died."""
    e = env()
    e.update(VERIF_CHILD="guidable")
    r = subprocess.run([binary], env=e, capture_output=True, text=True, cwd=scratch)
    names = sorted(re.findall(r"^GUIDABLE (Test%s_\w+)$" % prop, r.stdout, re.M))
    reports, fails, died = {}, [], []
    for name in names:
        out = os.path.join(scratch, "g-" + name)
        os.makedirs(out)
        e = env()
        e.update(VERIF_OUT=out, VERIF_GUIDED=name, VERIF_SEED=str(seed), VERIF_TIER="thorough", GOMAXPROCS="2", GOTRACEBACK="all")
        cmd = [binary, "-test.run=^$", "-test.fuzz=^FuzzGuided$", "-test.fuzzcachedir=" + os.path.join(out, "cache"),
               "-test.fuzztime=%ds" % seconds, "-test.parallel=%d" % opts["shards"], "-test.fuzzminimizetime=1x", "-test.timeout=0"]
        r = subprocess.run(cmd, cwd=out, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           preexec_fn=limits(opts["mem"]), text=True, errors="replace", timeout=seconds + 600)
        m = re.findall(r"execs: (\d+).*new interesting: (\d+)", r.stdout)
        subs = {}
        for f in os.listdir(out):
            if re.match(r"stats-\d+\.json$", f):
                merge(subs, json.load(open(os.path.join(out, f)))["subs"])
        for s in subs.values():
            s["rule"] = "choices mutated under coverage guidance: " + s["rule"]
            s["labels"] = dict(s["labels"], **({"inputs that reached something new": int(m[-1][1])} if m else {}))
            s["seconds"] = seconds
            reports[name + " (coverage-guided)"] = s
        mine = [json.load(open(os.path.join(out, f))) for f in sorted(os.listdir(out)) if f.startswith("fail-")]
        fails += mine
        if r.returncode != 0 and not mine:
            for f in os.listdir(out):
                path = re.match(r"current-\d+\.bin$", f) and current_case(out, f)
                if path:
                    died.append((path, r.stdout))
            if not died:
                raise Broken("the guided search of %s ended with %s: %s" % (name, r.returncode, r.stdout[-3000:]))
    return reports, fails, died


def current_case(out, name="current.bin"):
    """The case a process was running when it ended, from the file it had mapped."""
    try:
        data = open(os.path.join(out, name), "rb").read()
    except OSError:
        return None
    n = int.from_bytes(data[:8], "little")
    if n == 0:
        return None
    path = os.path.join(out, name[:-4] + ".json")
    open(path, "wb").write(data[8:8 + n])
    return path


def excerpt(text):
    for mark in DEATHS:
        i = text.find(mark)
        if i >= 0:
            return text[i:i + 3500]
    return text[-2500:]


def save_replay(prop, case):
    d = os.path.join(VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(case, ensure_ascii=False, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(blob + "\n")
    return path


def known_list(prop):
    """Lines 'known: property=<id> key=<key> <text>' of known-findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--shards", type=int, default=None)
    ap.add_argument("--guided", type=int, default=None, help="seconds of coverage-guided search per check")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    opts = dict(DEFAULT, **CHECKS.get(prop, {}))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        if prop == "setup":
            build(scratch, False)
            build(scratch, True)
            return 0
        return check(a, prop, opts, scratch)
    except Broken as b:
        print("CHECK-ERROR: %s" % b)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, prop, opts, scratch):
    binary = build(scratch, opts["race"])
    built = time.time() - T0
    if a.replay:
        rc, text = execute(binary, prop, os.path.join(scratch, "replay"), opts, 800, replay=os.path.abspath(a.replay))
        print(excerpt(text) if rc not in (0, 1) else text[-6000:])
        if "REPLAYING" not in text:
            print("CHECK-ERROR: the file names no case of %s" % prop)
            return 2
        if rc != 0:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        return 0

    shards = a.shards or opts["shards"]
    total = a.scale if a.scale is not None else opts["quick"] * (opts["thorough"] if a.tier == "thorough" else 1)
    timeout = (840 if a.tier == "quick" else 6 * 3600) - built
    results = [None] * shards

    def one(i):
        seed = int.from_bytes(hashlib.sha256(b"%d/%d/%s" % (a.seed, i, prop.encode())).digest()[:6], "big") + 1
        out = os.path.join(scratch, "s%d" % i)
        results[i] = (seed, out) + execute(binary, prop, out, opts, timeout, seed, i, shards, total / shards, a.tier)

    threads = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    fails, broken, subs, known = [], [], {}, {}
    for i, (seed, out, rc, text) in enumerate(results):
        if a.v:
            print("shard %d seed %d rc %s\n%s" % (i, seed, rc, text[-1500:]))
        path = os.path.join(out, "stats.json")
        if os.path.exists(path):
            st = json.load(open(path))
            merge(subs, st["subs"])
            for k, v in st["known"].items():
                known[k] = known.get(k, False) or v
        if rc == 0:
            continue
        mine = [json.load(open(os.path.join(out, f))) for f in sorted(os.listdir(out)) if f.startswith("fail-")]
        if mine:
            fails += mine
            continue
        current = current_case(out)
        died = rc not in (0, 1, 97, "timeout") and any(m in text for m in DEATHS) and "HARNESS-ERROR" not in text
        if not died or not current:
            broken.append("shard %d ended with %s: %s" % (i, rc, text[-3000:]))
            continue
        if fails:  # one confirmed failure is enough
            continue
        case = json.load(open(current))
        case["error"] = excerpt(text)
        again = execute(binary, prop, os.path.join(scratch, "c%d" % i), opts, 300, replay=current, tier=a.tier)
        if again[0] == 0:
            # not its last case alone: the same search once more
            again = execute(binary, prop, os.path.join(scratch, "r%d" % i), opts, timeout, seed, i, shards, total / shards, a.tier)
        if again[0] == 97 or "HARNESS-ERROR" in again[1]:
            broken.append("shard %d: %s" % (i, again[1][-2000:]))
        elif again[0] not in (0, "timeout", -9) or "DATA RACE" in text and REPO + "/" in text:
            fails.append(case)
        elif again[0] == 0:
            print("shard %d ended with %s, which did not happen again: %s" % (i, rc, excerpt(text)[:300]))
        else:
            broken.append("shard %d ended with %s, not confirmed: %s" % (i, rc, excerpt(text)))

    seconds = a.guided if a.guided is not None else opts["guided"] if a.tier == "thorough" else 0
    if seconds and not opts["race"] and not fails and not broken:
        reports, fails, died = guided_search(build(scratch, False, True), scratch, prop, opts, seconds, a.seed)
        subs.update(reports)
        for k, (path, text) in enumerate(died):
            again = execute(binary, prop, os.path.join(scratch, "d%d" % k), opts, 300, replay=path, tier=a.tier)
            if again[0] not in (0, 97, "timeout", -9):
                fails.append(dict(json.load(open(path)), error=excerpt(again[1])))
                break
        if died and not fails:
            print("a process of the guided search ended, which did not happen again: %s" % excerpt(died[0][1])[:1500])

    listed = known_list(prop)
    for k, shows in known.items():
        key = k.split(" ", 1)[1]
        if shows and key in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, listed[key]))
        elif shows:
            fails.append(dict(property=prop, sub="known", error="unlisted finding " + key, case=key))

    write_evidence(a, prop, subs, shards, len(fails))
    if fails:
        seen = set()
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        for f in fails:
            what = f["sub"]
            if what in seen:
                continue
            seen.add(what)
            path = save_replay(prop, f)
            print("%s: %s" % (what, f.get("error", "")[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        raise Broken("\n".join(broken)[:8000])
    ev = sum(s["evaluations"] for s in subs.values())
    if not subs or ev == 0:
        raise Broken("nothing was explored")
    print("%s holds on %d cases (%d distinct non-trivial), build %.0f s, total %.0f s" % (
        prop, ev, sum(len(s["hashes"]) for s in subs.values()), built, time.time() - T0))
    return 0


def merge(into, subs):
    for name, s in subs.items():
        m = into.setdefault(name, dict(evaluations=0, nontrivial=0, hashes=set(), labels={}, samples=[], rule=s["rule"], seconds=0))
        m["evaluations"] += s["evaluations"]
        m["nontrivial"] += s["nontrivial"]
        m["hashes"].update(s["hashes"] or [])
        m["seconds"] = max(m["seconds"], s["seconds"])
        for k, v in s["labels"].items():
            m["labels"][k] = m["labels"].get(k, 0) + v
        for x in s["samples"] or []:
            if len(m["samples"]) < 4:
                m["samples"].append(x)


def write_evidence(a, prop, subs, shards, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    for name in sorted(subs):
        for x in subs[name]["samples"]:
            samples.append({"check": name, "case": x})
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": sum(len(s["hashes"]) for s in subs.values()),
            "rule": " | ".join("%s: %s" % (n, subs[n]["rule"]) for n in sorted(subs)),
            "samples": samples,
            "processes": shards,
            "checks": {n: {"evaluations": s["evaluations"], "nontrivial_cases": s["nontrivial"],
                           "distinct_nontrivial": len(s["hashes"]), "seconds": round(s["seconds"], 1),
                           "distribution": dict(sorted(s["labels"].items(), key=lambda kv: -kv[1])[:60])}
                       for n, s in sorted(subs.items())},
        },
        "wall_s": round(time.time() - T0, 1),
        "violations": violations,
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
