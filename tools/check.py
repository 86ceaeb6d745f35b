#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and searches one property.

usage: check.py PROP [quick|thorough]      (VERIF_SEED, VERIF_TIER)
       check.py --build                    (all configurations)
       check.py --replay FILE

exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(SIM, "target")
REPO = os.path.abspath(os.path.join(VERIF, "..", "repo"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CONFIGS = {"varint": "", "fixed": "fixed", "varint-spec": "spec", "fixed-spec": "fixed,spec"}
# two configurations cover both integer encodings and both vector encodings
QUICK = ["varint-spec", "fixed"]
THOROUGH = ["varint-spec", "fixed", "varint", "fixed-spec"]
JOBS = max(1, min(8, os.cpu_count() or 1))

# runs per configuration in the quick tier, sized to about 25 s on 8 cores
RUNS = json.load(open(os.path.join(HERE, "runs.json")))
QUICK_CAP = 75.0      # seconds per configuration, whatever the machine
THOROUGH_SECS = 420.0  # seconds per configuration


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def src_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "revision-derive")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def build(cfgs):
    os.makedirs(os.path.join(TARGET, "sim-bin"), exist_ok=True)
    lock = open(os.path.join(TARGET, "check.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # cargo trusts timestamps; the content decides here
    now, hf = src_hash(), os.path.join(TARGET, "sim-bin", "source-hash")
    old = open(hf).read() if os.path.exists(hf) else None
    if old is not None and old != now:
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "revision", "-p", "revision-derive"],
                       cwd=SIM, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bins = {}
    for c in cfgs:
        cmd = ["cargo", "build", "--offline", "-q", "-p", "revsim", "--bin", "revsim"]
        if CONFIGS[c]:
            cmd += ["--features", CONFIGS[c]]
        p = subprocess.run(cmd, cwd=SIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="backslashreplace")
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("check: build failed (%s)" % c)
            sys.exit(2)
        # a private copy: a later build may replace the file while this run uses it
        dst = os.path.join(TARGET, "sim-bin", "revsim-%s-%d" % (c, os.getpid()))
        shutil.copy2(os.path.join(TARGET, "debug", "revsim"), dst)
        bins[c] = dst
    open(hf, "w").write(now)
    lock.close()
    return bins


def last_state(f):
    try:
        a = open(f).read().split()
        return int(a[0]), int(a[1])
    except Exception:
        return None


class Worker:
    def __init__(self, n, tmp):
        self.n, self.tmp = n, tmp
        self.state = os.path.join(tmp, "state.%d" % n)
        self.gen = 0
        self.hashes = []
        self.p = None

    def start(self, binary, prop, seed, start, stride, runs, secs):
        self.gen += 1
        self.args = (binary, prop, seed, stride)
        hf = os.path.join(self.tmp, "hash.%d.%d" % (self.n, self.gen))
        self.hashes.append(hf)
        self.out = open(os.path.join(self.tmp, "out.%d.%d" % (self.n, self.gen)), "w+", errors="backslashreplace")
        self.left, self.until = runs, time.time() + secs
        self.p = subprocess.Popen(
            [binary, "work", prop, str(seed), str(start), str(stride), str(runs), "%.1f" % secs, self.state, hf, KNOWN],
            stdout=self.out, stderr=subprocess.DEVNULL)


def explore(binary, prop, seed, total, secs, tmp):
    """Searches indices 0..total; returns statistics and violations."""
    agg = dict(runs=0, nontrivial=0, decisions=0, steps=0, oversize=0, stats={}, known={}, reach={}, cpu=0.0)
    viols, broken = [], []
    ws = []
    end = time.time() + secs
    for n in range(JOBS):
        w = Worker(n, tmp)
        cnt = (total - n + JOBS - 1) // JOBS if total else 1 << 40
        if cnt > 0:
            w.start(binary, prop, seed, n, JOBS, cnt, secs)
            ws.append(w)
    hashes = set()
    live = list(ws)
    grace = None
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w.p.poll()
            if rc is None:
                continue
            live.remove(w)
            w.out.flush(); w.out.seek(0)
            done = None
            for l in w.out.read().split("\n"):
                if l.startswith("VIOL "):
                    viols.append(json.loads(l[5:]))
                elif l.startswith("BROKEN "):
                    broken.append(json.loads(l[7:]))
                elif l.startswith("DONE "):
                    done = json.loads(l[5:])
            w.out.close()
            if done:
                for k in ("runs", "nontrivial", "decisions", "steps", "oversize"):
                    agg[k] += done[k]
                agg["cpu"] += done["secs"]
                for g in ("stats", "known", "reach"):
                    for k, v in done[g].items():
                        agg[g][k] = agg[g].get(k, 0) + v
                rest = w.left - done["runs"]
                secs_left = end - time.time()
                if done["next"] is not None and rest > 0 and secs_left > 0.5 and not viols:
                    w.start(binary, prop, seed, done["next"], JOBS, rest, secs_left)
                    live.append(w)
            elif not getattr(w, "killed", False):
                st = last_state(w.state)
                if st is None:
                    broken.append(dict(msg="worker died with %s before its first run" % rc, seed="0", idx=-1))
                else:
                    sig = signal.Signals(-rc).name if rc < 0 else "exit %d" % rc
                    viols.append({"seed": str(st[1]), "idx": st[0], "class": "abort", "label": "", "msg": "process ended: " + sig})
        if viols and grace is None:
            grace = time.time() + 3
        if grace and time.time() > grace:
            for w in live:
                w.killed = True
                w.p.kill()
    for w in ws:
        for hf in w.hashes:
            try:
                b = open(hf, "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
    agg["distinct"] = len(hashes)
    return agg, viols, broken


def sim(binary, args, timeout, extra=None):
    e = dict(os.environ)
    e.update(extra or {})
    try:
        p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, ""


def read_replay(f):
    d = {}
    for l in open(f, errors="backslashreplace"):
        if l.startswith("trace"):
            break
        k, _, v = l.rstrip("\n").partition(" ")
        d[k] = v
    return d


def write_dead_replay(f, prop, cfg, seed, cls, msg, choices, trace=()):
    fixed, spec = "fixed" in cfg, "spec" in cfg
    with open(f, "w") as o:
        o.write("property %s\nconfig fixed=%s spec=%s\nrunseed %s\n" % (prop, str(fixed).lower(), str(spec).lower(), seed))
        o.write("class %s\nlabel \nmessage %s\nchoices%s\ntrace\n" % (cls, msg, "".join(" %d" % c for c in choices)))


def dead(binary, f, timeout):
    """Does this replay end the process (or hang)?  Such runs cannot report."""
    rc, out = sim(binary, ["replay", f], timeout, {"REVSIM_HANG": "8"})
    if rc is None or rc < 0 or rc > 2:
        return "abort" if rc is not None else "hang"
    if "RESULT hang" in out:
        return "hang"
    return None


def minimise_dead(binary, f, prop, cfg, seed, cls, msg, secs, tmp):
    best = [int(x) for x in read_replay(f).get("choices", "").split()]
    t = os.path.join(tmp, "cand")
    t0 = time.time()

    def still(c):
        write_dead_replay(t, prop, cfg, seed, cls, msg, c)
        return dead(binary, t, 15) == cls

    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < secs:
        i = 0
        while i < len(best) and time.time() - t0 < secs:
            c = best[:i] + best[i + size:]
            if still(c):
                best = c
            else:
                i += size
        size //= 2
    for i in range(len(best)):
        while best[i] and time.time() - t0 < secs:
            c = list(best)
            c[i] //= 2
            if not still(c):
                break
            best = c
    while best and best[-1] == 0:
        best.pop()
    write_dead_replay(f, prop, cfg, seed, cls, msg, best)


def report(binary, cfg, prop, v, n, tmp):
    """Turns a violation into a minimised replay file; returns its path and whether it repeats."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s-%s.replay" % (prop, cfg, v["seed"]))
    log = os.path.join(tmp, "choices")
    if v["class"] in ("abort", "hang"):
        sim(binary, ["one", prop, v["seed"]], 20, {"REVSIM_LOG": log, "REVSIM_HANG": "8"})
        try:
            choices = [int(x) for x in open(log).read().split()]
        except OSError:
            choices = []
        write_dead_replay(f, prop, cfg, v["seed"], v["class"], v["msg"], choices)
        k = dead(binary, f, 30)
        if k is None:
            return f, False
        if k != v["class"]:
            write_dead_replay(f, prop, cfg, v["seed"], k, v["msg"], choices)
        minimise_dead(binary, f, prop, cfg, v["seed"], k, v["msg"], 60, tmp)
        return f, dead(binary, f, 30) == k
    raw = os.path.join(tmp, "raw.replay")
    rc, out = sim(binary, ["one", prop, v["seed"], raw], 120)
    if rc != 1:
        open(f, "w").write("property %s\nconfig %s\nrunseed %s\nclass %s\nmessage %s\n(not repeatable)\n" % (prop, cfg, v["seed"], v["class"], v["msg"]))
        return f, False
    rc, out = sim(binary, ["min", raw, f, "20"], 120)
    if rc != 1:
        shutil.copy(raw, f)
    a = sim(binary, ["replay", f], 120)
    b = sim(binary, ["replay", f], 120)
    res = lambda o: [l for l in o[1].splitlines() if l.startswith("RESULT")]
    return f, a[0] == 1 and res(a) == res(b)


def replay(f):
    d = read_replay(f)
    c = d.get("config", "")
    cfg = [k for k in CONFIGS if ("fixed=true" in c) == ("fixed" in k) and ("spec=true" in c) == ("spec" in k)][0]
    binary = build([cfg])[cfg]
    try:
        if d.get("class") in ("abort", "hang"):
            k = dead(binary, f, 90)
            print("RESULT", k or "none")
            return 1 if k == d["class"] else 0
        rc, out = sim(binary, ["replay", f], 120)
        print(out, end="")
        return rc if rc is not None else 2
    finally:
        os.unlink(binary)


def samples(binary, cfg, prop, seed, n):
    """A few of this run's cases, written out."""
    out = []
    rc, o = sim(binary, ["hash", prop, str(seed), "0", "0"], 60)
    for i in range(n):
        rc, o = sim(binary, ["trace", prop, str(seed), str(3 + 5 * i)], 60)
        l = o.splitlines()
        out.append({"config": cfg, "index": 3 + 5 * i, "result": l[-1][:300] if l else "",
                    "trace": [x[:200] for x in l[:-1][:40]]})
    return out


ASSUME = [
    "the reference model (encoder, upgrade rules, index validator) in sim/core states the published format and rules correctly",
    "values, schedules and faults are sampled: a clean batch is evidence, not proof",
    "debug build with overflow checks; 64-bit little-endian Linux",
]
RULE = ("a case is one simulated run: a pure function of its seed, which draws types, values, builds, schedules and faults; "
        "non-trivial: at least one fault was injected or a concurrent/history action taken; distinct by the hash over every decision and observed event")


def main():
    if sys.argv[1:2] == ["--build"]:
        for b in build(THOROUGH if "--all" in sys.argv else QUICK).values():
            os.unlink(b)
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(os.path.abspath(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfgs = QUICK if tier == "quick" else THOROUGH
    bins = build(cfgs)
    built = time.time() - t0
    tmp = os.path.join(TARGET, "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    rc = 0
    tot = dict(runs=0, nontrivial=0, decisions=0, steps=0, oversize=0, distinct=0, stats={}, known={}, reach={}, cpu=0.0)
    smp, per, notes = [], {}, []
    nviol = 0
    search = 0.0
    mismatch = False
    try:
        for c in cfgs:
            b = bins[c]
            # one seed is one execution: two processes must agree on every event
            h = [sim(b, ["hash", prop, str(seed), "0", "60"], 240, {"REVSIM_X": "y" * k}) for k in (0, 4000)]
            same = h[0] == h[1] and h[0][0] == 0
            s0 = time.time()
            if tier == "quick":
                agg, viols, broken = explore(b, prop, seed, RUNS.get(prop, 20000), QUICK_CAP, tmp)
            else:
                agg, viols, broken = explore(b, prop, seed, 0, THOROUGH_SECS, tmp)
            search += time.time() - s0
            for k in ("runs", "nontrivial", "decisions", "steps", "oversize", "distinct"):
                tot[k] += agg[k]
            tot["cpu"] += agg["cpu"]
            for g in ("stats", "known", "reach"):
                for k, v in agg[g].items():
                    tot[g][k] = tot[g].get(k, 0) + v
            per[c] = {"runs": agg["runs"], "distinct_event_hashes": agg["distinct"], "types_reached": len(agg["reach"]),
                      "repeatable": same}
            done = set()
            for v in viols:
                key = (v["class"], re.sub(r"\d+", "", v["label"]))
                if key in done or len(done) >= 2:
                    continue
                done.add(key)
                nviol += 1
                try:
                    f, again = report(b, c, prop, v, nviol, tmp)
                except Exception as x:  # a violation is told even when its replay cannot be minimised
                    print("check: minimising failed: %r" % x)
                    f, again = os.path.join(VERIF, "replays", "%s-%s-%s.replay" % (prop, c, v["seed"])), False
                    if not os.path.exists(f):
                        write_dead_replay(f, prop, c, v["seed"], v["class"], v["msg"], [])
                print("%s [%s] seed %s: %s: %s: %s%s" % (prop, c, v["seed"], v["label"], v["class"], v["msg"][:400],
                                                        "" if again else "  (replay differs between processes)"))
                print("VIOLATION property=%s replay=%s" % (prop, f))
                rc = 1
            for x in broken:
                print("check: harness error in run %s: %s" % (x.get("seed"), x.get("msg")))
                if rc == 0:
                    rc = 2
            if not same and not viols:
                mismatch = True
                print("check: the same seeds took different courses in two processes (%s)" % c)
            if rc == 1:
                break
            if not viols:
                smp += samples(b, c, prop, seed, 1 if tier == "quick" else 2)
        if mismatch and rc == 0:
            rc = 2
        for k in sorted(tot["known"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for b in bins.values():
            try:
                os.unlink(b)
            except OSError:
                pass
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["distinct"],
            "rule": RULE,
            "samples": smp,
            "runs_per_hour": int(tot["runs"] / max(search, 0.001) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(search, 0.001) * 3600),
            "simulated_time": "the library has no clock; progress is counted in simulated events",
            "simulated_events": tot["steps"],
            "decisions_drawn": tot["decisions"],
            "faults_injected": {k[6:]: v for k, v in sorted(tot["stats"].items()) if k.startswith("fault.")},
            "actions": {k: v for k, v in sorted(tot["stats"].items()) if not k.startswith("fault.")},
            "types_reached": len(tot["reach"]),
            "runs_stopped_by_memory_guard": tot["oversize"],
            "configurations": per,
            "real_code": "all of revision and revision-derive (serialise, deserialise, skip, walk, indexed views) as built from the working tree",
            "stubs": "readers, writers, process randomness, user callbacks, thread scheduling",
        },
        "assumptions": ASSUME,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed=%d: %d runs (%d distinct), build %.0fs, search %.0fs, exit %d" % (prop, tier, seed, tot["runs"], tot["distinct"], built, search, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
