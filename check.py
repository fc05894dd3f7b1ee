#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's current working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: broken.  Anything else: no verdict.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS

JOBS = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(mode, targets):
    bdir = os.path.join(HERE, ".build", mode if REPO == "/repo" else mode + "-" + hashlib.md5(REPO.encode()).hexdigest()[:8])
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(bdir, "build.log")
    with open(log, "w") as f:
        r = 0
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            r = subprocess.call(["cmake", "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc",
                                 "-DREPO=" + REPO, "-DVF_MODE=" + mode, os.path.join(HERE, "harness")],
                                cwd=bdir, stdout=f, stderr=f)
        if r == 0:
            r = subprocess.call(["ninja"] + targets, cwd=bdir, stdout=f, stderr=f)
    if r != 0:
        sys.stdout.write(open(log, errors="replace").read()[-6000:])
        die("the monitors do not build against the working tree")
    return bdir


def known_findings():
    """key -> text, of the findings that are recorded and not repaired."""
    res = {}
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            res[(m.group(1), m.group(2))] = m.group(3)
    return res


def san_env(logp, uar=1):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=%d:log_path=" % uar + logp
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=97:log_path=" + logp
    e["LC_ALL"] = "C"
    return e


def crash_key(rc, text):
    """Names a crash by what was reported and the frame of the code it was reported in."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    if kind is None:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:60]
    if kind is None:
        m = re.search(r"([\w./]+):\d+: .*Assertion `(.*)' failed", text)
        if m:
            kind = "assert-" + m.group(2)[:60]
    if kind is None and "terminate called" in text:
        m = re.search(r"instance of '([^']*)'", text)
        kind = "terminate-" + (m.group(1) if m else "unknown")
    if kind is None and "MemcheckError" in text:
        kind = "memcheck"
    if kind is None:
        kind = "signal-%d" % (-rc) if rc < 0 else "exit-%d" % rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", text):
        if (REPO + "/") in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    return re.sub(r"\s+", "_", "crash:%s@%s" % (kind, fn))


def unprivileged(work):
    """The code under test writes, removes and runs files: as root it does so as a user who owns nothing but `work`."""
    if os.geteuid() != 0:
        return {}
    who = {"user": 65534, "group": 65534, "extra_groups": []}
    try:
        os.chown(work, 65534, 65534)
        if subprocess.call(["true"], **who) == 0:
            return who
    except (OSError, subprocess.SubprocessError):
        pass
    return {}


class Run:
    def __init__(self, pid, cfg, exe, seed, thorough, work):
        self.pid, self.cfg, self.exe, self.seed, self.thorough, self.work = pid, cfg, exe, seed, thorough, work
        self.fails, self.ends, self.inconclusive, self.crashes = [], [], [], []
        self.digests = {}

    def chunk(self, a, b, tag):
        """Runs cases [a,b); goes on behind a case that crashes."""
        crashes = 0
        part = 0
        while a < b:
            part += 1
            base = os.path.join(self.work, "%s-%d" % (tag, part))
            out, logp, err = base + ".out", base + ".san", base + ".err"
            scratch = base + ".d"
            cmd = [self.exe, "--seed", str(self.seed), "--prop", self.pid, "--from", str(a), "--to", str(b),
                   "--out", out, "--scratch", scratch] + (["--thorough"] if self.thorough else [])
            rc, hung = self.call(cmd, logp, err, out)
            self.collect(out)
            at = a
            try:
                at = int(open(out + ".at").read().split()[0])
            except Exception:
                pass
            shutil.rmtree(scratch, ignore_errors=True)
            if rc == 0:
                return
            if rc == 3:
                self.inconclusive.append("driver could not run in " + scratch)
                return
            text = ""
            for f in sorted(os.listdir(self.work)):
                if f.startswith(os.path.basename(logp)):
                    text += open(os.path.join(self.work, f), errors="replace").read()
            if os.path.exists(err):
                text += open(err, errors="replace").read()
            if hung:
                # A timeout says nothing by itself: the case alone gets a second, longer chance.
                cmd1 = [self.exe, "--seed", str(self.seed), "--prop", self.pid, "--from", str(at), "--to", str(at + 1),
                        "--out", base + ".r.out", "--scratch", scratch] + (["--thorough"] if self.thorough else [])
                rc1, hung1 = self.call(cmd1, base + ".r.san", base + ".r.err", None, limit=120)
                shutil.rmtree(scratch, ignore_errors=True)
                self.collect(base + ".r.out")
                if hung1:
                    self.fails.append({"case": at, "key": "hang", "msg": "the case does not end (every other case takes milliseconds)"})
                elif rc1 != 0:
                    self.fails.append({"case": at, "key": crash_key(rc1, open(base + ".r.err", errors="replace").read()), "msg": "crash"})
            else:
                name = self.probe_name(at)
                key = crash_key(rc, text)
                if name:
                    key = "probe:" + name + "/" + key
                self.fails.append({"case": at, "key": key, "msg": text[:3500]})
            crashes += 1
            if crashes > 12:
                return
            a = at + 1

    def probe_name(self, i):
        return self.probes[i] if i < len(self.probes) else None

    def call(self, cmd, logp, err, out, limit=None):
        limit = limit or self.cfg.get("stall", 60)
        with open(err, "w") as e:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=san_env(logp, 0 if self.cfg.get("nouar") else 1),
                                 start_new_session=True, **self.who)
            last, since = None, time.time()
            hung = False
            while True:
                try:
                    rc = p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = None
                if out:
                    try:
                        cur = open(out + ".at").read()
                    except Exception:
                        pass
                if cur != last:
                    last, since = cur, time.time()
                if time.time() - since > limit:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    rc = p.wait()
                    break
        return rc, hung

    def collect(self, out):
        if not os.path.exists(out):
            return
        for line in open(out, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "fail":
                self.fails.append(d)
            elif d["t"] == "end":
                self.ends.append(d)
            elif d["t"] == "digest":
                self.digests[d["case"]] = d["d"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    args = ap.parse_args()
    pid = args.id
    if pid not in PROPS:
        die("unknown property " + pid)
    cfg = PROPS[pid]
    thorough = args.tier == "thorough"
    t0 = time.time()
    only = None
    if args.replay:
        r = json.load(open(args.replay))
        args.seed, thorough, only = r["seed"], r["tier"] == "thorough", r["case"]
    bdir = build("asan", [cfg["driver"]])
    t1 = time.time()
    exe = os.path.join(bdir, cfg["driver"])
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        run = Run(pid, cfg, exe, args.seed, thorough, work)
        run.who = unprivileged(work)
        pl = subprocess.run([exe, "--list-probes"], capture_output=True, text=True, env=san_env(work + "/lp"))
        if pl.returncode != 0:
            die("driver does not start: " + pl.stderr[:2000])
        run.probes = pl.stdout.split("\n")[1:-1]
        n = args.cases or cfg["thorough" if thorough else "quick"]
        n += len(run.probes)
        if only is not None:
            run.chunk(only, only + 1, "r")
        else:
            step = max(1, min(cfg.get("chunk", 400), (n + JOBS - 1) // JOBS))
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda a: run.chunk(a, min(a + step, n), "c%d" % a), range(0, n, step)))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings()
    bykey = {}
    for f in sorted(run.fails, key=lambda f: f["case"]):
        bykey.setdefault(f["key"], f)
    seen, bad = [], []
    for k, f in sorted(bykey.items(), key=lambda kf: kf[1]["case"]):
        if (pid, k) in known:
            seen.append(k)
        else:
            bad.append((k, f))
    events, feats, inputs, states, samples, cases = {}, set(), set(), set(), [], 0
    for e in run.ends:
        cases += e["cases"]
        for k, v in e["events"].items():
            events[k] = events.get(k, 0) + v
        feats.update(e["features"])
        inputs.update(e["inputs"])
        states.update(e["states"])
        if len(samples) < 5:
            samples += e["samples"][:2]
    wall = time.time() - t0
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": len(inputs),
        "rule": cfg["rule"],
        "samples": samples[:6],
        "events_observed": dict(sorted(events.items())),
        "features_reached": sorted(feats)[:400],
        "feature_count": len(feats),
        "directed_cases": len(run.probes),
        "instrumentation": "g++ -fsanitize=address,undefined (every report is fatal), assertions on",
        "inconclusive": run.inconclusive,
        "known_findings_seen": seen,
        "build_s": round(t1 - t0, 1),
    }
    if states:
        cov["distinct_states"] = len(states)
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": args.seed, "level": cfg.get("level", "exploration"),
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(bad)}
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[(pid, k)], k))
    if bad:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, (k, f) in enumerate(bad[:8]):
            path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "seed": args.seed, "tier": "thorough" if thorough else "quick", "case": f["case"],
                       "key": k, "msg": f["msg"]}, open(path, "w"), indent=1)
            print("  broken: %s (case %d): %s" % (k, f["case"], f["msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
        sys.exit(1)
    if only is not None:
        print("replayed case %d: held" % only)
        sys.exit(0)
    missing = [e for e, m in cfg.get("require", {}).items() if events.get(e, 0) < m]
    if run.inconclusive or missing or cases < n:
        die("inconclusive: %s missing events %s, %d of %d cases ran" % (run.inconclusive, missing, cases, n))
    print("%s held on %d cases (%d distinct non-trivial inputs, %d checks, %d features) seed %d in %.0f s" %
          (pid, cases, len(inputs), events.get("checks", 0), len(feats), args.seed, wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
