#!/usr/bin/env python3
"""check.py CXX: builds the monitor of one property against /repo's working tree, runs it, judges and records.

exit 0: held on everything observed; 1: VIOLATION line; 2: no verdict (build trouble, killed, nothing observed)."""
import json, os, re, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
WORK = os.path.join(V, "work")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}

sys.path.insert(0, V)
from rules import RULES  # noqa: E402


def log(*a):
    print(*a, flush=True)


def no_verdict(why):
    log(f"NO-VERDICT: {why}")
    sys.exit(2)


def sh(cmd, timeout=None, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, input=inp)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


class Check:
    def __init__(self, pid):
        self.id = pid
        self.started = time.time()
        self.viols = []  # (what, replay text)
        self.known = []  # known findings seen
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[pid]["rule"], "samples": []}
        self.assumptions = list(RULES[pid].get("assumptions", []))
        self.thorough = TIER == "thorough"
        os.makedirs(WORK, exist_ok=True)

    def left(self):
        """seconds left of the check's time"""
        return (840 if not self.thorough else 6 * 3600) - (time.time() - self.started)

    def build(self, bins, toolchain=None, target=None, env=None, tdir="target", quiet=False, extra=(), pkg=""):
        e = {"CARGO_TARGET_DIR": os.path.join(H, tdir), "CARGO_NET_OFFLINE": "true", "GEN_DIR": os.path.join(H, "gen")}
        e.update(env or {})
        cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", *extra]
        for b in bins:
            cmd += ["--bin", b]
        if target:
            cmd += ["--target", target]
        rc, o, er = sh(cmd, timeout=max(60, self.left()), env=e, cwd=os.path.join(H, pkg))
        if rc != 0:
            if quiet:
                return None, er
            sys.stderr.write(er[-6000:])
            no_verdict(f"the monitor of {self.id} does not build")
        d = os.path.join(H, tdir, target or "", "debug")
        return d, er

    def declare(self, seed, exotic=False, tool="gen_types.py", out="types.rs", args=()):
        """Writes the generated target declarations the gencase workloads include."""
        d = os.path.join(H, "gen")
        os.makedirs(d, exist_ok=True)
        rc, o, er = sh([sys.executable, os.path.join(V, "tools", tool), str(seed), os.path.join(d, out), *args] + (["exotic"] if exotic else []))
        if rc != 0:
            no_verdict("cannot generate declarations: " + er[-500:])

    def violation(self, what, replay):
        self.viols.append((what, replay))

    def run_worker(self, exe, name=None, args=(), env=None, merge=True, secs=None, crash_ok=False):
        """Runs a workload binary to its end; collects violations, confirms crashes and hangs."""
        name = name or os.path.basename(exe)
        out = os.path.join(WORK, f"{name}.json")
        cur = os.path.join(WORK, f"{name}.cur")
        for p in (out, cur):
            if os.path.exists(p):
                os.remove(p)
        cmd = [exe, "--tier", TIER, "--seed", SEED, "--out", out, "--cur", cur, *args]
        if secs:
            cmd += ["--secs", str(int(secs))]
        rc, o, er = sh(cmd, timeout=max(30, self.left()), env=env)
        if rc is None:
            no_verdict(f"{name} ran out of time")
        single = lambda n: [exe, "--tier", TIER, "--seed", SEED, "--case", str(n), *args]
        if rc != 0:
            if rc > 0 and rc != 101 and "Sanitizer" not in er:
                sys.stderr.write(er[-3000:])
                no_verdict(f"{name} ended with exit code {rc}")
            if -rc == signal.SIGKILL:
                no_verdict(f"{name} was killed")
            if "ThreadSanitizer: data race" in er:
                at = er[er.index("ThreadSanitizer: data race"):]
                self.violation(f"data race: {at[:1200]}", f"cmd: {' '.join(cmd)}\n{at[:20000]}")
                return None
            cases = []
            try:
                b = open(cur, "rb").read()
                cases = [x - 1 for (x,) in struct.iter_unpack("<Q", b[: len(b) // 8 * 8]) if x > 0]
            except OSError:
                pass
            log(f"{name} died ({rc}); cases in progress: {cases}")
            for n in cases:
                r1, o1, e1 = sh(single(n), timeout=130, env=env)
                if r1 is not None and (-r1 in CRASH or "Sanitizer" in e1):
                    self.violation(
                        f"the process dies (status {r1}) in case {n}: {tail(e1)}",
                        f"cmd: {' '.join(single(n))}\nstatus: {r1}\n{o1[-6000:]}\n{e1[-12000:]}\n",
                    )
                    break
            else:
                sys.stderr.write(er[-3000:])
                no_verdict(f"{name} died and no case in progress reproduces it")
            return None
        r = json.load(open(out))
        if r["hung"]:
            n = r["violations"][-1]["case"]
            r1, o1, e1 = sh(single(n), timeout=100, env=env)
            if r1 is None:
                self.violation(f"case {n} does not end", f"cmd: {' '.join(single(n))}\nruns longer than 100 s\n{o1[-4000:]}")
            else:
                no_verdict(f"case {n} seemed to hang but ends on its own")
        else:
            for v in r["violations"][:5]:
                r1, o1, e1 = sh(single(v["case"]), timeout=130, env=env)
                again = r1 is not None and "VIOLATION" in o1
                self.violation(
                    f"case {v['case']}: {v['what']}",
                    f"cmd: {' '.join(single(v['case']))}\nreproduced alone: {again}\n{v['what']}\n",
                )
        if merge:
            c = self.cov
            c["evaluations"] += r["evaluations"]
            c["distinct_nontrivial"] += r["distinct"]
            c["samples"] += r["samples"][:5]
            pre = "" if "observed" not in c else name + "."
            c.setdefault("observed", {}).update({pre + k: v for k, v in r["counts"].items()})
            c.setdefault("maxima", {}).update({pre + k: v for k, v in r["max"].items()})
            c.setdefault("cases", {})[name] = r["cases"]
            if r["evaluations"] == 0 and not self.viols:
                no_verdict(f"{name} observed nothing")
        return r

    def need(self, floors):
        """The workload must have reached these kinds of events (on a run that saw no violation)."""
        if self.viols:
            return
        for k, n in floors.items():
            got = self.cov.get("observed", {}).get(k, 0)
            if got < n:
                no_verdict(f"the workload saw only {got} of '{k}' (needs {n})")

    def finish(self):
        ev = {
            "property": self.id,
            "tier": TIER,
            "seed": int(SEED),
            "level": RULES[self.id].get("level", "exploration"),
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 1),
            "violations": len(self.viols),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{self.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log(f"KNOWN-FINDING: property={self.id} {k}")
        if self.viols:
            os.makedirs(os.path.join(V, "replay"), exist_ok=True)
            for i, (w, rep) in enumerate(self.viols[:5]):
                p = os.path.join(V, "replay", f"{self.id}-{TIER}-{SEED}-{i}.txt")
                with open(p, "w") as f:
                    f.write(f"property {self.id} seed {SEED} tier {TIER}\n{rep}\n")
                log(f"{w[:1500]}")
                log(f"VIOLATION property={self.id} replay={p}")
            sys.exit(1)
        if self.cov["evaluations"] == 0 or self.cov["distinct_nontrivial"] == 0:
            no_verdict("nothing was observed")
        log(f"{self.id}: held on {self.cov['evaluations']} evaluations, {self.cov['distinct_nontrivial']} distinct")
        sys.exit(0)


def tail(s, n=600):
    s = s.strip()
    return s[-n:]


def listed(pid):
    """Entries 'finding: property=<id> key=<key> <what>' of the known-findings file."""
    out = {}
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    c = Check(pid)
    import stages

    try:
        getattr(stages, pid, stages.default)(c)
    except SystemExit as e:
        # what was seen before counts
        if e.code != 2 or not c.viols:
            raise
    c.finish()


if __name__ == "__main__":
    main()
