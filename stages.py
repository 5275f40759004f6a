"""What each property's check runs. Default: build and run its one workload binary."""
import concurrent.futures, json, os, re, shutil
from check import H, SEED, CRASH, listed, sh, no_verdict, log


def default(c):
    b = c.id.lower()
    d, _ = c.build([b])
    c.run_worker(os.path.join(d, b))


def declared(c):
    """Workloads over generated target declarations; the thorough tier uses several sets of them."""
    b = c.id.lower()
    for k in range(6 if c.thorough else 1):
        c.declare(int(SEED) + 1000 * k)
        d, _ = c.build([b], pkg="gencase")
        c.run_worker(os.path.join(d, b), name=f"{b}-{k}" if k else b)
        if c.viols:
            break


C07 = C08 = C09 = C10 = C11 = C12 = C13 = C17 = C19 = C25 = declared


def findings(c, judge):
    """Runs the inputs of the known findings, each in its own process. A failure that is listed is reported as known."""
    if c.viols:
        return
    d, _ = c.build(["findings"])
    exe = os.path.join(d, "findings")
    known = listed(c.id)
    for key, bad in judge.items():
        rc, o, e = sh([exe, key], timeout=120)
        what = "does not end" if rc is None else bad(rc, o)
        if not what:
            log(f"finding {key} does not show: {o.strip()[:200]}")
            continue
        c.cov.setdefault("findings_shown", {})[key] = what
        if key in known:
            c.known.append(f"{key}: {known[key]}")
        else:
            c.violation(f"{key}: {what}", f"cmd: {exe} {key}\nstatus {rc}\n{o[-2000:]}\n{e[-2000:]}")


def died(rc, o):
    if rc is None:
        return "does not end"
    if -rc in CRASH:
        return f"the process dies with signal {-rc}"
    if "RETURNED" not in o:
        no_verdict(f"the finding's demonstration ended with {rc}")


def costly(rc, o):
    m = re.search(r"COST (\d+) lookups to skip, (\d+) lookups and (\d+) bytes", o)
    if rc != 0 or not m:
        no_verdict(f"the finding's demonstration ended with {rc}")
    if max(int(x) for x in m.groups()) > 100_000:
        return o.strip()


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"}


def asan(c, b, pkg, cases):
    """The same workload under AddressSanitizer."""
    t = "x86_64-unknown-linux-gnu"
    d, _ = c.build([b], toolchain="nightly", target=t, env={"RUSTFLAGS": "-Zsanitizer=address"}, tdir="target-asan", pkg=pkg)
    os.environ.update(ASAN)
    r = c.run_worker(os.path.join(d, b), name=f"{b}-asan", args=[] if c.thorough else ["--cases", str(cases)])
    if r:
        c.cov["asan"] = {"cases": r["cases"], "evaluations": r["evaluations"]}


def C04(c):
    declared(c)
    if not c.viols:
        asan(c, "c04", "gencase", 30_000)
    findings(c, {"deep-input": died, "endless-type": died})


def C05(c):
    declared(c)
    findings(c, {"zero-size-items": costly})


def differs(rc, o):
    if rc != 0:
        no_verdict(f"the finding's demonstration ended with {rc}")
    if "DIFFERS" in o:
        return "; ".join(x for x in o.strip().split("\n") if "DIFFERS" in x)


def C06(c):
    for k in range(8 if c.thorough else 1):
        c.declare(int(SEED) + 1000 * k, tool="gen_static.py", out="static.rs")
        d, _ = c.build(["c06"], pkg="gencase")
        c.run_worker(os.path.join(d, "c06"), name=f"c06-{k}" if k else "c06")
        if c.viols:
            break
    findings(c, {k: differs for k in ("cow-of-struct", "phantom-field", "string-map", "compact-unit")})


def C23(c):
    b = "c23"
    for k in range(6 if c.thorough else 1):
        c.declare(int(SEED) + 1000 * k, exotic=True)
        d, er = c.build([b], pkg="gencase", quiet=True)
        if d is None:
            # the same package without the generated declarations must build, and the errors must be theirs
            bad = [x for x in er.split("\n\n") if x.startswith("error") and "gen/types.rs" in x]
            if not bad or c.build(["c07"], pkg="gencase", quiet=True)[0] is None:
                no_verdict("the monitor of C23 does not build:\n" + er[-3000:])
            c.violation("a declaration with skipped fields that used to compile no longer does: " + bad[0][:600],
                        f"python3 tools/gen_types.py {int(SEED) + 1000 * k} harness/gen/types.rs exotic; build c23 in harness/gencase\n" + "\n\n".join(bad)[:20000])
            c.cov["evaluations"] += 1
            c.cov["distinct_nontrivial"] += 1
            return
        c.run_worker(os.path.join(d, b), name=f"{b}-{k}" if k else b)
        if c.viols:
            break


def derive_bin(c, pkg, b, seed, n, args):
    """Builds one workload of derived declarations. A declaration that does not compile, though it does without the derive, is a violation."""
    c.declare(seed, tool="gen_derive.py", out="derive.rs", args=[str(n), *args])
    d, er = c.build([b], pkg=pkg, quiet=True)
    if d is not None:
        return d
    bad = [x for x in re.split(r"^(?=error|warning)", er, flags=re.M) if x.startswith("error") and ("gen/derive.rs" in x or "src/bounds.rs" in x)]
    ok, er2 = c.build([b], pkg=pkg, quiet=True, extra=["--features", "control"])
    if not bad or ok is None:
        no_verdict("the monitor of C24 does not build:\n" + (er2 if ok is None else er)[-3000:])
    text = open(os.path.join(H, "gen", "derive.rs")).read().split("\n")

    def around(x):
        m = re.search(r"gen/derive\.rs:(\d+):", x)
        if not m:
            return ""
        k = int(m.group(1)) - 1
        a, z = k, k
        while a > 0 and not text[a].startswith("pub mod h"):
            a -= 1
        while z < len(text) - 1 and not text[z].startswith("} // end"):
            z += 1
        return "\n".join(text[a:z + 1])

    c.violation("a declaration that compiles without the derive does not compile with it: " + bad[0][:800],
                f"python3 tools/gen_derive.py {seed} harness/gen/derive.rs {n} {' '.join(args)}; build {b} in harness/{pkg}\n"
                + "\n\n".join(f"{x[:3000]}\nin\n{around(x)[:6000]}" for x in bad[:6]))
    c.cov["evaluations"] += 1
    c.cov["distinct_nontrivial"] += 1
    return None


def diagnostics(c, extra):
    """What the compiler says of each target of the declarations the derive has to refuse: {target: ([errors], compiled)}"""
    e = {"CARGO_TARGET_DIR": os.path.join(H, "target"), "CARGO_NET_OFFLINE": "true"}
    rc, o, er = sh(["cargo", "check", "--offline", "--keep-going", "--message-format=json", *extra], timeout=max(60, c.left()), env=e,
                   cwd=os.path.join(H, "derivebad"))
    if rc is None:
        no_verdict("the compiler ran out of time")
    out = {}
    for l in o.split("\n"):
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") == "compiler-message" and j["message"]["level"].startswith("error"):
            out.setdefault(j["target"]["name"], [[], False])[0].append(j["message"])
        elif j.get("reason") == "compiler-artifact":
            out.setdefault(j["target"]["name"], [[], False])[1] = True
    return out, er


def C24(c):
    # what has to be refused, with an error at the declaration; without what is wrong with it, all compiles
    names = sorted(x[:-3] for x in os.listdir(os.path.join(H, "derivebad", "src", "bin")))
    got, er = diagnostics(c, ["--bins"])
    good, er2 = diagnostics(c, ["--bins", "--features", "control"])
    if not good.get("scale_decode", [0, True])[1] or "could not compile `scale-decode" in er + er2:
        no_verdict("scale-decode does not build:\n" + er2[-3000:])
    replay = "cargo check --bins --keep-going in harness/derivebad\n"
    for n in names:
        errs, done = got.get(n, ([], False))
        shown = "\n".join(x.get("rendered") or x["message"] for x in errs)
        if done or not errs:
            c.violation(f"{n}: a declaration that cannot be decoded is accepted", replay + n + "\n" + shown + er[-3000:])
        elif "panicked" in shown:
            c.violation(f"{n}: the derive panics: {shown[:600]}", replay + shown)
        elif not all(any(s["is_primary"] and s["file_name"].endswith(f"{n}.rs") for s in x["spans"]) for x in errs if x["spans"]):
            c.violation(f"{n}: the error does not point at the declaration: {shown[:600]}", replay + shown)
        if not good.get(n, ([], False))[1]:
            c.violation(f"{n}: does not compile without what is wrong with it: {[x['message'] for x in good.get(n, ([], 0))[0]][:3]}", replay + er2[-5000:])
        c.cov["evaluations"] += 2
        c.cov["distinct_nontrivial"] += 2
    c.cov["refused_declarations"] = len(names)
    bare, er = diagnostics(c, ["--examples"])
    for n, where in (("bare", "in a crate without the standard library"), ("greedy", "where traits give every type methods by those names")):
        if not bare.get(n, ([], False))[1]:
            c.violation(f"derived types do not compile {where}: {[x['message'] for x in bare.get(n, ([], 0))[0]][:3]}",
                        "cargo check --examples in harness/derivebad\n" + er[-5000:])
        c.cov["evaluations"] += 1
    if c.viols:
        return
    n = 60
    for k in range(8 if c.thorough else 1):
        for pkg, b, *args in (("derivecase", "c24"), ("derivecase", "c24_2018"), ("derivecase", "c24_2024"), ("derivealias", "c24_renamed", "renamed")):
            d = derive_bin(c, pkg, b, int(SEED) + 1000 * k, n, args)
            if d is None:
                return
            few = [] if b == "c24" else ["--cases", "40000"]
            c.run_worker(os.path.join(d, b), name=f"{b}-{k}" if k else b, args=few)
            if c.viols:
                return
    c.need({"pairs": 100, "values": 10000, "errors": 5000, "from_field_lists": 10000})


WASM = "wasm32-unknown-unknown"


def wasm_sysroot():
    """A standard library for 32-bit WebAssembly, built once from the toolchain's own sources. Returns its path or the trouble."""
    h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    out = os.path.join(h, "wasm-sysroot")
    if os.path.exists(os.path.join(out, "ready")):
        return out
    rc, o, e = sh(["rustc", "+nightly", "--print", "sysroot"])
    root = o.strip()
    src = os.path.join(out, "src")
    os.makedirs(src, exist_ok=True)
    open(os.path.join(out, "Cargo.toml"), "w").write('[package]\nname = "empty"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n')
    open(os.path.join(src, "lib.rs"), "w").write("")
    t = os.path.join(out, "target")
    rc, o, e = sh(["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std=std,panic_abort", "--target", WASM,
                   "--config", "source.crates-io.replace-with='v'", "--config", f"source.v.directory='{root}/lib/rustlib/src/rust/library/vendor'"],
                  cwd=out, env={"CARGO_TARGET_DIR": t}, timeout=400)
    if rc != 0:
        no_verdict("no standard library for WebAssembly: " + e[-1500:])
    lib = os.path.join(out, "lib", "rustlib", WASM, "lib")
    os.makedirs(lib, exist_ok=True)
    for d, _, fs in os.walk(os.path.join(t, WASM)):
        for f in fs:
            if (f.endswith(".rlib") or f.endswith(".rmeta")) and "empty" not in f:
                shutil.copy(os.path.join(d, f), lib)
    host = "x86_64-unknown-linux-gnu"
    link = os.path.join(out, "lib", "rustlib", host)
    if not os.path.exists(link):
        os.symlink(os.path.join(root, "lib", "rustlib", host), link)
    open(os.path.join(out, "ready"), "w").write("")
    return out


def done(o):
    m = re.search(r"DONE (\d+) items (\d+) groups, kinds \[([\d, ]+)\], huge (\d+)", o)
    return m and (int(m[1]), int(m[2]), [int(x) for x in m[3].split(",")], int(m[4]))


KINDS = ["targets", "field_lists", "skips", "explorers", "wild_visitors"]


def took(c, plat, ds):
    """Adds up what the shards of one platform played."""
    ds = [d for d in ds if d]
    if not ds:
        return 0
    n = sum(d[0] for d in ds)
    o = c.cov.setdefault("platforms", {})
    o[plat] = {"decodes": n, "registries": sum(d[1] for d in ds), "huge_lengths": sum(d[3] for d in ds),
               **{k: sum(d[2][i] for d in ds) for i, k in enumerate(KINDS)}}
    c.cov["evaluations"] += n
    return n


def C21(c):
    h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    c.declare(int(SEED))
    pool = concurrent.futures.ThreadPoolExecutor(16)
    gen = os.path.join(h, "gen")
    cache = os.path.join(h, "miri-cache")
    menv = {"XDG_CACHE_HOME": cache, "MIRIFLAGS": "-Zmiri-disable-isolation", "CARGO_TARGET_DIR": os.path.join(h, "target-miri"),
            "CARGO_NET_OFFLINE": "true", "GEN_DIR": gen}
    plats = {"s390x-unknown-linux-gnu": 5, "i686-unknown-linux-gnu": 2, "x86_64-unknown-linux-gnu": 1}
    if c.thorough:
        plats = {"s390x-unknown-linux-gnu": 3, "powerpc-unknown-linux-gnu": 2, "i686-unknown-linux-gnu": 2, "x86_64-unknown-linux-gnu": 1}

    def wasm():
        out = wasm_sysroot()
        flags = f"--sysroot {out} -Cpanic=abort -Clink-arg=--export=c21_alloc -Clink-arg=--export=c21_play -Clink-arg=-zstack-size=33554432"
        d, _ = c.build(["plat"], toolchain="nightly", target=WASM, env={"RUSTFLAGS": flags}, tdir="target-wasm", pkg="gencase")
        return os.path.join(d, "plat.wasm")

    def miri(t):
        """The interpreter for one platform, and the player built for it."""
        rc, o, e = sh(["cargo", "+nightly", "miri", "setup", "--target", t], env=menv, timeout=500)
        if rc != 0:
            return "cannot prepare the interpreter: " + e[-800:]
        rc, o, e = sh(["cargo", "+nightly", "miri", "run", "--offline", "--target", t, "--bin", "plat", "/dev/null", "0", "1", "1"],
                      env=menv, cwd=os.path.join(h, "gencase"), timeout=500)
        return None if rc == 0 and "DONE" in o else "the player does not run: " + e[-800:]

    fw = pool.submit(wasm)
    d, _ = c.build(["c21"], pkg="gencase")
    corpus = {k: os.path.join(h, "gen", k) for k in ("corpus", "corpus-small")}
    for p in corpus.values():
        if os.path.exists(p):
            os.remove(p)
    exe = os.path.join(d, "c21")
    c.run_worker(exe, env={"CORPUS": corpus["corpus"]})
    os.environ["SMALL"] = "1"
    c.run_worker(exe, name="c21-small", args=["--cases", "40000" if c.thorough else "4000"], env={"CORPUS": corpus["corpus-small"]})
    del os.environ["SMALL"]
    if c.viols:
        return
    c.cov["natively"] = c.cov["evaluations"]
    # one at a time: they share a target directory
    trouble = {}
    for t in plats:
        trouble[t] = miri(t)
    w = fw.result()
    # 32 bits, little endian, compiled
    node = os.path.join(os.path.dirname(h), "tools", "plat.mjs")
    play = lambda s, n, secs, *one: ["node", "--stack-size=60000", node, w, corpus["corpus"], str(s), str(n), str(secs), *one]
    rs = list(pool.map(lambda s: sh(play(s, 8, 200), timeout=260), range(8)))
    for s, (rc, o, e) in enumerate(rs):
        report(c, "wasm32", o, lambda n: play(0, 1, 200, n))
        if rc is None:
            g = re.findall(r"GROUP (\d+)", e)
            r1, o1, e1 = sh(play(0, 1, 200, g[-1]), timeout=100) if g else (0, "", "")
            if r1 is None:
                c.violation(f"case {g[-1]} does not end on wasm32", "cmd: " + " ".join(play(0, 1, 200, g[-1])))
            else:
                no_verdict("a shard on wasm32 ran out of time")
        elif rc != 0 and not c.viols:
            no_verdict(f"a shard on wasm32 ended with {rc}: {e[-800:]}{o[-500:]}")
    took(c, "wasm32 (32-bit, little-endian)", [done(o) for _, o, _ in rs])
    if c.viols:
        return
    # the others, interpreted
    secs = min(3000 if c.thorough else 170, c.left() - 150)
    jobs = [(t, s, n) for t, n in plats.items() if not trouble[t] for s in range(n)]
    mplay = lambda t, s, n, secs, *one: ["cargo", "+nightly", "miri", "run", "--offline", "--target", t, "--bin", "plat", corpus["corpus-small"], str(s), str(n), str(int(secs)), *one]
    rs = list(pool.map(lambda j: sh(mplay(*j, secs), env=menv, cwd=os.path.join(h, "gencase"), timeout=secs + 120), jobs))
    for t in plats:
        ds = []
        for (p, s, n), (rc, o, e) in zip(jobs, rs):
            if p != t:
                continue
            report(c, t, o, lambda k: mplay(t, 0, 1, 100, k))
            if "Undefined Behavior" in e or "error: memory leaked" in e:
                g = re.findall(r"GROUP (\d+)", e)
                at = e[e.index("error:"):] if "error:" in e else e
                c.violation(f"undefined behaviour on {t}: {at[:500]}", "cmd: " + " ".join(mplay(t, 0, 1, 100, g[-1] if g else "0")) + "\n" + e[-8000:])
            elif rc is not None and rc != 0 and not c.viols:
                no_verdict(f"a shard on {t} ended with {rc}: {e[-1500:]}")
            ds.append(done(o))
        took(c, t, ds)
    if not c.viols and not c.cov["platforms"].get("s390x-unknown-linux-gnu", {}).get("decodes"):
        no_verdict(f"nothing was decoded on a big-endian platform: {trouble}")
    c.cov["not_run"] = {t: x for t, x in trouble.items() if x}


def report(c, plat, o, cmd):
    for l in o.splitlines():
        if l.startswith("MISMATCH") and len(c.viols) < 5:
            m = re.match(r"MISMATCH case (\d+)", l)
            c.violation(f"on {plat}: {l[9:1200]}", f"cmd: {' '.join(cmd(m[1] if m else '0'))}\n(with the corpus made by c21 from the same seed)\n{l}\n")


def C22(c):
    h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    c.declare(int(SEED))
    tsan = "x86_64-unknown-linux-gnu"
    pool = concurrent.futures.ThreadPoolExecutor(8)
    f = pool.submit(lambda: c.build(["c22"], toolchain="nightly", target=tsan, env={"RUSTFLAGS": "-Zsanitizer=thread"}, tdir="target-tsan", pkg="gencase", quiet=True, extra=["-Zbuild-std"]))
    d, _ = c.build(["c22", "plat"], pkg="gencase")
    corpus = os.path.join(h, "gen", "corpus-22")
    if os.path.exists(corpus):
        os.remove(corpus)
    c.run_worker(os.path.join(d, "c22"), env={"CORPUS": corpus})
    if c.viols:
        f.result()
        return
    # the same decodes in fresh processes: in this order, in reverse, and some registries each in a process of its own
    plat = os.path.join(d, "plat")
    play = lambda s, n, env, *one: sh([plat, corpus, str(s), str(n), "300", *one], env=dict(env, FULL="1"), timeout=330)
    n = 0
    cases = []
    for how, env in (("in order", {}), ("in reverse", {"REVERSE": "1"})):
        for rc, o, e in pool.map(lambda s: play(s, 8, env), range(8)):
            report(c, f"a fresh process, {how}", o, lambda k: [plat, corpus, "0", "1", "300", k])
            r = done(o)
            if rc != 0 or not r:
                no_verdict(f"the player ended with {rc}: {e[-500:]}")
            n += r[0]
            cases += re.findall(r"GROUP (\d+)", e)
    some = sorted(set(cases), key=int)
    some = some[:: max(1, len(some) // (2000 if c.thorough else 400))]
    for k, (rc, o, e) in zip(some, pool.map(lambda k: play(0, 1, {}, k), some)):
        report(c, "a fresh process of its own", o, lambda k: [plat, corpus, "0", "1", "300", k])
        r = done(o)
        if rc != 0 or not r:
            no_verdict(f"the player ended with {rc}: {e[-500:]}")
        n += r[0]
    c.cov["evaluations"] += n
    c.cov["in_fresh_processes"] = {"processes": 16 + len(some), "decodes": n, "registries": len(set(cases))}
    d, er = f.result()
    if d is None:
        no_verdict("the monitor does not build for the race detector: " + er[-1500:])
    if c.viols:
        return
    os.environ["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1"
    os.environ["RACY"] = "1"
    r = c.run_worker(os.path.join(d, "c22"), name="c22-tsan", args=["--cases", "60000" if c.thorough else "8000"])
    if r:
        c.cov["race_detector"] = {"cases": r["cases"], "evaluations": r["evaluations"]}
