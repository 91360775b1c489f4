#!/usr/bin/env python3
"""Runs the check of one property: check.py C07   (VERIF_SEED, VERIF_TIER)

exit 0: the property held on everything explored
exit 1: broken, with a line VIOLATION property=<id> replay=<path>
exit 2: no verdict
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
TSAN_TARGET = "x86_64-unknown-linux-gnu"

# properties that promise a result: not ending and dying break them
PROMISE = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C15", "C17", "C18", "C20", "C23", "C24", "C25"}
# what the compiler decides, by probe program
PROBES = {"share": ["C16"], "token": ["C17"], "lexeme": ["C09"], "symbol": ["C01", "C15"]}
PROBE_ERRORS = {"E0277", "E0369", "E0599", "E0310", "E0597", "E0716", "E0505", "E0515"}

RULES = {
    "C01": "a case is a production list built from a seed (random, structured, degenerate, duplicated, shuffled); non-trivial and distinct: at least 2 left-hand sides, counted by digest of the grammar",
    "C02": "a case is a production list, in about half of the cases with one or more malformed productions inserted at random places; distinct by digest of the grammar",
    "C03": "a case is a grammar (random or of a structured family, up to hundreds of symbols) whose sets are computed twice with fresh hash seeds; non-trivial: at least 3 productions and a nullable or recursive symbol; distinct by digest of the grammar",
    "C04": "as C03, for FOLLOW",
    "C05": "a case is a grammar whose whole table is read twice (fresh hash seeds) and compared entry by entry; distinct by digest of the grammar",
    "C06": "a case is a grammar with token sequences (sentences, mutations, truncations, random, hostile), parsed without and with solvers; counted: distinct accepted (grammar, input) pairs whose tree has more than 3 nodes",
    "C07": "a case is an end-marked LL(1) grammar with token sequences decided by an independent predictive recogniser; counted: distinct (grammar, input) pairs of 2 or more tokens",
    "C08": "a case is a grammar with competing productions and token sequences, compared with the reference search; counted: distinct (grammar, input) pairs in which a choice arose",
    "C09": "a case is a grammar with token sequences whose lexemes are all different and counted while alive; counted: distinct (grammar, input) pairs whose result holds 2 or more matched tokens",
    "C10": "a case is a grammar, its analysis, and hostile inputs with and without solvers, each call under a step budget derived from the reference search; counted: distinct (grammar, input) pairs and left-recursive grammars of 3 or more productions",
    "C11": "a case is a grammar with rejected token sequences, each report checked entry by entry against the rules; counted: distinct (grammar, input) pairs whose report has entries",
    "C12": "a case is a grammar, token sequences and solver policies; results with and without solver are compared; counted: distinct (grammar, input, policy) triples",
    "C13": "a case is a grammar, rejected inputs and solver policies; the recorded requests are compared one by one with those of the reference search replayed with the same answers; counted: distinct requests",
    "C14": "a case is a grammar, rejected inputs and repairing policies; the result is compared with the reference search replayed with the recorded repairs; counted: distinct (input, result) pairs with repairs",
    "C15": "a case is a grammar with token sequences parsed on reused, aborted, renamed, reordered, differently typed and differently built parsers, in other environments; counted: distinct (grammar, input) pairs",
    "C16": "a case (scene) is a grammar with inputs whose fresh objects are shared by 2 to 8 (sometimes 9 to 40) threads that parse, query and build, compared with the same operations done alone; counted: distinct orders of the begin and end events of the operations",
    "C17": "a case is a list of tokens of one symbol type, all pairs compared and all tokens copied; distinct by digest of the list",
    "C18": "a case is an LL(1) grammar with token sequences (long lists, deep nesting, errors at the far end) parsed under a budget proportional to the visits of an independent recogniser; counted: distinct (grammar, input) pairs of 8 or more visits",
}
RULES["C19"] = "a case is a grammar with token sequences; bytes in use are compared after repeated whole, interrupted, refused, changing and repaired parses and after building and dropping everything, and the peak is measured for LL(1) grammars; counted: distinct (grammar, input) pairs"
RULES["C20"] = "a case is a grammar (ladders, diamonds, cliques, cycles, nullable runs, random ones) whose sets, table and parser are built under a budget of symbol operations; counted: distinct grammars of 3 or more productions"
RULES["C21"] = "a case is a grammar with token sequences and a solver, built, analysed, queried and parsed while every system call of the process is traced; counted: distinct grammars and (grammar, input) pairs"
RULES["C22"] = "a case is a grammar with token sequences (a part of them wide and flat: balanced trees, long outputs, many retries, tokens behind the end); how far down the stack the library gets is noted by symbols, lexemes and the allocator; counted: distinct grammars of 3 or more productions and (grammar, input) pairs"
RULES["C23"] = "a case is a grammar, mostly with competing productions, with token sequences and solvers; each parse runs under a budget of symbol operations proportional to the visits of the reference search; counted: distinct (grammar, input, solver) triples of 8 or more visits with a choice or a solver"
RULES["C24"] = "a case is a grammar (4 of 10 with up to thousands of symbols, alternatives or productions) of which up to 40 symbols are asked about in every way; counted: distinct grammars with more symbols than the operations allowed"
RULES["C25"] = "a case is a grammar with token sequences and a solver; one chosen call into the caller's code panics in each run of each operation; counted: distinct (grammar, input) pairs of 2 or more tokens whose parses were interrupted"
# what is counted as one evaluation, when it is not the case
UNITS = {p: ("parses",) for p in ("C06", "C07", "C08", "C09", "C11", "C12", "C14", "C18", "C23")}
UNITS["C19"] = ("parses whose memory was compared",)
UNITS["C20"] = ("grammars analysed",)
UNITS["C22"] = ("parses", "grammars analysed")
UNITS["C10"] = ("parses", "grammars analysed")
UNITS["C13"] = ("requests observed",)
UNITS["C15"] = ("inputs",)
UNITS["C17"] = ("lists",)
UNITS["C24"] = ("questions",)
UNITS["C25"] = ("panics of the caller's code",)
ASSUME = [
    "held on the executions counted here; nothing is said about inputs that the workload does not reach",
    "the reference analyses and the reference search (harness/src/gram.rs, model.rs) are right; they are cross-checked against independent formulations by `harness selftest`",
    "symbol types have lawful Eq, Hash and Clone; hash seeds are those that the standard library draws",
]

T0 = time.time()


def say(*a):
    print(*a, flush=True)


def sha_tree(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\1")
    return h.hexdigest()


def repo_sha():
    return sha_tree(REPO + "/src", REPO + "/Cargo.toml", REPO + "/build.rs")


class NoVerdict(Exception):
    pass


def cargo(args, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


class Locked:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, "lock-" + name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(name, crate, args, target, env=None, toolchain=None, clean=()):
    """Builds a crate; what cargo may take for unchanged is thrown away when /repo's bytes changed."""
    cwd = os.path.join(HERE, crate)
    tc = [toolchain] if toolchain else []
    with Locked(name):
        stamp = os.path.join(TARGET, "stamp-" + name)
        want = repo_sha()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            if os.path.exists(stamp):
                os.remove(stamp)
            cargo(tc + ["clean", "--offline", "-p", "artlr_syntax", "--target-dir", target] + list(clean), cwd, env)
        rc, out = cargo(tc + args + ["--offline", "--target-dir", target], cwd, env)
        if rc == 0:
            with open(stamp, "w") as f:
                f.write(want)
        return rc, out


def build_harness():
    return build("harness", "harness", ["build", "--release"], TARGET, clean=["--release"])


# what users ship: no debug assertions, arithmetic that wraps, the optimiser at its strongest
PLAIN = {
    "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false",
    "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false",
    "CARGO_PROFILE_RELEASE_OPT_LEVEL": "3",
}


def build_plain():
    return build("plain", "harness", ["build", "--release"], os.path.join(TARGET, "plain"), env=PLAIN, clean=["--release"])


def build_mt():
    return build("mt", "mt", ["build", "--release"], os.path.join(TARGET, "mt"), clean=["--release"])


def build_mt_plain():
    return build("mt-plain", "mt", ["build", "--release"], os.path.join(TARGET, "mt-plain"), env=PLAIN, clean=["--release"])


def build_tsan():
    return build(
        "tsan", "mt",
        ["build", "--release", "-Zbuild-std", "--target", TSAN_TARGET],
        os.path.join(TARGET, "tsan"),
        env={"RUSTFLAGS": "-Zsanitizer=thread -Cforce-frame-pointers=yes"},
        toolchain="+nightly", clean=["--release", "--target", TSAN_TARGET],
    )


def build_asan():
    return build(
        "asan", "mt",
        ["build", "--release", "--target", TSAN_TARGET],
        os.path.join(TARGET, "asan"),
        env={"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes -Cdebug-assertions=on -Coverflow-checks=off"},
        toolchain="+nightly", clean=["--release", "--target", TSAN_TARGET],
    )


def build_all(*which):
    """All at the same time; no verdict when one fails."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(len(which)) as pool:
        for f, (rc, out) in zip(which, pool.map(lambda f: f(), which)):
            if rc:
                raise NoVerdict("%s fails:\n%s" % (f.__name__, out[-4000:]))


def probe(name):
    """None when it compiles, else the compiler's words when they are about a trait that is missing."""
    rc, out = build("probe-" + name, "probes", ["check", "--bin", name], os.path.join(TARGET, "probes"))
    if rc == 0:
        return None
    errs = re.findall(r"^error\[(E\d+)\].*?\n\s*--> ([^:\n]+)", out, re.M)
    mine = [e for e in errs if e[0] in PROBE_ERRORS and e[1].startswith("src/bin/")]
    if mine and len(mine) == len(errs):
        return out
    raise NoVerdict("the probe %s does not compile:\n%s" % (name, out[-3000:]))


def replay_path(prop, ext="txt"):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s-%d.%s" % (prop, TIER, SEED, ext))


def violation(prop, text):
    p = replay_path(prop)
    with open(p, "w") as f:
        f.write(text)
    say("VIOLATION property=%s replay=%s" % (prop, p))


def findings(prop):
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("known: property=%s " % prop):
                say("KNOWN-FINDING: " + line[len("known: "):].strip())


def evidence(prop, coverage, violations, extra=()):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": coverage, "assumptions": ASSUME + list(extra),
            "wall_s": round(time.time() - T0, 2), "violations": violations,
        }, f, indent=1)
        f.write("\n")


def limits(cpu=None, mem=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, timeout, cpu=None, mem=None, env=None, cwd=None):
    """(return code or None on timeout, output)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(cpu, mem), env=e, cwd=cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


def compiler_part(prop):
    for name, props in PROBES.items():
        if prop in props:
            out = probe(name)
            if out:
                violation(prop, "probes/src/bin/%s.rs must compile\n%s" % (name, out))
                evidence(prop, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a program that must compile",
                                "samples": ["probes/src/bin/%s.rs: %s" % (name, out[-500:])]}, 1)
                return 1
    return 0


STILL = 30
BLOCKED = -1000


def at_rest(pid):
    """The processor time a process has used, if every thread of it sleeps; None otherwise."""
    used = 0
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            if f[0] != "S":
                return None
            used += int(f[11]) + int(f[12])
    except (OSError, IndexError):
        return None
    return used


def ended(cmd, prop, cs):
    """Runs one case alone, in symbol types whose operations are counted: what became of it."""
    e = dict(os.environ, HARNESS_COUNTED="1")
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(60, 12 << 30), env=e)
        end, since, last, rc = time.time() + 300, time.time(), None, None
        while time.time() < end:
            rc = p.poll()
            if rc is not None:
                break
            now = at_rest(p.pid)
            if now is None or now != last:
                since = time.time()
            elif time.time() - since > STILL:
                rc = BLOCKED
                break
            last = now
            time.sleep(0.2)
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        f.seek(0)
        return rc, f.read().decode("utf8", "replace")


def investigate(prop, binary, stdout, state):
    """The harness died or one case does not end: find the case and decide by running it alone."""
    cands = [int(m) for m in re.findall(r"^STUCK (\d+)", stdout, re.M)]
    if os.path.exists(state):
        b = open(state, "rb").read()
        cands += [x for (x,) in struct.iter_unpack("<Q", b[: len(b) // 8 * 8]) if x]
    seen = []
    for cs in cands:
        if cs in seen:
            continue
        seen.append(cs)
        cmd = [binary, "one", prop, TIER, str(cs)]
        rc, out = ended(cmd, prop, cs)
        if rc == 1:
            violation(prop, out)
            return 1, out
        # a crash, or 60 s of processor time or 30 s of rest for a case of milliseconds
        died = rc is not None and rc < 0
        if died and prop in PROMISE:
            # the same fate twice
            rc2, out2 = ended(cmd, prop, cs)
            if rc2 == rc:
                why = {-signal.SIGXCPU: "does not end", -signal.SIGKILL: "does not end",
                       BLOCKED: "waits for ever"}.get(
                    rc, "dies by signal %d" % -rc)
                text = out + "# VIOLATED: the call %s\n" % why
                violation(prop, text)
                return 1, text
    raise NoVerdict("the harness ended without a verdict and no single case explains it: " + stdout[-500:])


def soak(prop, binary):
    """One grammar for a long time in each of several fresh processes."""
    thorough = TIER == "thorough"
    seen, base = {"processes": 0}, (SEED * 7919 + (1 << 40 if thorough else 0)) % (1 << 61)
    for turn in range(3 if thorough else 2):
        cmds = [[binary, "one", prop + "-soak", TIER, str(base + 8 * turn + i)] for i in range(8)]
        for rc, out in parallel(cmds, 240):
            if rc == 1:
                violation(prop, out)
                evidence(prop, {"evaluations": 1, "distinct_nontrivial": 1, "rule": RULES[prop], "samples": [out[-1500:]]}, 1)
                say(out[-600:])
                return 1, seen
            if rc is None:
                continue
            if rc:
                raise NoVerdict("a soak ended with %s: %s" % (rc, out[-1500:]))
            m = re.search(r"^# observed (.*)$", out, re.M)
            if m:
                seen["processes"] += 1
                for k, v in json.loads(m.group(1)).items():
                    seen[k] = seen.get(k, 0) + v
    if seen["processes"] < 4:
        raise NoVerdict("only %d soaks ended" % seen["processes"])
    return 0, seen


def sequential(prop):
    rc = compiler_part(prop)
    if rc:
        return rc
    build_all(build_harness, build_plain)
    binary = os.path.join(TARGET, "release", "harness")
    plain = os.path.join(TARGET, "plain", "release", "harness")
    soaked = {}
    if prop == "C19":
        rc, soaked = soak(prop, binary)
        if rc:
            return rc
    work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        quick = TIER == "quick"

        def go(binary, seed, scale, cap, timeout):
            rc, out = run([binary, "check", prop, TIER, str(seed % (1 << 62)), work, str(scale)],
                          timeout=timeout, mem=64 << 30, env={"HARNESS_CAP": str(cap)})
            rj = os.path.join(work, "result.json")
            return rc, out, json.load(open(rj)) if os.path.exists(rj) else {}

        rc, out, res = go(binary, SEED, 1, 70 if quick else 520, 300 if quick else 700)
        built = "with debug assertions and overflow checks"
        if rc == 0:
            # other cases, as users build it
            os.unlink(os.path.join(work, "result.json"))
            rc, out, other = go(plain, SEED + (1 << 45), 0.3 if quick else 0.25, 25 if quick else 130, 240)
            if rc == 0:
                res["without_debug_assertions"] = {k: other.get(k) for k in ("evaluations", "distinct_nontrivial", "observed", "maxima")}
            else:
                res, binary = other, plain
                built = "without debug assertions and overflow checks"
        violations, code = 0, 0
        if rc == 1:
            violations, code = 1, 1
            text = open(os.path.join(work, "replay")).read() + "# harness built %s\n" % built
            say(out.strip()[:2000])
            violation(prop, text)
        elif rc == 0:
            findings(prop)
        elif rc is None:
            raise NoVerdict("out of time")
        elif rc == 2:
            raise NoVerdict(out[-2000:])
        else:
            code, text = investigate(prop, binary, out, os.path.join(work, "state"))
            violations = 1
            res = {"evaluations": 1, "distinct_nontrivial": 1, "samples": [text[:1500]], "message": text[-300:]}
        samples = res.get("samples") or []
        if violations:
            samples = samples + [text[:1500]]
        obs = res.get("observed", {})
        units = sum(obs.get(k, 0) for k in UNITS.get(prop, ())) or res.get("evaluations", 0)
        cov = {
            "evaluations": units,
            "cases": res.get("evaluations", 0),
            "distinct_nontrivial": res.get("distinct_nontrivial", 0),
            "rule": RULES[prop],
            "samples": samples[:7] or ["none"],
        }
        for k in ("observed", "maxima", "skipped", "threads", "planned", "message", "without_debug_assertions"):
            if res.get(k):
                cov[k] = res[k]
        if soaked:
            cov["soaked"] = soaked
        evidence(prop, cov, violations)
        if code == 0:
            say("%s held on %d evaluations in %d cases, %d distinct and non-trivial, in %.1f s" % (
                prop, cov["evaluations"], cov["cases"], cov["distinct_nontrivial"], time.time() - T0))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------------------------------------
# C16

def parallel(cmds, timeout, env=None, cwd=None):
    ps = []
    e = dict(os.environ)
    for i, c in enumerate(cmds):
        ee = dict(e)
        ee.update((env(i) if callable(env) else env) or {})
        ps.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(), env=ee, cwd=cwd))
    end = time.time() + timeout
    outs = []
    import threading
    res = [None] * len(ps)

    def wait(i):
        p = ps[i]
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
            res[i] = (p.returncode, o.decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, _ = p.communicate()
            res[i] = (None, o.decode("utf8", "replace"))

    ts = [threading.Thread(target=wait, args=(i,)) for i in range(len(ps))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def add(into, r):
    for k, v in r.items():
        if isinstance(v, dict):
            add(into.setdefault(k, {}), v)
        elif isinstance(v, list):
            into.setdefault(k, []).extend(v[:2])
        elif k in ("max_parallel", "most_threads_meeting_inside_parses"):
            into[k] = max(into.get(k, 0), v)
        else:
            into[k] = into.get(k, 0) + v


def concurrent(prop):
    thorough = TIER == "thorough"
    rc = compiler_part(prop)
    if rc:
        return rc
    build_all(build_mt, build_mt_plain, build_tsan, build_asan)
    native = os.path.join(TARGET, "mt", "release", "mt")
    plain = os.path.join(TARGET, "mt-plain", "release", "mt")
    tsan = os.path.join(TARGET, "tsan", TSAN_TARGET, "release", "mt")
    asan = os.path.join(TARGET, "asan", TSAN_TARGET, "release", "mt")
    cov = {"native": {}, "native_without_debug_assertions": {}, "thread_sanitizer": {}, "address_sanitizer": {}, "miri": {}}
    bad = []
    inconclusive = []

    def results(kind, runs):
        for rc, out in runs:
            m = re.search(r"^RESULT (\{.*\})$", out, re.M)
            if m and rc == 0:
                add(cov[kind], json.loads(m.group(1)))
                continue
            mm = re.search(r"^MISMATCH scene (\d+): .*$", out, re.M)
            if mm:
                bad.append("%s run: %s\nreplay: mt one %s 300 big\n" % (kind, mm.group(0), mm.group(1)))
            elif "UNDEFINED BEHAVIOUR: " in out or "WARNING: ThreadSanitizer" in out or "ERROR: AddressSanitizer: " in out and "out-of-memory" not in out and "allocation-size" not in out:
                bad.append("%s run:\n%s" % (kind, out[-6000:]))
            elif kind == "miri" and re.search(r"^error: (Undefined Behavior|the evaluated program deadlocked)", out, re.M):
                bad.append("%s run:\n%s" % (kind, out[-6000:]))
            elif re.search(r"^STUCK (\d+)", out, re.M):
                s = re.search(r"^STUCK (\d+)", out, re.M).group(1)
                hung = 0
                for _ in range(2):
                    r, o = run([plain if kind == "native_without_debug_assertions" else native, "one", s, "20", "big"], timeout=90)
                    if r == 1:
                        bad.append("%s\n" % o)
                        break
                    hung += r is None
                if hung == 2:
                    bad.append("scene %s: the threads wait for each other for ever\nreplay: mt one %s 20 big\n" % (s, s))
                elif not bad:
                    inconclusive.append("a scene did not end: %s" % s)
            else:
                inconclusive.append("%s run ended with %s: %s" % (kind, rc, out[-1500:]))

    n = max(2, min(6, os.cpu_count() or 4))
    base = (SEED % (1 << 40)) * 64
    secs = 150 if thorough else 15
    results("native", parallel([[native, "run", str(base + i), "1000000", str(secs)] for i in range(n)], secs + 300))
    if not bad:
        secs = 60 if thorough else 8
        results("native_without_debug_assertions", parallel([[plain, "run", str(base + 8 + i), "1000000", str(secs)] for i in range(n)], secs + 300))
    if not bad:
        secs = 240 if thorough else 25
        opts = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 history_size=4"}
        runs = parallel([[tsan, "run", str(base + 16 + i), "1000000", str(secs)] for i in range(n)], secs + 300, env=opts)
        if any("unexpected memory mapping" in o for _, o in runs):
            runs = parallel([["setarch", "-R", tsan, "run", str(base + 16 + i), "1000000", str(secs)] for i in range(n)], secs + 300, env=opts)
        results("thread_sanitizer", runs)
    if not bad:
        secs = 100 if thorough else 10
        opts = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1"}
        results("address_sanitizer", parallel([[asan, "run", str(base + 48 + i), "1000000", str(secs)] for i in range(n)], secs + 200, env=opts))
    if not bad:
        work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(work, exist_ok=True)
        try:
            per = 16 if thorough else 2
            files = []
            for i in range(n):
                r, o = run([native, "plans", str(base + 32 + i), str(per), "small"], timeout=60)
                if r != 0:
                    raise NoVerdict("no scenes for Miri: " + o[-500:])
                f = os.path.join(work, "plans%d" % i)
                open(f, "w").write(o)
                files.append(f)
            flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05"
            with Locked("miri"):
                want = repo_sha()
                stamp = os.path.join(TARGET, "stamp-miri")
                mt = os.path.join(HERE, "mt")
                if not os.path.exists(stamp) or open(stamp).read() != want:
                    shutil.rmtree(os.path.join(TARGET, "miri", "miri"), ignore_errors=True)
                    open(stamp, "w").write(want)
                # one run builds; the others start from what it built
                empty = os.path.join(work, "none")
                open(empty, "w").write("")
                rc, out = cargo(["+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--", "file", empty, "0", "small"],
                                mt, {"MIRIFLAGS": flags}, timeout=400)
                if "RESULT" not in out:
                    raise NoVerdict("Miri does not start: " + out[-2000:])
            runs = parallel([["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--", "file", f, "0", "small"] for f in files],
                            400 if not thorough else 420, cwd=mt, env=lambda i: {"MIRIFLAGS": flags + " -Zmiri-seed=%d" % ((base + i) % (1 << 31))})
            if thorough:
                # a run that is cut off has observed nothing wrong
                runs = [r for r in runs if r[0] is not None] or runs
            results("miri", runs)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    total = {}
    for k in cov:
        add(total, {x: cov[k].get(x, 0) for x in ("scenes", "distinct_schedules", "overlapping_parses_of_one_parser")})
    samples = cov["native"].pop("samples", [])
    for k in cov:
        cov[k].pop("samples", None)
    ops = sum(sum(cov[k].get("operations", {}).values()) for k in cov)
    c = {
        "evaluations": total["scenes"],
        "distinct_nontrivial": total["distinct_schedules"],
        "rule": RULES[prop],
        "samples": samples[:6] or ["none"],
        "operations": ops,
        "runs": cov,
    }
    if bad:
        c["samples"] = [bad[0][:3000]]
        c["evaluations"] = max(1, c["evaluations"])
        evidence(prop, c, len(bad))
        say(bad[0][:3000])
        violation(prop, "\n".join(bad))
        return 1
    if inconclusive:
        raise NoVerdict("; ".join(inconclusive))
    for k in cov:
        if not cov[k].get("overlapping_parses_of_one_parser"):
            raise NoVerdict("no overlapping parses were observed in the %s run" % k)
    if cov["native"].get("unusable", 0) > cov["native"]["scenes"]:
        raise NoVerdict("most scenes could not be used")
    evidence(prop, c, 0, ["ThreadSanitizer and Miri report what the observed executions contain; schedules are the operating system's and Miri's, disturbed by yields in the symbol operations"])
    findings(prop)
    say("C16 held on %d scenes (%d operations, %d overlapping parses of one parser), in %.1f s" % (
        total["scenes"], ops, total["overlapping_parses_of_one_parser"], time.time() - T0))
    return 0


# ------------------------------------------------------------------------------------------------
# C21

QUIET = "brk,mmap,munmap,mremap,madvise,mprotect,getrandom,futex,membarrier,sched_yield"
# system calls by which a process acts on the world outside
OUTSIDE = re.compile(r"^(p?writev?(64|2)?|open(at2?)?|creat|unlink(at)?|rename(at2?)?|mkdir(at)?|rmdir|link(at)?|symlink(at)?|f?truncate|"
                     r"f?chdir|f?chmod(at)?|f?chown|socket|socketpair|connect|bind|send(to|msg|mmsg)|pipe2?|memfd_create|"
                     r"clone3?|v?fork|execve(at)?|t?g?kill|(clock_)?nanosleep|sendfile|splice|exit_group)$")


def read_trace(path):
    """[(case or None, line)] of outside calls between the markers, number of markers, other calls"""
    inside, cases, n, other, found = False, {}, 0, {}, []
    for line in open(path, errors="replace"):
        m = re.match(r"(\d+) +(.*)$", line)
        if not m:
            continue
        pid, rest = m.groups()
        if rest.startswith('write(-1, "'):
            w = rest[11:]
            if w.startswith("BEGIN"):
                inside = True
            elif w.startswith("END"):
                inside = False
            elif w.startswith("CASE "):
                cases[pid] = re.match(r"CASE (\d+)", w).group(1)
                n += 1
            continue
        if not inside or rest.startswith("<...") or rest.startswith("+++") or rest.startswith("---"):
            continue
        call = rest.split("(")[0]
        if OUTSIDE.match(call):
            if call.startswith("open") and re.search(r'"/(sys|proc)/', rest):  # the allocator's own
                continue
            found.append((cases.get(pid), rest[:300]))
        else:
            other[call] = other.get(call, 0) + 1
    return found, n, other


def enough(path, state):
    """whether the trace so far shows a hundred acts outside"""
    try:
        with open(path, errors="replace") as f:
            f.seek(state.get("at", 0))
            text = f.read()
            state["at"] = f.tell()
    except OSError:
        return False
    for line in (state.pop("rest", "") + text).splitlines():
        m = re.match(r"\d+ +(\w+)\(", line)
        if "BEGIN" in line:
            state["inside"] = True
        elif m and state.get("inside") and 'write(-1, "' not in line and OUTSIDE.match(m.group(1)) and not re.search(r'"/(sys|proc)/', line):
            state["n"] = state.get("n", 0) + 1
    return state.get("n", 0) > 100


def strace(cmd, out, timeout):
    base = ["strace", "-f", "-qq", "-o", out, "-e", "trace=!" + QUIET]

    def go(cmd):
        if os.path.exists(out):
            os.unlink(out)
        with tempfile.TemporaryFile("w+", errors="replace") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=log, start_new_session=True)
            end, state = time.time() + timeout, {}
            while True:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    # nobody needs more, and each is slow under a tracer
                    if time.time() > end or enough(out, state):
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
            log.seek(0)
            return rc, log.read()[:100000]

    rc, text = go(base[:2] + ["--seccomp-bpf"] + base[2:] + cmd)
    if rc != 0 and not (os.path.exists(out) and "BEGIN" in open(out, errors="replace").read()):
        rc, text = go(base + cmd)
    return rc, text


def effects(prop):
    build_all(build_harness, build_plain)
    thorough = TIER == "thorough"
    cases = 2000000 if thorough else 100000
    code, cov = traced(prop, os.path.join(TARGET, "release", "harness"), SEED, cases, 500 if thorough else 300)
    if code == 0:
        # other cases, as users build it
        code, other = traced(prop, os.path.join(TARGET, "plain", "release", "harness"), SEED + (1 << 45), cases // 4, 250)
        if code == 0:
            cov["without_debug_assertions"] = other
        else:
            cov = other
    found = cov.pop("found", 0)
    evidence(prop, cov, found, ["what a library would read of its surroundings other than environment variables is not varied"])
    if code == 0:
        findings(prop)
        say("%s held on %d cases, in %.1f s" % (prop, cov["evaluations"], time.time() - T0))
    return code


def traced(prop, binary, seed, cases, timeout):
    work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        trace, result = os.path.join(work, "trace"), os.path.join(work, "result.json")
        rc, out = strace([binary, "effects", TIER, str(seed % (1 << 62)), str(cases), result], trace, timeout)
        if not os.path.exists(trace):
            raise NoVerdict("strace does not run: " + out[-1500:])
        found, n, other = read_trace(trace)
        if os.path.exists(result + ".bad"):
            for line in open(result + ".bad").read().splitlines()[:20]:
                case, _, what = line.partition(" ")
                found.append((None if case == "-" else case, what))
        res = json.load(open(result)) if os.path.exists(result) else {}
        cov = {"evaluations": n, "distinct_nontrivial": res.get("distinct_nontrivial", 0), "rule": RULES[prop],
               "system_calls_that_stay_inside": other}
        for k in ("observed", "maxima", "skipped", "threads"):
            if res.get(k):
                cov[k] = res[k]
        if found:
            lines = "".join("# case %s: %s\n" % f for f in found[:20])
            text = "# VIOLATED: %d acts outside of the library\n%s" % (len(found), lines)
            case = next((c for c, _ in found if c), None)
            if case:
                t2 = os.path.join(work, "one")
                _, one = strace([binary, "effect-of", TIER, case], t2, 100)
                again = os.path.exists(t2) and len(read_trace(t2)[0])
                text = one + text + "# the case alone: %s such calls\n# replay: strace -f %s effect-of %s %s\n" % (again, binary, TIER, case)
            cov["samples"] = [text[:1500]]
            cov["evaluations"] = max(1, n)
            cov["found"] = len(found)
            say(text[-1500:])
            violation(prop, text)
            return 1, cov
        if rc != 0 or out.strip():
            raise NoVerdict("the traced run ended with %s: %s" % (rc, out[-1500:]))
        if n < cases:
            raise NoVerdict("only %d of %d cases appear in the trace" % (n, cases))
        cov["samples"] = []
        for i in (1, 2, 3):
            _, one = run([binary, "one", "C21", TIER, str(i)], 60)
            cov["samples"].append(one[:600])
        return 0, cov
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    try:
        build_all(build_harness, build_plain, build_mt, build_mt_plain, build_tsan, build_asan)
    except NoVerdict as e:
        say(e)
        return 1
    for p in PROBES:
        if probe(p):
            say("probe", p, "does not compile")
            return 1
    rc, out = run([os.path.join(TARGET, "release", "harness"), "selftest"], timeout=600)
    say(out[-1500:])
    if rc:
        return 1
    empty = os.path.join(TARGET, "none")
    open(empty, "w").write("")
    rc, out = cargo(["+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--", "file", empty, "0", "small"],
                    os.path.join(HERE, "mt"), {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05"}, timeout=800)
    say("miri", "RESULT" in out)
    return 0 if "RESULT" in out else 1


def main():
    if len(sys.argv) != 2:
        say(__doc__)
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    if prop not in RULES:
        say("unknown property", prop)
        return 2
    try:
        return {"C16": concurrent, "C21": effects}.get(prop, sequential)(prop)
    except NoVerdict as e:
        say("NO VERDICT for %s: %s" % (prop, e))
    except subprocess.TimeoutExpired as e:
        say("NO VERDICT for %s: %s" % (prop, e))
    except Exception as e:  # a mistake of the driver decides nothing
        import traceback
        traceback.print_exc()
        say("NO VERDICT for %s: %r" % (prop, e))
    return 2


if __name__ == "__main__":
    sys.exit(main())
