"""Shared machinery of the checks: building and running the observer, running TLC, verdicts and
evidence.  Nothing here knows what the code under test should do."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")


class ToolError(Exception):
    """Something other than the code under test failed: the check gives no verdict."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.canaries = 0
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.known_keys = load_known(pid)

    # -- verdicts -------------------------------------------------------------------------
    def violation(self, what, key=None, **data):
        if key is not None and key in self.known_keys:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, what))
            return
        self.violations.append(dict(what=what, **data))

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def part(self, name, **kw):
        self.parts.append(dict(part=name, **kw))

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces,
                          samples=self.samples or ["none"], parts=self.parts,
                          canaries_rejected=self.canaries),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations))
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for key, what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {key}: {what}")
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"replay-{self.pid}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               count=len(self.violations), violations=self.violations[:50]), f, indent=1)
            v = self.violations[0]
            print(f"{len(self.violations)} violation(s); first: {describe(v)}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} "
              f"transitions={self.transitions} traces={self.traces} wall={time.time() - self.t0:.1f}s")
        return 0


def describe(v):
    s = json.dumps(v, ensure_ascii=True)
    return s if len(s) < 1500 else s[:1500] + "..."


def load_known(pid):
    """known-findings.txt: `KNOWN-FINDING: property=<id> <key>: <text>` lines are suppressed by key;
    `fixed:` lines suppress nothing."""
    keys = set()
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) (.*?): ", line)
            if m and m.group(1) == pid:
                keys.add(m.group(2))
    return keys


# -- building ---------------------------------------------------------------------------------
def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, ds, fs in os.walk(p) if "target" not in d.split(os.sep)
                           for f in fs)
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def cargo_build(ck, crate, features=(), name=None, target=None, profile=None):
    """Builds a crate of /verif (or the updater) against /repo's working tree."""
    target = target or os.path.join(BUILD, "target-" + ("-".join(features) or "plain"))
    stamp = os.path.join(target, "repo.sha")
    want = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"),
                     os.path.join(REPO, "update", "src"), os.path.join(VERIF, "harness", "src"))
    if os.path.exists(target) and (not os.path.exists(stamp) or open(stamp).read() != want):
        shutil.rmtree(target, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml")]
    if features:
        cmd += ["--features", ",".join(features)]
    if profile:
        cmd += ["--profile", profile]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stderr[-4000:])
    open(stamp, "w").write(want)
    return os.path.join(target, "debug" if profile in (None, "dev") else profile, name or "observer")


def observer(ck, triple=False, consts=False, plain=False):
    if plain:
        return cargo_build(ck, os.path.join(VERIF, "harness"), target=os.path.join(BUILD, "target-unoptimised"), profile="unoptimised")
    return cargo_build(ck, os.path.join(VERIF, "harness"), ("triple",) if triple else ("consts",) if consts else ())


# -- running the observer -----------------------------------------------------------------------
def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def observe(ck, binary, args, lines, timeout=300, what="input", shards=1, min_shard=2000):
    """Feeds lines to the observer.  A panic is in its observation; an abort, a hang or running out
    of memory ends it: that is reported as a violation at the input it was working on, and the
    observations after it are None."""
    if shards > 1 and len(lines) > min_shard:
        from concurrent.futures import ThreadPoolExecutor
        n = (len(lines) + shards - 1) // shards
        chunks = [lines[i:i + n] for i in range(0, len(lines), n)]
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda c: observe(ck, binary, args, c, timeout, what), chunks))
        return [x for r in rs for x in r]
    p = subprocess.Popen([binary] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, preexec_fn=_limits)
    try:
        out, err = p.communicate("".join(l + "\n" for l in lines), timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = "timeout"
    rows = out.split("\n")
    complete, rest = rows[:-1], rows[-1]
    obs = [json.loads(r) for r in complete]
    if code != 0:
        n = len(obs)
        if code == 64 or (n == 0 and code == 101):
            raise ToolError(f"observer: {err[-1000:]}")
        if n >= len(lines):
            raise ToolError(f"observer ended with {code} after all inputs: {err[-1000:]}")
        ck.violation(f"the library did not come back: the process ended with {code}", **{
            what: lines[n][:4000], "stderr": err[-400:]})
        obs += [None] * (len(lines) - n)
    if len(obs) != len(lines):
        raise ToolError(f"observer: {len(obs)} observations for {len(lines)} inputs")
    return obs


# -- TLC ------------------------------------------------------------------------------------------
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def norm(x):
    """TLC prints the empty sequence and the empty record alike."""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return [] if not x else {k: norm(v) for k, v in x.items()}
    return x


def tlc(ck, module, cfg, env=None, workers=8, timeout=600, name=None, heap="6g", simulate=None):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns the lines printed
    by the specification (those starting with @), decoded."""
    name = name or module
    d = os.path.join(ck.scratch, "tlc-" + re.sub(r"\W", "_", name))
    os.makedirs(d)
    cfgp = os.path.join(d, module + ".cfg")
    open(cfgp, "w").write(cfg)
    outp = os.path.join(d, "out")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", "-cp", TLC_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-deadlock", "-config", cfgp]
    if simulate:
        cmd += simulate
    cmd += [module + ".tla"]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {name}: timeout after {timeout}s")
    rows, tail = [], []
    stats = None
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith('"@'):
                rows.append(norm(json.loads(json.loads(line)[1:])))
            else:
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    stats = (int(m.group(2)), int(m.group(1)))
                m = re.match(r"The number of states generated: ([\d,]+)", line)
                if m and simulate:
                    n = int(m.group(1).replace(",", ""))
                    stats = (n, n)
                if len(tail) > 60:
                    tail.pop(0)
                tail.append(line)
    if r.returncode != 0 or stats is None:
        raise ToolError(f"TLC {name} failed ({r.returncode}):\n" + "".join(tail)[-3500:])
    ck.states += stats[0]
    ck.transitions += stats[1]
    shutil.rmtree(d, ignore_errors=True)
    ck.log(f"TLC {name}: {stats[0]} states, {len(rows)} lines")
    ck.part("TLC " + name, states=stats[0], transitions=stats[1], emitted=len(rows))
    return rows


def cps(s):
    return [ord(c) for c in s]


def line(c):
    return ",".join(map(str, c))


def show(c):
    return "".join(map(chr, c))
