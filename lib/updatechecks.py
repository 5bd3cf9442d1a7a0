"""C17-C19: the updater.  The real program runs in scratch directories with stand-ins for the
compiler and the formatter; the specification's models say what it may do and what it must leave."""
import itertools, json, os, random, resource, shutil, signal, subprocess, time, zlib
from concurrent.futures import ThreadPoolExecutor
import core
from core import cps, show, ToolError
from targetchecks import release, write, targets_json

MARK = "// formatted\n"
OLD_TABLE = "// the old table\n"
TABLE = os.path.join("src", "targets", "builtins.rs")
RUNNERS = 8


def updater(ck):
    return core.cargo_build(ck, os.path.join(core.REPO, "update"), name="update", target=os.path.join(core.BUILD, "target-update"))


def standin(ck):
    return core.cargo_build(ck, os.path.join(core.VERIF, "fake"), name="standin", target=os.path.join(core.BUILD, "target-standin"))


def listing(t, r=None, extra=()):
    """what a compiler prints for a target"""
    ls = [f'target_arch="{t["arch"]}"', f'target_endian="{t["endian"]}"', f'target_pointer_width="{t["width"]}"', f'panic="{t["panic"]}"',
          f'target_os="{(t["os"] or ["none"])[0]}"', f'target_env="{(t["env"] or [""])[0]}"', f'target_abi="{(t["abi"] or [""])[0]}"']
    if t["vendor"]:
        ls.append(f'target_vendor="{t["vendor"][0]}"')
    elif r and r.random() < 0.5:
        ls.append('target_vendor=""')
    ls += [f'target_family="{f}"' for f in t["fam"]] + [f'target_has_atomic="{a}"' for a in t["atomics"]] + list(t["fam"]) + list(extra)
    if r:
        r.shuffle(ls)
    return ls


class Run:
    """One run of the updater (or several, one after the other) in a directory of its own."""

    def __init__(self, ck, name, readme, table=OLD_TABLE, version="rustc 1.2.3 (abc 2020-01-01)", targets=(), env_rustc=True):
        self.d = os.path.join(ck.scratch, name)
        self.w, self.s, self.b = (os.path.join(self.d, x) for x in ("w", "s", "b"))
        for x in (os.path.join(self.w, "src", "targets"), os.path.join(self.s, "cfg"), self.b):
            os.makedirs(x)
        # the compiler: `rustc` on PATH, or the one $RUSTC names; on PATH there is then none, or another
        # one, which answers as well but is not to be asked
        self.env_rustc = env_rustc
        st = standin_path
        os.symlink(st, os.path.join(self.b, "rustfmt"))
        self.rustc = os.path.join(self.b, "rustc")
        self.how = "PATH"
        if env_rustc:
            k = zlib.crc32(name.encode()) % 3
            self.how = ["decoy", "decoy", "alone"][k]
            self.rustc = os.path.join(self.d, "the compiler", ["rustc", "rustc-1.2", "my rustc"][k])
            os.makedirs(os.path.dirname(self.rustc))
            if k < 2:
                self.decoy("rustc")
        os.symlink(st, self.rustc)
        self.put(self.w, TABLE, table)
        self.put(self.s, "saved-table", table)
        self.readme(readme)
        self.put(self.s, "version.out", version + "\n")
        self.answer(targets)
        self.steps = []

    def put(self, base, name, data):
        with open(os.path.join(base, name), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))

    def decoy(self, name):
        p = os.path.join(self.b, name)
        with open(p, "w") as f:
            f.write("#!/bin/sh\necho 'decoy|old|old' >> \"$STANDIN/log\"; echo =decoy >> \"$STANDIN/log\"\n"
                    "case \"$*\" in *target-list*) echo x86_64-unknown-linux-gnu ;;\n*cfg*) printf 'panic=\"unwind\"\\ntarget_arch=\"decoy\"\\n"
                    "target_endian=\"little\"\\ntarget_pointer_width=\"64\"\\n' ;;\n*) echo 'rustc 9.9.9 (abc 2020-01-01)' ;; esac\n")
        os.chmod(p, 0o755)

    def readme(self, data):
        self.put(self.w, "README.md", data)
        self.put(self.s, "saved-readme", data)

    def answer(self, targets):
        self.put(self.s, "list.out", "".join(t + "\n" for t, _ in targets))
        for t, ls in targets:
            self.put(self.s, os.path.join("cfg", t + ".out"), "".join(l + "\n" for l in ls))
        self.names = [t for t, _ in targets]

    def log(self):
        try:
            return open(os.path.join(self.s, "log")).read().split("\n")[:-1]
        except FileNotFoundError:
            return []

    def go(self, plan=(), fifo=None, fsize=None, timeout=60):
        """fifo: the step after whose answer the readme is given; steps after it are in `plan` as
        gated.  Returns (exit code or "hang", events, last words)."""
        self.put(self.s, "plan", "".join(f"{s} {w}\n" for s, w in plan))
        for f in ("log", "gate"):
            p = os.path.join(self.s, f)
            if os.path.exists(p):
                os.unlink(p)
        rp = os.path.join(self.w, "README.md")
        if fifo is not None:
            content = open(rp, "rb").read()
            os.unlink(rp)
            os.mkfifo(rp)
        env = dict(PATH=self.b, STANDIN=self.s, RUST_BACKTRACE="0")
        if self.env_rustc:
            env["RUSTC"] = self.rustc

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        err = open(os.path.join(self.d, "err"), "wb")
        p = subprocess.Popen([updater_path], cwd=self.w, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=pre)
        err.close()
        t0 = time.time()
        code = None
        if fifo is not None:
            code = self.feed(p, rp, content, fifo)
        if code is None:
            try:
                code = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                code = "hang"
        # what it started may still be running
        if code == "hang":
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        for _ in range(300):
            rows = self.log()
            if sum(r[0] == "=" for r in rows) >= sum(r[0] != "=" for r in rows):
                break
            time.sleep(0.001)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        return code, self.log(), open(os.path.join(self.d, "err"), "rb").read().decode(errors="replace")[-600:]

    def feed(self, p, rp, content, after):
        """Gives the readme once `after` (a step, or None for never) is answered, and then lets the
        gated steps go.  If nothing moves for long it goes ahead anyhow: the schedule is then not
        the one that was asked for, but still one that can happen."""
        def answered():
            return after is not None and f"={after}" in self.log()
        limit = 1.5 if after is not None else 0.4
        t0 = time.time()
        while not answered() and time.time() - t0 < limit:
            if p.poll() is not None:
                break
            time.sleep(0.0005)
        gate = lambda: open(os.path.join(self.s, "gate"), "w").close()
        fd = None
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 1.0:
            try:
                fd = os.open(rp, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError:
                time.sleep(0.0005)
        # from here on the readme is a file again
        tmp = os.path.join(self.d, "readme")
        with open(tmp, "wb") as f:
            f.write(content)
        os.rename(tmp, rp)
        if fd is not None:
            os.set_blocking(fd, True)
            try:
                os.write(fd, content)
            except BrokenPipeError:
                pass
            os.close(fd)
            if p.poll() is None:
                time.sleep(0.004)
        gate()
        return None

    def table_state(self):
        p = os.path.join(self.w, TABLE)
        if os.path.isdir(p):
            return "old"
        if not os.path.exists(p):
            return "gone"
        now = open(p, "rb").read()
        if now == open(os.path.join(self.s, "saved-table"), "rb").read():
            return "old"
        return "formatted" if now.endswith(MARK.encode()) else "raw"

    def read(self, name):
        p = os.path.join(self.w, name)
        return open(p, "rb").read() if os.path.isfile(p) else None

    def remove(self):
        shutil.rmtree(self.d, ignore_errors=True)


updater_path = standin_path = None


def prepare(ck):
    global updater_path, standin_path
    updater_path, standin_path = updater(ck), standin(ck)
    # copies of our own: a later build does not pull them away
    for n, p in (("updater", updater_path), ("standin", standin_path)):
        shutil.copy2(p, os.path.join(ck.scratch, n))
    updater_path, standin_path = (os.path.join(ck.scratch, n) for n in ("updater", "standin"))


# -- C18 ----------------------------------------------------------------------------------------------
TARGETS18 = ["armv7-unknown-linux-gnueabihf", "aarch64-apple-watchos", "wasm32-unknown-unknown", "x86_64-unknown-linux-gnu", "armv7-linux-androideabi",
             "avr-unknown-gnu-atmega328", "x86_64-pc-windows-msvc", "thumbv6m-none-eabi", "riscv64gc-unknown-linux-gnu"]
README_OLD = "# t [1.1.0]\n" + "filler 1.1.0\n" * 1000 + "[1.1.0]: (x)\n"
README_NEW = README_OLD.replace("1.1.0", "1.2.3")

BAD_README = dict(nolink="# t [1.1.0]\n", noopen="t 1.1.0]: x\n", empty="a []: x\n", nontext=b"# t [1.1.0]\n\xff\xfe [1.1.0]: x\n",
                  missing=None, dir=None, nothing="")


def drop(k):
    return lambda ls: [l for l in ls if not l.startswith(k + "=")]


BAD_CFG = dict(unknown=lambda ls: ls[:3] + ['target_colour="red"'] + ls[3:], unknown2=lambda ls: ls + ['target_has_atomic_primitive="8"'],
               noarch=drop("target_arch"), nowidth=drop("target_pointer_width"), noendian=drop("target_endian"), nopanic=drop("panic"),
               badatomic=lambda ls: ls + ['target_has_atomic="large"'], nothing=lambda ls: [],
               nontext=lambda ls: ls + ['target_feature="\udcff"'], nontext2=lambda ls: ["x\udcc3("] + ls)


def kinds(q, quick):
    if q == "version":
        return ["exit", "silent", "signal", "raw", "out:empty", "out:word"]
    if q == "list":
        return ["exit", "silent", "signal", "raw", "exitraw"]
    return ["exit", "exitraw", "silent", "signal", "raw"] + ["out:" + k for k in BAD_CFG]


def concretize(plan, at, names, quick, r):
    """the ways in which a plan of the model is carried out: (plan lines, readme, fsize, schedule)"""
    n = plan["n"]
    step = lambda q: q if q in ("version", "list") else "cfg:" + names[int(q[3:]) - 1]
    order = ["version", "list"] + ["cfg:" + t for t in names]
    base = []
    if plan["write"] == "refused":
        base.append((order[-1], "dir:" + TABLE))
    if plan["rewrite"] == "refused":
        base.append(("fmt", "dir:README.md"))
    fsize = dict(ok=None, cut=1500)[plan["write"]] if plan["write"] in ("ok", "cut") else None
    if plan["rewrite"] == "cut":
        fsize = 9000
    options = [[]]
    for q in plan["bad"]:
        if q in plan["unseen"]:
            i = order.index(step(q))
            if i == 0:
                ways = [[("setup", "unlink")]]
            else:
                ways = [[(order[i - 1], "unlink:{c}")]]
        else:
            ks = kinds(q, quick)
            if len(plan["bad"]) > 1:
                ks = r.sample(ks, 2)
            ways = [[(step(q), k)] for k in ks]
        options = [o + w for o in options for w in ways]
    if plan["format"] == "fails":
        options = [o + [("fmt", k)] for o in options for k in ("exit", "exitraw", "signal")]
    if plan["format"] == "unseen":
        options = [o + [(order[-1], "unlink:{b}/rustfmt")] for o in options]
    readmes = [("good", README_OLD)]
    if plan["readme"] == "bad":
        readmes = list(BAD_README.items())
    out = []
    for o in options:
        rs = readmes if len(o) <= 0 or len(readmes) == 1 else r.sample(readmes, 2)
        for kind, content in rs:
            fifo = kind not in ("missing", "dir", "nothing")
            gated = []
            after = None
            if at != 99:
                after = order[at]
                gated = [(s, "gate") for s in order[at + 1:]]
            elif not fifo:
                pass
            # the gate comes before what else the step does
            out.append(dict(lines=(gated if fifo else []) + base + o, readme=kind, content=content, fsize=fsize,
                            fifo=fifo, after=after, plan=plan, at=at))
            # and without any hand on the schedule
            if at in (0, 99):
                out.append(dict(lines=base + o, readme=kind, content=content, fsize=fsize, fifo=False, after=None, plan=plan, at=-1))
    return out


def run_case(ck, i, case, names, lists):
    r = Run(ck, f"u{i}", README_OLD, targets=[(t, lists[t]) for t in names], env_rustc=zlib.crc32(str(i).encode()) % 3 != 0)
    try:
        r.put(r.s, "empty", "")
        r.put(r.s, "word", "rustc\n")
        for k, f in BAD_CFG.items():
            t = [l[0] for l in case["lines"] if l[1] == "out:" + k]
            if t:
                r.put(r.s, k, "".join(x + "\n" for x in f(lists[t[0][4:]])))
        rp = os.path.join(r.w, "README.md")
        content = case["content"]
        saved = README_OLD if content is None else content
        if content is None:
            os.unlink(rp)
            if case["readme"] == "dir":
                os.mkdir(rp)
        else:
            r.readme(content)
        lines = []
        for s, w in case["lines"]:
            if s == "setup":
                os.unlink(r.rustc)
            else:
                lines.append((s, w.format(b=r.b, c=r.rustc)))
        kw = dict(fifo=case["after"] or "never") if case["fifo"] and content is not None else {}
        code, log, err = r.go(lines, fsize=case["fsize"], **kw)
        events = []
        for row in log:
            if row[0] != "=":
                q, t, m = row.split("|")
                if q.startswith("cfg:") and q[4:] in names:
                    q = f"cfg{names.index(q[4:]) + 1}"
                # a readme that never was there is as it was
                if case["readme"] in ("missing", "nothing") and m == "gone":
                    m = "old"
                events.append(dict(q=q, table=t, readme=m))
        if os.path.isdir(rp):
            rd = "old"
        elif not os.path.exists(rp):
            rd = "old" if case["readme"] == "missing" else "gone"
        else:
            now = open(rp, "rb").read()
            rd = "old" if now == (saved.encode() if isinstance(saved, str) else saved) and content is not None else \
                 "new" if now == README_NEW.encode() else "cut"
        tab = r.read(TABLE)
        if case.get("vanishes"):        # whom it was asked about before is up to the updater
            never = [f"cfg{i + 1}" for i in range(len(names)) if f"cfg{i + 1}" not in {e["q"] for e in events}][:1]
            case["plan"] = dict(case["plan"], bad=never, unseen=never)
        return dict(plan=case["plan"], events=events, exit="ok" if code == 0 else "hang" if code == "hang" else "fail",
                    table=r.table_state(), readme=rd), tab, code, err
    finally:
        r.remove()


def c18(ck):
    prepare(ck)
    r = random.Random(ck.seed * 77 + 18)
    ts = {t["triple"]: t for t in release()["targets"]}
    names = TARGETS18[:3 if ck.quick else 5]
    lists = {t: listing(ts[t], r, ["debug_assertions", 'target_feature="a"']) for t in names}
    rows = core.tlc(ck, "MC_Update", f"""SPECIFICATION Spec
CONSTANTS
 N = {len(names)}
 Two = {"FALSE" if ck.quick else "TRUE"}
INVARIANTS Emit GatherFirst TableFirst Honest FaultReported NoFalseFailure Harmless
PROPERTY Ends
""")
    schedules = {}
    for x in rows:
        schedules[json.dumps([x["plan"], x["at"]], sort_keys=True)] = (x["plan"], x["at"])
    cases = []
    for _, (plan, at) in sorted(schedules.items()):
        cases += concretize(plan, at, names, ck.quick, r)
    ck.log(f"{len(schedules)} plans and schedules, {len(cases)} runs")
    if not ck.quick:
        cases = cases * 3
    with ThreadPoolExecutor(RUNNERS) as ex:
        res = list(ex.map(lambda ic: run_case(ck, ic[0], ic[1], names, lists), enumerate(cases)))
    whole = None
    for case, (tr, tab, code, err) in zip(cases, res):
        if tr["exit"] == "ok" and tr["table"] == "formatted":
            whole = whole or tab
            if tab != whole:
                ck.violation("two complete updates from the same answers left different tables", case=brief(case))
    judge_runs(ck, cases, res)
    late(ck, r, ts)
    ck.sample(dict(plan=cases[len(cases) // 2]["lines"], readme=cases[len(cases) // 2]["readme"], events=res[len(cases) // 2][0]["events"]))


def late(ck, r, ts):
    """many targets, one of which fails, early, in the middle or last; or none does"""
    cases, lists = [], {}
    def some(n):
        names = r.sample(sorted(ts), min(n, len(ts)))
        return names
    sizes = [9, 17, 33, 64, 128, 256, len(ts)]
    for i in range(40 if ck.quick else 600):
        names = some(r.choice(sizes))
        at = r.choice([0, 1, len(names) - 1, len(names) - 1, r.randrange(len(names)), r.randrange(len(names))])
        q = r.choice(["cfg"] * 9 + ["version", "list", "none", "readme", "fmt"])
        plan = dict(n=len(names), bad=[], unseen=[], readme="good", write="ok", format="ok", rewrite="ok")
        kind, content, lines = "good", README_OLD, []
        if q == "readme":
            plan["readme"] = "bad"
            kind, content = r.choice(sorted(BAD_README.items(), key=lambda x: x[0]))
        elif q == "fmt":
            plan["format"] = "fails"
            lines = [("fmt", r.choice(["exit", "exitraw", "signal"]))]
        elif q == "cfg":
            plan["bad"] = [f"cfg{at + 1}"]
            lines = [("cfg:" + names[at], r.choice(kinds("cfg1", ck.quick)))]
        elif q != "none":
            plan["bad"] = [q]
            lines = [(q, r.choice(kinds(q, ck.quick)))]
        if i % 8 == 7 and q == "cfg" and at:        # the compiler is gone from here on
            lines = [("cfg:" + names[at - 1], "unlink:{c}")]
        cases.append((dict(vanishes=lines[:1] and lines[0][1] == "unlink:{c}", lines=lines, readme=kind, content=content, fsize=None, fifo=False, after=None, plan=plan, at=-1), names))
    lists = {t: listing(x, r, r.sample(EXTRA_LINES, 2)) for t, x in ts.items()}
    with ThreadPoolExecutor(RUNNERS) as ex:
        res = list(ex.map(lambda ic: run_case(ck, f"late{ic[0]}", ic[1][0], ic[1][1], lists), enumerate(cases)))
    judge_runs(ck, [c for c, _ in cases], res, "many targets")


def brief(case):
    return dict(plan=case["plan"], schedule=case["at"], steps=case["lines"], readme=case["readme"], limit=case["fsize"])


def judge_runs(ck, cases, res, name="a few targets"):
    recs = [x[0] for x in res]
    real = len(recs)
    good = next((x for x in recs if x["exit"] == "ok"), None)
    canaries = []
    if good:
        e = good["events"]
        canaries = [dict(good, exit="fail"), dict(good, readme="old"), dict(good, table="raw"),
                    dict(good, events=e[:-1] + [dict(e[-1], readme="new")]), dict(good, events=[dict(e[0], table="raw")] + e[1:]),
                    dict(good, events=e[:-1]), dict(good, events=e[:1] + e[2:]),
                    dict(good, plan=dict(good["plan"], readme="bad"))]
    failed = next((x for x in recs if x["exit"] == "fail" and x["plan"]["bad"]), None)
    if failed:
        canaries += [dict(failed, exit="ok"), dict(failed, exit="hang"), dict(failed, table="raw"), dict(failed, readme="new")]
    p = os.path.join(ck.scratch, "runs.ndjson")
    with open(p, "w") as f:
        for x in recs + canaries:
            f.write(json.dumps(x) + "\n")
    rows = core.tlc(ck, "Trace_Update", "SPECIFICATION Spec\nINVARIANTS Report GatherFirst TableFirst Honest\n", env=dict(TRACE=p), name="Trace_Update/" + name)
    ok = {x["c"] for x in rows}
    bad = 0
    for i in range(real):
        if i + 1 not in ok:
            bad += 1
            if bad <= 20:
                ck.violation("a run of the updater is none the model allows", **brief(cases[i]), observed=recs[i], code=res[i][2], stderr=res[i][3])
    for i in range(len(canaries)):
        if real + i + 1 in ok:
            raise ToolError(f"canary {i}: a corrupted run passed: {canaries[i]}")
    if good is None or failed is None:
        if not bad:
            raise ToolError("no run succeeded or none failed")
    ck.canaries += len(canaries)
    ck.traces += real
    ck.part(f"runs of the updater, {name}", runs=real, succeeded=sum(x["exit"] == "ok" for x in recs), events=sum(len(x["events"]) for x in recs))


# -- C19 ----------------------------------------------------------------------------------------------
PIECES = ["[", "]:", "]", "1.2", "12", "1", "x", "\n", "1.2.3-nightly", "é", "(", "[1.2]", " "]


# what editors and other systems leave in files
ODD = ["\ufeff", "\0", "\u200b", "\u00a0", "\x0c", "\x1a", "\x7f", "\x1b[0m", "\u2028", "\u2029", "\x85", "\v", "\n\n\n", "  \n", "\t", "\r", "\n\r", "\U0001f600", "e\u0301",
       "\u202e", "\ufffd", "\uffff", "\U0010ffff", "---\ntitle: x\n---\n", "%", "{", "}", "{}", "\\", "$1", "$0", "\\1", "&", "(?i)", "+", "?", ".*", "^", "|"]
# where in a readme a version may stand
PLACES = ["`{v}`", "```\n{v}\n```\n", "~~~\nx {v}\n~~~", "    {v}\n", "<!-- {v} -->", "<!--\n{v}\n-->", "![x](https://img.shields.io/badge/rustc-{v}+-red.svg)", "https://x.y/{v}/z ",
          "(https://x.y/{v})", "http://{v}", "<https://x/{v}>", "| {v} | x |\n", "# {v}\n", "## x {v} y\n", "- {v}\n", "1. {v}\n", "> {v}\n", "{v}.", "({v})", '"{v}"', "'{v}'", "<{v}>", "v{v}",
          "{v}-x", "x_{v}", "\\{v}", "[{v}][{v}]", "[a]({v})", "[a][{v}]", "![{v}]", "\t{v}\t", "{v}{v}", "\u200b{v}", "&nbsp;{v}", 'rustc = "{v}"\n', "{v}\r\n", "*{v}*", "**{v}**",
          "~{v}~", "{v}:", "[{v}] :", "[x]: {v}\n", "[{v}]: x\n", "1.{v}", "{v}.1", "é{v}é", "@{v}", "={v};", "/{v}/", "$ x --version {v}\n", "<a href='{v}'>{v}</a>", "[^{v}]", "{v}\\\n", "{{{v}}}"]


def placed(r, n):
    """readmes in which the version stands in all kinds of places"""
    out = []
    for i in range(n):
        v = r.choice(["1.2", "1.86.0", "1.99.0-nightly", "2.0.0-beta.1"])
        ps = [p.format(v=v) for p in ([PLACES[i % len(PLACES)]] + r.sample(PLACES, r.randint(0, 6)))]
        ps += r.sample(["\n", " ", "\n\n", "text ", "日本 ", "1.1", "\r\n"], r.randint(0, 4))
        r.shuffle(ps)
        out.append(("".join(ps) + r.choice(["\n", " ", ""]) + f"[{v}]: " + r.choice(["x", f"(u {v})\n", f"https://x/{v}/y", f"<{v}>\n\n"]), r.choice(["1.3", "9.87.6-nightly"])))
    return out


def one_target():
    t = next(t for t in release()["targets"] if t["triple"] == "x86_64-unknown-linux-gnu")
    return [(t["triple"], listing(t))]


def histories(ck, name, cases):
    """cases: (readme, versions, expected readmes after each update or None: it must fail)"""
    tgt = one_target()
    count = iter(range(10 ** 9))

    def go(case):
        first, vs, exp = case
        r = Run(ck, f"h{name}{next(count)}", first, targets=tgt, env_rustc=len(first) % 2 == 0)
        try:
            prev, last = first, None
            for v, e in zip(vs, exp):
                r.put(r.s, "version.out", f"rustc {v} (0123 2020-01-01)\n")
                tab = r.read(TABLE)
                code, log, err = r.go()
                now, tab2 = r.read("README.md").decode(errors="replace"), r.read(TABLE).decode(errors="replace")
                if e is None:
                    if code in (0, "hang"):
                        return f"ended with {code} on a readme without a version", now
                    if now != prev or tab2 != (tab or b"").decode():
                        return "a failing update changed something", now
                else:
                    if code != 0:
                        return f"failed with {code}: {err[-200:]}", now
                    if now != e:
                        return "the readme is not as specified", now
                    if f'"{v}"' not in tab2:
                        return "the table does not record the version", now
                    if v == last and tab2 != tab.decode():
                        return "repeating the update changed the table", now
                prev, last = now, v
            return None
        finally:
            r.remove()
    with ThreadPoolExecutor(RUNNERS) as ex:
        res = list(ex.map(go, cases))
    for (first, vs, exp), x in zip(cases, res):
        if x is not None:
            ck.violation(f"{name}: {x[0]}", readme=first, versions=vs, expected=exp, observed=x[1])
    ck.traces += sum(len(c[1]) for c in cases)
    ck.part(name, histories=len(cases), updates=sum(len(c[1]) for c in cases), failing=sum(c[2][0] is None for c in cases))
    ck.sample(dict(readme=cases[len(cases) // 2][0], versions=cases[len(cases) // 2][1], after=cases[len(cases) // 2][2]))
    # canary: a wrong expectation is noticed
    k = next((c for c in cases if c[2][0] is not None), None)
    if k and go((k[0], k[1], [k[2][0] + "!"] + k[2][1:])) is None:
        raise ToolError("canary: a wrong readme passed")
    ck.canaries += 1


def eval_readmes(ck, name, cases):
    """(readme, version): what the model makes of it: label, plain?, updated readme or None"""
    p = os.path.join(ck.scratch, f"readmes-{name}.ndjson")
    with open(p, "w") as f:
        for s, v in cases:
            f.write(json.dumps(dict(s=cps(s), v=cps(v))) + "\n")
    rows = core.tlc(ck, "Trace_Readme", "SPECIFICATION Spec\nINVARIANT Report\n", env=dict(TRACE=p), name="Trace_Readme/" + name)
    rows.sort(key=lambda x: x["c"])
    if len(rows) != len(cases):
        raise ToolError("Trace_Readme")
    return [(show(x["label"]), x["plain"], show(x["after"][0]) if x["after"] else None) for x in rows]


def c19(ck):
    prepare(ck)
    r = random.Random(ck.seed * 31 + 19)
    # the committed readme and table advertise the same version
    rm = open(os.path.join(core.REPO, "README.md"), encoding="utf-8").read()
    b = core.observer(ck)
    tab = subprocess.run([b, "table"], capture_output=True, text=True, timeout=60)
    reported = show(json.loads(tab.stdout.splitlines()[0])["version"])
    (label, plain, after), (_, _, moved) = eval_readmes(ck, "committed", [(rm, reported), (rm, "9.87.6")])
    if label != reported:
        ck.violation("the committed readme advertises another version than the library reports", readme=label, library=reported)
    ck.part("committed readme", label=label, library=reported)
    histories(ck, "committed readme", [(rm, ["9.87.6", "9.87.6"], [moved, moved]), (rm, [label], [rm])])
    # every small readme
    for i in range(1 if ck.quick else 4):
        pieces = ["[", "]:", "1.2"] + r.sample([p for p in PIECES if p not in ("[", "]:", "1.2")], 3)
        # the same version, one that extends it at the end or the start, one it extends, an unrelated one
        versions = ["1.2", r.choice(["1.23", "1.2.3-nightly"]), r.choice(["11.2", "1", "12", "2.1"])]
        rows = core.tlc(ck, "MC_Readme", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {5 if ck.quick else 6}
 MaxUpdates = 2
INVARIANTS Emit Advertises NoneLeft
""", env=dict(DOMAIN=write(ck, f"pieces-{i}.json", dict(pieces=[cps(p) for p in pieces], versions=[cps(v) for v in versions]))),
                        name=f"MC_Readme/{i}", timeout=1200)
        know, fails = {}, []
        for x in rows:
            f = show(x["first"])
            if x["hist"]:
                know[(f, tuple(x["hist"]))] = show(x["s"])
            else:
                fails.append(f)
        cases = [(f, [versions[j - 1] for j in h], [know[(f, h[:1])], s]) for (f, h), s in know.items() if len(h) == 2]
        fails = sorted(set(fails))
        cases = sorted(cases)
        n = 2500 if ck.quick else 20000
        cases = r.sample(cases, min(len(cases), n))
        fails = [(f, [versions[1]], [None]) for f in r.sample(fails, min(len(fails), n // 4))]
        ck.log(f"{len(know)} updates known, replaying {len(cases)} histories, {len(fails)} failing")
        histories(ck, f"small readmes {i}", cases + fails)
    # large made-up readmes
    made = []
    for k in range(150 if ck.quick else 3000):
        ps = [r.choice(PIECES + ["rustc ", "\r\n", "[a]: b\n", "日本", "# ", "1.2.3", "[1.2.3]"]) for _ in range(r.randint(3, 60))]
        last = r.choice(["1.2", "1.2.3", "v1.2", "1.86.0", "1.99.0-nightly"])
        tail = "" if k % 4 == 0 else f"[{last}]: " + r.choice(["x", "(u)\n", "y\n\n"])
        if k % 5 == 1:      # many mentions
            ps += [r.choice([last, last + " ", last + "\n", "v" + last, f"[{last}]"]) for _ in range(r.choice([17, 33, 65, 130, 260, 600]))]
            r.shuffle(ps)
        if k % 3 == 0:      # an odd beginning, or end
            ps.insert(0, r.choice(ODD))
        if k % 7 == 0 and tail:
            tail += r.choice(ODD)
        if k % 11 == 0:
            ps.insert(r.randrange(len(ps)), r.choice(ODD))
        made.append(("".join(ps) + tail, r.choice(["1.2", "1.99.0", "2.0.0-beta.1", "1", last, last + "-beta.3", last + "1", last[:-1], last[1:], "1" + last])))
    made += placed(r, 150 if ck.quick else 3000)
    ev = eval_readmes(ck, "made", made)
    histories(ck, "made-up readmes", [(s, [v, v] if a is not None else [v], [a, a] if a is not None else [None])
                                      for (s, v), (l, plain, a) in zip(made, ev) if plain])


# -- C17 ----------------------------------------------------------------------------------------------
# the same words for different keys: no key may be mistaken for another
# and words that begin, end or are spelt like others of the same key
WORDS = dict(os=["linux", "o-s1", "o-s-1", "a-b_c-d", "z_os", "same", "unknown", "Linux", "linux-x", "lin", "nonesuch"], abi=["a-b", "same", "a-b-c-d", "abiv2", "gnu", "abi", "v2", "A-b"],
             env=["gnu", "e-n-v", "none", "unknown", "same", "a-b", "gnux", "gn", "GNU"],
             vendor=["pc", "v-r9", "v-r-9-x", "none", "same", "linux", "p", "unknown-x", "xunknown"], arch=["arm", "ar-ch-v-8", "x86_64", "ar-ch", "zz", "same", "x86", "arm64", "ARM"],
             panic=["unwind", "abort", "abort-now-or-never", "immediate-abort", "abort-now", "Abort"],
             fam=["unix", "f-a-m", "windows", "wasm", "f-am", "aaa", "same", "unixlike", "nix", "Unix", "uni"])
LONG = [13, 33, 70, 17, 24, 32, 40, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000]
RELATED = [["unix", "unixlike"], ["unixlike", "unix"], ["uni", "unix", "Unix"], ["nix", "unix", "uni"], ["Unix", "unix"]]
EXTRA_LINES = ["debug_assertions", "unix", 'target_feature="sse4.1"', 'target_feature="crt-static"', 'target_has_atomic_equal_alignment="8"',
               'relocation_model="pic"', 'target_has_atomic_load_store="ptr"', 'fmt_debug="full"', "target_thread_local", "overflow_checks"]
UNKNOWN_KEYS = ["target_colour", "target_", "target", "os", "target_oss", "Target_os", "target_has_atomic_primitive_alignment",
                "target_object_format", "ub_checks_", "panic_", "pani", "target_familys", "feature", "relocation_mode", "version", " target_os"]


def listings(ck, r, quick, tag):
    """lists of lines, made by the model"""
    n = lambda k, m: (["same"] if "same" in WORDS[k] and k != "fam" else []) + r.sample([w for w in WORDS[k] if w != "same" or k == "fam"], m - ("same" in WORDS[k] and k != "fam"))
    opt = lambda vs, *absent: [[]] + [[cps(v)] for v in vs] + [[cps(v)] for v in absent]
    atoms = ["8", "16", "32", "64", "128", "ptr"]
    fams = [[], [r.choice(WORDS["fam"])], n("fam", 2), n("fam", 3), r.choice(RELATED[:2]), r.choice(RELATED[2:])] + ([] if quick else [n("fam", 4)])
    lists = [[], r.sample(atoms, 1), r.sample(atoms, 3), r.sample(atoms, 6)]
    dom = dict(os=opt(n("os", 2), "none"), abi=opt(n("abi", 2), ""), env=opt(n("env", 2), ""), vendor=opt(n("vendor", 2), "", "unknown"),
               arch=[cps(v) for v in n("arch", 2)], panic=[cps(v) for v in n("panic", 2)], width=[cps(v) for v in r.sample(["16", "32", "64", "128", "8"], 2)],
               fam=[[cps(v) for v in f] for f in fams], atomics=[[cps(v) for v in a] for a in lists], extra=[cps(v) for v in r.sample(EXTRA_LINES, len(EXTRA_LINES))])
    slices = 120 if quick else 12
    rows = core.tlc(ck, "MC_Listing", f"""SPECIFICATION Spec
CONSTANTS
 Slices = {slices}
 Slice = {r.randrange(slices)}
INVARIANTS Emit RoundTrip
""", env=dict(DOMAIN=write(ck, f"listing-{tag}.json", dom)), name=f"MC_Listing/{tag}", timeout=900)
    return [[show(l) for l in x["lines"]] for x in rows]


def scenario(ck, r, quick, tag):
    """(version, [(triple, lines)]): the release's own targets and made-up ones, in no particular order"""
    ts = release()["targets"]
    out = [(t["triple"], listing(t, r, r.sample(EXTRA_LINES, r.randint(0, 4)))) for t in ts]
    made = listings(ck, r, quick, tag)
    base = next(t for t in ts if t["triple"] == "x86_64-unknown-linux-gnu")
    for k, ws in WORDS.items():     # every word in its place
        for w in ws:
            made.append(listing(dict(base, **{k: w if k in ("arch", "panic") else [w]}), r))
    for n in range(1, 4):           # sets of widths in any order
        for a in itertools.combinations(["8", "16", "64", "ptr"], n):
            made.append(listing(dict(base, atomics=r.sample(a, n)), r))
    for k in ("os", "abi", "env", "vendor", "arch", "panic", "fam"):    # long ones: all but the last letter the same
        for n in LONG[:3] if quick else LONG:
            made.append(listing(dict(base, **{k: w if k in ("arch", "panic") else [w] for w in ["ab" * (n // 2) + "ab-"[n % 2]]}), r))
            made.append(listing(dict(base, **{k: w if k in ("arch", "panic") else [w] for w in (("ab" * n)[:n - 1] + "z",)}), r))
    used = {t for t, _ in out}
    for i, ls in enumerate(made):
        t = f"{r.choice(['a', 'x86_64', 'zz', 'thumbv8m.base', 'wasm32v1'])}-{r.choice(['made', 'up', 'Z'])}-n{i}"
        used.add(t)
        out.append((t, ls))
    if tag != "sorted":
        r.shuffle(out)
    else:
        out.sort()
    return r.choice(["1.86.0", "1.99.0-nightly", "2.0.0-beta.3"]), out


def used_consts(targets):
    """names of the constants for the values that occur"""
    keys = dict(target_os="Os", target_abi="Abi", target_env="Env", target_vendor="Vendor", target_arch="Arch", panic="Panic", target_family="Family")
    out = set()
    for _, ls in targets:
        for l in ls:
            k, _, v = l.partition("=")
            v = v.strip('"')
            if k in keys and v and not (k == "target_os" and v == "none"):
                out.add((keys[k], v))
    return sorted(out)


def compile_table(ck, tag, table, consts):
    """the library with the generated table, and the observer on top of it"""
    d = os.path.join(ck.scratch, "c-" + tag)
    lib, obs = os.path.join(d, "lib"), os.path.join(d, "obs")
    os.makedirs(lib)
    shutil.copytree(os.path.join(core.REPO, "src"), os.path.join(lib, "src"))
    toml = open(os.path.join(core.REPO, "Cargo.toml")).read()
    for f in ("README.md",):
        shutil.copy2(os.path.join(core.REPO, f), lib)
    toml = toml.split("[dev-dependencies]")[0] + "\n[workspace]\n"
    open(os.path.join(lib, "Cargo.toml"), "w").write(toml)
    with open(os.path.join(lib, TABLE), "wb") as f:
        f.write(table)
    shutil.copytree(os.path.join(core.VERIF, "harness", "src"), os.path.join(obs, "src"))
    shutil.copy2(os.path.join(core.VERIF, "harness", "Cargo.lock"), obs)
    t = open(os.path.join(core.VERIF, "harness", "Cargo.toml")).read()
    open(os.path.join(obs, "Cargo.toml"), "w").write(t.replace('path = "/repo"', f'path = "{lib}"'))
    with open(os.path.join(obs, "src", "consts.rs"), "w") as f:
        f.write("use cfg_expr::targets::*;\npub fn constants() -> Vec<(&'static str, &'static str, Vec<String>)> { vec![\n")
        for t, v in consts:
            i = v.replace("-", "_")
            f.write(f'("{t}", "{i}", vec![{t}::{i}.as_str().to_owned()]),\n')
        f.write("] }\n")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--features", "consts", "--manifest-path", os.path.join(obs, "Cargo.toml")],
                       env=env, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        # is it the table, or could the library not be compiled anyway?
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(obs, "Cargo.toml")],
                           env=env, capture_output=True, text=True, timeout=600)
        return None, (p.stderr if q.returncode == 0 else q.stderr)[:3000]
    return os.path.join(d, "target", "debug", "observer"), ""


def generate(ck, tag, version, targets, real_fmt=True):
    """runs the updater on the scenario; returns the table it wrote or None"""
    r = Run(ck, "g-" + tag, "x [0.1.2] \n[0.1.2]: y\n", version=f"rustc {version} (abc 2020-01-01)", targets=targets, env_rustc=tag not in ("plain", "sorted"))
    if real_fmt:
        # the real formatter, found as the updater finds it
        os.unlink(os.path.join(r.b, "rustfmt"))
        with open(os.path.join(r.b, "rustfmt"), "w") as f:
            f.write(f"#!/bin/sh\nPATH='{os.environ['PATH']}' HOME='{os.environ.get('HOME', '/root')}'\nexport PATH HOME\nexec rustfmt \"$@\"\n")
        os.chmod(os.path.join(r.b, "rustfmt"), 0o755)
    code, log, err = r.go(timeout=300)
    tab = r.read(TABLE)
    r.remove()
    return code, tab, err, log


def table_rows(ck, name, trace, listing_file):
    p = os.path.join(ck.scratch, f"trace-{name}.ndjson")
    with open(p, "w") as f:
        for t in trace:
            f.write(json.dumps(t) + "\n")
    return core.tlc(ck, "Trace_Table", "SPECIFICATION Spec\nINVARIANT Report\n", env=dict(LISTING=listing_file, TRACE=p), workers=1,
                    name="Trace_Table/" + name)


def judge_table(ck, tag, version, targets, binary):
    out = subprocess.run([binary, "table"], capture_output=True, text=True, timeout=60)
    trace = [json.loads(l) for l in out.stdout.splitlines()]
    lf = write(ck, f"listings-{tag}.json", dict(version=cps(version), targets=[dict(triple=cps(t), lines=[cps(l) for l in ls]) for t, ls in targets]))
    for x in table_rows(ck, tag, trace, lf):
        i = x["l"] - 1
        o = trace[i] if i < len(trace) else {}
        ck.violation(f"the generated table is not what the compiler printed ({tag}): {', '.join(sorted(x['fail']))}", observed=str(o)[:600],
                     printed=targets[i - 1] if 0 < i <= len(targets) else None)
    if not ck.canaries:
        import copy
        bad = copy.deepcopy(trace)
        k = len(bad) // 3
        bad[k]["fam"] = bad[k]["fam"] + [cps("more")]
        bad[k + 1]["os"] = [] if bad[k + 1]["os"] else [cps("x")]
        bad[k + 2], bad[k + 3] = bad[k + 3], bad[k + 2]
        got = {x["l"] for x in table_rows(ck, tag + "-canary", bad, lf)}
        if not {k + 1, k + 2, k + 3, k + 4} <= got:
            raise ToolError("canary: a wrong table went unnoticed")
        ck.canaries += 4
    ck.traces += len(trace)
    ck.part("generated table " + tag, targets=len(targets), constants=sum("type" in t for t in trace), lines=sum(len(ls) for _, ls in targets))
    ck.sample(dict(triple=targets[7][0], printed=targets[7][1]))


# values that are no names of constants as they are, or whose names meet
NAMES17 = {"digit-first": [dict(env=["7zip"])], "keyword": [dict(os=["fn"])], "function": [dict(vendor=["new"])],
           "dash-underscore": [dict(abi=["a-b"]), dict(abi=["a_b"])], "family-groups": [dict(fam=["a", "b"]), dict(fam=["a_b"])]}


def names(ck, r):
    """targets whose values make no distinct names: the table compiles in place, or the updater fails
    (as the formatter does)"""
    base = next(t for t in release()["targets"] if t["triple"] == "x86_64-unknown-linux-gnu")
    jobs = [(k, [("a-first", listing(base, r))] + [(f"x86_64-{k}-n{i}", listing(dict(base, **c), r)) for i, c in enumerate(cs)]) for k, cs in NAMES17.items()]

    def run(j):
        code, tab, err, log = generate(ck, "n-" + j[0], "1.2.3", j[1])
        if code != 0:
            return None, None, code
        return compile_table(ck, "n-" + j[0], tab, []) + (code,)
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(run, jobs))
    for (k, targets), (binary, err, code) in zip(jobs, res):
        if binary:
            judge_table(ck, "names " + k, "1.2.3", targets, binary)
        elif err is not None:
            ck.violation("the table does not compile", key=k, targets=targets, error=err[:1500])
        elif code == "hang":
            ck.violation("the updater hangs", targets=targets)
    ck.part("values that make no names", cases=len(jobs), compiled=sum(bool(x[0]) for x in res))


def c17(ck):
    prepare(ck)
    r = random.Random(ck.seed * 53 + 17)
    tags = ["shuffled", "sorted"] if ck.quick else ["shuffled", "sorted", "plain"] + [f"more{i}" for i in range(9)]
    scen = [(tag,) + scenario(ck, r, ck.quick, tag) for tag in tags]

    def build(s):
        tag, version, targets = s
        code, tab, err, log = generate(ck, tag, version, targets)
        if code != 0:
            return None, f"the updater ended with {code}: {err}"
        return compile_table(ck, tag, tab, used_consts(targets))
    with ThreadPoolExecutor(4) as ex:
        built = list(ex.map(build, scen))
    for (tag, version, targets), (binary, err) in zip(scen, built):
        ck.log(f"{tag}: {len(targets)} targets")
        if binary is None:
            ck.violation(f"no table, or one that does not compile in place ({tag})", error=err[:2500])
            continue
        judge_table(ck, tag, version, targets, binary)
    names(ck, r)
    # a key it does not know, anywhere
    ts = release()["targets"]
    jobs = []
    for i in range(60 if ck.quick else 600):
        sel = r.sample(ts, r.choice([1, 2, 5]))
        targets = [(t["triple"], listing(t, r, r.sample(EXTRA_LINES, 2))) for t in sel]
        k = r.randrange(len(targets))
        key = UNKNOWN_KEYS[i % len(UNKNOWN_KEYS)]
        bad = f'{key}="{r.choice(["", "x", "none", "linux", "8"])}"'
        targets[k][1].insert(r.choice([0, len(targets[k][1]), r.randrange(len(targets[k][1]))]), bad)
        jobs.append((i, targets, bad))

    def unknown(j):
        return generate(ck, f"k{j[0]}", "1.2.3", j[1], real_fmt=False)
    with ThreadPoolExecutor(RUNNERS) as ex:
        for (i, targets, bad), (code, tab, err, log) in zip(jobs, ex.map(unknown, jobs)):
            if code in (0, "hang") or tab != OLD_TABLE.encode():
                ck.violation("a key the updater does not know was not reported", line=bad, targets=targets, code=code)
    ck.traces += len(jobs)
    ck.part("unknown keys", runs=len(jobs))


CHECKS = dict(C17=c17, C18=c18, C19=c19)
