"""C11-C13, C16, C20: targets.  The specification's models say which predicates hold of a target,
which triples are found, how values and sets compare and for which targets a text is true; all of it
is replayed into the library."""
import copy, itertools, json, os, random
import core, gen
from core import cps, line, show, norm, ToolError
from textchecks import SHARDS, tset, tf

TEXT_KEYS = ["abi", "arch", "env", "family", "os", "panic", "vendor"]
ALL_KEYS = TEXT_KEYS + ["endian", "atomic", "width"]
FIELD = dict(abi="abi", arch="arch", env="env", family="fam", os="os", panic="panic", vendor="vendor",
             endian="endian", atomic="atomics", width="width")


def release():
    return json.load(open(os.path.join(core.VERIF, "data", "targets.json")))


def values(ts, key):
    out = []
    for t in ts:
        v = t[FIELD[key]]
        for x in v if isinstance(v, list) else [v]:
            if x not in out:
                out.append(x)
    return sorted(out)


EXTRA = ["", "none", "unknown", "unix", "windows", "wasm", "linux", "Linux", "LINUX", "linux ", " linux", "lin", "gnu",
         "gnueabihf", "gnux32", "GNU", "musleabi", "x86", "X86", "x86_64", "i686", "aarch", "arm64", "armv7", "apple",
         "pc", "PC", "macos", "darwin", "wasi", "p1", "wasip1", "abort", "unwind", "Unwind", "big", "little", "64", "eabihf",
         "sim", "wasm32", "é", "日本", "a=b", "\u0000", "x" * 300]


def vocabulary(ts, key):
    if key == "endian":
        return ["big", "little"]
    if key == "width":
        return ["16", "32", "64", "0", "8", "128", "255", "63"]
    if key == "atomic":
        return ["8", "16", "32", "64", "128", "ptr", "0", "1", "256", "65535"]
    out = values(ts, key) + EXTRA
    out += [v.upper() for v in values(ts, key)[::5]] + [v[:-1] for v in values(ts, key)[::4]] + [v + "x" for v in values(ts, key)[::6]]
    return list(dict.fromkeys(out))


def predicates(ts, all_values=False):
    """all_values: every key is asked about the values of every other one as well"""
    every = list(dict.fromkeys(v for k in TEXT_KEYS for v in values(ts, k))) if all_values else []
    return [(k, v) for k in ALL_KEYS for v in dict.fromkeys(vocabulary(ts, k) + (every if k in TEXT_KEYS else []))]


def few_fields(ts, r, n):
    """made-up targets: a real value in one field, another field absent or of a real value, the
    others those of a common target, or absent"""
    bases = [copy.deepcopy(next(t for t in ts if t["triple"] == x)) for x in ("x86_64-unknown-linux-gnu", "x86_64-pc-windows-msvc", "thumbv7em-none-eabihf", "wasm32-wasip1")]
    bare = dict(copy.deepcopy(bases[0]), os=[], abi=[], env=[], vendor=[], fam=[])
    opt = ("os", "abi", "env", "vendor", "family")

    def put(t, k, v):
        t[FIELD[k]] = v if k in ("arch", "panic") else [v]
    out = []
    for k in TEXT_KEYS:
        for v in values(ts, k):
            for b in (bases[0], bare):
                for m in (None,) + opt:
                    t = copy.deepcopy(b)
                    if m and m != k:
                        t[FIELD[m]] = []
                    put(t, k, v)
                    out.append(t)
    vs = [(k, v) for k in TEXT_KEYS for v in values(ts, k)]
    for _ in range(n):
        t = copy.deepcopy(r.choice(bases + [bare]))
        for k, v in r.sample(vs, r.choice([2, 2, 3])):
            put(t, k, v)
        if r.random() < 0.5:
            t[FIELD[r.choice(opt)]] = []
        out.append(t)
    for i, t in enumerate(out):
        t["triple"] = "t"
    return out


def to_cps(t):
    return {k: cps(v) if isinstance(v, str) else [cps(x) for x in v] for k, v in t.items()}


def write(ck, name, x):
    p = os.path.join(ck.scratch, name)
    with open(p, "w") as f:
        json.dump(x, f)
    return p


def predfile(ck, name, preds):
    p = os.path.join(ck.scratch, name)
    with open(p, "w") as f:
        f.write("".join(f"{k}={line(cps(v))}\n" for k, v in preds))
    return p


def targets_json(ck, ts, version="1.86.0", name="targets.json"):
    return write(ck, name, dict(version=cps(version), targets=[to_cps(t) for t in ts]))


def domain_json(ck, preds, name="domain.json", **fields):
    return write(ck, name, dict(preds=[[k, cps(v)] for k, v in preds], **fields))


def descr(t):
    """a description of a target, in code points, as the observer reads it"""
    opt = lambda v: line(v[0]) if v else "-"
    lst = lambda v: ";".join(elem(x) for x in v)
    return "|".join([line(t["triple"]), opt(t["os"]), opt(t["abi"]), line(t["arch"]), opt(t["env"]), opt(t["vendor"]),
                     lst(t["fam"]), line(t["width"]), line(t["endian"]), lst(t["atomics"]), line(t["panic"])])


def elem(x):
    return line(x) or "e"


def wrong_preds(preds, exp, got):
    return [f"{preds[i - 1][0]}={preds[i - 1][1]}: " + ("must hold" if i in exp else "must not hold")
            for i in sorted(set(exp) ^ set(got))]


# -- C11 ----------------------------------------------------------------------------------------------
def check_matches(ck, name, cases, preds, pf):
    """cases: (description in code points, numbers of the predicates that hold)"""
    b = core.observer(ck)
    obs = core.observe(ck, b, ["match", pf], [descr(t) for t, _ in cases], shards=SHARDS)
    for (t, m), o in zip(cases, obs):
        if o is None:
            continue
        if "panic" in o:
            ck.violation(f"{name}: matching panicked", target=pretty(t), observed=o)
            continue
        for k in ("owned", "static"):
            if o[k] != m:
                ck.violation(f"{name}: predicates not as specified", target=pretty(t), values=k,
                             wrong=wrong_preds(preds, m, o[k])[:10])
    ck.traces += len(cases)
    ck.part(name, targets=len(cases), predicates=len(preds), answers=2 * len(cases) * len(preds))
    if cases:
        ck.sample(dict(model=name, target=pretty(cases[len(cases) // 2][0])))
        m = cases[0][1]
        if not wrong_preds(preds, m, m[1:]) or m[1:] == m:
            raise ToolError("canary: a dropped predicate went unnoticed")
        ck.canaries += 1


def pretty(t):
    return {k: show(v) if not v or isinstance(v[0], int) else [show(x) for x in v] for k, v in t.items()}


def m_builtin(ck, ts, preds, tag, release_list=True):
    tj = targets_json(ck, ts, name=f"targets-{tag}.json")
    dj = domain_json(ck, preds, name=f"preds-{tag}.json")
    rows = core.tlc(ck, "MC_Builtin", f"""SPECIFICATION Spec
INVARIANTS Emit OneValue {"Covered InOrder" if release_list else ""}
""", env=dict(TARGETS=tj, DOMAIN=dj), name=f"MC_Builtin/{tag}")
    rows.sort(key=lambda r: r["i"])
    return [r["m"] for r in rows]


def builtins_match(ck, preds, pf):
    """the library's own table: the predicates of every recorded target"""
    ts = release()["targets"]
    ms = m_builtin(ck, ts, preds, "release")
    b = core.observer(ck)
    ls = [line(cps(t["triple"])) for t in ts]
    # find each by its triple: the order of the table is the business of C12 and C13
    found = core.observe(ck, b, ["lookup"], ls)
    idx = [o["i"] if o and "panic" not in o and 0 < o["i"] < 999999 else None for o in found]
    obs = core.observe(ck, b, ["builtin", pf], [str(i or 1) for i in idx])
    for t, i, m, o in zip(ts, idx, ms, obs):
        if o is None:
            continue
        if i is None:
            ck.violation("a target of the release is not found", triple=t["triple"])
        elif "panic" in o or o["m"] != m:
            ck.violation("predicates of a built-in target not as specified", triple=t["triple"],
                         wrong=o.get("panic") or wrong_preds(preds, m, o["m"])[:10])
    ck.traces += len(ts)
    ck.part("built-in targets matched", targets=len(ts), predicates=len(preds), answers=len(ts) * len(preds))


def words(r, n):
    """words that begin, end, contain or are spelt like one another"""
    base = ["unix", "gnu", "x86", "none", "unknown", "linux", "abort", "a", "b"]
    out = []
    for w in base:
        o = r.choice(base)
        out += [w, w + "-" + o, o + "-" + w, w + o, w[1:], w[:-1], w.upper(), w.capitalize(), w + "_" + o, w + "." + o, w + "," + o, w + " ", " " + w,
                w + "1", w * 2, w[::-1], w.replace("n", "m"), "\u00e9" + w, w + "\u00e9"]
    syms = ["a", "b", "A", "-", "_", ".", "x", "1"]
    out += ["".join(t) for k in (1, 2, 3) for t in itertools.product(syms[:6], repeat=k)]
    out = list(dict.fromkeys(out))
    return r.sample(out, min(n, len(out)))


def one_bit(n, bits):
    """numbers that differ from n in one bit"""
    return [str(n ^ (1 << k)) for k in range(bits)]


def related(ck, r, n):
    """made-up targets whose values are such words, asked about such words"""
    ws = words(r, n)
    out = []
    for i in range(len(ws) * (2 if ck.quick else 4)):
        pick = lambda: ws[(i + r.choice([0, 0, 1, 7])) % len(ws)] if r.random() < 0.7 else r.choice(ws)
        opt = lambda: [] if r.random() < 0.15 else [pick()]
        out.append(dict(triple=r.choice(["t", pick()]), os=opt(), abi=opt(), env=opt(), vendor=opt(), arch=pick(), panic=pick(),
                        fam=list(dict.fromkeys(pick() for _ in range(r.choice([0, 1, 1, 2, 3])))), width=r.choice(["8", "16", "32", "64", "128"]),
                        endian=r.choice(["big", "little"]), atomics=r.sample(["1", "8", "16", "64", "80", "128", "256", "264", "ptr"], r.randint(0, 4))))
    preds = [(k, w) for k in TEXT_KEYS for w in dict.fromkeys(ws + ["", "none", "unknown"])]
    # numbers one bit apart: 0 8 64, the widths one byte wide, those of atomics two
    for n_ in (0, 8, 64):
        for x in [str(n_)] + one_bit(n_, 16):
            out.append(dict(out[0], atomics=[x], width=str(int(x) % 256)))
    preds += [("width", v) for v in dict.fromkeys(["0", "255"] + sum(([str(k)] + one_bit(k, 8) for k in (8, 32, 64)), []))] + [("endian", "big"), ("endian", "little")]
    preds += [("atomic", v) for v in dict.fromkeys(["0", "1", "80", "264", "65535", "ptr"] + sum(([str(k)] + one_bit(k, 16) for k in (0, 8, 64)), []))]
    return out, preds


def rand_targets(r, ts, n):
    """made-up targets: values of any key in any field"""
    pool = {k: vocabulary(ts, k) for k in ALL_KEYS}
    anyv = list(dict.fromkeys(v for k in TEXT_KEYS for v in pool[k]))

    def val(k):
        return r.choice(pool[k]) if r.random() < 0.8 else r.choice(anyv)

    out = []
    for i in range(n):
        if r.random() < 0.35:
            t = copy.deepcopy(r.choice(ts))        # a real one with one to three fields changed
            keys = r.sample(ALL_KEYS, r.randint(1, 3))
        else:
            t = dict(triple="t")
            keys = ALL_KEYS
        for k in keys:
            f = FIELD[k]
            if k in ("os", "abi", "env", "vendor"):
                t[f] = [] if r.random() < 0.3 else [val(k)]
            elif k == "family":
                t[f] = list(dict.fromkeys(val(k) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))))
            elif k == "atomic":
                t[f] = r.sample(pool[k], r.choice([0, 1, 3, 6]))
            elif k in ("width", "endian"):
                t[f] = r.choice(pool[k])
            else:
                t[f] = val(k)
        t["triple"] = r.choice([t["triple"], "t", r.choice(ts)["triple"], ""])
        out.append(t)
    return out


def cross_domain(r, ts, quick):
    """a small domain for the full cross product, drawn from the vocabulary"""
    def some(k, must, n):
        return must + r.sample([v for v in vocabulary(ts, k) if v not in must and len(v) < 50], n)
    os_, abi, env, vendor = (some("os", ["none", ""], 2), some("abi", [""], 2), some("env", ["", "none"], 1),
                             some("vendor", ["unknown"], 2))
    arch, panic = some("arch", [], 3 if not quick else 2), some("panic", ["unwind"], 1)
    fams = [[], ["unix"], some("family", ["wasm"], 1)] + ([] if quick else [some("family", [], 3)])
    opt = lambda vs: [[]] + [[cps(v)] for v in vs]
    dom = dict(os=opt(os_), abi=opt(abi), env=opt(env), vendor=opt(vendor), arch=[cps(v) for v in arch],
               fam=[[cps(v) for v in f] for f in fams], width=[cps(v) for v in (["32", "64"] if quick else ["16", "32", "64", "255"])],
               endian=[cps("big"), cps("little")], atomics=[[], [cps("8"), cps("ptr")]] + ([] if quick else [[cps("64")]]),
               panic=[cps(v) for v in panic])
    preds = [("os", v) for v in os_] + [("abi", v) for v in abi] + [("env", v) for v in env] + \
            [("vendor", v) for v in vendor] + [("arch", v) for v in arch] + [("panic", v) for v in panic] + \
            [("family", v) for v in dict.fromkeys(v for f in fams for v in f)] + [("width", v) for v in ("16", "32", "64")] + \
            [("endian", "big"), ("endian", "little")] + [("atomic", v) for v in ("8", "64", "ptr", "16")]
    preds += [(k, v) for k in TEXT_KEYS for v in ("", "none", "unknown", "unix", "windows")]
    return dom, list(dict.fromkeys(preds))


def c11(ck):
    ts = release()["targets"]
    r = random.Random(ck.seed * 101 + 11)
    preds = predicates(ts, all_values=True)
    pf = predfile(ck, "preds", preds)
    builtins_match(ck, preds, pf)
    made = few_fields(ts, r, 1000 if ck.quick else 30000)
    for k in range(0, len(made), 10000):
        ms = m_builtin(ck, made[k:k + 10000], preds, f"few-{k}", release_list=False)
        check_matches(ck, "targets of a few real values", [(to_cps(t), m) for t, m in zip(made[k:k + 10000], ms)], preds, pf)
    n = 4000 if ck.quick else 60000
    while n > 0:
        made = rand_targets(r, ts, min(n, 10000))
        ms = m_builtin(ck, made, preds, f"made-{n}", release_list=False)
        check_matches(ck, "made-up targets", [(to_cps(t), m) for t, m in zip(made, ms)], preds, pf)
        n -= 10000
    for i in range(2 if ck.quick else 12):
        made, ps = related(ck, r, 200)
        ms = m_builtin(ck, made, ps, f"related-{i}", release_list=False)
        check_matches(ck, "targets of related values", [(to_cps(t), m) for t, m in zip(made, ms)], ps, predfile(ck, f"related-preds-{i}", ps))
    for i in range(1 if ck.quick else 6):
        dom, ps = cross_domain(r, ts, ck.quick)
        rows = core.tlc(ck, "MC_Match", """SPECIFICATION Spec
INVARIANTS Emit OneValue
""", env=dict(DOMAIN=domain_json(ck, ps, name=f"cross-{i}.json", **dom)), name=f"MC_Match/{i}", timeout=1500)
        check_matches(ck, "cross product of fields", [(x["t"], x["m"]) for x in rows], ps,
                      predfile(ck, f"cross-preds-{i}", ps))


# -- C12 ----------------------------------------------------------------------------------------------
def trace_table(ck, trace, ts, version, name):
    p = os.path.join(ck.scratch, f"trace-{name}.ndjson")
    with open(p, "w") as f:
        for t in trace:
            f.write(json.dumps(t) + "\n")
    rows = core.tlc(ck, "Trace_Table", "SPECIFICATION Spec\nINVARIANT Report\n",
                    env=dict(TARGETS=targets_json(ck, ts, version, name=f"targets-{name}.json"), TRACE=p), workers=1,
                    name="Trace_Table/" + name)
    return rows


def dump(ck, binary=None):
    import subprocess
    b = binary or core.observer(ck)
    r = subprocess.run([b, "table"], capture_output=True, text=True, timeout=60)
    if r.returncode != 0:
        ck.violation("reading the table failed", stderr=r.stderr[-500:])
        return None
    return [json.loads(l) for l in r.stdout.splitlines()]


def c12(ck):
    rel = release()
    ts = rel["targets"]
    try:
        b = core.observer(ck, consts=True)
    except ToolError as e:
        core.observer(ck)
        if "src/consts.rs" in str(e):   # it builds without the list of the release's constants
            ck.violation("a named constant of the release does not exist", error=str(e)[:1500])
            return
        raise
    trace = dump(ck, b)
    if trace is None:
        return
    n = len(ts)
    for x in trace_table(ck, trace, ts, rel["version"], "observed"):
        i = x["l"] - 1
        o = trace[i] if i < len(trace) else {}
        what = show(o["triple"]) if "triple" in o else f"{o.get('type')}::{show(o['name'])}" if "type" in o else "table"
        ck.violation(f"not as in the release: {what}: {', '.join(sorted(x['fail']))}", observed=str(o)[:600],
                     expected=ts[i - 1] if 0 < i <= n else None)
    ck.traces += len(trace)
    ck.part("table and constants", targets=sum("triple" in t for t in trace), constants=sum("type" in t for t in trace))
    ck.sample(dict(target=show(trace[len(trace) // 3]["triple"])))
    # canaries: every kind of wrong cell is seen
    bad = copy.deepcopy(trace)
    want = set()
    r = random.Random(ck.seed)
    fields = ["triple", "os", "abi", "arch", "env", "vendor", "fam", "width", "endian", "atomics", "panic"]
    rows_ = [i for i, t in enumerate(bad) if "triple" in t]
    for i, f in zip(r.sample(rows_, len(fields)), fields):
        v = bad[i][f]
        bad[i][f] = v[:-1] if v else [[120]]
        want.add(i + 1)
    k = next(i for i, t in enumerate(bad) if t.get("type") == "Os")
    bad[k]["value"] = [cps("linuxx")]
    want.add(k + 1)
    got = {x["l"] for x in trace_table(ck, bad, ts, rel["version"], "canary")}
    if not want <= got:
        raise ToolError(f"canary: wrong table lines {sorted(want - got)} went unnoticed")
    short = [t for t in trace if t is not trace[5]]
    if not trace_table(ck, short, ts, rel["version"], "short"):
        raise ToolError("canary: a missing target went unnoticed")
    ck.canaries += len(want) + 1
    if not ck.quick:
        live_rustc(ck, rel)


def live_rustc(ck, rel):
    """The recorded release itself, compared with the compiler that is installed here, apart from the
    differences between the two releases (which are listed).  This says nothing about the library;
    it guards the record it is judged by."""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    try:
        v = subprocess.run(["rustc", "--version"], capture_output=True, text=True, timeout=60).stdout.split()[1]
    except (OSError, IndexError):
        v = None
    known = json.load(open(os.path.join(core.VERIF, "data", "rustc-1.99-differences.json")))
    if v is None or not v.startswith("1.99."):
        ck.assumptions.append("the recorded 1.86.0 release could not be compared with an installed compiler")
        return
    names = [t["triple"] for t in rel["targets"]]
    avail = set(subprocess.run(["rustc", "--print", "target-list"], capture_output=True, text=True, timeout=60).stdout.split())

    def q(t):
        o = subprocess.run(["rustc", "--target", t, "--print", "cfg"], capture_output=True, text=True, timeout=60)
        kv = {}
        for l in o.stdout.splitlines():
            if "=" in l:
                k, x = l.split("=", 1)
                kv.setdefault(k, []).append(x.strip('"'))
        one = lambda k: (kv.get(k) or [""])[0]
        opt = lambda k, absent: [] if one(k) == absent else [cps(one(k))]
        return dict(triple=cps(t), os=opt("target_os", "none"), abi=opt("target_abi", ""), arch=cps(one("target_arch")),
                    env=opt("target_env", ""), vendor=opt("target_vendor", ""), fam=[cps(x) for x in kv.get("target_family", [])],
                    width=cps(one("target_pointer_width")), endian=cps(one("target_endian")),
                    atomics=[cps(x) for x in kv.get("target_has_atomic", [])], panic=cps(one("panic")))
    have = [t for t in names if t in avail]
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(q, have))
    trace = [dict(version=cps(rel["version"]), n=len(have))] + got
    bad = trace_table(ck, trace, [t for t in rel["targets"] if t["triple"] in avail], rel["version"], "rustc")
    cells = sorted(f"{show(trace[x['l'] - 1]['triple'])} {f}" for x in bad for f in x["fail"] if x["l"] > 1)
    gone = sorted(t for t in names if t not in avail)
    if cells != known["cells"] or gone != known["gone"]:
        raise ToolError(f"the recorded release does not fit the installed compiler: {sorted(set(cells) ^ set(known['cells']))[:8]}, {sorted(set(gone) ^ set(known['gone']))}")
    ck.part("recorded release compared with rustc " + v, targets=len(have), listed_differences=len(cells) + len(gone))


# what people put around or into triples
LOOKUP_WORDS = ["", "-", "--", " ", "\t", "\n", "\0", ".json", ".toml", "/", "./", "target/", "targets.", ".2.17", "@1", ":", "+nightly", "*", "?", "\"", "'",
                "unknown", "pc", "none", "linux", "gnu", "musl", "elf", "sim", "arm64", "amd64", "x64", "i386", "x86", "armv7l", "darwin", "wasi", "wasip1", "win32", "gnueabihf",
                "x86_64", "aarch64", "x86_64-unknown", "unknown-linux-gnu", "simulator", "eabi", "eabihf", "\ufeff", "\u200b", "\u2010", "\u0131", "\u017f", "\u212a"]


# -- C13 ----------------------------------------------------------------------------------------------
def c13(ck):
    ts = release()["targets"]
    letters = [45, 95, 97, 54, 32, 233] if ck.quick else [45, 95, 97, 54, 32, 233, 65, 46, 0, 120, 0x1F600]
    rows = core.tlc(ck, "MC_Lookup", f"""SPECIFICATION Spec
CONSTANT Letters = {tset(letters)}
CONSTANT Paddings = {tset([1, 32, 64, 128, 256] if ck.quick else [1, 2, 8, 16, 32, 64, 128, 256, 512, 1024])}
INVARIANTS Emit SearchIsScan
""", env=dict(TARGETS=targets_json(ck, ts), DOMAIN=write(ck, "words.json", dict(words=[cps(w) for w in LOOKUP_WORDS]))), timeout=900)
    b = core.observer(ck)
    tab = dump(ck)
    if tab is None:
        return
    triples = [t["triple"] for t in tab if "triple" in t]

    def go(name, cases):
        obs = core.observe(ck, b, ["lookup"], [line(s) for s, _ in cases], shards=SHARDS)
        for (s, i), o in zip(cases, obs):
            if o is None:
                continue
            if "panic" in o or (o["i"] == 0) != (i == 0) or (i and not o["same"]):
                ck.violation(f"{name}: lookup not as specified", text=show(s), expected=i, observed=o)
            elif i and triples[o["i"] - 1] != s:
                ck.violation(f"{name}: lookup returned another entry", text=show(s), observed=o)
        ck.traces += len(cases)
        ck.part(name, strings=len(cases), found=sum(1 for _, i in cases if i))
    go("triples and their neighbours", [(r["s"], r["i"]) for r in rows])
    ck.sample(dict(looked_up=show(rows[len(rows) // 2]["s"])))


# -- C16 ----------------------------------------------------------------------------------------------
def c16(ck):
    b = core.observer(ck)
    rows = core.tlc(ck, "MC_Values", "SPECIFICATION Spec\nINVARIANTS Emit Order RoundTrip\n")
    single = [r for r in rows if "endian" in r]
    pairs = [r for r in rows if "eq" in r]
    obs = core.observe(ck, b, ["scalars"], [line(r["a"][0]) for r in single])
    for r, o in zip(single, obs):
        if o is None:
            continue
        o = norm(o)
        if "panic" in o or o["endian"] != r["endian"] or o["atomic"] != r["atomic"] or o["variant"] != r["atomic"] or o["err"] != r["err"]:
            ck.violation("endianness or atomic width not parsed and shown as specified", text=show(r["a"][0]), expected=r, observed=o)
    obs = core.observe(ck, b, ["values"], [line(r["a"][0]) + "|" + line(r["b"][0]) for r in pairs], shards=SHARDS)
    for r, o in zip(pairs, obs):
        if o is None:
            continue
        if "panic" in o or set(o["eq"]) != {r["eq"]} or set(o["cmp"]) != {r["cmp"]} or not o["shown"] or not o["self"]:
            ck.violation("values do not compare or show as their strings", a=show(r["a"][0]), b=show(r["b"][0]), expected=r, observed=o)
    ck.traces += len(rows)
    ck.part("values", strings=len(single), pairs=len(pairs))
    for kind, n in (("family", 3 if ck.quick else 4), ("atomic", 3 if ck.quick else 4)):
        rows = core.tlc(ck, "MC_Sets", f"""SPECIFICATION Spec
CONSTANTS
 Kind = "{kind}"
 MaxLen = {n}
INVARIANTS Emit Extensional
""", name=f"MC_Sets/{kind}", timeout=1500, heap="10g")
        check_sets(ck, f"{kind} sets", kind, rows)
    r = random.Random(ck.seed * 67 + 16)
    for kind in ("family", "atomic"):
        for i in range(1 if ck.quick else 8):
            pairs, probes = set_pairs(r, kind, 2500 if ck.quick else 6000)
            dj = write(ck, f"pairs-{kind}-{i}.json", dict(pairs=[[[cps(x) for x in s] for s in p] for p in pairs], probes=[cps(x) for x in probes]))
            rows = core.tlc(ck, "MC_SetPairs", f"""SPECIFICATION PSpec
CONSTANTS
 Kind = "{kind}"
 MaxLen = 0
INVARIANTS PEmit
""", env=dict(DOMAIN=dj), name=f"MC_SetPairs/{kind}/{i}")
            check_sets(ck, f"made-up {kind} sets", kind, rows)


def set_pairs(r, kind, n):
    """collections of all sizes of elements that differ in little; the second is often the first in another order"""
    if kind == "family":
        pool = words(r, 40) + EXTRA[:20] + ["unix" + "x" * k for k in range(4)] + ["x" * 299 + "y", "x" * 300] + ["f%02d" % k for k in range(30)]
    else:
        pool = ["ptr"] + [str(x) for x in [0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 32, 64, 80, 88, 100, 127, 128, 129, 160, 255, 256, 257, 512, 999, 1000, 1024,
                                           32767, 32768, 65279, 65280, 65534, 65535]] + one_bit(8, 16) + one_bit(64, 16)
    pool = list(dict.fromkeys(pool))
    out = []
    for _ in range(n):
        k = min(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 21, 24, 33, 48, 60]), len(pool))
        a = r.sample(pool, k)
        b = list(a)
        x = r.random()
        if x < 0.4:
            r.shuffle(b)
        elif x < 0.7:
            r.shuffle(b)
            b[r.randrange(k)] = r.choice(pool)
            b = list(dict.fromkeys(b))
        elif x < 0.8:
            r.shuffle(b)
            b = b[1:]
        else:
            b = r.sample(pool, r.randint(1, min(6, len(pool))))
        if r.random() < 0.3:
            a.sort()
        out.append((a, b) if r.random() < 0.5 else (b, a))
    return out, r.sample(pool, min(len(pool), 30)) + [x for x in ("", "ptr", "unix") if x in pool]


def check_sets(ck, name, kind, rows):
    b = core.observer(ck)
    lst = lambda xs: ";".join(elem(x) for x in xs)
    obs = core.observe(ck, b, ["sets"], ["|".join([kind, lst(r["a"]), lst(r["b"]), lst(r["probes"])]) for r in rows], shards=SHARDS)
    for r, o in zip(rows, obs):
        if o is None:
            continue
        o = norm(o)
        if ("panic" in o or o["items"] != r["items"] or o["asref"] != r["items"] or o["disp"] != r["disp"]
                or o["has"] != r["has"] or o["hasany"] != r["has"] or o["eq"] != r["eq"]
                or {o["cmp"], o["pmc"], o["pcmp"]} != {r["cmp"]} or not o["self"] or (r["eq"] and not o["hash"])):
            ck.violation(f"{name} not as specified", a=[show(x) for x in r["a"]], b=[show(x) for x in r["b"]],
                         expected=r, observed=o)
    ck.traces += len(rows)
    ck.part(name, pairs=len(rows), equal=sum(r["eq"] for r in rows), largest=max(len(r["a"]) for r in rows))
    ck.sample(dict(kind=kind, a=[show(x) for x in rows[len(rows) // 2]["a"]]))


CHECKS = dict(C11=c11, C12=c12, C13=c13, C16=c16)


# -- C20 ----------------------------------------------------------------------------------------------
KEYNAME = dict(abi="target_abi", arch="target_arch", endian="target_endian", env="target_env", family="target_family",
               atomic="target_has_atomic", os="target_os", panic="panic", width="target_pointer_width", vendor="target_vendor")
FEATURES = ["default", "std", "a-b", "Foo", "x"]
TFEATURES = ["sse2", "crt-static", "neon", "atomics"]
FLAGS_ = ["docsrs", "miri", "loom", "wasm_bindgen", "Unix", "target", "linux"]
KVS = [("getrandom_backend", "custom"), ("key", ""), ("target_like", "x"), ("panics", "abort"), ("os", "linux")]


def other_leaves():
    """leaves that are not about the target: text, leaf"""
    out = [(f'feature = "{f}"', ["feature", "", f]) for f in FEATURES]
    out += [(f'target_feature = "{f}"', ["tfeature", "", f]) for f in TFEATURES]
    out += [(f, ["flag", f, ""]) for f in FLAGS_]
    out += [(f'{k} = "{v}"', ["kv", k, v]) for k, v in KVS if not k.startswith("target_")]
    out += [("test", ["test", "", ""]), ("debug_assertions", ["debug", "", ""]), ("proc_macro", ["procmacro", "", ""])]
    return out


def target_leaves(ts):
    out = [("unix", ["family", "", "unix"]), ("windows", ["family", "", "windows"])]
    for k in ALL_KEYS:
        vs = vocabulary(ts, k)
        vs = [v for v in vs if '"' not in v and len(v) < 50]
        out += [(f'{KEYNAME[k]} = "{v}"', [k, "", v]) for v in vs]
    return out


def leafc(l):
    return [l[0], cps(l[1]), cps(l[2])]


def verdict_line(text, on):
    return line(text) + "|" + ";".join(f"{k}:{line(n)}:{line(v)}" for k, n, v in on)


def judge_verdicts(ck, name, cases, tj):
    """cases: (text in code points, leaves that are on)"""
    b = core.observer(ck)
    obs = core.observe(ck, b, ["verdict"], [verdict_line(t, on) for t, on in cases], shards=SHARDS)
    recs, at = [], []
    for i, ((t, on), o) in enumerate(zip(cases, obs)):
        if o is None:
            continue
        if "panic" in o:
            ck.violation(f"{name}: evaluation panicked", text=show(t), observed=o)
            continue
        recs.append(dict(text=t, set=on, ok=o["ok"], on=o.get("on", [])))
        at.append(i)
    real = len(recs)
    for r in [r for r in recs if r["ok"] and r["on"]][:3]:
        recs.append(dict(r, on=r["on"][1:]))
    for r in [r for r in recs[:real] if r["ok"]][:1]:
        recs.append(dict(r, ok=0, on=[]))
    p = os.path.join(ck.scratch, f"verdicts-{len(ck.parts)}.ndjson")
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    rows = core.tlc(ck, "Trace_Verdict", "SPECIFICATION Spec\nINVARIANT Report\n", env=dict(TARGETS=tj, TRACE=p),
                    name="Trace_Verdict/" + name)
    os.unlink(p)
    v = {r["c"] - 1: r for r in rows}
    if len(v) != len(recs):
        raise ToolError(f"Trace_Verdict: {len(v)} verdicts for {len(recs)} cases")
    bad = 0
    for j in range(real):
        if not v[j]["good"]:
            bad += 1
            if bad <= 20:
                names = [t["triple"] for t in release()["targets"]]
                ck.violation(f"{name}: not the compiler's verdict", text=show(recs[j]["text"]),
                             settings=[[k, show(n), show(x)] for k, n, x in recs[j]["set"]], accepted=recs[j]["ok"],
                             wrong_for=[names[i - 1] for i in v[j]["wrong"] if i <= len(names)][:8])
    for j in range(real, len(recs)):
        if v[j]["good"] and not bad:
            raise ToolError("canary: a corrupted verdict passed")
        ck.canaries += 1
    ck.traces += real
    ck.part(name, texts=real, accepted=sum(v[j]["acc"] for j in range(real)), verdicts=real * 287,
            mixed=sum(1 for j in range(real) if 0 < v[j]["on"] < 287))
    ck.sample(dict(text=show(recs[real // 2]["text"])[:200]))


BANDS = [(2, 9), (10, 40), (41, 130), (131, 200), (201, 260), (261, 420)]


def decided(r, tl, ol, fn, band, where, deep):
    """a wide or a deep expression whose value is that of one target leaf, and the settings"""
    n = r.randint(*band)
    t, l = r.choice(tl)
    on = []
    fill = []
    for i in range(n - 1):
        k, leaf = r.choice([(f'feature = "n{i}"', ["feature", "", f"n{i}"]), (f"f{i}", ["flag", f"f{i}", ""]), (f'target_feature = "n{i}"', ["tfeature", "", f"n{i}"])])
        positive = (fn == "all") == (r.random() < 0.8)
        if positive:
            on.append(leafc(leaf))
        fill.append(k if positive == (fn == "all") else f"not({k})")
    at = [r.choice([0, 0, 1]), n - 1 - r.choice([0, 0, 1]), r.randrange(n)][where] if n > 2 else where % n
    if deep:
        k = min(n, 150)
        text = t
        for i in range(k):
            text = r.choice([f"not(not({text}))", f"{fn}({text})", f"{fn}({fill[i % len(fill)]},{text})", f"{fn}({text}, {fill[i % len(fill)]})", f"not(not({text}))"])
    else:
        text = f"{fn}(" + r.choice([",", ", "]).join(fill[:at] + [t] + fill[at:]) + r.choice([")", ",)"])
    if r.random() < 0.3:
        text = f"not({text})"
    return cps(text), on[:]


def many_nots(r, tl, quick):
    """one leaf under many nots, or among many"""
    out = []
    for k in (1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) + (() if quick else (300, 400)):
        t, _ = r.choice(tl)
        on = leafc(["flag", "f0", ""])
        for text in ("not(" * k + t + ")" * k, "all(" + "not(f1), " * k + t + ")", "any(" + f"{t}," + ",".join(["not(f0)"] * k) + ")",
                     f"any(not({t})" + ",not(f0),not(not(f1))" * (k // 2) + ")"):
            out.append((cps(text), [on]))
    return out


def c20(ck):
    ts = release()["targets"]
    tj = targets_json(ck, ts)
    r = random.Random(ck.seed * 1009 + 20)
    tl, ol = target_leaves(ts), other_leaves()
    # expressions grown by the model
    b = core.observer(ck)
    for n in range(2 if ck.quick else 12):
        pool = r.sample(tl, 4) + r.sample(ol, 2)
        on = [l for _, l in r.sample(ol, 6)] + [pool[4][1]]
        pj = write(ck, f"pool-{n}.json", dict(leaves=[dict(text=cps(t), leaf=leafc(l)) for t, l in pool], on=[leafc(l) for l in on]))
        rows = core.tlc(ck, "MC_Verdict", f"""SPECIFICATION Spec
CONSTANT MaxSteps = {4 if ck.quick else 5}
INVARIANTS Emit Composes
""", env=dict(TARGETS=tj, POOL=pj), name=f"MC_Verdict/{n}", timeout=1500)
        obs = core.observe(ck, b, ["verdict"], [verdict_line(x["text"], [leafc(l) for l in on]) for x in rows], shards=SHARDS)
        for x, o in zip(rows, obs):
            if o is not None and ("panic" in o or not o["ok"] or o["on"] != sorted(x["on"])):
                ck.violation("MC_Verdict: not the compiler's verdict", text=show(x["text"]), on=on, observed=str(o)[:400])
        ck.traces += len(rows)
        ck.part("replayed MC_Verdict", texts=len(rows), verdicts=287 * len(rows))
        ck.sample(dict(model="MC_Verdict", text=show(rows[len(rows) // 2]["text"])))
    # every leaf of the vocabulary, alone and in company
    cases = []
    for i, (t, l) in enumerate(tl + ol):
        u, m = (tl + ol)[(i * 37 + 5) % (len(tl) + len(ol))]
        on = [leafc(x) for x in ([l] if l[0] not in FIELD else []) + ([m] if m[0] not in FIELD and i % 2 else [])]
        for s in ("{0}", "not({0})", "cfg(all({0}, {1}))", "any({0},{1},)", "cfg(not(any(not({0}), all({1}, {0}))))"):
            cases.append((cps(s.format(t, u)), on))
    judge_verdicts(ck, "every leaf", cases, tj)
    # wide expressions and deep ones, in which one leaf decides
    judge_verdicts(ck, "one leaf decides", [decided(r, tl, ol, fn, band, where, deep) for _ in range(1 if ck.quick else 8)
        for fn in ("any", "all") for band in BANDS for where in (0, 1, 2) for deep in ((False, True) if where == 2 or not ck.quick else (False,))], tj)
    judge_verdicts(ck, "many nots", many_nots(r, tl, ck.quick), tj)
    # random expressions, laid out at random
    g = gen.Gen(ck.seed * 13 + 20)
    n = 5000 if ck.quick else 80000
    while n > 0:
        cases = []
        for _ in range(min(n, 20000)):
            used = []

            def leaf():
                t, l = r.choice(tl) if r.random() < 0.75 else r.choice(ol)
                used.append(l)
                return [t] if t.isidentifier() else [t.split(" = ")[0], "=", t.split(" = ", 1)[1]]
            g.wsp, g.good = r.choice([0.0, 0.1, 0.5]), 1.0
            g.leaf = leaf
            toks = g.toks(r.randint(1, 5), r.choice([2, 3, 5]))
            text = g.join(toks)
            if r.random() < 0.5:
                text = "cfg(" + text + ")"
            others = [l for l in used if l[0] not in FIELD]
            on = [l for l in others if r.random() < 0.5] + [l for _, l in r.sample(ol, 2) if l not in others]
            cases.append((cps(text), [leafc(l) for l in on]))
        judge_verdicts(ck, f"random expressions {n}", cases, tj)
        n -= 20000


CHECKS["C20"] = c20
