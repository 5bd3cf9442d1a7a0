"""C22: the library's public values compare by content.  Values are described; the specification says
what content a description stands for and judges how the values made from them compare."""
import copy, itertools, json, os, random, subprocess
import core, gen
from core import cps, line, show, norm, ToolError
from targetchecks import release, vocabulary, ALL_KEYS, TEXT_KEYS, FIELD, KEYNAME, to_cps, descr, targets_json, rand_targets
from textchecks import SHARDS

ORDERED = ("function", "target")
HASHED = ("target",)


def observer_line(kind, d):
    c = d["c"]
    if kind == "expression" or kind == "number error":
        return line(cps(d["text"]))
    if c in ("parsed", "lexed"):
        return c + "|" + line(cps(d["text"]))
    if kind == "predicate":
        return "|".join([c, d["k"], line(cps(d["n"])), line(cps(d["v"]))])
    if kind in ("target predicate", "token"):
        return "|".join([c, d["k"], line(cps(d["v"]))])
    if kind == "function":
        return f"{d['k']}|{d['n']}"
    if kind == "error":
        return "|".join([c, line(cps(d["o"])), str(d["s"]), str(d["e"]), d["r"], str(d["n"]), ";".join(line(cps(x)) for x in d["x"])])
    if kind == "target":
        return c + "|" + (line(cps(d["triple"])) if c == "builtin" else descr(to_cps(d["t"])))


def spec_value(d):
    """texts as code points; names the specification has as strings stay"""
    out = {}
    for k, v in d.items():
        if k in ("c", "r", "x") or k == "k" or isinstance(v, int):
            out[k] = v
        elif k == "t":
            out[k] = to_cps(v)
        else:
            out[k] = cps(v)
    return out


def quote_ok(v):
    return '"' not in v


# values that differ in little: case, white space at either end, a zero, composed and decomposed, length
NEAR = ["", "a", "A", "a ", "a\t", " a", "aa", "a\0", "\0a", "\u00e1", "a\u0301", "a\u200b", "b", "ab", "ba", "a-b", "a_b", "i", "I", "\u0130", "\u0131"]


def descriptions(r, ts, quick):
    g = gen.Gen(r.randrange(1 << 30))
    words = ["", "a", "A", "b", "ab", "unix", "windows", "linux", "none", "unknown", "test", "é", "e\u0301", "a ", " a", "a\0", "x" * 40]
    some = lambda xs, n: r.sample(xs, min(n, len(xs)))
    out = {}
    # target predicates: same value under every key; hand-made, static and parsed
    tps = []
    for k in ALL_KEYS:
        vs = some([v for v in vocabulary(ts, k) if len(v) < 60], 7)
        if k in TEXT_KEYS:
            vs += some(words, 4) + ["a", "unix"]
        for v in dict.fromkeys(vs):
            if k == "width" and not 0 <= int(v) < 256:
                continue
            tps.append(dict(c="made", k=k, v=v))
            tps.append(dict(c="static", k=k, v=v))
            if quote_ok(v):
                tps.append(dict(c="parsed", text=f'{KEYNAME[k]} = "{v}"'))
    tps += [dict(c="parsed", text=t) for t in ("unix", "windows", "cfg(unix)", 'target_has_atomic = "008"', 'target_pointer_width = "+64"',
                                                'target_family="unix"', 'target_pointer_width = "064"')]
    out["target predicate"] = tps
    ps = [dict(c="made", k=k, n="", v="") for k in ("test", "debug", "procmacro")]
    ps += [dict(c="parsed", text=t) for t in ("test", "debug_assertions", "proc_macro", " test ", "unix", "windows")]
    names = ["a", "b", "A", "_", "unix_", "test_", "feature_", "key", "a1"]
    for v in words[:12]:
        ps.append(dict(c="made", k="feature", n="", v=v))
        ps.append(dict(c="parsed", text=f'feature = "{v}"'))
        if v:
            ps.append(dict(c="made", k="tfeature", n="", v=v))
            ps.append(dict(c="parsed", text=f'target_feature = "{v}"'))
        ps.append(dict(c="made", k="os", n="", v=v))
        ps.append(dict(c="parsed", text=f'all(target_os = "{v}")'))
    for n in names:
        ps.append(dict(c="made", k="flag", n=n, v=""))
        ps.append(dict(c="parsed", text=n))
        for v in some(words, 3) + ["", n]:
            ps.append(dict(c="made", k="kv", n=n, v=v))
            ps.append(dict(c="parsed", text=f'{n} = "{v}"'))
    for k in ("kv", "feature", "tfeature", "vendor", "panic", "family"):
        ps += [dict(c="made", k=k, n="k" if k == "kv" else "", v=v) for v in NEAR if v or k != "tfeature"]
        ps += [dict(c="parsed", text=(KEYNAME.get(k) or dict(kv="k", feature="feature", tfeature="target_feature")[k]) + f'="{v}"') for v in NEAR if v or k != "tfeature"]
    ps += [dict(c="made", k="kv", n=n, v="v") for n in NEAR] + [dict(c="made", k="flag", n=n, v="") for n in NEAR]
    ps += [dict(c="made", k="kv", n=v, v=n) for n, v in (("a", "b"), ("b", "a"), ("", "ab"), ("ab", ""), ("a", ""), ("", "a"))]
    ps += [dict(c="made", k=k, n="", v=v) for k, v in (("family", "unix"), ("family", "windows"), ("width", "64"), ("width", "8"), ("atomic", "8"), ("atomic", "64"),
                                                        ("atomic", "ptr"), ("endian", "big"), ("endian", "little"), ("panic", "a"), ("vendor", "a"), ("env", "a"), ("abi", "a"), ("arch", "a"))]
    out["predicate"] = ps
    toks = [dict(c="made", k=k, v="") for k in ("eq", "all", "any", "not", "open", "close", "comma")]
    toks += [dict(c="lexed", text=t) for t in ("=", "all", "any(", " not", "(", ")", ",", "\u3000all", "allx", "an", '"all"', '""', "a", "A=", '"a"', '"="', '"("')]
    for w in NEAR + ["all", "any", "=", "(", "All"]:
        toks += [dict(c="made", k="key", v=w), dict(c="made", k="val", v=w)]
    out["token"] = toks
    out["function"] = [dict(c="made", k=k, n=n) for k in ("all", "any") for n in (0, 1, 2, 3, 10, 255, 256, 65536)] + [dict(c="made", k="not", n=0)] * 2
    errs = []
    for t in ["", "all(", "a)", '"', "a b", "not()", "not(a,b)", "not(a,b,c)", "=", "é", "a,b", 'target_pointer_width="x"', 'target_has_atomic="x"', "cfg()", 'target_endian="x"', "target_os"]:
        errs.append(dict(c="parsed", text=t))
    errs += [dict(c="made", o=o, s=0, e=1, r="Empty", n=0, x=[]) for o in NEAR + ["ab", "xy"]]
    errs += [dict(c="made", o="ab", s=0, e=1, r="Unexpected", n=0, x=[x]) for x in NEAR] + [dict(c="made", o="ab", s=0, e=1, r="Unexpected", n=0, x=["all", x]) for x in NEAR]
    errs += [dict(c="made", o="ab", s=s, e=e, r="InvalidNot", n=n, x=[]) for s, e, n in ((0, 1, 2), (0, 1, 258), (0, 1, 65538), (0, 257, 2), (256, 1, 2), (1, 0, 2), (0, 0, 2), (1, 1, 2), (2, 2, 2))]
    for o, s, e, (rr, n, x) in itertools.product(["a b", "a c", ""], [0, 1], [1, 2],
            [("Unexpected", 0, ["all"]), ("Unexpected", 0, ["any"]), ("Unexpected", 0, ["all", "any"]), ("Unexpected", 0, ["any", "all"]), ("Unexpected", 0, []), ("InvalidNot", 0, []), ("InvalidNot", 2, []), ("InvalidNot", 3, [])] +
            [(k, 0, []) for k in ("InvalidCharacters", "UnclosedParens", "UnopenedParens", "UnclosedQuotes", "UnopenedQuotes", "Empty", "InvalidInteger", "MultipleRootPredicates", "InvalidHasAtomic", "UnknownBuiltin")]):
        errs.append(dict(c="made", o=o, s=s, e=e, r=rr, n=n, x=x))
    errs += [dict(c="made", o="all(", s=3, e=4, r="UnclosedParens", n=0, x=[]), dict(c="made", o="not(a,b)", s=0, e=8, r="InvalidNot", n=2, x=[]),
             dict(c="made", o="", s=0, e=0, r="Empty", n=0, x=[])]
    out["error"] = errs
    exprs = ["a", "cfg(a)", " a", "a ", "cfg( a)", "all(a,b)", "all(a, b)", "all(b,a)", "any(a,b)", "cfg(all(a,b))", "all(a,b,)", "not(a)", "not(b)", 'a="b"', 'a ="b"', 'a="B"', "A",
             'feature="a"', 'feature="b"', "unix", 'target_family="unix"', "all()", "any()"]
    exprs += [x for p in (g.near() for _ in range(120 if quick else 400)) for x in p if len(x) < 120]
    out["expression"] = [dict(c="text", text=t) for t in dict.fromkeys(exprs)]
    out["number error"] = [dict(c="text", text=t) for t in ("", "a", "A", "ptrr", " 8", "8 ", "-1", "65536", "99999", "Ptr", "é", "+", "0x8")]
    # targets: one with any one or two fields changed, in other orders, from owned and static parts
    t0 = copy.deepcopy(r.choice([t for t in ts if t["os"] and t["env"] and t["fam"]]))
    t0["fam"] = ["unix", "wasm"]
    alt = {k: [] for k in FIELD.values()}
    for k in ALL_KEYS:
        f = FIELD[k]
        vs = [v for v in vocabulary(ts, k) if len(v) < 40]
        if f in ("os", "abi", "env", "vendor"):
            alt[f] = [[], [""], [r.choice(vs)], ["a"], ["A"], ["a "], ["aa"]]
        elif f == "fam":
            alt[f] = [["wasm", "unix"], ["unix"], [], ["unix", "wasm", "wasm"], ["unix", "Wasm"], ["unix", "windows"]]
        elif f == "atomics":
            a = t0["atomics"] or ["8"]
            alt[f] = [a[::-1], a[1:], a + ["128"], a + a[:1], a + ["264"], a + ["ptr"]]
        elif f == "width":
            alt[f] = ["16", "128"]
        elif f == "endian":
            alt[f] = ["big", "little"]
        else:
            alt[f] = [r.choice(vs), "", t0[f] + "x", t0[f].upper(), t0[f] + " "]
    alt["triple"] = ["x", "", "X", "x ", r.choice(ts)["triple"], t0["triple"].upper()]
    made = [t0]
    for f, vs in alt.items():
        made += [dict(t0, **{f: v}) for v in vs]
    pairs = [(f, v, h, w) for (f, vs), (h, ws) in itertools.combinations(alt.items(), 2) for v in vs for w in ws]
    made += [dict(t0, **{f: v, h: w}) for f, v, h, w in some(pairs, 120 if quick else 330)]
    tds = [dict(c=r.choice(["owned", "static"]), t=t) for t in made]
    tds += [dict(c="static", t=t) for t in made[:20]] + [dict(c="builtin", triple=t["triple"]) for t in some(ts, 40 if quick else 287)]
    tds += [dict(c="owned", t=t) for t in some(ts, 20)] + [dict(c="owned", t=dict(t, fam=t["fam"][::-1], atomics=t["atomics"][::-1])) for t in some(ts, 20)]
    out["target"] = tds
    return out


def usable(ck, ds):
    """Whether a text is accepted is another property's business: leaves out the parsed values the
    library does not give."""
    b = core.observer(ck)
    flat = [(k, d) for k, v in ds.items() for d in v if d["c"] in ("parsed", "text", "lexed") and k != "number error"]
    obs = core.observe(ck, b, ["text", "parse,lex"], [line(cps(d["text"])) for _, d in flat], shards=SHARDS)
    drop = set()
    for (k, d), o in zip(flat, obs):
        if o is None or "panic" in o:
            drop.add(id(d))
        elif k == "token":
            if not o["t"]:
                drop.add(id(d))
        elif (k == "error") == bool(o["ok"]) or (k != "error" and not o["l"] and k != "expression"):
            drop.add(id(d))
    return {k: [d for d in v if id(d) not in drop] for k, v in ds.items()}, len(drop)


def c22(ck):
    ts = release()["targets"]
    tj = targets_json(ck, ts)
    b = core.observer(ck)
    for rnd in range(1 if ck.quick else 12):
        r = random.Random(ck.seed * 17 + 22 + rnd * 1001)
        ds, dropped = usable(ck, descriptions(r, ts, ck.quick))
        trace, who = [], []
        for kind, vs in ds.items():
            p = subprocess.run([b, "content", kind], input="".join(observer_line(kind, d) + "\n" for d in vs), capture_output=True, text=True, timeout=300)
            if p.returncode != 0:
                if "description" in p.stderr:
                    raise ToolError(p.stderr[-800:])
                ck.violation(f"comparing values of kind {kind} panicked", stderr=p.stderr[-800:])
                continue
            rows = [json.loads(l) for l in p.stdout.splitlines()]
            first = len(trace) + 1
            for d, o in zip(vs, rows):
                trace.append(dict({k: [j + first for j in v] for k, v in o.items()}, kind=kind, d=spec_value(d), first=first, last=first + len(vs) - 1,
                                  ordered=int(kind in ORDERED), hashed=int(kind in HASHED)))
                who.append((kind, d))
        real = len(trace)
        bad = judge(ck, trace, tj, f"observed {rnd}")
        for i, v in bad.items():
            if v["fail"]:
                w = trace[i]
                kind, d = who[i]
                wrong = dict(equal_to=[who[j - 1][1] for j in w["eq"] if j - 1 != i][:4])
                ck.violation(f"{kind}: {', '.join(sorted(v['fail']))} not by content", value=d, **wrong)
        ck.traces += real
        ck.part("values compared", values={k: len(v) for k, v in ds.items()}, comparisons=sum(len(v) ** 2 for v in ds.values()),
                equal=sum(v["same"] for v in bad.values()), left_out=dropped)
        ck.sample(dict(value=str(who[real // 3])[:300]))
        if ck.violations:
            return
        if rnd == 0:
            # every corrupted relation is seen
            t2, hit = list(trace), set()
            for kind in ds:
                ks = [i for i, w in enumerate(who) if w[0] == kind]
                for f in ["eq", "ne", "ceq"] + (["lt", "gt", "plt"] if kind in ORDERED else []) + (["hash"] if kind in HASHED else []):
                    k = next((k for k in ks if k not in hit and (trace[k][f] if f != "hash" else k + 1 in trace[k][f])), None)
                    if k is not None:
                        cut = [j for j in trace[k][f] if j != k + 1] if f == "hash" else trace[k][f][1:]
                        t2[k] = dict(trace[k], **{f: cut})
                        hit.add(k)
            v2 = judge(ck, t2, tj, "canaries")
            for k in hit:
                if not v2[k]["fail"]:
                    raise ToolError("canary: a corrupted relation went unnoticed")
                ck.canaries += 1


def judge(ck, trace, tj, name):
    p = os.path.join(ck.scratch, "content.ndjson")
    with open(p, "w") as f:
        for t in trace:
            f.write(json.dumps(t) + "\n")
    rows = core.tlc(ck, "Trace_Content", "SPECIFICATION Spec\nINVARIANT Report\n", env=dict(TRACE=p, TARGETS=tj), name="Trace_Content/" + name)
    os.unlink(p)
    v = {x["l"] - 1: x for x in rows}
    if len(v) != len(trace):
        raise ToolError(f"Trace_Content: {len(v)} verdicts for {len(trace)} values")
    return v


CHECKS = dict(C22=c22)
