"""C01-C10: the expression language.  Direction A replays what the specification's models emit into
the library; direction B has the specification judge what the library did on random texts."""
import copy, json, os
import core, gen
from core import cps, line, show, norm, ToolError

SHARDS = 8

# -- direction A: what a model expects against what was observed ---------------------------------


def bag(ls):
    return sorted(json.dumps(x) for x in ls)


def differs(parts, exp, o):
    """The parts of an observation in which it is not what the model expects."""
    if o is None:
        return []
    if "panic" in o:
        return ["panic"]
    bad = []
    both = exp["ok"] and o["ok"]
    neither = not exp["ok"] and not o["ok"]
    for p in parts:
        if p == "accept" and bool(exp["ok"]) != bool(o["ok"]):
            bad.append(p)
        elif p == "leaves" and both and bag(exp["l"]) != bag(o["l"]):
            bad.append(p)
        elif p == "numbers" and not exp["ok"] and o["ok"] and exp["r"] in NOT_A_NUMBER:
            bad.append(p)
        elif p == "calls" and both and not o["calls"]:
            bad.append(p)
        elif p == "bool" and both and exp["v"]["b"] != o["v"]["b"]:
            bad.append(p)
        elif p == "kleene" and both and any(exp["v"][k] != o["v"][k] for k in ("kt", "kf")):
            bad.append(p)
        elif p == "logic" and both and any(exp["v"][k] != o["v"][k] for k in ("bt", "bf", "g1", "g2")):
            bad.append(p)
        elif p == "err" and neither and any(norm(exp[k]) != norm(o[k]) for k in "rxnse"):
            bad.append(p)
        elif p == "span" and neither and not o["sl"]:
            bad.append(p)
        elif p == "render" and neither and exp.get("d") and exp["d"] != o.get("d"):
            bad.append(p)
        elif p == "orig" and "o" in exp and norm(exp["o"]) != norm(o["o"]):
            bad.append(p)
        elif p == "re" and both and not (o["re"] and o["cl"] and o["same"]):
            bad.append(p)
    return bad


# what is written cannot be shown as the number it is: whatever an acceptance shows is something else
NOT_A_NUMBER = ("InvalidInteger", "InvalidHasAtomic")
FLAGS = {"accept": "parse", "numbers": "parse", "leaves": "parse", "calls": "eval", "bool": "eval", "kleene": "eval",
         "logic": "eval", "err": "parse", "span": "parse", "render": "disp", "orig": "parse", "re": "re",
         "lex": "lex"}


def flags(parts):
    return ",".join(sorted({FLAGS[p] for p in parts} | {"parse"}))


def replay(ck, name, cases, parts):
    """cases: (input code points, expectation)"""
    b = core.observer(ck)
    obs = core.observe(ck, b, ["text", flags(parts)], [line(i) for i, _ in cases], shards=SHARDS)
    n = bad = 0
    for (i, exp), o in zip(cases, obs):
        if o is None:
            continue
        n += 1
        d = differs(parts, exp, o)
        if d:
            bad += 1
            if bad <= 20:
                ck.violation(f"{name}: {', '.join(d)} not as specified", text=show(i), code_points=i,
                             expected=exp, observed=o)
    ck.traces += n
    ck.part("replayed " + name, cases=n, accepted=sum(1 for _, e in cases if e["ok"]), compared=sorted(parts))
    if cases:
        ck.sample(dict(model=name, text=show(cases[len(cases) // 2][0])[:200]))
    # the comparison must see a difference
    for p in parts:
        for (i, exp), o in zip(cases, obs):
            if o and "panic" not in o and not differs([p], exp, o):
                c = corrupt(p, o)
                if c is not None and (p not in ("render", "orig") or exp.get({"render": "d", "orig": "o"}[p])):
                    if not differs([p], exp, c):
                        raise ToolError(f"canary: a corrupted {p} went unnoticed")
                    ck.canaries += 1
                    break


def corrupt(part, o):
    """An observation that must be rejected in this part, or None if this one has nothing to corrupt."""
    c = copy.deepcopy(o)
    ok = c.get("ok")
    if part == "accept":
        if not ok:
            return None
        c["ok"] = 0
    elif part == "leaves":
        if not ok or not c["l"]:
            return None
        c["l"].append(c["l"][0])
    elif part == "numbers":
        if ok or c["r"] not in NOT_A_NUMBER:
            return None
        c["ok"] = 1
    elif part == "calls":
        if not ok:
            return None
        c["calls"] = 0
    elif part == "bool":
        if not ok:
            return None
        c["v"]["b"] ^= 4
    elif part == "kleene":
        if not ok:
            return None
        c["v"]["kf"] ^= 4
    elif part == "logic":
        if not ok:
            return None
        c["v"]["g2"] = (c["v"]["g2"] + 1) % 32749
    elif part == "err":
        if ok:
            return None
        c["e"] += 1
    elif part == "span":
        if ok:
            return None
        c["sl"] = []
    elif part == "render":
        if ok or not c.get("d"):
            return None
        c["d"] = c["d"][:-1]
    elif part == "orig":
        c["o"] = c["o"] + [32]
    elif part == "re":
        if not ok:
            return None
        c["same"] = 0
    elif part == "lex":
        if not c["t"]:
            return None
        c["t"][-1][3] += 1
    return c


# -- the models ------------------------------------------------------------------------------------
ALL_SYMS = ["open", "close", "comma", "all", "any", "not", "key", "unix", "eq", "val"]
FEW_SYMS = ["open", "close", "comma", "all", "any", "not", "key"]
NOT_SYMS = ["open", "close", "comma", "any", "not", "key"]
ODD_SYMS = ["open", "close", "comma", "all", "not", "key", "unix", "feature", "endian", "eq", "val", "stray", "uquote"]


def tset(xs):
    return "{" + ",".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


def tf(b):
    return "TRUE" if b else "FALSE"


def m_tokens(ck, maxlen, syms, junk, layout=0, render=False):
    rows = core.tlc(ck, "MC_Tokens", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {maxlen}
 Alphabet = {tset(syms)}
 Layout = {layout}
 Junk = {tf(junk)}
 Render = {tf(render)}
INVARIANTS Emit LexAgrees AcceptsGrammar SpansUsable KleeneSound
""", name=f"MC_Tokens/{maxlen}/{len(syms)}/{tf(junk)}/{layout}")
    return [(r["i"], r) for r in rows]


def m_strings(ck, maxlen, pieces, render=False, lex=False, parse=True):
    rows = core.tlc(ck, "MC_Strings", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {maxlen}
 Pieces = {tset(pieces)}
 Render = {tf(render)}
 EmitLex = {tf(lex)}
 EmitParse = {tf(parse)}
INVARIANTS Emit TilesText AcceptsGrammar SpansUsable
""", name=f"MC_Strings/{maxlen}/{len(pieces)}")
    return rows


def m_leaves(ck, contexts, render=False):
    rows = core.tlc(ck, "MC_Leaves", f"""SPECIFICATION Spec
CONSTANTS
 UseContexts = {tset(contexts)}
 Render = {tf(render)}
INVARIANTS Emit AcceptsGrammar SpansUsable LegalForms
""", name=f"MC_Leaves/{len(contexts)}")
    return [(r["i"], r["p"]) for r in rows]


def m_words(ck, contexts, render=False):
    letters = {115, 95, 49, 65, 45}
    rows = core.tlc(ck, "MC_Words", f"""SPECIFICATION WSpec
CONSTANTS
 UseContexts = {tset(contexts)}
 Render = {tf(render)}
 EditLetters = {tset(letters)}
INVARIANTS EmitDone AcceptsGrammar SpansUsable WLegalForms
""", name=f"MC_Words/{len(contexts)}")
    return [(r["i"], r["p"]) for r in rows]


def m_wrapper(ck, off, render=False):
    rows = core.tlc(ck, "MC_Wrapper", f"""SPECIFICATION Spec
CONSTANTS
 MaxOff = {off}
 Render = {tf(render)}
INVARIANTS EmitWrapped OnlyThat
""", name=f"MC_Wrapper/{off}")
    return list({line(r["i"]): (r["i"], r["p"]) for r in rows}.values())


def m_groups(ck, wide, shapes):
    rows = core.tlc(ck, "MC_Groups", f"""SPECIFICATION Spec
CONSTANTS
 Wide = {wide}
 Shapes = {{{", ".join(map(str, shapes))}}}
INVARIANT EmitGroups
""", name=f"MC_Groups/{wide}")
    return list({line(r["i"]): (r["i"], r) for r in rows}.values())


def groups(ck, parts):
    """wide lists next to and inside each other"""
    if ck.quick:
        replay(ck, "MC_Groups", m_groups(ck, 8, range(1, 13)), parts)
    else:
        for s in range(1, 13):
            replay(ck, f"MC_Groups {s}", m_groups(ck, 20, [s]), parts)


def m_layout(ck, maxlen, syms):
    return core.tlc(ck, "MC_Layout", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {maxlen}
 Alphabet = {tset(syms)}
 Layout = 0
 Junk = FALSE
 Render = FALSE
INVARIANTS EmitVariants VariantsAgree
""", name=f"MC_Layout/{maxlen}/{len(syms)}")


def m_near(ck, maxlen, syms, bad=False):
    rows = core.tlc(ck, "MC_Near", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {maxlen}
 Alphabet = {tset(syms)}
 Layout = 0
 Junk = FALSE
 Render = FALSE
 Edits = {tset(syms)}
 Bad = {tf(bad)}
INVARIANTS EmitNear
""", name=f"MC_Near/{maxlen}/{len(syms)}/{tf(bad)}")
    return list({line(r["i"]): (r["i"], r) for r in rows}.values())


def m_same(ck, maxlen, two):
    rows = core.tlc(ck, "MC_Same", f"""SPECIFICATION Spec
CONSTANTS
 MaxLen = {maxlen}
 Alphabet = {tset(FEW_SYMS)}
 Layout = 0
 Junk = FALSE
 Render = FALSE
 Two = {tf(two)}
INVARIANTS EmitSame EachCounts
""", name=f"MC_Same/{maxlen}/{tf(two)}")
    return list({line(r["i"]): (r["i"], r) for r in rows}.values())


def m_quoted(ck):
    rows = core.tlc(ck, "MC_Quoted", "SPECIFICATION Spec\nINVARIANTS EmitVerbatim\n")
    return [(r["i"], r) for r in rows]


PIECES = [["all", "a", "1", "(", ")", ",", "=", "q", "sp", "ideo", "e'", "cfg"],
          ["not", "any", "l", "_", "(", ")", ",", "q", "nel", "zwsp", "emoji", "-"],
          ["unix", "feature", "Z", "=", "q", "tab", "ls", "us", "eur", "arab", "fw", ")"],
          ["all", "not", "(", ")", ",", "a", "hair", "nbsp", "vt", "nul", "cfg", "q"],
          ["cfg", "a", "(", ")", ",", "all", "sp", "="]]


def pieces(ck, which, maxlen, **kw):
    out = []
    for w in which:
        out += m_strings(ck, maxlen, PIECES[w], **kw)
    return out


# -- scale -------------------------------------------------------------------------------------------
def m_scale(ck, maxk, machine, far):
    return core.tlc(ck, "MC_Scale", f"""SPECIFICATION Spec
CONSTANTS
 MachineMax = {machine}
 MaxK = {maxk}
 FarK = {far}
INVARIANTS Emit ClosedForm
""", name=f"MC_Scale/{maxk}", timeout=1500)


BIGK = {1000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 262144, 524288, 1048576, 2097152}


def scale_differs(parts, r, o):
    if o is None:
        return []
    if "panic" in o:
        return ["panic"]
    bad = []
    both = r["ok"] and o["ok"]
    neither = not r["ok"] and not o["ok"]
    st = None
    if both:
        st = o["stride"]
        mask = sum(1 << i for i in range(0, 30, st))
    for p in parts:
        if p == "accept" and bool(r["ok"]) != bool(o["ok"]):
            bad.append(p)
        elif p == "answer" and (not o["lexend"] or (not o["ok"] and not o["sl"])):
            bad.append(p)
        elif p == "leaves" and both:
            nz = lambda l: [l[0], [x for x in l[1] if x[1]], [x for x in l[2] if x[1]]]
            nb = lambda b: sorted(json.dumps([nz(norm(x[0])), x[1]]) for x in b if x[1])
            if nb(r["bag"]) != nb(o["bag"]):
                bad.append(p)
        elif p == "calls" and both and not o["calls"]:
            bad.append(p)
        elif p == "bool" and both and r["v"] and r["v"][0]["b"] & mask != o["v"]["b"]:
            bad.append(p)
        elif p == "kleene" and both and r["v"] and any(r["v"][0][k] & mask != o["v"][k] for k in ("kt", "kf")):
            bad.append(p)
        elif p == "logic" and both and r["v"] and any(r["v"][0][k] != o["v"][k] for k in ("bt", "bf", "g1", "g2")):
            bad.append(p)
        elif p == "err" and neither and any(norm(r["err"][k]) != norm(o[k]) for k in "rxnse"):
            bad.append(p)
        elif p == "span" and neither and not o["sl"]:
            bad.append(p)
        elif p == "render" and neither and r["dl"] != o["dl"]:
            bad.append(p)
        elif p == "orig" and (r["tb"] != o["tb"] or not o["src"]):
            bad.append(p)
        elif p == "re" and both and not o["re"]:
            bad.append(p)
    return bad


def scale(ck, parts, maxk=None, machine=None, families=None, binary=None, rows=None):
    maxk = maxk or (100000 if ck.quick else 262144)
    rows = rows or m_scale(ck, maxk, machine or (64 if ck.quick else 300), maxk)
    rows = [r for r in rows if r["k"] <= 2100 or r["k"] in BIGK]
    if families:
        rows = [r for r in rows if families(r)]
    rows.sort(key=lambda r: (r["k"] % 8, r["k"]))
    # interleave, so that every shard gets its share of the large ones
    big = [r for r in rows if r["k"] > 2100]
    small = [r for r in rows if r["k"] <= 2100]
    n = len(small) // max(1, len(big)) + 1
    mixed = []
    while small or big:
        mixed += small[:n]
        del small[:n]
        mixed += big[:1]
        del big[:1]
    rows = mixed
    b = binary or core.observer(ck)
    lines = ["|".join([str(r["k"])] + [line(p) for p in r["parts"]]) for r in rows]
    obs = core.observe(ck, b, ["scale"], lines, shards=SHARDS, timeout=1200, min_shard=100)
    n = 0
    for r, o in zip(rows, obs):
        if o is None:
            continue
        n += 1
        d = scale_differs(parts, r, o)
        if d:
            ck.violation(f"scale: family {r['f']} at k={r['k']}: {', '.join(d)} not as specified",
                         family=[show(p) for p in r["parts"]], k=r["k"], expected=r, observed=o)
    ck.traces += n
    ck.part("replayed scale families", cases=n, families=len({r["f"] for r in rows}), largest_k=max(r["k"] for r in rows),
            compared=sorted(parts))
    ck.sample(dict(model="MC_Scale", family=rows[-1]["f"], k=rows[-1]["k"]))


# -- direction B -----------------------------------------------------------------------------------
def judge(ck, name, texts, parts):
    """The library's behaviour on these texts, validated by the trace specification."""
    b = core.observer(ck)
    texts = [cps(t) if isinstance(t, str) else t for t in texts]
    obs = core.observe(ck, b, ["text", "lex,parse,eval,disp,re"], [line(t) for t in texts], shards=SHARDS)
    cases = [(t, o) for t, o in zip(texts, obs) if o is not None]
    real = len(cases)
    # canaries: corrupted copies the specification must reject, in the part corrupted
    want = []
    for p in parts:
        k = 0
        for t, o in cases[:real]:
            if "panic" in o:
                continue
            c = corrupt(p, o)
            if c is not None:
                want.append((len(cases), p))
                cases.append((t, c))
                k += 1
                if k == 3:
                    break
    path = os.path.join(ck.scratch, f"trace-{len(ck.parts)}.ndjson")
    with open(path, "w") as f:
        for t, o in cases:
            f.write(json.dumps(dict(o, i=t)) + "\n")
    rows = core.tlc(ck, "Trace_Text", f"""SPECIFICATION Spec
CONSTANT Parts = {tset(parts)}
INVARIANT Report
""", env=dict(TRACE=path), name="Trace_Text/" + name)
    os.unlink(path)
    verdicts = {r["c"] - 1: r for r in rows}
    if len(verdicts) != len(cases):
        raise ToolError(f"Trace_Text: {len(verdicts)} verdicts for {len(cases)} cases")
    for i, p in want:
        if p not in verdicts[i]["fail"]:
            # a copy of a wrong observation may be right by chance
            if i and not verdicts_bad(verdicts, real):
                raise ToolError(f"canary: a corrupted {p} passed the trace specification")
        else:
            ck.canaries += 1
    n = 0
    for i in range(real):
        v = verdicts[i]
        if v["fail"]:
            n += 1
            if n <= 20:
                ck.violation(f"{name}: {', '.join(v['fail'])} not as specified", text=show(cases[i][0]),
                             code_points=cases[i][0], expected=v["exp"], observed=cases[i][1])
    ck.traces += real
    ck.part("validated " + name, cases=real, accepted=sum(1 for i in range(real) if verdicts[i]["acc"]),
            canaries=len(want), parts=sorted(parts))
    if texts:
        ck.sample(dict(random=show(texts[len(texts) // 3])[:200]))


def verdicts_bad(verdicts, real):
    return any(verdicts[i]["fail"] for i in range(real))


def random_texts(ck, parts, quick=4000, thorough=60000, **kw):
    g = gen.Gen(ck.seed * 7919 + sum(map(ord, ck.pid)))
    n = quick if ck.quick else thorough
    done = 0
    while done < n:
        m = min(20000, n - done)
        judge(ck, f"random texts {done}", g.texts(m, **kw), parts)
        done += m
    n = 150 if ck.quick else 3000
    judge(ck, "long random texts", [g.long(good=kw.get("p_valid", 0.45)) for _ in range(n)], parts)


def near(ck, parts):
    """accepted texts and those one edit away"""
    replay(ck, "MC_Near", m_near(ck, 9 if ck.quick else 11, ALL_SYMS), parts)
    replay(ck, "MC_Near not", m_near(ck, 10 if ck.quick else 13, NOT_SYMS), parts)
    replay(ck, "MC_Near wrong leaves", m_near(ck, 7 if ck.quick else 9, FEW_SYMS, bad=True), parts)


def same(ck, parts):
    """the same leaf more than once"""
    replay(ck, "MC_Same", m_same(ck, 11 if ck.quick else 14, False), parts)
    replay(ck, "MC_Same two", m_same(ck, 10 if ck.quick else 12, True), parts)


# -- the checks ------------------------------------------------------------------------------------
def c01(ck):
    parts = ["accept"]
    replay(ck, "MC_Tokens", m_tokens(ck, 10 if ck.quick else 13, ALL_SYMS, True), parts)
    replay(ck, "MC_Tokens odd", m_tokens(ck, 7 if ck.quick else 9, ODD_SYMS, True, layout=2), parts)
    replay(ck, "MC_Leaves", m_leaves(ck, [1, 2, 5] if ck.quick else range(1, 14)), parts)
    strs = pieces(ck, [4], 5) if ck.quick else pieces(ck, [0, 1, 2, 3], 4) + pieces(ck, [4], 6)
    replay(ck, "MC_Strings", [(r["i"], r["p"]) for r in strs], parts)
    near(ck, parts)
    replay(ck, "MC_Wrapper", m_wrapper(ck, 2 if ck.quick else 3), parts)
    replay(ck, "MC_Words", m_words(ck, [1] if ck.quick else [1, 3, 11]), parts)
    scale(ck, parts)
    random_texts(ck, parts)


def c02(ck):
    b = core.observer(ck)
    rows = m_scale(ck, 100000 if ck.quick else 262144, 32 if ck.quick else 300, 2097152)
    # the largest also unoptimised, as in a user's debug build: more stack per call
    far = {1000, 65536, 100000, 2097152} if ck.quick else BIGK
    scale(ck, ["accept", "answer"], rows=rows, binary=core.observer(ck, plain=True), families=lambda r: r["k"] in far)
    scale(ck, ["accept", "answer"], rows=rows, families=lambda r: r["k"] <= 262144)
    strs = pieces(ck, [0, 3] if ck.quick else [0, 1, 2, 3, 4], 4, lex=True)
    obs = core.observe(ck, b, ["text", "lex,parse,eval,disp,re"], [line(r["i"]) for r in strs], shards=SHARDS)
    for r, o in zip(strs, obs):
        if o is not None and ("panic" in o or o["runaway"] or o["after"]):
            ck.violation("MC_Strings: no answer", text=show(r["i"]), observed=o)
    ck.traces += len(strs)
    g = gen.Gen(ck.seed * 31 + 2)
    n = 30000 if ck.quick else 1500000
    # texts the specification is not asked about, only that there is an answer: long, deep, wide,
    # truncated and mutated ones
    while n > 0:
        m = min(n, 60000)
        T = g.texts(m * 9 // 10, p_valid=0.25, maxdepth=9) + [g.monster() for _ in range(m // 10)]
        obs = core.observe(ck, b, ["text", "lex,parse,eval,disp,re"], [line(cps(t)) for t in T], shards=SHARDS, timeout=900)
        for t, o in zip(T, obs):
            if o is not None and ("panic" in o or o["runaway"] or o["after"]):
                ck.violation("no answer", text=t[:2000], observed=str(o)[:600])
        ck.traces += len(T)
        ck.part("random and truncated texts: an answer", cases=len(T), longest=max(map(len, T)))
        n -= m
    random_texts(ck, ["lex"], quick=2000, thorough=20000)


def c03(ck):
    parts = ["bool"]
    groups(ck, parts)
    replay(ck, "MC_Tokens", m_tokens(ck, 15 if ck.quick else 18, FEW_SYMS, False), parts)
    replay(ck, "MC_Tokens kv", m_tokens(ck, 12 if ck.quick else 14, ALL_SYMS, False, layout=2), parts)
    same(ck, parts)
    scale(ck, parts, families=lambda r: r["ok"])
    random_texts(ck, parts, p_valid=0.95)


def own_logics(ck):
    """the operations of the logics the library brings, called directly"""
    rows = core.tlc(ck, "MC_Logic", "SPECIFICATION Spec\nINVARIANTS Emit Lawful\n")
    obs = core.observe(ck, core.observer(ck), ["logic"], [r["x"] + " " + r["y"] for r in rows])
    for r, o in zip(rows, obs):
        if o is not None and ("panic" in o or any(x != r["o"] for x in o)):
            ck.violation("a logic of the library's own is not as specified", x=r["x"], y=r["y"], expected=r["o"], observed=o)
    if len(rows) < 9 or len(obs[0]) != 2:
        raise ToolError("MC_Logic: too few values")
    ck.traces += len(rows)
    ck.part("operations called directly", pairs=len(rows))


def c04(ck):
    parts = ["kleene", "logic"]
    groups(ck, parts)
    own_logics(ck)
    replay(ck, "MC_Tokens", m_tokens(ck, 15 if ck.quick else 18, FEW_SYMS, False), parts)
    same(ck, parts)
    scale(ck, parts, families=lambda r: r["ok"])
    random_texts(ck, parts, p_valid=0.95)


def c05(ck):
    parts = ["leaves", "calls"]
    groups(ck, parts)
    replay(ck, "MC_Tokens", m_tokens(ck, 14 if ck.quick else 17, FEW_SYMS, False), parts)
    replay(ck, "MC_Tokens kv", m_tokens(ck, 11 if ck.quick else 14, ALL_SYMS, False), parts)
    replay(ck, "MC_Leaves", m_leaves(ck, [5, 12, 13] if ck.quick else range(1, 14)), parts)
    same(ck, parts)
    scale(ck, parts, families=lambda r: r["ok"])
    random_texts(ck, parts, p_valid=0.95)


def c06(ck):
    parts = ["leaves", "numbers"]
    replay(ck, "MC_Leaves", m_leaves(ck, range(1, 14)), parts)
    replay(ck, "MC_Tokens kv", m_tokens(ck, 11 if ck.quick else 14, ALL_SYMS, False, layout=2), parts)
    replay(ck, "MC_Quoted", m_quoted(ck), parts)
    replay(ck, "MC_Words", m_words(ck, [1] if ck.quick else [1, 3, 11]), parts)
    same(ck, parts)
    scale(ck, parts)
    random_texts(ck, parts, p_valid=0.7, quick=8000)


def c07(ck):
    parts = ["err"]
    replay(ck, "MC_Tokens", m_tokens(ck, 9 if ck.quick else 12, ALL_SYMS, True), parts)
    replay(ck, "MC_Tokens odd", m_tokens(ck, 7 if ck.quick else 9, ODD_SYMS, True, layout=2), parts)
    replay(ck, "MC_Tokens not", m_tokens(ck, 12 if ck.quick else 15, NOT_SYMS, True), parts)
    replay(ck, "MC_Leaves", m_leaves(ck, [1, 3, 8, 12] if ck.quick else range(1, 14)), parts)
    strs = pieces(ck, [0], 4) if ck.quick else pieces(ck, [0, 1, 2, 3, 4], 4)
    replay(ck, "MC_Strings", [(r["i"], r["p"]) for r in strs], parts)
    near(ck, parts)
    replay(ck, "MC_Wrapper", m_wrapper(ck, 2 if ck.quick else 3), parts)
    replay(ck, "MC_Words", m_words(ck, [1] if ck.quick else [1, 3, 11]), parts)
    scale(ck, parts, families=lambda r: not r["ok"])
    random_texts(ck, parts, p_valid=0.1)


def c08(ck):
    parts = ["span", "render", "orig"]
    for w in ([0, 1] if ck.quick else [0, 1, 2, 3]):
        strs = pieces(ck, [w], 4, render=True)
        replay(ck, "MC_Strings", [(r["i"], r["p"]) for r in strs], parts)
    replay(ck, "MC_Tokens odd", m_tokens(ck, 6 if ck.quick else 8, ODD_SYMS, True, layout=2, render=True), parts)
    replay(ck, "MC_Leaves", m_leaves(ck, [8, 12] if ck.quick else range(1, 14), render=True), parts)
    replay(ck, "MC_Wrapper", m_wrapper(ck, 2 if ck.quick else 3, render=True), parts)
    scale(ck, parts, families=lambda r: not r["ok"])
    made_errors(ck)
    random_texts(ck, parts, p_valid=0.1)


def made_errors(ck):
    """errors a caller puts together are shown by the same rules"""
    rows = core.tlc(ck, "MC_Render", "SPECIFICATION Spec\nINVARIANTS Emit Shape\n")
    ls = ["|".join([line(r["o"]), str(r["err"]["s"]), str(r["err"]["e"]), r["err"]["r"], str(r["err"]["n"]), ";".join(line(cps(x)) for x in r["err"]["x"])]) for r in rows]
    obs = core.observe(ck, core.observer(ck), ["shown"], ls, shards=SHARDS)
    for r, o in zip(rows, obs):
        if o is not None and ("panic" in o or o["d"] != r["d"] or o["rd"] != r["rd"] or o["ds"] != r["ds"]):
            ck.violation("MC_Render: an error is not shown as specified", text=show(r["o"]), error=r["err"], expected=show(r["d"]), observed=o.get("panic") or show(o["d"]))
    ck.traces += len(rows)
    ck.part("errors put together by a caller", errors=len(rows))


def lex_same(r, o):
    lx = r["l"]
    le = norm(o["le"])
    return (norm(o["t"]) == norm(lx["t"]) and not o["runaway"] and not o["after"] and o["ways"] and len(le) == len(lx["le"])
            and all(norm(le[0][k]) == norm(lx["le"][0][k]) for k in "rxnse" if le))


def long_tokens(ck):
    """texts of long parts: their tokens in closed form"""
    ks = {1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1024}
    far = {4095, 4096, 4097, 8192, 21845, 21846, 32767, 32768, 65535, 65536, 65537} | (set() if ck.quick else {131072, 262144, 524288})
    if not ck.quick:
        ks |= {4, 5, 6, 9, 10, 17, 33, 65, 100, 130, 511, 512, 513, 1023, 2048, 4096}
    rows = core.tlc(ck, "MC_Long", f"""SPECIFICATION Spec
CONSTANTS
 Ks = {tset(ks)}
 FarKs = {tset(far)}
 MachineMax = {8 if ck.quick else 20}
INVARIANTS Emit ClosedForm
""")
    group = lambda g: f"{g[0]}:{g[1]}:{g[2]}:" + ",".join(".".join(map(str, t)) for t in g[3])
    desc = lambda r, gs: "|".join(f"{line(s)}*{k}" for s, k in r["p"]) + "#" + ";".join(group(g) for g in gs)
    rows.sort(key=lambda r: (r["p"][-1][1] % 64, r["p"][-1][1]))
    b = core.observer(ck)
    obs = core.observe(ck, b, ["tokens"], [desc(r, r["g"]) for r in rows], shards=SHARDS)

    def bad(r, o):
        le = norm(o["le"]) if "le" in o else []
        return ("panic" in o or o["d"] or o["missing"] or o["after"] or not o["ways"] or len(le) != len(r["f"])
                or any(norm(le[0][k]) != norm(r["f"][0][k]) for k in "rxnse" if le))
    for r, o in zip(rows, obs):
        if o is not None and bad(r, o):
            ck.violation("MC_Long: tokens not as specified", parts=[[show(s), k] for s, k in r["p"]], groups=r["g"], end=r["f"], observed=o)
    ck.traces += len(rows)
    ck.part("texts of long parts", texts=len(rows), tokens=sum(o["n"] for o in obs if o and "n" in o))
    r = next(r for r in rows if r["g"])
    o = core.observe(ck, b, ["tokens"], [desc(r, r["g"][1:]), desc(r, r["g"] + [[9, 0, 1, [["key", 0, 1]]]])])
    if not all(bad(r, x) for x in o):
        raise ToolError("canary: corrupted token groups went unnoticed")
    ck.canaries += 2


def c09(ck):
    b = core.observer(ck)
    long_tokens(ck)
    for w, n in ([(0, 4), (1, 4), (2, 3), (3, 4)] if ck.quick else [(0, 5), (1, 4), (2, 4), (3, 4), (4, 6)]):
        rows = m_strings(ck, n, PIECES[w], lex=True, parse=False)
        obs = core.observe(ck, b, ["text", "lex"], [line(r["i"]) for r in rows], shards=SHARDS)
        for r, o in zip(rows, obs):
            if o is not None and ("panic" in o or not lex_same(r, o)):
                ck.violation("tokens not as specified", text=show(r["i"]), code_points=r["i"], expected=r["l"], observed=o)
        ck.traces += len(rows)
        c = next((r, o) for r, o in zip(rows, obs) if o and o.get("t"))
        if lex_same(c[0], corrupt("lex", c[1])):
            raise ToolError("canary: corrupted tokens went unnoticed")
        ck.canaries += 1
    rows = core.tlc(ck, "MC_Chars", f"""SPECIFICATION Spec
CONSTANTS
 LastBlock = {600 if ck.quick else 4351}
INVARIANTS Emit TilesAll
""")
    obs = core.observe(ck, b, ["chars"], [str(r["b"]) for r in rows])
    for r, o in zip(rows, obs):
        if o is not None and norm(o) != r:
            ck.violation("tokens around some character not as specified", block=r["b"], expected=r,
                         observed=o)
    ck.traces += 256 * len(rows)
    ck.part("every character in three texts", characters=256 * len(rows))
    random_texts(ck, ["lex"], quick=6000)


def c10(ck):
    b = core.observer(ck)
    rows = m_layout(ck, 10 if ck.quick else 13, ALL_SYMS)
    rows += m_layout(ck, 12 if ck.quick else 15, FEW_SYMS)
    cases = [(v, dict(ok=1, l=r["l"], v=r["v"], o=o)) for r in rows for v, o in zip(r["vs"], r["o"])]
    replay(ck, "MC_Layout", cases, ["accept", "leaves", "bool", "kleene", "logic", "orig", "re"])
    # equality: within a group of variants, and between neighbouring groups
    pairs = []
    for g, r in enumerate(rows):
        nxt = rows[(g + 1) % len(rows)]
        k = g % len(r["vs"])
        for j in range(len(r["vs"])):
            pairs.append((r["vs"][k], r["o"][k], r["vs"][j], r["o"][j], True))
        pairs.append((r["vs"][k], r["o"][k], nxt["vs"][k], nxt["o"][k], False))
    obs = core.observe(ck, b, ["pair"], [line(x[0]) + "|" + line(x[2]) for x in pairs], shards=SHARDS)
    for (a, ao, c, co, same), o in zip(pairs, obs):
        if o is None:
            continue
        eq = int(ao == co)
        if "panic" in o or not o["ok"] or o["eq"] != eq or o["qe"] != eq or o["ne"] == eq or (same and not o["same"]):
            ck.violation("equality of expressions is not equality of their texts", a=show(a), b=show(c), observed=o)
    ck.traces += len(pairs)
    ck.part("pairs compared", pairs=len(pairs), equal=sum(1 for x in pairs if x[1] == x[3]))
    g = gen.Gen(ck.seed * 101 + 10)
    for i in range(1 if ck.quick else 12):
        judge_pairs(ck, f"near-equal texts {i}", [g.near() for _ in range(6000 if ck.quick else 20000)])
    scale(ck, ["orig", "re"], families=lambda r: r["ok"])
    random_texts(ck, ["orig", "re"], p_valid=0.8)


def judge_pairs(ck, name, pairs):
    """What the library makes of pairs of texts that differ in little, validated by the trace specification."""
    b = core.observer(ck)
    pairs = [(cps(x), cps(y)) for x, y in pairs]
    obs = core.observe(ck, b, ["pair"], [line(x) + "|" + line(y) for x, y in pairs], shards=SHARDS)
    cases = [(p, o) for p, o in zip(pairs, obs) if o is not None]
    real = len(cases)
    some = [c for c in cases if c[1].get("ok")][:3]
    cases += [(p, dict(o, **{k: 1 - o[k]})) for p, o in some for k in ("eq", "qe", "ne")]
    path = os.path.join(ck.scratch, "pairs.ndjson")
    with open(path, "w") as f:
        for (x, y), o in cases:
            f.write(json.dumps(dict(o, a=x, b=y)) + "\n")
    rows = core.tlc(ck, "Trace_Pairs", "SPECIFICATION Spec\nINVARIANT Report\n", env=dict(TRACE=path), name="Trace_Pairs/" + name)
    v = {r["c"] - 1: r for r in rows}
    if len(v) != len(cases):
        raise ToolError(f"Trace_Pairs: {len(v)} verdicts for {len(cases)} cases")
    bad = [i for i in range(real) if not v[i]["good"]]
    for i in bad[:20]:
        (x, y), o = cases[i]
        ck.violation(f"{name}: equality of expressions is not equality of their texts", a=show(x), b=show(y), observed=o)
    if not bad and any(v[i]["good"] for i in range(real, len(cases))):
        raise ToolError("canary: a corrupted comparison passed")
    ck.canaries += len(cases) - real
    ck.traces += real
    ck.part(name, pairs=real, both_accepted=sum(1 for c in cases[:real] if c[1].get("ok")), equal=sum(1 for i in range(real) if v[i]["equal"]))


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10)
