"""C21: every answer depends on nothing but the arguments of the call and the text an expression was
parsed from.  The specification makes histories of calls and says which question each call asks; a
question must get one and the same answer everywhere: in a history of its own in a process of its
own, in every other history, on threads, and in both builds of the library."""
import copy, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import core, gen
from core import cps, line, show, norm, ToolError
from targetchecks import release, predfile, targets_json, to_cps, descr, rand_targets, predicates, write
from textchecks import SHARDS, tset, scale

OPS = ["parse", "shared", "list", "eval", "orig", "drop", "abort", "nest", "inside", "copy", "eq", "find", "match", "made", "lex", "verdict"]

# few texts that differ in little: same length, same letters, same start, same end
CLOSE = [
    ["all(a,b)", "any(a,b)", "cfg(any(a,b))", "any(b,a)", "any(a,b", "not(a,b)"],
    ['target_os = "linux"', 'target_os = "macos"', ' target_os = "linux"', 'target_or = "linux"', 'target_os = "linux" unix'],
    ["unix", "cfg(unix)", "windows", "not(unix)", "uniz", "unix)"],
    ["all()", "any()", "not(any())", "cfg(all())", "all(", "all())"],
    ['feature = "a"', 'feature = "b"', 'featurf = "a"', 'panic = "a"', 'feature = ""'],
    ["not(not(a))", "not(any(a))", "all(not(a))", "not(all(b))", "not(a)))"],
    ["@", "   @", "all(a,b) @", "all(a,b", "a    )", 'all(a,b,c,"x'],
    ['feature = "serde_derive"', 'feature = "serde_derivf"', 'target_feature = "serde_deri"', 'serde_derive_1 = "feature"', 'serde_derive_11 = "feature', 'panic = "serde_derive"'],
    ["any(a,all(b,c))", "all(a,any(b,c))", "any(a,all(c,b))", "any(all(a,b),c)", "any(a,all(b,c)),d"],
]


FAILING, NAMES = 6, 7


def context(ck, name, texts, triples, made, preds):
    dom = write(ck, f"domain-{name}.json", dict(texts=[cps(t) for t in texts], triples=[cps(t) for t in triples],
                                                preds=[[k, cps(v)] for k, v in preds], made=[to_cps(t) for t in made]))
    p = os.path.join(ck.scratch, f"context-{name}")
    with open(p, "w") as f:
        for t in texts:
            f.write("t " + line(cps(t)) + "\n")
        for t in triples:
            f.write("j " + line(cps(t)) + "\n")
        for t in made:
            f.write("m " + descr(to_cps(t)) + "\n")
        for k, v in preds:
            f.write(f"p {k}={line(cps(v))}\n")
    return dom, p


def model(ck, name, dom, tj, length, slots, ops, pick=0, simulate=None):
    return core.tlc(ck, "MC_History", f"""SPECIFICATION Spec
CONSTANTS
 NSlots = {slots}
 Len_ = {length}
 Ops = {tset(ops)}
 Pick = {pick}
INVARIANTS {"EmitQuestions" if length == 0 else "Emit FreeOfHistory Holding Equality"}
""", env=dict(TARGETS=tj, DOMAIN=dom), name=f"MC_History/{name}", timeout=1500, simulate=simulate)


def ops_text(h):
    return ";".join(" ".join(map(str, c)) for c in h)


class Answers:
    """what was answered to each question, and where first"""

    def __init__(self, ck, name, texts, triples, preds):
        self.ck, self.name, self.bad = ck, name, 0
        self.seen = {}
        self.texts, self.triples, self.preds = texts, triples, preds

    def add(self, q, a, where):
        k = tuple(q)
        if k not in self.seen:
            self.seen[k] = (a, where)
            return True
        if self.seen[k][0] == a:
            return True
        self.bad += 1
        if self.bad <= 10:
            first, at = self.seen[k]
            self.ck.violation(f"{self.name}: the same question got two answers", question=self.explain(q),
                              answer=a[:1200], history=self.history(where), otherwise=first[:1200], then=self.history(at))
        return False

    def explain(self, q):
        n, x, y = q
        t, j, p = (lambda i: self.texts[i - 1]), (lambda i: self.triples[i - 1]), (lambda i: "%s=%s" % self.preds[i - 1])
        if n in ("match", "lex"):
            return [n, j(x), p(y)]
        if n == "find":
            return [n, j(x)]
        if n == "made":
            return [n, x, p(y)]
        if n == "verdict":
            return [n, t(x), j(y)]
        if n in ("nest", "inside", "eq"):
            return [n, t(x), t(y)]
        return [n, t(x) if x else "", y]

    def history(self, where):
        return where if len(where) < 1500 else where[:700] + " ... " + where[-700:]


def isolated(ck, binary, ctx, rows):
    """each question in a process of its own"""
    def one(r):
        if not r["h"]:
            return None
        o = core.observe(ck, binary, ["history", ctx, "alone"], [ops_text(r["h"])], timeout=60)[0]
        return o and (o if isinstance(o, dict) else o[0][-1])
    with ThreadPoolExecutor(SHARDS) as ex:
        return list(ex.map(one, rows))


def agrees(r, a):
    """whether an isolated answer is the one the specification computed (judged by other properties)"""
    n = r["q"][0]
    if r["yes"] != 2:
        return a == str(r["yes"])
    if n not in ("outcome", "leaves", "value", "text"):
        return None
    k, o = r["known"], norm(json.loads(a))
    if n == "outcome":
        return bool(k["ok"]) == bool(o["ok"]) and (not k["ok"] or norm(k["o"]) == o["o"]) and (k["ok"] or (k["r"], k["s"], k["e"]) == (o["r"], o["s"], o["e"]))
    if n == "leaves":
        return sorted(json.dumps(norm(x)) for x in k["l"]) == sorted(json.dumps(norm(x)) for x in o)
    if n == "text":
        return norm(k["o"]) == o
    m = sum(1 << i for i in range(0, 30, 3))
    return all(k["v"][f] & m == o["v"][f] for f in ("b", "kt", "kf")) and all(k["v"][f] == o["v"][f] for f in ("bt", "bf", "g1", "g2"))


def near_triples(r, t):
    """triples that differ in little from one: a beginning, a continuation, the case, another's end"""
    i = r.randrange(len(t))
    return r.choice([t[:-1], t.rsplit("-", 1)[0], t.rsplit("-", 2)[0], t + "x", t + "-", t.upper(), t[:i] + t[i + 1:], t[1:], " " + t, t + " ", t[: len(t) // 2]])


def play(ck, ans, binary, ctx, hists, group, tag, times=1):
    """runs histories, `group` at a time on threads of their own, each so many times, and files the answers"""
    lines, idx = [], []
    for i in range(0, len(hists), group):
        g = hists[i:i + group]
        lines.append("|".join(ops_text(h["c"]) for h in g))
        idx.append(g)
    obs = core.observe(ck, binary, ["history", ctx] + ([str(times)] if times > 1 else []), lines, shards=SHARDS if times == 1 or group == 1 else 1, min_shard=200 if times == 1 else 1, timeout=600)
    n = 0
    for l, g, o in zip(lines, idx, obs):
        if o is None:
            continue
        if isinstance(o, dict):
            ck.violation(f"{ans.name}: a call panicked", history=ans.history(l), observed=o)
            continue
        for h, a in zip(g, o):
            if len(a) != len(h["q"]):
                ck.violation(f"{ans.name}: a call panicked", history=ans.history(l), observed=a[-1:])
                continue
            for k, (q, x) in enumerate(zip(h["q"], a)):
                n += 1
                if not ans.add(q, x, f"{tag}: call {k + 1} of " + ops_text(h["c"])):
                    break
    ck.traces += len(hists)
    ck.log(tag, len(hists), n)
    ck.part(f"{ans.name}: {tag}", histories=len(hists), at_a_time=group, times=times, calls=n * times)


def c21(ck):
    rel = release()
    ts = rel["targets"]
    tj = targets_json(ck, ts)
    r = random.Random(ck.seed * 31 + 21)
    builds = []
    for f in (("threads",), ("threads", "triple")):
        try:
            builds.append(core.cargo_build(ck, os.path.join(core.VERIF, "harness"), f))
        except ToolError as e:
            (core.observer(ck, triple=True) if "triple" in f else core.observer(ck))   # builds without threads?
            if "cannot be shared between threads" in str(e) or "cannot be sent between threads" in str(e):
                ck.violation("expressions cannot be shared between threads", error=str(e)[-3000:])
                return
            raise
    allp = [p for p in predicates(ts) if len(p[1]) < 40]

    def world(name, texts, ntri, nmade, npred):
        triples = [t["triple"] for t in r.sample(ts, ntri)]
        by = {t["triple"]: t for t in ts}
        made = rand_targets(r, ts, nmade)
        for m, t in zip(made[::2], triples):      # a made-up target under the name of a real one
            m["triple"] = t
        for m in made[1::5]:                      # one that has nothing that can be lacking
            m.update(os=[], abi=[], env=[], vendor=[], fam=[], atomics=[])
        real = [t for t in triples]
        for k in range(len(triples) // 2, len(triples)):
            triples[k] = r.choice([near_triples(r, triples[k - len(triples) // 2])] * 4 + ["", "x86_64-unknown-linux"])
        preds = []
        for t in real:                            # some that hold
            t = by[t]
            preds += [("arch", t["arch"])] + [("os", o) for o in t["os"]] + [("family", f) for f in t["fam"]]
        for m in made:
            preds += [("os", o) for o in m["os"]] + [("arch", m["arch"])]
        preds = r.sample(list(dict.fromkeys(p for p in preds if len(p[1]) < 40)), min(len(set(preds)), npred // 2))
        if npred > 10:                            # for what is lacking
            preds[:4] = [("vendor", "unknown"), ("os", "none"), ("env", ""), ("abi", "")]
            if npred > 20:
                preds += [p for k in ("vendor", "os", "env", "abi", "family", "panic", "arch") for p in ((k, ""), (k, "none"), (k, "unknown"))]
            preds = list(dict.fromkeys(preds))
        preds += r.sample([p for p in allp if p not in preds], max(0, npred - len(preds)))
        dom, ctx = context(ck, name, texts, triples, made, preds)
        return Answers(ck, name, texts, triples, preds), dom, ctx

    def both(name, texts, ntri, nmade, npred):
        """every question of a large domain, many in one history, to either build"""
        ans, dom, ctx = world(name, texts, ntri, nmade, npred)
        qs = [x for x in model(ck, name, dom, tj, 0, 1, [o for o in OPS if o != "lex"]) if "yes" in x and x["h"]]
        for i, b in enumerate(builds):
            r.shuffle(qs)
            hs = []
            for k in range(0, len(qs), 60):
                h = [(c, x["q"] if c is x["h"][-1] else ["outcome", c[2], 0]) for x in qs[k:k + 60] for c in x["h"]]
                hs.append(dict(c=[c for c, _ in h], q=[q for _, q in h]))
            play(ck, ans, b, ctx, hs, 1, "with the triple library" if i else "without the triple library")
        told = [agrees(x, ans.seen[tuple(x["q"])][0]) for x in qs if tuple(x["q"]) in ans.seen]
        ck.part(f"{name}: every question", questions=len(qs), specified=sum(g is not None for g in told), as_specified=sum(bool(g) for g in told))

    def run(name, texts, ntri, nmade, npred, plan, ops, storms=0):
        ans, dom, ctx = world(name, texts, ntri, nmade, npred)
        rows = model(ck, name + ", questions", dom, tj, 0, 1, ops) + plan(dom)
        qs = [x for x in rows if "yes" in x]
        uniq = {}
        for x in qs:
            uniq[tuple(x["q"])] = x
        qs = list(uniq.values())
        hs = [x for x in rows if "c" in x]
        seen = set()
        hs = [h for h in hs if not ((k := ops_text(h["c"])) in seen or seen.add(k))]
        if not hs or not qs:
            raise ToolError("no histories")
        good = told = 0
        for i, b in enumerate(builds):
            mine = [x for x in qs if i == 1 or x["q"][0] != "lex"]
            for x, a in zip(mine, isolated(ck, b, ctx, mine)):
                if isinstance(a, dict):
                    ck.violation(f"{name}: a call panicked", history=ops_text(x["h"]), observed=a)
                elif a is not None:
                    ans.add(x["q"], a, f"in a process of its own: {ops_text(x['h'])}")
                    g = agrees(x, a)
                    told += g is not None
                    good += bool(g)
        ck.log("isolated", len(qs))
        ck.part(f"{name}: every question in a process of its own", questions=len(qs), specified=told, as_specified=good)
        # a question that changes nothing may be left out of a history
        lexless = [dict(c=[c for c in h["c"] if c[0] != "lex"], q=[q for q in h["q"] if q[0] != "lex"]) for h in hs]
        if ck.violations:
            return
        play(ck, ans, builds[1], ctx, hs, 1, "one after the other")
        r.shuffle(lexless)
        play(ck, ans, builds[0], ctx, lexless, 4, "four threads")
        r.shuffle(hs)
        play(ck, ans, builds[1], ctx, hs[: len(hs) // 2], 8, "eight threads")
        for b in builds if storms else []:
            few = [r.choice(hs) for _ in range(8 * storms)]
            few = [dict(c=[c for c in h["c"][:4] if c[0] != "lex"], q=[q for q in h["q"][:4] if q[0] != "lex"]) for h in few]
            play(ck, ans, b, ctx, few, 8, "eight threads, again and again", times=1500 if ck.quick else 3000)
        ck.sample(dict(model=name, history=ops_text(hs[len(hs) // 2]["c"])[:300]))
        # an answer that depended on something would be seen
        probe = copy.copy(ans)
        probe.seen, probe.bad, probe.ck = dict(ans.seen), 11, None
        for q in list(ans.seen)[:: max(1, len(ans.seen) // 40)]:
            if probe.add(q, ans.seen[q][0] + " ", "canary"):
                raise ToolError("canary: another answer went unnoticed")
            ck.canaries += 1

    def pool(n):
        g = gen.Gen(r.randrange(1 << 30))
        out = [t for f in CLOSE for t in f]
        while len(out) < n:
            x = r.random()
            if x < 0.4:
                out += list(g.near())
            else:
                out.append(g.text(p_valid=0.7, maxlen=200))
        out = [t for t in dict.fromkeys(out)]
        r.shuffle(out)
        return out[:n]
    both("both builds", pool(200 if ck.quick else 1500), 40 if ck.quick else 250, 60 if ck.quick else 200, 70 if ck.quick else 150)
    # the same call over and over, on one thread: beyond what a counter of 8 or 16 bits holds
    def shapes(n):
        return ["not(" * n + "a" + ")" * n, "all(" * n + "a,b" + ")" * n, "any(" + ",".join(["a"] * n) + ")", "all(" + ",".join(["not(a)", "any()"] * (n // 2)) + ")",
                "any(" * n + "a" + ")" * (n - 1), "any(" + ",".join(["a"] * n) + "))"]

    def over(name, texts, times):
        ans, dom, ctx = world(name, texts, 6, 3, 8)
        qs = [x for x in model(ck, name, dom, tj, 0, 1, ["parse", "eval"]) if "yes" in x and x["h"] and x["q"][0] in ("outcome", "value", "find", "match", "made")]
        hs = [dict(c=x["h"], q=[x["q"] if c is x["h"][-1] else ["outcome", c[2], 0] for c in x["h"]]) for x in qs]
        play(ck, ans, builds[1], ctx, hs, 1, "over and over", times=times)
    few = dict.fromkeys(t for n in ([1, 2, 13, 20] if ck.quick else range(1, 40)) for t in shapes(n))
    over("over and over", list(few) + [t for f in CLOSE for t in f][:: 3 if ck.quick else 1], 1200 if ck.quick else 70000)
    over("over and over, small", ["a", "not(a)", "a)", 'panic = "x"', "any(a,b"], 70000)
    # large expressions, and their clones after they are gone
    scale(ck, ["calls", "bool", "re"], families=lambda r: r["ok"] and (r["k"] > 30 or r["k"] % 8 == 1))
    fams = [FAILING, NAMES, r.choice([i for i in range(len(CLOSE)) if i not in (FAILING, NAMES)])] if ck.quick else range(len(CLOSE))
    small = [o for o in OPS if o not in ("orig", "lex")]
    for f in fams:
        run(f"close texts {f}", CLOSE[f], 2, 1, 2, lambda dom: model(ck, f"close-{f}", dom, tj, 3, 2, small), small, storms=150)
    if not ck.quick:
        few = ["parse", "shared", "eval", "abort", "nest", "inside", "find", "match"]
        for f in fams:
            run(f"close texts {f}, longer", CLOSE[f][:4], 2, 1, 1, lambda dom: model(ck, f"longer-{f}", dom, tj, 4, 2, few), few)

    # many at random; the number of texts is beyond any cache one would write
    for n, (k, length, num) in enumerate([(24, 60, 250), (160, 120, 80)] if ck.quick else [(24, 60, 3000), (160, 200, 600), (1500, 400, 60), (60, 1000, 60)]):
        run(f"long histories {n}", pool(k), 8, 4, 12,
            lambda dom: model(ck, f"long-{n}", dom, tj, length, 6, OPS, pick=12,
                              simulate=["-simulate", f"num={num}", "-depth", str(length + 2), "-seed", str(ck.seed * 7 + n)]), OPS)


CHECKS = dict(C21=c21)
