"""Random texts: cfg expressions, mutations of them, and junk.  Purely generators: whether a text is
acceptable and what it means is decided by the specification."""
import random

KEYS_BARE = ["unix", "windows", "test", "debug_assertions", "proc_macro", "a", "b", "c", "d", "foo", "_x",
             "docsrs", "Unix", "allx", "any_", "not1", "tests", "unixy", "featur", "target", "panics", "A1_b",
             "target_", "feature", "panic", "target_os", "target_arch", "all_", "nota", "anyall", "true", "r"]
KEYS_VAL = ["feature", "panic", "target_os", "target_arch", "target_env", "target_abi", "target_vendor",
            "target_family", "target_feature", "target_endian", "target_has_atomic", "target_pointer_width",
            "foo", "_k", "target_thread_local", "target_has_atomic_load_store", "key", "Feature", "target_Os",
            "target_o", "target_oss", "targetos", "test", "unix", "windows", "proc_macro", "debug_assertions"]
VALS = ["", "a", "linux", "windows", "unix", "wasm", "x86_64", "aarch64", "gnu", "musl", "msvc", "apple", "unknown",
        "none", "unwind", "abort", "sse2", "crt-static", "big", "little", "Big", "BIG", "64", "32", "16", "8",
        "128", "ptr", "Ptr", "0", "00", "255", "256", "65535", "65536", "99999999999999999999", "+8", "-8", " 8",
        "8 ", "+", "-", "0x10", "1_6", "٣", "é", "日本語", "😀", "a b", " a", "a ", "\t", "\n", "(", ")", ",", "=",
        "all(", "not", "a,b", "\\", "\\n", "'", "cfg(", "#", "//", "\u00a0", "\u200b", "x" * 40, "ſ", "İ"]
WS = [" ", " ", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\u3000", "\u0085", "\u2028", "\x0b", "\x0c",
      "\u1680", "\u202f", "\u205f"]
HOSTILE = list("()=,\"\" \t\nacfglnoty_019A") + ["all", "any", "not", "cfg(", "é", "ß", "日", "😀", "\u0301", "\u200b",
      "\u3000", "\u00a0", "\ufeff", "\u2028", "\x00", "\x7f", "\x1c", "\u180e", "\U0010ffff", "'", "#", "|", "!",
      "-", ".", "\\", "/", ";", "[", "{", "\x85", "٣", "²", "ａ", "＿", "”", "(", ")", ","]


IDENT0 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
IDENT = IDENT0 + "0123456789"
WORDS = ["all", "any", "not", "cfg", "unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic",
         "target_", "target_os", "target_arch", "target_env", "target_abi", "target_vendor", "target_family",
         "target_feature", "target_endian", "target_has_atomic", "target_pointer_width", "true", "false", "ptr",
         "big", "little", "doc", "wasm", "overflow_checks", "target", "sanitize", "miri", "version", "accessible"]
RANGES = [(0x20, 0x7e), (0x20, 0x7e), (0x20, 0x7e), (0x0, 0x1f), (0x7f, 0xff), (0x100, 0x24f), (0x370, 0x5ff), (0x2000, 0x206f),
          (0x3000, 0x30ff), (0x4e00, 0x4e80), (0xfe00, 0xffff), (0x1f600, 0x1f64f), (0x10ff00, 0x10ffff)]
MARKS = "!#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\0"


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.left = 10 ** 9

    def ident(self):
        """any identifier, or one that differs in little from one that means something"""
        r = self.r
        x = r.random()
        if x < 0.45:
            return r.choice(IDENT0) + "".join(r.choice(IDENT) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 24, 40])))
        w = r.choice(WORDS)
        i = r.randrange(len(w) + 1)
        y = r.randrange(8)
        if y == 0:
            w = w[:i] + r.choice(IDENT) + w[i:]
        elif y == 1:
            w = w[:i] + w[i + 1:]
        elif y == 2:
            w = w[:i] + w[i:i + 1].swapcase() + w[i + 1:]
        elif y == 3:
            w = w[:i] + r.choice(IDENT) + w[i + 1:]
        elif y == 4:
            w = w + r.choice(["_", "s", "0", "x"] + WORDS)
        elif y == 5:
            w = r.choice(["_", "x", "r_", "cfg_", "target_"] + WORDS) + w
        elif y == 6:
            w = w.upper() if r.random() < 0.5 else w.capitalize()
        elif y == 7:
            w = w[:i] + w[i:i + 1] * 2 + w[i + 1:]
        return w if w and w[0] in IDENT0 else "k" + w

    def value(self):
        """any value, or one that differs in little from one that means something"""
        r = self.r
        x = r.random()
        if x < 0.3:
            v = str(r.choice([r.randrange(300), r.randrange(70000), r.randrange(10 ** 12), 8 << r.randrange(8)]))
            v = r.choice(["", "", "", "0", "00000000", "+", "-", " ", "0x"]) + v + r.choice(["", "", "", "", " ", "u8", ".0", "_"])
            return v
        if x < 0.55:
            v = r.choice([v for v in VALS if v] + WORDS)
            i = r.randrange(len(v))
            return r.choice([v[:i] + v[i + 1:], v[:i] + r.choice(IDENT) + v[i:], v + r.choice(WS), r.choice(WS) + v, v.upper(),
                             v.capitalize(), v + "\0", v + "," + v, v.swapcase()])
        if x < 0.63:      # marks, often doubled
            v = "".join(r.choice(MARKS) * r.choice([1, 1, 2, 3]) for _ in range(r.randint(1, 3)))
            i = r.randrange(len(v) + 1)
            return r.choice(["", r.choice(WORDS)]) + v[:i] + r.choice(["", r.choice(IDENT), r.choice(WORDS)]) + v[i:]
        lo, hi = r.choice(RANGES)
        mix = r.random() < 0.4
        out = ""
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 16, 31])):
            if mix:
                lo, hi = r.choice(RANGES)
            out += chr(r.randint(lo, hi))
        return out

    def ws(self, need=False):
        r = self.r
        if need or r.random() < self.wsp:
            return "".join(r.choice(WS) for _ in range(r.randint(1, 2)))
        return ""

    def toks(self, depth, wide):
        """one predicate, as tokens"""
        r = self.r
        self.left -= 1
        if depth <= 0 or self.left <= 0 or r.random() < 0.25:
            return self.leaf()
        f = r.choice(["all", "any", "not", "all", "any"])
        n = r.choice([0, 1, 1, 2, 2, 3, 4, wide]) if f != "not" else (1 if r.random() < self.good else r.choice([0, 2, 3, 4, wide]))
        out = [f, "("]
        last = None
        for i in range(n):
            if i and f != "not" and self.left <= 0:
                break
            if i:
                out.append(",")
            if last and r.random() < 0.12:
                out += last          # the same once more
                continue
            last = self.toks(depth - 1 - (r.random() < 0.3), wide)
            out += last
        if n and r.random() < 0.3:
            out.append(",")
        out.append(")")
        return out

    def leaf(self):
        r = self.r
        if r.random() < 0.18:
            v = self.value().replace('"', "'")
            y = r.random()
            if y < 0.35:
                k = self.ident()
                if self.good < 1 or not (k.startswith("target_") or k in ("all", "any", "not", "feature", "panic")):
                    return [k]
            k = r.choice(["feature", "panic", "target_os", "target_arch", "target_env", "target_abi", "target_vendor",
                          "target_family", "target_feature", "foo"])
            if y > 0.7:
                k = self.ident()
                if self.good == 1 and (k.startswith("target_") or k in ("all", "any", "not", "unix", "windows", "test", "debug_assertions", "proc_macro")):
                    k = "k"
            elif self.good < 1 and y > 0.6:
                k = r.choice(["target_endian", "target_has_atomic", "target_pointer_width"])
            if k == "target_feature" and not v:
                v = "x"
            return [k, "=", '"%s"' % v]
        if r.random() < self.good:
            x = r.random()
            if x < 0.35:
                return [r.choice(["a", "b", "c", "d", "e", "foo", "_x1", "docsrs", "Unix", "allx", "any_", "not1"])]
            if x < 0.5:
                return [r.choice(["unix", "windows", "test", "debug_assertions", "proc_macro"])]
            if x < 0.6:
                return ["target_has_atomic", "=", '"%s"' % r.choice(["8", "16", "32", "64", "128", "ptr", "0", "65535", "008"])]
            if x < 0.66:
                return ["target_pointer_width", "=", '"%s"' % r.choice(["16", "32", "64", "0", "255", "+64", "064"])]
            if x < 0.72:
                return ["target_endian", "=", '"%s"' % r.choice(["big", "little"])]
            k = r.choice(["feature", "panic", "target_os", "target_arch", "target_env", "target_abi", "target_vendor",
                          "target_family", "target_feature", "foo", "_k", "key", "Feature"])
            v = r.choice([v for v in VALS if '"' not in v])
            if k == "target_feature" and not v:
                v = "x"
            return [k, "=", '"%s"' % v]
        if r.random() < 0.5:
            return [r.choice(KEYS_BARE)]
        return [r.choice(KEYS_VAL), "=", '"%s"' % r.choice(VALS)]

    def join(self, toks):
        out = []
        prev = ""
        for t in toks:
            word = lambda x: x[:1].isalnum() or x[:1] == "_"
            out.append(self.ws(need=bool(prev) and word(prev) and word(t) and self.r.random() < 0.97))
            out.append(t)
            prev = t
        out.append(self.ws())
        return self.ws() + "".join(out)

    def wrap(self, s):
        r = self.r
        x = r.random()
        if x < 0.25:
            return "cfg(" + s + ")"
        if x < 0.28:
            return r.choice([" cfg(", "cfg (", "cfg", "cfg(cfg(", "Cfg(", "cfg("]) + s + r.choice([")", ") ", "))", ""])
        return s

    def mutate_toks(self, t):
        r = self.r
        t = list(t)
        for _ in range(r.choice([1, 1, 2, 3])):
            i = r.randrange(len(t) + 1)
            m = r.randrange(6)
            if m == 0 and t and i < len(t):
                del t[i]
            elif m == 1:
                t.insert(i, r.choice(["(", ")", ",", "=", "all", "any", "not", "x", '"v"', '"', "é", "feature"]))
            elif m == 2 and i < len(t):
                t.insert(i, t[i])
            elif m == 3 and len(t) > 1:
                j = r.randrange(len(t))
                i = min(i, len(t) - 1)
                t[i], t[j] = t[j], t[i]
            elif m == 4:
                t = t[:i]
            elif m == 5 and i < len(t):
                t[i] = r.choice(["(", ")", ",", "=", "all", "any", "not", "x", '"v"'])
        return t

    def mutate_chars(self, s):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(s) + 1)
            m = r.randrange(4)
            if m == 0 and i < len(s):
                del s[i]
            elif m == 1:
                s.insert(i, r.choice(HOSTILE))
            elif m == 2 and i < len(s):
                s[i] = r.choice(HOSTILE)
            elif m == 3:
                s = s[:i]
        return "".join(s)

    def text(self, p_valid=0.45, maxdepth=5, maxlen=400):
        r = self.r
        while True:
            self.wsp = r.choice([0.0, 0.1, 0.5])
            x = r.random()
            self.good = 1.0 if x < p_valid else r.choice([1.0, 0.9, 0.5])
            wide = r.choice([2, 3, 5, 9])
            if x < p_valid:
                t = self.toks(r.randint(0, maxdepth), wide)
                if r.random() < 0.15:
                    t.append(",")
                s = self.wrap(self.join(t)) if r.random() < 0.5 else self.join(t)
            elif x < p_valid + (1 - p_valid) * 0.35:
                t = self.toks(r.randint(0, 4), wide)
                if r.random() < 0.15:
                    t += [","] + self.toks(r.randint(0, 2), 2)
                s = self.wrap(self.join(self.mutate_toks(t)))
            elif x < p_valid + (1 - p_valid) * 0.65:
                s = self.mutate_chars(self.wrap(self.join(self.toks(r.randint(0, 4), wide))))
            elif x < p_valid + (1 - p_valid) * 0.8:
                s = self.wrap(self.join(self.toks(r.randint(0, 3), 3)))
            else:
                s = "".join(r.choice(HOSTILE) for _ in range(r.randint(0, 14)))
            if len(s) <= maxlen:
                return s

    def long(self, good=0.7, size=3000):
        """a long one: wide and deep at once"""
        r = self.r
        while True:
            self.wsp = r.choice([0.0, 0.2])
            self.good = 1.0 if r.random() < good else r.choice([1.0, 0.995])
            self.left = r.randint(30, 200)
            s = self.join(self.toks(r.randint(3, 40), r.choice([3, 12, 60])))
            self.left = 10 ** 9
            if r.random() < (1 - good) / 2:
                s = self.mutate_chars(s)
            s = self.wrap(s) if r.random() < 0.5 else s
            if 500 < len(s) <= size:
                return s

    def texts(self, n, **kw):
        return [self.text(**kw) for _ in range(n)]

    def near(self):
        """two texts that differ in little: one place, or the wrapper; often both acceptable"""
        r = self.r
        self.wsp, self.good = r.choice([0.1, 0.5]), 1.0
        t = self.toks(r.randint(0, 3), 3)
        s = self.join(t)
        x = r.randrange(10)
        if x == 0:
            u = "cfg(" + s + ")"
        elif x == 1:
            u = self.join(t)
        elif x == 2:
            u = s + r.choice(WS)
        elif x == 3:
            u = s
        else:
            i = r.randrange(len(s))
            c = s[i]
            if c.isspace():
                d = r.choice(WS + [""])
            elif c.isalnum():
                d = r.choice([c.swapcase(), chr(ord("a") + r.randrange(26)), "_", c + c, "0", chr((ord(c) & 0x1f) + 0x60)])
            else:
                d = r.choice(["(", ")", ",", " ", "  ", "-", "\u00e9", c + " ", " " + c])
            u = s[:i] + d + s[i + 1:]
        if r.random() < 0.1:
            s = "cfg(" + s + ")"
        return (s, u) if r.random() < 0.5 else (u, s)

    def monster(self):
        """long, deep, wide, truncated or repeated: only ever asked for an answer"""
        r = self.r
        self.wsp, self.good = 0.0, r.choice([1.0, 1.0, 0.8])
        x = r.randrange(6)
        if x == 0:
            n = r.randint(50, 700)
            s = "".join(r.choice(["all(", "any(", "not(", "any(b,", "all(not(c),"]) for _ in range(n)) + "a"
            s += ")" * r.choice([n, 2 * n, n - 1, s.count("(")])
        elif x == 1:
            n = r.randint(200, 700)
            s = r.choice(["all(", "any(", "not(all("]) + ",".join(
                self.join(self.toks(r.choice([0, 0, 0, 1]), 2)) for _ in range(n)) + r.choice([")", "))", ",)", ""])
        elif x == 2:
            s = self.join(self.toks(7, 9))[: r.randint(1, 3000)]
        elif x == 3:
            s = r.choice(HOSTILE) * r.randint(1, 3000)
        elif x == 4:
            s = "".join(r.choice(HOSTILE) * r.choice([1, 1, 2, 300]) for _ in range(r.randint(1, 8)))
        else:
            s = self.mutate_chars(self.join(self.toks(6, 9)))[:3000]
        return self.wrap(s)
