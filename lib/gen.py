"""Generators of programs and inputs.  Nothing in here decides what is right: the specification does."""
import json
from vt import *

# ------------------------------------------------------------------------------------------------ regexes
# nodes: ("lit", ch) ("set", [(lo, hi)...], neg) ("seq", [..]) ("alt", [..]) ("rep", node, lo, hi|None, lazy) ("ci", node)
#        ("cls", "d"|"w"|"s"|"D"|"W"|"S") ("dot",) ("anchor", "^"|"$"|"\\b")
META = set("\\.+*?()|[]{}^$#&-~/ \"'")


def rx_src(n, top=True):
    k = n[0]
    if k == "lit":
        c = n[1]
        if c == "\n":
            return "\\n"
        if c == "\t":
            return "\\t"
        return "\\" + c if c in "\\.+*?()|[]{}^$" else c
    if k == "set":
        def e(c):
            return "\\" + c if c in "\\]^-[&~" else c
        return "[" + ("^" if n[2] else "") + "".join(e(a) if a == b else e(a) + "-" + e(b) for a, b in n[1]) + "]"
    if k == "seq":
        return "".join("(?:%s)" % rx_src(x) if x[0] == "alt" else rx_src(x) for x in n[1])
    if k == "alt":
        return "|".join(rx_src(x) for x in n[1])
    if k == "rep":
        s = rx_src(n[1])
        if n[1][0] in ("seq", "alt", "rep", "anchor"):
            s = "(?:%s)" % s
        lo, hi = n[2], n[3]
        q = {(0, 1): "?", (0, None): "*", (1, None): "+"}.get((lo, hi))
        if q is None:
            q = "{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)
            if hi is not None and len(s) % 3 == 0:
                q = q.replace(",", " , ").replace("{", "{ ").replace("}", " }")
        return s + q + ("?" if n[4] else "")
    if k == "ci":
        return "(?i:%s)" % rx_src(n[1])
    if k == "cls":
        return "\\" + n[1]
    if k == "dot":
        return "."
    if k in ("anchor", "raw"):
        return n[1]
    raise ValueError(n)


def rx_sample(n, r):
    k = n[0]
    if k == "lit":
        return n[1]
    if k == "set":
        if not n[2]:
            a, b = r.choice(n[1])
            return chr(r.randint(ord(a), ord(b)))
        for _ in range(30):
            c = r.choice("abcxyzABC019 .-_ä漢")
            if not any(a <= c <= b for a, b in n[1]):
                return c
        return "~"
    if k == "seq":
        return "".join(rx_sample(x, r) for x in n[1])
    if k == "alt":
        return rx_sample(r.choice(n[1]), r)
    if k == "rep":
        hi = n[3] if n[3] is not None else n[2] + 3
        return "".join(rx_sample(n[1], r) for _ in range(r.randint(n[2], hi)))
    if k == "ci":
        s = rx_sample(n[1], r)
        return "".join(r.choice((c.lower(), c.upper(), c)) if c.isascii() else c for c in s)
    if k == "raw":
        return r.choice(n[2])
    if k == "cls":
        return r.choice({"d": "0123456789", "w": "aZ_5", "s": " \t", "D": "a-.", "W": " -.", "S": "a1-"}[n[1]])
    if k == "dot":
        return r.choice("ab1-.ä ")
    return ""


# further ways to write one character, with characters that are mostly in the set
RAW_SETS = [("[[:digit:]]", "129"), ("[[:alpha:]_]", "aZ_"), ("[^[:alnum:]]", ".-ä"), ("[[:^digit:]1]", "a1b"), ("[a-c--b]", "acb"), ("[[:alpha:]&&[^x]]", "abx"),
            ("[\\w--\\d_]", "ab1"), ("[a-c~~b-d]", "adb"), ("[--a]", "-ab"), ("[]a]", "]ab"), ("[^]a]", "b1]"), ("[]-a]", "]-a"), ("[a-]", "a-b"), ("[^-a]", "b-a"),
            ("\\x61", "ab"), ("\\u0062", "bu"), ("[\\x30-\\x35]", "059"), ("[a-b[1-2]]", "ab12"), ("[^a[^b]]", "ba"), ("[[:upper:]&&[A-B]--A]", "BAb"), ("[[:x:]]", "x:a"),
            ("[a-c&&b-d--c]", "bcd"), ("[[:punct:]--/]", ".,:"), ("[\\n\\t[:blank:]]", "\t \n"), ("[[:xdigit:]--[:digit:]]", "afg1"), ("[[:^lower:]--[:space:]]", "A1a "), ("[+--]", "+-,")]


def gen_rx(r, depth=3, alpha="abc12", anchors=False):
    c = r.random()
    if depth <= 0 or c < 0.22:
        c = r.random()
        if c < 0.55:
            return ("lit", r.choice(alpha))
        if c < 0.62:
            return ("lit", r.choice(list(".+*?()|[]{}^$\\/-")))
        if c < 0.8:
            rs = []
            for _ in range(r.randint(1, 2)):
                a, b = sorted((r.choice(alpha), r.choice(alpha)))
                rs.append((a, b))
            return ("set", rs, r.random() < 0.2)
        if c < 0.88:
            return ("cls", r.choice("dwdwsDWS"))
        if c < 0.95:
            return ("raw",) + r.choice(RAW_SETS)
        return ("dot",)
    if c < 0.5:
        xs = [gen_rx(r, depth - 1, alpha, anchors) for _ in range(r.randint(2, 3))]
        if anchors and r.random() < 0.15:
            xs.insert(r.randint(0, len(xs)), ("anchor", r.choice(["^", "$", "\\b"])))
        return ("seq", xs)
    if c < 0.72:
        return ("alt", [gen_rx(r, depth - 1, alpha, anchors) for _ in range(r.randint(2, 3))])
    if c < 0.94:
        lo, hi = r.choice([(0, 1), (0, None), (1, None), (1, None), (2, 2), (1, 2), (0, 2), (2, None)])
        return ("rep", gen_rx(r, depth - 2, alpha, anchors), lo, hi, r.random() < 0.3)
    return ("ci", gen_rx(r, depth - 1, alpha, anchors))


# ------------------------------------------------------------------------------------------------ formats as source text
def esc_char(c, r, fancy=True):
    """a character of an ordinary string literal"""
    f = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\\": "\\\\", '"': '\\"'}
    if c in f:
        if c == "\n" and r.random() < 0.3:
            return "\n"
        if c == "\t" and r.random() < 0.3:
            return "\t"
        if r.random() < 0.8:
            return f[c]
    if fancy and (c in f or r.random() < 0.06):
        if ord(c) < 128 and r.random() < 0.5:
            return "\\x%02x" % ord(c) if r.random() < 0.5 else "\\x%02X" % ord(c)
        h = "%x" % ord(c)
        if r.random() < 0.3:
            h = h.upper()
        if r.random() < 0.2 and len(h) < 5:
            h = "0" + h
        if r.random() < 0.15:
            i = r.randint(1, len(h))
            h = h[:i] + r.choice(["_", "__"]) + h[i:]
        return "\\u{%s}" % h
    if c in f:
        return f[c]
    if c == "'" and r.random() < 0.3:
        return "\\'"
    return c


def lit_src(t, raw, r):
    """source text of literal text in an escaped format"""
    o = []
    for c in t:
        if c in "{}":
            o.append(c + c)
        elif raw:
            o.append(c)
        else:
            o.append(esc_char(c, r))
    return "".join(o)


def rx_in_format(src, raw, r=None):
    """/regex/ as it is written in a format"""
    s = src.replace("/", "\\/")
    if raw:
        return s
    return s.replace("\\", "\\\\").replace('"', '\\"')


class Ph:
    def __init__(self, ty, name=None, opt="", rx=None):
        self.ty, self.name, self.opt, self.rx = ty, name, opt, rx   # rx: AST of a custom regex, opt: other option text

    def src(self, raw):
        n = self.name or ""
        if self.rx is not None:
            o = ":/" + rx_in_format(self.rx if isinstance(self.rx, str) else rx_src(self.rx), raw) + "/"
        else:
            o = ":" + self.opt if self.opt else ""
        return "{" + n + o + "}"


def fmt_src(pieces, raw, r):
    return "".join(lit_src(p, raw, r) if isinstance(p, str) else p.src(raw) for p in pieces)


# ------------------------------------------------------------------------------------------------ sample texts
INTS = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "u128": (0, 128), "usize": (0, 64),
        "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}
NZ = {"NonZero" + k[0].upper() + k[1:]: v for k, v in INTS.items()}
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
UNI = "abxyZ019 .-_+,;:!?äßéΩ漢字🦀ſK\u00a0\t"


def to_radix(n, b):
    s = ""
    neg, n = n < 0, abs(n)
    while True:
        s = DIG[n % b] + s
        n //= b
        if n == 0:
            return ("-" if neg else "") + s


def int_range(ty):
    s, b = INTS.get(ty) or NZ[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def sample_int(ty, r, radix=10, opt=""):
    lo, hi = int_range(ty)
    c = r.random()
    if c < 0.3:
        n = r.randint(max(lo, -20), min(hi, 20))
    elif c < 0.6:
        n = r.randint(lo, hi)
    elif c < 0.8:
        n = r.choice([lo, hi, lo - 1, hi + 1, hi + 10, 0, 1])
    else:
        n = r.randint(lo, hi) >> r.randint(0, 100)
    if n < 0 and lo == 0:
        n = -n
    s = to_radix(n, radix)
    neg = s.startswith("-")
    s = s.lstrip("-")
    if r.random() < 0.15:
        s = "0" * r.randint(1, 2) + s
    if r.random() < 0.3:
        s = s.upper()
    pre = {"x": "0x", "o": "0o", "b": "0b"}.get(opt.strip("#"), "")
    if pre and ("#" in opt or r.random() < 0.5):
        s = (pre if r.random() < 0.7 else pre.upper()) + s
    return ("-" if neg else ("+" if r.random() < 0.15 else "")) + s


def sample_float(r):
    c = r.random()
    if c < 0.15:
        return r.choice(["inf", "INF", "-Infinity", "nan", "+NaN", "infinity"])
    s = r.choice(["", "", "-", "+"])
    a = str(r.choice([0, 1, 5, 12, 123456789, 3])) if r.random() < 0.85 else ""
    b = r.choice(["", ".", ".5", ".25", ".000001", ".123456789"])
    if not a and b in ("", "."):
        a = "7"
    e = r.choice(["", "", "", "e5", "E-3", "e+10", "e308", "e-324", "e39", "e-46"])
    return s + a + b + e


def sample_text(r, lo=1, hi=5, alpha=UNI):
    return "".join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


def base(ty):
    t = ty.replace(" ", "").lstrip("&")
    if t.endswith(">"):
        return "Cow"
    return t.split("::")[-1]


def sample_builtin(ty, r, opt=""):
    b = base(ty)
    if b in INTS:
        if opt.startswith("r"):
            return sample_int(b, r, int(opt[1:]))
        o = opt.strip("#")
        return sample_int(b, r, {"x": 16, "o": 8, "b": 2}.get(o, 10), opt)
    if b in NZ:
        return sample_int(b, r)
    if b in ("f32", "f64", "FullF32", "FullF64"):
        return sample_float(r)
    if b == "bool":
        return r.choice(["true", "false"])
    if b == "char":
        return r.choice(UNI)
    if b == "HexNumber":
        return r.choice(["", "0x", "0X"]) + "%x" % r.choice([0, 10, 255, 0xdeadbeef, 1 << 63, (1 << 64) - 1, 1 << 64])
    return sample_text(r)


def fieldable(t):
    """the spelling of a type in a field"""
    return {"str": "&str", "Cow": "Cow<str>"}.get(base(t), t)


def sample_ph(prog, p, r):
    if p.rx is not None:
        return rx_sample(p.rx, r) if not isinstance(p.rx, str) else r.choice(p.samples)
    t = prog.names.get(p.ty.replace(" ", ""))
    if t is not None:
        return t["sampler"](r)
    return sample_builtin(p.ty, r, p.opt)


def sample_pieces(prog, pieces, r):
    return "".join(p if isinstance(p, str) else sample_ph(prog, p, r) for p in pieces)


def mutate(s, r, alpha="ab01-+.x {}<>\n"):
    k = r.random()
    if not s or k < 0.25:
        i = r.randint(0, len(s))
        return s[:i] + r.choice(alpha + s) + s[i:]
    i = r.randrange(len(s))
    if k < 0.45:
        return s[:i] + s[i + 1:]
    if k < 0.65:
        return s[:i] + r.choice(alpha + s) + s[i + 1:]
    if k < 0.75:
        return s + r.choice(["\n", " ", "x", s[-1]])
    if k < 0.85:
        return r.choice(["\n", " ", "x", s[0]]) + s
    if k < 0.93:
        return s.swapcase()
    j = r.randrange(len(s))
    i, j = min(i, j), max(i, j)
    return s[:i] + s[j:] + s[i:j]


def inputs_for(prog, pieces, r, n=8, m=6):
    out = set()
    for _ in range(n):
        out.add(sample_pieces(prog, pieces, r))
    good = sorted(out)
    for _ in range(m):
        out.add(mutate(r.choice(good), r))
    return sorted(s for s in out if len(s) <= 100) or [min(good, key=len)]


# ------------------------------------------------------------------------------------------------ random programs
LITS = ["", "", " ", "-", ",", ": ", "<", ">", "(", ")", "[", "|", "a", "x=", ".", "*", "+", "?", "^", "$", "\\", "{", "}", "{}", "//", "#", "ä", "🦀 ", "\n", "\t", '"', "'", "/"]
TEXT_TYPES = ["str", "&str", "String", "Cow<str>", "PathBuf", "char"]
ALL_BUILTIN = list(INTS) + list(NZ) + ["f32", "f64", "bool"] + TEXT_TYPES * 2
FROMABLE = ["u8", "i16", "u32", "i64", "char", "bool", "String", "NonZeroU8", "usize", "&str", "Cow<str>"]


# conversions of the standard library, and types that a closure maps to themselves
STD_FROM = [("u8", "u16"), ("u8", "u32"), ("u8", "i16"), ("u8", "char"), ("u16", "u64"), ("u32", "i64"), ("u64", "u128"), ("i8", "i32"), ("bool", "u8"), ("bool", "i32"), ("char", "u32"), ("char", "u64"),
            ("char", "String"), ("&str", "String"), ("Cow<str>", "String"), ("String", "PathBuf"), ("u8", "u8"), ("String", "String"), ("NonZeroU8", "u8"), ("char", "char")]
STD_TRY = [("u32", "u8"), ("i64", "u8"), ("i32", "i8"), ("u64", "u32"), ("u128", "i128"), ("i8", "u8"), ("usize", "u16"), ("u8", "NonZeroU8"), ("u32", "char"), ("char", "u8"), ("u8", "u8"), ("i16", "usize"),
           ("u64", "usize"), ("u8", "u16")]
STEPPED = ["u8", "u16", "u64", "u128", "usize", "char", "bool", "String"]


def std_conv(name, r, c):
    """a field that is converted from one standard type to another"""
    if c in ("map", "filter_map"):
        t = r.choice(STEPPED)
        return field(name, t, c, t, r.randint(1, 99)), t
    t, u = r.choice(STD_FROM if c == "from" else STD_TRY)
    return field(name, u, c, t), t


class Gen:
    def __init__(self, rng, depth=3, user=True, manual=True, enums=True, convs=True, unescaped=True):
        self.r, self.p = rng, Program()
        self.opt = dict(user=user, manual=manual, enums=enums, convs=convs, unescaped=unescaped)
        self.n = 0
        self.level = {}

    def fresh(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def pick_type(self, nested=0.5, builtin=ALL_BUILTIN, infield=False, nolt=False, maxlevel=3):
        """infield: the type of a field, where derived types with a lifetime cannot be used"""
        mine = [n for n in self.p.names if self.level[n] < maxlevel and not ((nolt or infield) and self.p.has_lt(n))]
        if mine and self.r.random() < nested:
            return self.r.choice(mine)
        t = self.r.choice(builtin)
        return "String" if base(t) in ("str", "Cow") and (nolt or infield and self.r.random() < 0.7) else t

    def option(self, ty):
        """-> (opt, rx)"""
        r = self.r
        b = base(ty)
        if b in INTS and ty == b and r.random() < 0.25:
            return r.choice(["x", "o", "b", "#x", "x#", "#b", "o#", "r%d" % r.randint(2, 36)]), None
        if ty in self.p.names and self.p.names[ty]["k"] != "user":
            return "", None
        if r.random() < 0.15:
            if b in INTS or b in NZ:
                return "", r.choice([("rep", ("cls", "d"), 1, None, False), ("rep", ("set", [("0", "9")], False), 1, 2, True),
                                     ("alt", [("lit", "1"), ("seq", [("lit", "1"), ("lit", "2")])])])
            if b in ("str", "String", "Cow", "PathBuf") or ty in self.p.names:
                return "", gen_rx(r, 2, "abx1")
        return "", None

    def user(self):
        r = self.r
        n = self.fresh("U")
        ast = gen_rx(r, 2, "abx1!" if r.random() < 0.3 else "abx1")
        self.p.user(n, rx_src(ast))
        self.p.names[n]["sampler"] = lambda r, a=ast: rx_sample(a, r)
        self.level[n] = 0

    def manual(self):
        r = self.r
        n = self.fresh("M")
        xs = [gen_rx(r, 1, "abx1") for _ in range(r.randint(1, 3))]
        src = "".join(("(%s)" % rx_src(x)) + ("?" if r.random() < 0.4 else "") for x in xs)
        self.p.manual(n, src, len(xs) + 1)
        self.p.names[n]["sampler"] = lambda r, xs=xs: "".join(rx_sample(x, r) for x in xs)
        self.level[n] = 0

    def pieces(self, k, types, names=None, order=None):
        out = [self.r.choice(LITS)]
        for i in range(k):
            opt, rx = self.option(types[i])
            out.append(Ph(types[i], names[i] if names else None, opt, rx))
            out.append(self.r.choice(LITS))
        return [x for x in out if x != ""]

    def field(self, name, k):
        """-> (field, type that is matched or None)"""
        r = self.r
        if self.opt["convs"] and r.random() < 0.35:
            c = r.choice(["map", "filter_map", "from", "try_from", "default", "defexpr"])
            if c == "default":
                return field(name, r.choice(["u8", "i64", "String", "bool", "char", "Dflt", "&str", "f64", "PathBuf"]), "default"), None
            if c == "defexpr":
                return field(name, "", "defexpr", id=r.randint(1, 99)), None
            if r.random() < 0.4:
                return std_conv(name, r, c)
            t = self.pick_type(0.3, FROMABLE if c in ("from", "try_from") else ALL_BUILTIN, infield=True, nolt=c in ("from", "try_from"))
            t = fieldable(t)
            return field(name, "", c, t, r.randint(1, 99) if c in ("map", "filter_map") else 0), t
        t = self.pick_type(infield=True)
        t = fieldable(t)
        return field(name, t), t

    def body(self, nf, named=None):
        """fields and the pieces of a format that fills them"""
        r = self.r
        named = r.random() < 0.6 if named is None else named
        names = r.sample(["a", "b", "c", "d", "len", "x1", "foo_bar"], nf) if named else [""] * nf
        fs, tys = [], []
        for i in range(nf):
            f, t = self.field(names[i], i)
            fs.append(f)
            tys.append(t)
        live = [i for i in range(nf) if tys[i] is not None]
        # choose which ones are referred to by name
        by_name = [i for i in live if r.random() < 0.5]
        rest = [i for i in live if i not in by_name]
        order = [("n", i) for i in by_name] + [("u", None)] * len(rest)
        r.shuffle(order)
        it = iter(rest)
        ts, ns = [], []
        for k, i in order:
            if k == "u":
                ts.append(tys[next(it)])
                ns.append(None)
            else:
                ts.append(tys[i])
                ns.append(names[i] if named and r.random() < 0.8 else str(i))
        return fs, self.pieces(len(ts), ts, ns), named, max([self.level.get(t, 0) for t in ts if t] + [0])

    def struct(self, nf=None):
        r = self.r
        n = self.fresh("S")
        nf = r.randint(1, 4) if nf is None else nf
        fs, ps, named, lv = self.body(nf)
        raw = r.random() < 0.5
        self.p.struct(n, fmt_src(ps, raw, r), fs, raw=raw, shape="named" if named else "tuple",
                      short=not raw and r.random() < 0.3)
        self.p.names[n]["sampler"] = lambda r, ps=ps: sample_pieces(self.p, ps, r)
        self.level[n] = lv + 1
        return n

    def enum(self, nv=None):
        r = self.r
        n = self.fresh("E")
        nv = r.randint(1, 4) if nv is None else nv
        ag = r.choice(["", "", "CaseSensitive", "kebab-case", "UPPERCASE", "CaseInsensitive", "snake_case"])
        vs, samplers, lv, live = [], [], 0, False
        idents = r.sample(["A", "B", "Foo", "FooBar", "Ab1C", "XmlHttp", "Z9", "Quux"], nv)
        for i in range(nv):
            c = r.random()
            if c < 0.15 and (live or i < nv - 1):
                vs.append(variant(idents[i], "", [field("", "u8")] if r.random() < 0.5 else [], attr="skip"))
                continue
            if c < 0.35 and ag:
                vs.append(variant(idents[i], "", [], attr="none"))
                samplers.append(lambda r, t=idents[i]: r.choice([t, t.lower(), t.upper(), "foo-bar", "foo_bar"]))
                live = True
                continue
            if c < 0.45:
                t = self.pick_type(0.7, infield=True)
                t = fieldable(t)
                vs.append(variant(idents[i], "", [field("" if r.random() < 0.5 else "a", t)], attr="transparent"))
                samplers.append(lambda r, t=t: sample_ph(self.p, Ph(t), r))
                lv = max(lv, self.level.get(t, 0))
                live = True
                continue
            nf = r.choice([0, 0, 1, 1, 2, 3])
            fs, ps, named, l = self.body(nf)
            raw = r.random() < 0.5
            vs.append(variant(idents[i], fmt_src(ps, raw, r), fs, raw=raw,
                              shape=("named" if named else "tuple") if nf else r.choice(["unit", "unit", "named", "tuple"])))
            samplers.append(lambda r, ps=ps: sample_pieces(self.p, ps, r))
            lv = max(lv, l)
            live = True
        if not live:
            vs.append(variant("Last", "last", []))
            samplers.append(lambda r: "last")
        self.p.enum(n, vs, ag)
        self.p.names[n]["sampler"] = lambda r, ss=samplers: r.choice(ss)(r)
        self.level[n] = lv + 1
        return n

    def types(self, nu=2, nm=1, ns=4, ne=3):
        todo = ["s"] * ns + ["e"] * ne
        self.r.shuffle(todo)
        for _ in range(nu):
            self.user()
        for _ in range(nm):
            self.manual()
        for t in todo:
            (self.struct if t == "s" else self.enum)()

    def args_and_names(self, tys):
        """assigns the types of the placeholders by position, by index or in the format"""
        r = self.r
        args, names = [], []
        for t in tys:
            c = r.random()
            if c < 0.3 and "/" not in t:
                names.append(("type", t))
            elif c < 0.45 and t in [a for a in args]:
                names.append(("index", args.index(t)))
            else:
                names.append(("pos", None))
                args.append(t)
        # unnamed placeholders take the arguments in order; extra arguments that are referred to by index go to the end
        extra = []
        out = []
        for k, v in names:
            if k == "pos":
                out.append(None)
            elif k == "type":
                out.append(v)
            else:
                out.append(str(v))
        for i, (k, v) in enumerate(names):
            if k == "type" and r.random() < 0.25:
                args.append(v)
                out[i] = str(len(args) - 1)
        return args, out

    def site(self, k=None, n=6, m=5, api="sscanf", maxlevel=4, nested=0.5):
        r = self.r
        k = r.choice([0, 1, 1, 2, 2, 3]) if k is None else k
        tys = [self.pick_type(nested, maxlevel=maxlevel) for _ in range(k)]
        args, names = self.args_and_names(tys)
        ps = self.pieces(k, tys, names)
        raw = r.random() < 0.5
        ins = inputs_for(self.p, ps, r, n, m)
        return self.p.site(fmt_src(ps, raw, r), args, ins, api=api, raw=raw)


# ------------------------------------------------------------------------------------------------ large ones
PLAIN = ["u8", "u16", "i8", "char", "bool", "String", "&str", "i64"]


def _large_pieces(ts, names, r):
    """placeholders for the types in the given order, with something in between that tells them apart"""
    ps = []
    for i, (t, n) in enumerate(zip(ts, names)):
        ps += ([r.choice([",", ";", "|"])] if i else []) + [Ph(t, n)]
    return ps


def large_call(p, r, n):
    """a call with n types, taken in order, by index, or both"""
    ts = [r.choice(PLAIN) for _ in range(n)]
    order, names = list(range(n)), [None] * n
    mode = r.choice(["order", "index", "both"])
    if mode != "order":
        r.shuffle(order)
        names = [str(i) for i in order]
        if mode == "both":
            # unnamed ones take the types in order, so they have to be in order themselves
            un = sorted(r.sample(range(n), n // 3))
            rest = [i for i in range(n) if i not in un]
            ts2 = [ts[i] for i in range(n)]
            slots = sorted(r.sample(range(n), len(un)))
            r.shuffle(rest)
            order, names, k, j = [], [], 0, 0
            for q in range(n):
                if q in slots:
                    order.append(k); names.append(None); k += 1      # the k-th unnamed one takes type k
                else:
                    order.append(rest[j]); names.append(str(rest[j])); j += 1
            left = set(range(n)) - set(order)
            for i in left:
                order.append(i); names.append(str(i))
            ts = ts2
    ps = _large_pieces([ts[i] for i in order], names, r)
    good = [sample_pieces(p, ps, r) for _ in range(2)]
    p.site(fmt_src(ps, True, r), ts, sorted(set(good) | {mutate(good[0], r), mutate(good[1], r)}), raw=True)


def large_struct(p, r, n, name):
    """a struct with n fields that are named in any order, or not"""
    ts = [r.choice([t for t in PLAIN if t != "&str"]) for _ in range(n)]
    named = r.random() < 0.5
    dflt = set(r.sample(range(n), n // 5)) if r.random() < 0.5 else set()
    order = [i for i in range(n) if i not in dflt]
    names = [None] * len(order)
    mode = r.choice(["order", "name", "index", "both"])
    if mode != "order":
        r.shuffle(order)
        f = lambda i: "f%d" % i if named and mode != "index" else str(i)
        if mode == "both":
            # the unnamed ones take what is left, in order
            un = sorted(r.sample(order, len(order) // 3))
            it = iter(un)
            slots = set(r.sample(range(len(order)), len(un)))
            rest = iter([i for i in order if i not in un])
            order, names = zip(*[(next(it), None) if q in slots else (lambda i: (i, f(i)))(next(rest)) for q in range(len(order))])
        else:
            names = [f(i) for i in order]
    fs = [field("f%d" % i if named else "", ts[i], "default" if i in dflt else "none") for i in range(n)]
    ps = _large_pieces([ts[i] for i in order], names, r)
    p.struct(name, fmt_src(ps, True, r), fs, raw=True, short=False, shape="named" if named else "tuple")
    good = [sample_pieces(p, ps, r) for _ in range(2)]
    p.site("{}", [name], sorted(set(good) | {mutate(good[0], r), mutate(good[1], r)}))


def large_enum(p, r, n, name):
    """an enum with n variants, of which some match the texts of many others"""
    vs, texts = [], []
    general = set(r.sample(range(n), 3)) | ({n - 1} if r.random() < 0.7 else set()) | ({0} if r.random() < 0.3 else set())
    general = set(sorted(general)[-2:]) if r.random() < 0.5 else general
    for i in range(n):
        if i in general:
            vs.append(variant("V%d" % i, "v{}", [field("", r.choice(["u8", "String", "u16"]))]))
            texts += ["v%d" % r.randrange(300), "v7"]
        elif r.random() < 0.1:
            t = r.choice(PLAIN[:5])
            vs.append(variant("V%d" % i, "w%d:{}" % i, [field("", t)]))
            texts.append("w%d:%s" % (i, sample_builtin(t, r)))
        else:
            vs.append(variant("V%d" % i, "v%d" % i, []))
    p.enum(name, vs, "")
    edge = [i for k in (8, 10, 16, 32, 64, 100, 128, 256) for i in (k - 1, k) if i < n]
    p.site(r.choice(["{}", "{}", "{}{str}"]), [name], sorted({"v%d" % i for i in r.sample(edge, min(len(edge), 4)) + [0, n - 1, n, r.randrange(n)]} | set(r.sample(texts, min(4, len(texts))))))


def deep_type(p, r, n, name):
    """n types, each in the next"""
    inner, text = None, None
    for k in range(n):
        nm = "%s_%d" % (name, k)
        f = lambda: [field("", inner if inner else "u8")]
        if r.random() < 0.6:
            fmt = r.choice(["{}", "<{}>", "{}.", "a{}"])
            p.struct(nm, fmt, f(), shape="tuple")
        else:
            fmt = r.choice(["({})", "{}b", "{}"])
            vs = [variant("A", fmt, f()), variant("B", "-{}", [field("", "char")])]
            if r.random() < 0.5:
                vs.insert(0, variant("C", "{}=", f()))
            p.enum(nm, vs, "")
        text = [fmt.replace("{}", x) for x in (text or ["7", "300", "12"])]
        inner = nm
    p.site("{}", [inner], sorted(set(text) | {mutate(text[0], r), mutate(text[1], r)}))
    p.site("", [inner], sorted(set(text[:2])), api="from_str")
