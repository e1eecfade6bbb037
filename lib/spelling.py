"""Types in all spellings, generic types, and how long values live."""
from checks import *
from compiles import *

STR_PATHS = ["str", "primitive::str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str"]
COW_PATHS = ["Cow", "borrow::Cow", "std::borrow::Cow", "alloc::borrow::Cow", "::std::borrow::Cow", "::alloc::borrow::Cow"]
NZS = list(NZ)
PRIMS = list(INTS) + ["f32", "f64", "char", "bool"]


def spellings():
    """canonical type -> all its spellings"""
    d = {}
    for t in PRIMS:
        d[t] = [x + t for x in ("", "primitive::", "std::primitive::", "::std::primitive::", "core::primitive::", "::core::primitive::")]
    for t in NZS:
        d[t] = [x + t for x in ("", "std::num::", "::std::num::", "core::num::", "::core::num::")]
    for t in ("FullF32", "FullF64", "HexNumber"):
        d[t] = [x + t for x in ("", "sscanf::", "::sscanf::")]
    d["String"] = ["String", "std::string::String", "::std::string::String"]
    d["PathBuf"] = ["PathBuf", "std::path::PathBuf", "::std::path::PathBuf"]
    d["str"] = STR_PATHS + ["&" + s for s in STR_PATHS]
    d["Cow<str>"] = [c + l + s + ">" for c in COW_PATHS for l in ("<", "<'_, ", "<'static, ") for s in STR_PATHS]
    return d


def spaced(s, r):
    """the same tokens with other space between them"""
    toks = re.findall(r"::|'?\w+|[^\w\s]|\s+", s)
    return "".join(t if t.isspace() else r.choice(["", "", " ", "  ", "\t"]) + t for t in toks).strip() if r.random() < 0.25 else s


def field_spelling(s):
    """as the type of a field of a struct with the lifetime 'a"""
    if s.startswith("&"):
        return "&'a " + s[1:]
    if "Cow" in s:
        return re.sub(r"Cow ?<('\w+, )?", "Cow<'a, ", s)
    return s


def spelled(r):
    p = Program()
    sp = spellings()
    n = 0
    for t in sp:
        for s in sp[t]:
            ins = sorted({sample_builtin(t, r) for _ in range(2)} | {r.choice(["", "x1", "-", "1 "])})
            w = spaced(s, r)
            p.site("{%s}" % w, [], ins)
            if "'_" not in s or True:
                p.site(r.choice(["{}", "{0}"]), [spaced(s, r)], ins)
            if r.random() < 0.3:
                p.site("{:/(?s:.{1,4})/}|{%s:/[^|]*/}" % w, [spaced(s, r)], ["%s|%s" % (a, b) for a in ins for b in ins][:5])
            if r.random() < 0.2 and t in INTS:
                if s == t:
                    p.site("{%s:x}" % w, [], ["0", "7f", "zz"])
    # fields, with and without conversion
    todo = [(t, s) for t in sp for s in sp[t]]
    r.shuffle(todo)
    for k in range(0, len(todo), 3):
        part = todo[k:k + 3]
        fs, ps = [], []
        for t, s in part:
            if "str" in t and not s.startswith("&") and "Cow" not in s:
                s = "&" + s
            c = r.choice(["none", "none", "map", "filter_map", "from", "try_from"])
            canon = {"str": "&str"}.get(t, t)
            if c in ("filter_map", "try_from") and t in ("HexNumber", "FullF32", "FullF64") or c == "try_from" and t in ("HexNumber",):
                c = "map"
            fty = field_spelling(s)
            if c == "none":
                f = dict(field("", canon), tytext=fty)
            elif c in ("map", "filter_map"):
                f = field("", "", c, canon, r.randint(1, 99))
                fn, ret = ("map", "Tag<%s>") if c == "map" else ("filter", "Option<Tag<%s>>")
                f["attrtext"] = "#[sscanf(%s = %s)]" % (c, closure(fn, fty, ret % fty, f["conv"]["id"]))
            else:
                if "'" in s:
                    s = re.sub(r"'\w+, ", "", s)
                f = field("", "", c, canon)
                f["attrtext"] = "#[sscanf(%s = %s)]" % (c, spaced(s, r))
            fs.append(f)
            ps += [Ph(t), ";"]
        ps = ps[:-1]
        nm = "S%d" % k
        p.struct(nm, fmt_src(ps, False, r), fs, raw=False)
        p.site("{}", [nm], inputs_for(p, ps, r, 3, 1))
    return p


# ------------------------------------------------------------------------------------------------ generic types
ITEMS = """
pub mod deep { pub mod er { pub use crate::UA; pub use crate::UA as Other; pub use crate::MA; pub type Num = u8; pub type Text = String; pub(crate) use crate::DS as Inner; } pub use crate::UB; }
pub use deep::er as short;
pub trait HasTy { type Out; }
impl HasTy for u8 { type Out = UA; }
impl HasTy for (u8, i8) { type Out = UB; }
impl HasTy for [u8; 2] { type Out = char; }
pub type Id<T> = T;
pub trait Snd<B> { type Out; }
impl<A: ?Sized, B> Snd<B> for A { type Out = B; }
pub type Second<A, B> = <A as Snd<B>>::Out;
pub type Num<const N: usize> = UA;
"""


def paths():
    """(spelling, canonical type)"""
    out = []
    for u, mod in (("UA", "deep::er::"), ("MA", "deep::er::"), ("UB", "deep::"), ("DS", "")):
        out += [(x + u, u) for x in ("", "self::", "crate::")]
        if mod:
            out += [(x + mod + u, u) for x in ("", "self::", "crate::")]
        for t in (u, "crate::" + u):
            out += [("Id<%s>" % t, u), ("Id::<%s>" % t, u), ("crate::Id<%s>" % t, u), ("Id<Id<%s>>" % t, u), ("Second<u8, %s>" % t, u), ("Second<(u8, i8), %s>" % t, u), ("Second<[u8; 3], %s>" % t, u), ("Second<&'static str, %s>" % t, u),
                    ("Second<fn(u8) -> i8, %s>" % t, u), ("Second<Vec<Vec<u8>>, %s>" % t, u), ("Second<dyn Fn(&str) -> u8 + Send, %s>" % t, u)]
    out += [("short::Other", "UA"), ("deep::er::Other", "UA"), ("<u8 as HasTy>::Out", "UA"), ("<u8 as crate::HasTy>::Out", "UA"), ("<(u8, i8) as HasTy>::Out", "UB"), ("<[u8; 2] as HasTy>::Out", "char"), ("Num<3>", "UA"), ("deep::er::Inner", "DS")]
    out += [("deep::er::Num", "u8"), ("deep::er::Text", "String"), ("Id<u8>", "u8"), ("Id<String>", "String"), ("Id<i64>", "i64"), ("Second<UA, f32>", "f32"), ("Id<bool>", "bool"), ("Id<std::path::PathBuf>", "PathBuf"), ("Second<str, char>", "char")]
    return out


def named_paths(r):
    p = Program()
    p.user("UA", "[ab]+")
    p.user("UB", "x|\\d+")
    p.manual("MA", "([a-c])(\\d)?", 3)
    p.struct("DS", "<{}:{}>", [field("", "u8"), field("", "UA")])
    p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "bb"])
    p.names["UB"]["sampler"] = lambda r: r.choice(["x", "12", "0"])
    p.names["MA"]["sampler"] = lambda r: r.choice(["a", "b1", "c0"])
    p.names["DS"]["sampler"] = lambda r: "<%d:%s>" % (r.randint(0, 300), r.choice(["a", "bab"]))
    p.items.append(ITEMS)
    seen = {"UA", "UB", "MA", "DS"}
    for s, t in paths():
        key = s.replace(" ", "")
        if key not in seen and s not in seen:
            seen.add(key)
            p.alias(s, t)
        ins = inputs_for(p, [Ph(t)], r, 3, 2)
        p.site("{%s}" % s, [], ins)
        p.site(r.choice(["{}", "{0}"]), [s], ins)
        if r.random() < 0.5:
            ps = [Ph(t), "-", Ph(t)]
            p.site("{%s}-{}" % s, [s], inputs_for(p, ps, r, 3, 2))
        n = "P%d" % len(p.types)
        c = r.choice(["none", "none", "map", "from"])
        if c == "none":
            f = dict(field("", t), tytext=s)
        elif c == "map":
            f = field("", "", c, t, r.randint(1, 99))
            f["attrtext"] = "#[sscanf(map = %s)]" % closure("map", s, "Tag<%s>" % s, f["conv"]["id"])
        else:
            f = field("", "", c, t)
            f["attrtext"] = "#[sscanf(from = %s)]" % s
        p.struct(n, "{}", [f])
        p.site("={}", [n], ["=" + i for i in ins])
    return p


def generic(r, count):
    """derived types with lifetimes, and with type parameters for fields that are not matched or have their own regex"""
    p = Program()
    p.user("UA", "[ab]+")
    p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "bb"])
    for k in range(count):
        n = "G%d" % k
        lts = r.choice([[], ["'a"], ["'a"], ["'a", "'b"], ["'x", "'a"], ["'s"]])
        tps = r.sample(["T", "V", "W"], r.choice([0, 0, 1, 1, 2]))
        consts = ["N"] if r.random() < 0.2 else []
        inst = {t: r.choice(["u8", "String", "i64", "char", "bool", "UA", "f32", "std::num::NonZeroU8"]) for t in tps}
        matched = {t: r.random() < 0.5 for t in tps}
        for t in tps:
            if not matched[t] and inst[t] in ("UA", "std::num::NonZeroU8", "f32"):
                inst[t] = "u8"
        number = r.randint(0, 99)
        fs, phs = [], []
        nv = 1 if r.random() < 0.7 else 2
        variants = []
        used = set()
        for v in range(nv):
            fs, ps = [], []
            kinds = [("lt", l) for l in lts] + [("t", t) for t in tps] + [("n", c) for c in consts] if v == 0 else [("lt", r.choice(lts))] if lts else []
            kinds += [(r.choice(["own", "static", "conv", "dlt"]), None) for _ in range(r.randint(0, 2))]
            r.shuffle(kinds)
            for kd, x in kinds:
                if kd == "static" and (any(f.get("tytext", "").find("'static") < 0 and "'" in f.get("tytext", "") for f in fs) or lts):
                    kd = "own"
                if kd in ("conv", "dlt") and not lts:
                    kd = "own"
                if kd == "lt":
                    w = r.choice(["&%s str" % x, "&%s std::primitive::str" % x, "Cow<%s, str>" % x, "std::borrow::Cow<%s, str>" % x])
                    fs.append(dict(field("", "&str" if w[0] == "&" else "Cow<str>"), tytext=w))
                    ps += [Ph("str")]
                elif kd == "static":
                    fs.append(field("", r.choice(["u16", "String"])))
                    ps += [Ph(fs[-1]["ty"])]
                elif kd == "own":
                    fs.append(field("", r.choice(["u8", "i32", "char", "UA", "String"])))
                    ps += [Ph(fs[-1]["ty"])]
                elif kd == "conv":
                    l = r.choice(lts)
                    f = field("", "", r.choice(["map", "filter_map"]), "&str", r.randint(1, 99))
                    ty = "&%s str" % l
                    f["tytext"] = "Tag<%s>" % ty
                    f["attrtext"] = "#[sscanf(%s = %s)]" % (f["conv"]["k"], closure("map" if f["conv"]["k"] == "map" else "filter", ty, ("Tag<%s>" if f["conv"]["k"] == "map" else "Option<Tag<%s>>") % ty, f["conv"]["id"]))
                    fs.append(f)
                    ps += [Ph("str")]
                elif kd == "dlt":
                    fs.append(dict(field("", "&str", "default"), tytext="&%s str" % r.choice(lts)))
                    continue
                elif kd == "n":
                    f = field("", "", "defexpr", id=number)
                    f["attrtext"] = "#[sscanf(default = mkdef(N as u32))]"
                    fs.append(f)
                    continue
                elif matched[x]:
                    t = inst[x].split("::")[-1]
                    fs.append(dict(field("", t), tytext=x))
                    rx = r.choice(["[^,;]*", "\\w+", "\\d{1,4}|[abx]+|true", "(?s:..?)"])
                    ph = Ph(t)
                    ph.rx, ph.samples = rx, ["1", "12", "a", "ab", "true", "x", "300", "b"]
                    ps += [ph]
                else:
                    fs.append(dict(field("", inst[x], "default"), tytext=x))
                    continue
                ps += [r.choice([",", ";", "/"])]
            live = [q for q in ps if isinstance(q, Ph)]
            src = "".join(q if isinstance(q, str) else "{}" if q.rx is None else "{:/%s/}" % q.rx for q in ps)
            if v == 1:
                src, ps = "2:" + src, ["2:"] + ps
            variants.append((src, fs, ps))
        enc = ["%s: Enc" % t for t in tps]
        bounds = {t: [] for t in tps}
        preds = []
        for t in tps:
            b = ["std::str::FromStr", "'static"] if matched[t] else ["Default"]
            if matched[t]:
                preds.append("<%s as std::str::FromStr>::Err: std::error::Error + 'static" % t)
            if r.random() < 0.5:
                preds.append("%s: %s" % (t, " + ".join(b)))
            else:
                bounds[t] = b
        ldecl = [l + (": " + lts[0] if i and r.random() < 0.3 else "") for i, l in enumerate(lts)]
        tdecl = [t + (": " + " + ".join(bounds[t]) if bounds[t] else "") + (" = u8" if r.random() < 0.0 else "") for t in tps]
        cdecl = ["const %s: usize" % c for c in consts]
        decl = ldecl + tdecl + cdecl
        where = " where " + ", ".join(preds) + ("," if r.random() < 0.5 else "") if preds else ""
        if r.random() < 0.2 and lts and not preds:
            where = " where %s: %s" % (lts[0], lts[0])
        gen = dict(decl="<%s>" % ", ".join(decl) if decl else "", use="<%s>" % ", ".join(lts + tps + consts) if decl else "",
                   where=where, enc="")
        if enc:
            gen["enc"] = (" where " if not where else "" if where.endswith(",") else ", ") + ", ".join(enc)
        args = [inst[t] for t in tps] + [str(number) for _ in consts]
        spellings = []
        if args:
            spellings = ["%s<%s>" % (n, ", ".join(args)), "%s::<%s>" % (n, ", ".join(args)), "crate::%s<%s>" % (n, ", ".join(["'_"] * len(lts) + args))]
        elif lts:
            spellings = [n, "%s<%s>" % (n, ", ".join(["'_"] * len(lts))), "crate::%s" % n]
        else:
            spellings = [n]
        if nv == 1:
            src, fs, ps = variants[0]
            p.struct(n, src, fs, raw="\\" in src or r.random() < 0.3, shape="tuple" if fs else "unit")
        else:
            p.enum(n, [variant("V%d" % i, src, fs, raw="\\" in src, shape="tuple" if fs else "unit") for i, (src, fs, ps) in enumerate(variants)])
        p.names[n]["gen"] = gen
        ins = sorted({i for src, fs, ps in variants for i in inputs_for(p, ps, r, 4, 2)})
        for s in spellings:
            if s != n:
                p.alias(s, n)
            if r.random() < 0.5:
                p.site("{}", [s], ins)
            else:
                p.site("{%s}" % s, [], ins)
        p.site("", [spellings[0].replace("::<", "<")], ins, api="from_str")
    return p


# ------------------------------------------------------------------------------------------------ lifetimes
FIELD = {"own": ("", "u8"), "a": ("", "&'a str"), "cow-a": ("", "Cow<'a, str>"), "map-a": ("#[sscanf(map = |x: &'a str| Wrap(x))] ", "Wrap<&'a str>"), "b": ("", "&'b str"), "cow-b": ("", "std::borrow::Cow<'b, str>"),
         "static": ("", "&'static str"), "default-a": ("#[sscanf(default)] ", "&'a str"), "default-b": ("#[sscanf(default = \"\")] ", "&'b str"), "map-own": ("#[sscanf(map = |x: &str| Wrap(x.len()))] ", "Wrap<usize>"),
         "from-own": ("#[sscanf(from = &str)] ", "String")}
FIELD_ALT = {"own": ("", "String"), "cow-a": ("", "Cow<'a, std::primitive::str>"), "map-a": ("#[sscanf(filter_map = |x: Cow<'a, str>| Some(Wrap(x)))] ", "Wrap<Cow<'a, str>>"), "static": ("", "Cow<'static, str>"),
             "map-own": ("#[sscanf(filter_map = |x: Cow<str>| x.parse::<u8>().ok())] ", "u8"), "from-own": ("#[sscanf(try_from = Cow<str>)] ", "String"), "default-a": ("#[sscanf(default = \"x\")] ", "&'a str"), "a": ("", "&'a std::primitive::str")}
WRAP = ["struct Wrap<T>(T);"]


def lifetime_case(x, r):
    kinds = x["fields"]
    pick = [r.choice([FIELD, FIELD_ALT]).get(k) or FIELD[k] for k in kinds]
    lts = sorted(set(x["mentions"]))
    live = [k for k in kinds if not k.startswith("default")]
    fmt = ",".join("{}" for _ in live)
    use = x["use"]
    api = r.choice(["sscanf", "unescaped", "from_str"]) if x["form"] != "call" else r.choice(["sscanf", "unescaped"])
    if x["form"] == "call":
        tys = {"own": "u8", "a": r.choice(["str", "&str"]), "cow-a": "Cow<str>"}
        infmt = r.random() < 0.5
        call = '!(s, "%s"%s).unwrap()' % (",".join("{%s}" % tys[k] if infmt else "{}" for k in kinds), "" if infmt else "".join(", " + tys[k] for k in kinds))
        call = ("sscanf" if api == "sscanf" else "sscanf_unescaped") + call
        out = {"own": "u8", "a": "&%s str", "cow-a": "Cow<%s, str>"}
        arg = "'" + use["a"]
        rets = [out[k] % arg if "%" in out[k] else out[k] for k in kinds]
        ret = rets[0] if len(rets) == 1 else "(%s)" % ", ".join(rets)
        decl = ""
    else:
        fs = ["%s%s" % p for p in pick]
        g = "<%s>" % ", ".join("'" + l for l in lts) if lts else ""
        if x["form"] == "struct":
            decl = '#[derive(FromScanf)] #[sscanf("%s")] struct Q%s(%s); ' % (fmt, g, ", ".join(fs))
        else:
            cut = r.randint(0, len(fs))
            vs = ['#[sscanf("%s")] V%d(%s)' % ("%d:" % i + ",".join("{}" for k in kinds[a:b] if not k.startswith("default")), i, ", ".join(fs[a:b])) for i, (a, b) in enumerate([(0, cut), (cut, len(fs))])]
            decl = "#[derive(FromScanf)] enum Q%s { %s, W } " % (g, ", ".join(vs))
        call = {"sscanf": 'sscanf!(s, "{Q}")', "unescaped": 'sscanf_unescaped!(s, "{}", Q)', "from_str": "Q::from_str(s)"}[api] + ".unwrap()"
        if api == "from_str" and x["input"] == "local":
            call = call.replace("(s)", "(&s)")
        ret = "Q" + ("<%s>" % ", ".join("'" + use[l] for l in lts) if lts else "")
    s = {"static": 'let s: &\'static str = "1";', "caller": "let s: &'x str = z;", "local": "let s = String::from(z);"}[x["input"]]
    if use["k"] == "return":
        f = "fn f<'x>(z: &'x str) -> %s { %s %s }" % (ret, s, call)
    elif use["k"] == "inside":
        f = "fn f<'x>(z: &'x str) { %s let q = %s; drop(q); drop(s); }" % (s, call)
    else:
        f = "fn f<'x>(z: &'x str) { let q; { %s q = %s; drop(s); } drop(q); }" % (s, call)
    code = decl + f
    return Case("lifetimes: " + code, "const _: () = { %s };" % code, "ok" if x["fine"] else "later")


# ------------------------------------------------------------------------------------------------ sequences of tokens
def type_text(toks, r):
    o = ""
    for t in toks:
        word = t[0].isalpha() or t[0] in "'_"
        o += (" " if o and word and (o[-1].isalnum() or o[-1] == "_") else r.choice(["", "", "", " "]) if o else "") + t
    return o


def forms(chk, r):
    """tokens in the place of a type: in the argument list, in the format, and as the source of a conversion"""
    strs = [["str"], ["primitive", "::", "str"], ["std", "::", "primitive", "::", "str"], ["::", "core", "::", "primitive", "::", "str"]]
    cows = [c + b + l + s + ["," for _ in range(k % 2)] + [">"] for k, (c, b, l, s) in enumerate(
        (c, b, l, s) for c in (["Cow"], ["borrow", "::", "Cow"], ["::", "std", "::", "borrow", "::", "Cow"]) for b in (["<"], ["::", "<"]) for l in ([], ["'_", ","]) for s in strs[:3])]
    ints = [["u8"], ["std", "::", "primitive", "::", "u8"], ["::", "core", "::", "primitive", "::", "r#u8"], ["u8", "<", ">"]]
    seeds = [["&"] + s for s in strs] + strs + r.sample(cows, 4) + ints + [["<", "u8", ">", "::", "str"], ["&", "'a", "mut", "str"], ["Cow", "<", "Cow", "<", "str", ">", ">"]]
    path = os.path.join(chk.dir, "forms.json")
    with open(path, "w") as f:
        json.dump(dict(seeds=r.sample(seeds, 4) if THOROUGH else seeds, tokens=r.sample(["&", "::", "<", ">", "str", "'_", "mut", "u8", ",", "Cow"], 4), maxlen=5 + THOROUGH, edits=1 + THOROUGH), f)
    by = {}
    for x in run_tlc(chk, "TypeForm", env=dict(PROGRAM=path), timeout=800)[0]:
        by.setdefault(x["v"], []).append(x)
    chk.log("sequences of tokens as types:", {k: len(v) for k, v in by.items()})
    chk.cov["forms"] = {k: len(v) for k, v in by.items()}
    ret = {"str": "&str", "cow": "Cow<str>", "int": "u8"}
    cases = []
    for v, xs in sorted(by.items()):
        n = (3000 if v == "macro" else 1200) * (6 if THOROUGH else 1)
        short = [x for x in xs if len(x["toks"]) < 4]
        rest = [x for x in xs if len(x["toks"]) >= 4]
        for x in short + (r.sample(rest, n) if len(rest) > n else rest):
            t = type_text(x["toks"], r)
            ty = ret.get(v, "_")
            e = v if v in ("macro", "later") else "ok"
            where = ["arg", "format"]
            if v == "macro" or v == "int" or v == "str" and t[0] == "&":
                where.append("from")
            where = [w for w in where if w == "format" or x["balanced"]]
            if len(x["toks"]) > 2:
                where = [r.choice(where)]
            for w in where:
                if w == "arg":
                    code = 'let _: Result<%s, sscanf::Error> = %s("1", "{}", %s%s);' % (ty, r.choice(["sscanf!", "sscanf_unescaped!"]), t, r.choice(["", ","]))
                    cases.append(Case("the tokens %s as a type" % t, "fn f() { %s }" % code, e))
                elif w == "format":
                    f = '"{%s}"' % t
                    code = 'let _: Result<%s, sscanf::Error> = sscanf!("1", %s);' % (ty, f)
                    cases.append(Case("the tokens %s as the name of a placeholder" % t, "fn f() { %s }" % code, e, [(2, 1 + len(t))] if e == "macro" else None, f))
                else:
                    code = '#[derive(FromScanf)] #[sscanf("{}")] struct Q(#[sscanf(from = %s)] Any);' % t
                    cases.append(Case("the tokens %s as the source of a conversion" % t, code, e))
    cases = [c.__class__(c.key, "const _: () = { %s };" % c.code, c.expect, c.errs, c.lit) for c in cases]
    for c in r.sample(cases, 4):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, name(chk, "forms"), cases, items=["struct Any(u8);", "impl From<u8> for Any { fn from(v: u8) -> Any { Any(v) } } impl From<&str> for Any { fn from(v: &str) -> Any { Any(0) } }"])


@check
def c23(chk):
    r = chk.rng
    path = os.path.join(chk.dir, "borrow.json")
    with open(path, "w") as f:
        json.dump(dict(maxlen=3), f)
    res = run_tlc(chk, "Borrow", env=dict(PROGRAM=path))[0]
    res = [x for x in res if x["fields"] or x["form"] != "call"]
    n = 12000 if THOROUGH else 1800
    good = [x for x in res if x["fine"]]
    bad = [x for x in res if not x["fine"]]
    cases = [lifetime_case(x, r) for x in r.sample(good, min(n, len(good))) + r.sample(bad, min(n, len(bad)))]
    chk.cov["lifetimes"] = dict(fine=len(good), rejected=len(bad))
    for c in r.sample(cases, 4):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, name(chk, "lifetimes"), cases, items=WRAP)
    forms(chk, r)
    conform(chk, spelled(r), name(chk, "spelled"))
    conform(chk, named_paths(r), name(chk, "paths"))
    conform(chk, generic(r, 60), name(chk, "generic"))
    deepen(chk, name(chk, "more"), lambda: r.choice([spelled, named_paths, lambda r: generic(r, 150)])(r), 400)
