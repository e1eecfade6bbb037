"""The code around calls and derives: names in scope, and macros that write them."""
from checks import *
from compiles import *

LOWER = ["src", "cap", "matcher", "res", "e", "value", "start_len", "regex", "n", "expected", "no_sign", "negative", "remaining", "catcher", "input", "regex_str", "s"]
EDITIONS = ["2018", "2021", "2024"]
UPPER = ["REGEX", "NUM_CAPTURES", "INPUT", "SRC", "X"]

# items that have the names of what generated code may want to use
# (modules with the names of primitive types are a common sight: `use std::str;`)
ITEMS = ["pub use ::std::{str, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64};", "pub struct Result;", "pub struct Option;", "pub struct Box;", "pub struct Vec;", "pub struct Error;", "pub struct String;", "pub struct Cow;", "pub trait Iterator {}", "pub trait ToString {}", "pub trait Clone {}",
         "pub trait From {}", "pub trait TryFrom {}", "pub trait Into {}", "pub trait FromStr {}", "pub trait Default {}", "pub trait RegexRepresentation {}", "pub trait FromScanf {}", "pub struct Regex;", "pub struct SubCaptureMatches;",
         "pub enum Outcome { Some, None } pub use Outcome::*;", "pub enum Status { Ok, Err } pub use Status::*;", "pub fn Ok() {}", "pub fn Err() {}", "pub fn Some() {}", "pub const None: () = ();", "pub mod std {}", "pub mod core {}", "pub mod alloc {}", "pub mod sscanf {}", "pub mod regex {}", "pub mod errors { pub struct Error; }",
         "pub mod lazy_static {}", "pub mod const_format {}", "pub const REGEX: u8 = 1;", "pub static NUM_CAPTURES: u8 = 1;", "pub struct FilterMapNoneError;", "pub struct FromScanfFailedError;", "pub fn f() {}", "pub fn catcher() {}",
         "macro_rules! panic { () => {} }", "macro_rules! format { () => {} }", "macro_rules! stringify { () => {} }", "macro_rules! unreachable { () => {} }", "macro_rules! concat { () => {} }", "macro_rules! concatcp { () => {} }", "macro_rules! lazy_static { () => {} }", "macro_rules! vec { () => {} }"]


def names_of(item):
    return set(re.findall(r"(?:struct|trait|mod|const|static|fn|macro_rules!) (\w+)", item)) | set(re.findall(r"\w+", " ".join(re.findall(r"enum (\w+ \{[^}]*\})", item))))


def hostile(text, r, n=None):
    """items whose names do not occur in the text, and do not get in each other's way"""
    words = set(re.findall(r"(?<!::)\b\w+", text)) - {"sscanf", "FromScanf"}
    out, used = [], set()
    for it in r.sample(ITEMS, len(ITEMS)):
        ns = names_of(it)
        if not ns & words and not ns & used and (n is None or len(out) < n):
            out.append(it)
            used |= ns
    return "\n".join(out)


# ------------------------------------------------------------------------------------------------ scopes
def scenarios(chk, r):
    """what TLC finds: the steps to a call, and which binding its expression stands for"""
    low = r.sample(LOWER[:-1], 3)
    up = r.sample(UPPER, 2)
    if r.random() < 0.7 and "REGEX" not in up:
        up[0] = "REGEX"
    prog = dict(names={"let": low[:2] if THOROUGH else low[:1], "fn": low[2:], "const": up[:1], "static": up[1:]}, param=r.choice(["input", low[0], "text"]), bindings=3, layers=2)
    path = os.path.join(chk.dir, "hygiene_%s.json" % "_".join(low + up))
    with open(path, "w") as f:
        json.dump(prog, f)
    out = run_tlc(chk, "Hygiene", env=dict(PROGRAM=path))[0]
    return prog, out


CALLS = [("{}{}", ["str", "u8"], ["a1", "é9", "x", "漢a255", "a256"]), ("{}|{:x}", ["Cow<str>", "i8"], ["a|-7f", "|80", "é|f", "|-80"]), ("{1}{0}", ["u8", "UA"], ["a1", "ab22", "x2", "1"]),
         ("{}", ["SA"], ["a:1", "x:2", "ab:256", ":"]), ("{:/[ab]+/}{}", ["std::string::String", "MA"], ["aba", "bx", "!"]), ("{}{}{}", ["std::primitive::u8", "String", "char"], ["1xy", "12", "1"])]


class Param:
    """a parameter of the layers of macros: what it stands for, and how it is written in the current layer"""

    def __init__(self, name, text, kinds, r):
        self.name, self.text, self.kinds, self.r = name, text, kinds, r
        self.here = text      # how it is referred to
        self.opaque = None    # the kind of fragment that hides its tokens
        self.kind = None

    def enter(self):
        """-> (pattern, argument), and from then on the name of the parameter"""
        k = self.r.choice([self.opaque, "tts"] if self.opaque else self.kinds + ["tts"])
        arg = self.here
        if k == "tts":
            pat, here = "[$($%s:tt)+]" % self.name, "$($%s)+" % self.name
            arg = "[%s]" % arg
        else:
            pat, here = "$%s:%s" % (self.name, k), "$" + self.name
            if k != "ident":
                self.opaque = k
        self.here = here
        return pat, arg


def scope_site(p, r, prog, sc, k):
    """renders a scenario; the layers become macros named after k"""
    fmt, types, ins = r.choice(CALLS)
    api = r.choice(["sscanf", "sscanf", "unescaped"]) if "|" not in fmt else "sscanf"
    raw = r.random() < 0.5
    val = sc["value"]
    n = 0                                   # bindings so far
    kinds = {prog["param"]: "let"}
    for kd in ("let", "fn", "const", "static"):
        kinds.update({x: kd for x in prog["names"][kd]})

    def binding(kd, nm, v):
        t = "current()" if v == val else "other()"
        return {"let": "let %s = %s;" % (nm, t), "fn": "fn %s() -> &'static str { %s }" % (nm, t),
                "const": "const %s: Cur = Cur(%s);" % (nm, str(v == val).lower()), "static": "static %s: Cur = Cur(%s);" % (nm, str(v == val).lower())}[kd]

    def expression(nm):
        kd = kinds[nm]
        t = nm + "()" if kd == "fn" else nm
        if kd in ("const", "static"):
            return r.choice([t, "&" + t, "*" + t, t + "[..]"])
        return r.choice([t, t, "&" + t, "&*" + t, t + ".trim_start_matches('\\u{2}')", "&" + t + "[..]", "{ " + t + " }", "*" + t])

    def param(nm):
        t = expression(nm)
        return Param("e", t, ["expr"] + (["ident"] if re.fullmatch(r"\w+", t) else []), r)
    lit = Param("f", rust_str(fmt, raw), ["literal", "expr"], r)
    tys = [Param("t%d" % i, t, ["ty", "path"] + (["ident"] if re.fullmatch(r"\w+", t) else []), r) for i, t in enumerate(types)]
    e = param(prog["param"])
    bodies = [[]]                           # per layer: the bindings, each in a block of its own
    calls, pats = [], []
    for op, kd, nm in sc["steps"]:
        if op == "bind":
            n += 1
            bodies[-1].append(binding(kd, nm, n))
        elif op == "write":
            e = param(nm)
        else:
            ps = [x.enter() for x in [e, lit] + tys]
            pats.append(", ".join(a for a, _ in ps))
            calls.append("sc%d_%d!(%s)" % (k, len(calls) + 1, ", ".join(b for _, b in ps)))
            bodies.append([])
    mac = {"sscanf": r.choice(["sscanf!", "::sscanf::sscanf!"]), "unescaped": "::sscanf::sscanf_unescaped!"}[api]
    calls.append("%s(%s)" % (mac, ", ".join([e.here, lit.here] + [t.here for t in tys])))

    def block(bs, inner):
        for b in reversed(bs):
            inner = "{ %s %s }" % (b, inner)
        return inner
    for j in range(len(calls) - 1, 0, -1):
        p.items.append("macro_rules! sc%d_%d { (%s) => { %s } }" % (k, j, pats[j - 1], block(bodies[j], calls[j])))
    pre = "set_current(input); let %s: &'static str = %s;" % (prog["param"], "current()" if val == 0 else "other()")
    p.site(fmt, types, ins, api=api, raw=raw, call=calls[0], wrap=block(bodies[0], "CALL"), pre=pre, scenario=sc)


def scope_program(chk, r, prog, scs):
    p = Program()
    p.edition = r.choice(EDITIONS)
    p.user("UA", "[ax!]+|b*")
    p.manual("MA", "(a)|(x)", 3)
    p.struct("SA", "{1}:{0}", [field("", "", "filter_map", "u8", 7), field("", "UA"), field("", "", "defexpr", id=4)], shape="tuple")
    for k, sc in enumerate(scs):
        scope_site(p, r, prog, sc, k)
    return p


# ------------------------------------------------------------------------------------------------ names and layers around generated programs
def surrounded(r, nsites, nested=0.7):
    g = Gen(r)
    g.types(3, 2, 8, 6)
    p = g.p
    p.edition = r.choice(EDITIONS)
    for t in p.types:
        if t["k"] not in ("struct", "enum"):
            continue
        t["derive"] = "::sscanf::FromScanf"
        if r.random() < 0.7:
            t["module"] = lambda text, sd=r.random(): hostile(text, random.Random(sd), None if sd < 0.5 else 6)
        t["via"] = r.choice([None, "tt", "item", "parts", "parts", "parts"])
    randoms(None, g, nsites, nested=nested, k=None)
    for k, s in enumerate(p.sites):
        if s["api"] == "from_str":
            continue
        text = p.rust_call(dict(s, macro="call!"))
        mac = {"sscanf": "::sscanf::sscanf!", "unescaped": "::sscanf::sscanf_unescaped!", "get_regex": "::sscanf::sscanf_get_regex!"}[s["api"]]
        words = text + "".join(" " + a for a in s["args"])
        p.items.append("macro_rules! around%d { ($($t:tt)*) => {{ %s\n%s($($t)*) }} }" % (k, hostile(words + " input", r, r.choice([None, None, 8])), mac))
        s["macro"] = "around%d!" % k
    return p


FEATURES = [("{}", field("", "u8")), ("{:x}", field("", "i8")), ("{:#o}", field("", "u16")), ("{:r36}", field("", "u64")), ("{:/[ab1]+/}", field("", "String")), ("{}", field("", "&str")), ("{}", field("", "Cow<str>")),
            ("{}", field("", "char")), ("{}", field("", "f64")), ("{}", field("", "bool")), ("{}", field("", "UA")), ("{}", field("", "MA")), ("{}", field("", "EA")), ("{}", field("", "String")),
            ("", field("", "u8", "default")), ("", field("", "", "defexpr", id=4)), ("{}", field("", "", "map", "u8", 4)), ("{}", field("", "", "filter_map", "u8", 4)), ("{}", field("", "", "filter_map", "String", 8)),
            ("{}", field("", "", "from", "u8")), ("{}", field("", "", "try_from", "u8")), ("{}", field("", "", "try_from", "&str")), ("{:x}", field("", "", "map", "i16", 1)), ("{:/./}", field("", "", "filter_map", "char", 4))]


def features(r):
    """every kind of field, in modules with as many colliding names as possible"""
    p = Program()
    p.edition = r.choice(EDITIONS)
    p.user("UA", "[ax!]+|b*")
    p.manual("MA", "(a)|(x)", 3)
    p.enum("EA", [variant("A", "a", []), variant("B", "{}", [field("", "u8")])])
    ins = ["", "1", "2", "a", "x", "é", "300", "-7f", "0o7", "ab", "true", "z", "1.5", "!"]
    for k, (ph, f) in enumerate(FEATURES):
        p.struct("S%d" % k, "<" + ph + ">", [dict(f)], shape="tuple")
        p.enum("E%d" % k, [variant("A", "<" + ph + ">", [dict(f, name="a")], shape="named"), variant("B", "b", [])])
        for n in ("S%d" % k, "E%d" % k):
            p.site("{}", [n], ["<%s>" % i for i in ins] + ["b"])
    for t in p.types[2:]:
        t["derive"] = "::sscanf::FromScanf"
        t["module"] = lambda text, sd=r.random(): hostile(text, random.Random(sd))
        t["via"] = r.choice([None, "tt", "item", "parts"])
    return p


# ------------------------------------------------------------------------------------------------ known limits
def shadowed(chk):
    """functions of the user in default values and conversions, named like the variables of the generated code"""
    cases = []
    for nm in LOWER + ["other_name"]:
        for kind in ("struct", "enum"):
            body = "#[sscanf(default = %s())] u8, u8" % nm
            decl = "#[sscanf(\"{}\")] struct Q(%s);" % body if kind == "struct" else "enum Q { #[sscanf(\"{}\")] A(%s), #[sscanf(\"b\")] B }" % body
            code = "fn %s() -> u8 { 7 } #[derive(FromScanf)] %s" % (nm, decl)
            cases.append(Case("default value of a %s that calls a function named `%s`" % (kind, nm), "const _: () = { %s };" % code, "ok"))
            clos = "#[sscanf(map = |x: u8| %s(x))] u8" % nm
            decl = "#[sscanf(\"{}\")] struct Q(%s);" % clos if kind == "struct" else "enum Q { #[sscanf(\"{}\")] A(%s), #[sscanf(\"b\")] B }" % clos
            code = "fn %s(v: u8) -> u8 { v } #[derive(FromScanf)] %s" % (nm, decl)
            cases.append(Case("map closure of a %s that calls a function named `%s`" % (kind, nm), "const _: () = { %s };" % code, "ok"))
    return cases


@check
def c25(chk):
    r = chk.rng
    n = 260 if THOROUGH else 110
    prog, scs = scenarios(chk, r)
    layered = [s for s in scs if any(x[0] == "enter" for x in s["steps"]) and s["value"] > 0]
    pick = r.sample(layered, min(n, len(layered))) + r.sample(scs, min(n // 3, len(scs)))
    chk.cov["scenarios"] = dict(explored=len(scs), replayed=len(pick))
    conform(chk, scope_program(chk, r, prog, pick), name(chk, "scopes"))
    compile_cases(chk, name(chk, "shadowed"), shadowed(chk))
    conform(chk, features(r), name(chk, "features"))
    conform(chk, surrounded(r, 70), name(chk, "surrounded"))

    def more():
        if r.random() < 0.5:
            return surrounded(r, 140)
        prog, scs = scenarios(chk, r)
        return scope_program(chk, r, prog, r.sample(scs, min(400, len(scs))))
    deepen(chk, name(chk, "more"), more, 450)
