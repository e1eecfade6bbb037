"""The attributes of derives: which are accepted where, and what they mean."""
from checks import *
from compiles import *

CASINGS = ["CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase",
           "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
ITEMS = ["#[derive(Debug)] pub struct Any(u8);",
         "impl std::str::FromStr for Any { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Any, Self::Err> { s.parse().map(Any) } }",
         "impl sscanf::RegexRepresentation for Any { const REGEX: &'static str = r\"\\d+\"; }",
         "impl Default for Any { fn default() -> Any { Any(0) } }",
         "impl From<u8> for Any { fn from(v: u8) -> Any { Any(v) } } impl From<&str> for Any { fn from(v: &str) -> Any { Any(0) } }",
         "impl From<Cow<'_, str>> for Any { fn from(v: Cow<'_, str>) -> Any { Any(0) } }",
         "fn mkany(v: u8) -> Any { Any(v) } fn mkopt(v: u8) -> Option<Any> { Some(Any(v)) } fn mkok(v: u8) -> Result<Any, std::fmt::Error> { Ok(Any(v)) }"]


class Alphabet:
    def __init__(self, r):
        self.r, self.toks, self.src = r, [], []

    def add(self, src, **t):
        """src: how the token is written, one of several ways; and how it is in a program that is run"""
        self.toks.append(dict(dict(t="", form="", s="", k="", raw=False, v=[], n=0, typed=False, ret="", fits=False), **t))
        self.src.append(src)
        return len(self.toks)

    def string(self, s, raw=False):
        return self.add([rust_str(s, raw)], t="val", k="str", raw=raw, v=cps(s), s=s)

    def write(self, toks, run=False):
        """the attributes as source text"""
        o, close = "", ""
        for j, k in enumerate(toks):
            t, src = self.toks[k - 1], self.src[k - 1]
            s = (src[-1] if run else self.r.choice(src[:-1])) if len(src) > 1 else src[0]
            if t["t"] == "list":
                o += close + s
                close = {"(": ")] ", "[": "]] ", "{": "}] "}.get(s[-1], "")
            else:
                o += ("" if t["t"] == "comma" or o.endswith(("(", "[", "{")) else " ") + s
        return o + close


def alphabet(r):
    a = Alphabet(r)
    z = {}
    for n in ["format", "format_unescaped", "transparent", "skip", "autogen", "autogenerate", "default", "map", "filter_map", "from", "try_from", "formats"]:
        z[n] = a.add([n], t="name", s=n)
    z["(["] = a.add(["#[sscanf("], t="list", form="list")
    z["["] = a.add(["#[sscanf["], t="list", form="list")
    z["{"] = a.add(["#[sscanf{", "#[sscanf {", "#[ sscanf{"], t="list", form="list")
    z["path"] = a.add(["#[sscanf] "], t="list", form="other")
    z["nv"] = a.add(["#[sscanf = \"{}\"] ", "#[sscanf = \"a\"] ", "#[sscanf = 3] "], t="list", form="other")
    z["doc"] = a.add(["#[doc = \"{}\"] ", "#[allow(dead_code)] ", "#[doc(hidden)] "], t="list", form="foreign")
    z["="] = a.add(["="], t="eq")
    z[","] = a.add([","], t="comma")
    for s in ("a", "{}", "{}{}", "{1}{}", "{", "b{0}"):
        z['"%s"' % s] = a.string(s)
        z['r"%s"' % s] = a.string(s, True)
    for s in CASINGS + ["Title Case", "casesensitive", ""]:
        z["~" + s] = a.string(s)
    z["r~snake_case"] = a.string("snake_case", True)
    z["int"] = a.add(["3", "3u8", "3.5", "b'a'", "'a'", "true", "b\"a\"", "-1", "c\"a\""], t="val", k="int")
    z["expr"] = a.add(["mkany(3)", "Any(3)", "Any { 0: 3 }", "if true { Any(1) } else { Any(2) }", "{ let x = 3; Any(x) }", "match 3u8 { 3 => Any(1), n => Any(n) }", "Default::default()",
                       "loop { break Any(1) }", "[Any(1)].into_iter().next().unwrap()", "{ #[allow(unused)] fn f(a: u8, b: u8) -> Any { Any(a) } f(1, 2) }", "unsafe { mkany(3) }", "<Any as Default>::default()", "(|x: u8| Any(x))(2)", "mkdef(3)"], t="val", k="expr")
    z["type"] = a.add(["u8", "&str", "Any", "crate::Any", "std::primitive::u8", "self::Any", "u8"], t="val", k="type", fits=True)
    z["misfit"] = a.add(["i64", "String", "bool", "std::num::NonZeroU8"], t="val", k="type")
    z["gen"] = a.add(["Cow<str>", "std::borrow::Cow<str>", "borrow::Cow<str>", "Cow<str>"], t="val", k="gentype", fits=True)
    clo = lambda src, n, typed, ret: a.add(src, t="val", k="closure", n=n, typed=typed, ret=ret)
    z["map1"] = clo(["|x: u8| mkany(x)", "|x: u8| -> Any { mkany(x) }", "|x: u8| { mkany(x) }", "|mut x: u8| { x /= 2; Any(x) }", "|_: u8| mkany(1)", "|x: u8,| Any(x)", "|x: u8| Any { 0: x }", "|x: &str| Any(x.len() as u8)", "|x: Cow<str>| Any(x.len() as u8)",
                     "|Any(x): Any| Any(x)", "|x: u8| if x > 3 { Any(x) } else { return Any(0) }", "|x: u8| map(3, x)"], 1, True, "value")
    z["opt1"] = clo(["|x: u8| mkopt(x)", "|x: u8| Some(Any(x))", "|x: u8| -> Option<Any> { mkopt(x) }", "|x: u8| if x > 3 { None } else { mkopt(x) }", "|_: u8| None", "|x: String| x.parse().ok()", "|x: u8| filter(3, x)"], 1, True, "option")
    z["res1"] = clo(["|x: u8| mkok(x)", "|x: u8| x", "|x: u8| ()"], 1, True, "other")
    z["map1u"] = clo(["|x| mkany(x)", "|_| mkany(1)", "|mut x| mkany(x)"], 1, False, "value")
    z["opt1u"] = clo(["|x| mkopt(x)"], 1, False, "option")
    z["map0"] = clo(["|| mkany(3)"], 0, True, "value")
    z["map2"] = clo(["|x: u8, y: u8| mkany(x)", "|x: u8, _: u8| mkany(x)"], 2, True, "value")
    z["opt2"] = clo(["|x: u8, y: u8| mkopt(x)"], 2, True, "option")
    return a, z


def contexts(z):
    """(places for the specification, code around the attributes)"""
    out = []

    def ctx(code, use, maxlen, place, **kw):
        out.append((dict(dict(place=place, nf=0, autogen=False, other=False, variants=[], fmt=[], use=use, maxlen=maxlen), **kw), code))
    names = [z[n] for n in ("format", "format_unescaped", "transparent", "skip", "autogen", "autogenerate", "default", "map", "filter_map", "from", "try_from", "formats")]
    lists = [z[x] for x in ("([", "[", "{", "path", "nv", "doc")]
    sep = [z["="], z[","]]
    strs = [z[x] for x in ('"a"', '"{}"', '"{}{}"', '"{1}{}"', '"{"', '"b{0}"', 'r"a"', 'r"{}"', 'r"{1}{}"')]
    others = [z[x] for x in ("int", "expr", "type", "misfit", "gen", "map1", "opt1", "map1u", "map0", "map2")]
    fvals = [z[x] for x in ('"a"', 'r"{}"', "int", "expr", "type", "misfit", "gen", "map1", "opt1", "res1", "map1u", "opt1u", "map0", "map2", "opt2")]
    full = [z["(["]] + names + sep + strs + others
    pick = lambda *ks: [z[k] for k in ks]
    some = lists + sep
    D = "#[derive(FromScanf)] "
    structs = [(0, "struct Q;"), (0, "struct Q();"), (0, "struct Q {}"), (1, "struct Q(Any);"), (1, "struct Q { a: Any }"), (2, "struct Q(Any, Any);"), (2, "struct Q { b: Any, a: Any }")]
    for k, (n, body) in enumerate(structs):
        ctx(D + "ATTR " + body, full if k in (0, 3, 6) else some + pick("format", "transparent", "format_unescaped", '"a"', '"{}"', 'r"{1}{}"'), 4, "struct", nf=n)
    ctx(D + "ATTR struct Q(Any);", pick("([", "{", "doc", "=", ",", "format", "format_unescaped", "transparent", '"{}"', 'r"{}"'), 6 + THOROUGH, "struct", nf=1)
    ctx(D + "ATTR struct Q(Any, Any);", pick("([", "[", "=", ",", "format", '"{}{}"', 'r"{1}{}"'), 7, "struct", nf=2)
    for auto in (False, True):
        for other in (False, True):
            for n, body in ((0, "V"), (0, "V {}"), (1, "V(Any)"), (2, "V { x: Any, y: Any }")):
                code = D + ("#[sscanf(autogen)] " if auto else "") + "enum Q { " + ("#[sscanf(\"z\")] W, " if other else "") + "ATTR " + body + ("" if other else ", #[sscanf(skip)] U(Any)") + " }"
                big = n < 2 and body[-1] != "}" and other == auto
                ctx(code, full if big else some + pick("format", "skip", "transparent", "autogen", '"a"', 'r"{}"', "int"), 4, "variant", nf=n, autogen=auto, other=other)
    ctx(D + "#[sscanf(autogenerate)] enum Q { W, ATTR V }", pick("([", "=", ",", "skip", "format", "transparent", '"a"', 'r"a"'), 6, "variant", nf=0, autogen=True, other=True)
    vs = {"none": "", "format": '#[sscanf("b{}")] ', "skip": "#[sscanf(skip)] "}
    enums = [[], ["none0"], ["none0", "none0"], ["skip0"], ["format1"], ["skip1", "format1"], ["none1"], ["none1", "format1"], ["skip1", "none0"], ["format1", "none0"], ["none0", "none1"]]
    for k, e in enumerate(enums):
        vv = [dict(attr=x[:-1], nf=int(x[-1])) for x in e]
        body = "enum Q { " + ", ".join(vs[v["attr"]] + "Vw%d" % i + ("(Any)" if v["nf"] else "") for i, v in enumerate(vv)) + " }"
        for v in vv:
            if v["attr"] == "format":
                assert v["nf"] == 1
        cas = [z["~" + c] for c in CASINGS + ["Title Case", "casesensitive", ""]] + [z["r~snake_case"]]
        ctx(D + "ATTR " + body, [z["(["]] + names + sep + cas + others[:4] if k in (1, 7, 8) else some + pick("autogen", "autogenerate", "format", "~UPPERCASE", "~Title Case", '"a"'), 4, "enum", variants=vv)
    ctx(D + "ATTR enum Q { AbCd, #[sscanf(skip)] E(Any) }", pick("([", "[", "=", ",", "autogen", "autogenerate", "~snake_case", "~UPPERCASE", "~CaseInsensitive"), 6, "enum", variants=[dict(attr="none", nf=0), dict(attr="skip", nf=1)])
    ffull = [z["(["]] + names + sep + fvals
    for f in ("{}", "a"):
        for k, body in enumerate(["struct Q(ATTR Any);", "struct Q { ATTR a: Any }"]):
            ctx(D + '#[sscanf("%s")] ' % f + body, ffull if k == (f == "a") else some + pick("default", "map", "from", "expr", "map1", "type", "gen"), 4, "field", nf=1, fmt=cps(f))
    ctx(D + 'enum Q { #[sscanf("{}")] V { ATTR a: Any }, W }', ffull, 4, "field", nf=1, fmt=cps("{}"))
    ctx(D + '#[sscanf(transparent)] struct Q(ATTR Any);', some + pick("default", "try_from", "filter_map", "opt1", "gen", "int"), 4, "field", nf=1, fmt=cps("{}"))
    ctx(D + '#[sscanf("{}")] struct Q(ATTR Any);', pick("([", "{", "=", ",", "from", "try_from", "type", "gen"), 6, "field", nf=1, fmt=cps("{}"))
    ctx(D + '#[sscanf("{}")] struct Q { ATTR a: Any }', pick("([", "=", ",", "map", "filter_map", "map1", "opt1"), 7, "field", nf=1, fmt=cps("{}"))
    ctx(D + '#[sscanf("a")] struct Q { ATTR a: Any }', pick("([", "doc", "=", ",", "default", "expr", "int"), 6, "field", nf=1, fmt=cps("a"))
    ctx(D + "ATTR union Q { a: u8 }", some + pick("format", "transparent", "autogen", '"a"', '"{}"'), 4, "union")
    return out


def explore(chk, a, ctxs, nm):
    def job(k, part):
        path = os.path.join(chk.dir, "%s.%d.json" % (nm, k))
        with open(path, "w") as f:
            json.dump(dict(types=[], contexts=[ctxs[i][0] for i in part], tokens=a.toks), f)
        return [(part[r["c"] - 1], r["toks"], r["v"]) for r in run_tlc(chk, "MCAttr", env=dict(PROGRAM=path))[0]]
    parts = split([len(c["use"]) ** 2 * c["maxlen"] for c, _ in ctxs], CPUS)
    return [r for part in parallel([lambda k=k, o=o: job(k, o) for k, o in enumerate(parts)]) for r in part]


def meaning(p, a, c, code, toks, v, r):
    """declares a type with these attributes, and their meaning, in the program"""
    text = a.write(toks, run=True)
    n = "T%d" % len(p.types)
    it = v["items"][0] if v["items"] else None
    val = a.toks[it["val"] - 1] if it and it["val"] else None
    src = a.src[it["val"] - 1][-1] if val else ""

    def as_variant(name, shape, fields):
        if it is None or it["name"] == "skip":
            w = variant(name, "", fields, attr="none" if it is None else "skip", shape=shape)
        elif it["name"] == "transparent":
            w = variant(name, "", fields, attr="transparent", shape=shape)
        else:
            w = variant(name, val["s"], fields, attr="format" if it["name"] == "format" else "unescaped", raw=val["raw"], shape=shape)
        w["attrtext"] = text
        return w
    if c["place"] in ("struct", "variant"):
        named = "{" in code.split("ATTR")[1]
        fs = [field("ab"[i] if named else "", "u8") for i in range(c["nf"])]
        shape = "unit" if not fs else "named" if named else "tuple"
        if c["place"] == "struct":
            p.types.append(dict(k="struct", name=n, autogen="", variants=[as_variant(n, shape, fs)]))
        else:
            w = as_variant("V", shape, fs)
            others = [variant("W", "z")] if c["other"] else [variant("U", "", [field("", "u8")], attr="skip")]
            p.types.append(dict(k="enum", name=n, autogen="CaseSensitive" if c["autogen"] else "", variants=others + [w] if c["other"] else [w] + others))
    elif c["place"] == "enum":
        ws = []
        for i, x in enumerate(c["variants"]):
            fs = [field("", "u8")] * x["nf"]
            ws.append(variant("Vw%d" % i, "b{}" if x["nf"] else "b", fs, attr=x["attr"], raw=False))
        p.types.append(dict(k="enum", name=n, autogen="" if it is None else val["s"] if val else "CaseSensitive", agattr=text, variants=ws))
    else:
        named = "a: Any" in code
        nm = "a" if named else ""
        if it is None:
            f = field(nm, "u8")
        elif it["name"] == "default":
            f = field(nm, "", "defexpr", id=3) if val else field(nm, "Dflt", "default")
        else:
            f = field(nm, "", it["name"], src.split(": ")[1].split("|")[0] if "map" in it["name"] else src, 3 if "map" in it["name"] else 0)
        f["attrtext"] = text
        p.struct(n, text_of(c["fmt"]), [f], shape="named" if named else "tuple", raw=False)
    p.names[n] = p.types[-1]
    ins = ["", "a", "{}", "1", "12", "b", "b1", "z", "V", "v", "Vw0", "vw0", "vw_0", "VW0", "VW_0", "VW 0", "vw 0", "vw-0", "VW-0", "Vw1", "vw1", "u", "AbCd", "3", "4", "W", "{1}{}", "b0", "é", "U"]
    p.site("{}", [n], r.sample(ins, 14) + ["a", "1", "12", "b1", "V"])


text_of = text


@check
def c22(chk):
    r = chk.rng
    a, z = alphabet(r)
    ctxs = contexts(z)
    res = explore(chk, a, ctxs, "attrs")
    by = {}
    for i, toks, v in res:
        by.setdefault((i, v["r"]), []).append((i, toks, v))
    kinds = {}
    for (i, k), l in by.items():
        kinds[ctxs[i][0]["place"] + " " + k] = kinds.get(ctxs[i][0]["place"] + " " + k, 0) + len(l)
    chk.log("%d sequences of tokens:" % len(res), kinds)
    chk.cov["verdicts"] = kinds
    cases = []
    for (i, k), l in sorted(by.items()):
        short = [x for x in l if len(x[1]) <= 2]
        more = [x for x in l if len(x[1]) > 2]
        n = {"ok": 90, "later": 40, "macro": 150}[k] * (8 if THOROUGH else 1)
        for _, toks, v in short + (r.sample(more, n) if len(more) > n else more):
            code = ctxs[i][1].replace("ATTR ", a.write(toks) + " ")
            vals = [a.toks[t - 1]["t"] == "val" for t in toks]
            # (two values in a row may happen to be one expression: 3 -1)
            e = "later" if k == "macro" and any(x and y for x, y in zip(vals, vals[1:])) else k
            cases.append(Case("derive %s" % code, "const _: () = { %s };" % code, e))
    for c in r.sample(cases, 6):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, name(chk, "attrs"), cases, items=ITEMS)
    on_nightly(chk, "spans", cases, 1500, items=ITEMS)
    # what the accepted ones do
    p = Program()
    good = sorted((k, l) for k, l in by.items() if k[1] == "ok")
    for (i, _), l in good:
        seen = {}
        for x in l:
            seen.setdefault(json.dumps(x[2]["items"]), []).append(x)
        for key in sorted(seen):
            for _, toks, v in r.sample(seen[key], min(len(seen[key]), 4 if THOROUGH else 1)):
                meaning(p, a, ctxs[i][0], ctxs[i][1], toks, v, r)
    conform(chk, p, name(chk, "meaning"))
