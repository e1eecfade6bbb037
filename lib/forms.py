"""The form of calls and of items with a derive."""
from checks import *
from compiles import *

EXPRS = ["if true { \"1\" } else { \"2\" }", "match 1 { _ => \"1\" }", "{ \"1\" }", "str::trim(\"1\")", "u8.trim()", "TEXT.0", "TEXT.1[0]", "(\"1\")", "&\"12\"[1..]", "*&\"1\"", "\"1\".trim_start()", "unsafe { \"1\" }", "{ let x = \"1\"; x }", "stringify!(1)",
         "loop { break \"1\" }", "std::convert::identity(\"1\")", "TEXT.0 as &str", "&TEXT.0[..]", "owned", "&owned", "owned.as_str()"]
SOLID = [e for e in EXPRS if e[0] not in "(&*["]
TYPE = {"name": "u8", "path": "std::primitive::u8", "ref": "&str"}
FORMAT = {"s0": ['"a"', '""', 'r"{{"', 'r#"a"#'], "s1": ['"{}"', 'r"{}"', 'r#"{0}"#', '"-{}"'], "s2": ['"{}{}"', 'r"{}-{}"', '"{1}{0}"', '"{} {}"']}
CALL_ITEMS = ["static TEXT: (&str, [&str; 1]) = (\"1\", [\"1\"]);", "static OWNED: String = String::new();", "fn take<T>(_: T) -> bool { true }", "struct Holder<T> { a: u8, r: T }", "impl<T> Holder<T> { fn take(self, _: T) {} }"]


def call_text(x, r):
    out, last = [], ""
    for k, c in enumerate(x["pieces"]):
        if c in FORMAT:
            out.append(r.choice(FORMAT[c]))
            last = out[-1]  # in an accepted call this is the format
        elif c == "expr":
            out.append(r.choice(EXPRS if k == 0 else SOLID))
        else:
            out.append(TYPE.get(c, c))
    b = x["brackets"] or r.choice(["()", "[]", "{}"])
    path = r.choice(["", "", "sscanf::", "::sscanf::"])
    return "%s%s!%s%s%s" % (path, x["macro"], b[0], r.choice([" ", " ", "  "]).join(out) if r.random() < 0.8 else " ".join(out), b[1]), last


def placed(place, m, t, fallible):
    """a function with the call in a place, whose type is t"""
    sig = "fn f<'x>(u8: &'x str, owned: &'x String) "
    ret = "-> %s " % t
    body = {
        "let": "{ let _: %(t)s = %(m)s; }", "statement": "{ %(m)s; }", "argument": "{ take::<%(t)s>(%(m)s); }", "scrutinee": "{ match %(m)s { r => { take::<%(t)s>(r); } } }",
        "condition": "{ if take::<%(t)s>(%(m)s) {} else if let _x = %(m)s {} while !take(%(m)s) {} }", "reference": "{ let r: &%(t)s = &%(m)s; let s = &mut %(m)s; *s = %(m)s; }",
        "closure": "{ let c = || %(m)s; let _: %(t)s = c(); let d = move |_: ()| -> %(t)s { %(m)s }; }", "array": "{ let _: [%(t)s; 2] = [%(m)s, %(m)s]; }", "tuple": "{ let _: (u8, %(t)s) = (1, %(m)s); }",
        "field": "{ let h = Holder { a: 1, r: %(m)s }; let _: %(t)s = h.r; }", "block": "{ let _: %(t)s = { { %(m)s } }; }", "loop": "{ let _: %(t)s = loop { break %(m)s }; let _: %(t)s = 'l: { break 'l %(m)s }; }",
        "branches": "{ let _: %(t)s = if true { %(m)s } else { %(m)s }; let _: %(t)s = match 1 { 1 => %(m)s, _ => { %(m)s } }; }", "async": "{ let _ = async { let _: %(t)s = %(m)s; }; }",
        "guard": "{ match 1 { _ if take::<%(t)s>(%(m)s) => {} _ => {} } }", "question": "-> Result<(), Box<dyn std::error::Error>> { take(%(m)s?); Ok(%(m)s.map(|_| ())?) }" if fallible else "{ take(%(m)s.captures(\"\")); }",
        "method": "{ take(%(m)s.is_ok()); }" if fallible else "{ take(%(m)s.as_str()); }", "macro": "{ let v: Vec<%(t)s> = vec![%(m)s]; take(format!(\"{:?}\", %(m)s)); assert!(matches!(%(m)s, _), \"{:?}\", %(m)s); }",
        "nested": "{ fn g(u8: &str, owned: &String) { let _ = %(m)s; } struct S; impl S { fn g(&self, u8: &str, owned: &String) { let _ = %(m)s; } } trait T { fn g(u8: &str, owned: &String) -> bool { take(%(m)s) } } }",
        "unsafe": "{ let _: %(t)s = unsafe { %(m)s }; }", "generic": "{ fn g<T, U: Copy>(u8: &str, owned: &String, t: T) -> T { let _ = %(m)s; t } }", "assigned": "{ let mut v: %(t)s = %(m)s; v = %(m)s; let w; w = %(m)s; take::<%(t)s>(w); }",
        "tail": ret + "{ %(m)s }", "return": ret + "{ if true { return %(m)s; } return %(m)s }",
        "const": "{ const X: %(s)s = %(m)s; }", "static": "{ static X: %(s)s = %(m)s; }", "pattern": "{ match 1 { %(m)s => {} _ => {} } }", "type": "{ let x: %(m)s; }", "length": "{ let x: [u8; %(m)s]; }", "item": "{ mod m { %(m)s%(semi)s } }",
    }[place]
    return sig + body % dict(m=m, t=t, s=t.replace("'x", "'static"), semi="" if m.endswith("}") else ";")


def call_case(x, r):
    m, last = call_text(x, r)
    ts = [TYPE[c].replace("&", "&'x ") for c in x["types"]]
    fallible = x["macro"] != "sscanf_get_regex"
    t = "&'static sscanf::regex::Regex"
    if fallible:
        if "{1}" in last:
            ts.reverse()
        t = "Result<%s, sscanf::Error>" % (ts[0] if len(ts) == 1 else "(%s)" % ", ".join(ts))
    if x["v"] == "ok" or x["place"]:
        code = placed(x["place"] or "let", m, t, fallible)
    else:
        code = "fn f(u8: &str, owned: &String) { let _ = %s; }" % m
    return Case("the call %s%s" % (m, " as a " + x["place"] if x["place"] else ""), "const _: () = { %s };" % code, x["v"])


def calls_forms(chk, r):
    path = os.path.join(chk.dir, "calls.json")
    with open(path, "w") as f:
        json.dump(dict(maxlen=8 if THOROUGH else 7, maxbad=5 if THOROUGH else 4), f)
    by = {}
    for x in run_tlc(chk, "CallForm", env=dict(PROGRAM=path), timeout=800)[0]:
        by.setdefault(x["v"], []).append(x)
    chk.cov["calls"] = {k: len(v) for k, v in by.items()}
    chk.log("calls:", chk.cov["calls"])
    cases = []
    for v, xs in sorted(by.items()):
        n = dict(ok=1500, macro=3000, later=700)[v] * (6 if THOROUGH else 1)
        short = [x for x in xs if len(x["pieces"]) < 3 and not x["place"]]
        rest = [x for x in xs if not (len(x["pieces"]) < 3 and not x["place"])]
        cases += [call_case(x, r) for x in short + r.sample(rest, min(n, len(rest)))]
    for c in r.sample(cases, 5):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, name(chk, "calls"), cases, items=CALL_ITEMS)
    on_nightly(chk, "spans", cases, 1500, items=CALL_ITEMS)


# ------------------------------------------------------------------------------------------------ items
VIS = ["", "", "pub ", "pub(crate) ", "pub(self) "]
OTHER = ["#[doc = \"text\"] ", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[rustfmt::skip] ", "/** text */ ", "#[allow(unused)] #[doc(hidden)] ", "#[cfg_attr(all(), doc = \"x\")] "]
ITEM_ITEMS = ["struct Wrap<T: ?Sized>(std::marker::PhantomData<T>);", "impl<T: ?Sized> Default for Wrap<T> { fn default() -> Self { Wrap(std::marker::PhantomData) } }", "struct Num<const N: usize>;", "impl<const N: usize> Default for Num<N> { fn default() -> Self { Num } }"]


def around(a, r):
    """an attribute, with others before and after it"""
    return (r.choice(OTHER) if r.random() < 0.25 else "") + a + (r.choice(OTHER) if r.random() < 0.25 else "")


def item_case(x, r):
    names, decl, args, defaults = [], [], [], 0
    for i, p in enumerate(x["params"]):
        n = ("'" + "abxyz"[i]) if p.startswith("lt") else ["T", "Out", "N", "M", "K"][i]
        names.append(n)
        bound = r.choice(["Copy", "Copy + Clone", "std::fmt::Debug", "'static", "Copy + 'static", "PartialEq<T2>".replace("T2", "u8")])
        decl.append({"lt": n, "lt-bound": "%s: %s" % (n, names[0]), "ty": n, "ty-bound": "%s: %s" % (n, bound), "ty-default": "%s%s = u8" % (n, r.choice(["", ": Copy"])), "ty-unsized": n + ": ?Sized",
                     "const": "const %s: usize" % n, "const-default": "const %s: usize = %s" % (n, r.choice(["3", "{ 1 + 2 }"]))}[p])
        args.append({"lt": "'_", "lt-bound": "'_", "ty": "u8", "ty-bound": "u8", "ty-default": "u8", "ty-unsized": r.choice(["str", "[u8]", "u8"]), "const": "2", "const-default": "3"}[p])
        defaults += p in ("ty-default", "const-default")
    tys = [n for n, p in zip(names, x["params"]) if p.startswith("ty")]
    preds = {"none": None, "empty": [], "self": ["Self: Sized"], "other": ["u8: Copy"], "param": ["%s: PartialEq" % r.choice(tys or ["u8"])], "higher": ["for<'h> &'h u8: Copy"], "several": ["Vec<u8>: Clone", "String: Sized"] + ["%s: Clone" % t for t, a in zip(tys, args) if False] + ["Wrap<%s>: Default" % (tys or ["u8"])[0]]}[x["where"]]
    if x["where"] == "param" and any(p == "ty-unsized" for p in x["params"]):
        preds = ["Wrap<%s>: Default" % tys[0]]
    where = "" if preds is None else " where " + ", ".join(preds) + (r.choice(["", ","]) if preds else "") + " "
    generics = "<%s%s>" % (", ".join(decl), r.choice(["", ","]) if decl else "") if decl or r.random() < 0.1 else ""

    def fields(fs, shape):
        out, phs = [], []
        for i, f in enumerate(fs):
            nm = "f%d" % i
            if f["k"] == "default":
                p, n = x["params"][f["p"] - 1], names[f["p"] - 1]
                t = {"lt": "&%s str" % n, "co": "Num<%s>" % n, "ty": "Wrap<%s>" % n}[p[:2]]
                a = around("#[sscanf(default)] " if r.random() < 0.7 or p[:2] != "lt" else '#[sscanf(default = "")] ', r)
            else:
                n = names[f["p"] - 1] if f["p"] else ""
                t = r.choice(["u8", "std::primitive::u8"]) if f["k"] == "own" else r.choice(["&%s str", "Cow<%s, str>", "&%s primitive::str"]) % n
                a = around("", r)
                phs.append(("{%s}" % (nm if shape == "named" else str(i))) if r.random() < 0.5 or True else "{}")
            vis = r.choice(VIS) if x["kind"] != "enum" else ""
            out.append(a + vis + ("%s: %s" % (nm, t) if shape == "named" else t))
        text = ", ".join(out) + (r.choice(["", ","]) if out else "")
        body = {"named": "{ %s }", "tuple": "(%s)", "unit": "%s"}[shape] % text
        fmt = '"%s"' % ",".join(phs) if r.random() < 0.7 else 'r"%s"' % ",".join(phs)
        sp = r.choice(["#[sscanf(%s)] ", "#[sscanf(format = %s)] "]) % fmt
        return around(sp, r), body, len(phs)

    derive = r.choice(["#[derive(FromScanf)] ", "#[derive(FromScanf)] ", "#[derive(sscanf::FromScanf)] ", "#[derive(Debug, FromScanf)] #[allow(dead_code)] "])
    if "Debug" in derive and (decl or x["fields"]):
        derive = "#[derive(FromScanf,)] "
    vis = r.choice(VIS)
    n = sum(f["k"] != "default" for f in x["fields"])
    if x["kind"] == "struct":
        a, body, _ = fields(x["fields"], x["shape"])
        item = derive + a + vis + "struct Q" + generics
        item += where + body if x["shape"] == "named" else body + where + ";"
    elif x["kind"] == "union":
        a, body, _ = fields(x["fields"] or [dict(k="own", p=0)], "named")
        item = derive + a + vis + "union Q " + body
    else:
        vs = []
        plain = x["shape"] == "unit" and r.random() < 0.3
        for i, v in enumerate(x["variants"]):
            nm = "V%d" % i
            d = " = %d" % (i * 3 + 1) if plain else ""
            if v == "fields":
                a, body, _ = fields(x["fields"], x["shape"])
                vs.append(a + nm + body + d)
            elif v == "more":
                vs.append(around('#[sscanf("%d")] ' % i, r) + nm + (d or r.choice(["", "()", " {}"])))
            else:
                vs.append(r.choice(["", around("#[sscanf(skip)] ", r)]) + nm + (d or r.choice(["", "(Vec<u8>)", " { a: f64, b: [u8; 3] }", "()"])))
        rep = "#[repr(u8)] " if plain and vs and r.random() < 0.5 else ""
        item = rep + derive + vis + "enum Q" + generics + where + "{ %s%s }" % (", ".join(vs), r.choice(["", ","]) if vs else "")
    use = ""
    if x["v"] == "ok":
        short = args[:len(args) - defaults] if r.random() < 0.5 else args
        if all(a == "'_" for a in short) and r.random() < 0.5:
            short = []
        t = "Q<%s>" % ", ".join(short) if short else "Q"
        place = r.choice(["arg", "format"])
        use = " fn f(s: &str) { let _: Result<%s, sscanf::Error> = %s; let _ = <%s as FromScanf>::NUM_CAPTURES; }" % (
            t, 'sscanf!(s, "{}", %s)' % t if place == "arg" else 'sscanf!(s, "{%s}")' % t, t)
    return Case("the item `%s`" % item, "const _: () = { %s%s };" % (item, use), x["v"])


def item_forms(chk, r):
    path = os.path.join(chk.dir, "items.json")
    with open(path, "w") as f:
        json.dump(dict(params=3, fields=2 + THOROUGH), f)
    by = {}
    for x in run_tlc(chk, "ItemForm", env=dict(PROGRAM=path), timeout=800)[0]:
        by.setdefault(x["v"] + x["kind"], []).append(x)
    chk.cov["items"] = {k: len(v) for k, v in by.items()}
    chk.log("items:", chk.cov["items"])
    cases = []
    for v, xs in sorted(by.items()):
        n = 1100 * (6 if THOROUGH else 1)
        cases += [item_case(x, r) for x in (r.sample(xs, n) if len(xs) > n else xs)]
    for c in r.sample(cases, 5):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, name(chk, "items"), cases, items=ITEM_ITEMS, per=400)


@check
def c26(chk):
    r = chk.rng
    calls_forms(chk, r)
    item_forms(chk, r)
