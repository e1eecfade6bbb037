"""Deprecated types and the macros with their old names."""
from checks import *
from compiles import *

ALIAS = {"sscanf": ["sscanf::scanf!", "::sscanf::scanf!", "scanf!"], "unescaped": ["sscanf::scanf_unescaped!", "scanf_unescaped!"], "get_regex": ["::sscanf::scanf_get_regex!", "scanf_get_regex!"]}
ITEMS = "use sscanf::{scanf, scanf_unescaped, scanf_get_regex, FromSscanf};"
PLAIN = {"FullF32": "f32", "FullF64": "f64", "HexNumber": "usize"}
# the operators of the wrappers, in a conversion that hands the same value on
OPS = ("{ let y: %(u)s = *x; let mut z = %(w)s(Default::default()); *z = y; let c = z.clone(); let d = z; let same = y == y; "
       "assert!((z == x) == same && (c == d) == same && (z == y) == same && (y == z) == same && (z != y) != same && z.0.to_string() == y.to_string() && (*z).to_string() == x.to_string()); "
       "assert!(format!(\"{:?}\", z) == format!(\"%(w)s({:?})\", y)); z.0 = %(one)s; assert!(z == %(one)s && %(one)s == z && *z == %(one)s && x.0.to_string() == y.to_string()); map(%(id)d, x) }")


def texts(t, r):
    if t == "HexNumber":
        big = 2 ** 64
        ns = [0, 1, 9, 10, 15, 16, 31, 0xabcdef, big - 1, big, big + 1, 16 ** 15, 16 ** 20, r.randrange(big), r.randrange(big), r.randrange(2 ** 32), r.randrange(16 ** 18)]
        out = set()
        for n in ns:
            h = "%x" % n
            out |= {h, "0x" + h, "0X" + h.upper(), "".join(r.choice([c, c.upper()]) for c in h), "0" * r.randint(1, 30) + h, "0x" + "0" * r.randint(1, 30) + h}
        return sorted(out | {"", "0x", "x", "0x0x1", "-1", "+1", "0x+1", "+0x1", "0b1", "0o7", "g", "1g", "0xg", " 1", "1 ", "1_0", "１", "0x１", "ａ", "x1", "0y1", "00x1", "10x1", "0", "00", "0x0"})
    return sorted({sample_float(r) for _ in range(30)} | {mutate(sample_float(r), r) for _ in range(10)} |
                  {"", "inf", "-INF", "+Infinity", "nan", "NaN", "-nan", "1e400", "-1e-400", "0.1", "16777217", "3.4028236e38", "1.7976931348623159e308", "1e", ".", "-", "1.", ".5", "in", "-0", "1,5", "0x1", "1f", "1_0", "infinit"})


def wrappers(r):
    p = Program()
    for w, t in PLAIN.items():
        xs = texts(w, r)
        for ty in (w, t) if t != "usize" else (w,):
            p.site("{}", [ty], xs)
            p.site("", [ty], xs, api="from_str")
            p.site("({0})", [ty], ["(%s)" % x for x in xs][::2])
            p.site("{}{%s}" % ty, [r.choice(["str", "char", "u8"])], [a + x for x in r.sample(xs, 20) for a in ("1", "a", "-")])
            p.site("{}{%s}" % r.choice(["str", "char", "bool"]), [ty], [x + a for x in r.sample(xs, 20) for a in ("1", "e", "true")])
            p.site("{}{}", [ty, ty], [x + y for x in r.sample(xs, 8) for y in r.sample(xs, 4)])
            p.site("{:/[^,]*/},{}", [ty, ty], [x + "," + y for x in r.sample(xs, 10) for y in r.sample(xs, 2)] + ["+1,1", "0x+f,1", "-f,1"])
        al = {"HexNumber": ["0", "x", "f", "F", "1", "g"]}.get(w, ["1", ".", "e", "-", "n"])
        p.site("{}", [w], alpha=al, maxlen=4)
        p.site("{}{}", [w, w], alpha=al[:4], maxlen=4)
        # what comes behind takes anything
        p.site("{}{str}", [w], alpha=al[:5], maxlen=4)
        p.site("{}{str:/.*/}", [w], alpha=al[:5], maxlen=4, raw=True)
        for k in range(4):
            n = "W%s%d" % (w, k)
            f = field("a", "", "map", w, r.randint(1, 99))
            one = "1.0" if t != "usize" else "1"
            f["attrtext"] = "#[sscanf(map = |x: %s| -> Tag<%s> %s)]" % (w, w, OPS % dict(u=t, w=w, id=f["conv"]["id"], one=one))
            fs = [f, field("b", w), field("c", w, r.choice(["none", "none"]))]
            ps = [Ph(w, r.choice(["a", None])), ";", Ph(w), ",", Ph(w)]
            src = fmt_src(ps, False, r)
            if k % 2:
                p.struct(n, src, fs, raw=False, shape="named")
            else:
                p.enum(n, [variant("A", src, fs, raw=False, shape="named"), variant("B", "=" + "{}", [field("", w)])])
            p.names[n]["derive"] = r.choice(["FromSscanf", "sscanf::FromSscanf", "FromScanf"])
            p.site("{}", [n], ["%s;%s,%s" % (r.choice(xs), r.choice(xs), r.choice(xs)) for _ in range(20)] + ["=" + x for x in r.sample(xs, 10)] + ["%s;%s,%s" % ((x,) * 3) for x in xs][::4])
    p.items.append(ITEMS)
    return p


def renamed(r, n):
    """call sites of the generator with the old name of the macro, next to the same with the new name"""
    g = Gen(r)
    g.types(3, 2, 6, 4)
    p = g.p
    p.items.append(ITEMS)
    for t in p.types:
        if t["k"] in ("struct", "enum"):
            t["derive"] = r.choice(["FromSscanf", "sscanf::FromSscanf", "Clone, FromSscanf" if False else "FromSscanf"])
    for _ in range(n):
        g.site(nested=0.5)
    for k, s in enumerate(list(p.sites)):
        if s["api"] in ("sscanf", "unescaped"):
            q = dict(s, macro=r.choice(ALIAS[s["api"]]))
            p.sites.append(q)
        if s["api"] == "sscanf" and r.random() < 0.5:
            q = dict(s, api="get_regex", macro=r.choice(ALIAS["get_regex"]))
            p.sites.append(q)
    return p


@check
def c24(chk):
    r = chk.rng
    # the same verdict on every format
    seen = grammars(chk, soups(chk, 3000 if THOROUGH else 500) + [FRAMES[0][:5] + (3 + THOROUGH,), FRAMES[1][:5] + (2 + THOROUGH,)])
    cases, total = [], {}
    for nm, raw in [(k, k not in ("soup0", "braces")) for k in seen]:
        part = grammar_cases(seen[nm], raw)[0]
        for c in r.sample(part, min(len(part), 3000 if THOROUGH else 350)):
            api = r.choice(["sscanf", "unescaped", "get_regex"])
            mac = r.choice(ALIAS[api][:-1] + ALIAS[api])
            c.code = c.code.replace('sscanf!("", ', mac + ("(" if api == "get_regex" else '("", '))
            c.key = mac + c.key[6:]
            cases.append(c)
            total[c.expect] = total.get(c.expect, 0) + 1
    chk.cov["verdicts"] = total
    compile_cases(chk, name(chk, "grammar"), cases, items=[ITEMS])
    for c in r.sample(cases, 4):
        chk.sample("%s: %s" % (c.key, c.expect))
    conform(chk, wrappers(r), name(chk, "wrappers"))
    conform(chk, renamed(r, 60), name(chk, "renamed"))
    deepen(chk, name(chk, "more"), lambda: r.choice([wrappers, lambda r: renamed(r, 120)])(r), 500)
