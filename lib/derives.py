"""Derived types: binding of fields, conversions, variants, casing, composition."""
from checks import *


# ------------------------------------------------------------------------------------------------ C11
def bindings(chk, structs, tokens, maxlen, nm):
    """structs: programs' variants; every format of at most maxlen tokens for each, with the specification's verdict"""
    p = Program()
    for k, v in enumerate(structs):
        p.struct("Q%d" % k, "", v["fields"], shape=v["shape"])
    data = [t["variants"][0] for t in p.to_json()["types"]]

    def job(k, part):
        path = os.path.join(chk.dir, "%s.bind%d.json" % (nm, k))
        with open(path, "w") as f:
            json.dump(dict(types=[], structs=[data[i] for i in part], tokens=[cps(t) for t in tokens], maxlen=maxlen), f)
        return [(part[r["s"] - 1], text(r["f"]), r["v"]) for r in run_tlc(chk, "MCBind", env=dict(PROGRAM=path))[0]]
    parts = split([1] * len(structs), min(CPUS, len(structs)))
    return p, [r for part in parallel([lambda k=k, o=o: job(k, o) for k, o in enumerate(parts)]) for r in part]


def derive_case(p, si, fmt, v, raw, r):
    """the derive of a struct or variant as one line of Rust, with what its errors have to mark"""
    t = p.types[si]
    var = t["variants"][0]
    lit = rust_str(fmt, raw)
    attr = "#[sscanf(%s)]" % r.choice(["format = %s", "format = %s", "%s", "format_unescaped = %s", "format = %s,"]) % lit
    where = r.choice(["struct", "struct", "enum", "autogen"])
    if where == "struct":
        code = "const _: () = { #[derive(FromScanf)] %s struct Q" % attr
    else:
        code = "const _: () = { #[derive(FromScanf)] %senum Q { %s %s V" % ("#[sscanf(autogen)] " if where == "autogen" else "", r.choice(["", "#[sscanf(skip)] U(u8),", '#[sscanf("x{u}")] U { u: u8 },']), attr)
    spots = {}
    fs = var["fields"]
    if var["shape"] != "unit":
        code += "(" if var["shape"] == "tuple" else " { "
        for i, f in enumerate(fs):
            if i:
                code += ", "
            a = p.field_attr(f)
            if a:
                d = a.index("(") + 1
                spots[("default", i + 1)] = (len(code) + d, len(code) + len(a.rstrip()) - 2)
            code += a
            ty = p.field_ty(f)
            if var["shape"] == "tuple":
                spots[("field", i + 1)] = (len(code), len(code) + len(ty))
            else:
                spots[("field", i + 1)] = (len(code), len(code) + len(f["name"]))
                code += f["name"] + ": "
            spots[("type", i + 1)] = (len(code), len(code) + len(ty))
            code += ty
        code += ")" if var["shape"] == "tuple" else " }"
    code += " } };" if where != "struct" else " };" if var["shape"] == "named" else "; };"
    key = "derive %s" % code
    if v["ok"]:
        return Case(key, code, "ok")
    errs = [(e["from"], e["to"]) if e["at"] == "format" else ("arg",) + spots[(e["at"], e["field"])] for e in v["errs"]]
    return Case(key, code, "macro", errs, lit)


@check
def c11(chk):
    r = chk.rng
    structs = []
    tys = ["u8", "char", "i64"]
    for n in range(4):
        for mask in range(1 << n):
            for names in (["a", "b", "c"], ["", "", ""]):
                if n == 0 and names[0] == "":
                    continue
                fs = [field(names[i], tys[i] if not mask >> i & 1 else ["u8", "String", "bool"][i], "default" if mask >> i & 1 else "none") for i in range(n)]
                structs.append(variant("Q", "", fs, shape="unit" if n == 0 else "named" if names[0] else "tuple"))
    tokens = ["{}", "{a}", "{b}", "{c}", "{0}", "{1}", "{2}", "{3}", "{z}", "{a:x}"]
    p, res = bindings(chk, structs, tokens, 3 + THOROUGH, name(chk, "bind"))
    # options that do not fit the type of the field
    fs = [[field("a", t), field("b", u)] for t in ("u8", "char", "i64") for u in ("String", "u16")] + [[field("", "f32"), field("", "i8")], [field("", "usize"), field("", "bool")]]
    p2, res2 = bindings(chk, [variant("Q", "", x) for x in fs], ["{:x}", "{a:#b}", "{0:#}", "{}", "{b:r7}", "{1:x}", "{:/a/}", "{:r37}"], 2 + THOROUGH, name(chk, "options"))
    cases = [derive_case(p2, si, f, v, r.random() < 0.5, r) for si, f, v in res2]
    # many fields: one of them without a source, too many placeholders, an index just out of range, two sources
    long = []
    for k, n in enumerate([11, 12, 33, 65, 129, r.choice([256, 257])]):
        named, off = r.random() < 0.5, set(r.sample(range(n), r.randint(0, 4)))
        fs = [field("f%d" % i if named else "", r.choice(tys), "default" if i in off else "none") for i in range(n)]
        on = [i for i in range(n) if i not in off]
        order = r.sample(on, len(on))

        def some(ks):
            return "".join("{%s}" % r.choice([str(i), "f%d" % i] if named and i < n else [str(i)]) for i in ks)
        m = len(on)
        texts = ["{}" * (m - 1), "{}" * m, "{}" * (m + 1), some(order), some(order[1:]), some(order[2:]), some(order[1:] + [order[1]]), some(order + [n]), some([n] + order), some(order[1:] + [n]),
                 some(on[:-1]) + "{}", some(order[1:]) + "{}", "{}" * (m - 1) + some([on[-1]]), some([on[-1]]) + "{}" * m, "{}" * m + some([on[0]]), some(order + [r.choice(sorted(off) or on)]), "{z}" + "{}" * m]
        long.append(lambda fs=fs, texts=texts, k=k: bindings(chk, [variant("Q", "", fs)], texts, 1, name(chk, "long%d" % k)))
    res3 = []
    for p3, rs in parallel(long, 4):
        res3 += rs
        cases += [derive_case(p3, si, f, v, r.random() < 0.5, r) for si, f, v in rs]
    kinds = {}
    for si, f, v in res + res2 + res3:
        for k in {e["kind"] for e in v["errs"]} or {"accepted"}:
            kinds[k] = kinds.get(k, 0) + 1
    chk.log("%d derives:" % len(res + res2 + res3), kinds)
    chk.cov["verdicts"] = kinds
    good = [x for x in res if x[2]["ok"]]
    bad = [x for x in res if not x[2]["ok"]]
    some = r.sample(good, min(len(good), 6000 if THOROUGH else 700)) + r.sample(bad, min(len(bad), 20000 if THOROUGH else 5000))
    cases += [derive_case(p, si, f, v, r.random() < 0.5, r) for si, f, v in some]
    for c in r.sample(cases, 5):
        chk.sample("%s: %s" % (c.key, c.errs or c.expect))
    compile_cases(chk, name(chk, "derives"), cases)
    on_nightly(chk, "spans", cases, 2000)
    # the accepted ones fill the right fields
    q = Program()
    q.user("UA", "[ab]+")
    q.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "bb"])
    pool = ["u8", "i16", "u64", "char", "bool", "f32", "String", "&str", "Cow<str>", "UA", "NonZeroU8", "PathBuf", "i128"]

    def sites(q, some, mixed):
        for k, (si, f, v) in enumerate(some):
            var = structs[si] if mixed is None else mixed
            fs = []
            ts = r.sample(pool, len(var["fields"])) if len(var["fields"]) <= len(pool) else [r.choice(pool) for _ in var["fields"]]
            n = "B%d" % len(q.types)
            for i, x in enumerate(var["fields"]):
                if x["conv"]["k"] != "none":
                    fs.append(field(x["name"], r.choice(["u8", "String", "Dflt", "&str"]), "default") if r.random() < 0.5 else field(x["name"], "", "defexpr", id=r.randint(1, 99)))
                else:
                    fs.append(field(x["name"], "u16" if ":x" in f and x["name"] == "a" else ts[i]))
            if not fs:
                continue
            sep = r.choice(["", ",", " ", "-"] if len(fs) < 8 else [",", ";", " "])
            parts = re.findall(r"\{.*?\}", f)
            fm = sep.join(parts)
            q.struct(n, fm, fs, shape=var["shape"])
            order = [fs[j - 1]["ty"] for j in v["map"]]
            val = lambda: sep.join("1f" if ":x" in parts[i] else sample_ph(q, Ph(t), r) for i, t in enumerate(order))
            ins = {val() for _ in range(4)}
            ins |= {mutate(x, r) for x in list(ins)[:2]} | {sep.join(reversed(x.split(sep))) if sep else x[::-1] for x in ins}
            if r.random() < 0.3 and not q.has_lt(n):
                q.struct("W" + n, "<{}>{y}", [field("x", n), field("y", "char")])
                q.site("{}", ["W" + n], sorted("<%s>%s" % (x, c) for x in ins for c in "z"))
            else:
                q.site("{}", [n], sorted(ins))
        return q
    many = [x for x in good if x[2]["map"]]
    sites(q, r.sample(many, 130), None)
    # more fields, in random order
    def wide(q, n):
        for _ in range(n):
            nf = r.randint(3, 6) if r.random() < 0.85 else r.randint(10, 14)
            named = r.random() < 0.6
            nm = r.sample(["a", "b", "c", "d", "e1", "f_g", "z", "Y", "x10", "x2", "w", "v_", "_u", "t", "s"], nf) if named else [""] * nf
            isdef = [r.random() < 0.25 for _ in range(nf)]
            fs = [field(nm[i], "u8", "default") if isdef[i] else field(nm[i], "u8") for i in range(nf)]
            live = [i for i in range(nf) if not isdef[i]]
            by = [i for i in live if r.random() < 0.5]
            rest = [i for i in live if i not in by]
            seq = [i for i in by] + [None] * len(rest)
            r.shuffle(seq)
            it = iter(rest)
            f = "".join("{}" if i is None else "{%s}" % (nm[i] if named and r.random() < 0.6 else i) for i in seq)
            mp = [(next(it) if i is None else i) + 1 for i in seq]
            if mp:
                sites(q, [(0, f, dict(map=mp))], variant("Q", "", fs, shape="named" if named else "tuple"))
        return q
    wide(q, 60)
    for k, n in enumerate([10, 11, 16, 17, 20, 33, 40, 65, 100, 129, 257 if THOROUGH else 130]):
        for j in range(3 if n < 60 else 1):
            large_struct(q, r, n, "X%d_%d" % (k, j))
    conform(chk, q, name(chk, "fields"))

    def more():
        q = Program()
        q.user("UA", "[ab]+")
        q.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "bb"])
        return wide(sites(q, r.sample(many, 100), None), 60)
    deepen(chk, name(chk, "more"), more, 300)


# ------------------------------------------------------------------------------------------------ C12
CONVS = ["map", "filter_map", "from", "try_from"]
CONV_TYPES = ALL_BUILTIN[:27] + ["str", "String", "Cow<str>", "PathBuf", "char"]


def conv_structs(p, r, todo):
    """one struct or variant for each (conversion, source type), between other fields"""
    for c, t in todo:
        std = None
        if t == "std":
            std, t = std_conv("", r, c)
        t = fieldable(t)
        if c in ("from", "try_from") and t in p.names and p.has_lt(t):
            t = "String"
        n = "V%d" % len(p.types)
        opt, rx = "", None
        if base(t) in INTS and r.random() < 0.3:
            opt = r.choice(["x", "#b", "o", "r7"])
        elif base(t) in ("str", "String", "Cow") and r.random() < 0.4:
            rx = r.choice([("rep", ("set", [("a", "b")], False), 1, None, False), ("alt", [("lit", "a"), ("seq", [("lit", "a"), ("lit", "b")])])])
        id = std["conv"]["id"] if std else r.randint(1, 99) if c in ("map", "filter_map") else 0
        others = [field("", r.choice(["u8", "char", "String", "i16"])) for _ in range(r.randint(0, 2))]
        if r.random() < 0.4:
            others.append(field("", "", "defexpr", id=r.randint(1, 99)))
        if r.random() < 0.3:
            others.append(field("", r.choice(["u8", "Dflt", "String"]), "default"))
        if r.random() < 0.3:
            others.append(field("", "", r.choice(["map", "filter_map"]), "u8", r.randint(1, 99)) if r.random() < 0.5 else std_conv("", r, r.choice(CONVS))[0])
        fs = others + [std or field("", "", c, t, id)]
        r.shuffle(fs)
        named = r.random() < 0.5
        if named:
            for i, f in enumerate(fs):
                f["name"] = "fghijklmn"[i]
        live = [i for i in range(len(fs)) if fs[i]["conv"]["k"] not in ("default", "defexpr")]
        order = live[:]
        byname = r.random() < 0.5
        if byname:
            r.shuffle(order)
        ps = []
        for i in order:
            f = fs[i]
            me = f["conv"]["k"] == c and f["conv"]["ty"] == t and f["conv"]["id"] == id
            ty = f["conv"]["ty"] or f["ty"]
            ps += [r.choice(["", ",", "<", " ", ";"]), Ph(ty, ("fghijklmn"[i] if named else str(i)) if byname else None, opt if me else "", rx if me else None)]
        ps = [x for x in ps if x != ""]
        src = fmt_src(ps, False, r)
        if r.random() < 0.7:
            p.struct(n, src, fs, raw=False, shape="named" if named else "tuple")
        else:
            vs = [variant("A", src, fs, raw=False, shape="named" if named else "tuple"), variant("B", src + "b", fs, raw=False, shape="named" if named else "tuple")]
            if r.random() < 0.5:
                vs.insert(0, variant("Z", "zz", []))
            p.enum(n, vs)
        ins = inputs_for(p, ps, r, 8, 4)
        p.names[n]["sampler"] = lambda r, ps=ps: sample_pieces(p, ps, r)
        p.site(r.choice(["{}", "{}", "<{}"]), [n], ins)
        if p.sites[-1]["fmt"] != "{}":
            p.sites[-1]["inputs"] = ["<" + x for x in ins]
    return p


@check
def c12(chk):
    r = chk.rng

    def program(n):
        p = Program()
        p.user("UA", "[abx]+|1")
        p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "x", "1", "aab"])
        p.struct("SA", "({}:{})", [field("", "u8"), field("", "char")])
        p.names["SA"]["sampler"] = lambda r: "(%d:%s)" % (r.randint(0, 300), r.choice("ab1"))
        p.enum("EA", [variant("X", "x{}", [field("", "", "try_from", "u8")]), variant("Y", "y", [])])
        p.names["EA"]["sampler"] = lambda r: r.choice(["y", "x%d" % r.randint(0, 9)])
        todo = [(c, t) for c in CONVS for t in CONV_TYPES + ["UA", "SA", "EA"] + ["std"] * 20]
        return conv_structs(p, r, r.sample(todo, min(n, len(todo))))
    p = program(240)
    # every text for some
    for c in CONVS:
        n = "X" + c
        p.struct(n, "{}-{a:x}", [field("a", "", c, "u8", 3 if "map" in c else 0), field("d", "", "defexpr", id=5), field("b", "", c, "String", 4 if "map" in c else 0)])
        p.site("{}", [n], alpha=["a", "-", "1", "ff"], maxlen=5)
    # every conversion between standard types, at the edges of their ranges
    for c in CONVS:
        for t, u in [(t, t) for t in STEPPED] if c in ("map", "filter_map") else STD_FROM if c == "from" else STD_TRY:
            n = "Y%d" % len(p.types)
            p.struct(n, "{}", [field("", u, c, t, r.randint(1, 99) if "map" in c else 0)])
            ins = {sample_builtin(t, r) for _ in range(8)}
            for x in (t, u):
                if x in INTS or x in NZ:
                    ins |= {str(v + d) for v in int_range(x) for d in (-1, 0, 1)}
            if "char" in (t, u):
                ins |= {str(v) for v in (0, 55295, 55296, 57343, 57344, 65535, 1114111, 1114112, 4294967295)} | set("aÿĀ漢🦀\u00ff\u007f\u0080")
            p.site("{}", [n], sorted(ins))
    conform(chk, p, name(chk, "conversions"))

    def more():
        return program(120)
    deepen(chk, name(chk, "more"), more)


# ------------------------------------------------------------------------------------------------ C13
def random_enum(p, r, n, words, types, nv=None):
    vs, nv = [], nv or r.randint(2, 5)
    idents = r.sample(["A", "B", "C", "D", "E", "F"], nv)
    ag = r.choice(["", "", "", "CaseSensitive", "lowercase"])
    for i in range(nv):
        c = r.random()
        if c < 0.12:
            vs.append(variant(idents[i], "", [field("", "u8")] if r.random() < 0.5 else [], attr="skip"))
            continue
        if c < 0.24:
            vs.append(variant(idents[i], "", [] if ag else r.choice([[], [field("", "u8")]]), attr="none"))
            continue
        if c < 0.34:
            vs.append(variant(idents[i], "", [field(r.choice(["", "t"]), r.choice(types))], attr="transparent"))
            continue
        nf = r.choice([0, 0, 1, 1, 2, 2, 3])
        src, fs = r.choice(words + [""]), []
        named = r.random() < 0.5
        order = list(range(nf))
        byname = r.random() < 0.5
        if byname:
            r.shuffle(order)
        for k in range(nf):
            fs.append(field("klm"[k] if named else "", r.choice(types)))
        if r.random() < 0.2:
            fs.append(field("d" if named else "", "", "defexpr", id=i + 1))
        for k in order:
            src += "{%s}" % (("klm"[k] if named else str(k)) if byname else "") + r.choice(words + ["", "", ""])
        vs.append(variant(idents[i], src, fs, raw=False, shape=("named" if named else "tuple") if fs else r.choice(["unit", "named", "tuple"])))
    if not any(v["attr"] not in ("none", "skip") or v["attr"] == "none" and ag for v in vs):
        vs.append(variant("Z", words[0], [], raw=False))
    p.enum(n, vs, ag)
    return n


@check
def c13(chk):
    r = chk.rng

    def program(ns, maxlen):
        p = Program()
        p.user("UA", "a|ab")
        p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab"])
        for k in range(ns):
            words = r.sample(["a", "b", "1", "ab", "A", "-"], 3)
            types = ["u8", "char", "String", "UA", "NonZeroU8", "bool"] + [n for n in p.names if p.names[n]["k"] == "enum" and r.random() < 0.2]
            n = random_enum(p, r, "E%d" % k, words, types)
            al = sorted(set("".join(words) + "1"), key=lambda c: r.random())[:3]
            f = r.choice(["{}", "{}", "{}{str}", "{}{u8}", "{char}{}", "{}{0}", "{0}{0}", "a{}", "{}-{0}b"])
            p.site(f, [n], alpha=al, maxlen=maxlen)
            if r.random() < 0.35:
                p.struct("S%d" % k, r.choice(["{e}{x}", "{x}{e}", "{e}a", "{e}"] if r.random() < 0.7 else ["{e}{x}"]).replace("{x}", "{x}"), [field("e", n), field("x", "char", "none")], shape="named")
                if "{x}" not in p.types[-1]["variants"][0]["fmt"]:
                    p.types[-1]["variants"][0]["fields"][1] = field("x", "", "defexpr", id=k + 1)
                p.site("{}", ["S%d" % k], alpha=al, maxlen=maxlen)
        return p
    def wide(p, ns):
        """many variants with many fields, one of which fits"""
        for k in range(ns):
            nv = r.randint(9, 14)
            vs, texts = [], []
            for i in range(nv):
                c = r.random()
                if c < 0.15:
                    vs.append(variant("V%d" % i, "", [], attr="skip"))
                    continue
                mark = "%s%d" % (r.choice("abc"), r.randint(0, 20)) if r.random() < 0.8 else r.choice("abc")
                ts = [r.choice(["u8", "i16", "char", "String", "bool", "UA", "f32"]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
                named = r.random() < 0.4
                order = list(range(len(ts)))
                byname = r.random() < 0.5
                if byname:
                    r.shuffle(order)
                fs = [field("klmno"[j] if named else "", t) for j, t in enumerate(ts)]
                ps = [mark + ":"] + [x for j in order for x in (Ph(ts[j], ("klmno"[j] if named else str(j)) if byname else None), ";")]
                vs.append(variant("V%d" % i, fmt_src(ps, False, r), fs, raw=False, shape=("named" if named else "tuple") if fs else "unit"))
                texts += [sample_pieces(p, ps, r) for _ in range(2)]
            p.enum("W%d" % k, vs, "")
            p.site(r.choice(["{}", "{}{str}", "{u8}{}"]), ["W%d" % k], sorted({"7" * (r.random() < 0.3) + x + r.choice(["", "", "z"]) for x in texts} | {mutate(x, r) for x in texts[:4]}))
        return p
    def prefixes(p, ns):
        """variants whose texts are prefixes of each other, in any order, with text behind the enum"""
        for k in range(ns):
            stem = r.choice(["A", "Ab", "Go"])
            names = list(dict.fromkeys(stem + "".join(r.choice("abxB1") for _ in range(r.randint(0, 3))) for _ in range(r.randint(3, 6))))
            r.shuffle(names)
            ag = r.choice(["CaseSensitive", "CaseInsensitive", "lowercase", "snake_case", "UPPERCASE", ""])
            vs, texts = [], []
            for i, x in enumerate(names):
                low = x.lower() if ag in ("lowercase", "snake_case") else x.upper() if ag == "UPPERCASE" else x
                if ag and r.random() < 0.7:
                    vs.append(variant(x, "", [], attr="none"))
                    texts.append(low)
                else:
                    fs = r.choice([[], [], [field("", "u8")], [field("", "String")], [field("", "char")]])
                    vs.append(variant(x, low + ("{}" if fs else ""), fs))
                    texts.append(low + ("7" if fs else ""))
            p.enum("P%d" % k, vs, ag)
            tails = ["", "z", "1", "ab", "b", "B1", "x"]
            p.site(r.choice(["{}{str}", "{}{str}", "{}{char}", "{}{:/.*/}", "{}", "{}{0}"]).replace("{:/", "{str:/"), ["P%d" % k],
                   sorted({x + y for x in texts for y in r.sample(tails, 3)} | {x + y for x in texts for y in texts[:2]} | {mutate(r.choice(texts), r) for _ in range(3)}))
        return p
    conform(chk, prefixes(wide(program(110, 5), 10), 40), name(chk, "variants"))
    p = Program()
    for k, n in enumerate([16, 17, 18, 20, 25, 32, 33, 40, 64, 65, 100, 128, 130] + ([256, 257, 300, 513] if THOROUGH else [257])):
        for j in range(3 if n < 100 else 1):
            large_enum(p, r, n, "X%d_%d" % (k, j))
    conform(chk, p, name(chk, "many"))

    def more():
        return prefixes(wide(program(60, 6), 20), 40)
    deepen(chk, name(chk, "more"), more)


# ------------------------------------------------------------------------------------------------ C14
CASINGS = ["CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
           "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
KEYWORDS = ["type", "match", "fn", "loop", "r", "async", "dyn", "true_", "where", "In", "Box", "Struct"]


def random_ident(r):
    while True:
        s = ""
        for _ in range(r.randint(1, 4)):
            s += r.choice(["A", "B", "Ab", "XYZ", "HTTPServer", "foo", "x", "9", "12", "V2", "3D", "_", "__", "Kelvin", "iOS", "k", "s", "aB", "Z", "u8", "_a", "a_", "0x", "漢"])
        if not s[0].isdigit() and s.strip("_") and s not in KEYWORDS + ["Self", "as", "if"] and s != "crate":
            return s


def words_of(ident):
    return [w for w in re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|\d+|[^\x00-\x7f]+", ident)]


def casings_of(ident):
    w = words_of(ident)
    out = {ident, ident.lower(), ident.upper(), ident.swapcase(), ident.replace("_", ""), ident.replace("_", " "), ident.replace("_", "-")}
    for sep in ("", "_", "-", " "):
        for f in (str.lower, str.upper, str.capitalize):
            out.add(sep.join(f(x) for x in w))
        out.add(sep.join(x.lower() if i == 0 else x.capitalize() for i, x in enumerate(w)))
    return out


@check
def c14(chk):
    r = chk.rng

    def program(n):
        p = Program()
        for k in range(n):
            casing = CASINGS[k % len(CASINGS)]
            ids = []
            while len(ids) < r.randint(1, 6):
                i = random_ident(r)
                if i not in ids:
                    ids.append(i)
            vs = [variant(i, "", [], attr="none", shape=r.choice(["unit", "unit", "tuple", "named"])) for i in ids]
            if r.random() < 0.3:
                for kw in r.sample(["type", "match", "fn", "loop", "async", "where", "impl", "move"], 2):
                    vs.append(variant(kw, "", [], attr="none"))
                    vs[-1]["ident"] = "r#" + kw
                    ids.append(kw)
            other = random_ident(r)
            if r.random() < 0.5 and other not in ids:
                vs.insert(r.randint(0, len(vs)), variant(other, "<%s>" % other.upper(), [], raw=False))
            skipped = random_ident(r)
            if r.random() < 0.5 and skipped not in ids + [other]:
                vs.insert(r.randint(0, len(vs)), variant(skipped, "", [field("", "u8")] if r.random() < 0.5 else [], attr="skip"))
            with_fields = "F" + str(k)
            if r.random() < 0.3:
                vs.insert(r.randint(0, len(vs)), variant(with_fields, "{}!", [field("", "u8")], raw=False))
            n_ = "A%d" % k
            p.enum(n_, vs, casing)
            kw = r.choice(["autogen", "autogen", "autogenerate"])
            if casing == "CaseSensitive" and r.random() < 0.5:
                p.types[-1]["agattr"] = "#[sscanf(%s)]\n" % kw
            else:
                t = casing if casing != "CaseInsensitive" else r.choice(["CaseInsensitive", "case_insensitive", "Case Insensitive", "caseinsensitive", "CASE-INSENSITIVE", "caseInsensitive"])
                p.types[-1]["agattr"] = "#[sscanf(%s = %s)]\n" % (kw, rust_str(t, r.random() < 0.3))
            ins = set()
            for i in r.sample(ids, min(len(ids), 4)):
                cs = sorted(casings_of(i))
                ins |= set(r.sample(cs, min(len(cs), 12))) | {mutate(i, r)}
                if casing == "CaseInsensitive":
                    ins |= {"".join(r.choice((c.lower(), c.upper())) for c in i) for _ in range(3)} | {i.replace("k", "\u212a").replace("s", "ſ")}
            ins |= {skipped, "<%s>" % other, "<%s>" % other.upper(), "<%s>" % other.lower(), "7!", "", "r#type", "type"}
            p.site(r.choice(["{}", "{}", "{}", "x{}x", "{}{str}"]), [n_], sorted(ins))
            if p.sites[-1]["fmt"] == "x{}x":
                p.sites[-1]["inputs"] = ["x%sx" % i for i in p.sites[-1]["inputs"]]
        return p
    conform(chk, program(96), name(chk, "casings"))
    # a short identifier and every text over its pieces
    q = Program()
    for k, casing in enumerate(CASINGS):
        q.enum("B%d" % k, [variant("FoB", "", [], attr="none"), variant("Fo_b1", "", [], attr="none"), variant("Fo", "", [], attr="none")], casing)
        q.site("{}", ["B%d" % k], alpha=["fo", "Fo", "FO", "b", "B", "1"] + [["_"], ["-"], [" "]][k % 3], maxlen=4)
    conform(chk, q, name(chk, "short"))
    deepen(chk, name(chk, "more"), lambda: program(96))


# ------------------------------------------------------------------------------------------------ C15
def broken_types(p, r, k):
    """types that do not keep their promises"""
    p.user("G%d" % k, r.choice(["(a)|b", "a(b)?", "(?:(a)b)", "(?i:(x))|1", "()"]))
    p.manual("T%d" % k, "(a)(b)?(c)?", 4, takes=r.choice([2, 3, 3]))
    p.manual("O%d" % k, "(a)(b)?", 3, takes=4)
    p.manual("N%d" % k, "(a)(b)", r.choice([2, 4, 5]), takes=None)
    p.manual("M%d" % k, "a|b(1)?", 2, takes=2)
    return ["G%d" % k, "T%d" % k, "O%d" % k, "N%d" % k, "M%d" % k]


@check
def c15(chk):
    r = chk.rng

    def nested(n, sites):
        g = Gen(r)
        g.types(3, 2, 0, 0)
        for k in range(n):
            (g.struct if r.random() < 0.5 else g.enum)()
        randoms(chk, g, sites, nested=0.9)
        return g.p
    conform(chk, nested(25, 70), name(chk, "nested"))
    # alternatives of a user's regex stay within the placeholder
    p = Program()
    for k, re_ in enumerate(["a|ab", "a|", "|a", "^a|b$", "a|b|1", "(?i)a|B", "[a|b]", "a{1,2}|b", "(?:a|b)c|a", "a??", "(?-s:.)|ab"]):
        n = p.user("U%d" % k, re_)
        p.struct("S%d" % k, "{}b", [field("", n)], shape="tuple")
        p.enum("E%d" % k, [variant("A", "{}1", [field("", n)]), variant("B", "a{}", [field("", n)]), variant("C", "{}{}", [field("", n), field("", n)])])
        for f, a in [("a{}b", [n]), ("{}{}", [n, n]), ("{}", ["S%d" % k]), ("{}{}", ["E%d" % k, n]), ("{U%d}{str}" % k, [])]:
            p.site(f, a, alpha=["a", "b", "1", "A"] if k in (4, 5) else ["a", "b", "c"] if k == 8 else ["a", "b", "1"], maxlen=4)
    conform(chk, p, name(chk, "alternatives"))
    # broken promises
    q = Program()
    for k in range(4):
        names = broken_types(q, r, k)
        for n in names:
            q.struct("B" + n, r.choice(["<{}>{}", "{1}<{0}>"]), [field("", n), field("", "String")], shape="tuple")
            q.enum("C" + n, [variant("X", "-{}", [field("", n)]), variant("Y", "{}:", [field("", "u8")]), variant("Z", "{}.{}", [field("", "String"), field("", n)])])
            ins = sorted({x + y for x in ["a", "ab", "abc", "b", "b1", "ac", "1", "x", ""] for y in ["", "1"]})
            q.site(r.choice(["{}{str}", "{}"]), [n], ins)
            q.site("{u8}{}{}", [n, n], ["1" + x + x for x in ins])
            q.site("{}", ["B" + n], ["<%s>%s" % (x, y) for x in ins for y in "a"] + ["a<%s>" % x for x in ins])
            q.site("{}{str}", ["C" + n], ["-" + x + "z" for x in ins] + ["1:z", "zz", "a.a", "1.abz"])
            q.site("", ["B" + n], ["<%s>%s" % (x, y) for x in ins for y in "a"], api="from_str")
            q.site("", ["C" + n], ["-" + x for x in ins] + ["1:", "a.a"], api="from_str")
    conform(chk, q, name(chk, "broken"))
    # depth, and many captures
    q = Program()
    for k, n in enumerate([4, 5, 6, 8, 9, 10, 12, 16, 17, 20, 24] + ([33, 40] if THOROUGH else [])):
        for j in range(2):
            deep_type(q, r, n, "D%d_%d" % (k, j))
    for k, n in enumerate([17, 40, 70, 130]):
        large_struct(q, r, n, "L%d" % k)
        large_enum(q, r, n, "M%d" % k)
        q.site("{}-{}-{u8}", ["M%d" % k, "M%d" % k], ["v1-v2-7", "v%d-v0-300" % (n - 1), "v0-v%d-0" % (n - 1), "v1-v2-", "v%d-v%d-1" % (n, n + 1)])
    conform(chk, q, name(chk, "large"))
    deepen(chk, name(chk, "more"), lambda: nested(40, 120))


# ------------------------------------------------------------------------------------------------ C16
@check
def c16(chk):
    r = chk.rng

    def program(n):
        p = Program()
        # failing leaves of every kind
        leaves = ["u8", "i8", "NonZeroU8", "u128", "f32", "bool", "char", "HexNumber", "UA", "MA", "String"]
        p.user("UA", "[abx!]+")
        p.manual("MA", "(a)|([bx])", 3)
        smp = {"UA": lambda r: r.choice(["a", "x", "bx", "ab", "a!" if r.random() < 0.2 else "b"]), "MA": lambda r: r.choice("abx")}
        for k in smp:
            p.names[k]["sampler"] = smp[k]

        def piece(t, f=None):
            if t in INTS and r.random() < 0.3:
                return Ph(t, f, r.choice(["x", "r36", "#b", "o#"]))
            if t in ("u8", "i8", "NonZeroU8", "f32", "bool", "char", "HexNumber", "u128") and r.random() < 0.35:
                return Ph(t, f, "", ("rep", ("set", [("0", "9"), ("a", "a"), ("-", "-")] if t != "bool" else [("a", "z")], False), 0, None, r.random() < 0.3))
            return Ph(t, f)
        level = {t: 0 for t in leaves}
        for k in range(n):
            n_ = "D%d" % k
            lv = k % 4
            cand = [t for t in level if level[t] == lv or level[t] < lv and r.random() < 0.3] or leaves
            fs, ps, nf = [], [], r.randint(1, 3)
            named = r.random() < 0.5
            for i in range(nf):
                t = r.choice(cand)
                c = r.choice(["none"] * 3 + ["filter_map", "try_from", "map"])
                if c != "none" and t in ("HexNumber", "MA") or c == "try_from" and t == "f32" and False:
                    c = "none"
                fs.append(field("uvw"[i] if named else "", "" if c != "none" else t, c, t if c != "none" else "", r.randint(1, 9) if "map" in c else 0))
                ps += [r.choice([",", ";", "|", ""]), piece(t, "uvw"[i] if named and r.random() < 0.5 else None)]
            if any(isinstance(x, Ph) and x.name for x in ps) and any(isinstance(x, Ph) and not x.name for x in ps):
                for x in ps:
                    if isinstance(x, Ph):
                        x.name = None
            ps = [x for x in ps if x != ""]
            src = fmt_src(ps, False, r)
            if r.random() < 0.6:
                p.struct(n_, src, fs, raw=False, shape="named" if named else "tuple")
                p.names[n_]["sampler"] = lambda r, ps=ps: sample_pieces(p, ps, r)
            else:
                p.enum(n_, [variant("P", "p" + src, fs, raw=False, shape="named" if named else "tuple"), variant("Q", "q", []), variant("R", src + "r", fs, raw=False, shape="named" if named else "tuple")])
                p.names[n_]["sampler"] = lambda r, ps=ps: (lambda s: r.choice(["p" + s, "q", s + "r"]))(sample_pieces(p, ps, r))
            level[n_] = lv + 1
            if r.random() < 0.35:  # several types of one name, in modules of their own
                p.names[n_]["shown"] = r.choice(["Same", "Same", "Other"])
            a = [r.choice(list(level)), n_]
            r.shuffle(a)
            a = [n_] if r.random() < 0.5 else a
            ps = []
            for t in a:
                ps += [Ph(t), r.choice(["/", "", "="])]
            ps = [x for x in ps if x != ""]
            p.site(fmt_src(ps, False, r), a, inputs_for(p, ps, r, 12, 3))
            if r.random() < 0.4:
                p.site("", [n_], inputs_for(p, [Ph(n_)], r, 8, 4), api="from_str")
        return p
    # every builtin type's own failures
    p = program(60)
    for t in leaves_of():
        if t in TEXT_TYPES and t != "char":
            continue
        ins = ["", "1", "0", "256", "-129", "99999999999999999999999999999999999999999", "a", "aa", "-", "+", "true", "truee", "1.5", "1.5.", "\n", "x", "!", "é", "0x", "0xg", "-0x1"]
        p.site("{:/(?s:.*)/}", [t], ins)
        p.site("-{}", [t], ["-" + i for i in ins])
        p.site("", [t], ins, api="from_str")
        if t in INTS:
            for o in ("x", "#o", "r2", "r36"):
                p.site("{:%s}" % o, [t], ins + ["zz", "0x1", "0o8", "0o7", "0b1", "-0o7", "1" * 140, "7" * 50])
    conform(chk, p, name(chk, "failures"))
    deepen(chk, name(chk, "more"), lambda: program(120))


def leaves_of():
    return list(INTS) + list(NZ) + ["f32", "f64", "bool", "char", "HexNumber", "FullF32", "FullF64"]
