"""What is explored for each property."""
import itertools, zlib
from gen import *
from compiles import *

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def grammars(chk, frames, arg="u8", extra=0, args=None):
    """for every frame, every format of at most maxlen tokens of its alphabet, with the verdict of the specification"""
    jobs = []

    def job(fr, k, firsts, n, m):
        path = os.path.join(chk.dir, "%s.grammar%d_%d.json" % (fr[0], k, len(args or [])))
        with open(path, "w") as f:
            json.dump(dict(types=[], raw=fr[1], arg=cps(arg), extra=extra, fixed=args is not None, args=[cps(a) for a in args or []], maxlen=m, firstlen=n, after=cps(fr[3]),
                           alphabet=[cps(a) for a in fr[4]], first=[cps(fr[2] + x) for x in firsts]), f)
        return fr[0], run_tlc(chk, "MCGrammar", env=dict(PROGRAM=path))[0]
    for fr in frames:
        parts = split([1] * len(fr[4]), 4 if THOROUGH else 2)
        jobs.append(lambda fr=fr: job(fr, 99, [""], 0, 0))
        jobs += [lambda fr=fr, k=k, o=o: job(fr, k, [fr[4][i] for i in o], 1, fr[5]) for k, o in enumerate(parts)]
    seen = {fr[0]: {} for fr in frames}
    for name, part in parallel(jobs):
        for r in part:
            seen[name][text(r["f"])] = r["v"]
    return seen


def grammar_cases(seen, raw, positions=False, arg="u8", fixed=None, forms=("sscanf!(\"\", %s%s)",)):
    cases, kinds = [], {}
    for k, (f, v) in enumerate(sorted(seen.items())):
        lit = rust_str(f, raw)
        args = [arg] * v["nargs"] if fixed is None else fixed
        form = forms[zlib.crc32(lit.encode()) % len(forms)]
        call = form % (lit, "".join(", " + a for a in args))
        code = "const _: fn() = || { let _ = %s; };" % call
        key = call.replace('!("", ', "(")
        if v["ok"]:
            cases.append(Case(key, code, "ok"))
            kinds["accepted"] = kinds.get("accepted", 0) + 1
            continue
        ks = {e["kind"] for e in v["errs"]}
        for x in ks:
            kinds[x] = kinds.get(x, 0) + 1
        errs = None
        if positions and "bad-type" not in ks:
            def arg_at(n):
                p = code.index(call) + form.index("%s") + len(lit) + 2 + sum(len(a) + 2 for a in args[:n - 1])
                assert code[p:p + len(args[n - 1])] == args[n - 1]
                return "arg", p, p + len(args[n - 1])
            errs = [arg_at(e["arg"]) if e["arg"] else (e["from"], e["to"]) for e in v["errs"]]
        cases.append(Case(key, code, "later" if "bad-type" in ks else "macro", errs, lit))
    return cases, kinds


CALLS = ['sscanf!("", %s%s)', 'sscanf_unescaped!("", %s%s)', "sscanf_get_regex!(%s%s)", 'sscanf!("", %s%s)', 'sscanf!("", %s%s,)', "sscanf_get_regex!{%s%s,}"]
FRAMES = [
    # name, raw, before, after, alphabet, length in the quick tier
    ("braces", False, "", "", ["{", "}", ":", "u8", "x", "#", " "], 4),
    ("placeholder", True, "a{", "}b", ["u8", ":", "x", "o", "b", "#", "r", "2", "36", "37", "0", "1", " ", "/", "}"], 3),
    ("option", False, "{u8:", "}", ["x", "o", "b", "#", "r", "2", "36", "37", "1", "0", "+", "5", " ", "X", "R"], 3),
    ("path", True, "{", "", ["std", ":", "::", "primitive", "u8", "}", "str", "&", "x"], 4),
    ("regex", True, "{:/", "/}", ["\\", "/", "(", ")", "?:", "?", "?i:", "a", "*", "[", "]", "|", "{", "}", "2", ",", "b-", "^"], 3),
    ("class", True, "{:/[", "]/}", ["[", "]", "-", "a", "^", "&&", "~~", "b", ":", "\\"], 3),
    ("quoted", False, "{:/", "/}", ["\\\\", "\\\"", "\\'", "\\n", "/", "}", "d", "(", "["], 4),
    ("escapes", False, "", "", ["{", "}", "\\u{7b}", "\\x7d", "\\\\", "\\n", "a", ":"], 4)]


def random_regex(r, groups=0.5):
    """source of a regex, often with a capture group somewhere, sometimes damaged"""
    t = rx_src(gen_rx(r, r.randint(1, 5), "abx19", r.random() < 0.2), r)
    if r.random() < groups:
        k = [m.start() for m in re.finditer(r"\(\?:", t)]
        k = [i for i in k if i == 0 or t[i - 1] not in "\\["]
        cap = r.choice(["(", "(", "(?P<n>"])
        if k and r.random() < 0.8:
            i = r.choice(k)
            t = t[:i] + cap + t[i + 3:]
        else:
            t = r.choice([cap + t + ")", "(?:" + cap + t + "))*", "a|(?:" + t + "|b" + cap + "c)){2}", "(?i:" + cap + t + "))?"])
    if r.random() < 0.15:
        i = r.randint(0, len(t))
        t = t[:i] + r.choice(["(", ")", "[", "]", "*", "?", "{", "|", "a"]) + t[i + r.randint(0, 1):]
    return t


def random_format(r, raw, regexes=0.3):
    """a format that is mostly right"""
    o = []
    for _ in range(r.randint(1, 4)):
        c = r.random()
        if c < 0.35:
            o.append(r.choice(["a", " ", "{{", "}}", "é", "漢", "#", ":", "/", "::", "x{{}}", "'", "0"]))
            continue
        nm = r.choice(["", "", "", "u8", "u8", "0", "1", "std::primitive::u8", "::std::primitive::u8"])
        c = r.random()
        if c < 0.4:
            opt = ""
        elif c < 0.4 + regexes:
            t = random_regex(r).replace("/", "\\/")
            if not raw:
                t = t.replace("\\", "\\\\").replace('"', '\\"')
            opt = ":/" + t + "/"
        else:
            opt = ":" + r.choice(["x", "o", "b", "#x", "x#", "b#", "#o", "r2", "r36", "r16", "r37", "r1", "r0", "r+8", "r08", "r008", "r256", "r-2", "r", "r8 ", " r8", "r 8", "X", "R8", "xx", "#", "##x",
                                  "x ", " x", "# x", "x:", ":x", "?", "d", "\u00a0x", "ｘ", "r８", "1", "//x", "/"])
        o.append("{" + nm + opt + "}")
    t = "".join(o)
    if r.random() < 0.25 and (raw or "\\" not in t):
        i = r.randint(0, len(t))
        t = t[:i] + r.choice(["{", "}", ":", "/", "#", "", "", "{{", "}}", " "]) + t[i + r.randint(0, 1):]
    return t if '"' not in t or not raw else t.replace('"', "'")


def soups(chk, n, regexes=0.3):
    return [("soup%d" % k, raw, "", "", sorted({random_format(chk.rng, raw, regexes) for _ in range(n)}), 1) for k, raw in enumerate([False, True])]


def run_accepted(chk, name, formats, arg="u8"):
    """the accepted formats (format, raw, number of arguments) mean what the specification says"""
    p = Program()
    for f, raw, n in formats:
        plain = re.sub(r"\{[^{}]*\}", "1", f.replace("{{", "\1").replace("}}", "\2")).replace("\1", "{").replace("\2", "}")
        if not raw:
            plain = plain.replace("\\u{7b}", "{").replace("\\x7d", "}").replace("\\n", "\n").replace("\\\\", "\\")
        r = chk.rng
        p.site(f, [arg] * n, sorted({plain, f, "", "1", plain.upper(), mutate(plain, r), mutate(plain, r), mutate(plain, r, alpha="1{}:/ux")}), raw=raw)
    conform(chk, p, name)


def literals(chk):
    """every kind of token in the place of a format"""
    other = {"char": "'5'", "number": "5", "float": "1.5", "true": "true", "ident": "FMT", "path": "self::FMT", "concat": 'concat!("{}", "")', "paren": '("{}")', "block": '{ "{}" }', "neg": "-5", "array": '["{}"]'}
    decl = {"struct": "#[sscanf(%s)] struct Q(u8);", "struct-format": "#[sscanf(format = %s)] struct Q(u8);", "struct-unescaped": "#[sscanf(format_unescaped = %s)] struct Q(u8);",
            "variant": "enum Q { #[sscanf(%s)] A(u8), #[sscanf(\"b\")] B }", "variant-format": "enum Q { #[sscanf(format = %s)] A(u8), #[sscanf(\"b\")] B }"}
    call = {"sscanf": 'sscanf!("5", %s, u8)', "unescaped": 'sscanf_unescaped!("5", %s, u8)', "get_regex": "sscanf_get_regex!(%s, u8)"}
    out = []
    for k, x in enumerate(run_tlc(chk, "Literal")[0]):
        t = other.get(x["prefix"]) or x["prefix"] + "#" * x["hashes"] + '"{}"' + "#" * x["hashes"] + x["suffix"]
        f = "$f" if x["route"] != "direct" else t
        c = "let _ = %s;" % (call[x["place"]] % f) if x["place"] in call else "#[derive(FromScanf)] " + decl[x["place"]] % f
        code = "fn l%d() { %s }" % (k, c)
        if x["route"] != "direct":
            code = "macro_rules! l%d { ($f:%s) => { %s } } l%d!(%s);" % (k, x["route"], code, k, t)
        out.append(Case("literal %s, %s: %s" % (t, x["route"], c), code, "ok" if x["ok"] else "later"))
    return out


@check
def c04(chk):
    frames = [f[:5] + (f[5] + THOROUGH,) for f in FRAMES] + soups(chk, 8000 if THOROUGH else 900)
    seen = grammars(chk, frames)
    cases, total, accepted = [], {}, []
    for f in frames:
        cs, kinds = grammar_cases(seen[f[0]], f[1])
        cases += cs
        good = sorted((t, f[1], v["nargs"]) for t, v in seen[f[0]].items() if v["ok"])
        accepted += chk.rng.sample(good, min(len(good), 500 if THOROUGH else 25))
        for k, n in kinds.items():
            total[k] = total.get(k, 0) + n
    chk.log("formats:", total)
    compile_cases(chk, "grammar", cases)
    chk.cov["verdicts"] = total
    for c in chk.rng.sample(cases, 8):
        chk.sample("%s: %s" % (c.key, c.expect))
    compile_cases(chk, "literals", literals(chk), items=['const FMT: &str = "{}";'])
    run_accepted(chk, "accepted", accepted)


@check
def c05(chk):
    t = THOROUGH
    frames = [
        ("ordinary", False, "", "", ["{", "}", ":", "u8", "漢", "0", "5"], 4 + t, "u8", 0),
        ("raw", True, "漢é{{", "}", ["{", "}", ":", "/", "x#", "🦀", "("], 4 + t, "u8", 0),
        ("hashes", True, "a\"#ä{}", "ö", ["{", "}", ":", "r99", "/", "漢", "7"], 3 + t, "::std::primitive::u8", 1),
        ("escaped", False, "\\u{e9}\\\"漢\\t\\\\", "", ["{", "}", ":", "/[", "#", "\\n", "\\\"", "é"], 3 + t, "u8", 1),
        ("options", True, "🦀{", "}🦀", ["u8", ":", "x", "#", "r1", "std::primitive::u8", "0", "漢", "2"], 3 + t, "u8", 0),
        ("closing", True, "{u8:/a", "", ["/", "}", "漢", "é", " ", "{", "\\"], 4 + t, "u8", 0),
        ("long", True, "漢é a" * 70, "", ["{", "}", ":", "u8", "/", "🦀"], 3 + t, "u8", 0),
        ("several", False, "", "", ["{}", "{3}", "{1}", "ä", "{0:#}", "{bool:x}", "{漢 }"], 4 + t, "&str", 1)]
    cases, total = [], {}
    for arg, extra in sorted({f[6:] for f in frames}):
        fs = [f[:6] for f in frames if f[6:] == (arg, extra)] + (soups(chk, 4000 if t else 500) if (arg, extra) == ("u8", 0) else [])
        seen = grammars(chk, fs, arg, extra)
        for f in fs:
            bad = {t: v for t, v in seen[f[0]].items() if not v["ok"]}
            cs, kinds = grammar_cases(bad, f[1], True, arg, forms=CALLS)
            cases += [c for c in cs if c.errs is not None]
            for k, n in kinds.items():
                total[k] = total.get(k, 0) + n
    # formats of derived types, of every kind
    from derives import bindings, derive_case
    structs = [variant("Q", "", fs, shape=s) for fs, s in [([], "unit"), ([field("a", "u8"), field("漢", "String")], "named"), ([field("", "char"), field("", "i8", "default")], "tuple")]]
    for k, tokens in enumerate([["{", "}", "a", ":", "漢", "x", "/", "{}"], ["{}", "{", "}", "{漢:/(é)/}", "{a:r99}", "{0:/[/}", "{漢}", "é🦀", "{:x#}", "{1"]]):
        p, res = bindings(chk, structs, tokens, (4 if k == 0 else 3) + t, "derived%d" % k)
        res = [x for x in res if any(e["at"] == "format" for e in x[2]["errs"])]
        for si, f, v in res if t else chk.rng.sample(res, min(len(res), 2500)):
            for e in v["errs"]:
                total[e["kind"]] = total.get(e["kind"], 0) + 1
            cases.append(derive_case(p, si, f, v, chk.rng.random() < 0.5, chk.rng))
    chk.log("rejected formats:", total)
    compile_cases(chk, "marks", cases)
    on_nightly(chk, "spans", cases, 4000)
    chk.cov["verdicts"] = total
    for c in chk.rng.sample(cases, 8):
        chk.sample("%s marks %s" % (c.key, c.errs))


# ------------------------------------------------------------------------------------------------ helpers
def randoms(chk, prog, n, api="sscanf", **kw):
    """adds call sites of the random generator to a program of the random generator"""
    for _ in range(n):
        prog.site(api=api, **kw)


def random_gen(chk, types=(2, 1, 4, 3), **kw):
    g = Gen(chk.rng, **kw)
    g.types(*types)
    return g


def deepen(chk, name, make, budget=480):
    """thorough tier: further programs of the generator until the time is used up"""
    k, t = 0, time.time()
    while THOROUGH and not chk.violations and time.time() - t < budget:
        k += 1
        conform(chk, make(), "%s_%d" % (name, k))
        for n, kind in (("%s_%d" % (name, k), "debug"), ("%s_%d_ship" % (name, k), "shipping")):
            shutil.rmtree(os.path.join(chk.dir, n), ignore_errors=True)
            for f in ("", ".d"):
                b = os.path.join(BUILD, "target", kind, n + f)
                if os.path.exists(b):
                    os.remove(b)
    if THOROUGH:
        chk.cov["random_programs"] = k


def name(chk, s):
    return chk.prop.lower() + "_" + s


# ------------------------------------------------------------------------------------------------ C01
UNICODE = "äßéΩжñ漢字あ🦀€\u00a0\u2028\u3000\ufeffﬁſK\u0301"


def literal_forms(c, r):
    """every way to write the character in an ordinary literal, and in a raw one: (source, raw)"""
    out = []
    d = c + c if c in "{}" else c
    if c not in '\r\0' and (ord(c) >= 32 or c in "\n\t"):
        out.append((d, True))
        if c not in '\\"':
            out.append((d, False))
    short = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\\": "\\\\", '"': '\\"', "'": "\\'"}
    if c in short:
        out.append((short[c], False))
    if ord(c) < 128:
        out.append(("\\x%02x" % ord(c), False))
        out.append(("\\x%02X" % ord(c), False))
    out.append(("\\u{%x}" % ord(c), False))
    out.append(("\\u{%04X}" % ord(c), False))
    return out


@check
def c01(chk):
    r = chk.rng
    p = Program()
    confusing = "aA.\\*+?()|[]{}^$ \nn0xu/#"
    chars = [chr(k) for k in range(128)] + list(UNICODE)
    for c in chars:
        forms = literal_forms(c, r)
        for src, raw in forms if THOROUGH else r.sample(forms, min(len(forms), 2)):
            pre, post = r.choice([("", ""), ("a", "b"), ("", "{u8}"), ("{u8}", ""), ("(", ")"), ("é", "x")])
            val = [x.replace("{u8}", "7") for x in (pre, post)]
            good = val[0] + c + val[1]
            ins = {good, good + "\n", "\n" + good, good + good, good.swapcase(), val[0] + val[1], src, val[0] + src + val[1], "",
                   val[0] + c + c + val[1], val[0] + " " + c + val[1]}
            for o in r.sample(confusing + c, 5):
                ins |= {val[0] + o + val[1], val[0] + c + o + val[1]}
            p.site(pre + src + post, [], sorted(ins), raw=raw)
    # all inputs up to a length over the characters that the literal could be mistaken for
    for fmt, raw, alpha in [("a.b", True, "ab.\n"), ("(a|b)", True, "ab(|)"), ("a*", True, "a*b"), ("^a$", True, "^a$"), ("\\.", True, "\\.a"),
                            ("[a-b]", True, "[]-ab"), ("a{{2}}", True, "a{}2"), ("a\\tb", False, "ab\\t\t"), ("(?i:a)", True, "(?i:)aA"),
                            ("a?", False, "a?b"), ("\\n", False, "\n\\n"), ("\\\\n", False, "\n\\n"), ("\\d+", True, "\\d+1"), ("a b", False, "ab \t"),
                            ("ab\\\n   c", False, "abc \n"), ("{{}}", False, "{}a"), ("}}{{", True, "{}a"), ("{{{{", True, "{"), ("$^", True, "$^\n"),
                            ("a\n", True, "a\n"), ("Straße", False, ["S", "s", "traß", "trass", "e"]), ("Kſ", True, "KkKſsS"), ("", True, "a\n"),
                            ("{{{u8}}}", True, "{}1"), ("{{u8}}", True, ["{", "}", "u8", "1"]), ("/{u8}#", True, "/#1")]:
        p.site(fmt, [], api="sscanf", raw=raw, alpha=list(alpha), maxlen=min(6, 5 if len(alpha) < 4 else 4) + THOROUGH)
    # the same text in derived types
    for k, t in enumerate(["a.b|c", "^$", "(x)", "[a]*", "a\\b", "é漢+", "{}", "\t\"'"]):
        for raw in (True, False):
            n = "L%d%s" % (k, "r" if raw else "o")
            src = lit_src(t, raw, r)
            p.struct(n, src, [], raw=raw, shape="unit", short=not raw)
            p.enum("E" + n, [variant("A", src, [], raw=raw), variant("B", src + "B", [], raw=raw)])
            ins = sorted({t, t + t, t[:-1], t + "\n", "\n" + t, t + "B", t.upper(), "ab", "a", "", src, mutate(t, r), mutate(t, r)})
            p.site("{%s}" % n, [], ins)
            p.site("{}", ["E" + n], ins, raw=True)
    # every sequence of the things an ordinary literal can contain; what they could be taken for
    toks = {"a": ["a"], "\\\n": ["", "\n", "\\\n"], "\n": ["\n", ""], " ": [" ", ""], "\t": ["\t", ""], "\\x20": [" ", "x20", ""], "\\u{6_1}": ["a", "u{6_1}", ""],
            "\\\\": ["\\", "", "\\\\"], "\\n": ["\n", "n"], "é": ["é"], "\\\"": ['"', '\\"'], "{{": ["{", "{{"]}
    seqs = [x for n in (1, 2, 3) for x in itertools.product(sorted(toks), repeat=n)]
    for x in seqs if THOROUGH else seqs[:len(toks) * (len(toks) + 1)] + r.sample([x for x in seqs if len(x) == 3 and "\\\n" in x], 150) + r.sample(seqs, 100):
        ins = {"".join(y) for y in itertools.product(*(toks[t] for t in x))}
        end = r.choice(["", "", "{u8}", "b"])
        p.site("".join(x) + end, [], sorted(y + end.replace("{u8}", "7") for y in (ins if len(ins) < 12 else set(r.sample(sorted(ins), 9)) | {"".join(toks[t][0] for t in x)})), raw=False)
    # random formats with several literals
    def random_sites(q, n):
        for _ in range(n):
            raw = r.random() < 0.5
            ps = []
            for _ in range(r.randint(1, 3)):
                ps += ["".join(r.choice(LITS + list(UNICODE)) for _ in range(r.randint(0, 3))), Ph(r.choice(["u8", "i16", "str", "char", "String", "bool"]))]
            ps = [x for x in ps + [r.choice(LITS)] if x != ""]
            q.site(fmt_src(ps, raw, r), [x.ty for x in ps if isinstance(x, Ph)], inputs_for(q, ps, r, 4, 8), raw=raw)
        return q
    random_sites(p, 40)
    conform(chk, p, name(chk, "literals"))
    # long ones
    q = Program()
    for n in (63, 64, 127, 128, 255, 256, 257, 300) + ((511, 512, 600) if THOROUGH else ()):
        for raw in (True, False):
            t = "".join(r.choice("ab1.*(\\é漢{}") for _ in range(n))
            ins = {t, t + "a", "a" + t, t[:-1], t[1:], t + t, t[:n // 2] + t[n // 2 + 1:]} | {t[:k] + "#" + t[k + 1:] for k in (0, n // 2, n - 1, r.randrange(n))}
            q.site(lit_src(t, raw, r), [], sorted(ins), raw=raw)
            q.site(lit_src(t, raw, r) + "{u8}", [], sorted(i + j for i in ins for j in ("7", "777", "")), raw=raw)
    conform(chk, q, name(chk, "long"))
    deepen(chk, name(chk, "more"), lambda: random_sites(Program(), 300))


# ------------------------------------------------------------------------------------------------ C02
@check
def c02(chk):
    r = chk.rng
    alts = [("alt", [("lit", "a"), ("seq", [("lit", "a"), ("lit", "1")])]), ("rep", ("set", [("a", "b")], False), 1, None, True),
            ("rep", ("lit", "a"), 0, None, False), ("rep", ("cls", "w"), 1, 2, False), ("alt", [("lit", "1"), ("lit", "a"), ("rep", ("dot",), 0, None, True)])]

    def sites(p, n, maxlen):
        for _ in range(n):
            k = r.choice([1, 2, 2, 3, 3, 4])
            ps = []
            for i in range(k + 1):
                lit = r.choice(["", "", "", "a", "1", "-", "aa", "1a", "-1"])
                if lit:
                    ps.append(lit)
                if i < k:
                    t = r.choice(["str", "str", "&str", "String", "Cow<str>", "u8", "i8", "u16", "char", "PathBuf", "rx", "rx", "f32", "bool", "user"])
                    if t == "rx":
                        ps.append(Ph(r.choice(["str", "String", "&str"]), None, "", r.choice(alts)))
                    elif t == "user":
                        ps.append(Ph(r.choice(["UA", "UB"])))
                    else:
                        ps.append(Ph(t))
            raw = r.random() < 0.5
            args = []
            for q in ps:
                if isinstance(q, Ph):
                    if r.random() < 0.5:
                        args.append(q.ty)
                        q.ty_arg = q.ty
                        q.name = None
                    else:
                        q.name = q.ty
            p.site(fmt_src(ps, raw, r), args, raw=raw, alpha=["a", "1", "-"], maxlen=maxlen)
            if r.random() < 0.3:
                p.sites[-1]["alpha"] = ["a", "1", r.choice(["\n", ".", "é", "tru", "true", "x", "aa1"])]
        return p

    def program(n, maxlen):
        p = Program()
        p.user("UA", "a|ab|1")
        p.user("UB", "[a1]??|--?")
        return sites(p, n, maxlen)

    def neighbours(p, n):
        """every kind of placeholder next to others, without text in between"""
        p.struct("SA", "{a}{b}", [field("a", "u8"), field("b", "char")])
        p.names["SA"]["sampler"] = lambda r: "%d%s" % (r.randint(0, 300), r.choice("ab1"))
        p.enum("EA", [variant("X", "1{}", [field("", "u8")]), variant("Y", "a", []), variant("Z", "ab", []), variant("W", "{}", [field("", "String")])])
        p.names["EA"]["sampler"] = lambda r: r.choice(["1%d" % r.randint(0, 99), "a", "ab", "b1"])
        p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "1"])
        kinds = [(t, "") for t in list(INTS) + list(NZ) + ["f32", "f64", "bool", "HexNumber", "SA", "EA", "UA", "PathBuf", "char", "String", "str", "Cow<str>"]]
        kinds += [(t, o) for t in INTS for o in ("x", "o", "b", "#x", "b#", "#o", "r%d" % r.randint(2, 36), "r%d" % r.randint(11, 36))]
        r.shuffle(kinds)
        for t, o in kinds[:n]:
            ps = [Ph(t, None, o)]
            for _ in range(r.choice([1, 1, 2])):
                u, v = r.choice([("str", ""), ("str", ""), ("String", ""), ("char", ""), r.choice(kinds), (t, o)])
                ps.insert(r.choice([1, 1, len(ps), 0]), Ph(u, None, v))
            ins = set()
            for _ in range(7):
                x = sample_pieces(p, ps, r)
                ins |= {x, x + r.choice("0123456789afz.")}
            ins = {x for x in ins if len(x) < 90} | {mutate(min(ins, key=len), r, "0123456789afxz+-.") for _ in range(3)}
            p.site(fmt_src(ps, True, r), [q.ty for q in ps], sorted(ins))
        return p
    conform(chk, neighbours(program(90, 5), 130), name(chk, "splits"))
    deepen(chk, name(chk, "more"), lambda: neighbours(program(100, r.choice([5, 6])), 100))


# ------------------------------------------------------------------------------------------------ C06
def int_inputs(t, r, full):
    lo, hi = int_range(t)
    d = len(str(max(hi, -lo)))
    s = set()
    for n in (lo, hi, 0, 1, -1, hi // 2, hi // 10, -(hi // 10), 10 ** (d - 1), 10 ** (d - 1) - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 127):
        for k in (-11, -10, -2, -1, 0, 1, 2, 9, 10):
            s.add(str(n + k))
    out = set()
    for x in s:
        out.add(x)
        if not x.startswith("-"):
            out.add("+" + x)
    out |= {str(10 ** k) for k in range(d + 2)} | {"9" * k for k in range(d + 3)} | {"0" * k for k in range(d + 3)}
    out |= {"0" * (d - len(x)) + x for x in ("1", "9", "10", str(hi)) if len(x) <= d} | {"-" + "0" * k for k in (1, d - 1, d, d + 1)} | {"-" + "9" * k for k in range(d - 2, d + 3)}
    out |= {"-" + "0" * (d - 1) + "7", "+" + "0" * d + "7", "0" * d + "1"}
    for x in (str(hi), str(lo), "5", "12"):
        for _ in range(4):
            out.add(mutate(x, r, "0159-+ _.e\nx"))
    out |= {"", "+", "-", "--1", "++1", "+-1", "-+1", " 1", "1 ", "1_0", "1.0", "1e1", "0x1", "٣", "1٣", "１", "a", "1\n", "−1"}
    return sorted(out) if full else r.sample(sorted(out), min(len(out), 90))


@check
def c06(chk):
    r = chk.rng
    p = Program()
    for t in list(INTS) + list(NZ):
        small = int_range(t)[1] < 256
        p.site("{}", [t], int_inputs(t, r, THOROUGH or small))
        p.site("{%s}" % t, [], api="sscanf", alpha=["0", "1", "9", "+", "-", "25"] if small else ["0", "9", "+", "-"], maxlen=3 + small + THOROUGH)
        if small:
            lo, hi = int_range(t)
            p.site("<{}>", [t], ["<%d>" % n for n in range(min(lo, -3) - 8, hi + 60)])
        # next to digits and signs, where the number of digits decides what is taken
        lo, hi = int_range(t)
        d = len(str(hi))
        p.site("{}{u8}", [t], ["%d%d" % (hi, 5), "9" * (d + 1), "1" * (d + 2), "1" * (d + 3), "1" * (d + 4), "+1+1", "-1+1", "-1-1", "10", "%d%s" % (lo, "255"), "0" * d + "12"])
        # in a field
        p.struct("F" + t, "[{a}]", [field("a", t)])
        p.site("{F%s}" % t, [], ["[%s]" % x for x in r.sample(int_inputs(t, r, True), 12)])
    conform(chk, p, name(chk, "integers"))

    def more():
        q = Program()
        for t in list(INTS) + list(NZ):
            q.site("{}", [t], sorted({sample_int(t, r) for _ in range(60)} | {mutate(sample_int(t, r), r) for _ in range(40)} | {str(r.getrandbits(r.randint(1, 130))) for _ in range(60)}))
        return q
    deepen(chk, name(chk, "more"), more)


# ------------------------------------------------------------------------------------------------ C03
@check
def c03(chk):
    r = chk.rng
    alphabet = ["{}", "{0}", "{1}", "{2}", "{u8}", "{std::primitive::char},", "{&str}", "{+1:r3}", "-{02}", "{:x}"]
    cases, total, good = [], {}, []
    lists = [[], ["u8"], ["u8", "char"], ["u8", "char", "&str"], ["&str", "u8", "u8"], ["u16", "bool", "u16", "String"]]
    # many types: one of them without a placeholder, too many placeholders, an index just out of range
    texts = [alphabet] * len(lists)
    for n in [15, 33, 64, 65, 128, 129, r.choice([256, 257])]:
        lists.append([r.choice(["u8", "char", "&str", "i64", "bool"]) for _ in range(n)])
        order = r.sample(range(n), n)
        gap, twice = order[0], order[1:] + [r.choice(order[1:])]

        def some(ks):
            return "".join("{%d}" % k for k in ks)
        texts.append(["{}" * (n - 1), "{}" * n, "{}" * (n + 1), some(order), some(order[1:]), some(order[2:]), some(twice), some(order + [n]), some([n] + order), some(order[1:] + [n]),
                      "{}" * gap + some(range(gap + 1, n)), "{}" * n + some([r.randrange(n)]), "{}" * (n - 2) + some([n - 1]), "{}" * (n - 2) + some([n - 1, n - 2]), "{}" * n + "{}" + some([n])])
    res = parallel([lambda a=a, k=k: grammars(chk, [("args%d" % k, True, "", "", texts[k], (3 if k else 2) + THOROUGH if texts[k] is alphabet else 1)], args=a) for k, a in enumerate(lists)], 4)
    for k, (a, seen) in enumerate(zip(lists, res)):
        seen = seen["args%d" % k]
        bad = [t for t, v in seen.items() if not v["ok"]]
        ok = {t: v for t, v in seen.items() if v["ok"]}
        few = {t: seen[t] for t in (bad if THOROUGH else r.sample(sorted(bad), min(len(bad), 500)))}
        cs, kinds = grammar_cases(dict(ok, **few), True, True, "u8", fixed=a)
        cases += cs
        for q, n in kinds.items():
            total[q] = total.get(q, 0) + n
        good += [(t, a) for t in sorted(ok) if texts[k] is alphabet]
    chk.log("formats:", total, "accepted:", len(good))
    chk.cov["verdicts"] = total
    compile_cases(chk, "args", cases)
    on_nightly(chk, "spans", cases, 1500)
    p = Program()
    vals = {"u8": "7", "u16": "12", "char": "é", "&str": "ab", "String": "q r", "bool": "true", "std::primitive::char": "x"}
    for t, a in (good if THOROUGH else r.sample(good, min(len(good), 300))):
        def sub(m, it=iter(a)):
            n, _, o = m.group(1).partition(":") if "::" not in m.group(1) else (m.group(1), "", "")
            ty = next(it) if n == "" else a[int(n)] if n.lstrip("+").isdigit() else n
            return {"x": "0x1F", "r3": "21"}.get(o) or vals[ty]
        s = re.sub(r"\{([^{}]*)\}", sub, t)
        p.site(t, a, sorted({s, mutate(s, r), mutate(s, r), s.replace("7", "8", 1), "7" + s}), raw=True)
    # many types, many indices
    kinds = [k for k in INTS if k != "i8"] + ["char", "bool", "f64", "&str", "String"]
    for k in range(36):
        a = r.sample(kinds, r.randint(3, 6) if k % 6 else r.randint(11, 14))
        toks = [("", None)] * len(a)
        for _ in range(r.randint(1, 4)):
            toks.append((str(r.randrange(len(a))), None))
        r.shuffle(toks)
        it = iter(range(len(a)))
        s, f = "", ""
        for n, _ in toks:
            ty = a[int(n)] if n else a[next(it)]
            f += "{%s}," % n
            s += sample_builtin(ty, r) + ","
        p.site(f, a, sorted({s, mutate(s, r)}))
    for n in [12, 13, 17, 20, 33, 40, 65, 100, 129, 150] + ([256, 257, 300] if THOROUGH else [r.choice([256, 257])]):
        for _ in range(2 if n < 100 else 1):
            large_call(p, r, n)
    conform(chk, p, name(chk, "assigned"))


# ------------------------------------------------------------------------------------------------ C07
def radix_inputs(t, b, opt, r, n):
    lo, hi = int_range(t)
    pre = {"x": "0x", "o": "0o", "b": "0b"}.get(opt.strip("#"), "")
    digits = len(to_radix(max(hi, -lo), b))
    body = set()
    for v in {lo, lo + 1, lo - 1, hi, hi - 1, hi + 1, 0, 1, -1, hi + hi + 2, hi // b, -(hi // b), b - 1, b, b ** (digits - 1), b ** (digits - 1) - 1, b ** digits - 1, b ** digits}:
        body.add(to_radix(v, b))
    body |= {"0" * digits, "0" * (digits + 1), "0" * (digits - 1) + "1", "1" + "0" * digits}
    for d in {b - 1, b, b + 1, 9, 10, 35}:
        if d < 36:
            body |= {DIG[d], "1" + DIG[d]}
    body |= {chr(ord(DIG[b - 1]) + 1), "", "_", "1_1", "{", "/", ":", "@", "`"}
    out = set()
    for x in body:
        neg = x.startswith("-")
        y = x.lstrip("-")
        for p in {"", pre, pre.upper(), pre.replace("0", ""), "0" + pre, pre + pre} if pre else {"", "0x"}:
            for s in ("-",) if neg else ("", "+"):
                out.add(s + p + y)
                out.add((s + p + y).upper())
    out |= {"-" + pre, "+", pre + "-1", pre + "+1", "--1", "- 1", "0x", "0X1", "0b1", "0o7", "1\n", "ſ", "K", "0xK"}
    out = sorted(out)
    return out if len(out) <= n else r.sample(out, n)


@check
def c07(chk):
    r = chk.rng
    p = Program()
    todo = [(t, "r%d" % b, b) for b in range(2, 37) for t in (INTS if THOROUGH else r.sample(sorted(INTS), 4))]
    todo += [(t, o, {"x": 16, "o": 8, "b": 2}[o.strip("#")]) for t in INTS for o in ("x", "o", "b", "#x", "#o", "#b", "x#", "o#", "b#")]
    for t, o, b in todo:
        ins = radix_inputs(t, b, o, r, 200 if THOROUGH else 45)
        if r.random() < 0.3:
            p.site("{%s:%s}" % (t, o), [], ins)
        else:
            p.site("{:%s}" % o, [t], ins)
    # every short text
    for t, o in [("u8", "x"), ("i8", "x"), ("u8", "#x"), ("i8", "b"), ("u8", "o#"), ("i8", "r16"), ("u8", "r36"), ("i8", "r3")]:
        p.site("{:%s}" % o, [t], alpha=list({"x": "0x1fF-+", "b": "0b1B2+-", "o": "0oO78-+"}.get(o.strip("#"), "0zZ2-+g")), maxlen=4 + THOROUGH)
    # next to other text, and in fields
    for k in range(30):
        t, o, b = r.choice(todo)
        n = "R%d" % k
        p.struct(n, r.choice(["<{a:%s}>", "{a:%s}z", "0{a:%s}", "{a:%s}"]) % o, [field("a", t)])
        f = p.names[n]["variants"][0]["fmt"]
        p.site("{}{str}", [n], sorted({f.replace("{a:%s}" % o, x) + y for x in radix_inputs(t, b, o, r, 8) for y in ("z", "1", " x")}))
    conform(chk, p, name(chk, "radix"))

    def more():
        q = Program()
        for t, o, b in r.sample(todo, 100):
            q.site("{%s:%s}" % (t, o), [], sorted({sample_int(t, r, b, o) for _ in range(40)} | {mutate(sample_int(t, r, b, o), r, "0123789abfgzxXoO+-") for _ in range(40)}))
        return q
    deepen(chk, name(chk, "more"), more)


# ------------------------------------------------------------------------------------------------ C08
@check
def c08(chk):
    r = chk.rng

    def regexes(p, n, m):
        for _ in range(n):
            rx = gen_rx(r, r.randint(1, 4), r.choice(["abx1", "ab", "a/1", "1 0", "é漢a"]), anchors=r.random() < 0.15)
            ty = r.choice(["str", "&str", "String", "Cow<str>", "PathBuf", "UA", "char", "u8", "i32", "f64", "bool", "NonZeroU8"])
            pre, post = r.choice(["", "", "a", "1", "<", "|"]), r.choice(["", "", "b", "1", ">", "|", "{u8}", "{str}"])
            raw = r.random() < 0.5
            tail = [Ph(post[1:-1], post[1:-1])] if post.startswith("{") else [post] if post else []
            byname = r.random() < 0.4
            ps = ([pre] if pre else []) + [Ph(ty, ty if byname else None, "", rx)] + tail
            kind = r.random()
            if kind < 0.25 and ty not in ("str",):
                n_ = "X%d" % len(p.types)
                ps[len(ps) - len(tail) - 1].name = "a" if byname else None
                p.struct(n_, fmt_src([q for q in ps if q not in tail or isinstance(q, str)], raw, r), [field("a", fieldable(ty))], raw=raw)
                p.site("{}", [n_], inputs_for(p, [q for q in ps if q not in tail or isinstance(q, str)], r, m, m))
            else:
                p.site(fmt_src(ps, raw, r), [] if byname else [ty], inputs_for(p, ps, r, m, m), raw=raw)
                if kind > 0.8:
                    p.sites[-1].update(inputs=[], alpha=["a", "b", "1", "x", "/"][:r.randint(3, 5)], maxlen=4)
        return p

    def program(n, m):
        p = Program()
        p.user("UA", "[ab]+|x1?")
        p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "x", "x1"])
        return regexes(p, n, m)
    p = program(170, 7)
    # every way to write special characters
    for src, raw, ins in [(r"{:/a\/b/}", True, ["a/b", r"a\/b", "ab", "a"]), (r"{:/a\\/b/}", False, ["a/b", r"a\/b", "ab"]),
                          (r"{:/\\d+/}", False, ["12", r"\d", "d"]), (r"{:/\d+/}", True, ["12", r"\d", "d"]), (r"{:/\\/}", True, ["\\", "\\\\", ""]),
                          (r"{:/\\\\/}", False, ["\\", "\\\\", ""]), (r"{:/\n/}", False, ["\n", "n", "\\n"]), (r"{:/\n/}", True, ["\n", "n", "\\n"]),
                          (r"{:/\\n/}", False, ["\n", "n", "\\n"]), (r"{:/\t\r/}", False, ["\t\r", "tr"]), (r'{:/\"/}', False, ['"', '\\"']),
                          (r"{:/\'/}", False, ["'", "\\'"]), ("{:/'/}", False, ["'"]), (r"{:/\./}", True, [".", "a"]), (r"{:/\\./}", False, [".", "a", "\\a"]),
                          (r"{:/\\\//}", True, ["/", "\\/", "\\"]), (r"{:/\\\\\\//}", False, ["/", "\\/", "\\"]), (r"{:/\ba\B.\b/} b", True, ["ab b", "a  b", "a- b"]), (r"{:/\Aa\z/}", True, ["a", "a\n"]), (r"b{:/\Aa|c\b/}{str}", True, ["bax", "bcx", "bc x"]), (r"{:/[/]/}", True, ["/"]) if False else (r"{:/[\/]/}", True, ["/", "\\"]),
                          (r"{:/a{2}/}", True, ["aa", "a", "a2"]), (r"{:/a{1,2}?/}{str}", True, ["aaa", "a", "aa"]), (r"{:/}/}", True, ["}", "{", ""]),
                          (r"{:/a|b/}c", True, ["ac", "bc", "a", "bc", "abc"]), (r"c{:/a|b/}", True, ["ca", "cb", "a", "b"]), (r"{:/(?i)a/}b", True, ["ab", "Ab", "aB", "AB"]),
                          (r"{:/(?i:a)b/}b", True, ["abb", "Abb", "aBb"]), (r"{:/(?x)a b/} c", True, ["ab c", "a b c", "abc"]) if False else (r"{:/a b/} c", True, ["a b c", "ab c"]),
                          (r"{:/^a$/}", True, ["a", "a\n"]), (r"{:/a*/}{:/a*/}", True, ["", "a", "aaa"]), (r"{:/a*?/}{:/a*/}", True, ["", "a", "aaa"]), (r"{:/(?s:.)/}", True, ["\n", "a", "é"]),
                          (r"{:/(?s).*/}.", True, ["\n.", "a", "a\nb."]), (r"{:/\p/}", True, []) if False else (r"{:/\w+/}", True, ["aé_1", "-", "漢"]), (r"{:/\s\S/}", True, [" a", "  ", "\u00a0x", "\ta"])]:
        k = src.count("{:")
        if ins:
            p.site(src, ["&str"] * k, sorted(set(ins)), raw=raw)
    conform(chk, p, name(chk, "regexes"))
    # every short sequence of pieces that mean something at the ends of a regex, as a regex in the middle of a format
    toks = {"a": "a", "b": "b", "^": "", "$": "", "\\^": "^", "\\$": "$", "|": "", "a*": "aa", "(?i)": "", "(?:a|b)": "b", "[^a]": "b", ".": "b", "\\b": "", "\\\\": "\\", "(?:^|b)": "b"}
    seqs = [x for n in (1, 2, 3) for x in itertools.product(toks, repeat=n)]
    short = [x for x in seqs if len(x) < 3]
    q = Program()
    for x in seqs if THOROUGH else short + r.sample(seqs[len(short):], 250):
        good = "".join(toks[t] for t in x)
        for pre, post in {("", ""), r.choice([("a", ""), ("", "b"), ("a", "b")]), r.choice([("", "{str}"), ("{str}", ""), ("b", "{char}")])}:
            u = r.choice(["a", "x", "^"])
            w = [post.replace("{str}", u).replace("{char}", u), pre.replace("{str}", u)]
            ins = {g for g in [w[1] + good + w[0], w[1] + good.upper() + w[0], w[1] + good[1:] + w[0], w[1] + good + good + w[0], w[1] + "^" + good + w[0],
                               w[1] + w[0], w[1] + "a" + w[0], w[1] + good[:-1] + "a" + w[0], w[1] + good + "$" + w[0], "a" + w[1] + good + w[0], w[1] + good + w[0] + "b"]}
            q.site(pre + "{:/" + "".join(x) + "/}" + post, ["str"], sorted(ins), raw=True)
    conform(chk, q, name(chk, "ends"))
    # which ones are rejected
    frames = [("regex", True, "{:/", "/}", ["\\", "/", "(", ")", "?:", "?", "a", "*", "[", "]", "|", "{", "2", "}"], 2 + THOROUGH),
              ("group", True, "{:/(", ")/}", ["a", "?", ":", "?:", "(", ")", "|", "?P<n>", "\\", "?i", "\\("], 3 + THOROUGH),
              ("class", True, "{:/[", "]/}", ["[", "]", "-", "a", "^", "&&", "~~", "b", ":", "\\"], 3),
    ("quoted", False, "{:/", "/}", ["\\\\", "\\\"", "\\n", "/", "(", ")", "\\\\("], 3 + THOROUGH)]
    frames += [("soup%d" % k, raw, "", "", sorted({"{:/%s/}" % (t if raw else t.replace("\\", "\\\\").replace('"', '\\"')) for t in [random_regex(r, 0.7).replace("/", "\\/").replace('"', "a" if raw else '"')
                for _ in range(6000 if THOROUGH else 700)]}), 1) for k, raw in enumerate([False, True])]
    seen = grammars(chk, frames, "&str")
    cases, kinds = [], {}
    for f in frames:
        cs, ks = grammar_cases(seen[f[0]], f[1], arg="&str")
        cases += cs
        for x, n in ks.items():
            kinds[x] = kinds.get(x, 0) + n
    chk.cov["verdicts"] = kinds
    chk.log("custom regexes:", len(cases))
    compile_cases(chk, "accepted", cases)
    deepen(chk, name(chk, "more"), lambda: program(200, 10), 300)


# ------------------------------------------------------------------------------------------------ C09
@check
def c09(chk):
    r = chk.rng
    p = Program()
    texts = ["str", "&str", "String", "Cow<str>", "PathBuf", "char"]
    wild = "aé漢🦀\n\r\t\u0085\u2028\u2029\u0000\u00a0\ufeffß \u0301\u200d𐍈\uffff\U0010ffff"
    for t in texts:
        p.site("{}", [t], alpha=["a", "é", "漢", "🦀", "\n", "\r"], maxlen=3 + THOROUGH)
        p.site("{}", [t], sorted(set(wild) | {x + y for x in wild for y in "a\né🦀"} | {"", "a" * 60, "漢" * 40}))
        for u in texts:
            p.site("é{}{}", [t, u], alpha=["é", "🦀", "a", "\n"], maxlen=3 + THOROUGH)
            p.site("{%s}ä{%s}" % (t, u), [], ["".join(r.choice(wild + "ääää") for _ in range(r.randint(0, 9))) for _ in range(25)])
        p.site("漢{}-{u8}🦀", [t], ["漢" + "".join(r.choice(wild) for _ in range(r.randint(0, 4))) + "-%d🦀" % r.randint(0, 300) for _ in range(25)])
        if t != "str":
            p.struct("T" + str(texts.index(t)), "é{a}|{b}", [field("a", t), field("b", "String")])
        if t in ("String", "PathBuf", "char"):
            n = "T" + str(texts.index(t))
            p.site("{}{&str}", [n], ["é" + "".join(r.choice(wild) for _ in range(r.randint(0, 3))) + "|" + "".join(r.choice(wild) for _ in range(r.randint(0, 4))) for _ in range(20)])
        p.site("{:/(?s:.*)/}", [t], sorted({"".join(r.choice(wild) for _ in range(r.randint(0, 4))) for _ in range(25)}))
        p.site("{str}{:/[^a]?/}{str}", [t], sorted({"".join(r.choice("aé\n漢") for _ in range(r.randint(0, 5))) for _ in range(25)}))
    for n, s in [("T1", "&str"), ("T3", "Cow")]:
        p.site("{}", [n], alpha=["é", "|", "🦀", "a"], maxlen=5)
        p.site("é{}{}é", [n, n], ["éé" + "".join(r.choice("é|a漢\n🦀||") for _ in range(r.randint(2, 7))) + "é" for _ in range(60)])
    conform(chk, p, name(chk, "texts"))
    # long ones
    q = Program()
    for t in texts:
        ins = ["".join(r.choice("ab") if r.random() < 0.9 else r.choice(wild) for _ in range(n)) for n in (63, 64, 65, 127, 128, 129, 255, 256, 257) + ((511, 512, 513, 700) if THOROUGH else ())]
        q.site("{}", [t], ins)
        q.site("é{}🦀", [t], ["é" + i + "🦀" for i in ins])
        q.site("{}é{u8}", [t], [i + x for i in ins for x in ("é7", "é", "é7é8")])
    conform(chk, q, name(chk, "long"))

    def more():
        q = Program()
        for _ in range(150):
            ps = []
            for _ in range(r.randint(1, 4)):
                t = r.choice(texts)
                ps += [r.choice(["", "é", "漢", "a", " "]), Ph(t)]
            ps = [x for x in ps if x != ""]
            q.site(fmt_src(ps, True, r), [x.ty for x in ps if isinstance(x, Ph)], sorted({"".join(x if isinstance(x, str) else sample_text(r, 0, 3, wild) for x in ps) for _ in range(20)}), raw=True)
        return q
    deepen(chk, name(chk, "more"), more)


# ------------------------------------------------------------------------------------------------ C10
def around(bits, double):
    """decimal texts at, just below and just above the middle between a float and the next one"""
    w = 64 if double else 32
    def val(b):
        mant, bias = (52, 1023) if double else (23, 127)
        e, m = b >> mant, b & ((1 << mant) - 1)
        return Fraction(m, 1) * Fraction(2) ** (1 - bias - mant) if e == 0 else Fraction((1 << mant) + m, 1) * Fraction(2) ** (e - bias - mant)
    a, b = val(bits), val(bits + 1)
    mid = (a + b) / 2

    def dec(v):
        k, s = 0, ""
        while v.denominator != 1:
            v *= 10
            k += 1
        s = str(v.numerator).rjust(k + 1, "0")
        return s if k == 0 else s[:-k] + "." + s[-k:]
    m = dec(mid)
    up = m + ("1" if "." in m else ".1")
    down = m[:-1] + str(int(m[-1]) - 1) + "9" if m[-1] != "0" and "." in m else None
    return [x for x in (m, up, down, dec(a)) if x and len(x) < 120]


@check
def c10(chk):
    r = chk.rng
    p = Program()
    for t in ("f32", "f64"):
        p.site("{}", [t], alpha=["1", ".", "e", "+", "-", "0", "E5", "inf", "nan"], maxlen=4 + THOROUGH)
        p.site("{}", [t], alpha=["12", "i", "n", "f", "inity", "INF", "a", "-"], maxlen=3 + THOROUGH)
        d = t == "f64"
        ins = set()
        for b in [0, 1, 2, 3, 0x7fffff, 0x800000, 0x800001, 0x3f800000, 0x3f7fffff, 0x7f7fffff, 0x7f7ffffe, 0x4b000000, 0x4b7fffff, 0x4b800000] + [r.getrandbits(31) % 0x7f7fffff for _ in range(60)]:
            if d:
                b = (b >> 23) + 896 << 52 | (b & 0x7fffff) << 29 if r.random() < 0.5 else (1023 + r.randint(-52, 60) << 52) | r.getrandbits(52)
            ins |= set(around(b, d))
        if not d:
            ins |= {"3.4028234e38", "3.4028235e38", "3.4028236e38", "3.40282356e38", "3.40282357e38", "3.4028235677973366e38", "3.4028235677973367e38", "1e-45", "7e-46", "7.1e-46", "1.4e-45", "1.1754943e-38", "1.1754944e-38", "16777217", "16777219", "33554433"}
        ins |= {"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308",
                "9007199254740993", "9007199254740992", "9007199254740991", "0.1", "0.2", "0.30000000000000004", "1e400", "1e-400", "-1e400", "-0", "-0.0", "+0", "0e999", "00001.5000", "1" + "0" * 40, "0." + "0" * 50 + "1", "1e0000005", "1e-0000005",
                "123456789012345678901234567890e-10", "1.e5", ".5e1", "1.", ".", "", "1e", "e1", "1e+", "1.5.5", "1e5.5", "infinit", "INFINITY", "Inf", "NaN", "-nan", "+inf", "-infinity", "in", "1_0", "0x1p3", "1,5", " 1", "1 ", "1\n", "٣", "1f32", "ınf", "ﬁnf", "1e99999", "+-1", "--1", "+.5", "-.5e-3", "1.5E+10", "nan1", "infe5", "1d5"}
        p.site("{}", [t], sorted(x for x in ins if len(x) < 130))
        p.struct("F" + t, "<{}>", [field("", t)])
        p.site("{F%s}" % t, [], ["<%s>" % sample_float(r) for _ in range(25)] + ["<%s>" % mutate(sample_float(r), r, "0.e+-1") for _ in range(25)])
        for fmt in ("{%s}{%s}", "{%s}.{%s}", "{%s}e{%s}", "{%s}{u8}%%{%s}", "{u8}{%s}{%s}", "{%s}{str}{%s}"):
            f = fmt.replace("%%", "%") % (t, t) if "%%" not in fmt else fmt % (t, t)
            p.site(f, [], alpha=["1", ".", "e", "-", "%" if "%" in f else "2"], maxlen=5)
        p.site("{}", [t], sorted({sample_float(r) for _ in range(80)} | {mutate(sample_float(r), r, "0.e+-1infa") for _ in range(80)}))
    conform(chk, p, name(chk, "floats"))

    def more():
        q = Program()
        for t in ("f32", "f64"):
            for _ in range(10):
                ins = set()
                for _ in range(30):
                    b = (1023 + r.randint(-52, 60) << 52) | r.getrandbits(52) if t == "f64" else r.randint(0x30000000, 0x60000000)
                    ins |= set(around(b, t == "f64"))
                ins |= {"%d.%de%d" % (r.randint(0, 99), r.getrandbits(r.randint(1, 60)), r.randint(-330, 310)) for _ in range(60)}
                q.site("{}", [t], sorted(x for x in ins if len(x) < 130))
        return q
    deepen(chk, name(chk, "more"), more)
