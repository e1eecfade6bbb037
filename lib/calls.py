"""Calls: effects, entry points, threads."""
from checks import *

# ------------------------------------------------------------------------------------------------ C17
# what the input may be: (before, expression, after); V is the text
INPUTS = [
    ("let v = String::from(input); rebase(&v);", "v", "assert_eq!(v, input); drop(v);"),
    ("let v = String::from(input); rebase(&v);", "&v", "drop(v);"),
    ("let v = String::from(input); rebase(&v);", "&&v", "drop(v);"),
    ("let v = String::from(input); rebase(&v);", "v.as_str()", "drop(v);"),
    ("let v = String::from(input); rebase(&v);", "v[..]", "drop(v);"),
    ("let v = String::from(input); rebase(&v);", "*v", "drop(v);"),
    ("let mut v = String::from(input); rebase(&v);", "v", "v.push('x');"),
    ("let v = format!(\"é{}\", input); rebase(&v[2..]);", "v[2..]", "drop(v);"),
    ("let v = format!(\"{}é\", input); rebase(&v[..input.len()]);", "&v[..input.len()]", "drop(v);"),
    ("let v = Cow::Borrowed(input);", "v", "assert_eq!(v, input);"),
    ("let v: Cow<str> = Cow::Owned(input.to_string()); rebase(&v);", "v", "drop(v);"),
    ("let v: Box<str> = Box::from(input); rebase(&v);", "v", "drop(v);"),
    ("let v: std::rc::Rc<str> = std::rc::Rc::from(input); rebase(&v);", "v", "assert_eq!(std::rc::Rc::strong_count(&v), 1);"),
    ("let v: std::sync::Arc<str> = std::sync::Arc::from(input); rebase(&v);", "&*v", "drop(v);"),
    ("let v = std::rc::Rc::new(String::from(input)); rebase(&v);", "v", "drop(v);"),
    ("let v = Box::new(String::from(input)); rebase(&v);", "v", "drop(v);"),
    ("let v = Holder { text: String::from(input) }; rebase(&v);", "v", "drop(v.text);"),
    ("let v = Holder { text: String::from(input) }; rebase(&v);", "v.text", "drop(v);"),
    ("let v = [String::new(), String::from(input)]; rebase(&v[1]);", "v[1]", "drop(v);"),
    ("let v = (1, String::from(input)); rebase(&v.1);", "v.1", "drop(v);"),
    ("", "input", ""), ("", "&input", ""), ("", "&&&input", ""), ("", "{ input }", ""), ("", "(input)", ""), ("", "tick_free(input)", "fn tick_free(s: &str) -> &str { s }"),
    ("", "if input.is_empty() { input } else { &input[..] }", ""), ("", "match input.len() { 0 => \"\", _ => input }", ""),
    ("", "loop { break input }", ""), ("", "input.trim_start_matches('\\u{1}')", ""), ("", "Some(input).unwrap()", ""), ("", "unsafe { std::str::from_utf8_unchecked(input.as_bytes()) }", ""),
    ("let f = |s: &'static str| s; let t: &'static str = Box::leak(input.to_string().into_boxed_str()); rebase(t);", "f(t)", ""),
    # names that the expansion may use itself
    ("let src = input;", "src", ""), ("let cap = input;", "cap", ""), ("let matcher = input;", "matcher", ""), ("let res = input;", "res", ""), ("let value = input;", "value", ""),
    ("let re = input; let regex = 1;", "re", "let _ = regex;"), ("let start_len = input;", "start_len", ""), ("let str = input;", "str", ""), ("let e = input;", "e", "")]


def effect_types(g):
    """types whose user code leaves traces"""
    r, p = g.r, g.p
    for _ in range(3):
        g.user()
    g.manual()
    conv = ["map", "filter_map", "from", "try_from", "default", "defexpr", "none", "none"]
    for k in range(14):
        n = g.fresh("F")
        nf = r.randint(2, 5)
        named = r.random() < 0.6
        fs, tys, lv = [], [], 0
        for i in range(nf):
            nm = "abcde"[i] if named else ""
            c = r.choice(conv)
            t = r.choice([x for x in p.names if g.level[x] < 2 and not p.has_lt(x)] + ["u8", "String"])
            if c in ("from", "try_from") and t not in p.names:
                t = "u16"
            if c == "default":
                fs.append(field(nm, r.choice(["Dflt", "u8"]), c))
            elif c == "defexpr":
                fs.append(field(nm, "", c, id=r.randint(1, 99)))
            elif c == "none":
                fs.append(field(nm, t))
            else:
                fs.append(field(nm, "", c, t, r.randint(1, 99) if "map" in c else 0))
            tys.append(None if c in ("default", "defexpr") else t)
            lv = max(lv, g.level.get(t, 0) if tys[-1] else 0)
        live = [i for i in range(nf) if tys[i]]
        r.shuffle(live)
        by = r.random() < 0.7
        order = live if by else sorted(live)
        ps = []
        for i in order:
            ps += [Ph(tys[i], ("abcde"[i] if named and r.random() < 0.7 else str(i)) if by else None), r.choice([",", ";", "", "/"])]
        ps = [x for x in ps if x != ""]
        src = fmt_src(ps, False, r)
        if r.random() < 0.6:
            p.struct(n, src, fs, raw=False, shape="named" if named else "tuple")
            p.names[n]["sampler"] = lambda r, ps=ps: sample_pieces(p, ps, r)
        else:
            p.enum(n, [variant("A", src + "A", fs, raw=False, shape="named" if named else "tuple"), variant("B", src, fs, raw=False, shape="named" if named else "tuple"), variant("C", "c", [])])
            p.names[n]["sampler"] = lambda r, ps=ps: r.choice([sample_pieces(p, ps, r) + "A", sample_pieces(p, ps, r), "c"])
        g.level[n] = lv + 1
    return g


@check
def c17(chk):
    r = chk.rng

    def program(nsites):
        g = effect_types(Gen(r))
        randoms(chk, g, nsites, nested=0.9, k=None)
        for s in g.p.sites:
            if r.random() < 0.5:
                s.update(counted=True, input_expr="tick(input)")
        return g.p
    conform(chk, program(120), name(chk, "effects"))
    p = Program()
    p.user("UA", "[ax!]+|")
    p.manual("MA", "(a)|(x)", 3)
    p.struct("SA", "{1}:{0}", [field("", "", "filter_map", "u8", 7), field("", "UA"), field("", "", "defexpr", id=4)], shape="tuple")
    for k, (pre, e, post) in enumerate(INPUTS):
        fs = [("{}{}", ["&str", "u8"], ["a1", "1", "é9", "x", "漢a255", "a256"]), ("{}", ["SA"], ["a:1", "a:2", "x:2", "!:2", ":256", ":4", "1", ":"]),
              ("{Cow<str>}-{String}", [], ["a-b", "-", "é-é", "a--"]), ("{}", ["MA"], ["a", "x", "b"])]
        for f, a, ins in r.sample(fs, 2) if not THOROUGH else fs:
            p.site(f, a, ins, pre=pre, input_expr=e, post=post)
        f, a, ins = r.choice(fs)
        c = e if e.startswith("&") else "&" + e if not re.match(r"if |match |loop |unsafe |\{", e) else "&(" + e + ")"
        p.site(f, a, ins, pre=pre, input_expr="tick(%s)" % c if r.random() < 0.5 else "{ tick(%s) }" % c, post=post, counted=True, tail=r.choice(["", ","]) if a else "")
    conform(chk, p, name(chk, "inputs"))
    deepen(chk, name(chk, "more"), lambda: program(150))


# ------------------------------------------------------------------------------------------------ C18
@check
def c18(chk):
    r = chk.rng

    def both(p, t, **kw):
        p.site("", [t], api="from_str", **kw)
        p.site("{}", [t], **kw)

    def program(n):
        g = Gen(r)
        g.types(2, 1, 0, 0)
        for _ in range(n):
            (g.struct if r.random() < 0.5 else g.enum)()
        for t in list(g.p.names):
            if g.p.names[t]["k"] in ("struct", "enum", "manual"):
                both(g.p, t, inputs=inputs_for(g.p, [Ph(t)], r, 8, 8))
        return g.p
    conform(chk, program(60), name(chk, "derived"))
    p = Program()
    p.user("UA", "a|ab")
    p.manual("MA", "a|(1)b?|", 2)
    for k in range(25):
        n = "E%d" % k
        random_enum = __import__("derives").random_enum
        words = r.sample(["a", "b", "1", "ab", "|"], 3)
        random_enum(p, r, n, words, ["u8", "char", "String", "UA", "bool"])
        both(p, n, alpha=["a", "b", "1", "|"] if r.random() < 0.5 else ["a", "1", "\n"], maxlen=4)
        m = "S%d" % k
        fs = [field("", r.choice(["u8", "String", "&str", "char", "MA", "UA", n if not p.has_lt(n) else "u8"])) for _ in range(r.randint(1, 3))]
        p.struct(m, r.choice(["", "a", "|"]).join(["{}"] * len(fs)) + r.choice(["", "", "b", "|a"]), fs, shape="tuple", attr=r.choice(["format", "format", "unescaped"]), raw=True)
        both(p, m, alpha=["a", "b", "1", r.choice(["|", "\n", "é"])], maxlen=4)
    both(p, "MA", alpha=["a", "b", "1"], maxlen=4)
    # types that parse themselves
    for t in list(INTS) + list(NZ) + ["f32", "f64", "bool", "char", "String", "PathBuf", "HexNumber", "FullF32", "FullF64", "UA"]:
        ins = {"", "1", "-1", "+1", "0", "256", "a", "ab", "aab", " 1", "1 ", "1\n", "true", "True", "x", "!", "é", "éa", "\n", "inf", "1.5", "1e400", "99999999999999999999", "0x1f", "0X1F", "١"}
        ins |= {sample_builtin(t, r) if t != "UA" else "a" for _ in range(8)}
        p.site("", [t], sorted(ins | {mutate(x, r) for x in ins if x}), api="from_str")
    conform(chk, p, name(chk, "alphabet"))
    deepen(chk, name(chk, "more"), lambda: program(80))


# ------------------------------------------------------------------------------------------------ C19
@check
def c19(chk):
    r = chk.rng

    def program(n):
        g = Gen(r)
        g.types(3, 2, 6, 6)
        randoms(chk, g, n, nested=0.7)
        p = g.p
        for s in list(p.sites):
            q = dict(s, api="get_regex")
            p.sites.append(q)
        return p
    conform(chk, program(70), name(chk, "captures"))
    p = Program()
    p.user("UA", "a|ab")
    p.user("UG", "(a)|b")
    p.manual("MA", "(a)|(1)b?", 3)
    p.enum("EA", [variant("A", "a{}", [field("", "UA")]), variant("B", "{}b", [field("", "MA")]), variant("C", "{0:x}{1}", [field("", "u8"), field("", "", "map", "String", 1)])])
    p.struct("SA", "{b}{a}", [field("a", "EA"), field("b", "char"), field("c", "", "defexpr", id=1)])
    for f, a in [("{}{}", ["UA", "MA"]), ("{}{}", ["EA", "str"]), ("{}", ["SA"]), ("{1}{0}{1}", ["MA", "UA"]), ("{UG}", []), ("a{}|", ["EA"]), ("{}.{}", ["u8", "char"]), ("{:/a|b1?/}{:x}", ["str", "u8"]),
                 ("", []), ("a|b", []), ("{{{}}}", ["MA"]), ("{}é{}", ["String", "char"]), ("{SA}{MA}", []), ("{f32}{bool}", []), ("{0}{0}", ["NonZeroU8"])]:
        al = sorted(set("ab1") | {c for c in re.sub(r"\{[^{}]*\}", "", f)} - set("{}"))
        p.site(f, a, alpha=al[:4], maxlen=4, api="get_regex")
        p.site(f, a, alpha=al[:4], maxlen=4)
    conform(chk, p, name(chk, "alphabet"))
    deepen(chk, name(chk, "more"), lambda: program(100))


# ------------------------------------------------------------------------------------------------ C20
FREE = ["", "", "a", "b?", "[ab]*", ".", ".*?", "\\s+", "(?:a|b)", "(?i:A)", "-", "\\.", "1", "(?:1|a)+?", "[^a]", "\\d*", "a{{2}}", "b{{0,1}}", "\\{{", "\\}}", "é", "(?:)", "a|", "|b", "\\ba", "(?i)a", "(?-i)", "(?s:.)", "\\w", "x*", "\\x61", "a\\|b"]


@check
def c20(chk):
    r = chk.rng

    def sites(p, n, struct):
        for k in range(n):
            ps, text_ = [], []
            for _ in range(r.randint(0, 3)):
                ps.append(r.choice(FREE))
                t = r.choice(["u8", "str", "char", "String", "i16", "bool", "UA", "f64"])
                c = r.random()
                ps.append(Ph(t, None, r.choice(["x", "r7", "#b"]) if t in INTS and c < 0.3 else "", ("alt", [("lit", "a"), ("seq", [("lit", "a"), ("lit", "b")])]) if t in ("str", "String", "UA") and c < 0.3 else None))
            ps.append(r.choice(FREE))
            ps = [x for x in ps if x != ""]
            if any(isinstance(x, str) and "|" in x.replace("(?:a|b)", "").replace("(?:1|a)", "").replace("\\|", "") for x in ps) and any(isinstance(x, Ph) for x in ps):
                ps = [x for x in ps if not (isinstance(x, str) and x in ("a|", "|b"))]
            if not ps:
                ps = ["a|b"]
            src = "".join(x if isinstance(x, str) else x.src(True) for x in ps)
            plain = {"b?": "b", "[ab]*": "ab", ".*?": "zz", "\\s+": " ", "(?:a|b)": "b", "(?i:A)": "a", "\\.": ".", "(?:1|a)+?": "1a", "[^a]": "c", "\\d*": "12", "a{{2}}": "aa", "b{{0,1}}": "b",
                     "\\{{": "{", "\\}}": "}", "(?:)": "", "a|": "a", "|b": "b", "\\ba": "a", "(?i)a": "a", "(?-i)": "", "(?s:.)": "\n", "\\w": "w", "x*": "xx", "\\x61": "a", "a\\|b": "a|b"}
            smp = lambda: "".join(plain.get(x, x) if isinstance(x, str) else sample_ph(p, x, r) for x in ps)
            good = {smp() for _ in range(5)}
            ins = sorted({x for x in good | {mutate(r.choice(sorted(good)), r) for _ in range(8)} | {x.upper() for x in good} if len(x) < 60})
            raw = r.random() < 0.8
            fmt = src if raw else src.replace("\\", "\\\\")
            tys = [x.ty for x in ps if isinstance(x, Ph)]
            if struct and tys and r.random() < 0.4:
                n_ = "S%d" % len(p.types)
                fs = [field("", fieldable(t)) for t in tys]
                if r.random() < 0.6:
                    p.struct(n_, fmt, fs, attr="unescaped", raw=raw, short=raw and r.random() < 0.5, shape="tuple")
                else:
                    p.enum(n_, [variant("A", fmt, fs, attr="unescaped", raw=raw, shape="tuple"), variant("B", "q.{}", [field("", "u8")]), variant("C", "q.", [], attr="unescaped", raw=True, short=True)])
                f = r.choice(["{}", "{}", "-{}", "{}{str}"])
                p.site(f, [n_], sorted({("-" if f[0] == "-" else "") + x for x in ins} | {"q.7", "q.", "qa"}))
            elif r.random() < 0.35:
                p.site(fmt, tys, alpha=r.sample(["a", "b", "1", "A", "\n", "x", "{", "}", " "], 3), maxlen=4, api="unescaped", raw=raw)
            else:
                p.site(fmt, tys, ins, api="unescaped", raw=raw)
        return p

    def program(n):
        p = Program()
        p.user("UA", "a|ab|x")
        p.names["UA"]["sampler"] = lambda r: r.choice(["a", "ab", "x"])
        return sites(p, n, True)
    p = program(130)
    for f, a, al in [("a|b", [], "ab"), ("(a){}", ["u8"], "a1"), ("(a)|(b)", [], "ab"), ("(?:{})", ["u8"], "a1"), ("a*{}(?:b|{})", ["u8", "char"], "ab1"), ("{}?a", ["u8"], "a1"),
                     ("(?:{}|a)b", ["u8"], "ab1"), ("\\(a\\)", [], "a()"), ("[(]a[)]", [], "a()"), ("^a$", [], "a\n"), ("(?i)a{}a", ["String"], "aAb"), ("(?i)a{:/b/}", ["str"], "aAbB"), ("a{{1,2}}", [], "a{}"),
                     ("a{{2}}{{1}}", [], "a"), ("\\{{\\}}", [], "{}a"), ("", [], "a\n"), ("\\\\{}", ["u8"], "\\1"), ("{:x}+", ["u8"], "1f"), ("(?s).{}", ["char"], "a\n"), (".{}", ["char"], "a\n"), ("(?i:a){}", ["bool"], ["a", "A", "true", "TRUE"])]:
        p.site(f, a, alpha=list(al), maxlen=5 if len(al) < 3 else 4, api="unescaped", raw=True)
    # every short sequence of pieces that mean something at the ends of a regex or of a format
    toks = {"a": "a", "\\$": "$", "\\^": "^", "$": "", "^": "", "\\\\": "\\", "a*": "aa", "(?:a|b)": "b", "(?i)": "", "(?:^|b)": "b", "(?:$|b)": "b", "[$^]": "$", "{{": None, "\\{{": "{", "{}": "7", "\\b": "", "|": ""}
    seqs = [x for n in (1, 2, 3) for x in itertools.product([t for t in toks if t != "{{"], repeat=n)]
    ok = lambda x: not ("|" in x and ("{}" in x or x[0] == "|")) and x.count("{}") < 3
    seqs = [x for x in seqs if ok(x)]
    q = Program()
    two = [x for x in seqs if len(x) < 3]
    for k, x in enumerate(seqs if THOROUGH else two + r.sample(seqs[len(two):], 160)):
        fmt = "".join(x)
        good = "".join(toks[t] for t in x)
        ins = {good, good + "a", "a" + good, good + "8", "8" + good, good[1:], good[:-1], good.upper(), "", good + "$", "^" + good, good + "$8", good.replace("$", ""), good.replace("^", "")}
        n = fmt.count("{}")
        if n and k % 4 == 0:
            q.struct("Q%d" % k, fmt, [field("", "u8") for _ in range(n)], attr="unescaped", raw=True, short=False, shape="tuple")
            q.site("{}", ["Q%d" % k], sorted(ins))
        else:
            q.site(fmt, ["u8"] * n, sorted(ins), api="unescaped", raw=True)
    conform(chk, q, name(chk, "ends"))
    conform(chk, p, name(chk, "formats"))
    deepen(chk, name(chk, "more"), lambda: program(150))


# ------------------------------------------------------------------------------------------------ C21
# the call sites of harness/history_main.rs: what their gates get, and what they fail with; {n}: number of the call
HSITES = [dict(gates=["k{n}", "v{n}"]), dict(gates=["k{n}", "v{n}"]), dict(gates=["k{n}"]), dict(gates=["v{n}"]), dict(gates=[], bad=True),
          dict(gates=["k{n}", "v{n}"]), dict(gates=["k{n}", "v{n}"], fails=["k{n}", "a"]), dict(gates=["k{n}", "v{n}"]),
          dict(gates=["v", "{n}"]), dict(gates=["k{n}", "v{n}"])]


def histories(chk, name, threads, allowed, forms, nest, length, simulate=0):
    path = os.path.join(chk.dir, "%s.json" % name)
    with open(path, "w") as f:
        json.dump(dict(threads=threads, sites=[dict(gates=len(s["gates"]), bad=s.get("bad", False)) for s in HSITES], allowed=[a + 1 for a in allowed],
                       forms=forms, nest=nest, len=length), f)
    return run_tlc(chk, "MCHistory", env=dict(PROGRAM=path), simulate=(simulate, length + 2) if simulate else None)[0]


def replay_histories(chk, hs):
    d = os.path.join(chk.dir, "history")
    make_crate(d, "c21_history", {"src/main.rs": open(os.path.join(ROOT, "harness", "history_main.rs")).read().replace("HISTORY", os.path.join(ROOT, "harness", "history.rs"))})
    rc, out, err = compile_harness(chk, d, ["build"], "the call sites of the histories")
    if rc:
        e = [x[2] for x in diagnostics(out)]
        if not e:
            raise ToolError("the harness does not build:\n" + err[-2000:])
        chk.violation("the call sites of the histories do not compile: %s" % e[0][:500], dict(errors=e[:5]))
        return
    binary = os.path.join(BUILD, "target", "debug", "c21_history")

    def hx(s):
        return s.encode().hex()

    def line(h):
        o, n = [], 0
        for t, op, site, form, how, k, call, g in h:
            if op == "call":
                n += 1
                o.append("%dc%d:%s" % (t, site - 1, hx(("k%d-v%d" if form == "match" else "k%d_v%d") % (n, n))))
            else:
                o.append("%dg%s" % (t, how[0]))
        return " ".join(o)

    def expected(h):
        o = []
        for t, op, site, form, how, k, call, g in h:
            s = HSITES[site - 1]
            if k == "gate":
                x = "gate:" + hx(s["gates"][g - 1].format(n=call))
            elif k == "ok":
                x = "ok:" + hx("k%d,v%d" % (call, call))
            elif k == "parsing-failed":
                x = k + ":" + hx(s.get("fails", s["gates"])[g - 1].format(n=call))
            else:
                x = k + ":"
            o.append(x)
        return o
    parts = [hs[k::CPUS] for k in range(CPUS)]

    def job(k, part):
        path = os.path.join(chk.dir, "histories%d.txt" % k)
        with open(path, "w") as f:
            f.write("".join(line(h) + "\n" for h in part))
        try:
            out = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400).stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
        got = {}
        for l in out.decode().split("\n"):
            if "\t" in l:
                a, b = l.split("\t")
                got[int(a)] = b.split()
        stuck = False       # (then the rest has not been run)
        for n, h in enumerate(part):
            e = expected(h)
            if n not in got and stuck:
                return
            stuck = stuck or n in got and got[n][-1].startswith("stuck")
            if got.get(n) != e:
                def plain(x):
                    return [a.split(":")[0] + (":" + bytes.fromhex(a.split(":")[1]).decode() if a.split(":")[1] not in ("", "?") and not a.startswith("died") else "") for a in x]
                yield "history %s: expected %s, got %s" % (line(h), plain(e), plain(got.get(n, []))), dict(history=h, expected=plain(e), got=plain(got.get(n, [])))
    for vs in parallel([lambda k=k, p=p: list(job(k, p)) for k, p in enumerate(parts)]):
        for key, data in sorted(vs, key=lambda v: len(v[0]))[:3]:
            chk.violation(key, data)
    chk.add(traces_validated_against_impl=len(hs), histories=len(hs), steps=sum(len(h) for h in hs))
    for h in chk.rng.sample(hs, 2):
        chk.sample("history " + " ".join("%s%s%s" % (x[0], x[1], ":" + str(x[2]) if x[1] == "call" else ":" + x[4]) + "->" + x[5] for x in h))


@check
def c21(chk):
    r = chk.rng
    n = len(HSITES)
    jobs = [lambda: run_tlc(chk, "MCLazy")[0],
            lambda: histories(chk, "short", 2, range(n), ["match", "other"], 1, 3),
            lambda: histories(chk, "nested", 1, r.sample([0, 2, 3, 5, 6, 7, 8, 9], 2), ["match"], 2, 6),
            lambda: histories(chk, "long", 3, range(n), ["match", "other"], 2, 24, simulate=400 if not THOROUGH else 20000)]
    for a in r.sample(range(n), 4) if not THOROUGH else range(n):
        jobs.append(lambda a=a: histories(chk, "same%d" % a, 2, [a], ["match"], 1, 5 if not THOROUGH else 6))
    hs = [h for part in parallel(jobs) for h in part]
    chk.log("%d histories" % len(hs))
    replay_histories(chk, hs)

    def program(nsites):
        g = Gen(r)
        p = g.p
        # parsers that parse: other call sites, the call site they are used in, and in another thread
        for k, extra in enumerate(["nested(2, || { sN(s); });", "nested(1, || std::thread::scope(|c| { let _ = c.spawn(|| { sN(s); }).join(); }));",
                                   "let _ = sscanf!(s, \"{}{str}\", char);", "nested(3, || { sN(\"\"); sM(s); });", "attempt(|| { sM(\"!\"); sN(\"x\"); });"]):
            u = "R%d" % k
            ast = gen_rx(r, 2, "abx1!")
            p.user(u, rx_src(ast), extra)
            p.names[u]["sampler"] = lambda r, a=ast: rx_sample(a, r)
            g.level[u] = 0
        g.types(1, 1, 5, 4)
        p.manual("Bad", "(a)|b", 2, takes=1)
        p.names["Bad"]["sampler"] = lambda r: r.choice("ab")
        g.level["Bad"] = 9
        for _ in range(nsites):
            g.site(nested=0.8)
        p.site("{}{Bad}", ["R0"], ["a", "ab", ""])
        p.site("{0}{0}", ["R1"], inputs_for(p, [Ph("R1"), Ph("R1")], r))
        for u in ("R0", "R1", "R3", "R4"):
            p.site("{}{str}", [u], inputs_for(p, [Ph(u), Ph("str")], r))
        for t in p.types:
            if t.get("extra"):
                for v in "NM":
                    # (mostly) the sites that use the type
                    own = [i for i, s in enumerate(p.sites) if t["name"] in s["args"] or "{" + t["name"] in s["fmt"]]
                    t["extra"] = t["extra"].replace("s" + v + "(", "crate::s%d(" % (r.choice(own) if r.random() < 0.7 and own else r.randrange(len(p.sites))))
        for s in p.sites:
            lit, args = rust_str(s["fmt"], s["raw"]), "".join(", " + a for a in s["args"])
            junk = r.choice(["\"\"", "\"x\"", "\"!\"", "&input[..0]", "input", "&format!(\"{}{}\", input, input)"])
            place = junk if "format" not in junk else "input"       # (temporaries do not work)
            w = [None, "{ let f = |input: &str| -> String { CALL }; attempt(|| f(%s)); f(input) }" % junk,
                 "{ fn f(input: &str) -> String { CALL } attempt(|| f(%s)); let r = f(input); attempt(|| f(%s)); r }" % (junk, junk),
                 "{ fn f<T: AsRef<str> + ?Sized>(t: &T) -> String { let input = t.as_ref(); CALL } attempt(|| f::<String>(&%s.to_string())); f::<str>(input) }" % junk,
                 "{ let mut r = String::new(); for k in 0..3 { if k == 2 { quiet(|| ()); } LOG.with(|l| l.borrow_mut().clear()); r = CALL; } r }",
                 "{ attempt(|| sscanf!(%s, %s%s).is_ok()); let r = CALL; attempt(|| sscanf!(input, %s%s).is_ok()); r }" % (place, lit, args, lit, args),
                 "{ struct T; impl T { fn f(&self, input: &str) -> String { CALL } } attempt(|| T.f(%s)); T.f(input) }" % junk,
                 "{ macro_rules! m { ($i: ident) => { { let input = $i; CALL } } } let other: &str = &input[..0]; attempt(|| m!(other)); m!(input) }",
                 "{ let v = vec![\"\", input]; attempt(|| { for input in &v { let input: &str = input; %s } }); CALL }" % "let _ = sscanf!(input, %s%s).is_ok();" % (lit, args),
                 "std::thread::scope(|c| { let input = input; c.spawn(move || attempt(|| sscanf!(input, %s%s).is_ok())).join().unwrap(); CALL })" % (lit, args)]
            w = r.choice(w)
            if w:
                s["wrap"] = w
        return p
    # more calls than a small counter can count, most of which succeed; CALL is one call site
    p = Program()
    p.struct("P", "{a},{:x}", [field("a", "String"), field("b", "u8")])
    p.enum("E", [variant("A", "<{}>", [field("", "P")]), variant("B", "{}", [field("", "u16")])])
    many = "{ let mut last: Option<String> = None; for k in 0..%d { LOG.with(|l| l.borrow_mut().clear()); let text = input; let input = if k %% 7 == 3 { \"!\" } else { text }; let r = CALL; if k %% 7 == 3 { continue; } let same = last.as_ref().map_or(true, |l| *l == r); last = Some(r); if !same { break; } } last.unwrap() }"
    for fmt, args, ins, api, n in [("{}", ["u8"], ["7", "256"], "sscanf", 66000), ("{}:{}", ["str", "i16"], ["a:-1"], "sscanf", 66000), ("{E}", [], ["<x,ff>", "65535"], "sscanf", 66000),
                                   ("", ["P"], ["x,1f"], "from_str", 1100), ("{}(?:;{})", ["u8", "P"], ["1;y,0"], "unescaped", 66000)]:
        p.site(fmt, args, ins, api=api, wrap=many % (n * (10 if THOROUGH and n > 2000 else 1)))
    conform(chk, p, name(chk, "many"))
    conform(chk, program(70), name(chk, "programs"), threads=(8, 3 if not THOROUGH else 10, 4 if not THOROUGH else 20))
    deepen(chk, name(chk, "more"), lambda: program(100))
