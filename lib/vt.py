"""Runs the specification, generates harness programs, and compares the two."""
import concurrent.futures, threading, signal
import fcntl, hashlib, json, os, random, re, shutil, struct, subprocess, sys, time, zlib
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
EVIDENCE = os.path.join(ROOT, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


TLC_LOCK = threading.Lock()
TLC_RUNS = 0


class Stop(Exception):
    """a violation has been found that keeps the rest of the check from making sense"""


class ToolError(Exception):
    pass


def cps(s):
    return [ord(c) for c in s]


def text(a):
    return "".join(chr(c) for c in a)


STABLE, NIGHTLY = "1.90.0", "nightly"
toolchain = [STABLE]


def env_rust():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=toolchain[0], CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUST_BACKTRACE="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    for k in ("RUSTFLAGS", "TRYBUILD", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


# ------------------------------------------------------------------------------------------------ check context
def forget_old_builds():
    """Has cargo build /repo's crates again whenever their sources differ from those of the last build, whatever their
    time stamps say."""
    h = hashlib.sha256(REPO.encode())
    for top in ("Cargo.toml", "src", "sscanf_macro"):
        top = os.path.join(REPO, top)
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read())
    mark = os.path.join(BUILD, "sources")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
            if os.path.isdir(os.path.join(BUILD, "target")):
                d = os.path.join(BUILD, "probe")
                make_crate(d, "probe", {"src/main.rs": "fn main() {}"})
                if any(cargo(d, ["clean", "--offline", "--profile", p, "-p", "sscanf", "-p", "sscanf_macro"])[0] for p in ("dev", "shipping")):
                    shutil.rmtree(os.path.join(BUILD, "target"), ignore_errors=True)
            with open(mark, "w") as f:
                f.write(h.hexdigest())


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        forget_old_builds()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = set()

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=12):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, detail):
        """key: short text identifying the failing case; detail: JSON-able replay data"""
        for k in self.known:
            if k["match"] in key:
                if k["match"] not in self.known_hit:
                    self.known_hit.add(k["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        self.violations.append(dict(key=key, detail=detail))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, violations=self.violations[:50]), f, indent=1)
            for v in self.violations[:5]:
                print("  " + v["key"][:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("held on everything explored:", {k: v for k, v in self.cov.items() if k != "samples"})
        return 0


def load_known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S.*?) what=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


# ------------------------------------------------------------------------------------------------ TLC
def run_tlc(chk, module, cfg=None, env=None, timeout=700, extra=(), want_stats=True, mem="3g", simulate=None):
    """Returns (list of emitted JSON values, stats). Any error of TLC, including a violated invariant of the model, is
    an error of the check.  TLC runs with one worker: its workers share values that they normalize in place, and with
    values like those of this specification that goes wrong every now and then.  Use tlc_parts for parallelism."""
    global TLC_RUNS
    with TLC_LOCK:
        TLC_RUNS += 1
        run = TLC_RUNS
    meta = os.path.join(chk.dir, "tlc_%s_%d" % (module, run))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", TLA_CP, "tlc2.TLC",
           "-metadir", meta, "-workers", "1", "-config", cfg or module + ".cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    if simulate:  # (number of behaviours, length)
        cmd[-1:-1] = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED)]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    lines = p.stdout.decode("utf-8", "replace").split("\n")
    out, rest = [], []
    for l in lines:
        if l.startswith('"@@'):
            out.append(json.loads(json.loads(l)[2:]))
        elif not re.match(r"^(Semantic processing|Linting|Parsing)", l):
            rest.append(l)
    body = "\n".join(rest)
    if simulate and p.returncode == 0:
        n = re.search(r"The number of states generated: (\d+)", body)
        body += "\n%s states generated, %s distinct states found, 0 states left on queue" % (n.group(1), n.group(1))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", body)
    if p.returncode != 0 or not m or m.group(3) != "0":
        with open(os.path.join(chk.dir, "tlc_%s_%d.log" % (module, run)), "w") as f:
            f.write(body)
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, body[-3000:]))
    stats = dict(generated=int(m.group(1)), distinct=int(m.group(2)))
    if want_stats:
        with TLC_LOCK:
            chk.add(states=stats["distinct"], transitions=stats["generated"])
    return out, stats


def parallel(jobs, n=None):
    """runs functions in threads; the first exception is raised"""
    with concurrent.futures.ThreadPoolExecutor(n or CPUS) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def split(costs, n):
    """indices of the costs, distributed evenly over n parts"""
    parts = [[0, []] for _ in range(n)]
    for i in sorted(range(len(costs)), key=lambda i: -costs[i]):
        q = min(parts, key=lambda q: q[0])
        q[0] += costs[i]
        q[1].append(i)
    return [sorted(q[1]) for q in parts if q[1]]


# ------------------------------------------------------------------------------------------------ programs
def rust_str(fmt, raw):
    if not raw:
        return '"' + fmt + '"'
    n = 0
    while '"' + "#" * n in fmt:
        n += 1
    n += (0, 0, 1, 2, 0, 3, 5)[zlib.crc32(fmt.encode()) % 7]  # more than it takes
    return "r" + "#" * n + '"' + fmt + '"' + "#" * n


NOCONV = dict(k="none", ty="", id=0)


def field(name, ty, conv="none", mty="", id=0):
    return dict(name=name, ty=ty, conv=dict(k=conv, ty=mty, id=id))


def variant(name, fmt, fields=(), attr="format", raw=None, shape=None, short=False, names=True):
    """fields: list of field(); names given as '' for tuple-like"""
    fields = [dict(f) for f in fields]
    if shape is None:
        shape = "unit" if not fields else ("tuple" if fields[0]["name"] == "" else "named")
    for i, f in enumerate(fields):
        if shape == "tuple":
            f["name"] = str(i)
    if raw is None:
        raw = attr == "unescaped"
    return dict(name=name, fmt=fmt, raw=raw, attr=attr, fields=fields, shape=shape, short=short)


def closure(f, t, ret, id):
    return ["|v: %(t)s| %(f)s(%(id)d, v)", "|mut v: %(t)s| { let w = v; %(f)s(%(id)d, w) }", "|v: %(t)s| -> %(ret)s { %(f)s(%(id)d, v) }",
            "|_v: %(t)s,| { fn g<T>(t: T) -> T { t } g(%(f)s(%(id)d, _v)) }"][id % 4] % dict(f=f, t=t, ret=ret, id=id)


def borrows(ty):
    return ty.lstrip().startswith("&") or "Cow" in ty


class Program:
    """A program with its own types and call sites, both as data for the specification and as Rust source."""

    def __init__(self):
        self.types, self.sites, self.names = [], [], {}
        self.aliases, self.items = [], []
        self.parts = None
        self.edition = "2021"

    # ---- types
    def user(self, name, regex, extra=""):
        """extra: Rust code that its parser runs first, without a trace"""
        self.types.append(dict(k="user", name=name, re=regex, sem="", extra=extra))
        self.names[name] = self.types[-1]
        return name

    def manual(self, name, regex, ncap, takes=None):
        self.types.append(dict(k="manual", name=name, re=regex, ncap=ncap, takes=takes or ncap))
        self.names[name] = self.types[-1]
        return name

    def struct(self, name, fmt, fields, attr="format", raw=None, shape=None, short=False):
        v = variant(name, fmt, fields, attr, raw, shape, short)
        self.types.append(dict(k="struct", name=name, autogen="", variants=[v]))
        self.names[name] = self.types[-1]
        return name

    def enum(self, name, variants, autogen=""):
        self.types.append(dict(k="enum", name=name, autogen=autogen, variants=variants))
        self.names[name] = self.types[-1]
        return name

    def alias(self, name, of):
        """another name of a type, which the items define"""
        self.aliases.append((re.sub(r"(?<!\w)\s+|\s+(?!\w)", "", name), of))
        return name

    def site(self, fmt, args=(), inputs=(), api="sscanf", raw=False, alpha=(), maxlen=0, **kw):
        """kw: input_expr, pre, post: how the input is passed; counted: its evaluation is logged; macro: another name
        of the macro; wrap: code around the call (with CALL in it); call: the text of the whole call"""
        self.sites.append(dict(api=api, fmt=fmt, raw=raw, args=list(args), inputs=list(inputs), alpha=list(alpha),
                               maxlen=maxlen, **kw))
        return len(self.sites) - 1

    def breaks_contract(self, site):
        """does a type of the call take another number of captures than it declares?"""
        bad = {t["name"] for t in self.types if t["k"] == "manual" and t["takes"] != t["ncap"]}
        todo, seen = [site["fmt"]] + site["args"], set()
        while todo and bad:
            for w in set(re.findall(r"\w+", todo.pop())) - seen:
                seen.add(w)
                if w in self.names:
                    todo += [x for v in self.names[w].get("variants", ()) for f in v["fields"] for x in (f["ty"], f["conv"]["ty"])]
                todo += [str(a) for a in self.aliases if w in str(a)]
        return bool(bad & seen)

    # ---- for the specification
    def to_json(self):
        def var(v):
            return dict(name=cps(v["name"]), attr=v["attr"], fmt=cps(v["fmt"]), raw=v["raw"],
                        fields=[dict(name=cps(f["name"]), ty=cps(f["ty"]),
                                     conv=dict(k=f["conv"]["k"], ty=cps(f["conv"]["ty"]), id=f["conv"]["id"]))
                                for f in v["fields"]])
        ts = []
        for t in self.types:
            d = dict(k=t["k"], name=cps(t["name"]), shown=cps(t.get("shown", t["name"])))  # shown: its name where it is defined
            if t["k"] == "user":
                d.update(re=cps(t["re"]), sem=t["sem"])
            elif t["k"] == "manual":
                d.update(re=cps(t["re"]), ncap=t["ncap"], takes=t["takes"])
            else:
                d.update(autogen=t["autogen"], variants=[var(v) for v in t["variants"]])
            ts.append(d)
        ss = [dict(api=s["api"], fmt=cps(s["fmt"]), raw=s["raw"], args=[cps(a) for a in s["args"]],
                   inputs=[cps(i) for i in s["inputs"]], alpha=[cps(a) for a in s["alpha"]], maxlen=s["maxlen"], counted=bool(s.get("counted")))
              for s in self.sites]
        return dict(types=ts, sites=ss, aliases=[dict(name=cps(a), of=cps(b)) for a, b in self.aliases])

    # ---- Rust
    def has_lt(self, name):
        t = self.names.get(name.replace(" ", ""))
        if t is None or t["k"] in ("user", "manual"):
            return False
        return any("'a" in self.field_ty(f) for v in t["variants"] for f in v["fields"])

    def lt(self, ty):
        """a type as it is written in a field"""
        n = ty.replace(" ", "")
        if n.startswith("&"):
            return "&'a " + n[1:]
        if "Cow<" in n:
            return n.replace("Cow<", "Cow<'a, ")
        if n in self.names and self.has_lt(n):
            return n + "<'a>"
        return ty

    def field_ty(self, f):
        if "tytext" in f:
            return f["tytext"]
        k = f["conv"]["k"]
        if k not in ("none", "default", "defexpr") and f["ty"]:
            return f["ty"]
        if k in ("map", "filter_map"):
            return "Tag<%s>" % self.lt(f["conv"]["ty"])
        if k in ("from", "try_from") and borrows(f["conv"]["ty"]):
            return "ConvText" if k == "from" else "TConvText"
        if k == "from":
            return "Conv<%s>" % self.lt(f["conv"]["ty"])
        if k == "try_from":
            return "TConv<%s>" % self.lt(f["conv"]["ty"])
        if k == "defexpr":
            return "Dflt"
        if k == "default":
            return {"&str": "&'a str"}.get(f["ty"], f["ty"])
        return self.lt(f["ty"])

    def part(self, kind, text):
        """a part of a type, which a macro that writes the type may get as a parameter of that kind"""
        if self.parts is None or (self.parts[0].random() < 0.4 and not (kind == "literal" and "'a" in text)):
            return text
        self.parts[1].append((kind, text))
        return "$p%d" % (len(self.parts[1]) - 1)

    def surrounded(self, t, write):
        """the type as written by a macro (via), in a module with items of its own (module)"""
        via = t.get("via")
        if via == "parts":
            self.parts = (random.Random(t["name"]), [])
        text = write()
        if t.get("shown"):
            return "pub mod in_%s { use super::*; use super::try_from;\n%s\n}\npub use in_%s::%s as %s;" % (t["name"], text, t["name"], t["shown"], t["name"])
        if via == "parts":
            text = re.sub(r"'a(?!')", "$l", text)
            ps = self.parts[1]
            self.parts = None
            text = "macro_rules! via_%s { ($l:lifetime%s) => { %s } }\nvia_%s! { 'a%s }" % (
                t["name"], "".join("; $p%d:%s" % (k, x[0]) for k, x in enumerate(ps)), text, t["name"], "".join("; " + x[1] for x in ps))
        elif via == "tt":
            text = "macro_rules! via_%s { ($($t:tt)*) => { $($t)* } }\nvia_%s! { %s }" % (t["name"], t["name"], text)
        elif via == "item":
            text = "macro_rules! via_%s { ($i:item) => { $i } }\nvia_%s! { %s }" % (t["name"], t["name"], text)
        if t.get("module"):
            text = "pub mod in_%s { use super::*; use super::try_from;\n%s\n%s }\npub use in_%s::%s;" % (t["name"], t["module"](text), text, t["name"], t["name"])
        return text

    def field_attr(self, f):
        if "attrtext" in f:
            return f["attrtext"] + " "
        c = f["conv"]
        t = self.lt(c["ty"])
        if f["ty"] and c["k"] in ("map", "filter_map"):
            return "#[sscanf(%s = %s)] " % (c["k"], self.part("expr", closure("step" if c["k"] == "map" else "filter_step", t, t if c["k"] == "map" else "::std::option::Option<%s>" % t, c["id"])))
        if c["k"] in ("none", "default"):
            return {"none": "", "default": "#[sscanf(default)] "}[c["k"]]
        if c["k"] == "defexpr":
            return "#[sscanf(default = %s)] " % self.part("expr", "mkdef(%d)" % c["id"])
        if c["k"] in ("from", "try_from"):
            return "#[sscanf(%s = %s)] " % (c["k"], self.part("ty", c["ty"]))
        return "#[sscanf(%s = %s)] " % (c["k"], self.part("expr", closure("map", t, "Tag<%s>" % t, c["id"]) if c["k"] == "map" else closure("filter", t, "::std::option::Option<Tag<%s>>" % t, c["id"])))

    def variant_attr(self, v):
        if "attrtext" in v:
            return v["attrtext"] + "\n"
        if v["attr"] == "none":
            return ""
        if v["attr"] in ("transparent", "skip"):
            return "#[sscanf(%s)]\n" % v["attr"]
        s = rust_str(v["fmt"], v["raw"])
        s = s if v["short"] else self.part("literal", s)
        if v["short"]:  # raw literals are unescaped in this form
            assert v["raw"] == (v["attr"] == "unescaped")
            return "#[sscanf(%s)]\n" % s
        return "#[sscanf(%s = %s)]\n" % ("format" if v["attr"] == "format" else "format_unescaped", s)

    def rust_types(self):
        o = []
        tryfrom = set()
        for t in self.types:
            for v in t.get("variants", []):
                for f in v["fields"]:
                    if f["conv"]["k"] == "try_from" and not f["ty"] and not borrows(f["conv"]["ty"]):
                        tryfrom.add(self.lt(f["conv"]["ty"]))
        for ty in sorted(tryfrom):
            if "'a" in ty:
                o.append(TRYFROM_LT % (ty, ty, ty))
            else:
                o.append("try_from!(%s);" % ty)
        users = []
        for t in self.types:
            n = t["name"]
            if t["k"] == "user":
                users.append(n)
                o.append(USER.replace("EXTRA", "quiet(|| { %s });" % t["extra"] if t["extra"] else "").replace("NAME", n).replace("REGEX_LIT", rust_str(t["re"], True)))
            elif t["k"] == "manual":
                o.append(MANUAL.replace("NAME", n).replace("REGEX_LIT", rust_str(t["re"], True))
                         .replace("NCAP", str(t["ncap"])).replace("TAKES", str(t["takes"])))
            else:
                lt = "<'a>" if self.has_lt(n) else ""
                # decl: the generic parameters; where: their bounds; use: as arguments; enc: bounds of Enc
                g = dict(dict(decl=lt, use=lt, where="", enc=""), **t.get("gen", {}))
                vis = "pub " if t.get("module") or t.get("shown") else ""
                own = t.get("shown", n)
                if t["k"] == "struct":
                    v = t["variants"][0]
                    named = v["shape"] == "named"
                    o.append(self.surrounded(t, lambda: "#[derive(%s)]\n%s%sstruct %s%s%s%s" % (
                        t.get("derive", "FromScanf"), self.variant_attr(v), vis, self.part("ident", own), g["decl"], g["where"] if named else "", self.body(v, vis)) +
                        ("" if named else g["where"] + ";")))
                    arms = self.arm(v, n, '["struct",%s' % json.dumps(cps(n)))
                else:
                    ag = lambda: t.get("agattr") or ("" if not t["autogen"] else ("#[sscanf(autogen = %s)]\n" % self.part("literal", '"%s"' % t["autogen"])))
                    o.append(self.surrounded(t, lambda: "#[derive(%s)]\n%s%senum %s%s%s {\n%s}" % (
                        t.get("derive", "FromScanf"), ag(), vis, self.part("ident", own), g["decl"], g["where"],
                        "".join("%s%s%s,\n" % (self.variant_attr(v), self.part("ident", v.get("ident", v["name"])), self.body(v)) for v in t["variants"]))))
                    arms = "".join(self.arm(v, n + "::" + v.get("ident", v["name"]),
                                            '["enum",%s,%s' % (json.dumps(cps(n)), json.dumps(cps(v["name"]))))
                                   for v in t["variants"])
                decl = re.sub(r" = [^,>]*", "", g["decl"])
                o.append("impl%s Enc for %s%s%s { fn enc(&self) -> String { match self { %s } } }" % (decl, n, g["use"], (g["where"] + g["enc"]) or "", arms))
                o.append("impl%s Accepts for %s%s%s { fn accepts(&self) -> bool { true } }" % (decl, n, g["use"], g["where"]))
        o.append("pub fn user_frame(e: &(dyn std::error::Error + 'static)) -> Option<String> {\n" +
                 "".join("if let Some(f) = from_str_frame::<%s>(e, \"%s\") { return Some(f); }\n"
                         % (n, n) for n in users) + "None }")
        return "\n".join(o + self.items)

    def body(self, v, vis=""):
        fs = v["fields"]
        if v["shape"] == "unit":
            return ""
        if v["shape"] == "tuple":
            return "(" + ", ".join(self.field_attr(f) + vis + self.part("ty", self.field_ty(f)) for f in fs) + ")"
        return " { " + ", ".join(self.field_attr(f) + vis + self.part("ident", f["name"]) + ": " + self.part("ty", self.field_ty(f)) for f in fs) + " }"

    def arm(self, v, path, head):
        fs = v["fields"]
        if v["shape"] == "unit":
            pat = path
        elif v["shape"] == "tuple":
            pat = path + "(" + ", ".join("f%d" % i for i in range(len(fs))) + ")"
        else:
            pat = path + " { " + ", ".join("%s: f%d" % (f["name"], i) for i, f in enumerate(fs)) + " }"
        return "%s => { let v: Vec<String> = vec![%s]; format!(%s, v.join(\",\")) }\n" % (
            pat, ", ".join("f%d.enc()" % i for i in range(len(fs))),
            json.dumps(head.replace("{", "{{").replace("}", "}}") + ",[{}]]"))

    def rust_call(self, s):
        if "call" in s:
            return s["call"]
        lit = rust_str(s["fmt"], s["raw"])
        args = "".join(", " + a for a in s["args"])
        mac = s.get("macro") or {"sscanf": "sscanf!", "unescaped": "sscanf_unescaped!", "get_regex": "sscanf_get_regex!"}[s["api"]]
        if s["api"] == "get_regex":
            return "%s(%s%s)" % (mac, lit, args)
        return "%s(%s, %s%s%s)" % (mac, s.get("input_expr", "input"), lit, args, s.get("tail", ""))

    def rust_site(self, i, s, arity):
        if s["api"] == "get_regex":
            return ("fn s%d(input: &str) -> String { fn g() -> &'static sscanf::regex::Regex { %s } let r = g(); "
                    "assert!(std::ptr::eq(r, g())); enc_regex(r, input) }" % (i, self.rust_call(s)))
        if s["api"] == "from_str":
            e = ("{ let r: Result<%s, sscanf::Error> = <%s as FromScanf>::from_str(%s); "
                 "match r { Ok(v) => enc_ok(&[v.enc()]), Err(e) => enc_err(&e) } }" % (s["args"][0], s["args"][0], s.get("input_expr", "input")))
        elif arity is None:  # never succeeds in the model
            e = "match %s { Ok(_) => \"{\\\"k\\\":\\\"ok\\\"}\".to_string(), Err(e) => enc_err(&e) }" % self.rust_call(s)
        else:
            pat = {0: "()", 1: "v0"}.get(arity, "(" + ", ".join("v%d" % k for k in range(arity)) + ")")
            e = "match %s { Ok(%s) => { let vs: Vec<String> = vec![%s]; enc_ok(&vs) } Err(e) => enc_err(&e) }" % (
                self.rust_call(s), pat, ", ".join("v%d.enc()" % k for k in range(arity)))
        e = s.get("wrap", "CALL").replace("CALL", e)
        if s.get("pre") or s.get("post"):
            e = "%s let result = %s; %s result" % (s.get("pre", ""), e, s.get("post", ""))
        return "fn s%d(input: &str) -> String { %s }" % (i, e)


USER = """
pub struct NAME(pub String);
impl std::str::FromStr for NAME { type Err = UserErr; fn from_str(s: &str) -> Result<Self, UserErr> { EXTRA user_parse("NAME", s).map(NAME) } }
impl sscanf::RegexRepresentation for NAME { const REGEX: &'static str = REGEX_LIT; }
impl Enc for NAME { fn enc(&self) -> String { format!("[\\"user\\",{},{}]", cps("NAME"), cps(&self.0)) } }
impl Accepts for NAME { fn accepts(&self) -> bool { self.0.chars().count() % 2 == 0 } }
"""
MANUAL = """
pub struct NAME(pub Vec<Option<String>>);
impl sscanf::RegexRepresentation for NAME { const REGEX: &'static str = REGEX_LIT; }
impl<'t> FromScanf<'t> for NAME {
    type Err = UserErr;
    const NUM_CAPTURES: usize = NCAP;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, UserErr> {
        let first = src.next().unwrap().unwrap().as_str().to_string();
        log(format!("[\\"p\\",{},{}]", cps("NAME"), cps(&first)));
        let mut v = vec![Some(first.clone())];
        for _ in 1..TAKES { v.push(src.next().unwrap().map(|m| m.as_str().to_string())); }
        if first.contains('x') { return Err(UserErr("NAME")); }
        Ok(NAME(v))
    }
}
impl Enc for NAME { fn enc(&self) -> String { let v: Vec<String> = self.0.iter().map(|s| match s { Some(s) => format!("[{}]", cps(s)), None => "[]".to_string() }).collect(); format!("[\\"manual\\",{},[{}]]", cps("NAME"), v.join(",")) } }
impl Accepts for NAME { fn accepts(&self) -> bool { true } }
"""
TRYFROM_LT = """impl<'a> std::convert::TryFrom<%s> for TConv<%s> { type Error = UserErr; fn try_from(v: %s) -> Result<Self, UserErr> {
 log("[\\"c\\",\\"try_from\\",0]".to_string()); if v.accepts() { Ok(TConv(v)) } else { Err(UserErr("TConv")) } } }"""


# ------------------------------------------------------------------------------------------------ floats
def float_bits(s, double):
    """bits of the float that is nearest to the decimal number in s (round half to even)"""
    t = s.lower()
    neg = t.startswith("-")
    t = t.lstrip("+-")
    mant, emin, emax = (52, -1074, 1023) if double else (23, -149, 127)
    width = 64 if double else 32
    if t == "nan":
        return "nan"
    if t in ("inf", "infinity"):
        v = None
    else:
        m, _, e = t.partition("e")
        a, _, b = m.partition(".")
        ex = int(e or "0") - len(b)
        d = int((a + b) or "0")
        if d == 0:
            v = Fraction(0)
        elif ex + len(str(d)) > 400:
            v = None
        elif ex + len(str(d)) < -400:
            v = Fraction(0)
        else:
            v = Fraction(d) * (Fraction(10) ** ex)
    bias = emax
    if v is None:
        r = (2 * emax + 1) << mant
    elif v == 0:
        r = 0
    else:
        import math
        e2 = v.numerator.bit_length() - v.denominator.bit_length()
        if Fraction(2) ** e2 > v:
            e2 -= 1
        q = max(e2 - mant, emin)
        n = v / (Fraction(2) ** q)
        f = n.numerator // n.denominator
        rem = n - f
        if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and f % 2 == 1):
            f += 1
        if f >= (1 << (mant + 1)):
            f >>= 1
            q += 1
        if f < (1 << mant):
            r = f
        else:
            e = q + mant
            r = (2 * emax + 1) << mant if e > emax else ((e + bias) << mant) | (f - (1 << mant))
    if neg:
        r |= 1 << (width - 1)
    return "%0*x" % (width // 4, r)


def norm_value(v):
    """turns a value of the specification into what the harness prints"""
    if isinstance(v, list) and v and v[0] == "float":
        n = text(v[1])
        return ["float", v[1], float_bits(text(v[2]), n.endswith("64"))]
    if isinstance(v, list):
        return [norm_value(x) for x in v]
    return v


def norm_out(o):
    if o["k"] == "ok":
        return dict(k="ok", v=[norm_value(x) for x in o["v"]])
    if o["k"] == "panic":
        return dict(k="panic")
    return o


# ------------------------------------------------------------------------------------------------ running a program
CARGO_TOML = """[package]
name = "zz"
version = "0.0.0"
edition = "%(edition)s"

[[bin]]
name = "%(name)s"
path = "src/main.rs"

[dependencies]
sscanf = { path = "%(repo)s" }

[workspace]

[profile.dev]
debug = 0
incremental = false
opt-level = 0

[profile.dev.package.regex-automata]
opt-level = 1
[profile.dev.package.regex-syntax]
opt-level = 1

[profile.shipping]
inherits = "dev"
debug-assertions = false
overflow-checks = false
"""


def write_if_changed(path, data):
    if os.path.exists(path) and open(path).read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(data)


def make_crate(d, name, files, edition="2021"):
    write_if_changed(os.path.join(d, "Cargo.toml"), CARGO_TOML % dict(name=name, repo=REPO, edition=edition))
    write_if_changed(os.path.join(d, "Cargo.lock"), open(os.path.join(ROOT, "harness", "Cargo.lock")).read())
    for f, data in files.items():
        write_if_changed(os.path.join(d, f), data)


def cargo(d, args, timeout=600):
    p = subprocess.Popen(["cargo"] + args, cwd=d, env=env_rust(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)        # (with the compilers that it started)
        p.communicate()
        raise
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def compile_harness(chk, d, args, what, timeout=300):
    """cargo on a generated program.  A compiler that crashes or does not end is a violation if it can do the same with an
    empty program."""
    try:
        rc, out, err = cargo(d, args + ["--offline", "--message-format=json"], timeout)
        crash = re.search(r"\(signal: [^)]*\)", err)
        if rc == 0 or not crash:
            return rc, out, err
        how = "crashes %s" % crash.group()
    except subprocess.TimeoutExpired:
        how = "does not end within %d s" % timeout
    probe = os.path.join(chk.dir, "probe")
    make_crate(probe, "probe", {"src/main.rs": "fn main() {}"})
    rc, out, err = cargo(probe, [args[0], "--offline"], 150)
    if rc:
        raise ToolError("the compiler %s: %s\n%s" % (how, what, err[-1000:]))
    chk.violation("the compiler %s on %s" % (how, what), dict(program=d))
    raise Stop()


def diagnostics(out, file="src/main.rs"):
    """[(lines of the file it points at, message)] for every error among cargo's JSON messages"""
    res = []
    for l in out.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        lines = []
        def walk(sp):
            if sp["file_name"].endswith(file):
                lines.append((sp["line_start"], sp["column_start"], sp["line_end"], sp["column_end"]))
            elif sp.get("expansion"):
                walk(sp["expansion"]["span"])
        for sp in sorted(m["message"]["spans"], key=lambda s: not s["is_primary"]):
            walk(sp)
        msg = m["message"]["message"]
        if not m["message"]["spans"] and (msg.startswith("aborting due") or msg.startswith("could not compile")):
            continue
        res.append((lines, msg, m["message"].get("rendered") or msg))
    return res


PRE = """#![allow(dead_code, unused, deprecated, non_camel_case_types, non_snake_case, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes, clippy::all)]
#[path = "%s"] mod prelude;
use prelude::*;
use prelude::try_from;
use std::{borrow, primitive};
extern crate alloc;
"""


def program_main(prog, arities, live):
    """source text, and the index of the site (or name of the type) on each line"""
    src = [PRE % os.path.join(ROOT, "harness", "prelude.rs"), prog.rust_types()]
    n = sum(x.count("\n") + 1 for x in src)
    where = {}
    for i in live:
        t = prog.rust_site(i, prog.sites[i], arities.get(i))
        for k in range(t.count("\n") + 1):
            n += 1
            where[n] = i
        src.append(t)
    src.append("fn main() { main_with(&[%s]); }" % ", ".join("s%d" % i for i in live))
    return "\n".join(src), where


def site_cost(s):
    if s["maxlen"]:
        n = len(s["alpha"])
        return 200 + (n ** (s["maxlen"] + 1)) * s["maxlen"] // max(1, n - 1)
    return 200 + sum(10 + len(i) for i in s["inputs"])


def run_spec(chk, prog, name, module="MCSscanf", **kw):
    """every result that the model has for the program"""
    data = prog.to_json()
    costs = [site_cost(s) for s in prog.sites]
    parts = split(costs, max(1, min(CPUS, sum(costs) // 1500)))

    def job(k, only):
        path = os.path.join(chk.dir, "%s.program%d.json" % (name, k))
        with open(path, "w") as f:
            json.dump(dict(data, only=[i + 1 for i in only]), f)
        return run_tlc(chk, module, env=dict(PROGRAM=path), **kw)[0]
    res = parallel([lambda k=k, o=o: job(k, o) for k, o in enumerate(parts)])
    res = [r for part in res for r in part]
    res.sort(key=lambda r: (r["s"], len(r["i"]), r["i"]))
    return res


def describe(prog, i, inp=None):
    s = prog.sites[i]
    d = "%s(%s%s%s)" % (s.get("macro") or s["api"], s["input_expr"] + ", " if "input_expr" in s else "", rust_str(s["fmt"], s["raw"]), "".join(", " + a for a in s["args"]))
    if s["api"] == "from_str":
        d = "%s::from_str" % s["args"][0]
    if inp is not None:
        d += " on %s" % json.dumps(inp, ensure_ascii=True)
    return d


def build_program(chk, prog, name, arities, live, profile="dev"):
    """Builds the harness for the sites; sites that do not compile are violations.  Returns (binary, live sites)."""
    d = os.path.join(chk.dir, name)
    while True:
        src, where = program_main(prog, arities, live)
        make_crate(d, name, {"src/main.rs": src}, prog.edition)
        rc, out, err = compile_harness(chk, d, ["build", "--profile", profile], "program " + name)
        if rc == 0:
            return os.path.join(BUILD, "target", "debug" if profile == "dev" else profile, name), live
        bad, other = {}, []
        for lines, msg, rendered in diagnostics(out):
            hit = [where[l[0]] for l in lines if l[0] in where]
            if hit:
                bad.setdefault(hit[0], rendered)
            else:
                other.append(rendered)
        if not bad:
            t = [o for o in other if "src/main.rs" in o]
            if t:
                chk.violation("types of program %s do not compile: %s" % (name, t[0][:400]), dict(program=d, errors=t[:10]))
                return None, []
            raise ToolError("harness %s does not build:\n%s%s" % (name, "\n".join(other[:3]), err[-2000:]))
        for i, r in bad.items():
            chk.violation("%s does not compile: %s" % (describe(prog, i), r[:500]), dict(site=prog.sites[i], error=r))
        live = [i for i in live if i not in bad]
        if not live:
            return None, []


def run_bin(chk, binary, cases, extra=(), timeout=200):
    """cases: [(function index, input)] -> {case number: [(outcome, log), ...]}, None for those without an answer"""
    path = os.path.join(chk.dir, "cases_%d.txt" % (int(time.time() * 1e6) % 10 ** 9))
    with open(path, "w") as f:
        for fi, inp in cases:
            f.write("%d %s\n" % (fi, inp.encode("utf-8").hex()))
    try:
        p = subprocess.run([binary, path] + [str(x) for x in extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, how = p.stdout, "exit status %d" % p.returncode
        if p.returncode == 0:
            how = ""
    except subprocess.TimeoutExpired as e:
        out, how = e.stdout or b"", "no answer within %d s" % timeout
    os.remove(path)
    res = {}
    for l in out.decode("utf-8").split("\n"):
        if l.count("\t") == 2:
            n, o, lg = l.split("\t")
            res.setdefault(int(n), []).append((json.loads(o), json.loads(lg)))
    return res, how


def show(o):
    def v(x):
        if isinstance(x, list) and x and all(isinstance(c, int) and not isinstance(c, bool) for c in x) and all(8 <= c < 0x110000 for c in x):
            return text(x)
        if isinstance(x, list):
            return [v(y) for y in x]
        return x
    return json.dumps({k: (text(w) if k == "msg" else v(w)) for k, w in o.items()}, ensure_ascii=True)


def conform(chk, prog, name, spec=None, sample=6, threads=None):
    """Explores the program with TLC and replays every call that the model makes in the real code.
    threads: (number of threads, rounds, processes): replays them in parallel, in several orders"""
    res = spec if spec is not None else run_spec(chk, prog, name)
    chk.log("%s: %d behaviours of the model, %d sites" % (name, len(res), len(prog.sites)))
    by_site = {}
    for r in res:
        by_site.setdefault(r["s"] - 1, []).append(r)
    arities, live = {}, []
    for i, s in enumerate(prog.sites):
        rs = by_site.get(i, [])
        if not rs or any(r["o"]["k"] == "reject" for r in rs):
            raise ToolError("the specification rejects %s: %s" % (describe(prog, i), rs[:1]))
        ok = [r for r in rs if r["o"]["k"] == "ok"]
        if ok:
            arities[i] = len(ok[0]["o"]["v"])
        live.append(i)
    binary, live = build_program(chk, prog, name, arities, live)
    if binary is None:
        return res
    pos = {i: k for k, i in enumerate(live)}
    cases, exp = [], []
    for r in res:
        i = r["s"] - 1
        if i in pos:
            cases.append((pos[i], text(r["i"])))
            exp.append(r)
    got, how = run_bin(chk, binary, cases)
    if threads:
        for k in range(threads[2] if not how else 0):
            more, how2 = run_bin(chk, binary, cases, extra=(threads[0], threads[1], SEED * 1000 + k))
            how = how or how2
            for n in list(got):
                if n not in more:
                    del got[n]      # no answer
            for n, o in more.items():
                got.setdefault(n, []).extend(x for x in o if x not in got.get(n, []))
        chk.add(calls_in_parallel=len(cases) * threads[0] * threads[1] * threads[2])
    judge_calls(chk, prog, exp, got, how, sample)
    # some of the sites again, without the assertions of the debug profile
    r = random.Random("%s %d" % (name, SEED))
    live = [i for i in live if not prog.breaks_contract(prog.sites[i])]
    live = sorted(r.sample(live, min(len(live), max(6, len(live) // 4))))
    if chk.violations or not live or threads:
        return res
    binary, live = build_program(chk, prog, name + "_ship", arities, live, "shipping")
    if binary is None:
        return res
    pos = {i: k for k, i in enumerate(live)}
    exp = [r for r in res if r["s"] - 1 in pos]
    got, how = run_bin(chk, binary, [(pos[r["s"] - 1], text(r["i"])) for r in exp])
    judge_calls(chk, prog, exp, got, how, 0, " (without debug assertions)")
    chk.add(calls_without_debug_assertions=len(exp))
    return res


def judge_calls(chk, prog, exp, got, how, sample, note=""):
    """compares what the calls gave with the behaviours of the model"""
    kinds = chk.cov.setdefault("outcomes", {})
    for n, r in enumerate(exp):
        i = r["s"] - 1
        inp = text(r["i"])
        if n not in got:
            chk.violation("%s%s: %s" % (describe(prog, i, inp), note, how or "no answer"), dict(site=prog.sites[i], input=inp))
            if "within" in how:
                raise Stop()
            break
        eo = norm_out(r["o"])
        def differs(x):
            return (dict(k="panic") if x[0]["k"] == "panic" else x[0]) != eo or x[1] != norm_value(r["l"])
        o, lg = next((x for x in got[n] if differs(x)), got[n][0])
        chk.add(traces_validated_against_impl=1)
        kinds[eo["k"]] = kinds.get(eo["k"], 0) + 1
        if differs((o, lg)):
            chk.violation("%s%s: expected %s log %s, got %s log %s" % (describe(prog, i, inp), note, show(eo), show(dict(l=r["l"])), show(o), show(dict(l=lg))),
                          dict(site=prog.sites[i], input=inp, expected=eo, expected_log=r["l"], got=o, got_log=lg))
        elif chk.rng.random() < sample * 2 / max(1, len(exp)):
            chk.sample("%s -> %s" % (describe(prog, i, inp), show(eo)))
