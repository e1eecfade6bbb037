"""Compile-time conformance: which lines of generated programs compile, and what the errors of the others point at."""
import unicodedata
from vt import *

CHECK_TOML = """[package]
name = "zz"
version = "0.0.0"
edition = "2021"

%(bins)s
[dependencies]
sscanf = { path = "%(repo)s" }

[workspace]

[profile.dev]
debug = 0
incremental = false
"""


class Case:
    """One line of Rust.  expect: "ok", "macro" (rejected by a macro) or "later" (rejected, possibly after expansion).
    errs: what the errors have to point at, as (first, last) character of the format or ("arg", first column, column after it); None: anything"""

    def __init__(self, key, code, expect, errs=None, lit=None, data=None):
        self.key, self.code, self.expect, self.errs, self.lit, self.data = key, code, expect, errs, lit, data


def check_bins(chk, name, groups, prelude, items):
    """groups: list of lists of cases, each a program.  Returns for every group {line: [(spans, message, rendered)]}
    and the errors that belong to no line."""
    d = os.path.join(chk.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    bins = "".join('[[bin]]\nname = "%s_%d"\npath = "src/b%d.rs"\n\n' % (name, k, k) for k in range(len(groups)))
    write_if_changed(os.path.join(d, "Cargo.toml"), CHECK_TOML % dict(bins=bins, repo=REPO))
    write_if_changed(os.path.join(d, "Cargo.lock"), open(os.path.join(ROOT, "harness", "Cargo.lock")).read())
    head = (PRE if prelude else PRE_SHORT) % os.path.join(ROOT, "harness", "prelude.rs") if prelude else PRE_SHORT
    head += "".join(i + "\n" for i in items) + "fn main() {}\n"
    base = head.count("\n")
    for k, g in enumerate(groups):
        for c in g:
            assert "\n" not in c.code, c.code
        write_if_changed(os.path.join(d, "src/b%d.rs" % k), head + "".join(c.code + "\n" for c in g))
    rc, out, err = compile_harness(chk, d, ["check", "--bins", "--keep-going"], "the cases of " + name)
    if rc != 0 and "could not compile" not in err:
        raise ToolError("cargo check failed in %s:\n%s" % (d, err[-3000:]))
    res, rest = [], []
    for k, g in enumerate(groups):
        m = {}
        for spans, msg, rendered in diagnostics(out, "b%d.rs" % k):
            hit = [s for s in spans if s[0] > base]
            if hit:
                m.setdefault(hit[0][0] - base - 1, []).append((hit, msg, rendered))
            elif spans:
                rest.append((k, rendered))
        res.append(m)
    for l in out.split("\n"):
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("reason") == "compiler-message" and j["message"]["level"] == "error" and not j["message"]["spans"]:
                t = j["message"]["message"]
                if not (t.startswith("aborting due") or t.startswith("could not compile")):
                    rest.append((-1, t))
    return res, rest


PRE_SHORT = """#![allow(dead_code, unused, deprecated, non_camel_case_types, non_snake_case, clippy::all)]
use std::{borrow, primitive, borrow::Cow, num::*, path::PathBuf, string::String};
use sscanf::{sscanf, sscanf_get_regex, sscanf_unescaped, FromScanf, FullF32, FullF64, HexNumber};
"""


def width(s):
    w = 0
    for c in s:
        if unicodedata.combining(c) or c in "\u200b\u200d\ufe0f":
            continue
        w += 2 if unicodedata.east_asian_width(c) in "WF" else 1
    return w


def carets(msg):
    """(column, length) of the marker below the literal that the message repeats, relative to the literal; None without"""
    ls = msg.split("\n")
    for i in range(len(ls) - 1, 0, -1):
        if ls[i].strip() and not ls[i].strip().strip("^"):
            return ls[i].index("^"), ls[i].count("^"), ls[i - 1]
    return None


def judge(c, errs):
    """'' or what is wrong with the errors of a case.  Stable compilers mark the literal, and the message repeats it with
    the part marked; nightly ones mark the part itself."""
    if c.expect == "ok":
        return "does not compile: " + errs[0][2][:400] if errs else ""
    if not errs:
        return "compiles, but should be rejected"
    bad = [e for e in errs if "panicked" in e[1]]
    if bad:
        return "the macro panics: " + bad[0][2][:400]
    if c.expect == "macro" and all(e[2].startswith("error[E") for e in errs):
        return "the macro does not reject it, only the code that it generates is rejected: " + errs[0][2][:400]
    if c.errs is None:
        return ""
    got = []
    for spans, msg, rendered in errs:
        s = spans[0]
        text_at = (s[1] - 1, s[3] - 1)
        k = carets(msg) if toolchain[0] == STABLE else None
        if k is None:
            got.append(("at",) + text_at)
        elif c.code[text_at[0]:text_at[1]] != c.lit:
            got.append(("elsewhere", c.code[text_at[0]:text_at[1]]))
        else:
            line = k[2]
            if c.lit not in line:
                got.append(("no literal", line))
            else:
                got.append((k[0] - width(line[:line.index(c.lit)]), k[1]))
    want = []
    for e in c.errs:
        if e[0] == "arg":
            want.append(("at", e[1], e[2]))
        elif toolchain[0] == NIGHTLY:
            at = c.code.index(c.lit) + c.lit.index('"')
            want.append(("at", at + e[0], at + 1 + e[1]))
        else:
            pre = c.lit.index('"') + 1
            want.append((width(c.lit[:pre + e[0] - 1]), width(c.lit[pre + e[0] - 1:pre + e[1]])))
    if set(map(str, got)) != set(map(str, want)):  # rustc shows equal errors only once
        return "should mark %s, marks %s: %s" % (want, got, errs[0][2][:500])
    return ""


def on_nightly(chk, name, cases, n, **kw):
    """some of the cases once more with a nightly compiler, if there is one that can build the crate"""
    d = os.path.join(chk.dir, "on_nightly")
    make_crate(d, "on_nightly", {"src/main.rs": "fn main() {}"})
    toolchain[0] = NIGHTLY
    try:
        if cargo(d, ["check", "--offline"])[0]:
            chk.log("no nightly compiler")
        else:
            cases = [c for c in cases if not c.lit or c.code.count(c.lit) == 1]
            compile_cases(chk, name, cases if THOROUGH else chk.rng.sample(cases, min(len(cases), n)), **kw)
    finally:
        toolchain[0] = STABLE


def compile_cases(chk, name, cases, prelude=False, items=(), per=700):
    """checks every case; those that look wrong are tried again on their own before they are reported"""
    groups = []
    for e in ("ok", "macro", "later"):
        g = [c for c in cases if c.expect == e]
        n = max(1, (len(g) + per - 1) // per)
        if g:
            size = (len(g) + n - 1) // n
            groups += [g[i:i + size] for i in range(0, len(g), size)]
    suspects = []
    res, rest = check_bins(chk, name, groups, prelude, items)
    for g, m in zip(groups, res):
        for i, c in enumerate(g):
            if judge(c, m.get(i, [])):
                suspects.append(c)
    chk.log("%s: %d cases in %d programs, %d to look at again" % (name, len(cases), len(groups), len(suspects)))
    if rest and not suspects:
        chk.violation("errors outside of the cases of %s: %s" % (name, rest[0][1][:400]), dict(errors=[r[1] for r in rest[:10]]))
        raise Stop()
    # once more without the others: errors of the macros keep the compiler from finding those that come later
    while len(suspects) > 40:
        gs = [[c for c in suspects if c.expect == e] for e in ("ok", "macro", "later")]
        gs = [g[k::4] for g in gs for k in range(4) if g[k::4]]
        res, rest = check_bins(chk, name + "_less", gs, prelude, items)
        still = [c for g, m in zip(gs, res) for i, c in enumerate(g) if judge(c, m.get(i, []))]
        done = len(still) > 0.7 * len(suspects)
        suspects = still
        if done:
            break
    suspects.sort(key=lambda c: len(c.code))
    tried, found = 0, len(chk.violations)
    while suspects and len(chk.violations) == found:
        if tried >= 240:
            raise ToolError("%d cases of %s look wrong among others, but not alone: %s" % (tried + len(suspects), name, suspects[0].key))
        batch, suspects = suspects[:60], suspects[60:]
        tried += len(batch)
        res, rest = check_bins(chk, name + "_again", [[c] for c in batch], prelude, items)
        for c, m in zip(batch, res):
            j = judge(c, m.get(0, []))
            if j:
                chk.violation("%s: %s" % (c.key, j), dict(code=c.code, errors=[e[2] for e in m.get(0, [])], expected=[c.expect, c.errs], data=c.data))
    chk.add(traces_validated_against_impl=len(cases), compiled=len(cases))
    shutil.rmtree(os.path.join(BUILD, "target", "debug", "incremental"), ignore_errors=True)
