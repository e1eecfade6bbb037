------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Layouts: which captures belong to which placeholder, what is done with  *)
(* them, and in which order.                                               *)
(*                                                                         *)
(* A leaf is one placeholder: a type and a format option.  A derived type  *)
(* has one or more variants (a struct is a type with one variant); each    *)
(* variant binds the placeholders of its format to its fields.             *)
(***************************************************************************)
EXTENDS Types

Leaf(ty, opt) == [ty |-> ty, opt |-> opt]

\* types with capture groups of their own
Nested(t) == t.k \in {"struct", "enum", "manual"}

LeafCaps(leaf, L) == IF Nested(leaf.ty) THEN L[leaf.ty.d].ncap ELSE 1

LeafRegex(leaf, L) ==
  CASE leaf.opt.k = "regex" -> leaf.opt.re
    [] leaf.opt.k = "radix" -> RadixRegex(leaf.ty, leaf.opt)
    [] leaf.ty.k \in {"struct", "enum", "manual", "user"} -> L[leaf.ty.d].re
    [] OTHER -> BuiltinRegex(leaf.ty)

\* regex of a format whose placeholders are the given leaves
FormatRegex(f, leaves, L) ==
  Concat([k \in 1..(2 * Len(leaves) + 1) |->
            IF k % 2 = 1 THEN f.parts[(k + 1) \div 2] ELSE Group(LeafRegex(leaves[k \div 2], L))])

-----------------------------------------------------------------------------
(* Binding of placeholders to fields.                                      *)
(*                                                                         *)
(* Placeholders with a name (or index) claim their field first; those      *)
(* without a name then take the fields that are left, in order of          *)
(* declaration.  Fields with a default cannot be claimed.                  *)

FieldNamed(fields, nm) ==
  LET hits == {k \in 1..Len(fields) : fields[k].name = nm \/ DecOf(k - 1) = nm} IN
  IF hits = {} THEN 0 ELSE CHOOSE k \in hits : TRUE

IsDefault(fld) == fld.conv.k \in {"default", "defexpr"}

BindNamed(phs, fields) ==
  FoldLeft(LAMBDA st, k :
             IF ~phs[k].named THEN st
             ELSE LET fi == FieldNamed(fields, phs[k].name) IN
                  IF fi = 0 THEN [st EXCEPT !.errs = Append(@, [kind |-> "no-field", ph |-> k, field |-> 0])]
                  ELSE IF st.src[fi] # 0 \/ IsDefault(fields[fi])
                  THEN [st EXCEPT !.errs = Append(@, [kind |-> "multiple-sources", ph |-> k, field |-> fi])]
                  ELSE [st EXCEPT !.src[fi] = k, !.map[k] = fi],
           [src |-> [i \in 1..Len(fields) |-> 0], map |-> [k \in 1..Len(phs) |-> 0], errs |-> <<>>],
           [k \in 1..Len(phs) |-> k])

BindRest(phs, fields, b0) ==
  FoldLeft(LAMBDA st, k :
             IF phs[k].named THEN st
             ELSE LET free == {i \in 1..Len(fields) : st.src[i] = 0 /\ ~IsDefault(fields[i])} IN
                  IF free = {} THEN [st EXCEPT !.errs = Append(@, [kind |-> "too-many", ph |-> k, field |-> 0])]
                  ELSE LET fi == CHOOSE i \in free : \A j \in free : i <= j IN
                       [st EXCEPT !.src[fi] = k, !.map[k] = fi],
           b0, [k \in 1..Len(phs) |-> k])

Bind(phs, fields) ==
  LET b    == BindRest(phs, fields, BindNamed(phs, fields))
      left == SelectSeq([i \in 1..Len(fields) |-> i], LAMBDA i : b.src[i] = 0 /\ ~IsDefault(fields[i]))
  IN [b EXCEPT !.errs = @ \o [j \in 1..Len(left) |-> [kind |-> "unbound-field", ph |-> 0, field |-> left[j]]]]

\* the type that the placeholder of a field is matched against
MatchedType(fld) == IF fld.conv.k \in {"map", "filter_map", "from", "try_from"} THEN fld.conv.ty ELSE fld.ty

\* errors of options that do not fit the type of their placeholder
OptionErr(leaf) ==
  IF leaf.opt.k = "hash" THEN "hash-unsupported"
  ELSE IF leaf.opt.k = "radix" /\ ~(leaf.ty.k = "int" /\ leaf.ty.plain) THEN "radix-type"
  ELSE ""

-----------------------------------------------------------------------------
(* Casing of generated variant formats.                                    *)

\* Words of an identifier: split at underscores, between lower and upper case, between letters and digits, and before
\* the last of several upper case letters if it starts a word.
WordStart(s, k) ==
  LET c == s[k] p == s[k - 1] IN
  \/ (IsLower(p) \/ IsDigit(p)) /\ IsUpper(c)
  \/ IsUpper(p) /\ IsUpper(c) /\ k < Len(s) /\ IsLower(s[k + 1])
  \/ IsAlpha(p) /\ IsDigit(c)
  \/ IsDigit(p) /\ IsLower(c)

Words(s) ==
  LET r == FoldLeft(LAMBDA st, k :
                      IF s[k] = Ch("_") THEN [st EXCEPT !.ws = IF st.w = <<>> THEN @ ELSE Append(@, st.w), !.w = <<>>]
                      ELSE IF st.w # <<>> /\ WordStart(s, k) THEN [ws |-> Append(st.ws, st.w), w |-> <<s[k]>>]
                      ELSE [st EXCEPT !.w = Append(@, s[k])],
                    [ws |-> <<>>, w |-> <<>>], [k \in 1..Len(s) |-> k])
  IN IF r.w = <<>> THEN r.ws ELSE Append(r.ws, r.w)

Lower(s) == [k \in 1..Len(s) |-> ToLower(s[k])]
Upper(s) == [k \in 1..Len(s) |-> ToUpper(s[k])]
Capital(s) == [k \in 1..Len(s) |-> IF k = 1 THEN ToUpper(s[k]) ELSE ToLower(s[k])]
Join(ws, sep) == Concat([k \in 1..Len(ws) |-> IF k = 1 THEN ws[k] ELSE sep \o ws[k]])
Each(ws, F(_)) == [k \in 1..Len(ws) |-> F(ws[k])]

AutogenText(casing, ident) ==
  LET ws == Words(ident) IN
  CASE casing = "CaseSensitive" -> ident
    [] casing = "lower case" -> Join(Each(ws, Lower), S(" "))
    [] casing = "UPPER CASE" -> Join(Each(ws, Upper), S(" "))
    [] casing = "lowercase" -> Join(Each(ws, Lower), <<>>)
    [] casing = "UPPERCASE" -> Join(Each(ws, Upper), <<>>)
    [] casing = "PascalCase" -> Join(Each(ws, Capital), <<>>)
    [] casing = "camelCase" -> Join([k \in 1..Len(ws) |-> IF k = 1 THEN Lower(ws[k]) ELSE Capital(ws[k])], <<>>)
    [] casing = "snake_case" -> Join(Each(ws, Lower), S("_"))
    [] casing = "SCREAMING_SNAKE_CASE" -> Join(Each(ws, Upper), S("_"))
    [] casing = "kebab-case" -> Join(Each(ws, Lower), S("-"))
    [] casing = "SCREAMING-KEBAB-CASE" -> Join(Each(ws, Upper), S("-"))

-----------------------------------------------------------------------------
(* Layouts of the types of the program.                                    *)

ResolvedFields(v) ==
  [k \in 1..Len(v.fields) |->
     LET f == v.fields[k] IN
     [name |-> f.name, ty |-> ResolveType(f.ty),
      conv |-> [k |-> f.conv.k, ty |-> ResolveType(f.conv.ty), id |-> f.conv.id]]]

\* the parsed format of a variant
VariantFormat(v, autogen) ==
  CASE v.attr = "format" -> Parse(v.fmt, v.raw, TRUE)
    [] v.attr = "unescaped" -> Parse(v.fmt, v.raw, FALSE)
    [] v.attr = "transparent" -> Parse(<<cLC, cRC>>, TRUE, TRUE)
    [] v.attr = "none" ->
         IF autogen = "CaseInsensitive"
         THEN [Parse(<<>>, TRUE, TRUE) EXCEPT !.parts = <<S("(?i:") \o Lit(v.name) \o S(")")>>]
         ELSE [Parse(<<>>, TRUE, TRUE) EXCEPT !.parts = <<Lit(AutogenText(autogen, v.name))>>]

Constructible(v, autogen) == v.attr # "skip" /\ (v.attr # "none" \/ autogen # "")

VariantLayout(v, autogen, L) ==
  LET f      == TLCEval(VariantFormat(v, autogen))
      fields == TLCEval(ResolvedFields(v))
      b      == TLCEval(Bind(f.phs, fields))
      leaves == TLCEval([k \in 1..Len(f.phs) |-> Leaf(MatchedType(fields[b.map[k]]), f.phs[k].opt)])
      defs   == SelectSeq([i \in 1..Len(fields) |-> i], LAMBDA i : IsDefault(fields[i]))
      ok     == f.m = "done" /\ b.errs = <<>> /\ \A k \in 1..Len(leaves) : OptionErr(leaves[k]) = ""
  IN IF ~ok THEN [ok |-> FALSE, format |-> f, binding |-> IF f.m = "done" THEN b.errs ELSE <<>>]
     ELSE [ok |-> TRUE, name |-> v.name, re |-> FormatRegex(f, leaves, L),
           ncap |-> 1 + SumSeq([k \in 1..Len(leaves) |-> LeafCaps(leaves[k], L)]),
           nfields |-> Len(fields), leaves |-> leaves, map |-> b.map,
           \* order of evaluation: placeholders from left to right, then the defaults
           steps |-> [k \in 1..Len(leaves) |-> [field |-> b.map[k], leaf |-> leaves[k], conv |-> fields[b.map[k]].conv,
                                                to |-> fields[b.map[k]].ty, fname |-> fields[b.map[k]].name]]
                     \o [j \in 1..Len(defs) |-> [field |-> defs[j], leaf |-> Leaf(fields[defs[j]].ty, NoOpt),
                                                 conv |-> fields[defs[j]].conv,
                                                 to |-> fields[defs[j]].ty, fname |-> fields[defs[j]].name]]]

\* d: declaration of a type, L: layouts of the types before it
TypeLayout(d, L) ==
  CASE d.k = "user" -> [k |-> "user", ok |-> TRUE, name |-> d.name, re |-> d.re, ncap |-> 1, sem |-> d.sem]
    [] d.k = "manual" -> [k |-> "manual", ok |-> TRUE, name |-> d.name, re |-> d.re, ncap |-> d.ncap, takes |-> d.takes]
    [] d.k = "struct" ->
         LET v == TLCEval(VariantLayout(d.variants[1], "", L)) IN
         IF ~v.ok THEN [k |-> "struct", ok |-> FALSE, name |-> d.name, bad |-> <<v>>]
         ELSE [k |-> "struct", ok |-> TRUE, name |-> d.name, shown |-> d.shown, re |-> v.re, ncap |-> v.ncap, vs |-> <<v>>]
    [] d.k = "enum" ->
         LET live == SelectSeq(d.variants, LAMBDA v : Constructible(v, d.autogen))
             vs   == TLCEval([k \in 1..Len(live) |-> VariantLayout(live[k], d.autogen, L)])
             badv == SelectSeq(vs, LAMBDA v : ~v.ok)
         IN IF live = <<>> \/ badv # <<>> THEN [k |-> "enum", ok |-> FALSE, name |-> d.name, bad |-> badv]
            ELSE [k |-> "enum", ok |-> TRUE, name |-> d.name, shown |-> d.shown,
                  re |-> NonCap(Concat([k \in 1..Len(vs) |-> (IF k = 1 THEN <<>> ELSE <<cBar>>) \o Group(vs[k].re)])),
                  ncap |-> 1 + SumSeq([k \in 1..Len(vs) |-> vs[k].ncap]), vs |-> vs]

LayoutsOf(types) == FoldLeft(LAMBDA acc, d : Append(acc, TLCEval(TypeLayout(d, acc))), <<>>, types)

\* The layouts of U.types.  They are the same in every state; Remember (part of every Init) has TLC compute them once.
Layouts == TLCGet(1)
Remember == TLCSet(9, Source) /\ TLCSet(1, LayoutsOf(U.types))

-----------------------------------------------------------------------------
(* Call sites: placeholders are assigned to the types of the argument      *)
(* list by position, by index, or name their type themselves.              *)

\* usize::from_str: -1 if the text is not a number
AsIndex(t) ==
  LET d == IF Len(t) > 1 /\ t[1] = cPlus THEN Tail(t) ELSE t IN
  IF d = <<>> \/ \E k \in 1..Len(d) : ~IsDigit(d[k]) THEN -1
  ELSE FoldLeft(LAMBDA acc, c : IF acc > 99999 THEN acc ELSE acc * 10 + c - 48, 0, d)

Assign(phs, args) ==
  LET n == Len(args)
      r == FoldLeft(LAMBDA st, k :
             LET ph == phs[k] IN
             IF ~ph.named
             THEN IF st.next > n THEN [st EXCEPT !.errs = Append(@, [kind |-> "more-placeholders", ph |-> k, arg |-> 0]),
                                                 !.next = @ + 1, !.types = Append(@, NoType)]
                  ELSE [st EXCEPT !.next = @ + 1, !.used = @ \cup {st.next}, !.types = Append(@, ResolveType(args[st.next]))]
             ELSE LET i == AsIndex(ph.name) IN
                  IF i = -1
                  THEN LET t == ResolveType(ph.name) IN
                       [st EXCEPT !.types = Append(@, t),
                                  !.errs = IF t.k = "unknown" THEN Append(@, [kind |-> "bad-type", ph |-> k, arg |-> 0]) ELSE @]
                  ELSE IF i >= n THEN [st EXCEPT !.errs = Append(@, [kind |-> "index-range", ph |-> k, arg |-> 0]),
                                                 !.types = Append(@, NoType)]
                  ELSE [st EXCEPT !.used = @ \cup {i + 1}, !.types = Append(@, ResolveType(args[i + 1]))],
             [next |-> 1, used |-> {}, types |-> <<>>, errs |-> <<>>], [k \in 1..Len(phs) |-> k])
      unused == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin r.used)
  IN [types |-> r.types, errs |-> r.errs \o [j \in 1..Len(unused) |-> [kind |-> "unused-type", ph |-> 0, arg |-> unused[j]]]]

\* the argument that a placeholder takes its type from, 0 if it names its type itself
ArgOf(phs, k) ==
  IF phs[k].named THEN (IF AsIndex(phs[k].name) = -1 THEN 0 ELSE AsIndex(phs[k].name) + 1)
  ELSE Cardinality({j \in 1..k : ~phs[j].named})

Mark(kind, from, to) == [kind |-> kind, from |-> from, to |-> to, arg |-> 0]
MarkArg(kind, a) == [kind |-> kind, from |-> 0, to |-> 0, arg |-> a]

\* A call site: [ok, errs, re, leaves].  Every error marks a part of the format or a type of the argument list.
SiteLayout(s) ==
  IF s.api = "from_str"
  THEN LET t == ResolveType(s.args[1]) IN
       [ok |-> TRUE, leaves |-> <<Leaf(t, NoOpt)>>, re |-> NonCap(LeafRegex(Leaf(t, NoOpt), Layouts)), errs |-> <<>>]
  ELSE LET f == TLCEval(Parse(s.fmt, s.raw, s.api # "unescaped")) IN
       IF f.m # "done" THEN [ok |-> FALSE, errs |-> <<Mark(f.err.kind, f.err.from, f.err.to)>>]
       ELSE LET a == TLCEval(Assign(f.phs, s.args))
                leaves == TLCEval([k \in 1..Len(f.phs) |-> Leaf(a.types[k], f.phs[k].opt)])
                oe == SelectSeq([k \in 1..Len(leaves) |-> k], LAMBDA k : OptionErr(leaves[k]) # "")
                mark(e) == IF e.ph = 0 THEN MarkArg(e.kind, e.arg)
                           ELSE LET ph == f.phs[e.ph] IN
                                IF ph.named THEN Mark(e.kind, ph.is, ph.ie - 1) ELSE Mark(e.kind, ph.from, ph.to)
            IN IF a.errs # <<>> THEN [ok |-> FALSE, errs |-> [j \in 1..Len(a.errs) |-> mark(a.errs[j])]]
               ELSE IF oe # <<>>
               THEN LET k == oe[1] ph == f.phs[k] kind == OptionErr(leaves[k]) IN
                    [ok |-> FALSE, errs |-> <<IF kind = "hash-unsupported" THEN Mark(kind, ph.os, ph.oe - 1)
                                              ELSE IF ArgOf(f.phs, k) # 0 THEN MarkArg(kind, ArgOf(f.phs, k))
                                              ELSE Mark(kind, ph.is, ph.ie - 1)>>]
               ELSE [ok |-> TRUE, errs |-> <<>>, leaves |-> leaves, re |-> FormatRegex(f, leaves, Layouts)]
=============================================================================
