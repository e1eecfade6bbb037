------------------------------- MODULE MCAttr -------------------------------
(***************************************************************************)
(* The attributes of derives.  All sequences of at most maxlen tokens that *)
(* can be written as `sscanf` attributes at a place (a context of          *)
(* U.contexts), and what the derive makes of them: "ok", with the one      *)
(* attribute that holds, "macro" (the macro rejects it) or "later" (the    *)
(* value has not the type that it needs).                                  *)
(*                                                                         *)
(* Tokens (of U.tokens), by their t:                                       *)
(*   list   begins another attribute: #[sscanf(..)] or with other          *)
(*          brackets (form "list"), #[sscanf] or #[sscanf = ..] (form      *)
(*          "other"), an attribute of somebody else (form "foreign")       *)
(*   name   a name, which is s                                             *)
(*   eq, comma                                                             *)
(*   val    a value: k is str (v, raw), int, expr (of the type of the      *)
(*          field), type or gentype (one that is no expression; fits:      *)
(*          convertible to the type of the field), or closure (with n      *)
(*          parameters, typed or not, that returns ret)                    *)
(***************************************************************************)
EXTENDS Derive, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

VARIABLES ctx, toks, st

vars == <<ctx, toks, st>>

Place == U.contexts[ctx]
Tok(k) == U.tokens[k]

-----------------------------------------------------------------------------
(* The grammar: a sequence of lists of items, each a name with or without  *)
(* a value, or a bare string.                                              *)

NoItem == [name |-> "", val |-> 0, gen |-> FALSE]
\* between lists; at the start of an item; after its name; after `=`; after its value; after a bare string
Modes == {"none", "item", "name", "value", "after", "bare", "bad"}

Empty == [m |-> "none", items |-> <<>>, cur |-> NoItem]
Reject(s) == [s EXCEPT !.m = "bad"]

Push(s, m) == [m |-> m, items |-> Append(s.items, s.cur), cur |-> NoItem]
\* the list ends
Close(s) == CASE s.m \in {"none", "item"} -> [s EXCEPT !.m = "none"]
              [] s.m \in {"name", "after", "bare"} -> Push(s, "none")
              [] OTHER -> Reject(s)

IsValue(t) == t.t \in {"val", "name"}
\* a type that is no expression can only be the entire value of an attribute that takes a type
TakesType(n) == n \in {"from", "try_from"}

Feed1(s, k) ==
  LET t == Tok(k) IN
  CASE s.m = "bad" -> s
    [] t.t = "list" -> LET c == Close(s) IN
         IF c.m = "bad" THEN c ELSE IF t.form = "list" THEN [c EXCEPT !.m = "item"]
         ELSE IF t.form = "foreign" THEN c ELSE Reject(c)
    [] s.m = "none" -> Reject(s)
    [] t.t = "comma" -> IF s.m \in {"name", "after", "bare"} THEN Push(s, "item") ELSE Reject(s)
    [] t.t = "eq" -> IF s.m = "name" THEN [s EXCEPT !.m = "value"]
                     ELSE IF s.m = "after" /\ Tok(s.cur.val).t = "val" /\ Tok(s.cur.val).k # "gentype"
                     THEN [s EXCEPT !.m = "value", !.cur.gen = TRUE]  \* an assignment
                     ELSE Reject(s)
    [] s.m = "item" -> IF t.t = "name" THEN [s EXCEPT !.m = "name", !.cur.name = t.s]
                       ELSE IF t.k = "str" THEN [s EXCEPT !.m = "bare", !.cur.name = IF t.raw THEN "format_unescaped" ELSE "format",
                                                                        !.cur.val = k]
                       ELSE Reject(s)
    [] s.m = "value" -> IF t.t = "val" /\ t.k = "gentype" /\ (s.cur.gen \/ ~TakesType(s.cur.name)) THEN Reject(s)
                        ELSE [s EXCEPT !.m = "after", !.cur.val = IF s.cur.gen THEN @ ELSE k]
    [] OTHER -> Reject(s)

\* what is not specified: tokens outside of attributes, and values that are expressions of other forms
Specified(s, k) == LET t == Tok(k) IN
  (s.m = "none" => t.t = "list") /\
  ~(s.m = "after" /\ t.t = "val" /\ t.k = "closure") /\ ~(s.m = "after" /\ t.t = "eq" /\ Tok(s.cur.val).t = "name")
  /\ ~(s.m = "value" /\ s.cur.gen /\ t.t = "val" /\ t.k = "closure")

-----------------------------------------------------------------------------
(* Their meaning.                                                          *)

Names(place) == CASE place = "struct" -> {"format", "format_unescaped", "transparent"}
                  [] place = "variant" -> {"format", "format_unescaped", "transparent", "skip"}
                  [] place = "enum" -> {"autogen", "autogenerate"}
                  [] place = "field" -> {"default", "map", "filter_map", "from", "try_from"}
                  [] OTHER -> {}

Casings == {"CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase",
            "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"}

HasValue(it) == it.val # 0
IsStr(it) == HasValue(it) /\ ~it.gen /\ Tok(it.val).t = "val" /\ Tok(it.val).k = "str"
IsVal(it, k) == HasValue(it) /\ Tok(it.val).t = "val" /\ Tok(it.val).k = k

Fields(n, conv) == [k \in 1..n |-> [name |-> DecOf(k - 1), conv |-> [k |-> conv]]]
Fits(fmt, raw, escape, fields) ==
  LET f == Parse(fmt, raw, escape) IN f.m = "done" /\ Bind(f.phs, fields).errs = <<>>

\* a format attribute of a struct or variant with the given fields
FormatOk(it, fields) ==
  IF it.name = "transparent" THEN ~HasValue(it) /\ Len(fields) = 1
  ELSE IsStr(it) /\ Fits(Tok(it.val).v, Tok(it.val).raw, it.name = "format", fields)

\* an attribute of a field
FieldVerdict(it) ==
  CASE it.name = "default" ->
         IF ~HasValue(it) \/ (IsVal(it, "expr") /\ ~it.gen) THEN "ok" ELSE "later"
    [] it.name \in {"map", "filter_map"} ->
         IF ~IsVal(it, "closure") \/ Tok(it.val).n # 1 \/ ~Tok(it.val).typed THEN "macro"
         ELSE IF it.gen \/ Tok(it.val).ret # (IF it.name = "map" THEN "value" ELSE "option") THEN "later" ELSE "ok"
    [] OTHER ->
         IF it.gen \/ ~HasValue(it) THEN "macro"
         ELSE IF Tok(it.val).t = "name" THEN "later"
         ELSE IF Tok(it.val).k \notin {"type", "gentype"} THEN "macro"
         ELSE IF Tok(it.val).fits THEN "ok" ELSE "later"

Result(c, items) ==
  LET none == items = <<>>
      it   == items[1]
  IN
  IF c.place = "union" \/ Len(items) > 1 \/ \E k \in 1..Len(items) : items[k].name \notin Names(c.place) THEN "macro"
  ELSE CASE c.place = "struct" -> IF ~none /\ FormatOk(it, Fields(c.nf, "none")) THEN "ok" ELSE "macro"
         [] c.place = "variant" ->
              IF none THEN IF c.autogen THEN (IF c.nf = 0 THEN "ok" ELSE "macro") ELSE (IF c.other THEN "ok" ELSE "macro")
              ELSE IF it.name = "skip" THEN (IF ~HasValue(it) /\ c.other THEN "ok" ELSE "macro")
              ELSE IF FormatOk(it, Fields(c.nf, "none")) THEN "ok" ELSE "macro"
         [] c.place = "enum" ->
              LET auto == ~none
                  made(v) == v.attr = "format" \/ (auto /\ v.attr = "none")
              IN IF auto /\ HasValue(it) /\ (~IsStr(it) \/ Tok(it.val).s \notin Casings) THEN "macro"
                 ELSE IF auto /\ \E k \in 1..Len(c.variants) : c.variants[k].attr = "none" /\ c.variants[k].nf > 0 THEN "macro"
                 ELSE IF \E k \in 1..Len(c.variants) : made(c.variants[k]) THEN "ok" ELSE "macro"
         [] c.place = "field" ->
              LET v == IF none THEN "ok" ELSE FieldVerdict(it) IN
              IF v = "macro" \/ ~Fits(c.fmt, FALSE, TRUE, Fields(1, IF none THEN "none" ELSE it.name)) THEN "macro" ELSE v

Verdict(c, s) == LET e == Close(s) IN
  IF e.m = "bad" THEN [r |-> "macro", items |-> <<>>] ELSE [r |-> Result(c, e.items), items |-> e.items]

-----------------------------------------------------------------------------
Init == /\ Remember
        /\ \E k \in 1..Len(U.contexts) : ctx = k
        /\ toks = <<>> /\ st = Empty

Next == /\ Len(toks) < Place.maxlen
        /\ st.m # "bad"
        /\ \E j \in 1..Len(Place.use) :
             LET k == Place.use[j] IN
             /\ Specified(st, k)
             /\ toks' = Append(toks, k)
             /\ st' = Feed1(st, k)
        /\ ctx' = ctx

Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([c |-> ctx, toks |-> toks, v |-> Verdict(Place, st)]))

-----------------------------------------------------------------------------
\* what is accepted is at most one attribute, of those that the place has
Invariants ==
  LET v == Verdict(Place, st) IN
  /\ st.m \in Modes
  /\ v.r = "ok" => Len(v.items) <= 1 /\ \A k \in 1..Len(v.items) : v.items[k].name \in Names(Place.place)
  \* it makes no difference how the attributes are spread over lists
  /\ v.r # "macro" => Verdict(Place, [Empty EXCEPT !.items = v.items]).r = v.r
=============================================================================
