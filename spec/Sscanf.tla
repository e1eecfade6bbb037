------------------------------- MODULE Sscanf -------------------------------
(***************************************************************************)
(* The calls of a program that uses sscanf.                                *)
(*                                                                         *)
(* U.types: the types the program defines; U.sites: its call sites.  One   *)
(* behaviour is one call: the format is compiled (Define), the call gets   *)
(* its input (Call, or Type and Submit where the model itself makes up the *)
(* input), the input is matched (Match), and the captures are converted    *)
(* one after the other (the actions from TakeLeaf to Build) until a value  *)
(* or an error is returned.                                                *)
(***************************************************************************)
EXTENDS Derive

VARIABLES
  phase,    \* "start", "typing", "ready", "called", "conv", "done"
  site,     \* index of the call site
  prog,     \* the compiled format (only until the input is matched)
  inp,      \* the input
  caps,     \* captures: 2 positions for every group, see Regex!Run
  cur,      \* number of captures that have been taken
  work,     \* what is left to do, next step first
  vals,     \* values that are not part of a finished value yet, last one first
  frames,   \* derived types that are being converted, outermost first
  log,      \* calls into user code so far
  out       \* result of the call

vars == <<phase, site, prog, inp, caps, cur, work, vals, frames, log, out>>

Site == U.sites[site]

Pending == [k |-> "pending"]
OutOk(vs) == [k |-> "ok", v |-> vs]
OutMatchFailed == [k |-> "match-failed"]
OutParsing(es) == [k |-> "parsing-failed", es |-> es]
OutPanic(why) == [k |-> "panic", why |-> why]
OutReject(errs) == [k |-> "reject", errs |-> errs]

\* the variables in a state where nothing has been converted yet
Fresh == caps = <<>> /\ cur = 0 /\ work = <<>> /\ vals = <<>> /\ frames = <<>> /\ log = <<>>

Init == /\ Remember
        /\ phase = "start" /\ \E k \in 1..Len(U.only) : site = U.only[k]
        /\ prog = <<>> /\ inp = <<>> /\ out = Pending /\ Fresh

-----------------------------------------------------------------------------
LeafTask(leaf) == [t |-> "leaf", leaf |-> leaf]

Define ==
  /\ phase = "start"
  /\ LET l == TLCEval(SiteLayout(Site)) IN
     IF l.ok
     THEN \* alternatives in the text of an unescaped format are not all anchored
         LET p == TLCEval(IF Site.api = "unescaped" THEN CompileSearch(Anchored(l.re)) ELSE Compile(Anchored(l.re))) IN
          /\ prog' = [code |-> p.code, groups |-> p.groups, leaves |-> l.leaves,
                      want |-> SumSeq([k \in 1..Len(l.leaves) |-> LeafCaps(l.leaves[k], Layouts)])]
          /\ phase' = IF Site.maxlen > 0 THEN "typing" ELSE "ready"
          /\ out' = out
     ELSE /\ prog' = prog /\ phase' = "done" /\ out' = OutReject(l.errs)
  /\ UNCHANGED <<site, inp, caps, cur, work, vals, frames, log>>

\* The input expression is evaluated, once; in some sites that leaves a trace.
Evaluate == log' = IF Site.counted THEN << <<"i">> >> ELSE log

\* The program calls with one of the inputs it has...
Call ==
  /\ phase = "ready"
  /\ \E k \in 1..Len(Site.inputs) : inp' = Site.inputs[k]
  /\ phase' = "called"
  /\ Evaluate
  /\ UNCHANGED <<site, prog, caps, cur, work, vals, frames, out>>

\* ... or with any text over an alphabet of characters and words.
Type ==
  /\ phase = "typing" /\ Len(inp) < Site.maxlen
  /\ \E k \in 1..Len(Site.alpha) : inp' = inp \o Site.alpha[k]
  /\ UNCHANGED <<phase, site, prog, caps, cur, work, vals, frames, log, out>>

Submit ==
  /\ phase = "typing" /\ phase' = "called"
  /\ Evaluate
  /\ UNCHANGED <<site, prog, inp, caps, cur, work, vals, frames, out>>

\* types with a FromStr implementation parse the entire input in from_str, without matching it first
Direct == Site.api = "from_str" /\ ~Nested(prog.leaves[1].ty)

Match ==
  /\ phase = "called"
  /\ prog' = <<>>
  /\ IF Direct
     THEN /\ caps' = <<1, Len(inp) + 1>> /\ cur' = 0
          /\ work' = <<LeafTask(prog.leaves[1])>> /\ phase' = "conv" /\ out' = out
     ELSE IF prog.groups # (IF Site.api = "from_str" THEN prog.want - 1 ELSE prog.want)   \* no group around the type in from_str
     THEN phase' = "done" /\ out' = OutPanic("captures") /\ UNCHANGED <<caps, cur, work>>
     ELSE LET r == TLCEval(Run(prog, inp)) IN
          IF Site.api = "get_regex"
          THEN /\ phase' = "done" /\ UNCHANGED <<caps, cur, work>>
               /\ out' = [k |-> "regex", caps |-> [j \in 1..Len(r) |-> IF r[j] = 0 THEN -1 ELSE Bytes(Take(inp, r[j] - 1))]]
          ELSE IF r = <<>>
          THEN phase' = "done" /\ out' = OutMatchFailed /\ UNCHANGED <<caps, cur, work>>
          ELSE /\ caps' = r /\ out' = out /\ phase' = "conv"
               /\ cur' = IF Site.api = "from_str" THEN 0 ELSE 1        \* sscanf! skips the whole match
               /\ work' = [k \in 1..Len(prog.leaves) |-> LeafTask(prog.leaves[k])]
  /\ UNCHANGED <<site, inp, vals, frames, log>>

-----------------------------------------------------------------------------
(* Conversion.                                                             *)

Step(t) == phase = "conv" /\ work # <<>> /\ Head(work).t = t
Task == Head(work)
NumGroups == Len(caps) \div 2

Participates(g) == caps[2 * g + 1] # 0
Text(g) == Slice(inp, caps[2 * g + 1], caps[2 * g + 2])
Offset(g) == Bytes(Take(inp, caps[2 * g + 1] - 1))

Push(v) == vals' = <<v>> \o vals
Fail1(es) == /\ phase' = "done" /\ work' = <<>>
             /\ out' = OutParsing([k \in 1..Len(frames) |-> <<"fromscanf", frames[k]>>] \o es)
Crash(why) == phase' = "done" /\ work' = <<>> /\ out' = OutPanic(why)

UserBad(s) == \E k \in 1..Len(s) : s[k] = Ch("x")     \* what the types of the program refuse
UserPanic(s) == \E k \in 1..Len(s) : s[k] = Ch("!")   \* and what makes them panic

ConvertLeaf(leaf, g) ==
  LET t == leaf.ty s == Text(g) IN
  CASE t.k = "str" -> Good(<<"str", Offset(g), s>>)
    [] t.k = "cow" -> Good(<<"cow", Offset(g), s>>)
    [] t.k = "user" -> IF UserBad(s) THEN Bad(EFromStr(t, <<"user", t.name>>)) ELSE Good(<<"user", t.name, s>>)
    [] leaf.opt.k = "radix" -> RadixConvert(t, leaf.opt, s)
    [] OTHER -> FromStr(t, s)

\* a placeholder whose type has no captures of its own
TakeLeaf ==
  /\ Step("leaf") /\ ~Nested(Task.leaf.ty)
  /\ cur' = cur + 1
  /\ log' = IF Task.leaf.ty.k = "user" /\ cur < NumGroups /\ Participates(cur)
            THEN Append(log, <<"p", Task.leaf.ty.name, Text(cur)>>) ELSE log
  /\ IF cur >= NumGroups \/ ~Participates(cur)
     THEN Crash("optional") /\ UNCHANGED vals
     ELSE IF Task.leaf.ty.k = "user" /\ UserPanic(Text(cur))
     THEN Crash("user") /\ UNCHANGED vals
     ELSE LET r == ConvertLeaf(Task.leaf, cur) IN
          IF r.ok THEN Push(r.v) /\ work' = Tail(work) /\ UNCHANGED <<phase, out>>
          ELSE Fail1(r.es) /\ UNCHANGED vals
  /\ UNCHANGED <<site, prog, inp, caps, frames>>

\* a type that takes its captures by itself
TakeManual ==
  /\ Step("leaf") /\ Task.leaf.ty.k = "manual"
  /\ LET l == Layouts[Task.leaf.ty.d]
         gs == [j \in 1..l.takes |-> cur + j - 1]
     IN IF cur + l.takes > NumGroups
        THEN Crash("manual") /\ UNCHANGED <<vals, cur>>
        ELSE /\ cur' = cur + l.takes
             /\ IF UserBad(Text(cur)) THEN Fail1(<< <<"user", l.name>> >>) /\ UNCHANGED vals
                ELSE IF l.takes # l.ncap THEN Crash("manual") /\ UNCHANGED vals
                ELSE /\ Push(<<"manual", l.name, [j \in 1..l.takes |-> IF Participates(gs[j]) THEN <<Text(gs[j])>> ELSE <<>>]>>)
                     /\ work' = Tail(work) /\ UNCHANGED <<phase, out>>
  /\ log' = IF cur < NumGroups THEN Append(log, <<"p", Task.leaf.ty.name, Text(cur)>>) ELSE log
  /\ UNCHANGED <<site, prog, inp, caps, frames>>

\* the steps for the fields of a variant
FieldTasks(v) ==
  Concat([k \in 1..Len(v.steps) |->
    LET st == v.steps[k] IN
    IF st.conv.k \in {"default", "defexpr"} THEN <<[t |-> "default", conv |-> st.conv, ty |-> st.leaf.ty]>>
    ELSE IF st.conv.k = "none" THEN <<LeafTask(st.leaf)>>
    ELSE <<LeafTask(st.leaf), [t |-> "conv", conv |-> st.conv, to |-> st.to, fname |-> st.fname]>>])

OpenStruct ==
  /\ Step("leaf") /\ Task.leaf.ty.k = "struct"
  /\ LET l == Layouts[Task.leaf.ty.d] IN
     /\ cur' = cur + 1
     /\ frames' = Append(frames, l.shown)
     /\ work' = FieldTasks(l.vs[1]) \o <<[t |-> "build", d |-> Task.leaf.ty.d, v |-> 1, skip |-> 0]>> \o Tail(work)
  /\ UNCHANGED <<phase, site, prog, inp, caps, vals, log, out>>

OpenEnum ==
  /\ Step("leaf") /\ Task.leaf.ty.k = "enum"
  /\ cur' = cur + 1
  /\ frames' = Append(frames, Layouts[Task.leaf.ty.d].shown)
  /\ work' = <<[t |-> "variant", d |-> Task.leaf.ty.d, v |-> 1]>> \o Tail(work)
  /\ UNCHANGED <<phase, site, prog, inp, caps, vals, log, out>>

\* captures of the variants after the k-th
CapsAfter(l, k) == SumSeq([j \in 1..(Len(l.vs) - k) |-> l.vs[k + j].ncap])

TryVariant ==
  /\ Step("variant")
  /\ LET l == Layouts[Task.d] v == l.vs[Task.v] IN
     IF Participates(cur)
     THEN /\ cur' = cur + 1
          /\ work' = FieldTasks(v) \o <<[t |-> "build", d |-> Task.d, v |-> Task.v, skip |-> CapsAfter(l, Task.v)]>> \o Tail(work)
          /\ UNCHANGED <<phase, out>>
     ELSE IF Task.v = Len(l.vs) THEN Crash("no-variant") /\ UNCHANGED cur
     ELSE /\ cur' = cur + v.ncap
          /\ work' = <<[Task EXCEPT !.v = @ + 1]>> \o Tail(work)
          /\ UNCHANGED <<phase, out>>
  /\ UNCHANGED <<site, prog, inp, caps, vals, frames, log>>

\* what the filter functions of the program let through
Accepts(v) ==
  CASE v[1] = "int" -> (v[3][Len(v[3])] - 48) % 2 = 0
    [] v[1] \in {"str", "cow", "user"} -> Len(v[3]) % 2 = 0
    [] v[1] \in {"string", "path"} -> Len(v[2]) % 2 = 0
    [] v[1] = "char" -> v[2] % 2 = 0
    [] v[1] = "bool" -> v[2]
    [] OTHER -> TRUE

\* Conversions to types of the standard library (when the field has such a type) with its From and TryFrom, ...
CodeOf(ds) == FoldLeft(LAMBDA n, d : n * 10 + (d - 48), 0, ds)
StdConvert(v, t) ==
  CASE v[1] = "int" /\ t.k = "int" ->
         LET r == IF t.nz THEN ParseNonZero(v[3], t.signed, t.bits) ELSE ParseInt(v[3], t.signed, t.bits, 10) IN
         IF r.ok THEN Good(VInt(t, r)) ELSE Bad(<< <<"tryint">> >>)
    [] v[1] = "int" /\ t.k = "char" ->
         LET ok == Len(v[3]) <= 7 /\ CodeOf(v[3]) <= 1114111 /\ CodeOf(v[3]) \notin 55296..57343 IN
         IF ok THEN Good(<<"char", CodeOf(v[3])>>) ELSE Bad(<< <<"inttochar">> >>)
    [] v[1] = "char" /\ t.k = "int" ->
         LET r == ParseInt(DecOf(v[2]), t.signed, t.bits, 10) IN
         IF r.ok THEN Good(VInt(t, r)) ELSE Bad(<< <<"chartoint">> >>)
    [] v[1] = "bool" /\ t.k = "int" -> Good(<<"int", t.name, IF v[2] THEN <<49>> ELSE <<48>> >>)
    [] v[1] \in {"str", "cow"} /\ t.k = "string" -> Good(<<"string", v[3]>>)
    [] v[1] = "string" /\ t.k = "path" -> Good(<<"path", v[2]>>)
    [] v[1] = "char" /\ t.k = "string" -> Good(<<"string", <<v[2]>> >>)
    [] OTHER -> Good(v)
\* ... or with a closure from a type to itself: the other number or character of a pair, the opposite, a longer text
Stepped(v) ==
  CASE v[1] = "int" -> LET n == Len(v[3]) d == v[3][n] IN [v EXCEPT ![3] = [@ EXCEPT ![n] = IF d % 2 = 0 THEN d + 1 ELSE d - 1]]
    [] v[1] = "char" -> <<"char", IF v[2] % 2 = 0 THEN v[2] + 1 ELSE v[2] - 1>>
    [] v[1] = "bool" -> <<"bool", ~v[2]>>
    [] v[1] = "string" -> <<"string", Append(v[2], 43)>>

StdConv ==
  /\ Step("conv") /\ Task.to.k # "unknown"
  /\ LET c == Task.conv v == Head(vals) r == StdConvert(v, Task.to) maps == c.k \in {"map", "filter_map"} IN
     /\ log' = IF maps THEN Append(log, <<"c", c.k, c.id>>) ELSE log
     /\ IF c.k = "filter_map" /\ ~Accepts(v) THEN Fail1(<< <<"filter", Task.fname>> >>) /\ UNCHANGED vals
        ELSE IF ~maps /\ ~r.ok THEN Fail1(r.es) /\ UNCHANGED vals
        ELSE /\ vals' = <<IF maps THEN Stepped(v) ELSE r.v>> \o Tail(vals)
             /\ work' = Tail(work) /\ UNCHANGED <<phase, out>>
  /\ UNCHANGED <<site, prog, inp, caps, cur, frames>>

ApplyConv ==
  /\ Step("conv") /\ Task.to.k = "unknown"
  /\ LET c == Task.conv v == Head(vals) IN
     /\ log' = Append(log, <<"c", c.k, c.id>>)
     /\ IF c.k = "filter_map" /\ ~Accepts(v) THEN Fail1(<< <<"filter", Task.fname>> >>) /\ UNCHANGED vals
        ELSE IF c.k = "try_from" /\ ~Accepts(v) THEN Fail1(<< <<"user", S("TConv")>> >>) /\ UNCHANGED vals
        ELSE /\ vals' = <<IF c.k = "from" THEN <<"conv", v>> ELSE IF c.k = "try_from" THEN <<"tconv", v>>
                          ELSE <<"tag", c.id, v>> >> \o Tail(vals)
             /\ work' = Tail(work) /\ UNCHANGED <<phase, out>>
  /\ UNCHANGED <<site, prog, inp, caps, cur, frames>>

\* Default::default() of a type
DefaultOf(t) ==
  CASE t.k = "int" -> <<"int", t.name, <<48>> >>
    [] t.k = "float" -> <<"float", t.name, <<48>> >>
    [] t.k = "bool" -> <<"bool", FALSE>>
    [] t.k = "char" -> <<"char", 0>>
    [] t.k = "string" -> <<"string", <<>> >>
    [] t.k = "path" -> <<"path", <<>> >>
    [] t.k = "str" -> <<"str", -1, <<>> >>
    [] OTHER -> <<"dflt", 0>>

UseDefault ==
  /\ Step("default")
  /\ LET c == Task.conv IN
     IF c.k = "defexpr" THEN Push(<<"dflt", c.id>>) /\ log' = Append(log, <<"d", c.id>>)
     ELSE /\ Push(DefaultOf(Task.ty))
          /\ log' = IF DefaultOf(Task.ty)[1] = "dflt" THEN Append(log, <<"d", 0>>) ELSE log
  /\ work' = Tail(work)
  /\ UNCHANGED <<phase, site, prog, inp, caps, cur, frames, out>>

\* All fields are there: the last n values, in order of evaluation, become the fields in order of declaration.
Build ==
  /\ Step("build")
  /\ LET l == Layouts[Task.d] v == l.vs[Task.v] n == v.nfields
         val(f) == LET k == CHOOSE k \in 1..n : v.steps[k].field = f IN vals[n + 1 - k]
         fs == [f \in 1..n |-> val(f)]
     IN /\ vals' = << IF l.k = "struct" THEN <<"struct", l.name, fs>> ELSE <<"enum", l.name, v.name, fs>> >>
                   \o Drop(vals, n)
        /\ cur' = cur + Task.skip
        /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
  /\ work' = Tail(work)
  /\ UNCHANGED <<phase, site, prog, inp, caps, log, out>>

Return ==
  /\ phase = "conv" /\ work = <<>>
  /\ phase' = "done"
  /\ out' = OutOk(Reverse(vals))
  /\ UNCHANGED <<site, prog, inp, caps, cur, work, vals, frames, log>>

Next == \/ Define \/ Call \/ Type \/ Submit \/ Match
        \/ TakeLeaf \/ TakeManual \/ OpenStruct \/ OpenEnum \/ TryVariant
        \/ ApplyConv \/ StdConv \/ UseDefault \/ Build \/ Return

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the model.                                                *)

\* Captures are taken exactly: a successful call has taken all of them, a call in progress not more than there are.
CapturesExact == /\ cur <= NumGroups \/ phase # "conv"
                 /\ (phase = "done" /\ out.k = "ok") => (cur = NumGroups /\ frames = <<>>)

\* Every call that gets an input ends with a result (nothing is stuck before "done").
Progress == phase # "done" => ENABLED Next

\* Only the result of a failing call has an error, and no user code runs after the failure.
FailureIsFinal == phase = "done" => work = <<>>

\* The text of a successful match is the text of the format: group 0 is the whole input.  Alternatives in the text of an
\* unescaped format have only one of the anchors each.
WholeInput == (caps # <<>> /\ phase = "conv" /\ Site.api # "unescaped") => (caps[1] = 1 /\ caps[2] = Len(inp) + 1)

\* Groups nest properly within the input.
CapturesInside == caps # <<>> =>
  \A g \in 0..(NumGroups - 1) : Participates(g) => (1 <= caps[2*g+1] /\ caps[2*g+1] <= caps[2*g+2] /\ caps[2*g+2] <= Len(inp) + 1)

Invariants == CapturesExact /\ FailureIsFinal /\ WholeInput /\ CapturesInside
=============================================================================
