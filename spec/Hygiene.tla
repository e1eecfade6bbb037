------------------------------ MODULE Hygiene ------------------------------
(***************************************************************************)
(* What the code around a call means for it: nothing.                      *)
(*                                                                         *)
(* A call may be written by macro_rules macros, layer upon layer.  Every   *)
(* layer has bindings of its own and hands an expression, the format and   *)
(* the types on to the next one.  A local variable is seen by the          *)
(* identifiers of the layer that wrote it (hygiene); items (functions,     *)
(* constants, statics) are seen by all identifiers of that name, also by   *)
(* those of other layers.  The innermost binding counts.                   *)
(*                                                                         *)
(* The macro itself is one more layer: it evaluates the expression of the  *)
(* user once and then refers to variables and items of its own.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

VARIABLES
  env,    \* the bindings around the current place, innermost last: [k, name, layer, val]
  layer,  \* 0: the function; n: the body of the n-th macro
  expr,   \* the expression that is handed on: [name, layer]
  steps,  \* how we got here
  done

vars == <<env, layer, expr, steps, done>>

Hygienic(b) == b.k = "let"
Sees(id, b) == b.name = id.name /\ (Hygienic(b) => b.layer = id.layer)
Visible(bs, id) == {k \in 1..Len(bs) : Sees(id, bs[k])}
None == -1
Resolve(bs, id) == LET v == Visible(bs, id) IN IF v = {} THEN None ELSE bs[CHOOSE k \in v : \A j \in v : j <= k].val

Bind(k, name, l, v) == [k |-> k, name |-> name, layer |-> l, val |-> v]

-----------------------------------------------------------------------------
(* The expansion of the call: its own bindings, in the order in which they *)
(* come into being, and what is referred to behind each of them.           *)
InputIs == 1000  Regex == 1001  Own == 1002
Locals == <<"cap", "src", "matcher", "start_len", "value">>

\* first: what comes first, the input or the item REGEX?  at: the layer that the generated identifiers belong to
Expansion(bs, id, first, at) ==
  LET regex == Bind("static", "REGEX", at, Regex)
      in    == IF first = "input" THEN Bind("let", "input", at, Resolve(bs, id))
               ELSE Bind("let", "input", at, Resolve(Append(bs, regex), id))
      both  == IF first = "input" THEN bs \o <<in, regex>> ELSE bs \o <<regex, in>>
      all   == both \o [k \in 1..Len(Locals) |-> Bind("let", Locals[k], at, Own + k)]
  IN [scanned |-> Resolve(both, [name |-> "input", layer |-> at]),
      regex   |-> Resolve(both, [name |-> "REGEX", layer |-> at]),
      \* the code that reads the values, which may be marked as coming from somewhere else
      reads   |-> [l \in 0..at |-> [k \in 1..Len(Locals) |-> Resolve(all, [name |-> Locals[k], layer |-> l])]]]

Faithful(bs, id, first, at, marked) ==
  LET x == Expansion(bs, id, first, at) IN
  /\ x.scanned = Resolve(bs, id)
  /\ x.regex = Regex
  /\ \A k \in 1..Len(Locals) : x.reads[marked][k] = Own + k

\* The order and the marks matter: these are the two ways in which it has been wrong.
ASSUME LET bs == <<Bind("const", "REGEX", 0, 7)>> id == [name |-> "REGEX", layer |-> 0] IN
       Faithful(bs, id, "input", 0, 0) /\ ~Faithful(bs, id, "regex", 0, 0)
ASSUME LET bs == <<Bind("let", "x", 0, 7)>> id == [name |-> "x", layer |-> 0] IN
       Faithful(bs, id, "input", 1, 1) /\ ~Faithful(bs, id, "input", 1, 0)

-----------------------------------------------------------------------------
P == TLCGet(9)
NamesOf(k) == {P.names[k][j] : j \in 1..Len(P.names[k])}

Init == /\ TLCSet(9, Program)
        /\ env = <<Bind("let", P.param, 0, 0)>>
        /\ layer = 0
        /\ expr = [name |-> P.param, layer |-> 0]
        /\ steps = <<>>
        /\ done = FALSE

AddBinding == \E k \in {"let", "fn", "const", "static"} : \E name \in NamesOf(k) :
  /\ Cardinality({j \in 1..Len(env) : env[j].val > 0}) < P.bindings
  /\ env' = Append(env, Bind(k, name, layer, Len(env)))
  /\ steps' = Append(steps, <<"bind", k, name>>)
  /\ UNCHANGED <<layer, expr, done>>

\* another expression, written at this layer
Write == \E name \in {P.param} \cup UNION {NamesOf(k) : k \in {"let", "fn", "const", "static"}} :
  LET id == [name |-> name, layer |-> layer] IN
  /\ id # expr
  /\ IF steps = <<>> THEN TRUE ELSE steps[Len(steps)][1] # "write"
  /\ Resolve(env, id) # None
  /\ expr' = id
  /\ steps' = Append(steps, <<"write", "", name>>)
  /\ UNCHANGED <<env, layer, done>>

Enter ==
  /\ layer < P.layers
  /\ layer' = layer + 1
  /\ steps' = Append(steps, <<"enter", "", "">>)
  /\ UNCHANGED <<env, expr, done>>

Finish == done' = TRUE /\ UNCHANGED <<env, layer, expr, steps>>

Next == ~done /\ (AddBinding \/ Write \/ Enter \/ Finish)
Spec == Init /\ [][Next]_vars

Value == Resolve(env, expr)
Kind(v) == env[v + 1].k

Emit == done => PrintT("@@" \o ToJson([steps |-> steps, value |-> Value]))

-----------------------------------------------------------------------------
\* The call scans what the expression means where it was written, and it uses its own names for the rest.
Transparent == Faithful(env, expr, "input", layer, layer)

\* What an expression means changes only if an item of its name comes in between.
Stable == [][expr' = expr /\ Resolve(env', expr) # Resolve(env, expr)
               => LET b == env'[Len(env')] IN b.name = expr.name /\ (b.k # "let" \/ b.layer = expr.layer)]_vars
=============================================================================
