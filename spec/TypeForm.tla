------------------------------ MODULE TypeForm ------------------------------
(***************************************************************************)
(* Which sequences of tokens are types that a call accepts: a path, or     *)
(* `&` and a path of `str`.                                                *)
(*                                                                         *)
(* The sequences come from two directions: all that grow token by token    *)
(* while they could still become a type, and all that are one or two edits *)
(* away from a spelling of a type.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)
P == TLCGet(9)

Amp == "&"  Colons == "::"  Lt == "<"  Gt == ">"  Comma == ","  Open == "("  Close == ")"
Lifetimes == {"'_", "'static", "'a"}
Idents == {"str", "u8", "std", "core", "primitive", "borrow", "Cow", "r#u8"}
Tokens == {Amp, Colons, Lt, Gt, Comma, Open, Close, "mut", "_"} \cup Lifetimes \cup Idents

VARIABLES toks, edits, grown
vars == <<toks, edits, grown>>

-----------------------------------------------------------------------------
(* The grammar.  A parser returns the position behind what it has read,    *)
(* Bad if a token is wrong, or More if there is a token missing.           *)
Bad == 0  More == -1
At(t, i) == IF i > Len(t) THEN "end" ELSE t[i]
Failed(n) == n <= 0
Then(n, P2(_)) == IF Failed(n) THEN n ELSE P2(n)
Expect(t, i, x) == IF At(t, i) = x THEN i + 1 ELSE IF At(t, i) = "end" THEN More ELSE Bad

RECURSIVE Type(_, _), Path(_, _), Segments(_, _), Args(_, _), Elems(_, _), Reference(_, _)

\* & 'a mut T
Reference(t, i) ==
  LET a == IF At(t, i + 1) \in Lifetimes THEN i + 2 ELSE i + 1
      b == IF At(t, a) = "mut" THEN a + 1 ELSE a
  IN Type(t, b)

Type(t, i) ==
  CASE At(t, i) = "end" -> More
    [] At(t, i) = Amp -> Reference(t, i)
    [] At(t, i) = Open -> Elems(t, i + 1)
    [] At(t, i) = "_" -> i + 1
    [] OTHER -> Path(t, i)

\* the rest of (), (T), (T,), (T, U)
Elems(t, i) ==
  IF At(t, i) = Close THEN i + 1
  ELSE Then(Type(t, i), LAMBDA n : IF At(t, n) = Comma THEN Elems(t, n + 1) ELSE Expect(t, n, Close))

\* the rest of <...>
Args(t, i) ==
  IF At(t, i) = Gt THEN i + 1
  ELSE Then(IF At(t, i) \in Lifetimes THEN i + 1 ELSE Type(t, i), LAMBDA n : IF At(t, n) = Comma THEN Args(t, n + 1) ELSE Expect(t, n, Gt))

Path(t, i) ==
  CASE At(t, i) = Lt -> Then(Type(t, i + 1), LAMBDA n : Then(Expect(t, n, Gt), LAMBDA m : Then(Expect(t, m, Colons), LAMBDA k : Segments(t, k))))
    [] At(t, i) = Colons -> Segments(t, i + 1)
    [] OTHER -> Segments(t, i)

Segments(t, i) ==
  IF At(t, i) = "end" THEN More
  ELSE IF At(t, i) \notin Idents THEN Bad
  ELSE LET n == IF At(t, i + 1) = Lt THEN Args(t, i + 2)
                ELSE IF At(t, i + 1) = Colons /\ At(t, i + 2) = Lt THEN Args(t, i + 3)
                ELSE i + 1
       IN Then(n, LAMBDA m : IF At(t, m) = Colons THEN Segments(t, m + 1) ELSE m)

\* what is read where a call expects a type
Parse(t) == IF At(t, 1) = Amp THEN Reference(t, 1) ELSE Path(t, 1)
Whole(t) == Parse(t) = Len(t) + 1

-----------------------------------------------------------------------------
(* What it means.                                                          *)
Prefixed(x) == {<<x>>, <<"primitive", Colons, x>>} \cup {lead \o <<root, Colons, "primitive", Colons, x>> : lead \in {<<>>, <<Colons>>}, root \in {"std", "core"}}
StrPaths == Prefixed("str")
IntPaths == Prefixed("u8") \cup Prefixed("r#u8")
CowPaths == {<<"Cow">>, <<"borrow", Colons, "Cow">>, <<"std", Colons, "borrow", Colons, "Cow">>, <<Colons, "std", Colons, "borrow", Colons, "Cow">>}
CowTypes == {c \o col \o <<Lt>> \o l \o s \o end \o <<Gt>> :
              c \in CowPaths, col \in {<<>>, <<Colons>>}, l \in {<<>>} \cup {<<x, Comma>> : x \in Lifetimes}, s \in StrPaths, end \in {<<>>, <<Comma>>}}

\* empty generic arguments mean nothing
RECURSIVE Plain(_)
Plain(t) ==
  LET hits == {i \in 1..Len(t) - 1 : t[i] = Lt /\ t[i + 1] = Gt} IN
  IF hits = {} THEN t
  ELSE LET i == CHOOSE k \in hits : TRUE
           b == IF i > 1 /\ t[i - 1] = Colons /\ i > 2 THEN i - 1 ELSE i
       IN Plain(SubSeq(t, 1, b - 1) \o SubSeq(t, i + 2, Len(t)))

Verdict(t) ==
  IF ~Whole(t) THEN "macro"
  ELSE IF t[1] = Amp THEN (IF Tail(t) \in StrPaths THEN "str" ELSE "macro")
  ELSE IF t \in StrPaths THEN "str"
  ELSE IF t \in CowTypes THEN "cow"
  ELSE IF Plain(t) \in IntPaths THEN "int"
  ELSE "later"

\* sequences that the rest of the call would be part of, and those of which newer parsers may read more
RECURSIVE Depth(_, _)
Depth(t, n) == IF n = 0 THEN 0 ELSE LET d == Depth(t, n - 1) IN IF d < 0 THEN d ELSE IF t[n] = Open THEN d + 1 ELSE IF t[n] = Close THEN d - 1 ELSE d
Balanced(t) == (\A n \in 1..Len(t) : Depth(t, n) >= 0) /\ Depth(t, Len(t)) = 0
Clear(t) ==
  /\ \A i \in 1..Len(t) - 1 : t[i + 1] = Open => t[i] \notin Idents \cup {Gt, Colons}
  /\ Parse(t) > 0 => At(t, Parse(t)) # Comma
  /\ t # <<>>

-----------------------------------------------------------------------------
Seeds == {P.seeds[k] : k \in 1..Len(P.seeds)}
Few == {P.tokens[k] : k \in 1..Len(P.tokens)}

Init == /\ TLCSet(9, Program)
        /\ edits = 0
        /\ \/ toks = <<>> /\ grown = TRUE
           \/ toks \in Seeds /\ grown = FALSE

Grow == /\ grown /\ Len(toks) < P.maxlen
        /\ toks # <<>> => Parse(toks) = More \/ Whole(toks)
        /\ \E x \in Tokens : toks' = Append(toks, x)
        /\ UNCHANGED <<edits, grown>>

Splice(i, j, x) == SubSeq(toks, 1, i) \o x \o SubSeq(toks, j, Len(toks))
Edit == /\ ~grown /\ edits < P.edits
        /\ edits' = edits + 1
        /\ \E i \in 0..Len(toks), del \in {0, 1} : \E x \in {<<>>} \cup {<<y>> : y \in IF edits = 0 THEN Tokens ELSE Few} :
             /\ i + del <= Len(toks)
             /\ toks' = Splice(i, i + 1 + del, x)
             /\ toks' # toks
        /\ UNCHANGED grown

Next == Grow \/ Edit
Spec == Init /\ [][Next]_vars
View == <<toks, IF grown THEN -1 ELSE edits>>

Emit == Clear(toks) => PrintT("@@" \o ToJson([toks |-> toks, v |-> Verdict(toks), balanced |-> Balanced(toks)]))

-----------------------------------------------------------------------------
\* what could still become a type can: More is not an error that is noticed late
Sound == Whole(toks) => Parse(SubSeq(toks, 1, Len(toks) - 1)) # Bad
=============================================================================
