------------------------------ MODULE CallForm ------------------------------
(***************************************************************************)
(* The form of a call: an input, a format and types, separated by commas,  *)
(* with or without one at the end, in any brackets, in any place where an  *)
(* expression may stand.                                                   *)
(*                                                                         *)
(* A call is read piece by piece.  Pieces are single tokens or expressions *)
(* that hold together whatever surrounds them.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

Macros == {"sscanf", "sscanf_unescaped", "sscanf_get_regex"}
Formats == {"s0", "s1", "s2"}          \* string literals with no, one, two placeholders
Count(s) == CASE s = "s0" -> 0 [] s = "s1" -> 1 [] s = "s2" -> 2
Name == "name"                         \* a name that means a variable as well as a type
Exprs == {"expr"}                      \* any other expression
Types == {"path", "ref"}               \* what can only be a type, though it also looks like an expression
Junk == {";", "=>", "@"}
Comma == ","
Pieces == Formats \cup Exprs \cup Types \cup Junk \cup {Name, Comma}

VARIABLES macro, pieces, at, format, types, wrong, place, brackets
vars == <<macro, pieces, at, format, types, wrong, place, brackets>>

\* at: what was read last; "bad": something that no call has in its place
States == {"start", "input", "comma-input", "format", "comma-format", "type", "comma-type", "bad"}

Takes(s, x) ==
  CASE s = "start" /\ macro # "sscanf_get_regex" -> IF x \in Formats \cup Exprs \cup Types \cup {Name} THEN "input" ELSE "bad"
    [] s = "start" -> IF x \in Formats THEN "format" ELSE "bad"
    [] s = "input" -> IF x = Comma THEN "comma-input" ELSE "bad"
    [] s = "comma-input" -> IF x \in Formats THEN "format" ELSE "bad"
    [] s = "format" -> IF x = Comma THEN "comma-format" ELSE "bad"
    [] s = "type" -> IF x = Comma THEN "comma-type" ELSE "bad"
    [] s \in {"comma-format", "comma-type"} -> IF x \in Types \cup {Name} THEN "type" ELSE "bad"
    [] s = "bad" -> "bad"

Complete == at \in {"format", "comma-format", "type", "comma-type"}

Verdict ==
  IF ~Complete THEN "macro"
  ELSE IF Count(format) # Len(types) THEN "macro"
  ELSE IF wrong THEN "later"
  ELSE "ok"

\* where a call may stand, and where it may not, because there is no expression there, or none that runs
Good == {"let", "statement", "argument", "scrutinee", "condition", "reference", "tail", "return", "closure", "array", "tuple", "field", "block", "loop", "branches", "async", "guard", "question", "method", "macro", "nested", "unsafe", "generic", "assigned"}
Rejected == {"const", "static", "pattern", "type", "item", "length"}

Init == /\ TLCSet(9, Program)
        /\ macro \in Macros
        /\ pieces = <<>> /\ at = "start" /\ format = "" /\ types = <<>> /\ wrong = FALSE
        /\ place = "" /\ brackets = ""

\* (an expression with a reference behind it is an expression again)
Read == /\ place = ""
        /\ Len(pieces) < TLCGet(9).maxlen
        /\ at = "bad" => Len(pieces) < TLCGet(9).maxbad
        /\ \E x \in Pieces :
             /\ ~(x = "ref" /\ at = "input")
             /\ pieces' = Append(pieces, x)
             /\ at' = Takes(at, x)
             /\ format' = IF at' = "format" /\ at # "format" THEN x ELSE format
             /\ types' = IF at' = "type" THEN Append(types, x) ELSE types
             /\ wrong' = (wrong \/ (at' = "input" /\ x \in Types))
        /\ UNCHANGED <<macro, place, brackets>>

Place == /\ place = "" /\ Verdict = "ok"
         /\ place' \in Good \cup Rejected
         /\ brackets' \in {"()", "[]", "{}"}
         /\ UNCHANGED <<macro, pieces, at, format, types, wrong>>

Next == Read \/ Place
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([macro |-> macro, pieces |-> pieces, types |-> types, place |-> place, brackets |-> brackets,
                               v |-> IF place \in Rejected THEN "later" ELSE Verdict]))

-----------------------------------------------------------------------------
Invariants ==
  /\ at \in States
  \* a comma at the end changes nothing
  /\ at \in {"format", "type"} => (Takes(at, Comma) \in {"comma-format", "comma-type"})
  \* every accepted call has its parts in order
  /\ Verdict = "ok" => /\ \E k \in 1..Len(pieces) : pieces[k] = format
                       /\ Len(SelectSeq(pieces, LAMBDA x : x \in Junk)) = 0
                       /\ LET bare == SelectSeq(pieces, LAMBDA x : x # Comma)
                          IN Len(bare) = Len(types) + (IF macro = "sscanf_get_regex" THEN 1 ELSE 2)
=============================================================================
