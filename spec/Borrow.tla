------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* How long a value lives that was read from an input.  A type borrows the *)
(* input under the lifetimes of the fields that take a text from it; what  *)
(* has a default, or is converted to something that owns its text, borrows *)
(* nothing.  A program is fine if the input outlives all these lifetimes.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

\* kinds of fields: own; a, cow-a, map-a, b, cow-b: borrows under that lifetime; static: a &'static str;
\* default-a, default-b: mentions a lifetime, but takes nothing from the input; map-own, from-own: owned after conversion
Kinds == {"own", "a", "cow-a", "map-a", "b", "cow-b", "static", "default-a", "default-b", "map-own", "from-own"}
Borrows(kind) == CASE kind \in {"a", "cow-a", "map-a"} -> {"a"} [] kind \in {"b", "cow-b"} -> {"b"} [] kind = "static" -> {"static"} [] OTHER -> {}
Mentions(kind) == CASE kind \in {"a", "cow-a", "map-a", "default-a"} -> {"a"} [] kind \in {"b", "cow-b", "default-b"} -> {"b"} [] OTHER -> {}

VARIABLES form,    \* struct, enum, or call: the placeholders of a call
          fields,  \* kinds
          input,   \* static, caller: borrowed from the caller for 'x, local: owned by the function
          use      \* what happens to the value: [k, a, b]

vars == <<form, fields, input, use>>

\* scopes, from the longest to the shortest
Scope == [static |-> 3, x |-> 2, block |-> 1]
InputScope == CASE input = "static" -> Scope.static [] input = "caller" -> Scope.x [] input = "local" -> Scope.block

AllBorrows == UNION {Borrows(fields[k]) : k \in 1..Len(fields)}
AllMentions == UNION {Mentions(fields[k]) : k \in 1..Len(fields)}

\* the scope in which a lifetime is needed
Needed(lt) ==
  IF lt = "static" THEN Scope.static
  ELSE CASE use.k = "inside" -> Scope.block           \* used while the input is there
         [] use.k = "after"  -> Scope.block + 1       \* used after the input of the block is gone
         [] use.k = "return" -> IF use[lt] = "static" THEN Scope.static ELSE Scope.x

Fine == \A lt \in AllBorrows : InputScope >= Needed(lt)

Uses == {[k |-> "inside", a |-> "", b |-> ""], [k |-> "after", a |-> "", b |-> ""]}
        \cup {[k |-> "return", a |-> p, b |-> q] : p \in {"x", "static"}, q \in {"x", "static"}}

Init == /\ TLCSet(9, Program)
        /\ form \in {"struct", "enum", "call"}
        /\ input \in {"static", "caller", "local"}
        /\ use \in Uses
        /\ fields = <<>>

\* a field with the lifetime b comes after one with the lifetime a
Next == /\ Len(fields) < TLCGet(9).maxlen
        /\ \E kind \in IF form = "call" THEN {"own", "a", "cow-a"} ELSE Kinds :
             /\ "b" \in Mentions(kind) => "a" \in AllMentions
             /\ fields' = Append(fields, kind)
        /\ UNCHANGED <<form, input, use>>

Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([form |-> form, fields |-> fields, input |-> input, use |-> use, fine |-> Fine, mentions |-> AllMentions]))

-----------------------------------------------------------------------------
\* Owned values may go anywhere; with a static input everything may; a value may be returned to whoever owns the input.
Invariants ==
  /\ AllBorrows = {} => Fine
  /\ input = "static" => Fine
  /\ (input = "caller" /\ "static" \notin AllBorrows /\ use.k = "return" /\ use.a = "x" /\ use.b = "x") => Fine
  \* more borrowing never helps
  /\ \A k \in 1..Len(fields) : Fine => \A lt \in Borrows(fields[k]) : InputScope >= Needed(lt)
=============================================================================
