------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* Which tokens may stand for a format: string literals, ordinary and raw  *)
(* ones with any number of hashes, also when a macro_rules macro hands     *)
(* them on.  Other literals, suffixes and expressions are rejected in      *)
(* every place.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Prefixes == {"", "r", "b", "br", "c", "cr", "char", "number", "float", "true", "ident", "path", "concat", "paren", "block", "neg", "array"}
Hashed == {"r", "br", "cr"}
Strings == {"", "r", "b", "br", "c", "cr"}
Suffixes == {"", "x", "u8", "_", "_1", "é", "r"}
Places == {"sscanf", "unescaped", "get_regex", "struct", "struct-format", "struct-unescaped", "variant", "variant-format"}
Routes == {"direct", "literal", "expr", "tt"}

VARIABLES prefix, hashes, suffix, place, route
vars == <<prefix, hashes, suffix, place, route>>

Ok == prefix \in {"", "r"} /\ suffix = ""

Init ==
  /\ prefix \in Prefixes /\ place \in Places /\ route \in Routes
  /\ hashes \in 0..3 /\ (prefix \notin Hashed => hashes = 0)
  /\ suffix \in Suffixes /\ (prefix \notin Strings => suffix = "")
  /\ (route = "literal" => prefix \in Strings \cup {"char", "number", "float", "true", "neg"})
  /\ (route = "tt" => prefix \notin {"path", "concat", "neg"})

Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([prefix |-> prefix, hashes |-> hashes, suffix |-> suffix, place |-> place, route |-> route, ok |-> Ok]))

=============================================================================
