------------------------------ MODULE ItemForm ------------------------------
(***************************************************************************)
(* The form of an item with a derive: a struct or an enum, with whatever   *)
(* generic parameters, bounds, where clauses and fields the language       *)
(* allows.  A field takes a text from the input, or has a default.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

Kinds == {"struct", "enum", "union"}
Shapes == {"named", "tuple", "unit"}
Params == {"lt", "lt-bound", "ty", "ty-bound", "ty-default", "ty-unsized", "const", "const-default"}
Lifetime(p) == p \in {"lt", "lt-bound"}
HasDefault(p) == p \in {"ty-default", "const-default"}
IsType(p) == p \in {"ty", "ty-bound", "ty-default", "ty-unsized"}
Wheres == {"none", "empty", "self", "other", "param", "higher", "several"}

VARIABLES kind, shape, params, where, fields, variants, done
vars == <<kind, shape, params, where, fields, variants, done>>

\* a field is [k, p]: own: takes a u8; text: takes a text under the lifetime p; default: mentions the parameter p, takes nothing
FieldsOf == {[k |-> "own", p |-> 0]}
            \cup {[k |-> "text", p |-> i] : i \in {j \in 1..Len(params) : Lifetime(params[j])}}
            \cup {[k |-> "default", p |-> i] : i \in 1..Len(params)}

Used(i) == \E k \in 1..Len(fields) : fields[k].p = i
\* parameters that the language wants to be used are
Valid == \A i \in 1..Len(params) : (Lifetime(params[i]) \/ IsType(params[i])) => Used(i)

Takes == {k \in 1..Len(fields) : fields[k].k # "default"}

\* an enum has live variants (with a format), and dead ones (without)
Live == \E k \in 1..Len(variants) : variants[k] # "dead"

Verdict ==
  CASE kind = "union" -> "macro"
    [] kind = "enum" /\ ~Live -> "macro"
    [] OTHER -> "ok"

Init == /\ TLCSet(9, Program)
        /\ kind \in Kinds /\ shape \in Shapes
        /\ kind = "union" => shape = "named"
        /\ params = <<>> /\ where = "none" /\ fields = <<>> /\ variants = <<>> /\ done = "params"

AddParam == /\ done = "params" /\ Len(params) < TLCGet(9).params /\ shape # "unit" 
            /\ kind # "union"
            /\ \E p \in Params :
                 /\ params # <<>> => /\ (Lifetime(p) => Lifetime(params[Len(params)]))
                                     /\ (HasDefault(params[Len(params)]) => HasDefault(p))
                 /\ p = "lt-bound" => params # <<>>          \* bounded by the first lifetime
                 /\ params' = Append(params, p)
            /\ UNCHANGED <<kind, shape, where, fields, variants, done>>

Where == /\ done = "params"
         /\ \E w \in Wheres :
              /\ w \in {"param", "several"} => \E i \in 1..Len(params) : IsType(params[i])
              /\ where' = w
         /\ done' = "fields"
         /\ UNCHANGED <<kind, shape, params, fields, variants>>

AddField == /\ done = "fields" /\ variants = <<>> /\ shape # "unit" /\ Len(fields) < TLCGet(9).fields
            /\ \E f \in FieldsOf : fields' = Append(fields, f)
            /\ UNCHANGED <<kind, shape, params, where, variants, done>>

\* the variant with the fields is the first live one
AddVariant == /\ kind = "enum" /\ done = "fields" /\ Valid /\ Len(variants) < 3
              /\ \E v \in {"fields", "dead", "more"} :
                   /\ (v = "fields") <=> (\A k \in 1..Len(variants) : variants[k] = "dead") /\ v # "dead"
                   /\ variants' = Append(variants, v)
              /\ UNCHANGED <<kind, shape, params, where, fields, done>>

Finish == /\ done = "fields" /\ Valid
          /\ kind = "enum" /\ ~Live => params = <<>> /\ fields = <<>>
          /\ done' = "yes"
          /\ UNCHANGED <<kind, shape, params, where, fields, variants>>

Next == AddParam \/ Where \/ AddField \/ AddVariant \/ Finish
Spec == Init /\ [][Next]_vars

Emit == done = "yes" => PrintT("@@" \o ToJson([kind |-> kind, shape |-> shape, params |-> params, where |-> where, fields |-> fields, variants |-> variants, v |-> Verdict]))

-----------------------------------------------------------------------------
Invariants ==
  /\ \A i \in 1..Len(params) : Lifetime(params[i]) => \A j \in 1..i : Lifetime(params[j])
  /\ Cardinality(Takes) <= Len(fields)
=============================================================================
