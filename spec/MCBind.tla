------------------------------- MODULE MCBind -------------------------------
(***************************************************************************)
(* All formats of at most U.maxlen tokens (placeholders, and text between  *)
(* them) for each struct of U.structs, and whether the derive accepts      *)
(* them: with which field for which placeholder, or because of which parts *)
(* it does not.                                                            *)
(***************************************************************************)
EXTENDS Derive, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

VARIABLES st, fmt, len, verdict

vars == <<st, fmt, len, verdict>>

Layout(k, f) == VariantLayout([U.structs[k] EXCEPT !.fmt = f], "", Layouts)

\* what a derive with the format f complains about: parts of the format, fields, types of fields or default attributes
Part(kind, ph) == [kind |-> kind, from |-> ph.from, to |-> ph.to, field |-> 0, at |-> "format"]
NamePart(kind, ph) == [kind |-> kind, from |-> ph.is, to |-> ph.ie - 1, field |-> 0, at |-> "format"]
OfField(kind, fi, at) == [kind |-> kind, from |-> 0, to |-> 0, field |-> fi, at |-> at]

BindErrs(k, f, errs) ==
  LET fields == ResolvedFields(U.structs[k])
      whole(ph) == Part("multiple-sources", ph)
      \* the source that a field has before the placeholder claims it
      first(e) == CHOOSE j \in 1..e.ph : f.phs[j].named /\ FieldNamed(fields, f.phs[j].name) = e.field
                                         /\ \A i \in 1..(j - 1) : ~(f.phs[i].named /\ FieldNamed(fields, f.phs[i].name) = e.field)
  IN Concat([j \in 1..Len(errs) |->
       LET e == errs[j] IN
       CASE e.kind = "no-field" -> <<NamePart("no-field", f.phs[e.ph])>>
         [] e.kind = "too-many" -> <<Part("too-many", f.phs[e.ph])>>
         [] e.kind = "unbound-field" -> <<OfField("unbound-field", e.field, "field")>>
         [] e.kind = "multiple-sources" ->
              <<IF IsDefault(fields[e.field]) THEN OfField(e.kind, e.field, "default") ELSE whole(f.phs[first(e)]),
                whole(f.phs[e.ph])>>])

Verdict(k, f) ==
  LET l == TLCEval(Layout(k, f)) IN
  IF l.ok THEN [ok |-> TRUE, map |-> l.map, errs |-> <<>>]
  ELSE LET p == l.format IN
       IF p.m # "done" THEN [ok |-> FALSE, map |-> <<>>,
                             errs |-> <<[kind |-> p.err.kind, from |-> p.err.from, to |-> p.err.to, field |-> 0, at |-> "format"]>>]
       ELSE IF l.binding # <<>> THEN [ok |-> FALSE, map |-> <<>>, errs |-> BindErrs(k, p, l.binding)]
       ELSE LET fields == ResolvedFields(U.structs[k])
                b == Bind(p.phs, fields)
                leaf(j) == Leaf(MatchedType(fields[b.map[j]]), p.phs[j].opt)
                j == CHOOSE j \in 1..Len(p.phs) : OptionErr(leaf(j)) # "" /\ \A i \in 1..(j - 1) : OptionErr(leaf(i)) = ""
            IN [ok |-> FALSE, map |-> <<>>,
                errs |-> <<IF OptionErr(leaf(j)) = "hash-unsupported"
                           THEN [kind |-> "hash-unsupported", from |-> p.phs[j].os, to |-> p.phs[j].oe - 1, field |-> 0, at |-> "format"]
                           ELSE OfField("radix-type", b.map[j], "type")>>]

Init == /\ Remember
        /\ \E k \in 1..Len(U.structs) : st = k
        /\ fmt = <<>> /\ len = 0 /\ verdict = Verdict(st, <<>>)

Next == /\ len < U.maxlen
        /\ \E k \in 1..Len(U.tokens) : fmt' = fmt \o U.tokens[k]
        /\ len' = len + 1 /\ st' = st
        /\ verdict' = Verdict(st, fmt')

Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([s |-> st, f |-> fmt, v |-> verdict]))

-----------------------------------------------------------------------------
\* An accepted format gives every field that has no default one placeholder, and every placeholder one field.
OneToOne == verdict.ok =>
  LET n == Len(U.structs[st].fields) IN
  /\ \A i \in 1..n : Cardinality({j \in 1..Len(verdict.map) : verdict.map[j] = i})
                     = (IF IsDefault(U.structs[st].fields[i]) THEN 0 ELSE 1)
  /\ \A j \in 1..Len(verdict.map) : verdict.map[j] \in 1..n
Invariants == OneToOne /\ (verdict.ok <=> verdict.errs = <<>>)
=============================================================================
