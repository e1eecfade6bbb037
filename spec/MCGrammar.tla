----------------------------- MODULE MCGrammar -----------------------------
(***************************************************************************)
(* All formats that can be written with at most U.maxlen tokens of an      *)
(* alphabet between U.before and U.after, and what becomes of each:        *)
(* accepted, or rejected because of which parts.  The types of the call    *)
(* are U.args; or, if there are none, every unnamed placeholder gets its   *)
(* own argument of the type U.arg, with U.extra more.                      *)
(***************************************************************************)
EXTENDS Derive, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

VARIABLES fmt, len, verdict

vars == <<fmt, len, verdict>>

\* (a rejected format gets as many as it seems to need, so that nothing else is wrong with the call)
Args(f) == IF U.fixed THEN U.args ELSE
           LET p == Parse(f, U.raw, TRUE)
               n == Cardinality({k \in 1..Len(p.phs) : ~p.phs[k].named})
               guess == Cardinality({k \in 1..Len(f)-1 : f[k] = cLC /\ f[k+1] \in {cRC, cColon}})
           IN [k \in 1..(IF p.m = "done" THEN n + U.extra ELSE guess) |-> U.arg]

Verdict(g) == LET f == g \o U.after
                  args == Args(f)
                  l == SiteLayout([api |-> "sscanf", fmt |-> f, raw |-> U.raw, args |-> args])
              IN [ok |-> l.ok, errs |-> l.errs, nargs |-> Len(args)]

Init == /\ Remember
        /\ \E k \in 1..Len(U.first) : fmt = U.first[k]
        /\ len = U.firstlen
        /\ verdict = Verdict(fmt)

Next == /\ len < U.maxlen
        /\ \E k \in 1..Len(U.alphabet) : fmt' = fmt \o U.alphabet[k]
        /\ len' = len + 1
        /\ verdict' = Verdict(fmt')

Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([f |-> fmt \o U.after, v |-> verdict]))

\* The grammar is decided by the automaton: a rejected format stays rejected for the same reason whatever follows,
\* unless the reason was that it ends too early.
Early == {"open", "regex-open", "regex-end", "close-alone"}
Monotone == LET s == FoldLeft(LAMBDA st, c : Feed(st, c, fmt, U.raw, TRUE), Start, fmt) IN
            s.m = "err" => (~verdict.ok /\ verdict.errs[1].kind = s.err.kind)
Invariants == Monotone /\ (verdict.ok <=> verdict.errs = <<>>)
=============================================================================
