------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Histories of calls: several threads call several call sites, in any     *)
(* order.  The user code that a call runs (a parser, a conversion) is a    *)
(* gate: the call stays there until it is told how the user code ends, and *)
(* meanwhile other threads call the same sites, or the user code itself    *)
(* makes calls.                                                            *)
(*                                                                         *)
(* A call site is prepared (its regex is compiled and checked) by the      *)
(* first call that gets there.  Steps[s] is what the property says about   *)
(* it: whatever else happens, the outcome of a call depends only on its    *)
(* input and on how its own user code ends.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Threads,   \* a set of numbers
  Sites,     \* a sequence of [gates |-> number of times that a call runs user code, bad |-> can it not be prepared?]
  Allowed,   \* indices of sites that are called
  Forms,     \* subset of {"match", "other"}: inputs that match, and inputs that do not
  MaxNest,   \* calls within user code, per thread
  MaxLen     \* length of a history

VARIABLES
  stack,     \* the calls of each thread that are not finished, outermost first: [site, call, gate]
  prepared,  \* for each site: "new", "ready" or "broken"
  calls,     \* number of calls so far
  hist       \* what happened: the steps and what they led to

vars == <<stack, prepared, calls, hist>>

Init == /\ stack = [t \in Threads |-> <<>>]
        /\ prepared = [s \in 1..Len(Sites) |-> "new"]
        /\ calls = 0 /\ hist = <<>>

AtGate(n, j) == [k |-> "gate", call |-> n, gate |-> j]
Finished(n, kind, j) == [k |-> kind, call |-> n, gate |-> j]

Record(step, event) == hist' = Append(hist, step @@ [event |-> event])

\* the call of s with an input of the form, on its own: what it does first
FirstEvent(s, form, n) ==
  IF Sites[s].bad THEN Finished(n, "panic", 0)
  ELSE IF form = "other" THEN Finished(n, "match-failed", 0)
  ELSE IF Sites[s].gates = 0 THEN Finished(n, "ok", 0)
  ELSE AtGate(n, 1)

Call(t, s, form) ==
  /\ Len(hist) < MaxLen /\ Len(stack[t]) <= MaxNest
  /\ calls' = calls + 1
  /\ prepared' = [prepared EXCEPT ![s] = IF Sites[s].bad THEN "broken" ELSE "ready"]
  /\ LET e == FirstEvent(s, form, calls + 1) IN
     /\ Record([t |-> t, op |-> "call", site |-> s, form |-> form, how |-> ""], e)
     /\ stack' = IF e.k = "gate" THEN [stack EXCEPT ![t] = Append(@, [site |-> s, call |-> calls + 1, gate |-> 1])] ELSE stack

\* the user code that a thread is in ends
Go(t, how) ==
  /\ Len(hist) < MaxLen /\ stack[t] # <<>>
  /\ LET top == stack[t][Len(stack[t])]
         below == SubSeq(stack[t], 1, Len(stack[t]) - 1)
         next == how = "ok" /\ top.gate < Sites[top.site].gates
         e == IF next THEN AtGate(top.call, top.gate + 1)
              ELSE Finished(top.call, IF how = "ok" THEN "ok" ELSE IF how = "fail" THEN "parsing-failed" ELSE "panic", top.gate)
     IN /\ Record([t |-> t, op |-> "go", site |-> top.site, form |-> "", how |-> how], e)
        /\ stack' = [stack EXCEPT ![t] = IF next THEN Append(below, [top EXCEPT !.gate = @ + 1]) ELSE below]
  /\ UNCHANGED <<prepared, calls>>

Next == \E t \in Threads :
          \/ \E s \in Allowed, form \in Forms : Call(t, s, form)
          \/ \E how \in {"ok", "fail", "panic"} : Go(t, how)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
StepsOf(n) == SelectSeq(hist, LAMBDA h : h.event.call = n)

\* What a call leads to is a function of its site, the form of its input and how its own gates end.
Isolated ==
  \A n \in 1..calls :
    LET h == StepsOf(n)
        s == h[1].site
        oks == Cardinality({k \in 2..Len(h) : h[k].how = "ok"})
        last == h[Len(h)]
    IN /\ h[1].op = "call" /\ \A k \in 2..Len(h) : h[k].op = "go"
       /\ h[1].event = FirstEvent(s, h[1].form, n)
       /\ \A k \in 2..Len(h) : h[k].event.k = CASE h[k].how = "fail" -> "parsing-failed" [] h[k].how = "panic" -> "panic"
                                               [] OTHER -> IF k - 1 < Sites[s].gates THEN "gate" ELSE "ok"
       /\ (last.event.k = "ok" => oks = Sites[s].gates)

\* a call is unfinished exactly while it is on the stack of one thread
Accounted ==
  LET open == {n \in 1..calls : StepsOf(n)[Len(StepsOf(n))].event.k = "gate"}
      on(t) == {stack[t][k].call : k \in 1..Len(stack[t])}
  IN open = UNION {on(t) : t \in Threads}

\* no history makes a site unusable
NeverStuck == Len(hist) < MaxLen => \A t \in Threads : stack[t] # <<>> => ENABLED Go(t, "ok")
=============================================================================
