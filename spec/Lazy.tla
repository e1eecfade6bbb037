-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* How a call site may be prepared when several threads get there at the   *)
(* same time: one of them does it while the others wait, and a call takes  *)
(* its first step at its site only afterwards.  This refines History, in   *)
(* which a call is prepared in one step: nobody can tell the difference.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Threads, Sites, Allowed, Forms, MaxNest, MaxLen

VARIABLES
  stack, prepared, calls, hist,
  want,     \* the call that a thread is about to make: <<>> or <<site, form>>
  busy      \* for each site: the thread that prepares it, 0 for none

hvars == <<stack, prepared, calls, hist>>
vars == <<hvars, want, busy>>

H == INSTANCE History

Init == H!Init /\ want = [t \in Threads |-> <<>>] /\ busy = [s \in 1..Len(Sites) |-> 0]

Arrive(t, s, form) ==
  /\ want[t] = <<>> /\ Len(stack[t]) <= MaxNest
  /\ want' = [want EXCEPT ![t] = <<s, form>>]
  /\ UNCHANGED <<hvars, busy>>

\* the first one begins to prepare the site
Grab(t) ==
  /\ want[t] # <<>>
  /\ LET s == want[t][1] IN
     /\ prepared[s] = "new" /\ busy[s] = 0
     /\ busy' = [busy EXCEPT ![s] = t]
  /\ UNCHANGED <<hvars, want>>

\* the call is made by the thread that has prepared the site, or once it is prepared
Enter(t) ==
  /\ want[t] # <<>>
  /\ LET s == want[t][1] IN
     /\ busy[s] = t \/ prepared[s] # "new"
     /\ H!Call(t, s, want[t][2])
     /\ busy' = [busy EXCEPT ![s] = IF @ = t THEN 0 ELSE @]
  /\ want' = [want EXCEPT ![t] = <<>>]

Leave(t, how) == want[t] = <<>> /\ H!Go(t, how) /\ UNCHANGED <<want, busy>>

Next == \E t \in Threads :
          \/ \E s \in Allowed, form \in Forms : Arrive(t, s, form)
          \/ Grab(t) \/ Enter(t)
          \/ \E how \in {"ok", "fail", "panic"} : Leave(t, how)

Fair == \A t \in Threads : WF_vars(Grab(t)) /\ WF_vars(Enter(t)) /\ WF_vars(Leave(t, "ok"))
Spec == Init /\ [][Next]_vars /\ Fair

Refines == H!Spec

\* a site is prepared at most once
Once == \A s \in 1..Len(Sites) : prepared[s] # "new" => busy[s] = 0

\* every call that is about to be made is made, unless the history is full
Served == \A t \in Threads : want[t] # <<>> ~> (want[t] = <<>> \/ Len(hist) = MaxLen)
=============================================================================
