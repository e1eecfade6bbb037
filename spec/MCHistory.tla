----------------------------- MODULE MCHistory -----------------------------
(* Histories for the program in the file named by PROGRAM.                 *)
EXTENDS History, Json, IOUtils

Source == JsonDeserialize(IOEnv.PROGRAM)
U == TLCGet(9)

MCThreads == 1..Source.threads
MCSites == [k \in 1..Len(Source.sites) |-> Source.sites[k]]
MCAllowed == {Source.allowed[k] : k \in 1..Len(Source.allowed)}
MCForms == {Source.forms[k] : k \in 1..Len(Source.forms)}
MCNest == Source.nest
MCLen == Source.len

\* a history ends with its last step; every shorter one is the beginning of a longer one
Emit == Len(hist) = MaxLen =>
  PrintT("@@" \o ToJson([k \in 1..Len(hist) |-> <<hist[k].t, hist[k].op, hist[k].site, hist[k].form, hist[k].how,
                                                  hist[k].event.k, hist[k].event.call, hist[k].event.gate>>]))
=============================================================================
