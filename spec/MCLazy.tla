------------------------------- MODULE MCLazy -------------------------------
EXTENDS Lazy
MCThreads == 1..3
MCSites == <<[gates |-> 1, bad |-> FALSE], [gates |-> 0, bad |-> TRUE]>>
MCAllowed == 1..2
MCForms == {"match"}
=============================================================================
