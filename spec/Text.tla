------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode scalar values (naturals).  S("abc") turns *)
(* a printable TLA+ string into such a sequence, so that the specification *)
(* stays readable while inputs may contain any character.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharCode == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
               31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)])

S(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]
Ch(str) == CharCode[str]

MaxScalar == 1114111

Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
Slice(s, i, j) == IF j <= i THEN <<>> ELSE SubSeq(s, i, j - 1)   \* [i, j)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

IsDigit(c) == c >= 48 /\ c <= 57
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsAlpha(c) == IsLower(c) \/ IsUpper(c)
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c

Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
SumSeq(ns) == FoldLeft(LAMBDA acc, n : acc + n, 0, ns)

\* number of bytes of a scalar value in UTF-8
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Bytes(s) == FoldLeft(LAMBDA acc, c : acc + Utf8Len(c), 0, s)

\* decimal rendering of a natural number
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecOf(n \div 10), 48 + (n % 10))
=============================================================================
