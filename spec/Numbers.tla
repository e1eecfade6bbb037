------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Integers of up to 128 bits.  TLC's own integers have 32 bits, so a      *)
(* natural number is a sequence of base-10000 limbs, least significant     *)
(* first, without leading zero limbs (zero is <<>>).                       *)
(***************************************************************************)
EXTENDS Text

BASE == 10000

\* n * m + d for 0 <= m, d < BASE
MulAdd(n, m, d) ==
  LET r == FoldLeft(LAMBDA acc, l : LET v == l * m + acc.c IN [o |-> Append(acc.o, v % BASE), c |-> v \div BASE],
                    [o |-> <<>>, c |-> d], n)
  IN IF r.c = 0 THEN r.o ELSE Append(r.o, r.c)

\* n <= m
RECURSIVE LeqFrom(_, _, _)
LeqFrom(n, m, k) == IF k = 0 THEN TRUE ELSE IF n[k] # m[k] THEN n[k] < m[k] ELSE LeqFrom(n, m, k - 1)
Leq(n, m) == IF Len(n) # Len(m) THEN Len(n) < Len(m) ELSE LeqFrom(n, m, Len(n))

RECURSIVE PowN(_, _)
PowN(b, e) == IF e = 0 THEN <<1>> ELSE MulAdd(PowN(b, e - 1), b, 0)

\* n - 1 for n > 0
RECURSIVE DecFrom(_, _)
DecFrom(n, k) == IF n[k] > 0 THEN [n EXCEPT ![k] = @ - 1] ELSE DecFrom([n EXCEPT ![k] = BASE - 1], k + 1)
Pred(n) == LET r == DecFrom(n, 1) IN IF r[Len(r)] = 0 THEN SubSeq(r, 1, Len(r) - 1) ELSE r

Bits == {8, 16, 32, 64, 128}
Pow2 == TLCEval([b \in Bits \cup {b - 1 : b \in Bits} |-> PowN(2, b)])
MaxPos == TLCEval([b \in Bits |-> [s \in BOOLEAN |-> IF s THEN Pred(Pow2[b - 1]) ELSE Pred(Pow2[b])]])
MaxNeg == TLCEval([b \in Bits |-> [s \in BOOLEAN |-> IF s THEN Pow2[b - 1] ELSE <<>>]])

Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

\* decimal text of a natural number
Decimal(n) ==
  IF n = <<>> THEN <<48>>
  ELSE DecOf(n[Len(n)]) \o Concat([k \in 1..(Len(n) - 1) |-> Pad4(n[Len(n) - k])])

\* least number of digits that can write every number of b bits in the given radix
RECURSIVE DigitsFor(_, _, _, _)
DigitsFor(b, r, k, p) == IF Leq(Pow2[b], p) THEN k ELSE DigitsFor(b, r, k + 1, MulAdd(p, r, 0))
MaxDigits == TLCEval([b \in Bits |-> [r \in 2..36 |-> DigitsFor(b, r, 0, <<1>>)]])

\* digit value of a character, -1 if it is not a digit in any radix
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsAlpha(c) THEN ToLower(c) - 87 ELSE -1

(***************************************************************************)
(* from_str_radix: sign, then digits from left to right; the first digit   *)
(* that is invalid or leaves the range decides the error.                  *)
(***************************************************************************)
IntOk(neg, mag) == [ok |-> TRUE, neg |-> neg /\ mag # <<>>, mag |-> mag]
IntErr(kind)    == [ok |-> FALSE, kind |-> kind]

DigitLoop(ds, radix, limit, over) ==
  LET r == FoldLeft(LAMBDA st, c :
                      IF st.err # "" THEN st
                      ELSE LET v == DigitVal(c) IN
                           IF v < 0 \/ v >= radix THEN [st EXCEPT !.err = "InvalidDigit"]
                           ELSE LET m == MulAdd(st.mag, radix, v) IN
                                IF Leq(m, limit) THEN [st EXCEPT !.mag = m] ELSE [st EXCEPT !.err = over],
                    [mag |-> <<>>, err |-> ""], ds)
  IN r

ParseInt(s, signed, bits, radix) ==
  IF s = <<>> THEN IntErr("Empty")
  ELSE IF s = <<43>> \/ s = <<45>> THEN IntErr("InvalidDigit")
  ELSE LET plus  == s[1] = 43
           minus == s[1] = 45 /\ signed
           ds    == IF plus \/ minus THEN Tail(s) ELSE s
           r     == DigitLoop(ds, radix, IF minus THEN MaxNeg[bits][signed] ELSE MaxPos[bits][signed],
                              IF minus THEN "NegOverflow" ELSE "PosOverflow")
       IN IF r.err # "" THEN IntErr(r.err) ELSE IntOk(minus, r.mag)

ParseNonZero(s, signed, bits) ==
  LET r == ParseInt(s, signed, bits, 10) IN IF r.ok /\ r.mag = <<>> THEN IntErr("Zero") ELSE r

IntText(r) == (IF r.neg THEN <<45>> ELSE <<>>) \o Decimal(r.mag)
=============================================================================
