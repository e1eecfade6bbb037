------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The matching language: the part of the `regex` syntax that sscanf and   *)
(* its users write, parsed from text, compiled to a small program, and run *)
(* with leftmost-first (Perl) priority and capture groups.                 *)
(*                                                                         *)
(* The input of the parser is a sequence of tokens: a number below LIT is  *)
(* a character of regex source text, a number c >= LIT stands for the      *)
(* literal character c - LIT, whatever it means in a regex.                *)
(***************************************************************************)
EXTENDS Text

LIT == 2000000
Lit(s) == [i \in 1..Len(s) |-> LIT + s[i]]

-----------------------------------------------------------------------------
(* Character sets: sequences of inclusive ranges.                          *)

InSet(c, r) == \E k \in 1..Len(r) : r[k][1] <= c /\ c <= r[k][2]

One(c) == << <<c, c>> >>

\* Complement; the ranges are sorted by lower bound first.
RECURSIVE Gaps(_, _, _)
Gaps(rs, k, from) ==
  IF k > Len(rs) THEN (IF from <= MaxScalar THEN << <<from, MaxScalar>> >> ELSE <<>>)
  ELSE LET lo == rs[k][1] hi == rs[k][2] nf == IF hi + 1 > from THEN hi + 1 ELSE from IN
       (IF from < lo THEN << <<from, lo - 1>> >> ELSE <<>>) \o Gaps(rs, k + 1, nf)
Complement(r) == Gaps(SortSeq(r, LAMBDA a, b : a[1] < b[1]), 1, 0)

\* \d, \w, \s: the ASCII members, and the other members that inputs of the model may contain
\* (three scripts with decimal digits, and letters of a few blocks).
DigitSet == << <<48, 57>>, <<1632, 1641>>, <<2406, 2415>>, <<65296, 65305>> >>
WordSet  == DigitSet \o << <<65, 90>>, <<95, 95>>, <<97, 122>>, <<170, 170>>, <<181, 181>>, <<186, 186>>, <<192, 214>>, <<216, 246>>,
                           <<248, 705>>, <<768, 883>>, <<904, 906>>, <<910, 929>>, <<931, 1013>>, <<1015, 1153>>, <<8204, 8205>>,
                           <<8490, 8490>>, <<19968, 40959>>, <<64256, 64262>>, <<66352, 66378>> >>
SpaceSet == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>, <<8192, 8202>>, <<8232, 8233>>,
              <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>> >>
DotSet   == << <<0, 9>>, <<11, MaxScalar>> >>
AnySet   == << <<0, MaxScalar>> >>

\* Simple case folding of the ranges, for ASCII and Latin-1 letters, the characters outside of these blocks that fold
\* to one of them (long s, the Kelvin and Angstrom signs, ...), and the basic Cyrillic letters.
FoldShift == << <<97, 122, 32>>, <<224, 246, 32>>, <<248, 254, 32>>, <<1072, 1103, 32>> >>
FoldSame == << {107, 75, 8490}, {115, 83, 383}, {229, 197, 8491}, {181, 956, 924}, {223, 7838}, {255, 376} >>
FoldRange(r) ==
  LET lo == r[1] hi == r[2]
      mx(a, b) == IF a > b THEN a ELSE b
      mn(a, b) == IF a < b THEN a ELSE b
      shift(acc, e) ==
        LET a == mx(lo, e[1]) b == mn(hi, e[2]) c == mx(lo, e[1] - e[3]) d == mn(hi, e[2] - e[3]) IN
        acc \o (IF a <= b THEN << <<a - e[3], b - e[3]>> >> ELSE <<>>) \o (IF c <= d THEN << <<c + e[3], d + e[3]>> >> ELSE <<>>)
      same(acc, e) == IF \E c \in e : lo <= c /\ c <= hi THEN acc \o SetToSeq({<<c, c>> : c \in e}) ELSE acc
  IN FoldLeft(same, FoldLeft(shift, << r >>, FoldShift), FoldSame)
Fold(r) == FoldLeft(LAMBDA acc, x : acc \o FoldRange(x), <<>>, r)

-----------------------------------------------------------------------------
(* Syntax tree.                                                            *)

NSet(r)          == [k |-> "set", r |-> r]
NCat(s)          == [k |-> "cat", s |-> s]
NAlt(s)          == [k |-> "alt", s |-> s]
NCap(n, i)       == [k |-> "cap", n |-> n, i |-> i]
NRep(n, a, b, z) == [k |-> "rep", n |-> n, lo |-> a, hi |-> b, lazy |-> z]   \* b = -1: unbounded
NBol             == [k |-> "bol"]
NEol             == [k |-> "eol"]
NWordB(yes)      == [k |-> "wordb", yes |-> yes]

Flags0 == [i |-> FALSE, s |-> FALSE]

cBar == Ch("|")  cOpen == Ch("(")  cClose == Ch(")")  cQ == Ch("?")  cStar == Ch("*")  cPlus == Ch("+")
cDot == Ch(".")  cHat == Ch("^")  cDollar == Ch("$")  cLB == Ch("[")  cRB == Ch("]")  cBS == Ch("\\")
cLC == Ch("{")  cRC == Ch("}")  cComma == Ch(",")  cMinus == Ch("-")  cColon == Ch(":")
cLt == Ch("<") cGt == Ch(">") cP == Ch("P")

At(T, i) == IF i <= Len(T) THEN T[i] ELSE -1

\* the set meant by a backslash escape
EscSet(c) ==
  CASE c = Ch("d") -> DigitSet
    [] c = Ch("D") -> Complement(DigitSet)
    [] c = Ch("w") -> WordSet
    [] c = Ch("W") -> Complement(WordSet)
    [] c = Ch("s") -> SpaceSet
    [] c = Ch("S") -> Complement(SpaceSet)
    [] c = Ch("n") -> One(10)
    [] c = Ch("t") -> One(9)
    [] c = Ch("r") -> One(13)
    [] c = Ch("a") -> One(7)
    [] c = Ch("f") -> One(12)
    [] c = Ch("v") -> One(11)
    [] OTHER -> One(c)

IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexOf(s) == FoldLeft(LAMBDA acc, c : acc * 16 + (IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87), 0, s)
RECURSIVE HexEnd(_, _)
HexEnd(T, i) == IF IsHex(At(T, i)) THEN HexEnd(T, i + 1) ELSE i

\* the escape whose backslash is at position i: [r |-> ranges, i |-> next position]; \x61, \u0061 and \x{61} have a number
EscAt(T, i) ==
  LET c == At(T, i + 1) d == IF c = Ch("x") THEN 2 ELSE 4 IN
  IF c \notin {Ch("x"), Ch("u")} THEN [r |-> EscSet(c), i |-> i + 2]
  ELSE IF At(T, i + 2) = cLC THEN LET e == HexEnd(T, i + 3) IN [r |-> One(HexOf(SubSeq(T, i + 3, e - 1))), i |-> e + 1]
  ELSE [r |-> One(HexOf(SubSeq(T, i + 2, i + 1 + d))), i |-> i + 2 + d]

\* does a number follow as it should?  (no numbers that are not characters)
EscHexOk(T, i) ==
  LET c == At(T, i + 1) d == IF c = Ch("x") THEN 2 ELSE 4 IN
  IF At(T, i + 2) = cLC THEN LET e == HexEnd(T, i + 3) IN e > i + 3 /\ e <= i + 9 /\ At(T, e) = cRC /\ HexOf(SubSeq(T, i + 3, e - 1)) <= MaxScalar
                                                         /\ HexOf(SubSeq(T, i + 3, e - 1)) \notin 55296..57343
  ELSE HexEnd(T, i + 2) >= i + 2 + d /\ HexOf(SubSeq(T, i + 2, i + 1 + d)) \notin 55296..57343

IsClassEsc(c) == c \in {Ch("d"), Ch("D"), Ch("w"), Ch("W"), Ch("s"), Ch("S")}

\* decimal number in T from position i: <<value, next position>>
RECURSIVE ReadNum(_, _, _)
ReadNum(T, i, acc) == IF At(T, i) >= 48 /\ At(T, i) <= 57 THEN ReadNum(T, i + 1, acc * 10 + T[i] - 48) ELSE <<acc, i>>

\* a number of a counted repetition, which may have space around it: <<value, position after it, were there digits?>>
RECURSIVE SkipSpace(_, _)
SkipSpace(T, i) == IF At(T, i) # -1 /\ InSet(At(T, i), SpaceSet) THEN SkipSpace(T, i + 1) ELSE i
CountAt(T, i) == LET st == SkipSpace(T, i) a == ReadNum(T, st, 0) IN <<a[1], SkipSpace(T, a[2]), a[2] # st>>

cStarPlusQ == {cStar, cPlus, cQ}
ClassLetters == {Ch("d"), Ch("D"), Ch("w"), Ch("W"), Ch("s"), Ch("S")}
HexLetters == {Ch("x"), Ch("u")}
EscLetters == ClassLetters \cup HexLetters \cup {Ch("n"), Ch("t"), Ch("r"), Ch("a"), Ch("f"), Ch("v")}
AssertLetters == {Ch("b"), Ch("B"), Ch("A"), Ch("z")}
MetaChars == {cBS, cDot, cPlus, cStar, cQ, cOpen, cClose, cBar, cLB, cRB, cLC, cRC, cHat, cDollar,
              Ch("#"), Ch("&"), cMinus, Ch("~")}


Cased(r, f) == IF f.i THEN Fold(r) ELSE r

\* the named sets of [[:name:]]
AsciiNames == [name \in {"alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct",
                         "space", "upper", "word", "xdigit"} |->
  CASE name = "alnum"  -> << <<48, 57>>, <<65, 90>>, <<97, 122>> >>
    [] name = "alpha"  -> << <<65, 90>>, <<97, 122>> >>
    [] name = "ascii"  -> << <<0, 127>> >>
    [] name = "blank"  -> << <<9, 9>>, <<32, 32>> >>
    [] name = "cntrl"  -> << <<0, 31>>, <<127, 127>> >>
    [] name = "digit"  -> << <<48, 57>> >>
    [] name = "graph"  -> << <<33, 126>> >>
    [] name = "lower"  -> << <<97, 122>> >>
    [] name = "print"  -> << <<32, 126>> >>
    [] name = "punct"  -> << <<33, 47>>, <<58, 64>>, <<91, 96>>, <<123, 126>> >>
    [] name = "space"  -> << <<9, 13>>, <<32, 32>> >>
    [] name = "upper"  -> << <<65, 90>> >>
    [] name = "word"   -> << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
    [] OTHER           -> << <<48, 57>>, <<65, 70>>, <<97, 102>> >>]

\* [:name:] or [:^name:] at position i (inside of a class): [r |-> ranges, i |-> position behind it], i = 0 if it is none
AsciiAt(T, i, f) ==
  LET neg == At(T, i + 2) = cHat
      st  == IF neg THEN i + 3 ELSE i + 2
      hit == IF At(T, i) # cLB \/ At(T, i + 1) # cColon THEN {}
             ELSE {n \in DOMAIN AsciiNames : LET e == st + Len(S(n)) IN SubSeq(T, st, IF e - 1 < Len(T) THEN e - 1 ELSE Len(T)) = S(n) /\ At(T, e) = cColon /\ At(T, e + 1) = cRB}
  IN IF hit = {} THEN [r |-> <<>>, i |-> 0]
     ELSE LET n == CHOOSE x \in hit : TRUE r == Cased(AsciiNames[n], f) IN
          [r |-> IF neg THEN Complement(r) ELSE r, i |-> st + Len(S(n)) + 2]

\* the set operations inside of a class
SetOp(op, a, b) ==
  CASE op = "&&" -> Complement(Complement(a) \o Complement(b))
    [] op = "--" -> Complement(Complement(a) \o b)
    [] op = "~~" -> Complement(Complement(a) \o b) \o Complement(Complement(b) \o a)
    [] OTHER -> b

\* A class whose '[' is at position i - 1: [r |-> ranges, i |-> position behind its ']'], i = 0 if it is not a class.
\* Operators have no precedence and are applied from left to right: op is pending between lhs and the current union acc.
RECURSIVE ClassAt(_, _, _), ClassItems(_, _, _, _)
ClassItems(T, i, f, st) ==
  LET c == At(T, i)
      d == At(T, i + 1)
      all == SetOp(st.op, Cased(st.lhs, f), IF st.op = "" THEN st.acc ELSE Cased(st.acc, f))
      bad == [r |-> <<>>, i |-> 0]
      add(r, j) == ClassItems(T, j, f, [st EXCEPT !.acc = @ \o r])
  IN CASE c = -1 -> bad
       [] c = cRB -> [r |-> Cased(all, f), i |-> i + 1]
       [] c = cLB -> LET n == AsciiAt(T, i, f) s == IF n.i # 0 THEN n ELSE ClassAt(T, i + 1, f) IN
                     IF s.i = 0 THEN bad ELSE add(s.r, s.i)
       [] c = d /\ c \in {Ch("&"), cMinus, Ch("~")} ->
            ClassItems(T, i + 2, f, [lhs |-> all, op |-> CASE c = cMinus -> "--" [] c = Ch("~") -> "~~" [] OTHER -> "&&", acc |-> <<>>])
       [] OTHER ->
            LET escOk(j) == At(T, j) # cBS \/ (At(T, j + 1) \in MetaChars \cup EscLetters /\ (At(T, j + 1) \in HexLetters => EscHexOk(T, j)))
                item(j) == IF At(T, j) = cBS THEN EscAt(T, j) ELSE [r |-> One(IF At(T, j) >= LIT THEN At(T, j) - LIT ELSE At(T, j)), i |-> j + 1]
                multi(j) == At(T, j) = cBS /\ At(T, j + 1) \in ClassLetters
            IN IF ~escOk(i) THEN bad
               ELSE LET a == item(i) IN
                    IF At(T, a.i) # cMinus \/ At(T, a.i + 1) \in {cRB, cMinus} THEN add(a.r, a.i)
                    ELSE IF multi(i) \/ At(T, a.i + 1) = -1 \/ ~escOk(a.i + 1) \/ multi(a.i + 1) THEN bad
                    ELSE LET b == item(a.i + 1) IN
                         IF a.r[1][1] > b.r[1][1] THEN bad ELSE add(<< <<a.r[1][1], b.r[1][1]>> >>, b.i)

RECURSIVE Dashes(_, _)
Dashes(T, i) == IF At(T, i) = cMinus THEN Dashes(T, i + 1) ELSE i

\* every '-' at the very beginning stands for itself, and so does a ']' there
ClassAt(T, i, f) ==
  LET neg == At(T, i) = cHat
      st  == IF neg THEN i + 1 ELSE i
      d   == Dashes(T, st)
      rb  == d = st /\ At(T, st) = cRB
      r   == ClassItems(T, IF rb THEN st + 1 ELSE d, f,
                        [lhs |-> <<>>, op |-> "", acc |-> IF rb THEN One(cRB) ELSE IF d > st THEN One(cMinus) ELSE <<>>])
  IN IF r.i = 0 \/ ~neg THEN r ELSE [r EXCEPT !.r = Complement(@)]

\* flags between "(?" and ':' or ')': [f |-> flags, i |-> position of ':' or ')']
RECURSIVE ReadFlags(_, _, _, _)
ReadFlags(T, i, f, on) ==
  LET c == At(T, i) IN
  IF c = cMinus THEN ReadFlags(T, i + 1, f, FALSE)
  ELSE IF c = Ch("i") THEN ReadFlags(T, i + 1, [f EXCEPT !.i = on], on)
  ELSE IF c = Ch("s") THEN ReadFlags(T, i + 1, [f EXCEPT !.s = on], on)
  ELSE [f |-> f, i |-> i]

RECURSIVE SkipTo(_, _, _)
SkipTo(T, i, c) == IF T[i] = c THEN i ELSE SkipTo(T, i + 1, c)

\* All parsers return [n |-> node, i |-> next position, g |-> number of groups so far, f |-> flags]
RECURSIVE ParseAlt(_, _, _, _), ParseCat(_, _, _, _, _), ParseAtom(_, _, _, _), ParseRep(_, _, _)

ParseAlt(T, i, g, f) ==
  LET b == ParseCat(T, i, g, f, <<>>) IN
  IF At(T, b.i) = cBar
  THEN LET rest == ParseAlt(T, b.i + 1, b.g, b.f) IN
       [n |-> NAlt(<<b.n>> \o (IF rest.n.k = "alt" THEN rest.n.s ELSE <<rest.n>>)), i |-> rest.i, g |-> rest.g, f |-> f]
  ELSE [n |-> b.n, i |-> b.i, g |-> b.g, f |-> f]

ParseCat(T, i, g, f, acc) ==
  LET c == At(T, i) IN
  IF c = -1 \/ c = cBar \/ c = cClose THEN [n |-> NCat(acc), i |-> i, g |-> g, f |-> f]
  ELSE IF c = cOpen /\ At(T, i + 1) = cQ /\ At(T, ReadFlags(T, i + 2, f, TRUE).i) = cClose
  THEN LET fl == ReadFlags(T, i + 2, f, TRUE) IN ParseCat(T, fl.i + 1, g, fl.f, acc)
  ELSE LET a == ParseAtom(T, i, g, f)
           r == ParseRep(T, a.i, a.n)
       IN ParseCat(T, r.i, a.g, f, Append(acc, r.n))

ParseAtom(T, i, g, f) ==
  LET c == At(T, i) IN
  CASE c >= LIT    -> [n |-> NSet(Cased(One(c - LIT), f)), i |-> i + 1, g |-> g]
    [] c = cDot    -> [n |-> NSet(IF f.s THEN AnySet ELSE DotSet), i |-> i + 1, g |-> g]
    [] c = cHat    -> [n |-> NBol, i |-> i + 1, g |-> g]
    [] c = cDollar -> [n |-> NEol, i |-> i + 1, g |-> g]
    [] c = cBS /\ At(T, i + 1) = Ch("A") -> [n |-> NBol, i |-> i + 2, g |-> g]
    [] c = cBS /\ At(T, i + 1) = Ch("z") -> [n |-> NEol, i |-> i + 2, g |-> g]
    [] c = cBS /\ At(T, i + 1) \in {Ch("b"), Ch("B")} -> [n |-> NWordB(T[i + 1] = Ch("b")), i |-> i + 2, g |-> g]
    [] c = cBS     -> [n |-> NSet(Cased(EscAt(T, i).r, f)), i |-> EscAt(T, i).i, g |-> g]
    [] c = cLB     -> LET cl == ClassAt(T, i + 1, f) IN [n |-> NSet(cl.r), i |-> cl.i, g |-> g]
    [] c = cOpen   -> IF At(T, i + 1) = cQ /\ At(T, i + 2) # cP /\ At(T, i + 2) # cLt
                      THEN LET fl == ReadFlags(T, i + 2, f, TRUE)         \* (?flags: ... )
                               b  == ParseAlt(T, fl.i + 1, g, fl.f)
                           IN [n |-> b.n, i |-> b.i + 1, g |-> b.g]
                      ELSE LET st == IF At(T, i + 1) = cQ THEN SkipTo(T, i, cGt) + 1 ELSE i + 1
                               b  == ParseAlt(T, st, g + 1, f)
                           IN [n |-> NCap(b.n, g + 1), i |-> b.i + 1, g |-> b.g]
    [] OTHER       -> [n |-> NSet(Cased(One(c), f)), i |-> i + 1, g |-> g]

ParseRep(T, i, n) ==
  LET c == At(T, i)
      lazy(j) == At(T, j) = cQ
      mk(lo, hi, j) == ParseRep(T, IF lazy(j) THEN j + 1 ELSE j, NRep(n, lo, hi, lazy(j)))
  IN CASE c = cStar -> mk(0, -1, i + 1)
       [] c = cPlus -> mk(1, -1, i + 1)
       [] c = cQ    -> mk(0, 1, i + 1)
       [] c = cLC   -> LET a == CountAt(T, i + 1) IN
                       IF T[a[2]] = cRC THEN mk(a[1], a[1], a[2] + 1)
                       ELSE IF T[a[2] + 1] = cRC THEN mk(a[1], -1, a[2] + 2)
                       ELSE LET b == CountAt(T, a[2] + 1) IN mk(a[1], b[1], b[2] + 1)
       [] OTHER     -> [n |-> n, i |-> i]

-----------------------------------------------------------------------------
(* Which texts are regexes at all.  Covers the syntax that the parser      *)
(* above covers.                                                           *)

\* {n}, {n,} or {n,m} from the position after '{': position after '}', 0 if it is none of them
CountEnd(T, i) ==
  LET a == CountAt(T, i) b == CountAt(T, a[2] + 1) IN
  IF ~a[3] THEN 0
  ELSE IF At(T, a[2]) = cRC THEN a[2] + 1
  ELSE IF At(T, a[2]) # cComma THEN 0
  ELSE IF At(T, a[2] + 1) = cRC THEN a[2] + 2
  ELSE IF ~b[3] \/ At(T, b[2]) # cRC \/ a[1] > b[1] THEN 0
  ELSE b[2] + 1

\* rep: is there something that a quantifier can apply to?
RECURSIVE ValidFrom(_, _, _, _)
ValidFrom(T, i, depth, rep) ==
  LET c == At(T, i) lazy(j) == IF At(T, j) = cQ THEN j + 1 ELSE j IN
  CASE c = -1 -> depth = 0
    [] c = cClose -> depth > 0 /\ ValidFrom(T, i + 1, depth - 1, TRUE)
    [] c = cBar -> ValidFrom(T, i + 1, depth, FALSE)
    [] c \in cStarPlusQ -> rep /\ ValidFrom(T, lazy(i + 1), depth, TRUE)
    [] c = cLC -> rep /\ CountEnd(T, i + 1) # 0 /\ ValidFrom(T, lazy(CountEnd(T, i + 1)), depth, TRUE)
    [] c = cLB -> LET e == ClassAt(T, i + 1, Flags0).i IN e # 0 /\ ValidFrom(T, e, depth, TRUE)
    [] c = cBS -> IF At(T, i + 1) \in HexLetters THEN EscHexOk(T, i) /\ ValidFrom(T, EscAt(T, i).i, depth, TRUE)
                  ELSE At(T, i + 1) \in MetaChars \cup EscLetters \cup AssertLetters /\ ValidFrom(T, i + 2, depth, TRUE)
    [] c = cOpen ->
         IF At(T, i + 1) # cQ THEN ValidFrom(T, i + 1, depth + 1, FALSE)
         ELSE IF At(T, i + 2) \in {cP, cLt}
         THEN LET st == IF At(T, i + 2) = cP THEN i + 3 ELSE i + 2
                  gt == {j \in (st + 1)..Len(T) : T[j] = cGt}
              IN At(T, st) = cLt /\ gt # {}
                 /\ LET e == CHOOSE j \in gt : \A k \in gt : j <= k IN
                    e > st + 1 /\ IsAlpha(T[st + 1]) /\ (\A k \in (st + 1)..(e - 1) : IsAlpha(T[k]) \/ IsDigit(T[k]))
                    /\ ValidFrom(T, e + 1, depth + 1, FALSE)
         ELSE LET fl == ReadFlags(T, i + 2, Flags0, TRUE)
                  n == fl.i - (i + 2)
                  once(x) == \A j, k \in (i + 2)..(fl.i - 1) : T[j] = x /\ T[k] = x => j = k
              IN once(cMinus) /\ once(Ch("i")) /\ once(Ch("s")) /\
                 IF At(T, fl.i) = cColon THEN (n = 0 \/ T[fl.i - 1] # cMinus) /\ ValidFrom(T, fl.i + 1, depth + 1, FALSE)
                 ELSE At(T, fl.i) = cClose /\ n > 0 /\ T[fl.i - 1] # cMinus /\ ValidFrom(T, fl.i + 1, depth, FALSE)
    [] OTHER -> ValidFrom(T, i + 1, depth, TRUE)

\* a class must have members
RECURSIVE NoEmptySet(_)
NoEmptySet(n) ==
  CASE n.k = "set" -> n.r # <<>>
    [] n.k \in {"cat", "alt"} -> \A j \in 1..Len(n.s) : NoEmptySet(n.s[j])
    [] n.k \in {"cap", "rep"} -> NoEmptySet(n.n)
    [] OTHER -> TRUE

ValidRegex(T) == ValidFrom(T, 1, 0, FALSE) /\ NoEmptySet(ParseAlt(T, 1, 0, Flags0).n)

ParseRegex(T) == LET r == ParseAlt(T, 1, 0, Flags0) IN [n |-> r.n, groups |-> r.g, rest |-> Len(T) + 1 - r.i]

-----------------------------------------------------------------------------
(* Programs.  Addresses in split/jmp are relative, so that the copies of a *)
(* counted repetition are the same code.                                   *)

ISet(r)      == [op |-> "set", r |-> r]
ISplit(a, b) == [op |-> "split", a |-> a, b |-> b]
IJmp(a)      == [op |-> "jmp", a |-> a]
ISave(n)     == [op |-> "save", a |-> n]

RECURSIVE Code(_), AltCode(_, _), OptCode(_, _, _)

\* can the node match the empty text?  (assertions count as empty)
RECURSIVE Nullable(_)
Nullable(n) ==
  CASE n.k = "set" -> FALSE
    [] n.k = "cat" -> \A j \in 1..Len(n.s) : Nullable(n.s[j])
    [] n.k = "alt" -> \E j \in 1..Len(n.s) : Nullable(n.s[j])
    [] n.k = "cap" -> Nullable(n.n)
    [] n.k = "rep" -> n.lo = 0 \/ Nullable(n.n)
    [] OTHER -> TRUE

OptCode(body, k, lazy) ==
  IF k = 0 THEN <<>>
  ELSE LET rest == OptCode(body, k - 1, lazy)
           out  == 1 + Len(body) + Len(rest)
       IN <<IF lazy THEN ISplit(out, 1) ELSE ISplit(1, out)>> \o body \o rest

AltCode(s, k) ==
  IF k = Len(s) THEN Code(s[k])
  ELSE LET c == Code(s[k]) rest == AltCode(s, k + 1)
       IN <<ISplit(1, Len(c) + 2)>> \o c \o <<IJmp(Len(rest) + 1)>> \o rest

Code(n) ==
  CASE n.k = "set" -> <<ISet(n.r)>>
    [] n.k = "cat" -> FoldLeft(LAMBDA acc, x : acc \o Code(x), <<>>, n.s)
    [] n.k = "alt" -> AltCode(n.s, 1)
    [] n.k = "cap" -> <<ISave(2 * n.i + 1)>> \o Code(n.n) \o <<ISave(2 * n.i + 2)>>
    [] n.k = "bol" -> <<[op |-> "bol"]>>
    [] n.k = "eol" -> <<[op |-> "eol"]>>
    [] n.k = "wordb" -> <<[op |-> "wordb", yes |-> n.yes]>>
    [] n.k = "rep" ->
         LET body == TLCEval(Code(n.n))
             len  == Len(body)
             fork(a, b) == IF n.lazy THEN ISplit(b, a) ELSE ISplit(a, b)
             times(m) == FoldLeft(LAMBDA acc, x : acc \o body, <<>>, [j \in 1..m |-> 0])
             plus == body \o <<fork(-len, 1)>>
         IN IF n.hi # -1 THEN times(n.lo) \o OptCode(body, n.hi - n.lo, n.lazy)
            ELSE IF n.lo > 0 THEN times(n.lo - 1) \o plus
            \* x* is (x+)? where x may be empty: the empty iteration is not repeated
            ELSE IF Nullable(n.n) THEN <<fork(1, len + 2)>> \o plus
            ELSE <<fork(1, len + 2)>> \o body \o <<IJmp(-(len + 1))>>

\* Group 0 is the whole match.
Compile(T) ==
  LET p == ParseRegex(T) IN
  [code |-> <<ISave(1)>> \o Code(p.n) \o <<ISave(2), [op |-> "match"]>>, groups |-> p.groups, rest |-> p.rest]

\* the same, but a match may begin after the first character: as early as possible
CompileSearch(T) == LET p == Compile(T) IN [p EXCEPT !.code = <<ISplit(3, 1), ISet(AnySet), IJmp(-2)>> \o @]

-----------------------------------------------------------------------------
(* Running a program: all threads advance together over the input, in      *)
(* priority order; a thread is <<pc, caps>>.                               *)

\* is there the edge of a word before position i?
WordEdge(inp, i) ==
  LET before == i > 1 /\ InSet(inp[i - 1], WordSet)
      after  == i <= Len(inp) /\ InSet(inp[i], WordSet)
  IN before # after

\* adds a thread and everything reachable without consuming a character.  i: position (1-based) of the next
\* character
RECURSIVE Add(_, _, _, _, _, _)
Add(code, pc, caps, i, inp, st) ==
  IF pc \in st.seen THEN st
  ELSE LET ins == code[pc]
           s1  == [st EXCEPT !.seen = @ \cup {pc}]
       IN CASE ins.op = "jmp"   -> Add(code, pc + ins.a, caps, i, inp, s1)
            [] ins.op = "split" -> LET s2 == TLCEval(Add(code, pc + ins.a, caps, i, inp, s1))
                                   IN Add(code, pc + ins.b, caps, i, inp, s2)
            [] ins.op = "save"  -> Add(code, pc + 1, [caps EXCEPT ![ins.a] = i], i, inp, s1)
            [] ins.op = "bol"   -> IF i = 1 THEN Add(code, pc + 1, caps, i, inp, s1) ELSE s1
            [] ins.op = "eol"   -> IF i = Len(inp) + 1 THEN Add(code, pc + 1, caps, i, inp, s1) ELSE s1
            [] ins.op = "wordb" -> IF WordEdge(inp, i) = ins.yes THEN Add(code, pc + 1, caps, i, inp, s1) ELSE s1
            [] OTHER            -> [s1 EXCEPT !.q = Append(@, <<pc, caps>>)]

NoThreads == [q |-> <<>>, seen |-> {}]

\* one character
StepThreads(code, q, c, i, inp) ==
  FoldLeft(LAMBDA st, th :
             IF st.cut THEN st
             ELSE LET ins == code[th[1]] IN
                  IF ins.op = "match" THEN [st EXCEPT !.cut = TRUE, !.best = th[2]]
                  ELSE IF InSet(c, ins.r) THEN [st EXCEPT !.t = Add(code, th[1] + 1, th[2], i + 1, inp, st.t)]
                  ELSE st,
           [t |-> NoThreads, cut |-> FALSE, best |-> <<>>], q)

\* Runs the program from position 1.  The result is a sequence of 2 * (groups + 1) positions, 0 for groups that did
\* not participate, or <<>> if there is no match starting at the first character.
Run(p, input) ==
  LET code == p.code
      caps0 == [k \in 1..(2 * (p.groups + 1)) |-> 0]
      start == [q |-> Add(code, 1, caps0, 1, input, NoThreads).q, best |-> <<>>, i |-> 1]
      end == FoldLeft(LAMBDA st, c :
                        IF st.q = <<>> THEN [st EXCEPT !.i = @ + 1]
                        ELSE LET r == StepThreads(code, st.q, c, st.i, input) IN
                             [q |-> r.t.q, best |-> IF r.cut THEN r.best ELSE st.best, i |-> st.i + 1],
                      start, input)
      fin == FoldLeft(LAMBDA b, th : IF b.cut THEN b
                                     ELSE IF code[th[1]].op = "match" THEN [cut |-> TRUE, best |-> th[2]] ELSE b,
                      [cut |-> FALSE, best |-> end.best], end.q)
  IN fin.best

Anchored(T) == <<cHat>> \o T \o <<cDollar>>
Group(T) == <<cOpen>> \o T \o <<cClose>>
NonCap(T) == <<cOpen, cQ, cColon>> \o T \o <<cClose>>

\* does the text belong to the language of the regex?
InLanguage(T, s) == Run(Compile(Anchored(NonCap(T))), s) # <<>>
=============================================================================
