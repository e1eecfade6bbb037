--------------------------- MODULE FormatGrammar ---------------------------
(***************************************************************************)
(* The format string language, as an automaton that reads the source text  *)
(* of a string literal (what is written between the quotes) one character  *)
(* at a time.                                                              *)
(*                                                                         *)
(* A finished format is a sequence of parts p[1] ph[1] p[2] ... p[n+1]:    *)
(* literal parts are regex tokens (see Regex), placeholders have an        *)
(* optional name and an optional format option.                            *)
(***************************************************************************)
EXTENDS Regex

cSlash == Ch("/")  cHash == Ch("#")  cX == Ch("x")  cO == Ch("o")  cB == Ch("b")  cR == Ch("r")
cQuote == 34  cApos == 39

NoOpt == [k |-> "none"]
OptRegex(t) == [k |-> "regex", re |-> t]
OptRadix(r, p) == [k |-> "radix", radix |-> r, policy |-> p]   \* policy: "never", "optional", "forced"
OptHash == [k |-> "hash"]

\* Why a format is rejected, and which characters of it are to blame (inclusive positions).
Err(kind, from, to) == [kind |-> kind, from |-> from, to |-> to]
NoErr == Err("", 0, 0)

Start == [m |-> "lit", i |-> 1, parts |-> <<>>, cur |-> <<>>, phs |-> <<>>,
          at |-> 0,          \* position of the '{', '}' or '\' being looked at, and of the placeholder's '{'
          is |-> 0, ie |-> 0,   \* name: first position, position after the last
          os |-> 0,          \* first position of the option
          txt |-> <<>>,      \* text of the option so far
          esc |-> 0,         \* position of a pending '\' inside of a custom regex
          num |-> 0, cnt |-> 0, \* hex escape: value and number of digits
          err |-> NoErr]

Fail(s, e) == [s EXCEPT !.m = "err", !.err = e]

\* a character of literal text
PushLit(s, c, escaped) == [s EXCEPT !.cur = Append(@, IF escaped THEN LIT + c ELSE c), !.m = "lit"]

NameOf(s, text) == IF s.is = 0 THEN <<>> ELSE Slice(text, s.is, s.ie)

ClosePh(s, text, opt) ==
  [s EXCEPT !.m = "lit", !.parts = Append(@, s.cur), !.cur = <<>>,
            !.phs = Append(@, [from |-> s.at, to |-> s.i, named |-> s.is # 0, name |-> NameOf(s, text),
                               is |-> s.is, ie |-> s.ie, opt |-> opt, os |-> s.os, oe |-> s.i])]

\* Number after 'r': as u8::from_str would read it, -1 if it is not a number, 256 if it is too large.
ReadU8(t) ==
  LET d == IF Len(t) > 1 /\ t[1] = cPlus THEN Tail(t) ELSE t IN
  IF d = <<>> \/ \E k \in 1..Len(d) : ~IsDigit(d[k]) THEN -1
  ELSE FoldLeft(LAMBDA acc, c : IF acc * 10 + c - 48 > 255 THEN 256 ELSE acc * 10 + c - 48, 0, d)

PrefixRadix == [c \in {cX, cO, cB} |-> IF c = cX THEN 16 ELSE IF c = cO THEN 8 ELSE 2]

ClassifyOption(t) ==   \* an option record, or [k |-> "bad", kind |-> ...]
  IF t = <<cHash>> THEN OptHash
  ELSE IF Len(t) = 1 /\ t[1] \in {cX, cO, cB} THEN OptRadix(PrefixRadix[t[1]], "optional")
  ELSE IF Len(t) = 2 /\ t[1] = cHash /\ t[2] \in {cX, cO, cB} THEN OptRadix(PrefixRadix[t[2]], "forced")
  ELSE IF Len(t) = 2 /\ t[2] = cHash /\ t[1] \in {cX, cO, cB} THEN OptRadix(PrefixRadix[t[1]], "forced")
  ELSE IF t[1] = cHash \/ t[Len(t)] = cHash THEN [k |-> "bad", kind |-> "hash"]
  ELSE IF t[1] = cR
       THEN LET n == ReadU8(Tail(t)) IN
            IF n = -1 \/ n = 256 THEN [k |-> "bad", kind |-> "radix-number"]
            ELSE IF n < 2 \/ n > 36 THEN [k |-> "bad", kind |-> "radix-range"]
            ELSE OptRadix(n, "never")
  ELSE [k |-> "bad", kind |-> "unknown-option"]

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE ToLower(c) - 87

\* capturing groups are not allowed in custom regexes
HasCapture(t) == ParseRegex(t).groups > 0

\* One character c.  text: the whole source text (to cut names out of), raw: is it a raw string literal,
\* escaped: does literal text stand for itself (otherwise it is regex source).
RECURSIVE Feed(_, _, _, _, _)
Feed(s, c, text, raw, escaped) ==
  LET again(t) == Feed(t, c, text, raw, escaped)
      nxt(t)   == [t EXCEPT !.i = @ + 1]
      \* an effective '\' inside of a regex
      rxEsc(t, pos) == IF t.esc # 0 THEN [t EXCEPT !.txt = @ \o <<cBS, cBS>>, !.esc = 0] ELSE [t EXCEPT !.esc = pos]
      rxFlush(t) == IF t.esc # 0 THEN [t EXCEPT !.txt = Append(@, cBS), !.esc = 0] ELSE t
  IN
  CASE s.m = "err" -> s
    [] s.m = "lit" ->
         IF c = cLC THEN nxt([s EXCEPT !.m = "lb", !.at = s.i])
         ELSE IF c = cRC THEN nxt([s EXCEPT !.m = "rb", !.at = s.i])
         ELSE IF c = cBS /\ ~raw THEN nxt([s EXCEPT !.m = "bs", !.at = s.i])
         ELSE nxt(PushLit(s, c, escaped))
    [] s.m = "lb" ->
         IF c = cLC THEN nxt(PushLit(s, c, escaped))
         ELSE again([s EXCEPT !.m = "ph", !.is = 0, !.ie = 0, !.os = 0, !.txt = <<>>, !.esc = 0])
    [] s.m = "rb" ->
         IF c = cRC THEN nxt(PushLit(s, c, escaped)) ELSE Fail(s, Err("close-alone", s.at, s.at))
    \* escape sequences of the string literal
    [] s.m = "bs" ->
         CASE c = Ch("n") -> nxt(PushLit(s, 10, escaped))
           [] c = Ch("r") -> nxt(PushLit(s, 13, escaped))
           [] c = Ch("t") -> nxt(PushLit(s, 9, escaped))
           [] c = Ch("0") -> nxt(PushLit(s, 0, escaped))
           [] c = Ch("x") -> nxt([s EXCEPT !.m = "hex", !.num = 0, !.cnt = 0])
           [] c = Ch("u") -> nxt([s EXCEPT !.m = "uni", !.num = 0])
           [] c = 10 \/ c = 13 -> nxt([s EXCEPT !.m = "cont"])
           [] OTHER -> nxt(PushLit(s, c, escaped))
    [] s.m = "hex" ->
         LET v == s.num * 16 + HexVal(c) IN
         IF s.cnt = 1 THEN nxt(PushLit(s, v, escaped)) ELSE nxt([s EXCEPT !.num = v, !.cnt = 1])
    [] s.m = "uni" ->
         IF c = cRC THEN nxt(PushLit(s, s.num, escaped))
         ELSE IF c = cLC \/ c = Ch("_") THEN nxt(s)
         ELSE nxt([s EXCEPT !.num = @ * 16 + HexVal(c)])
    [] s.m = "cont" ->
         IF c \in {9, 10, 13, 32} THEN nxt(s) ELSE again([s EXCEPT !.m = "lit"])
    \* placeholders
    [] s.m = "ph" ->
         IF c = cRC
         THEN LET t  == IF s.is # 0 THEN [s EXCEPT !.ie = s.i] ELSE s
                  nm == NameOf(t, text)
              IN IF nm # <<>> /\ nm[1] = cSlash /\ nm[Len(nm)] = cSlash
                 THEN Fail(s, Err("missing-colon", s.is, s.i - 1))
                 ELSE nxt(ClosePh(t, text, NoOpt))
         ELSE IF c = cColon THEN nxt([s EXCEPT !.m = "colon"])
         ELSE nxt([s EXCEPT !.is = IF @ = 0 THEN s.i ELSE @])
    [] s.m = "colon" ->
         IF c = cColon THEN nxt([s EXCEPT !.m = "ph", !.is = IF @ = 0 THEN s.i - 1 ELSE @])
         ELSE again([s EXCEPT !.m = "opt", !.ie = IF s.is = 0 THEN 0 ELSE s.i - 1, !.os = s.i])
    [] s.m = "opt" ->
         IF c = cSlash THEN nxt([s EXCEPT !.m = "rx"])
         ELSE IF c = cRC THEN Fail(s, Err("empty-option", s.i, s.i))
         ELSE nxt([s EXCEPT !.m = "name", !.txt = <<c>>])
    [] s.m = "name" ->
         IF c # cRC THEN nxt([s EXCEPT !.txt = Append(@, c)])
         ELSE LET o == ClassifyOption(s.txt) IN
              IF o.k = "bad" THEN Fail(s, Err(o.kind, s.os, s.i - 1)) ELSE nxt(ClosePh(s, text, o))
    [] s.m = "rx" ->
         IF c = cSlash THEN (IF s.esc # 0 THEN nxt([s EXCEPT !.txt = Append(@, cSlash), !.esc = 0])
                             ELSE nxt([s EXCEPT !.m = "rxend"]))
         ELSE IF c = cBS THEN (IF raw THEN nxt(rxEsc(s, s.i)) ELSE nxt([s EXCEPT !.m = "rxbs"]))
         ELSE nxt([rxFlush(s) EXCEPT !.txt = Append(@, c)])
    [] s.m = "rxbs" ->
         IF c = cBS THEN nxt([rxEsc(s, s.i - 1) EXCEPT !.m = "rx"])
         ELSE nxt([rxFlush(s) EXCEPT !.m = "rx",
                                    !.txt = IF c = cQuote \/ c = cApos THEN Append(@, c) ELSE @ \o <<cBS, c>>])
    [] s.m = "rxend" ->
         IF c = cRC
         THEN IF ~ValidRegex(s.txt) THEN Fail(s, Err("bad-regex", s.os, s.i - 1))
              ELSE IF HasCapture(s.txt) THEN Fail(s, Err("capture-group", s.os, s.i - 1))
              ELSE nxt(ClosePh(s, text, OptRegex(s.txt)))
         ELSE Fail(s, Err("after-regex", s.i, s.i))

\* End of the text.
Finish(s) ==
  LET n == s.i - 1 IN
  CASE s.m = "err" -> s
    [] s.m \in {"lit", "cont"} -> [s EXCEPT !.m = "done", !.parts = Append(@, s.cur), !.cur = <<>>]
    [] s.m = "rb" -> Fail(s, Err("close-alone", s.at, s.at))
    [] s.m \in {"rx", "rxbs"} -> IF s.esc # 0 THEN Fail(s, Err("regex-end", s.esc, n))
                                 ELSE Fail(s, Err("regex-open", s.os, n))
    [] OTHER -> Fail(s, Err("open", s.at, n))

Parse(text, raw, escaped) ==
  Finish(FoldLeft(LAMBDA s, c : Feed(s, c, text, raw, escaped), Start, text))
=============================================================================
