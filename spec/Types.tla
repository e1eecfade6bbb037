-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Types a placeholder can have: what they match, and what they make of    *)
(* the text they matched.                                                  *)
(*                                                                         *)
(* U is the program under study (see Sscanf): U.types are the types that   *)
(* the program defines, in order of definition.                            *)
(***************************************************************************)
EXTENDS Numbers, FormatGrammar

CONSTANT Source

\* Source, which TLC would read again each time it is mentioned; see Remember
U == TLCGet(9)

-----------------------------------------------------------------------------
(* Builtin types.                                                          *)

TInt(name, signed, bits, nz) == [k |-> "int", name |-> S(name), signed |-> signed, bits |-> bits, nz |-> nz]
TK(kind, name) == [k |-> kind, name |-> S(name)]
NoType == [k |-> "unknown", name |-> <<>>]

Prims == <<TInt("u8", FALSE, 8, FALSE), TInt("u16", FALSE, 16, FALSE), TInt("u32", FALSE, 32, FALSE),
           TInt("u64", FALSE, 64, FALSE), TInt("u128", FALSE, 128, FALSE), TInt("usize", FALSE, 64, FALSE),
           TInt("i8", TRUE, 8, FALSE), TInt("i16", TRUE, 16, FALSE), TInt("i32", TRUE, 32, FALSE),
           TInt("i64", TRUE, 64, FALSE), TInt("i128", TRUE, 128, FALSE), TInt("isize", TRUE, 64, FALSE),
           TK("float", "f32"), TK("float", "f64"), TK("char", "char"), TK("bool", "bool")>>
NonZeros == <<TInt("NonZeroU8", FALSE, 8, TRUE), TInt("NonZeroU16", FALSE, 16, TRUE),
              TInt("NonZeroU32", FALSE, 32, TRUE), TInt("NonZeroU64", FALSE, 64, TRUE),
              TInt("NonZeroU128", FALSE, 128, TRUE), TInt("NonZeroUsize", FALSE, 64, TRUE),
              TInt("NonZeroI8", TRUE, 8, TRUE), TInt("NonZeroI16", TRUE, 16, TRUE),
              TInt("NonZeroI32", TRUE, 32, TRUE), TInt("NonZeroI64", TRUE, 64, TRUE),
              TInt("NonZeroI128", TRUE, 128, TRUE), TInt("NonZeroIsize", TRUE, 64, TRUE)>>
Wrappers == <<TK("float", "FullF32"), TK("float", "FullF64"), TK("hex", "HexNumber")>>

StrPaths == {S("str"), S("primitive::str"), S("std::primitive::str"), S("::std::primitive::str"),
             S("core::primitive::str"), S("::core::primitive::str")}
CowPaths == {S("Cow"), S("borrow::Cow"), S("std::borrow::Cow"), S("alloc::borrow::Cow"),
             S("::std::borrow::Cow"), S("::alloc::borrow::Cow")}

\* every spelling that resolves to a builtin type in the scope of the programs:
\* use std::{num::*, path::PathBuf, borrow::Cow, string::String}; use sscanf::{FullF32, FullF64, HexNumber};
Spell(ts, prefix) == {<<prefix \o ts[k].name, ts[k]>> : k \in 1..Len(ts)}
Spelled ==
       UNION {Spell(Prims, S(x)) : x \in {"", "primitive::", "std::primitive::", "::std::primitive::", "core::primitive::", "::core::primitive::"}}
  \cup UNION {Spell(NonZeros, S(x)) : x \in {"", "std::num::", "::std::num::", "core::num::", "::core::num::"}}
  \cup UNION {Spell(Wrappers, S(x)) : x \in {"", "sscanf::", "::sscanf::"}}
  \cup {<<s, TK("string", "String")>> : s \in {S("String"), S("std::string::String"), S("::std::string::String")}}
  \cup {<<s, TK("path", "PathBuf")>> : s \in {S("PathBuf"), S("std::path::PathBuf"), S("::std::path::PathBuf")}}
  \cup {<<s, TK("str", "str")>> : s \in StrPaths}
  \cup {<<S("&") \o s, TK("str", "str")>> : s \in StrPaths}
  \cup {<<c \o S(l) \o s \o S(">"), TK("cow", "Cow")>> : c \in CowPaths, l \in {"<", "<'_,", "<'static,"}, s \in StrPaths}

BuiltinNames == {p[1] : p \in Spelled}
Builtin == TLCEval([n \in BuiltinNames |-> (CHOOSE p \in Spelled : p[1] = n)[2]])

\* primitive integers by their plain name, the only types with radix options
PrimNames == {Prims[k].name : k \in 1..12}

IsSpace(c) == c \in {9, 10, 13, 32}
IsWord(c) == IsAlpha(c) \/ IsDigit(c) \/ c = Ch("_") \/ c > 127

\* a comment reaches to the end of the text
RECURSIVE Uncomment(_, _)
Uncomment(t, i) == IF i >= Len(t) THEN t ELSE IF t[i] = cSlash /\ t[i + 1] = cSlash THEN Take(t, i - 1) ELSE Uncomment(t, i + 1)

\* the tokens of a type without the space between them (a space that separates two words stays)
NoSpace(text) ==
  LET t == Uncomment(text, 1) IN
  LET used == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : ~IsSpace(t[k])) IN
  Concat([j \in 1..Len(used) |->
            IF j > 1 /\ used[j - 1] # used[j] - 1 /\ IsWord(t[used[j - 1]]) /\ IsWord(t[used[j]])
            THEN <<32, t[used[j]]>> ELSE <<t[used[j]]>>])

UserIndex(t) == LET hits == {k \in 1..Len(U.types) : U.types[k].name = t} IN
                IF hits = {} THEN 0 ELSE CHOOSE k \in hits : TRUE

\* other names of types that the program defines: [name, of]
Aliases == IF "aliases" \in DOMAIN U THEN U.aliases ELSE <<>>
AliasOf(t) == LET hits == {k \in 1..Len(Aliases) : Aliases[k].name = t} IN
              IF hits = {} THEN <<>> ELSE Aliases[CHOOSE k \in hits : TRUE].of

RECURSIVE ResolveType(_)
ResolveType(text) ==
  LET t == NoSpace(text) IN
  IF AliasOf(t) # <<>> THEN LET r == ResolveType(AliasOf(t)) IN IF r.k = "int" THEN [r EXCEPT !.plain = FALSE] ELSE r
  ELSE IF t \in BuiltinNames THEN [plain |-> t \in PrimNames] @@ Builtin[t]
  ELSE IF StartsWith(t, S("r#")) /\ Drop(t, 2) \in BuiltinNames THEN [plain |-> FALSE] @@ Builtin[Drop(t, 2)]
  ELSE LET u == UserIndex(t) IN
       IF u = 0 THEN NoType ELSE [k |-> U.types[u].k, name |-> t, d |-> u]

-----------------------------------------------------------------------------
(* What builtin types match.                                               *)

DecDigits == [b \in Bits |-> MaxDigits[b][10]]

\* i64 and isize accept one digit more than they need, which only makes a difference in the kind of failure
IntDigits(t) == IF t.signed /\ t.bits = 64 THEN 20 ELSE DecDigits[t.bits]

IntRegex(t) ==
  (IF t.signed THEN S("[-+]?") ELSE S("\\+?"))
  \o (IF t.nz THEN S("[1-9]\\d{0,") \o DecOf(IntDigits(t) - 1) ELSE S("\\d{1,") \o DecOf(IntDigits(t)))
  \o S("}")

FloatRegex == S("[+-]?(?i:inf|infinity|nan|(?:\\d+|\\d+\\.\\d*|\\d*\\.\\d+)(?:e[+-]?\\d+)?)")

RadixDigits(r) ==
  IF r < 11 THEN S("0-") \o <<47 + r>> ELSE S("0-9a-") \o <<86 + r>>
RadixPrefix(r) == IF r = 16 THEN S("0x") ELSE IF r = 8 THEN S("0o") ELSE S("0b")
RadixRegex(t, o) ==
  S("(?i:") \o (IF t.signed THEN S("[-+]?") ELSE S("\\+?"))
  \o (IF o.policy = "optional" THEN S("(?:") \o RadixPrefix(o.radix) \o S(")?")
      ELSE IF o.policy = "forced" THEN RadixPrefix(o.radix) ELSE <<>>)
  \o S("[") \o RadixDigits(o.radix) \o S("]{1,") \o DecOf(MaxDigits[t.bits][o.radix]) \o S("})")

BuiltinRegex(t) ==
  CASE t.k = "int" -> IntRegex(t)
    [] t.k = "float" -> FloatRegex
    [] t.k \in {"str", "cow", "string"} -> S(".+?")
    [] t.k = "path" -> S(".+")
    [] t.k = "char" -> S(".")
    [] t.k = "bool" -> S("true|false")
    [] t.k = "hex" -> S("0[xX][0-9a-fA-F]+|[0-9a-fA-F]+")

-----------------------------------------------------------------------------
(* Conversion of matched text.  Good(v) or Bad(chain): a value, or the     *)
(* errors from the outermost to the innermost.                             *)

Good(v)  == [ok |-> TRUE, v |-> v]
Bad(es)  == [ok |-> FALSE, es |-> es]

EFromStr(t, e) == <<<<"fromstr", t.name>>, e>>
EInt(kind) == <<"int", kind>>

VInt(t, r) == <<"int", t.name, IntText(r)>>

IsFloatText(s) == InLanguage(S("[+-]?(?:(?i:inf|infinity|nan)|(?:[0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)(?:[eE][+-]?[0-9]+)?)"), s)
                  /\ \A k \in 1..Len(s) : s[k] < 128

\* str::parse::<T>()
FromStr(t, s) ==
  CASE t.k = "int" ->
         LET r == IF t.nz THEN ParseNonZero(s, t.signed, t.bits) ELSE ParseInt(s, t.signed, t.bits, 10) IN
         IF r.ok THEN Good(VInt(t, r)) ELSE Bad(EFromStr(t, EInt(r.kind)))
    [] t.k = "float" ->
         IF IsFloatText(s) THEN Good(<<"float", t.name, s>>)
         ELSE Bad(EFromStr(t, <<"float", IF s = <<>> THEN "empty" ELSE "invalid">>))
    [] t.k = "string" -> Good(<<"string", s>>)
    [] t.k = "path" -> Good(<<"path", s>>)
    [] t.k = "char" ->
         IF Len(s) = 1 THEN Good(<<"char", s[1]>>)
         ELSE Bad(EFromStr(t, <<"char", IF s = <<>> THEN "empty" ELSE "many">>))
    [] t.k = "bool" ->
         IF s = S("true") THEN Good(<<"bool", TRUE>>)
         ELSE IF s = S("false") THEN Good(<<"bool", FALSE>>)
         ELSE Bad(EFromStr(t, <<"bool">>))
    [] t.k = "hex" ->
         LET ds == IF StartsWith(s, S("0x")) \/ StartsWith(s, S("0X")) THEN Drop(s, 2) ELSE s
             r  == ParseInt(ds, FALSE, 64, 16)
         IN IF r.ok THEN Good(<<"int", t.name, IntText(r)>>) ELSE Bad(EFromStr(t, EInt(r.kind)))

\* Conversion for the radix options
RadixConvert(t, o, s) ==
  LET done(r) == IF r.ok THEN Good(VInt(t, r)) ELSE Bad(<<EInt(r.kind)>>) IN
  IF o.policy = "never" THEN done(ParseInt(s, t.signed, t.bits, o.radix))
  ELSE LET minus  == t.signed /\ s # <<>> /\ s[1] = 45
           signed == minus \/ (s # <<>> /\ s[1] = 43)
           body   == IF signed THEN Tail(s) ELSE s
           pre    == RadixPrefix(o.radix)
           has    == StartsWith(body, pre) \/ StartsWith(body, [pre EXCEPT ![2] = ToUpper(@)])
           digits == IF has THEN Drop(body, 2) ELSE body
       IN IF ~has /\ o.policy = "forced"
          THEN Bad(<< <<"prefix", IF o.radix = 16 THEN "Hex" ELSE IF o.radix = 8 THEN "Octal" ELSE "Binary">> >>)
          ELSE done(ParseInt(IF minus THEN <<45>> \o digits ELSE digits, t.signed, t.bits, o.radix))
=============================================================================
