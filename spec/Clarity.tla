------------------------------ MODULE Clarity -------------------------------
(***************************************************************************)
(* Clarity values, their consensus encoding, their textual form.           *)
(*                                                                         *)
(* A value is a record tagged by t:                                        *)
(*   int, uint  v: 16 bytes          ok, err, some  x: value               *)
(*   buf        v: bytes             list, args     xs: values             *)
(*   true, false, none               tuple  kv: entries [k, x]             *)
(*   std        a: address text      ascii, utf8, lps  s: text             *)
(*   con        a: address text, n: contract name                          *)
(* lps (length-prefixed name) and args (function arguments) are not Clarity*)
(* types but share the codec.                                              *)
(***************************************************************************)
EXTENDS Bytes, C32, Hex

MaxName == 128

Tag(t) == CASE t = "int" -> 0 [] t = "uint" -> 1 [] t = "buf" -> 2 [] t = "true" -> 3
            [] t = "false" -> 4 [] t = "std" -> 5 [] t = "con" -> 6 [] t = "ok" -> 7
            [] t = "err" -> 8 [] t = "none" -> 9 [] t = "some" -> 10 [] t = "list" -> 11
            [] t = "tuple" -> 12 [] t = "ascii" -> 13 [] t = "utf8" -> 14

Types == << "int", "uint", "buf", "true", "false", "std", "con", "ok", "err", "none",
            "some", "list", "tuple", "ascii", "utf8" >>

-----------------------------------------------------------------------------
(* Encoding: Got(bytes), or Fail for what the format cannot represent.     *)

EncodeName(s) == IF Len(s) > MaxName THEN Fail ELSE Got(<< Len(s) >> \o s)

EncodePrincipal(a) ==          \* version and hash
    LET r == AddressDecode(a) IN
    IF r.ok THEN Got(<< r.x.version >> \o r.x.data) ELSE Fail

Cat(a, b) == IF a.ok /\ b.ok THEN Got(a.x \o b.x) ELSE Fail

RECURSIVE Encode(_)
\* the encodings of elements a to b one after another (by halves, for the sake of long ones)
RECURSIVE EncodeRange(_, _, _)
LOCAL EncodeRange(xs, a, b) ==
    IF b < a THEN Got(<<>>)
    ELSE IF a = b THEN Encode(xs[a])
    ELSE LET m == (a + b) \div 2 IN Cat(EncodeRange(xs, a, m), EncodeRange(xs, m + 1, b))
LOCAL EncodeAll(xs) == EncodeRange(xs, 1, Len(xs))
RECURSIVE EncodeEntries(_, _, _)
LOCAL EncodeEntries(kv, a, b) ==
    IF b < a THEN Got(<<>>)
    ELSE IF a = b THEN Cat(EncodeName(kv[a].k), Encode(kv[a].x))
    ELSE LET m == (a + b) \div 2 IN Cat(EncodeEntries(kv, a, m), EncodeEntries(kv, m + 1, b))
Encode(v) ==
    CASE v.t \in {"int", "uint"} -> Got(<< Tag(v.t) >> \o v.v)
      [] v.t = "buf"  -> Got(<< 2 >> \o U32(Len(v.v)) \o v.v)
      [] v.t \in {"true", "false", "none"} -> Got(<< Tag(v.t) >>)
      [] v.t = "std"  -> Cat(Got(<< 5 >>), EncodePrincipal(v.a))
      [] v.t = "con"  -> Cat(Cat(Got(<< 6 >>), EncodePrincipal(v.a)), EncodeName(v.n))
      [] v.t \in {"ok", "err", "some"} -> Cat(Got(<< Tag(v.t) >>), Encode(v.x))
      [] v.t = "list" -> Cat(Got(<< 11 >> \o U32(Len(v.xs))), EncodeAll(v.xs))
      [] v.t = "tuple" -> Cat(Got(<< 12 >> \o U32(Len(v.kv))), EncodeEntries(v.kv, 1, Len(v.kv)))
      [] v.t = "ascii" -> IF IsAscii(v.s) THEN Got(<< 13 >> \o U32(Len(v.s)) \o v.s) ELSE Fail
      [] v.t = "utf8" -> Got(<< 14 >> \o U32(Len(v.s)) \o v.s)
      [] v.t = "lps"  -> EncodeName(v.s)
      [] v.t = "args" -> Cat(Got(U32(Len(v.xs))), EncodeAll(v.xs))

-----------------------------------------------------------------------------
(* Decoding reads one value from b after the first p bytes. The outcome    *)
(* holds the value and n, the position after it. Trailing bytes are left.  *)

Read(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
Has(b, p, n) == Fits(p, n, Len(b))

ReadName(b, p) ==
    IF ~Has(b, p, 1) THEN Fail
    ELSE LET n == b[p + 1] IN
         IF n > MaxName \/ ~Has(b, p + 1, n) THEN Fail
         ELSE LET s == Sub(b, p + 1, n) IN
              IF IsUtf8(s) THEN Read(s, p + 1 + n) ELSE Fail

ReadPrincipal(b, p) ==         \* version and hash, as address text
    IF ~Has(b, p, 21) THEN Fail
    ELSE LET r == Address(Sub(b, p + 1, 20), b[p + 1]) IN
         IF r.ok THEN Read(r.x, p + 21) ELSE Fail

ReadLong(b, p) ==              \* 4-byte length and that many bytes
    IF ~Has(b, p, 4) THEN Fail
    ELSE LET n == U32Val(Sub(b, p, 4)) IN
         IF Has(b, p + 4, n) THEN Read(Sub(b, p + 4, n), p + 4 + n) ELSE Fail

RECURSIVE Decode(_, _)
\* n items, each at least one byte, so a count beyond the input fails
LOCAL ReadEntry(b, p) ==
    LET k == ReadName(b, p) IN
    IF ~k.ok THEN Fail
    ELSE LET r == Decode(b, k.n) IN
         IF r.ok THEN Read([k |-> k.v, x |-> r.v], r.n) ELSE Fail
RECURSIVE ReadMany(_, _, _, _)
LOCAL ReadMany(b, p, n, entries) ==         \* n values or entries
    IF n = 0 THEN Read(<<>>, p)
    ELSE IF n = 1 THEN LET r == IF entries THEN ReadEntry(b, p) ELSE Decode(b, p) IN
                       IF r.ok THEN Read(<< r.v >>, r.n) ELSE Fail
    ELSE LET r == ReadMany(b, p, n \div 2, entries) IN
         IF ~r.ok THEN Fail
         ELSE LET q == ReadMany(b, r.n, n - n \div 2, entries) IN
              IF q.ok THEN Read(r.v \o q.v, q.n) ELSE Fail
LOCAL ReadItems(b, p, entries) ==
    IF ~Has(b, p, 4) THEN Fail
    ELSE LET n == U32Val(Sub(b, p, 4)) IN
         IF Has(b, p + 4, n) THEN ReadMany(b, p + 4, n, entries) ELSE Fail
LOCAL Wrap(r, F(_)) == IF r.ok THEN Read(F(r.v), r.n) ELSE Fail

Decode(b, p) ==
    IF ~Has(b, p, 1) THEN Fail
    ELSE LET t == b[p + 1]
             q == p + 1
         IN
    CASE t \in {0, 1} -> IF Has(b, q, 16)
                         THEN Read([t |-> Types[t + 1], v |-> Sub(b, q, 16)], q + 16) ELSE Fail
      [] t = 2 -> Wrap(ReadLong(b, q), LAMBDA s : [t |-> "buf", v |-> s])
      [] t \in {3, 4, 9} -> Read([t |-> Types[t + 1]], q)
      [] t = 5 -> Wrap(ReadPrincipal(b, q), LAMBDA a : [t |-> "std", a |-> a])
      [] t = 6 -> LET a == ReadPrincipal(b, q) IN
                  IF a.ok THEN Wrap(ReadName(b, a.n), LAMBDA n : [t |-> "con", a |-> a.v, n |-> n])
                  ELSE Fail
      [] t \in {7, 8, 10} -> Wrap(Decode(b, q), LAMBDA x : [t |-> Types[t + 1], x |-> x])
      [] t = 11 -> Wrap(ReadItems(b, q, FALSE), LAMBDA xs : [t |-> "list", xs |-> xs])
      [] t = 12 -> Wrap(ReadItems(b, q, TRUE), LAMBDA kv : [t |-> "tuple", kv |-> kv])
      [] t = 13 -> LET r == ReadLong(b, q) IN
                   IF r.ok THEN IF IsAscii(r.v) THEN Read([t |-> "ascii", s |-> r.v], r.n) ELSE Fail
                   ELSE Fail
      [] t = 14 -> LET r == ReadLong(b, q) IN
                   IF r.ok THEN IF IsUtf8(r.v) THEN Read([t |-> "utf8", s |-> r.v], r.n) ELSE Fail
                   ELSE Fail
      [] OTHER -> Fail

DecodeArgs(b, p) == Wrap(ReadItems(b, p, FALSE), LAMBDA xs : [t |-> "args", xs |-> xs])
DecodeLps(b, p)  == Wrap(ReadName(b, p), LAMBDA s : [t |-> "lps", s |-> s])

\* the decoder of one type: "any" is the generic one
DecodeAs(b, p, as) ==
    CASE as = "any"  -> Decode(b, p)
      [] as = "args" -> DecodeArgs(b, p)
      [] as = "lps"  -> DecodeLps(b, p)
      [] OTHER -> LET r == Decode(b, p) IN
                  IF r.ok THEN IF r.v.t = as THEN r ELSE Fail ELSE Fail

-----------------------------------------------------------------------------
(* Textual form.                                                           *)

TTrue == << 116,114,117,101 >>
TFalse == << 102,97,108,115,101 >>
TNone == << 110,111,110,101 >>
TOk == << 40,111,107,32 >>                 \* "(ok "
TErr == << 40,101,114,114,32 >>            \* "(err "
TSome == << 40,115,111,109,101,32 >>       \* "(some "
TList == << 40,108,105,115,116,32 >>       \* "(list "
TTuple == << 40,116,117,112,108,101,32 >>  \* "(tuple "
TArgs == << 40,102,110,45,97,114,103,115,32 >> \* "(fn-args "
TClose == << 41 >>

RECURSIVE Display(_)
RECURSIVE JoinSp(_, _, _)
LOCAL JoinSp(ss, a, b) ==           \* ss[a] to ss[b], separated by spaces
    IF b < a THEN <<>>
    ELSE IF a = b THEN ss[a]
    ELSE LET m == (a + b) \div 2 IN JoinSp(ss, a, m) \o << 32 >> \o JoinSp(ss, m + 1, b)
Display(v) ==
    CASE v.t = "int"   -> SignedDecimal(v.v)
      [] v.t = "uint"  -> << 117 >> \o Decimal(v.v)
      [] v.t = "buf"   -> << 48, 120 >> \o ToHex(v.v)
      [] v.t = "true"  -> TTrue
      [] v.t = "false" -> TFalse
      [] v.t = "none"  -> TNone
      [] v.t = "std"   -> v.a
      [] v.t = "con"   -> v.a \o << 46 >> \o v.n
      [] v.t = "ok"    -> TOk \o Display(v.x) \o TClose
      [] v.t = "err"   -> TErr \o Display(v.x) \o TClose
      [] v.t = "some"  -> TSome \o Display(v.x) \o TClose
      [] v.t = "list"  -> TList \o JoinSp([i \in 1..Len(v.xs) |-> Display(v.xs[i])], 1, Len(v.xs)) \o TClose
      [] v.t = "args"  -> TArgs \o JoinSp([i \in 1..Len(v.xs) |-> Display(v.xs[i])], 1, Len(v.xs)) \o TClose
      [] v.t = "tuple" -> TTuple \o JoinSp([i \in 1..Len(v.kv) |->
                              << 40 >> \o v.kv[i].k \o << 32 >> \o Display(v.kv[i].x) \o TClose], 1, Len(v.kv)) \o TClose
      [] v.t = "ascii" -> << 34 >> \o v.s \o << 34 >>
      [] v.t = "utf8"  -> << 117, 34 >> \o v.s \o << 34 >>
      [] v.t = "lps"   -> v.s

-----------------------------------------------------------------------------
(* Equality is equality of content. TLC compares records of different      *)
(* shapes without error, so this is TLA+ equality.                         *)
Same(v, w) == v = w
=============================================================================
