------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Byte sequences, big-endian numbers and UTF-8. Everything the library    *)
(* calls a string is a sequence of UTF-8 bytes here, and every number that *)
(* may exceed 31 bits is a big-endian byte sequence.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Byte == 0..255

\* outcomes of operations that may be refused
Fail   == [ok |-> FALSE]
Got(x) == [ok |-> TRUE, x |-> x]

RangeSeq(a, b) == IF b < a THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
Zeros(n) == [i \in 1..n |-> 0]

Prefix(s, n)   == SubSeq(s, 1, n)
Suffix(s, n)   == SubSeq(s, n + 1, Len(s))        \* without the first n
Sub(s, off, n) == SubSeq(s, off + 1, off + n)     \* n bytes after the first off

U16(n) == << (n \div 256) % 256, n % 256 >>
U32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

\* The value of 4 big-endian bytes; anything above 2^31 - 1 is more than any
\* sequence can hold and is represented by Huge.
Huge == 2147483647
U32Val(b) == IF b[1] >= 128 THEN Huge
             ELSE b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]

\* b + n <= limit without overflowing 31 bits
Fits(off, n, limit) == n # Huge /\ n <= limit /\ off <= limit - n

LeadingCount(s, x) ==     \* how many leading elements equal x
    LET idx == SelectInSeq(s, LAMBDA e : e # x)
    IN  IF idx = 0 THEN Len(s) ELSE idx - 1

StripLeading(s, x) == Suffix(s, LeadingCount(s, x))

IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

-----------------------------------------------------------------------------
(* UTF-8 (RFC 3629) as a byte automaton. State: 0 between characters, -1   *)
(* after an error, otherwise the bounds of the next continuation byte and  *)
(* the number of continuation bytes that follow it.                        *)

LOCAL UState(lo, hi, more) == << lo, hi, more >>
LOCAL UStep(st, b) ==
    IF st = << -1 >> THEN st
    ELSE IF st = << 0 >> THEN
        IF b < 128 THEN << 0 >>
        ELSE IF b >= 194 /\ b <= 223 THEN UState(128, 191, 0)
        ELSE IF b = 224 THEN UState(160, 191, 1)
        ELSE IF b = 237 THEN UState(128, 159, 1)
        ELSE IF b >= 225 /\ b <= 239 THEN UState(128, 191, 1)
        ELSE IF b = 240 THEN UState(144, 191, 2)
        ELSE IF b >= 241 /\ b <= 243 THEN UState(128, 191, 2)
        ELSE IF b = 244 THEN UState(128, 143, 2)
        ELSE << -1 >>
    ELSE IF b < st[1] \/ b > st[2] THEN << -1 >>
    ELSE IF st[3] = 0 THEN << 0 >>
    ELSE UState(128, 191, st[3] - 1)

IsUtf8(s) == IsAscii(s) \/ FoldLeft(UStep, << 0 >>, s) = << 0 >>

-----------------------------------------------------------------------------
(* Decimal notation of a big-endian number.                                *)

LOCAL DivStep(acc, b) ==      \* acc = <<quotient digits, remainder>>
    LET cur == acc[2] * 256 + b IN << Append(acc[1], cur \div 10), cur % 10 >>
RECURSIVE Digits(_)
Digits(n) ==            \* decimal digits of n, most significant first
    LET m == StripLeading(n, 0) IN
    IF m = <<>> THEN <<>>
    ELSE LET r == FoldLeft(DivStep, << <<>>, 0 >>, m) IN Append(Digits(r[1]), r[2])

Decimal(n) == LET d == Digits(n) IN
    IF d = <<>> THEN << 48 >> ELSE [i \in 1..Len(d) |-> 48 + d[i]]

\* two's complement negation of a big-endian number
Negate(n) ==
    LET inv  == [i \in 1..Len(n) |-> 255 - n[i]]
        tail == Len(inv) - LeadingCount(Reverse(inv), 255)   \* byte that takes the carry
    IN  [i \in 1..Len(n) |-> IF i < tail THEN inv[i]
                             ELSE IF i = tail THEN inv[i] + 1 ELSE 0]

SignedDecimal(n) == IF n[1] >= 128 THEN << 45 >> \o Decimal(Negate(n)) ELSE Decimal(n)
=============================================================================
