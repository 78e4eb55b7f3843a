-------------------------------- MODULE B58 ---------------------------------
(* Base58 and Base58Check, as defined by Bitcoin. *)
EXTENDS Bytes, Crypto

\* "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B58Alphabet == << 49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,
                  80,81,82,83,84,85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,
                  106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122 >>

\* acc * from + x, acc being little-endian digits in base to
LOCAL MulAdd(acc, x, from, to) ==
    LET step(st, d) == LET cur == d * from + st[2] IN << Append(st[1], cur % to), cur \div to >>
        r == FoldLeft(step, << <<>>, x >>, acc)
        RECURSIVE Spill(_)
        Spill(c) == IF c = 0 THEN <<>> ELSE << c % to >> \o Spill(c \div to)
    IN  r[1] \o Spill(r[2])

LOCAL Rebase(ds, from, to) ==      \* big-endian digits to big-endian digits
    Reverse(FoldLeft(LAMBDA acc, x : MulAdd(acc, x, from, to), <<>>, ds))

B58Encode(b) ==
    LET z == LeadingCount(b, 0)
        d == Rebase(Suffix(b, z), 256, 58)
    IN  [i \in 1..z |-> 49] \o [i \in 1..Len(d) |-> B58Alphabet[d[i] + 1]]

LOCAL B58Val(c) == SelectInSeq(B58Alphabet, LAMBDA a : a = c) - 1   \* -1 if none

B58Decode(s) ==
    LET d == [i \in 1..Len(s) |-> B58Val(s[i])] IN
    IF \E i \in 1..Len(s) : d[i] = -1 THEN Fail
    ELSE LET z == LeadingCount(d, 0) IN Got(Zeros(z) \o Rebase(Suffix(d, z), 58, 256))

B58Checksum(b) == Prefix(SHA256(SHA256(b)), 4)

B58CheckEncode(data, version) ==
    LET p == << version >> \o data IN B58Encode(p \o B58Checksum(p))

B58CheckDecode(s) ==
    LET r == B58Decode(s) IN
    IF ~r.ok THEN Fail
    ELSE IF Len(r.x) < 5 THEN Fail
    ELSE LET p == Prefix(r.x, Len(r.x) - 4) IN
         IF Suffix(r.x, Len(r.x) - 4) = B58Checksum(p)
         THEN Got([version |-> p[1], data |-> Suffix(p, 1)]) ELSE Fail
=============================================================================
