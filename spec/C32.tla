-------------------------------- MODULE C32 ---------------------------------
(***************************************************************************)
(* C32: a byte sequence read as one big-endian number, written in base 32  *)
(* (Crockford's alphabet), plus one leading digit 0 for every leading zero *)
(* byte. C32Check adds a 4-byte checksum and a version digit; a Stacks     *)
(* address is the letter S in front of the C32Check of a 20-byte hash.     *)
(***************************************************************************)
EXTENDS Bytes, Crypto

\* "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
C32Alphabet == << 48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,
                  77,78,80,81,82,83,84,86,87,88,89,90 >>

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096 >>

C32Encode(b) ==
    LET z    == LeadingCount(b, 0)
        m    == Suffix(b, z)
        n    == Len(m)
        At(k) == IF k < n THEN m[n - k] ELSE 0          \* k-th byte from the right
        D(j)  == (((At((5 * j) \div 8) + 256 * At((5 * j) \div 8 + 1))
                     \div Pow2[((5 * j) % 8) + 1]) % 32)  \* j-th digit from the right
        cnt  == (8 * n + 4) \div 5
        ds   == [i \in 1..cnt |-> D(cnt - i)]
        body == StripLeading(ds, 0)
    IN  [i \in 1..z |-> 48] \o [i \in 1..Len(body) |-> C32Alphabet[body[i] + 1]]

\* digit of a character: either case, O reads as 0, I and L as 1; 32 if none
C32Val(c) ==
    LET u == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
        v == IF u = 79 THEN 48 ELSE IF u = 73 \/ u = 76 THEN 49 ELSE u
        i == SelectInSeq(C32Alphabet, LAMBDA a : a = v)
    IN  IF i = 0 THEN 32 ELSE i - 1

C32Decode(s) ==
    LET d == [i \in 1..Len(s) |-> C32Val(s[i])] IN
    IF \E i \in 1..Len(s) : d[i] = 32 THEN Fail
    ELSE
    LET z    == LeadingCount(d, 0)
        m    == Suffix(d, z)
        n    == Len(m)
        At(k) == IF k < n THEN m[n - k] ELSE 0
        B(k)  == LET q == (8 * k) \div 5 IN
                 (((At(q) + 32 * At(q + 1) + 1024 * At(q + 2)) \div Pow2[((8 * k) % 5) + 1]) % 256)
        cnt  == (5 * n + 7) \div 8
        bs   == [i \in 1..cnt |-> B(cnt - i)]
    IN  Got(Zeros(z) \o StripLeading(bs, 0))

-----------------------------------------------------------------------------
Checksum(b) == Prefix(SHA256(SHA256(b)), 4)

C32CheckEncode(data, version) ==
    IF version >= 32 THEN Fail
    ELSE Got(<< C32Alphabet[version + 1] >> \o C32Encode(data \o Checksum(<< version >> \o data)))

C32CheckDecode(s) ==
    IF s = <<>> THEN Fail
    ELSE LET v == C32Val(s[1])
             r == C32Decode(Suffix(s, 1))
         IN  IF v = 32 \/ ~r.ok THEN Fail
             ELSE IF Len(r.x) < 4 THEN Fail
             ELSE LET data == Prefix(r.x, Len(r.x) - 4)
                      sum  == Suffix(r.x, Len(r.x) - 4)
                  IN  IF sum = Checksum(<< v >> \o data)
                      THEN Got([version |-> v, data |-> data]) ELSE Fail

AddressVersions == {22, 20, 26, 21}   \* mainnet p2pkh, p2sh, testnet p2pkh, p2sh

Address(hash, version) ==
    IF version \notin AddressVersions THEN Fail
    ELSE Got(<< 83 >> \o C32CheckEncode(hash, version).x)

AddressDecode(s) ==
    IF Len(s) <= 5 THEN Fail
    ELSE IF s[1] # 83 THEN Fail
    ELSE LET r == C32CheckDecode(Suffix(s, 1)) IN
         IF ~r.ok THEN Fail
         ELSE IF r.x.version \notin AddressVersions \/ Len(r.x.data) # 20 THEN Fail
         ELSE r
=============================================================================
