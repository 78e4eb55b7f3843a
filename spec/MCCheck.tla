------------------------------ MODULE MCCheck -------------------------------
(***************************************************************************)
(* Checksummed texts: c32check and addresses (C09), base58check (C10).     *)
(* Behaviours: take data and a version, format it, then damage the text    *)
(* once or twice: replace, drop, double, or swap neighbouring characters,  *)
(* or change case. The invariant is that damage is detected.               *)
(***************************************************************************)
EXTENDS C32, B58, Hex, Emit
CONSTANTS Codec,       \* "c32c", "addr" or "b58c"
          Data,        \* number of data values to start from
          Chars,       \* how many characters of the alphabet to try as replacement
          Damages      \* how many times a text is damaged

VARIABLES b, ver,      \* what was formatted
          s,           \* the text now
          n            \* how often it was damaged

\* 20-byte hashes with and without leading zeros, and data of other lengths
Hashes == << Zeros(20), Zeros(19) \o << 1 >>, [i \in 1..20 |-> 255], [i \in 1..20 |-> (i * 37) % 256],
             Zeros(3) \o [i \in 1..17 |-> (i * 91) % 256], << 1 >> \o Zeros(19),
             SHA256(<< 1 >>) \o <<>> >>
Hash(i) == Prefix(Hashes[i], 20)
Blobs == << <<>>, << 0 >>, << 0, 0 >>, << 255 >>, << 1, 2, 3 >>, Zeros(5) \o << 9 >>, Prefix(SHA256(<< 7 >>), 20), SHA256(<< 8 >>) >>

Versions == CASE Codec = "addr" -> {22, 20, 26, 21, 0, 1, 31, 32, 255, 23}
              [] Codec = "c32c" -> {0, 1, 22, 31, 32, 33, 128, 255}
              [] Codec = "b58c" -> {0, 1, 5, 111, 196, 255}
Inputs == IF Codec = "addr" THEN {Hash(i) : i \in 1..Data} ELSE {Blobs[i] : i \in 1..Data}

Enc(x, v) == CASE Codec = "addr" -> Address(x, v) [] Codec = "c32c" -> C32CheckEncode(x, v) [] Codec = "b58c" -> Got(B58CheckEncode(x, v))
Dec(t)    == CASE Codec = "addr" -> AddressDecode(t) [] Codec = "c32c" -> C32CheckDecode(t) [] Codec = "b58c" -> B58CheckDecode(t)

Alphabet == IF Codec = "b58c" THEN B58Alphabet ELSE C32Alphabet
\* replacements: every (Len \div Chars)-th letter of the alphabet, and letters outside it
Repl == {Alphabet[1 + ((i * Len(Alphabet)) \div Chars)] : i \in 0..(Chars - 1)} \cup {85, 79, 73, 76, 108, 48, 45, 122}

Init == /\ b \in Inputs /\ ver \in Versions
        /\ s = (IF Enc(b, ver).ok THEN Enc(b, ver).x ELSE <<>>)
        /\ n = 0
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Damaged == {[s EXCEPT ![i] = c] : i \in 1..Len(s), c \in Repl}
      \cup {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
      \cup {SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)) : i \in 1..Len(s)}
      \cup {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..(Len(s) - 1)}
      \cup {[i \in 1..Len(s) |-> Lower(s[i])]}
      \cup {Prefix(s, i) : i \in 0..Len(s)}
Next == /\ n < Damages /\ n' = n + 1
        /\ Enc(b, ver).ok
        /\ UNCHANGED << b, ver >>
        /\ s' \in Damaged
Spec == Init /\ [][Next]_<< b, ver, s, n >>

\* two texts that mean the same: the reader ignores case and look-alikes
Alike(t, u) == IF Codec = "b58c" THEN t = u
    ELSE Len(t) = Len(u) /\ \A i \in 1..Len(t) :
            IF Codec = "addr" /\ i = 1 THEN t[i] = u[i] ELSE C32Val(t[i]) = C32Val(u[i])

RoundTrip == n = 0 /\ Enc(b, ver).ok => Dec(s) = Got([version |-> ver, data |-> b])
\* a damaged text reads as the same address or not at all
Detected == n > 0 => (Dec(s).ok <=> Alike(s, Enc(b, ver).x))
Unambiguous == n > 0 /\ Dec(s).ok => Dec(s).x = [version |-> ver, data |-> b]

Emitted == IF n = 0 THEN Write(<< [op |-> Codec \o ".enc", b |-> b, ver |-> ver], [op |-> Codec \o ".dec", s |-> s] >>)
           ELSE Write(<< [op |-> Codec \o ".dec", s |-> s] >>)
=============================================================================
