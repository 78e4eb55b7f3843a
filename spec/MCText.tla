------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* All short byte strings and texts over small alphabets, for the codecs   *)
(* without checksum: hex (C07), c32 (C08) and base58 (C10). A state is one *)
(* input; a step makes it longer. The invariants are the codec's laws.     *)
(***************************************************************************)
EXTENDS C32, B58, Hex, Emit
CONSTANTS Codec, MaxBytes, MaxChars, MaxOdd

VARIABLES dir,   \* "enc": w is data, "dec": w is text (its characters)
          w

\* the bytes to combine: extremes of the digit groups of each base
Bytes1 == CASE Codec = "hex" -> {0, 9, 16, 160, 255}
            [] Codec = "c32" -> {0, 1, 31, 32, 128, 255}
            [] Codec = "b58" -> {0, 1, 57, 58, 255}
\* characters: digits, look-alikes, and characters just outside; as UTF-8
Good == CASE Codec = "hex" -> {<< 48 >>, << 57 >>, << 97 >>, << 102 >>, << 65 >>, << 70 >>}
          [] Codec = "c32" -> {<< 48 >>, << 49 >>, << 65 >>, << 90 >>, << 122 >>, << 79 >>, << 108 >>}
          [] Codec = "b58" -> {<< 49 >>, << 50 >>, << 65 >>, << 122 >>, << 109 >>}
Odd  == CASE Codec = "hex" -> {<< 47 >>, << 58 >>, << 103 >>, << 71 >>, << 64 >>, << 96 >>, << 32 >>, << 43 >>, << 45 >>, << 120 >>}
          [] Codec = "c32" -> {<< 85 >>, << 117 >>, << 105 >>, << 73 >>, << 111 >>, << 76 >>, << 47 >>, << 58 >>, << 45 >>, << 91 >>}
          [] Codec = "b58" -> {<< 48 >>, << 79 >>, << 73 >>, << 108 >>, << 47 >>, << 58 >>, << 91 >>, << 123 >>}
Wide == {<< 195, 169 >>, << 195, 191 >>, << 196, 177 >>, << 228, 184, 173 >>, << 240, 159, 166, 128 >>}
\* i-acute, y-diaeresis, dotless i (upper case I in Unicode), a CJK character, an emoji

Text == FlattenSeq(w)

Init == \/ dir = "enc" /\ w \in {<<>>} \cup {<< b >> : b \in Byte}
        \/ dir = "dec" /\ w \in {<<>>} \cup {<< << c >> >> : c \in 0..127} \cup {<< c >> : c \in Wide}
IsOdd(s) == \E i \in 1..Len(s) : s[i] \in Odd \cup Wide
Next == /\ dir' = dir
        /\ \/ /\ dir = "enc" /\ Len(w) < MaxBytes
              /\ Len(w) = 1 => w[1] \in Bytes1
              /\ \E b \in Bytes1 : w' = Append(w, b)
           \/ /\ dir = "dec" /\ Len(w) < MaxChars
              /\ Len(w) = 1 => w[1] \in Good \cup Odd \cup Wide
              /\ \/ \E c \in Good : w' = Append(w, c)
                 \/ Len(w) < MaxOdd /\ \E c \in Odd \cup Wide : w' = Append(w, c)
Spec == Init /\ [][Next]_<< dir, w >>

-----------------------------------------------------------------------------
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
UpperAll(s) == [i \in 1..Len(s) |-> Upper(s[i])]

Enc(b) == CASE Codec = "hex" -> ToHex(b) [] Codec = "c32" -> C32Encode(b) [] Codec = "b58" -> B58Encode(b)
Dec(s) == CASE Codec = "hex" -> FromHex(s) [] Codec = "c32" -> C32Decode(s) [] Codec = "b58" -> B58Decode(s)
\* the one spelling that the encoder uses for a text
Normal(s) == CASE Codec = "hex" -> [i \in 1..Len(s) |-> Lower(s[i])]
               [] Codec = "c32" -> [i \in 1..Len(s) |-> C32Alphabet[C32Val(s[i]) + 1]]
               [] Codec = "b58" -> s

RoundTrip == dir = "enc" =>
    /\ Dec(Enc(w)) = Got(w)
    /\ Codec \in {"hex", "c32"} => Dec(UpperAll(Enc(w))) = Got(w) /\ Dec([i \in 1..Len(Enc(w)) |-> Lower(Enc(w)[i])]) = Got(w)
    /\ Codec = "hex" => Len(Enc(w)) = 2 * Len(w)
    /\ Codec # "hex" => LeadingCount(w, 0) = LeadingCount(Enc(w), IF Codec = "c32" THEN 48 ELSE 49)
Canonical == dir = "dec" => (Dec(Text).ok => Enc(Dec(Text).x) = Normal(Text))
Refuses == dir = "dec" => (Dec(Text).ok <=>
    CASE Codec = "hex" -> Len(Text) % 2 = 0 /\ \A i \in 1..Len(Text) : Text[i] \in (48..57) \cup (65..70) \cup (97..102)
      [] Codec = "c32" -> \A i \in 1..Len(Text) : Text[i] \in ((48..57) \cup (65..90) \cup (97..122)) \ {85, 117}
      [] Codec = "b58" -> \A i \in 1..Len(Text) : Text[i] \in ((49..57) \cup (65..90) \cup (97..122)) \ {73, 79, 108})

Emitted == Write(<< IF dir = "enc" THEN [op |-> Codec \o ".enc", b |-> w] ELSE [op |-> Codec \o ".dec", s |-> Text] >>)
=============================================================================
