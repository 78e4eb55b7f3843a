------------------------------ MODULE MCBytes -------------------------------
(***************************************************************************)
(* Byte strings for the decoders of Clarity values (C03): concatenations   *)
(* of fragments (tags, counts, names, integers, principals, and damaged    *)
(* ones). Also payload decoders (C13), with payload fragments.             *)
(***************************************************************************)
EXTENDS Payload, Emit
CONSTANTS MaxParts, Wide, What       \* What: "cv" or "pay"

Princ(v) == << v >> \o Prefix(SHA256(<< v >>), 20)
Tags == {<< t >> : t \in 0..14}
Counts == {<< 0, 0, 0, 0 >>, << 0, 0, 0, 1 >>, << 0, 0, 0, 2 >>}
Odd == {<< 15 >>, << 255 >>, << 0, 0, 0, 17 >>, << 255, 255, 255, 255 >>, << 127, 255, 255, 255 >>, << 128, 0, 0, 0 >>}
Names == {<< 1, 97 >>, << 2, 195, 169 >>, << 1, 195 >>, << 129 >> \o [i \in 1..129 |-> 97], << 128 >> \o [i \in 1..128 |-> 97]}
Blocks == {Zeros(16), [i \in 1..15 |-> 1], Princ(22), Princ(26), Princ(5), Prefix(Princ(22), 20)}
Strings == {<< 97 >>, << 195, 169 >>, << 97, 237, 160, 128 >>, << 240, 159, 166, 128 >>}
Cv == Tags \cup Counts \cup Blocks \cup (IF Wide THEN Odd \cup Names \cup Strings
                                         ELSE {<< 255 >>, << 255, 255, 255, 255 >>, << 1, 97 >>, << 129 >> \o [i \in 1..129 |-> 97], << 97 >>, << 195, 169 >>})
Amount == << 0, 0, 0, 0, 0, 0, 4, 210 >>
Memo(m) == m \o Zeros(34 - Len(m))
Heads == {<< 0, 5 >> \o Princ(22), << 0, 6 >> \o Princ(20) \o << 1, 97 >>, << 0, 9 >>, << 2 >> \o Princ(22), << 2 >> \o Princ(5) \o << 1, 97 >>, << 0 >>, << 1 >>, << 2 >>, << 3 >>}
Pay == {Amount, Prefix(Amount, 7), Memo(<<>>), Memo(<< 104, 105 >>), Prefix(Memo(<< 104 >>), 33), Memo(<< 195, 40 >>),
        << 1, 97 >>, << 129 >> \o [i \in 1..129 |-> 97], << 2, 195, 169 >>, << 1, 195 >>,
        << 0, 0, 0, 0 >>, << 0, 0, 0, 1 >>, << 255, 255, 255, 255 >>, << 3 >>, << 1 >> \o Zeros(16)}
VARIABLES b, n
Frag == IF What = "cv" THEN Cv ELSE IF n = 0 THEN Heads ELSE Pay

Init == b = <<>> /\ n = 0
Next == n < MaxParts /\ n' = n + 1 /\ \E f \in Frag : b' = b \o f
Spec == Init /\ [][Next]_<< b, n >>
View == b

Decoders == IF What = "cv" THEN {"any", "args", "lps"} \cup {Types[i] : i \in 1..Len(Types)} ELSE {"any", "transfer", "call"}
Dec(x, as) == IF What = "cv" THEN DecodeAs(x, 0, as) ELSE DecodePayloadAs(x, as)
Enc(x) == IF What = "cv" THEN Encode(x) ELSE EncodePayload(x)

\* what is read is exactly what its value encodes to, and nothing beyond matters
Canonical == \A as \in Decoders : LET r == Dec(b, as) IN r.ok =>
    /\ Enc(r.v) = Got(Prefix(b, r.n))
    /\ Dec(Prefix(b, r.n), as) = r
    /\ \A k \in {0, r.n - 1, r.n \div 2} : ~Dec(Prefix(b, k), as).ok
\* at most one concrete type reads the bytes, and the generic decoder reads the same
Agree == What = "cv" => \A as \in Decoders \ {"any", "args", "lps"} :
            Dec(b, as).ok <=> (Dec(b, "any").ok /\ (IF Dec(b, "any").ok THEN Dec(b, "any").v.t = as ELSE FALSE))

\* the decoders worth calling: the generic one, the one the first byte names, and the untagged ones
Used == IF What # "cv" THEN Decoders
        ELSE {"any", "lps", "args"} \cup (IF b = <<>> THEN Decoders ELSE IF b[1] < 15 THEN {Types[b[1] + 1], Types[1 + ((b[1] + 1) % 15)]} ELSE {"int", "list"})
Emitted == LET ts == SetToSeq(Used) IN
    Write([i \in 1..Len(ts) |-> [op |-> IF What = "cv" THEN "cv.dec" ELSE "pay.dec", b |-> b, as |-> ts[i]]])
=============================================================================
