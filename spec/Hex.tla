-------------------------------- MODULE Hex ---------------------------------
(* Hexadecimal text. *)
EXTENDS Bytes

LOCAL HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d

ToHex(b) == [i \in 1..(2 * Len(b)) |->
                LET x == b[(i + 1) \div 2] IN
                IF i % 2 = 1 THEN HexDigit(x \div 16) ELSE HexDigit(x % 16)]

LOCAL HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
                   ELSE IF c >= 97 /\ c <= 102 THEN c - 87
                   ELSE IF c >= 65 /\ c <= 70 THEN c - 55
                   ELSE 16

FromHex(s) ==
    IF Len(s) % 2 = 1 \/ (\E i \in 1..Len(s) : HexVal(s[i]) = 16) THEN Fail
    ELSE Got([i \in 1..(Len(s) \div 2) |-> HexVal(s[2 * i - 1]) * 16 + HexVal(s[2 * i])])
=============================================================================
