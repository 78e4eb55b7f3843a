------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* Hashes of keys and messages (C11): key sets built key by key, with all  *)
(* numbers of required signatures, in both multi-key modes; messages of    *)
(* every length across the block boundaries of the hash functions.         *)
(***************************************************************************)
EXTENDS Tx, Emit
CONSTANTS MaxKeys, Pool, MaxLen

Sk(i) == Zeros(31) \o << i >>
VARIABLES ks, len
Init == ks = <<>> /\ len = 0
Next == \/ len = 0 /\ Len(ks) < MaxKeys /\ \E i \in 1..Pool : ks' = Append(ks, i) /\ len' = 0
        \/ ks = <<>> /\ len < MaxLen /\ len' = len + 1 /\ ks' = ks
Spec == Init /\ [][Next]_<< ks, len >>

Sks == [i \in 1..Len(ks) |-> Sk(ks[i])]
Pks == [i \in 1..Len(ks) |-> PubKeyOf(Sks[i])]

\* an independent reader of the script: the required count, the pushes, the key count
RECURSIVE Pushes(_)
Pushes(b) == IF b = <<>> \/ b[1] # 33 \/ Len(b) < 34 THEN [keys |-> <<>>, rest |-> b]
             ELSE LET r == Pushes(Suffix(b, 34)) IN [keys |-> << Sub(b, 1, 33) >> \o r.keys, rest |-> r.rest]
ReadScript(b) == LET r == Pushes(Suffix(b, 1)) IN [req |-> b[1] - 80, keys |-> r.keys, end |-> r.rest]
Readable == \A req \in 1..Len(ks) :
    ReadScript(Script(req, Pks)) = [req |-> req, keys |-> Pks, end |-> << 80 + Len(ks), 174 >>]
\* every choice of mode and required count owns an account of its own
Separate == ks # <<>> =>
    /\ \A m1, m2 \in {1, 3}, r1, r2 \in 1..Len(ks) :
         MultiKeyHash(m1, r1, Pks) = MultiKeyHash(m2, r2, Pks) => m1 = m2 /\ r1 = r2
    /\ SingleKeyHash(0, Pks[1]) # SingleKeyHash(2, Pks[1])
    /\ \A m \in {1, 3} : MultiKeyHash(m, 1, << Pks[1] >>) \notin {SingleKeyHash(0, Pks[1]), SingleKeyHash(2, Pks[1])}
    \* and so does every other order of different keys
    /\ \A i \in 1..(Len(ks) - 1) : ks[i] # ks[i + 1] =>
         MultiKeyHash(1, 1, Pks) # MultiKeyHash(1, 1, [Pks EXCEPT ![i] = Pks[i + 1], ![i + 1] = Pks[i]])

Msgs == {Zeros(len), [i \in 1..len |-> 255], [i \in 1..len |-> (i * 7) % 256]}
Algs == << "sha256", "dsha256", "sha512t256", "hash160" >>
Emitted ==
    IF ks # <<>>
    THEN /\ Write([i \in 1..(2 * Len(ks)) |->
                    [op |-> "keyshash", mode |-> IF i > Len(ks) THEN 3 ELSE 1, req |-> IF i > Len(ks) THEN i - Len(ks) ELSE i, keys |-> Sks]])
         /\ Len(ks) = 1 => Write(<< [op |-> "keyhash", mode |-> 0, key |-> Sks[1]], [op |-> "keyhash", mode |-> 2, key |-> Sks[1]] >>)
    ELSE \A b \in Msgs : Write([i \in 1..4 |-> [op |-> "hash", alg |-> Algs[i], b |-> b]])
=============================================================================
