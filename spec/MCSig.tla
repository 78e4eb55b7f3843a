-------------------------------- MODULE MCSig -------------------------------
(***************************************************************************)
(* Signature primitives (C22): hash chains from boundary inputs, each with *)
(* one input changed; real signatures with every byte changed; signature   *)
(* bytes with all recovery ids and boundary numbers; all lengths.          *)
(***************************************************************************)
EXTENDS Tx, Emit
CONSTANTS Bits, Ids

Ff(n) == [i \in 1..n |-> 255]
Ramp(n) == [i \in 1..n |-> i]
Hashes == {Zeros(32), Ff(32), Ramp(32)}
Nums == {Zeros(8), Ff(8), Ramp(8), << 0, 0, 0, 1, 0, 0, 0, 0 >>}
Typs == {4, 5, 0, 255}
Sk(i) == Zeros(31) \o << i >>
\* numbers around the group order
Below == [GroupOrder EXCEPT ![32] = @ - 1]
Rs == {Zeros(32), Sk(1), Below, GroupOrder, Ff(32), HalfOrder, Ramp(32)}

VARIABLE c
Pre(h, t, f, n) == [op |-> "sig.pre", hash |-> h, typ |-> t, fee |-> f, nonce |-> n]
Init == \/ \E h \in Hashes, t \in Typs, f, n \in Nums : c = Pre(h, t, f, n)
        \/ \E h \in Hashes, s \in {Zeros(65), Ff(65), Ramp(65)} : c = [op |-> "sig.post", hash |-> h, sig |-> s]
        \/ \E h \in Hashes, t \in {4, 5}, f \in Nums, k \in 1..2 : c = [Pre(h, t, f, Ramp(8)) EXCEPT !.op = "sig.step"] @@ [key |-> Sk(k)]
        \/ \E i \in 1..65, b \in Bits : c = [Pre(Ramp(32), 4, Ramp(8), Zeros(8)) EXCEPT !.op = "sig.verify"] @@ [by |-> Sk(3), flip |-> [byte |-> i, bit |-> b]]
        \/ \E i \in Ids, r, s \in Rs : c = [op |-> "msg.recov", b |-> << i >> \o r \o s]
        \/ \E i \in {0, 1, 2, 3, 4, 255}, r, s \in Rs : c = [Pre(Ramp(32), 5, Zeros(8), Ramp(8)) EXCEPT !.op = "sig.verify"] @@ [sig |-> << i >> \o r \o s]
        \/ \E n \in 0..70 \cup {130, 195} : c = [op |-> "msg.slice", b |-> Ramp(n)]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

\* another previous hash, type, fee or nonce is another message
Sensitive == c.op = "sig.pre" =>
    \A h \in Hashes, t \in Typs, f, n \in Nums :
       PresignHash(h, t, f, n) = PresignHash(c.hash, c.typ, c.fee, c.nonce) => Pre(h, t, f, n) = c
\* a well-formed signature recovers a key over at most the messages it was made for, malformed ones none
Malformed == c.op = "sig.verify" /\ "sig" \in DOMAIN c /\ ~WellFormedSig(c.sig) =>
    EcRecover(PresignHash(c.hash, c.typ, c.fee, c.nonce), c.sig) = <<>>
Emitted == Write(<< c >>)
=============================================================================
