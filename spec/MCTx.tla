-------------------------------- MODULE MCTx --------------------------------
(***************************************************************************)
(* Building transactions and changing them afterwards (C14). A history     *)
(* begins with one build (all combinations of network, kind of payload and *)
(* options set or left out) and goes on with changes of fee, nonce and     *)
(* public fields. An independent reader takes the serialised form apart.   *)
(***************************************************************************)
EXTENDS Tx, Emit
CONSTANTS MaxOps, Few         \* Few: options are set all or none

VARIABLES tx, hist
vars == << tx, hist >>
View == << tx, Len(hist) >>

Addr(v) == Address(Prefix(SHA256(<< v >>), 20), v).x
Sk == Zeros(31) \o << 7 >>
Big == [i \in 1..8 |-> 255]
Some8 == << 1, 2, 3, 4, 5, 6, 7, 8 >>
Std == [t |-> "std", a |-> Addr(22)]
Con == [t |-> "con", a |-> Addr(21), n |-> << 99, 45 >>]
Pcs == << [t |-> "stx", who |-> Std, code |-> 3, amount |-> Some8],
          [t |-> "nft", who |-> Con, info |-> [a |-> Addr(20), n |-> << 110 >>, s |-> << 97 >>], id |-> [t |-> "none"], code |-> 16] >>

Nets == {"main", "test", "mock"}
Whats == {[what |-> "transfer", to |-> Std, amount |-> Some8], [what |-> "transfer", to |-> Con, amount |-> Big, memo |-> << 104, 105 >>],
          [what |-> "call", address |-> Addr(22), contract |-> << 99 >>, fn |-> << 102, 45 >>, args |-> <<>>],
          [what |-> "call", address |-> Addr(26), contract |-> << 100 >>, fn |-> << 103 >>, args |-> << [t |-> "true"], Con >>]}
Option(k) == CASE k = "fee" -> {Some8, Zeros(8), Big} [] k = "nonce" -> {Big, << 0, 0, 0, 0, 0, 0, 0, 1 >>}
               [] k = "anchor" -> {1, 2, 3} [] k = "pcmode" -> {1, 2} [] k = "pcs" -> {<<>>, Pcs}
Names == {"fee", "nonce", "anchor", "pcmode", "pcs"}
Subsets == IF Few THEN {{}, Names} \cup {{x} : x \in Names} ELSE SUBSET Names
\* each option in turn takes all its values, the others a fixed one
First(k) == CHOOSE x \in Option(k) : TRUE
Opts == UNION {UNION {{[k \in s |-> IF k = j THEN x ELSE First(k)] : x \in Option(j)} : j \in s} : s \in Subsets \ {{}}}

D(net, w, o) == [net |-> net, sender |-> Sk] @@ w @@ o
Payload(w) == IF w.what = "transfer" THEN [t |-> "transfer", to |-> w.to, amount |-> w.amount, memo |-> IF "memo" \in DOMAIN w THEN w.memo ELSE <<>>]
              ELSE LET a == AddressDecode(w.address).x IN
                   [t |-> "call", ver |-> a.version, hash |-> a.data, contract |-> w.contract, fn |-> w.fn, args |-> w.args]
Or(o, k, x) == IF k \in DOMAIN o THEN o[k] ELSE x
Built(net, w, o) ==
    [version |-> IF net = "main" THEN 0 ELSE 128, chain |-> IF net = "main" THEN << 0, 0, 0, 1 >> ELSE << 128, 0, 0, 0 >>, kind |-> "std",
     origin |-> NewSingle(0, PubKeyOf(Sk), Or(o, "fee", Zero8), Or(o, "nonce", Zero8)), sponsor |-> DefaultCond,
     anchor |-> Or(o, "anchor", 3), pcmode |-> Or(o, "pcmode", 1), pcs |-> Or(o, "pcs", <<>>), payload |-> Payload(w)]

Init == tx = <<>> /\ hist = <<>>
Build == /\ tx = <<>>
         /\ \E net \in Nets, w \in Whats, o \in Opts \cup {<<>>} :
              tx' = Built(net, w, o) /\ hist' = << [op |-> "tx.build", d |-> D(net, w, o)] >>
Change(c, t) == tx' = t /\ hist' = Append(hist, c)
Edit == /\ tx # <<>>
        /\ \/ \E x \in {Big, << 0, 0, 0, 0, 0, 0, 0, 9 >>} :
                \/ Change([op |-> "tx.fee", x |-> x], [tx EXCEPT !.origin.fee = x])
                \/ Change([op |-> "tx.nonce", x |-> x], [tx EXCEPT !.origin.nonce = x])
           \/ Change([op |-> "tx.field", f |-> "anchor", x |-> 2], [tx EXCEPT !.anchor = 2])
           \/ Change([op |-> "tx.field", f |-> "pcmode", x |-> 2], [tx EXCEPT !.pcmode = 2])
           \/ Change([op |-> "tx.field", f |-> "pcs", x |-> Pcs], [tx EXCEPT !.pcs = Pcs])
Next == Len(hist) < MaxOps /\ (Build \/ Edit)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* where the fields are
NonceAt == 27
FeeAt == 35
B(t) == EncodeTx(t).x
Readable == tx # <<>> => LET b == B(tx) n == Len(EncodeConditions(tx.pcs).x) IN
    /\ EncodeTx(tx).ok
    /\ b[1] = tx.version /\ Sub(b, 1, 4) = tx.chain /\ b[6] = 4
    /\ b[7] = 0 /\ Sub(b, 7, 20) = Hash160(PubKeyOf(Sk))
    /\ Sub(b, NonceAt, 8) = tx.origin.nonce /\ Sub(b, FeeAt, 8) = tx.origin.fee
    /\ Sub(b, 43, 66) = Zeros(66)
    /\ b[110] = tx.anchor /\ b[111] = tx.pcmode
    /\ Sub(b, 111, n) = EncodeConditions(tx.pcs).x
    /\ DecodePayload(Suffix(b, 111 + n)) = Read(Padded(tx.payload), Len(b) - 111 - n)
\* changing the fee or nonce changes exactly these bytes
Frame == [][tx # <<>> => LET c == hist'[Len(hist')] IN
    /\ c.op = "tx.fee" => B(tx') = Prefix(B(tx), FeeAt) \o c.x \o Suffix(B(tx), FeeAt + 8)
    /\ c.op = "tx.nonce" => B(tx') = Prefix(B(tx), NonceAt) \o c.x \o Suffix(B(tx), NonceAt + 8)]_vars
EmitStep == Write(hist')
=============================================================================
