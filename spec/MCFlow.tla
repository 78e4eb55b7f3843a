------------------------------- MODULE MCFlow -------------------------------
(***************************************************************************)
(* Flows from a mnemonic to the node (C23): an account is opened, the node *)
(* asked for its nonce, a transaction built, priced, signed and sent, in   *)
(* any order and any number of times, by a node that answers, refuses or   *)
(* cannot be reached. Signatures are free terms << "sig", key, message >>  *)
(* in otherwise real transactions. Ghost variables keep the user's view:   *)
(* the nonce the node last told, the fee last estimated for this           *)
(* transaction, and what was last signed.                                  *)
(***************************************************************************)
EXTENDS Flow, Emit
CONSTANTS MaxOps, Allowed

Sig(pk, m) == << "sig", pk, m >>
TermTx(tx) == << "tx", tx >>
TermPre(h, t, f, n) == << "pre", h, t, f, n >>
TermPost(m, s) == << "post", m, s >>
TermRecover(m, s) == IF Len(s) # 3 THEN <<>> ELSE IF s[3] = m THEN s[2] ELSE << 0 >>
S == INSTANCE Signing WITH
    Zero <- Zero8, ZeroSig <- Zero65, NoKey <- <<>>, DefaultSponsor <- DefaultCond,
    TxHash <- TermTx, Presign <- TermPre, Postsign <- TermPost, Recover <- TermRecover,
    SingleHash <- SingleKeyHash, MultiHash <- MultiKeyHash

-----------------------------------------------------------------------------
VARIABLES f, nonce, fee, signed, hist
vars == << f, nonce, fee, signed, hist >>
n == Len(hist)
View == << f, nonce, fee, signed, n >>

Zoo == << 122,111,111,32 >>
Phrase == Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o << 119,114,111,110,103 >>
Idx(i) == << 0, 0, 0, i >>
Acct0 == Opened(Phrase, Idx(0))
Acct1 == Opened(Phrase, Idx(1))
NoAcct == Opened(Zoo, Idx(0))
Acct(i) == IF i = 0 THEN Acct0 ELSE Acct1

Max64 == << 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53 >>
Nums == {<< 48 >>, << 50, 54, 48 >>, Max64}
Str(k) == [k |-> k, t |-> "str", v |-> << 48, 120, 48, 57 >>]          \* "0x09": none
Nr(k, x) == [k |-> k, t |-> "num", v |-> x]
Ok(ms) == [fault |-> "none", status |-> 200, json |-> TRUE, ms |-> ms, raw |-> <<>>]
Bad(status) == [fault |-> "none", status |-> status, json |-> FALSE, ms |-> <<>>, raw |-> << 110, 111 >>]
Down == [fault |-> "refuse", status |-> 200, json |-> FALSE, ms |-> <<>>, raw |-> <<>>]
Faults == {Bad(500), Down}
AcctAns(x) == Ok(<< Str("balance"), Str("locked"), Nr("unlock_height", << 57 >>), Nr("nonce", x), Str("balance_proof"), Str("nonce_proof") >>)
FeeAns(xs) == Ok(<< [k |-> "estimations", t |-> "ests", v |-> [i \in 1..Len(xs) |-> [fee |-> xs[i], rate |-> << 49, 46, 53 >>]]] >>)
TxidAns == [fault |-> "none", status |-> 200, json |-> FALSE, ms |-> <<>>, raw |-> << 34, 97, 98, 34 >>]
ErrAns == [Ok(<< Str("error"), Str("reason"), Str("txid") >>) EXCEPT !.status = 400]
RoAns == Ok(<< [k |-> "okay", t |-> "bool", v |-> TRUE], Str("result") >>)
RoNo == Ok(<< [k |-> "okay", t |-> "bool", v |-> FALSE], Str("cause") >>)

Addr == Address(Prefix(SHA256(<< 3 >>), 20), 22).x
D(i) == IF i = 1 THEN [net |-> "main", what |-> "transfer", to |-> [t |-> "std", a |-> Addr], amount |-> Zeros(7) \o << 5 >>, memo |-> << 109 >>]
        ELSE [net |-> "test", what |-> "call", address |-> Addr, contract |-> << 99 >>, fn |-> << 102 >>, args |-> << [t |-> "none"] >>,
              fee |-> Zeros(7) \o << 9 >>, pcmode |-> 2]

Init == f = FlowStart /\ nonce = Zero8 /\ fee = Zero8 /\ signed = <<>> /\ hist = <<>>
Step(c) == hist' = Append(hist, c)

Open == /\ \/ \E i \in {0, 1} : f' = Acct(i) /\ Step([op |-> "fl.open", phrase |-> Phrase, i |-> Idx(i)])
           \/ f' = NoAcct /\ Step([op |-> "fl.open", phrase |-> Zoo, i |-> Idx(0)])
        /\ nonce' = Zero8 /\ fee' = Zero8 /\ signed' = <<>>
Ask == /\ f.acct # <<>>
       /\ \E a \in {AcctAns(x) : x \in Nums} \cup Faults :
            /\ f' = AfterAsk(f, a)
            /\ nonce' = IF a.json THEN FromDecimal(a.ms[4].v) ELSE nonce
            /\ Step([op |-> "fl.ask", ver |-> 22, base |-> <<>>, ans |-> a])
       /\ UNCHANGED << fee, signed >>
Make == /\ f.acct # <<>>
        /\ \E i \in {1, 2} :
             /\ f' = [f EXCEPT !.tx = << FlowBuild(f, D(i)).x >>]
             /\ fee' = Default(D(i), "fee", Zero8)
             /\ Step([op |-> "fl.build", d |-> D(i)])
        /\ signed' = <<>> /\ UNCHANGED nonce
Price == /\ f.tx # <<>>
         /\ \E a \in {FeeAns(<< x, << 49 >> >>) : x \in Nums} \cup {FeeAns(<<>>), Bad(400), Down} :
              /\ f' = AfterPrice(f, a)
              /\ fee' = IF a.json /\ (a.json => a.ms[1].v # <<>>) THEN FromDecimal(a.ms[1].v[1].fee) ELSE fee
              /\ Step([op |-> "fl.price", base |-> <<>>, ans |-> a])
         /\ UNCHANGED << nonce, signed >>
Committed(tx) == << S!Clear(tx), tx.origin.fee, tx.origin.nonce >>
Sign == /\ f.tx # <<>>
        /\ LET ss == S!StartOrigin(f.tx[1]) IN
           IF ss.ok /\ S!OriginGuard(ss.x) = ""
           THEN LET t == S!SignTx(f.tx[1], Sig(PubKeyOf(FlowKey(f)), S!OriginMessage(ss.x))).x IN
                f' = [f EXCEPT !.tx = << t >>] /\ signed' = << Committed(t) >>
           ELSE UNCHANGED << f, signed >>
        /\ Step([op |-> "fl.sign"]) /\ UNCHANGED << nonce, fee >>
Verifies == S!VerifyFrom(f.tx[1], S!InitHash(f.tx[1])).ok
Send == /\ f.tx # <<>>
        /\ \E a \in {TxidAns, ErrAns} \cup Faults : Step([op |-> "fl.send", base |-> <<>>, ans |-> a, sym |-> Verifies])
        /\ UNCHANGED << f, nonce, fee, signed >>
ReadC == /\ f.acct # <<>>
        /\ \E a \in {RoAns, RoNo} \cup Faults :
             Step([op |-> "fl.read", ver |-> 26, base |-> << 47, 110 >>, addr |-> Addr, contract |-> << 99 >>, fn |-> << 102 >>,
                   args |-> << [t |-> "true"] >>, ans |-> a])
        /\ UNCHANGED << f, nonce, fee, signed >>
Do(name, A) == name \in Allowed /\ A
Next == /\ n < MaxOps
        /\ IF n = 0 THEN Open
           ELSE \/ Do("open", Open) \/ Do("ask", Ask) \/ Do("build", Make) \/ Do("price", Price)
                \/ Do("sign", Sign) \/ Do("send", Send) \/ Do("read", ReadC)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Made == f.tx # <<>>
\* the transaction is the account's, in every address of the account
Own == Made => /\ f.tx[1].origin.signer = Hash160(PubKeyOf(FlowKey(f)))
              /\ \A v \in {22, 26} : AddressDecode(FlowAddr(f, v)).x.data = f.tx[1].origin.signer
\* what was built after an answer carries the nonce in it; what was priced the estimate
Carries == Made => f.tx[1].origin.fee = fee
Told == f.acct # <<>> => f.nonce = nonce
\* it verifies exactly while it is what was last signed
Fresh == Made => (Verifies <=> signed = << Committed(f.tx[1]) >>)
\* only building, pricing and signing touch the transaction; a fault changes nothing at all
Quiet == [][LET c == hist'[Len(hist')] IN
            /\ c.op \in {"fl.ask", "fl.send", "fl.read"} => f'.tx = f.tx
            /\ c.op = "fl.build" => f'.tx[1].origin.nonce = nonce
            /\ c.op = "fl.price" => [f'.tx[1].origin EXCEPT !.fee = f.tx[1].origin.fee] = f.tx[1].origin
            /\ c.op \in {"fl.ask", "fl.price", "fl.send", "fl.read"} /\ c.ans \in Faults => f' = f]_vars
EmitStep == Write(hist')
=============================================================================
