-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* From a mnemonic to the node and back: an account is opened, the node is *)
(* asked for its nonce, a transaction is built, priced, signed and sent,   *)
(* contracts are read. A flow is                                           *)
(*   [acct (<<>> or << extended key >>), nonce (8 bytes), tx (<<>> or      *)
(*    << transaction >>)]                                                  *)
(***************************************************************************)
EXTENDS Rpc, Wallet, Build

FlowStart == [acct |-> <<>>, nonce |-> Zero8, tx |-> <<>>]

\* decimal digits to 8 bytes
LOCAL TimesTen(n, d) ==
    LET r == FoldRight(LAMBDA x, acc : [c |-> (10 * x + acc.c) \div 256, n |-> << (10 * x + acc.c) % 256 >> \o acc.n],
                       n, [c |-> d, n |-> <<>>])
    IN  r.n
FromDecimal(s) == FoldLeft(LAMBDA acc, c : TimesTen(acc, c - 48), Zero8, s)

Opened(phrase, i) == LET w == WalletOf(phrase) IN
    IF w.ok THEN [FlowStart EXCEPT !.acct = << Child(w.x, i) >>] ELSE FlowStart

FlowKey(f) == f.acct[1].k
FlowAddr(f, ver) == Address(Hash160(PubKeyOf(FlowKey(f))), ver).x

AskCall(f, base, ver) == [call |-> "account", base |-> base, addr |-> FlowAddr(f, ver)]
AfterAsk(f, ans) == LET r == Result("account", ans) IN
    IF r.ok THEN [f EXCEPT !.nonce = FromDecimal(r.x.v[4])] ELSE f

FlowBuild(f, d) == BuildTx(("sender" :> FlowKey(f)) @@ ("nonce" :> f.nonce) @@ d)

PriceCall(f, base) == [call |-> "fee", base |-> base, tx |-> f.tx[1]]
\* the first estimate is taken
AfterPrice(f, ans) == LET r == Result("fee", ans) IN
    IF ~EncodeTx(f.tx[1]).ok \/ ~r.ok THEN f
    ELSE IF r.x.as # "ok" THEN f
    ELSE IF r.x.v[1] = <<>> THEN f
    ELSE [f EXCEPT !.tx[1].origin.fee = FromDecimal(r.x.v[1][1].fee)]

AfterSign(f, sig) == [f EXCEPT !.tx = << RealSigning!SignTx(f.tx[1], sig).x >>]

SendCall(f, base) == [call |-> "broadcast", base |-> base, tx |-> f.tx[1]]

ReadCall(f, e) == [call |-> "ro", base |-> e.base, addr |-> e.addr, contract |-> e.contract, fn |-> e.fn, args |-> e.args,
                   sender |-> FlowAddr(f, e.ver)]
\* the value in a successful answer: hexadecimal, with or without 0x
ReadValue(r) == LET h == IF Len(r) < 2 THEN r ELSE IF Prefix(r, 2) = << 48, 120 >> THEN Suffix(r, 2) ELSE r
                b == FromHex(h)
            IN  IF ~b.ok THEN Fail ELSE LET v == DecodeAs(b.x, 0, "any") IN IF v.ok THEN Got(v.v) ELSE Fail
=============================================================================
