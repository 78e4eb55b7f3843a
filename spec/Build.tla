------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Networks, and what the transaction builders make of their settings.     *)
(***************************************************************************)
EXTENDS Tx

\* the builders: what is not set takes its documented default
NetVersion(n) == IF n = "main" THEN 0 ELSE 128
NetChain(n)   == IF n = "main" THEN << 0,0,0,1 >> ELSE << 128,0,0,0 >>
NetUrl(n) ==
    IF n = "main"           \* https://api.mainnet.hiro.so
    THEN << 104,116,116,112,115,58,47,47,97,112,105,46,109,97,105,110,110,101,116,46,104,105,114,111,46,115,111 >>
    ELSE IF n = "test"      \* https://api.testnet.hiro.so
    THEN << 104,116,116,112,115,58,47,47,97,112,105,46,116,101,115,116,110,101,116,46,104,105,114,111,46,115,111 >>
    ELSE                    \* http://localhost:3999
         << 104,116,116,112,58,47,47,108,111,99,97,108,104,111,115,116,58,51,57,57,57 >>
Default(d, k, x) == IF k \in DOMAIN d THEN d[k] ELSE x
BuildTx(d) ==
    LET pay == IF d.what = "transfer"
               THEN Got([t |-> "transfer", to |-> d.to, amount |-> d.amount, memo |-> Default(d, "memo", <<>>)])
               ELSE LET a == AddressDecode(d.address) IN
                    IF a.ok THEN Got([t |-> "call", ver |-> a.x.version, hash |-> a.x.data,
                                      contract |-> d.contract, fn |-> d.fn, args |-> d.args])
                    ELSE Fail
    IN  IF ~pay.ok THEN Fail
        ELSE Got([version |-> NetVersion(d.net), chain |-> NetChain(d.net), kind |-> "std",
                  origin |-> NewSingle(0, PubKeyOf(d.sender), Default(d, "fee", Zero8), Default(d, "nonce", Zero8)),
                  sponsor |-> DefaultCond,
                  anchor |-> Default(d, "anchor", 3), pcmode |-> Default(d, "pcmode", 1),
                  pcs |-> Default(d, "pcs", <<>>), payload |-> pay.x])
=============================================================================
