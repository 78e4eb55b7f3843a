-------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* The node's HTTP interface as a client uses it. A call determines the    *)
(* request; the node's answer determines the result.                       *)
(*                                                                         *)
(* An answer is [fault, status, json, ms, raw]: fault "none" or a broken   *)
(* transport; json tells whether the body is a JSON object, whose members  *)
(* ms are [k, t, v] with t "str", "num", "bool", "null" or "ests" (v is    *)
(* text, or a sequence of [fee, rate], either <<>> if it is left out);     *)
(* otherwise the body is raw. How it is framed (by length, in chunks, by   *)
(* the end of the connection) makes no difference.                         *)
(***************************************************************************)
EXTENDS Tx

T_get  == "GET"
T_post == "POST"
\* a path is the sequence of its segments
S_v2    == << 118,50 >>
P_info  == << S_v2, << 105,110,102,111 >> >>                            \* /v2/info
P_accts == << S_v2, << 97,99,99,111,117,110,116,115 >> >>               \* /v2/accounts
P_fees  == << S_v2, << 102,101,101,115 >>, << 116,114,97,110,115,97,99,116,105,111,110 >> >>
                                                                        \* /v2/fees/transaction
P_txs   == << S_v2, << 116,114,97,110,115,97,99,116,105,111,110,115 >> >>  \* /v2/transactions
P_ro    == << S_v2, << 99,111,110,116,114,97,99,116,115 >>, << 99,97,108,108,45,114,101,97,100 >> >>
                                                                        \* /v2/contracts/call-read

\* a base path as text to its segments
Segments(b) ==
    IF b = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, c : IF c = 47 THEN Append(acc, <<>>)
                                  ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], <<>>, b)

Post(base, path, body) == Got([m |-> T_post, path |-> Segments(base) \o path, query |-> <<>>, body |-> body])
Get(base, path) ==
    Got([m |-> T_get, path |-> Segments(base) \o path, query |-> <<>>, body |-> [t |-> "none"]])

\* What the client sends: Got(request), or Fail if it cannot be expressed.
\* The body is [t |-> "none"], "bytes", "fee" or "ro".
Request(c) ==
    CASE c.call = "info"    -> Get(c.base, P_info)
      [] c.call = "account" -> Get(c.base, Append(P_accts, c.addr))
      [] c.call = "fee" ->
            LET p == EncodePayload(c.tx.payload)
                b == EncodeTx(c.tx)
            IN  IF p.ok /\ b.ok
                THEN Post(c.base, P_fees, [t |-> "fee", payload |-> ToHex(p.x), len |-> Len(b.x)])
                ELSE Fail
      [] c.call = "broadcast" ->
            LET b == EncodeTx(c.tx) IN
            IF b.ok THEN Post(c.base, P_txs, [t |-> "bytes", b |-> b.x]) ELSE Fail
      [] c.call = "ro" ->
            LET es == TLCEval([i \in 1..Len(c.args) |-> Encode(c.args[i])]) IN
            IF \A i \in 1..Len(es) : es[i].ok
            THEN Post(c.base, P_ro \o << c.addr, c.contract, c.fn >>,
                      [t |-> "ro", sender |-> c.sender, args |-> [i \in 1..Len(es) |-> ToHex(es[i].x)]])
            ELSE Fail

-----------------------------------------------------------------------------
(* Reading answers. A decimal text fits a bound of the same notation.      *)

U64Max == << 49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53 >> \* 18446744073709551615
U32Max == << 52,50,57,52,57,54,55,50,57,53 >>                               \* 4294967295
IsNat(s, max) ==
    /\ s # <<>>
    /\ \A i \in 1..Len(s) : s[i] >= 48 /\ s[i] <= 57
    /\ Len(s) = 1 \/ s[1] # 48
    /\ Len(s) < Len(max) \/ (Len(s) = Len(max) /\ ~Less(max, s))

\* a number with a fraction, as far as answers have one
IsRate(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57 \cup {46}

Member(ms, k) == LET i == SelectInSeq(ms, LAMBDA m : m.k = k) IN IF i = 0 THEN <<>> ELSE << ms[i] >>

LOCAL FitsType(m, ty) ==
    CASE ty = "str"  -> m.t = "str"
      [] ty = "bool" -> m.t = "bool"
      [] ty = "u64"  -> m.t = "num" /\ IsNat(m.v, U64Max)
      [] ty = "u32"  -> m.t = "num" /\ IsNat(m.v, U32Max)
      [] ty = "ests" -> m.t = "ests" /\ \A i \in 1..Len(m.v) : IsNat(m.v[i].fee, U64Max) /\ IsRate(m.v[i].rate)

\* the object's members as the given shape wants them, a sequence of << name, type >>
Shape(a, fields) ==
    IF ~a.json THEN Fail
    ELSE IF \A i \in 1..Len(fields) :
               LET m == Member(a.ms, fields[i][1]) IN
               IF m = <<>> THEN FALSE ELSE FitsType(m[1], fields[i][2])
         THEN Got([i \in 1..Len(fields) |-> Member(a.ms, fields[i][1])[1].v])
         ELSE Fail

InfoShape == << << "peer_version", "u64" >>, << "pox_consensus", "str" >>,
    << "burn_block_height", "u64" >>, << "stable_pox_consensus", "str" >>,
    << "stable_burn_block_height", "u64" >>, << "server_version", "str" >>,
    << "network_id", "u32" >>, << "parent_network_id", "u32" >>,
    << "stacks_tip_height", "u64" >>, << "stacks_tip", "str" >>,
    << "stacks_tip_consensus_hash", "str" >>, << "genesis_chainstate_hash", "str" >> >>
AcctShape == << << "balance", "str" >>, << "locked", "str" >>, << "unlock_height", "u64" >>,
    << "nonce", "u64" >>, << "balance_proof", "str" >>, << "nonce_proof", "str" >> >>
FeeShape  == << << "estimations", "ests" >> >>
BErrShape == << << "error", "str" >>, << "reason", "str" >>, << "txid", "str" >> >>
RoOk  == << << "okay", "bool" >>, << "result", "str" >> >>
RoErr == << << "okay", "bool" >>, << "cause", "str" >> >>

T_message == << 109,101,115,115,97,103,101,58,32 >>        \* "message: "
T_reason  == << 44,32,114,101,97,115,111,110,58,32 >>    \* ", reason: "
\* a refused broadcast is shown by its error and reason
LOCAL Shown(r) == IF r.ok THEN Got(Append(r.x, T_message \o r.x[1] \o T_reason \o r.x[2])) ELSE Fail

LOCAL Tagged(r, tag) == IF r.ok THEN Got([as |-> tag, v |-> r.x]) ELSE Fail

\* the result of a call whose request was sent and answered with a
Result(call, a) ==
    IF a.fault # "none" THEN Fail
    ELSE LET good == a.status < 400 IN
    CASE call = "info"    -> IF good THEN Tagged(Shape(a, InfoShape), "ok") ELSE Fail
      [] call = "account" -> IF good THEN Tagged(Shape(a, AcctShape), "ok") ELSE Fail
      [] call = "fee"     -> IF good THEN Tagged(Shape(a, FeeShape), "ok")
                             ELSE Got([as |-> "err", v |-> << a.raw >>])
      [] call = "broadcast" -> IF good THEN Got([as |-> "ok", v |-> << a.raw, a.raw >>])
                               ELSE Tagged(Shown(Shape(a, BErrShape)), "err")
      [] call = "ro" -> IF ~good THEN Fail
                        ELSE IF Shape(a, RoOk).ok THEN Tagged(Shape(a, RoOk), "ok")
                        ELSE Tagged(Shape(a, RoErr), "err")
=============================================================================
