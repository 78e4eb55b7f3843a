------------------------------ MODULE Payload -------------------------------
(***************************************************************************)
(* Transaction payloads and post-conditions.                               *)
(*   transfer  to: Clarity value, amount: 8 bytes, memo: text              *)
(*   call      ver: byte, hash: 20 bytes, contract, fn: text, args: values *)
(***************************************************************************)
EXTENDS Clarity

MemoLen == 34

EncodePayload(p) ==
    CASE p.t = "transfer" ->
            IF Len(p.memo) > MemoLen THEN Fail
            ELSE Cat(Cat(Got(<< 0 >>), Encode(p.to)),
                     Got(p.amount \o p.memo \o Zeros(MemoLen - Len(p.memo))))
      [] p.t = "call" ->
            Cat(Cat(Cat(Got(<< 2, p.ver >> \o p.hash), EncodeName(p.contract)), EncodeName(p.fn)),
                Encode([t |-> "args", xs |-> p.args]))

\* reads one payload from the start of b; n is the number of bytes read
DecodePayload(b) ==
    IF Len(b) = 0 THEN Fail
    ELSE IF b[1] = 0 THEN
        LET to == Decode(b, 1) IN
        IF ~to.ok THEN Fail
        ELSE IF ~Has(b, to.n, 8 + MemoLen) THEN Fail
        ELSE LET memo == Sub(b, to.n + 8, MemoLen) IN
             IF ~IsUtf8(memo) THEN Fail
             ELSE Read([t |-> "transfer", to |-> to.v, amount |-> Sub(b, to.n, 8), memo |-> memo],
                       to.n + 8 + MemoLen)
    ELSE IF b[1] = 2 THEN
        IF ~Has(b, 1, 21) THEN Fail
        ELSE LET c == ReadName(b, 22) IN
             IF ~c.ok THEN Fail
             ELSE LET f == ReadName(b, c.n) IN
                  IF ~f.ok THEN Fail
                  ELSE LET a == DecodeArgs(b, f.n) IN
                       IF ~a.ok THEN Fail
                       ELSE Read([t |-> "call", ver |-> b[2], hash |-> Sub(b, 2, 20),
                                  contract |-> c.v, fn |-> f.v, args |-> a.v.xs], a.n)
    ELSE Fail

DecodePayloadAs(b, as) ==
    LET r == DecodePayload(b) IN
    IF as = "any" \/ ~r.ok THEN r ELSE IF r.v.t = as THEN r ELSE Fail

\* what decoding gives back for a payload: the memo comes with its padding
Padded(p) == IF p.t = "transfer"
             THEN [p EXCEPT !.memo = @ \o Zeros(MemoLen - Len(@))] ELSE p

-----------------------------------------------------------------------------
(* Post-conditions:                                                        *)
(*   stx  who, code, amount       ft  + info      nft  who, info, id, code *)
(* who: Clarity value; info: [a: address, n: contract, s: asset name].     *)

Codes == {1, 2, 3, 4, 5, 16, 17}      \* EQ GT GTE LT LTE HasNot Has

LOCAL Who(v) ==
    CASE v.t = "std" -> Cat(Got(<< 2 >>), EncodePrincipal(v.a))
      [] v.t = "con" -> Cat(Cat(Got(<< 3 >>), EncodePrincipal(v.a)), EncodeName(v.n))
      [] OTHER -> Fail
LOCAL Info(i) == Cat(Cat(EncodePrincipal(i.a), EncodeName(i.n)), EncodeName(i.s))

EncodeCondition(c) ==
    CASE c.t = "stx" -> Cat(Cat(Got(<< 0 >>), Who(c.who)), Got(<< c.code >> \o c.amount))
      [] c.t = "ft"  -> Cat(Cat(Cat(Got(<< 1 >>), Who(c.who)), Info(c.info)),
                            Got(<< c.code >> \o c.amount))
      [] c.t = "nft" -> Cat(Cat(Cat(Cat(Got(<< 2 >>), Who(c.who)), Info(c.info)), Encode(c.id)),
                            Got(<< c.code >>))

\* given the encodings of the conditions one by one
JoinConditions(es) == FoldLeft(Cat, Got(U32(Len(es))), es)
EncodeConditions(cs) == JoinConditions([i \in 1..Len(cs) |-> EncodeCondition(cs[i])])
=============================================================================
