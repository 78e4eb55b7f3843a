----------------------------- MODULE MCPayload ------------------------------
(***************************************************************************)
(* Payloads (C13): transfers and contract calls from boundary contents,    *)
(* encoded, decoded, decoded with bytes behind them and cut short.         *)
(***************************************************************************)
EXTENDS Payload, Emit
CONSTANTS MaxArgs, Cuts

Hash(v) == Prefix(SHA256(<< v >>), 20)
Addr(v) == Address(Hash(v), v).x
NameOf(n) == [i \in 1..n |-> 97 + (i % 26)]
Tos == {[t |-> "std", a |-> Addr(22)], [t |-> "std", a |-> Addr(20)], [t |-> "con", a |-> Addr(26), n |-> << 99 >>],
        [t |-> "con", a |-> Addr(21), n |-> NameOf(128)]}
BadTos == {[t |-> "con", a |-> Addr(22), n |-> NameOf(129)], [t |-> "std", a |-> << 83, 80 >>]}
Amounts == {Zeros(8), << 0, 0, 0, 0, 0, 0, 1, 0 >>, [i \in 1..8 |-> 255], << 128, 0, 0, 0, 0, 0, 0, 1 >>}
Memos == {<<>>, << 104, 105 >>, NameOf(33), NameOf(34), << 0 >>, << 97, 0 >>, << 0, 97 >>, << 32 >>, [i \in 1..34 |-> IF i % 2 = 1 THEN 195 ELSE 169]}
BadMemos == {NameOf(35), NameOf(33) \o << 195, 169 >>, NameOf(300)}
Names == {<< 97 >>, NameOf(128), << 195, 169 >>, [i \in 1..128 |-> IF i % 2 = 1 THEN 195 ELSE 169], <<>>}
BadNames == {NameOf(129), NameOf(256), NameOf(127) \o << 195, 169 >>}
Args0 == {[t |-> "uint", v |-> Zeros(15) \o << 1 >>], [t |-> "none"], [t |-> "utf8", s |-> << 195, 169 >>],
          [t |-> "list", xs |-> << [t |-> "true"], [t |-> "false"] >>], [t |-> "ascii", s |-> << 195, 169 >>]}
Vers == {22, 26, 0, 255}

Transfers == {[t |-> "transfer", to |-> x, amount |-> a, memo |-> m] : x \in Tos, a \in Amounts, m \in Memos}
             \cup {[t |-> "transfer", to |-> x, amount |-> Zeros(8), memo |-> <<>>] : x \in BadTos}
             \cup {[t |-> "transfer", to |-> [t |-> "std", a |-> Addr(22)], amount |-> Zeros(8), memo |-> m] : m \in BadMemos}
Call(v, c, f, as) == [t |-> "call", ver |-> v, hash |-> Hash(v), contract |-> c, fn |-> f, args |-> as]

VARIABLES p
Init == p \in Transfers \cup {Call(v, c, f, <<>>) : v \in Vers, c, f \in Names}
              \cup {Call(22, c, << 102 >>, <<>>) : c \in BadNames} \cup {Call(22, << 99 >>, f, <<>>) : f \in BadNames}
Next == /\ p.t = "call" /\ Len(p.args) < MaxArgs /\ p.ver = 22 /\ Len(p.contract) < 3 /\ Len(p.fn) # 128
        /\ \E x \in Args0 : p' = [p EXCEPT !.args = Append(@, x)]
Spec == Init /\ [][Next]_p

e == EncodePayload(p)
Junk == << 0, 2, 255 >>
RoundTrip == e.ok =>
    /\ DecodePayload(e.x) = Read(Padded(p), Len(e.x))
    /\ DecodePayload(e.x \o Junk) = Read(Padded(p), Len(e.x))
    /\ DecodePayloadAs(e.x, p.t).ok
    /\ ~DecodePayloadAs(e.x, IF p.t = "call" THEN "transfer" ELSE "call").ok
PrefixFree == e.ok => \A k \in 0..(Len(e.x) - 1) : k % (1 + Len(e.x) \div 40) = 0 => ~DecodePayload(Prefix(e.x, k)).ok
\* exactly the representable ones are accepted
Refuses == e.ok <=>
    IF p.t = "transfer" THEN p.to \notin BadTos /\ p.memo \notin BadMemos
    ELSE p.contract \notin BadNames /\ p.fn \notin BadNames /\ \A i \in 1..Len(p.args) : p.args[i].t # "ascii"
Dec(b, as) == [op |-> "pay.dec", b |-> b, as |-> as]
Emitted ==
    /\ Write(<< [op |-> "pay.enc", p |-> p] >>)
    /\ e.ok => /\ Write(<< Dec(e.x, "any"), Dec(e.x, "transfer"), Dec(e.x, "call"), Dec(e.x \o Junk, "any"), Dec(e.x \o Junk, p.t) >>)
               /\ \A i \in 0..Cuts : LET k == (i * Len(e.x)) \div (Cuts + 1) IN Write(<< Dec(Prefix(e.x, k), p.t), Dec(Prefix(e.x, k), "any") >>)
               /\ Write(<< Dec(Prefix(e.x, Len(e.x) - 1), p.t), Dec(Prefix(e.x, Len(e.x) - 1), "any") >>)
=============================================================================
