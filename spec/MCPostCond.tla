----------------------------- MODULE MCPostCond -----------------------------
(***************************************************************************)
(* Lists of post-conditions (C12): every combination of kind, principal,   *)
(* condition code, amount and asset, alone; and lists of a few of them.    *)
(***************************************************************************)
EXTENDS Payload, Emit
CONSTANTS MaxLen, Codes0

Hash(v) == Prefix(SHA256(<< v >>), 20)
Addr(v) == Address(Hash(v), v).x
N128 == [i \in 1..128 |-> 97 + (i % 26)]
Whos == {[t |-> "std", a |-> Addr(22)], [t |-> "std", a |-> Addr(21)],
         [t |-> "con", a |-> Addr(26), n |-> << 99 >>], [t |-> "con", a |-> Addr(20), n |-> N128]}
BadWhos == {[t |-> "true"], [t |-> "ascii", s |-> Addr(22)], [t |-> "con", a |-> Addr(22), n |-> N128 \o << 98 >>],
            [t |-> "std", a |-> << 83, 80 >>]}
Amounts == {Zeros(8), << 0, 0, 0, 0, 0, 0, 1, 0 >>, [i \in 1..8 |-> 255], << 128, 0, 0, 0, 0, 0, 0, 1 >>}
Infos == {[a |-> Addr(22), n |-> << 116 >>, s |-> << 117, 118 >>], [a |-> Addr(20), n |-> N128, s |-> << 45 >>],
          [a |-> Addr(21), n |-> << 195, 169 >>, s |-> N128]}
BadInfos == {[a |-> Addr(22), n |-> << 116 >>, s |-> N128 \o << 98 >>], [a |-> << 83 >>, n |-> << 116 >>, s |-> << 117 >>]}
Ids == {[t |-> "uint", v |-> Zeros(15) \o << 1 >>], [t |-> "std", a |-> Addr(22)], [t |-> "utf8", s |-> << 195, 169 >>],
        [t |-> "tuple", kv |-> << [k |-> << 97 >>, x |-> [t |-> "none"]] >>]}
BadIds == {[t |-> "ascii", s |-> << 195, 169 >>]}

Stx(w, c, a) == [t |-> "stx", who |-> w, code |-> c, amount |-> a]
Ft(w, i, c, a) == [t |-> "ft", who |-> w, info |-> i, code |-> c, amount |-> a]
Nft(w, i, x, c) == [t |-> "nft", who |-> w, info |-> i, id |-> x, code |-> c]
Good == {Stx(w, c, a) : w \in Whos, c \in Codes, a \in Amounts}
        \cup {Ft(w, i, c, a) : w \in Whos, i \in Infos, c \in Codes0, a \in Amounts}
        \cup {Nft(w, i, x, c) : w \in Whos, i \in Infos, x \in Ids, c \in Codes0}
W0 == [t |-> "std", a |-> Addr(22)]
I0 == [a |-> Addr(22), n |-> << 116 >>, s |-> << 117, 118 >>]
X0 == [t |-> "none"]
Broken == {Stx(w, 1, Zeros(8)) : w \in BadWhos} \cup {Ft(w, I0, 1, Zeros(8)) : w \in BadWhos}
          \cup {Ft(W0, i, 1, Zeros(8)) : i \in BadInfos} \cup {Nft(w, I0, X0, 16) : w \in BadWhos}
          \cup {Nft(W0, i, X0, 16) : i \in BadInfos} \cup {Nft(W0, I0, x, 16) : x \in BadIds}
\* a few of each for longer lists
Few == {Stx(W0, 3, Zeros(8)), Stx([t |-> "con", a |-> Addr(26), n |-> << 99 >>], 5, [i \in 1..8 |-> 255]),
        Ft(W0, I0, 2, << 0, 0, 0, 0, 0, 0, 1, 0 >>), Nft(W0, I0, X0, 17),
        Stx([t |-> "true"], 1, Zeros(8))}

VARIABLE cs
Init == cs = <<>>
Next == \/ cs = <<>> /\ \E c \in Good \cup Broken : cs' = << c >>
        \/ cs # <<>> /\ Len(cs) < MaxLen /\ cs[1] \in Few /\ \E c \in Few : cs' = Append(cs, c)
Spec == Init /\ [][Next]_cs

-----------------------------------------------------------------------------
(* An independent reader; addresses come back as version and hash.         *)
Ph(a) == LET d == AddressDecode(a).x IN << d.version >> \o d.data
Plain(c) == LET w == [c.who EXCEPT !.a = Ph(@)] IN
            IF c.t = "stx" THEN [c EXCEPT !.who = w]
            ELSE [c EXCEPT !.who = w, !.info.a = Ph(@)]
RW(b, p) == IF b[p + 1] = 2 THEN [v |-> [t |-> "std", a |-> Sub(b, p + 1, 21)], n |-> p + 22]
            ELSE LET n == ReadName(b, p + 22) IN [v |-> [t |-> "con", a |-> Sub(b, p + 1, 21), n |-> n.v], n |-> n.n]
RI(b, p) == LET n == ReadName(b, p + 21) s == ReadName(b, n.n) IN
            [v |-> [a |-> Sub(b, p, 21), n |-> n.v, s |-> s.v], n |-> s.n]
RC(b, p) ==
    LET w == RW(b, p + 1) IN
    IF b[p + 1] = 0 THEN [v |-> Stx(w.v, b[w.n + 1], Sub(b, w.n + 1, 8)), n |-> w.n + 9]
    ELSE LET i == RI(b, w.n) IN
         IF b[p + 1] = 1 THEN [v |-> Ft(w.v, i.v, b[i.n + 1], Sub(b, i.n + 1, 8)), n |-> i.n + 9]
         ELSE LET x == Decode(b, i.n) IN [v |-> Nft(w.v, i.v, x.v, b[x.n + 1]), n |-> x.n + 1]
RECURSIVE RCs(_, _, _)
RCs(b, p, k) == IF k = 0 THEN [v |-> <<>>, n |-> p]
                ELSE LET c == RC(b, p) r == RCs(b, c.n, k - 1) IN [v |-> << c.v >> \o r.v, n |-> r.n]
Readable == LET e == EncodeConditions(cs) IN e.ok =>
    RCs(e.x, 4, U32Val(Prefix(e.x, 4))) = [v |-> [i \in 1..Len(cs) |-> Plain(cs[i])], n |-> Len(e.x)]
\* nothing else is refused
Refuses == EncodeConditions(cs).ok <=> \A i \in 1..Len(cs) : cs[i] \in Good \cup Few /\ cs[i] \notin Broken
Emitted == Write(<< [op |-> "pc.enc", pcs |-> cs] >>)
=============================================================================
