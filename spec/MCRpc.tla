-------------------------------- MODULE MCRpc -------------------------------
(***************************************************************************)
(* RPC calls (C21): every call, answered by a node that behaves, answers   *)
(* with an error status, sends a body with members left out, renamed or of *)
(* another type, or no JSON, or breaks the connection.                     *)
(***************************************************************************)
EXTENDS Rpc, Emit, FiniteSets
CONSTANTS Statuses, Damages

VARIABLES call, ans, damaged
vars == << call, ans, damaged >>

Calls == {"info", "account", "fee", "broadcast", "ro"}
Addr(v) == Address(Prefix(SHA256(<< v >>), 20), v).x
Sk == Zeros(31) \o << 7 >>
Num == << 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53 >>
Num32 == << 52, 50, 57, 52, 57, 54, 55, 50, 57, 53 >>
Rate == << 49, 46, 53 >>
Val(k, ty) == CASE ty = "str" -> [k |-> k, t |-> "str", v |-> << 120, 34, 195, 169 >>]
                [] ty = "bool" -> [k |-> k, t |-> "bool", v |-> TRUE]
                [] ty = "u64" -> [k |-> k, t |-> "num", v |-> Num]
                [] ty = "u32" -> [k |-> k, t |-> "num", v |-> Num32]
                [] ty = "big" -> [k |-> k, t |-> "num", v |-> << 49 >> \o Num]
                [] ty = "neg" -> [k |-> k, t |-> "num", v |-> << 45, 49 >>]
                [] ty = "frac" -> [k |-> k, t |-> "num", v |-> Rate]
                [] ty = "zero" -> [k |-> k, t |-> "num", v |-> << 48 >>]
                [] ty = "no" -> [k |-> k, t |-> "bool", v |-> FALSE]
                [] ty = "ests" -> [k |-> k, t |-> "ests", v |-> << [fee |-> Num, rate |-> Rate], [fee |-> << 48 >>, rate |-> Rate] >>]
                [] ty = "null" -> [k |-> k, t |-> "null", v |-> <<>>]
                [] ty = "nofee" -> [k |-> k, t |-> "ests", v |-> << [fee |-> Num, rate |-> Rate], [fee |-> <<>>, rate |-> Rate] >>]
                [] ty = "norate" -> [k |-> k, t |-> "ests", v |-> << [fee |-> Num, rate |-> <<>>] >>]
                [] ty = "noest" -> [k |-> k, t |-> "ests", v |-> << [fee |-> <<>>, rate |-> <<>>] >>]
                [] ty = "negfee" -> [k |-> k, t |-> "ests", v |-> << [fee |-> << 45, 49 >>, rate |-> Rate] >>]
                [] ty = "none" -> [k |-> k, t |-> "ests", v |-> <<>>]
Body(shape) == [i \in 1..Len(shape) |-> Val(shape[i][1], shape[i][2])]
Shapes(c) == CASE c = "info" -> {InfoShape} [] c = "account" -> {AcctShape} [] c = "fee" -> {FeeShape}
               [] c = "broadcast" -> {BErrShape} [] c = "ro" -> {RoOk, RoErr}
Types0 == {"str", "bool", "no", "u64", "u32", "big", "neg", "frac", "zero", "ests", "none", "null",
           "nofee", "norate", "noest", "negfee"}
Raws == {<<>>, << 123 >>, << 91, 93 >>, << 110, 117, 108, 108 >>, << 34, 120, 34 >>, << 79, 75 >>, << 123, 125 >>}

Plain(status, ms) == [fault |-> "none", status |-> status, json |-> TRUE, ms |-> ms, raw |-> <<>>]
Init == /\ call \in Calls /\ damaged = 0
        /\ \/ \E s \in Shapes(call), st \in Statuses : ans = Plain(st, Body(s))
           \/ \E r \in Raws, st \in {200, 400, 500} : ans = [fault |-> "none", status |-> st, json |-> FALSE, ms |-> <<>>, raw |-> r]
           \/ \E f \in {"close", "cut", "garbage", "refuse"}, st \in {200, 500} : \E s \in Shapes(call) :
                ans = [Plain(st, Body(s)) EXCEPT !.fault = f]
Damage == /\ ans.json /\ ans.fault = "none" /\ damaged < Damages
          /\ (ans.status \in {200, 400}) /\ damaged' = damaged + 1 /\ UNCHANGED call
          /\ \/ \E i \in 1..Len(ans.ms) :
                  \/ ans' = [ans EXCEPT !.ms = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                  \/ ans' = [ans EXCEPT !.ms[i].k = @ \o "_"]
                  \/ \E ty \in Types0 : ans' = [ans EXCEPT !.ms[i] = Val(@.k, ty)]
             \/ ans' = [ans EXCEPT !.ms = Append(Reverse(@), Val("extra", "str"))]
Next == Damage
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a fault or an error status never looks like a success
NoFalseSuccess == LET r == Result(call, ans) IN r.ok =>
    /\ ans.fault = "none"
    /\ r.x.as = "ok" => ans.status < 400
    /\ r.x.as = "err" => ans.status >= 400 \/ call = "ro"
\* a well-formed answer is understood, with every member
Understood == damaged = 0 /\ ans.json /\ ans.fault = "none" /\ ans.status < 400 =>
    LET r == Result(call, ans) IN r.ok /\ (call # "broadcast" => r.x.v = [i \in 1..Len(ans.ms) |-> ans.ms[i].v])
\* order and extra members do not matter
OrderFree == LET t == [ans EXCEPT !.ms = Append(Reverse(@), Val("extra2", "ests"))] IN
    (\A i, j \in 1..Len(ans.ms) : ans.ms[i].k = ans.ms[j].k => i = j) => Result(call, t) = Result(call, ans)

Tx == [version |-> 0, chain |-> << 0, 0, 0, 1 >>, kind |-> "std", origin |-> [k |-> "one", mode |-> 0, key |-> Sk, fee |-> Zeros(8), nonce |-> Zeros(8)],
       sponsor |-> [k |-> "def"], anchor |-> 3, pcmode |-> 1, pcs |-> <<>>,
       payload |-> [t |-> "transfer", to |-> [t |-> "std", a |-> Addr(22)], amount |-> Zeros(7) \o << 5 >>, memo |-> << 109 >>]]
Extra == CASE call = "info" -> <<>> [] call = "account" -> [addr |-> Addr(22)]
           [] call \in {"fee", "broadcast"} -> [d |-> Tx]
           [] call = "ro" -> [addr |-> Addr(22), contract |-> << 99, 45, 49 >>, fn |-> << 102 >>,
                              sender |-> IF damaged = 0 THEN Addr(21) ELSE Addr(21) \o << 46, 99 >>,
                              args |-> << [t |-> "none"], [t |-> "uint", v |-> Zeros(16)] >>]
Emitted == Write(<< [op |-> "rpc", call |-> call, base |-> IF damaged = 0 THEN <<>> ELSE << 47, 110 >>, ans |-> ans] @@ Extra >>)
=============================================================================
