------------------------------- MODULE MCTuple ------------------------------
(***************************************************************************)
(* Histories of edits on tuples (C06): three slots, edited, copied and     *)
(* looked up. Beside the tuples the model keeps what a user expects of     *)
(* them in other terms: a function from keys to values and the time at     *)
(* which each present key came.                                            *)
(***************************************************************************)
EXTENDS TupleMap, Emit, TLC, FiniteSets
CONSTANTS MaxOps, MaxKeys, Slots

A == << 97 >>
Keys0 == << A, << 98 >>, << 97, 97 >>, << 65 >> >>
KeySet == {Keys0[i] : i \in 1..MaxKeys}
I(n) == [t |-> "int", v |-> [i \in 1..16 |-> IF i = 16 THEN n ELSE 0]]
\* the same key with values of different types and sizes
Vals == {I(1), [t |-> "ascii", s |-> << 120, 121 >>]}
NoVal == <<>>

VARIABLES m, f, since, hist, n
vars == << m, f, since, hist, n >>
View == << m, f, n >>          \* since is determined by m up to renumbering

Probes == SetToSeq(KeySet)
Step(c) == hist' = Append(hist, c @@ [probes |-> Probes]) /\ n' = n + 1

EmptyF == [k \in KeySet |-> NoVal]
Init == /\ m = [s \in 1..Slots |-> <<>>] /\ f = [s \in 1..Slots |-> EmptyF]
        /\ since = [s \in 1..Slots |-> [k \in KeySet |-> 0]] /\ hist = <<>> /\ n = 0

New == /\ n = 0
       /\ \E p \in {<< >>, << 1 >>, << 2, 1 >>, << 1, 2, 3 >>, << 3, 1, 2 >>} :
            /\ \A i \in 1..Len(p) : p[i] <= MaxKeys
            /\ LET kv == [i \in 1..Len(p) |-> [k |-> Keys0[p[i]], x |-> I(p[i])]] IN
               /\ m' = [m EXCEPT ![1] = kv]
               /\ f' = [f EXCEPT ![1] = [k \in KeySet |-> LET i == SelectInSeq(p, LAMBDA j : Keys0[j] = k) IN
                                            IF i = 0 THEN NoVal ELSE << I(p[i]) >>]]
               /\ since' = [since EXCEPT ![1] = [k \in KeySet |-> SelectInSeq(p, LAMBDA j : Keys0[j] = k)]]
               /\ Step([op |-> "tup.new", slot |-> 1, kv |-> kv])
Ins(s, k, x) == /\ m' = [m EXCEPT ![s] = Put(@, k, x)]
                /\ f' = [f EXCEPT ![s][k] = << x >>]
                /\ since' = [since EXCEPT ![s][k] = IF f[s][k] = NoVal THEN 10 + n ELSE @]
                /\ Step([op |-> "tup.ins", slot |-> s, k |-> k, x |-> x])
Rem(s, k) == /\ m' = [m EXCEPT ![s] = Drop(@, k)]
             /\ f' = [f EXCEPT ![s][k] = NoVal]
             /\ UNCHANGED since
             /\ Step([op |-> "tup.rem", slot |-> s, k |-> k])
Set(s, k, x) == /\ m' = [m EXCEPT ![s] = Change(@, k, x)]
                /\ f' = [f EXCEPT ![s][k] = IF @ = NoVal THEN @ ELSE << x >>]
                /\ UNCHANGED since
                /\ Step([op |-> "tup.set", slot |-> s, k |-> k, x |-> x])
Get(s, k) == UNCHANGED << m, f, since >> /\ Step([op |-> "tup.get", slot |-> s, k |-> k])
Copy(s, t) == /\ s # t
              /\ m' = [m EXCEPT ![t] = m[s]] /\ f' = [f EXCEPT ![t] = f[s]] /\ since' = [since EXCEPT ![t] = since[s]]
              /\ Step([op |-> "tup.copy", slot |-> s, to |-> t])
Ops == \/ New
       \/ \E s \in 1..Slots, k \in KeySet : Rem(s, k) \/ Get(s, k) \/ \E x \in Vals : Ins(s, k, x) \/ Set(s, k, x)
       \/ \E s, t \in 1..Slots : Copy(s, t)
Next == n < MaxOps /\ Ops
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* one entry per key
Unique == \A s \in 1..Slots : Distinct(m[s])
\* lookups are the function's
IsMap == \A s \in 1..Slots, k \in KeySet : Lookup(m[s], k) = f[s][k]
\* the entries are exactly the present keys, in the order they came
Ordered == \A s \in 1..Slots :
    /\ {Keys(m[s])[i] : i \in 1..Len(m[s])} = {k \in KeySet : f[s][k] # NoVal}
    /\ \A i, j \in 1..Len(m[s]) : i < j => since[s][m[s][i].k] < since[s][m[s][j].k]
\* an edit changes its own slot, and there one entry only
Local == [][hist' # hist => LET c == hist'[Len(hist')] IN
    c.op \in {"tup.ins", "tup.rem", "tup.set", "tup.get"} =>
       \A s \in 1..Slots, k \in KeySet : s # c.slot \/ k # c.k => Lookup(m'[s], k) = Lookup(m[s], k)]_vars
EmitStep == Write(hist')
=============================================================================
