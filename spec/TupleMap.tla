------------------------------ MODULE TupleMap ------------------------------
(* A tuple as an ordered map: a sequence of entries [k, x] with distinct   *)
(* keys. Looking up gives << value >> or << >>.                            *)
EXTENDS Sequences, SequencesExt, Integers

Index(m, k)  == SelectInSeq(m, LAMBDA e : e.k = k)
Lookup(m, k) == IF Index(m, k) = 0 THEN <<>> ELSE << m[Index(m, k)].x >>
Put(m, k, x) == IF Index(m, k) = 0 THEN Append(m, [k |-> k, x |-> x])
                ELSE [m EXCEPT ![Index(m, k)].x = x]
Drop(m, k)   == IF Index(m, k) = 0 THEN m
                ELSE SubSeq(m, 1, Index(m, k) - 1) \o SubSeq(m, Index(m, k) + 1, Len(m))
\* in-place change: nothing happens to an absent key
Change(m, k, x) == IF Index(m, k) = 0 THEN m ELSE Put(m, k, x)
Keys(m)   == [i \in 1..Len(m) |-> m[i].k]
Values(m) == [i \in 1..Len(m) |-> m[i].x]
Distinct(m) == \A i, j \in 1..Len(m) : m[i].k = m[j].k => i = j
=============================================================================
