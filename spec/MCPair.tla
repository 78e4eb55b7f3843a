------------------------------- MODULE MCPair -------------------------------
(***************************************************************************)
(* Pairs of Clarity values for equality (C04): all pairs of basic values,  *)
(* of wrapped ones, and of short lists and tuples built over values that   *)
(* look alike when printed.                                                *)
(***************************************************************************)
EXTENDS Clarity, Emit
CONSTANTS Depth

Addr(v) == Address(Prefix(SHA256(<< v >>), 20), v).x
A == << 97 >>
\* contents chosen so that printed forms of different values coincide
Leaves == {[t |-> "int", v |-> Zeros(15) \o << 1 >>], [t |-> "uint", v |-> Zeros(15) \o << 1 >>],
           [t |-> "int", v |-> Zeros(16)],
           [t |-> "buf", v |-> A], [t |-> "buf", v |-> << 97, 0 >>], [t |-> "true"], [t |-> "false"], [t |-> "none"],
           [t |-> "std", a |-> Addr(22)], [t |-> "con", a |-> Addr(22), n |-> A],
           [t |-> "con", a |-> Addr(22), n |-> << 97, 46 >>],
           [t |-> "ascii", s |-> A], [t |-> "utf8", s |-> A], [t |-> "ascii", s |-> << 97, 34, 32, 34, 97 >>],
           [t |-> "ascii", s |-> <<>>]}
Few == {x \in Leaves : x.t \in {"ascii", "true", "none"}}
D1 == Leaves
      \cup {[t |-> w, x |-> x] : w \in {"ok", "err", "some"}, x \in Few}
      \cup {[t |-> "list", xs |-> <<>>]}
      \cup {[t |-> "list", xs |-> << x >>] : x \in Few}
      \cup {[t |-> "list", xs |-> << x, y >>] : x, y \in {z \in Few : z.t = "ascii"}}
      \cup {[t |-> "tuple", kv |-> <<>>]}
      \cup {[t |-> "tuple", kv |-> << [k |-> k, x |-> x] >>] : k \in {A, << 98 >>}, x \in Few}
      \cup {[t |-> "tuple", kv |-> << [k |-> A, x |-> x], [k |-> << 98 >>, x |-> y] >>] : x, y \in {z \in Few : z.t # "ascii"}}
      \cup {[t |-> "tuple", kv |-> << [k |-> << 98 >>, x |-> x], [k |-> A, x |-> y] >>] : x, y \in {z \in Few : z.t # "ascii"}}
D2 == D1 \cup {[t |-> w, x |-> x] : w \in {"ok", "some"}, x \in D1} \cup {[t |-> "list", xs |-> << x >>] : x \in D1}
      \cup {[t |-> "list", xs |-> << x, y >>] : x, y \in Few}
Vals == IF Depth = 1 THEN D1 ELSE D2

VARIABLES v, w
Init == v \in Vals /\ w = <<>>
Next == w = <<>> /\ v' = v /\ w' \in {<< x >> : x \in Vals}
Spec == Init /\ [][Next]_<< v, w >>

\* equality of content is equality of the encodings: equal exactly if both are the same bytes
EqualEncodings == w # <<>> => ((v = w[1]) <=> (Encode(v) = Encode(w[1])))
AllFine == Encode(v).ok
\* the library compares values of one type; values of different types meet inside others
Emitted == w # <<>> => LET x == w[1] IN
    /\ v.t = x.t => Write(<< [op |-> "cv.eq", v |-> v, w |-> x] >>)
    /\ Write(<< [op |-> "cv.eq", v |-> [t |-> "some", x |-> v], w |-> [t |-> "some", x |-> x]] >>)
    /\ Write(<< [op |-> "cv.eq", v |-> [t |-> "tuple", kv |-> << [k |-> A, x |-> v] >>],
                                 w |-> [t |-> "tuple", kv |-> << [k |-> A, x |-> x] >>]] >>)
=============================================================================
