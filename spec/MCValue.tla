------------------------------ MODULE MCValue -------------------------------
(***************************************************************************)
(* Clarity values, built bottom-up: a state is a stack of values; a step   *)
(* pushes a basic value, wraps the top one, or collects the top ones into  *)
(* a list or tuple. When one value is left it is an input for encoding,    *)
(* decoding, printing, comparing and casting (C01, C02, C04, C05).         *)
(***************************************************************************)
EXTENDS Clarity, Emit
CONSTANTS MaxSteps,        \* steps per value
          MaxStack,        \* values collected at once
          Broken,          \* whether values that cannot be represented are used
          Calls            \* the operations to write down

VARIABLES stack, steps
vars == << stack, steps >>

Addr(v) == Address(Prefix(SHA256(<< v >>), 20), v).x
N128 == [i \in 1..128 |-> 97 + (i % 26)]
N129 == N128 \o << 97 >>

I(b) == Zeros(15) \o << b >>
Plain == {[t |-> "int", v |-> I(0)], [t |-> "int", v |-> [i \in 1..16 |-> 255]],
          [t |-> "int", v |-> << 128 >> \o Zeros(15)], [t |-> "uint", v |-> I(0)],
          [t |-> "uint", v |-> [i \in 1..16 |-> 255]],
          [t |-> "uint", v |-> Zeros(7) \o << 1 >> \o Zeros(8)],
          [t |-> "buf", v |-> <<>>], [t |-> "buf", v |-> << 0, 255 >>],
          [t |-> "true"], [t |-> "false"], [t |-> "none"],
          [t |-> "std", a |-> Addr(22)], [t |-> "std", a |-> Addr(21)],
          [t |-> "con", a |-> Addr(26), n |-> << 97, 45, 98 >>],
          [t |-> "con", a |-> Addr(20), n |-> N128],
          [t |-> "ascii", s |-> <<>>], [t |-> "ascii", s |-> << 34, 32, 34 >>],
          [t |-> "ascii", s |-> << 0, 65, 0 >>], [t |-> "con", a |-> Addr(21), n |-> << 65, 0 >>],
          [t |-> "utf8", s |-> << 240, 159, 166, 128, 97 >>], [t |-> "utf8", s |-> << 32, 195, 137, 10, 0 >>]}
Bad == {[t |-> "ascii", s |-> << 97, 195, 169 >>], [t |-> "con", a |-> Addr(22), n |-> N129],
        [t |-> "std", a |-> << 83, 80 >>], [t |-> "std", a |-> [Addr(22) EXCEPT ![9] = IF @ = 48 THEN 49 ELSE 48]]}
Leaves == IF Broken THEN Plain \cup Bad ELSE Plain
KeyNames == << << 97 >>, << 98, 45 >>, N128, <<>> >> \o (IF Broken THEN << N129 >> ELSE <<>>)

Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Rest(k) == SubSeq(stack, 1, Len(stack) - k)

Init == stack = <<>> /\ steps = 0
Push == /\ Len(stack) < MaxStack
        /\ \E x \in Leaves : stack' = Append(stack, x)
WrapTop == /\ stack # <<>>
        /\ \E t \in {"ok", "err", "some"} :
              stack' = Append(Rest(1), [t |-> t, x |-> Top(1)[1]])
Collect == \E k \in 0..Len(stack) :
        /\ Len(stack) - k < MaxStack
        /\ \/ stack' = Append(Rest(k), [t |-> "list", xs |-> Top(k)])
           \/ \E o \in 0..(Len(KeyNames) - 1) : k <= Len(KeyNames) /\ (k = 0 => o = 0) /\
                stack' = Append(Rest(k), [t |-> "tuple", kv |->
                    [i \in 1..k |-> [k |-> KeyNames[1 + ((i - 1 + o) % Len(KeyNames))], x |-> Top(k)[i]]]])
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Push \/ WrapTop \/ Collect)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
One == Len(stack) = 1
v == stack[1]
Junk == << 0, 11, 255 >>

\* decoding inverts encoding, through the generic and the own decoder; other decoders refuse
RoundTrip == One => LET e == Encode(v) IN e.ok =>
    /\ Decode(e.x, 0) = Read(v, Len(e.x))
    /\ Decode(e.x \o Junk, 0) = Read(v, Len(e.x))
    /\ Decode(<< 12, 200 >> \o e.x, 2) = Read(v, Len(e.x) + 2)
    /\ \A i \in 1..Len(Types) : DecodeAs(e.x, 0, Types[i]).ok <=> Types[i] = v.t
\* no encoding is a proper prefix of another's beginning: cut anywhere, it does not decode
PrefixFree == One => LET e == Encode(v) IN e.ok =>
    \A k \in 0..(Len(e.x) - 1) : k % (1 + Len(e.x) \div 24) = 0 => ~Decode(Prefix(e.x, k), 0).ok
\* a value is representable exactly when all its parts are
RECURSIVE Parts(_)
Parts(x) == CASE x.t \in {"ok", "err", "some"} -> {x} \cup Parts(x.x)
              [] x.t = "list" -> {x} \cup UNION {Parts(x.xs[i]) : i \in 1..Len(x.xs)}
              [] x.t = "tuple" -> {x} \cup UNION {Parts(x.kv[i].x) : i \in 1..Len(x.kv)}
              [] OTHER -> {x}
Representable == One =>
    (Encode(v).ok <=> \A x \in Parts(v) : x \notin Bad /\ (x.t = "tuple" => \A i \in 1..Len(x.kv) : Len(x.kv[i].k) <= 128))
\* printing balances its parentheses, one pair per composite or entry
Balanced == One => (v.t \in {"ok", "err", "some", "list", "tuple"} =>
    Display(v)[1] = 40 /\ Display(v)[Len(Display(v))] = 41)

OtherTypes == {"any", v.t} \cup {"int", "list", "tuple", "utf8", "some"}
Emitted == One => Write(
    (IF "enc" \in Calls THEN << [op |-> "cv.enc", v |-> v] >> ELSE <<>>) \o
    (IF "show" \in Calls THEN << [op |-> "cv.show", v |-> v] >> ELSE <<>>) \o
    (IF "clone" \in Calls THEN << [op |-> "cv.clone", v |-> v] >> ELSE <<>>) \o
    (IF "own" \in Calls THEN << [op |-> "cv.own", v |-> v] >> ELSE <<>>) \o
    (IF "cast" \in Calls THEN
        [i \in 1..Len(Types) |-> [op |-> "cv.cast", v |-> v, to |-> Types[i], inner |-> FALSE]] \o
        (IF v.t \in {"ok", "err", "some"}
         THEN [i \in 1..Len(Types) |-> [op |-> "cv.cast", v |-> v, to |-> Types[i], inner |-> TRUE]] ELSE <<>>)
     ELSE <<>>) \o
    (IF "dec" \in Calls /\ Encode(v).ok THEN
        LET ts == SetToSeq(OtherTypes) IN
        [i \in 1..Len(ts) |-> [op |-> "cv.dec", b |-> Encode(v).x, as |-> ts[i]]] \o
        << [op |-> "cv.dec", b |-> Encode(v).x \o Junk, as |-> "any"],
           [op |-> "cv.dec", b |-> Encode(v).x \o Junk, as |-> v.t] >> ELSE <<>>))
=============================================================================
