------------------------------ MODULE MCDerive ------------------------------
(***************************************************************************)
(* Conversions of tuples into structs (C20). For every struct of the       *)
(* harness: a tuple that fits, with up to Faults entries replaced by each  *)
(* value of a pool or left out, in two orders, with and without an extra   *)
(* entry.                                                                  *)
(***************************************************************************)
EXTENDS Derive, Schemas, Emit, FiniteSets
CONSTANTS Faults

One == Zeros(15) \o << 1 >>
IntV == [t |-> "int", v |-> [i \in 1..16 |-> 255]]
Uint == [t |-> "uint", v |-> One]
Text == [t |-> "ascii", s |-> << 104, 105 >>]
Buf == [t |-> "buf", v |-> << 1, 255 >>]
W(t, x) == [t |-> t, x |-> x]
Pool == {IntV, Uint, [t |-> "true"], [t |-> "false"], Buf, [t |-> "none"], Text, [t |-> "utf8", s |-> << 195, 169 >>],
         [t |-> "std", a |-> Address(Prefix(SHA256(<< 22 >>), 20), 22).x], [t |-> "con", a |-> Address(Prefix(SHA256(<< 22 >>), 20), 22).x, n |-> << 99 >>],
         [t |-> "list", xs |-> <<>>], [t |-> "list", xs |-> << Text, Uint >>], [t |-> "tuple", kv |-> <<>>],
         [t |-> "tuple", kv |-> << [k |-> << 118,97,108,117,101 >>, x |-> IntV] >>],
         [t |-> "tuple", kv |-> << [k |-> << 118,97,108,117,101 >>, x |-> Uint] >>]}
        \cup {W(t, x) : t \in {"ok", "err", "some"}, x \in {IntV, Uint, Text, [t |-> "true"], [t |-> "none"]}}
        \cup {W("some", W("some", IntV)), W("ok", W("ok", Uint)), W("some", W("ok", IntV)), W("ok", W("some", IntV))}

RECURSIVE Fit(_)
FitOf(f) == CASE f.ty = "i128" -> IntV [] f.ty = "u128" -> Uint [] f.ty = "bool" -> [t |-> "false"] [] f.ty = "bytes" -> Buf
              [] f.ty = "str" -> Text [] f.ty = "strs" -> [t |-> "list", xs |-> << Text >>] [] f.ty = "oi" -> W("some", IntV)
              [] f.ty = "ou" -> W("some", Uint) [] f.ty = "os" -> W("some", Text) [] f.ty = "ri" -> W("ok", IntV) [] f.ty = "ru" -> W("ok", Uint)
              [] f.ty = "sub" -> [t |-> "tuple", kv |-> Fit(f.sub)]
Fit(fs) == [i \in 1..Len(fs) |-> [k |-> fs[i].key, x |-> FitOf(fs[i])]]

VARIABLES ty, vals, faults       \* vals: per field << value >> or << >> if left out
vars == << ty, vals, faults >>
Fs == Schema(ty)
Init == /\ ty \in {SchemaNames[i] : i \in 1..Len(SchemaNames)}
        /\ vals = [i \in 1..Len(Schema(ty)) |-> << FitOf(Schema(ty)[i]) >>] /\ faults = {}
Next == /\ Cardinality(faults) < Faults
        /\ \E i \in 1..Len(vals) : /\ \A j \in faults : j < i
                                   /\ \E x \in {<< y >> : y \in Pool} \cup {<<>>} : vals' = [vals EXCEPT ![i] = x]
                                   /\ faults' = faults \cup {i}
        /\ UNCHANGED ty
Spec == Init /\ [][Next]_vars

RECURSIVE Present(_)
Present(i) == IF i > Len(vals) THEN <<>> ELSE
    (IF vals[i] = <<>> THEN <<>> ELSE << [k |-> Fs[i].key, x |-> vals[i][1]] >>) \o Present(i + 1)
Kv == Present(1)
Turned == Reverse(Kv) \o << [k |-> << 122, 122, 122 >>, x |-> IntV] >>

\* which values a field takes, said once more in another way
RECURSIVE Takes(_, _)
Takes(f, x) == CASE f.ty = "i128" -> x.t = "int" [] f.ty = "u128" -> x.t = "uint" [] f.ty = "bool" -> x.t = "true" \/ x.t = "false"
                 [] f.ty = "bytes" -> x.t = "buf" [] f.ty = "str" -> TRUE [] f.ty = "strs" -> x.t = "list"
                 [] f.ty \in {"oi", "ou", "os"} -> IF x.t = "some" THEN f.ty = "os" \/ x.x.t = (IF f.ty = "oi" THEN "int" ELSE "uint") ELSE x.t = "none"
                 [] f.ty \in {"ri", "ru"} -> IF x.t = "ok" THEN x.x.t = (IF f.ty = "ri" THEN "int" ELSE "uint") ELSE FALSE
                 [] f.ty = "sub" -> IF x.t # "tuple" THEN FALSE
                                    ELSE \A i \in 1..Len(f.sub) : \E j \in 1..Len(x.kv) : x.kv[j].k = f.sub[i].key /\ Takes(f.sub[i], x.kv[j].x)
Exact == Convert(Fs, Kv).ok <=> \A i \in 1..Len(Fs) : vals[i] # <<>> /\ (IF vals[i] # <<>> THEN Takes(Fs[i], vals[i][1]) ELSE FALSE)
OrderFree == Convert(Fs, Kv) = Convert(Fs, Turned)
OnePerField == Convert(Fs, Kv).ok => Len(Convert(Fs, Kv).x) = Len(Fs)
Emitted == Write(<< [op |-> "drv", ty |-> ty, kv |-> Kv], [op |-> "drv", ty |-> ty, kv |-> Turned] >>)
=============================================================================
