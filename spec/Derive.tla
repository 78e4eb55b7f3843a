------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Converting a Clarity tuple into a struct. A struct is a sequence of     *)
(* fields [key, ty, sub]; the outcome holds one item per field.            *)
(***************************************************************************)
EXTENDS Clarity, TupleMap

LOCAL Opt(x, F(_)) == IF x.t = "none" THEN Got(<<>>)
                      ELSE IF x.t = "some" THEN LET r == F(x.x) IN
                               IF r.ok THEN Got(<< r.x >>) ELSE Fail
                      ELSE Fail
LOCAL Num(t, x) == IF x.t = t THEN Got(x.v) ELSE Fail

RECURSIVE Convert(_, _)
LOCAL Field(f, x) ==
    CASE f.ty = "i128"  -> Num("int", x)
      [] f.ty = "u128"  -> Num("uint", x)
      [] f.ty = "bool"  -> IF x.t \in {"true", "false"} THEN Got(x.t = "true") ELSE Fail
      [] f.ty = "bytes" -> IF x.t = "buf" THEN Got(x.v) ELSE Fail
      [] f.ty = "str"   -> Got(Display(x))
      [] f.ty = "strs"  -> IF x.t = "list" THEN Got([i \in 1..Len(x.xs) |-> Display(x.xs[i])]) ELSE Fail
      [] f.ty = "oi"    -> Opt(x, LAMBDA y : Num("int", y))
      [] f.ty = "ou"    -> Opt(x, LAMBDA y : Num("uint", y))
      [] f.ty = "os"    -> Opt(x, LAMBDA y : Got(Display(y)))
      [] f.ty = "ri"    -> IF x.t = "ok" THEN Num("int", x.x) ELSE Fail
      [] f.ty = "ru"    -> IF x.t = "ok" THEN Num("uint", x.x) ELSE Fail
      [] f.ty = "sub"   -> IF x.t = "tuple" THEN Convert(f.sub, x.kv) ELSE Fail
Convert(fields, kv) ==
    FoldLeft(LAMBDA acc, f :
        IF ~acc.ok THEN acc
        ELSE LET e == Lookup(kv, f.key) IN
             IF e = <<>> THEN Fail
             ELSE LET r == Field(f, e[1]) IN IF r.ok THEN Got(Append(acc.x, r.x)) ELSE Fail,
        Got(<<>>), fields)
=============================================================================
