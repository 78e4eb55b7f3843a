---------------------------- MODULE WalletCache -----------------------------
(* A wallet: a root and the accounts it remembers, [root, known], known    *)
(* being a sequence of [i, a] in the order they were first asked for.      *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT DeriveAccount(_, _)        \* root, index

Wallet(root) == [root |-> root, known |-> <<>>]

LOCAL At(w, i) == SelectInSeq(w.known, LAMBDA e : e.i = i)

AccountOf(w, i) == IF At(w, i) = 0 THEN DeriveAccount(w.root, i) ELSE w.known[At(w, i)].a
StoreAccount(w, i, a) ==
    IF At(w, i) = 0 THEN [w EXCEPT !.known = Append(@, [i |-> i, a |-> a])]
    ELSE [w EXCEPT !.known[At(w, i)].a = a]
\* asking for an account remembers it
AfterGet(w, i) == StoreAccount(w, i, AccountOf(w, i))
=============================================================================
