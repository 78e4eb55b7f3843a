------------------------------ MODULE MCWallet ------------------------------
(***************************************************************************)
(* Histories of wallet operations (C19), with free terms for derivation:   *)
(* account i of root r is << r, i >>. Beside the wallets the model keeps   *)
(* the user's view: which indexes hold an account stored by the user.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Emit, TLC
CONSTANTS MaxOps, MaxSlots, Indexes

Term(r, i) == << r, i >>
C == INSTANCE WalletCache WITH DeriveAccount <- Term

VARIABLES w, stored, hist
vars == << w, stored, hist >>
n == Len(hist)
View == << w, stored, n >>
Slots == 1..MaxSlots

\* "abandon" x 11 "about", and "zoo" x 11 "wrong"
Abandon == << 97,98,97,110,100,111,110,32 >>
Zoo == << 122,111,111,32 >>
Phrase(r) == IF r = 1
    THEN Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o Abandon \o << 97,98,111,117,116 >>
    ELSE Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o Zoo \o << 119,114,111,110,103 >>
BadPhrase == Zoo \o Zoo \o Abandon
Idx(i) == << i[1], i[2], i[3], i[4] >>

Init == w = [s \in Slots |-> <<>>] /\ stored = [s \in Slots |-> <<>>] /\ hist = <<>>
Step(c) == hist' = Append(hist, c)
New(s, r) == /\ w' = [w EXCEPT ![s] = << C!Wallet(r) >>] /\ stored' = [stored EXCEPT ![s] = <<>>]
             /\ Step([op |-> "w.new", slot |-> s, phrase |-> Phrase(r)])
NewBad(s) == /\ w' = [w EXCEPT ![s] = <<>>] /\ stored' = [stored EXCEPT ![s] = <<>>]
             /\ Step([op |-> "w.new", slot |-> s, phrase |-> BadPhrase])
Get(s, i) == /\ w[s] # <<>>
             /\ w' = [w EXCEPT ![s] = << C!AfterGet(@[1], i) >>] /\ UNCHANGED stored
             /\ Step([op |-> "w.get", slot |-> s, i |-> Idx(i)])
Copy(s, t) == /\ s # t /\ w[s] # <<>>
              /\ w' = [w EXCEPT ![t] = w[s]] /\ stored' = [stored EXCEPT ![t] = stored[s]]
              /\ Step([op |-> "w.copy", slot |-> s, to |-> t])
\* take account i of slot s and store it as account j of slot t
Set(s, i, t, j) ==
    /\ w[s] # <<>> /\ w[t] # <<>>
    /\ LET a == C!AccountOf(w[s][1], i)
           m == [w EXCEPT ![s] = << C!AfterGet(@[1], i) >>]
       IN  /\ w' = [m EXCEPT ![t] = << C!StoreAccount(@[1], j, a) >>]
           /\ stored' = [stored EXCEPT ![t] = (j :> a) @@ @]
    /\ Step([op |-> "w.set", slot |-> s, i |-> Idx(i), to |-> t, j |-> Idx(j)])
Ops == \E s \in Slots :
    \/ \E r \in {1, 2} : New(s, r)
    \/ NewBad(s)
    \/ \E i \in Indexes : Get(s, i)
    \/ \E t \in Slots : Copy(s, t) \/ \E i, j \in Indexes : Set(s, i, t, j)
Next == n < MaxOps /\ (n = 0 => \E r \in {1, 2} : New(1, r)) /\ Ops
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the user sees is the stored account or the derived one, whatever was asked before
Same == \A s \in Slots : w[s] # <<>> => \A i \in Indexes :
    C!AccountOf(w[s][1], i) = IF i \in DOMAIN stored[s] THEN stored[s][i] ELSE Term(w[s][1].root, i)
\* asking changes no answer
Asking == [][\A s \in Slots : hist'[Len(hist')].op = "w.get" /\ w[s] # <<>> =>
    \A i \in Indexes : C!AccountOf(w'[s][1], i) = C!AccountOf(w[s][1], i)]_vars
EmitStep == Write(hist')
Idx0 == << 0, 0, 0, 0 >>
Idx1 == << 0, 0, 0, 1 >>
IdxM == << 127, 255, 255, 255 >>
IdxFew == {Idx0, Idx1}
IdxMore == {Idx0, Idx1, IdxM}
=============================================================================
