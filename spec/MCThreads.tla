----------------------------- MODULE MCThreads ------------------------------
(***************************************************************************)
(* Threads that use the library at the same time (C24), each with objects  *)
(* of its own: tuples, wallets, texts. A step lets a set of threads make   *)
(* their next calls together, so that the explored schedules are all ways  *)
(* in which calls come one after the other or overlap. Whatever the        *)
(* schedule, each thread gets the answers that its program gets alone.     *)
(***************************************************************************)
EXTENDS TupleMap, Hex, C32, Emit, TLC, FiniteSets
CONSTANTS Threads, Length, Programs

Term(r, i) == << r, i >>
W == INSTANCE WalletCache WITH DeriveAccount <- Term

-----------------------------------------------------------------------------
(* The programs: sequences of calls.                                       *)
I(n) == [t |-> "uint", v |-> [i \in 1..16 |-> IF i = 16 THEN n ELSE 0]]
A == << 97 >>
B == << 98 >>
Probes == << A, B >>
At(n) == << 0, 0, 0, n >>
Abandon == << 97,98,97,110,100,111,110,32 >>
Zoo == << 122,111,111,32 >>
Times11(w) == w \o w \o w \o w \o w \o w \o w \o w \o w \o w \o w
Phrase(r) == IF r = 1 THEN Times11(Abandon) \o << 97,98,111,117,116 >> ELSE Times11(Zoo) \o << 119,114,111,110,103 >>

TupNew(n) == [op |-> "tup.new", slot |-> 1, kv |-> << [k |-> A, x |-> I(n)] >>, probes |-> Probes]
TupIns(k, n) == [op |-> "tup.ins", slot |-> 1, k |-> k, x |-> I(n), probes |-> Probes]
TupRem(k) == [op |-> "tup.rem", slot |-> 1, k |-> k, probes |-> Probes]
TupGet(k) == [op |-> "tup.get", slot |-> 1, k |-> k, probes |-> Probes]
WNew(r) == [op |-> "w.new", slot |-> 1, phrase |-> Phrase(r)]
WGet(n) == [op |-> "w.get", slot |-> 1, i |-> At(n)]
WSet(n, m) == [op |-> "w.set", slot |-> 1, i |-> At(n), to |-> 1, j |-> At(m)]
HexEnc(b) == [op |-> "hex.enc", b |-> b]
HexDec(s) == [op |-> "hex.dec", s |-> s]
C32Enc(b) == [op |-> "c32.enc", b |-> b]
C32Dec(s) == [op |-> "c32.dec", s |-> s]

Program(i) ==
    CASE i = 1 -> << TupNew(1), TupIns(A, 2), TupRem(A), TupGet(A) >>
      [] i = 2 -> << TupNew(7), TupIns(B, 9), TupGet(A), TupGet(B) >>
      [] i = 3 -> << WNew(1), WGet(0), WSet(1, 0), WGet(0) >>
      [] i = 4 -> << WNew(2), WGet(0), WGet(1), WGet(0) >>
      [] i = 5 -> << HexEnc(<< 1, 255 >>), HexDec(<< 48, 103 >>), HexDec(<< 70, 102 >>), HexEnc(<<>>) >>
      [] i = 6 -> << C32Enc(<< 0, 9, 255 >>), C32Dec(<< 90, 33 >>), C32Dec(<< 65, 90 >>), C32Enc(<< 9 >>) >>
      [] i = 7 -> << HexDec(<< 48, 48, 122 >>), HexEnc(<< 16 >>), C32Dec(<< 48, 90, 90 >>), HexDec(<< 97, 98 >>) >>

-----------------------------------------------------------------------------
(* What a call does to the objects of its thread, and what it answers.     *)
Fresh == [tup |-> <<>>, wal |-> <<>>]
Do(s, c) ==
    CASE c.op = "tup.new" -> [s |-> [s EXCEPT !.tup = c.kv], a |-> << >>]
      [] c.op = "tup.ins" -> [s |-> [s EXCEPT !.tup = Put(@, c.k, c.x)], a |-> << >>]
      [] c.op = "tup.rem" -> [s |-> [s EXCEPT !.tup = Drop(@, c.k)], a |-> Lookup(s.tup, c.k)]
      [] c.op = "tup.get" -> [s |-> s, a |-> Lookup(s.tup, c.k)]
      [] c.op = "w.new" -> [s |-> [s EXCEPT !.wal = << W!Wallet(c.phrase) >>], a |-> << >>]
      [] c.op = "w.get" -> [s |-> [s EXCEPT !.wal = << W!AfterGet(@[1], c.i) >>], a |-> W!AccountOf(s.wal[1], c.i)]
      [] c.op = "w.set" -> [s |-> [s EXCEPT !.wal = << W!StoreAccount(W!AfterGet(@[1], c.i), c.j, W!AccountOf(@[1], c.i)) >>], a |-> << >>]
      [] c.op = "hex.enc" -> [s |-> s, a |-> Got(ToHex(c.b))]
      [] c.op = "hex.dec" -> [s |-> s, a |-> FromHex(c.s)]
      [] c.op = "c32.enc" -> [s |-> s, a |-> Got(C32Encode(c.b))]
      [] c.op = "c32.dec" -> [s |-> s, a |-> C32Decode(c.s)]

VARIABLES prog, st, ans, hist, g
vars == << prog, st, ans, hist, g >>
View == vars        \* every schedule counts

T == 1..Threads
Init == /\ prog \in [T -> 1..Programs]
        /\ st = [t \in T |-> Fresh] /\ ans = [t \in T |-> <<>>] /\ hist = <<>> /\ g = 0
Left(t) == Len(ans[t]) < Length
CallOf(t) == Program(prog[t])[Len(ans[t]) + 1]
RECURSIVE Logged(_, _)
Logged(S, h) == IF S = {} THEN h
                ELSE LET t == CHOOSE t \in S : \A u \in S : t <= u IN Logged(S \ {t}, Append(h, CallOf(t) @@ [th |-> t, g |-> g + 1]))
Together(S) ==
    /\ S # {} /\ \A t \in S : Left(t)
    /\ st' = [t \in T |-> IF t \in S THEN Do(st[t], CallOf(t)).s ELSE st[t]]
    /\ ans' = [t \in T |-> IF t \in S THEN Append(ans[t], Do(st[t], CallOf(t)).a) ELSE ans[t]]
    /\ hist' = Logged(S, hist) /\ g' = g + 1
    /\ UNCHANGED prog
Next == \E S \in SUBSET T : Together(S)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Answered(_, _, _)
Answered(p, k, s) == IF k > Length THEN <<>> ELSE << Do(s, p[k]).a >> \o Answered(p, k + 1, Do(s, p[k]).s)
\* every thread has the answers of a run alone
Alone == \A t \in T : ans[t] = SubSeq(Answered(Program(prog[t]), 1, Fresh), 1, Len(ans[t]))
\* a call changes objects of its own thread only
Own == [][\A t \in T : ans'[t] = ans[t] => st'[t] = st[t]]_vars
\* everything was answered at the end, and all schedules end there
Finished == (\A t \in T : ~Left(t)) => \A t \in T : Len(ans[t]) = Length
Done == \A t \in T : Len(ans'[t]) = Length
EmitStep == IF Done THEN Write(hist') ELSE TRUE
=============================================================================
