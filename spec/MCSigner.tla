------------------------------ MODULE MCSigner ------------------------------
(***************************************************************************)
(* Signing and verifying with symbolic cryptography: hashes and signatures *)
(* are free terms, so different contents never collide and nobody signs    *)
(* without the key. Behaviours: a transaction is made, then signed through *)
(* sessions, handed over, changed, restored (C15 to C18). Ghost variables  *)
(* record who signed what; the invariants say what verification means.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Emit
CONSTANTS Setup,        \* which transactions to start from
          Allowed,      \* operations
          MaxOps,       \* per behaviour
          MaxTampers,   \* changes outside sessions
          MaxExtra,     \* fields beyond the number of keys
          Ends          \* write down only refusals and what ends outside a session

-----------------------------------------------------------------------------
(* The free algebra. All terms are tuples, of different lengths or heads.  *)

Key(i) == << "key", i >>
NoSig == <<>>
Sig(pk, m) == << "sig", pk, m >>
Flip(s) == << "sig", "flipped", s, 0 >>
TermTx(tx) == << "tx", tx >>
TermPre(h, t, f, n) == << "pre", h, t, f, n >>
TermPost(m, s) == << "post", m, s >>
TermRecover(m, s) == IF s = NoSig THEN <<>>
                     ELSE IF Len(s) = 3 THEN IF s[3] = m THEN s[2] ELSE << "odd", m, s >>
                     ELSE << "odd", m, s >>
TermOne(mode, pk) == << "one", mode, pk >>
TermMulti(mode, req, pks) == << "multi", mode, req, pks >>
Empty == [mode |-> 0, signer |-> << "zero" >>, nonce |-> 0, fee |-> 0, sig |-> NoSig]

S == INSTANCE Signing WITH
    Zero <- 0, ZeroSig <- NoSig, NoKey <- <<>>, DefaultSponsor <- Empty,
    TxHash <- TermTx, Presign <- TermPre, Postsign <- TermPost, Recover <- TermRecover,
    SingleHash <- TermOne, MultiHash <- TermMulti

-----------------------------------------------------------------------------
(* Descriptions of transactions, as the harness takes them.                *)

Sk(i) == [j \in 1..32 |-> IF j = 32 THEN i ELSE IF j = 1 THEN 7 ELSE 0]
Num(x) == << 0, 0, 0, 0, 0, 0, x \div 256, x % 256 >>
SpAddr == << 83, 80, 51, 70, 66, 82, 50, 65, 71, 75, 53, 72, 57, 81, 66, 68, 72, 51, 69, 69, 78, 54, 68, 70, 56, 69,
             75, 56, 74, 89, 55, 82, 88, 56, 81, 74, 53, 83, 86, 84, 69 >>
\* contents by number; each differs from the first in one field
Pay(i) == CASE i = 1 -> [t |-> "transfer", to |-> [t |-> "std", a |-> SpAddr], amount |-> Num(300), memo |-> << 104, 105 >>]
            [] i = 2 -> [t |-> "transfer", to |-> [t |-> "std", a |-> SpAddr], amount |-> Num(301), memo |-> << 104, 105 >>]
            [] i = 3 -> [t |-> "transfer", to |-> [t |-> "std", a |-> SpAddr], amount |-> Num(300), memo |-> << 104, 106 >>]
            [] i = 4 -> [t |-> "call", ver |-> 22, hash |-> [j \in 1..20 |-> j], contract |-> << 99 >>, fn |-> << 102 >>,
                         args |-> << [t |-> "true"] >>]
            [] i = 5 -> [t |-> "call", ver |-> 22, hash |-> [j \in 1..20 |-> j], contract |-> << 99 >>, fn |-> << 102 >>,
                         args |-> << [t |-> "false"] >>]
Pcs(i) == CASE i = 1 -> <<>>
            [] i = 2 -> << [t |-> "stx", who |-> [t |-> "std", a |-> SpAddr], code |-> 1, amount |-> Num(9)] >>
            [] i = 3 -> << [t |-> "stx", who |-> [t |-> "std", a |-> SpAddr], code |-> 2, amount |-> Num(9)] >>
Chain(i) == IF i = 1 THEN << 0, 0, 0, 1 >> ELSE << 128, 0, 0, 0 >>

One(mode, k) == [k |-> "one", mode |-> mode, keys |-> << k >>, req |-> 1]
Multi(mode, req, ks) == [k |-> "multi", mode |-> mode, keys |-> ks, req |-> req]
None == [k |-> "def", mode |-> 0, keys |-> <<>>, req |-> 1]

\* abstract condition and the harness's description of it
Cond(c, fee, nonce) ==
    CASE c.k = "def" -> Empty
      [] c.k = "one" -> [mode |-> c.mode, signer |-> TermOne(c.mode, Key(c.keys[1])), nonce |-> nonce, fee |-> fee, sig |-> NoSig]
      [] OTHER -> [mode |-> c.mode, signer |-> TermMulti(c.mode, c.req, [i \in 1..Len(c.keys) |-> Key(c.keys[i])]),
                   nonce |-> nonce, fee |-> fee, fields |-> <<>>, req |-> c.req]
Descr(c, fee, nonce) ==
    CASE c.k = "def" -> [k |-> "def"]
      [] c.k = "one" -> [k |-> "one", mode |-> c.mode, key |-> Sk(c.keys[1]), fee |-> Num(fee), nonce |-> Num(nonce)]
      [] OTHER -> [k |-> "multi", mode |-> c.mode, req |-> c.req, keys |-> [i \in 1..Len(c.keys) |-> Sk(c.keys[i])],
                   fee |-> Num(fee), nonce |-> Num(nonce)]

Start(kind, o, s, pay) ==
    [tx |-> [version |-> 0, chain |-> 1, kind |-> kind, origin |-> Cond(o, 5, 9),
             sponsor |-> IF kind = "spon" THEN Cond(s, 6, 2) ELSE Empty, anchor |-> 1, pcmode |-> 1, pcs |-> 1, payload |-> pay],
     o |-> o,
     call |-> [op |-> "tx.make", d |-> [version |-> 0, chain |-> Chain(1), kind |-> kind, origin |-> Descr(o, 5, 9),
                 sponsor |-> IF kind = "spon" THEN Descr(s, 6, 2) ELSE [k |-> "def"], anchor |-> 1, pcmode |-> 1, pcs |-> Pcs(1),
                 payload |-> Pay(pay)]]]

Starts ==
    CASE Setup = "single" -> {Start("std", One(m, 1), None, p) : m \in {0, 2}, p \in {1, 4}}
      [] Setup = "owner"  -> {Start("std", One(m, 1), None, 1) : m \in {0, 2}} \cup
                             {Start("std", Multi(1, 2, << 1, 2 >>), None, 4), Start("spon", One(0, 1), None, 1)}
      [] Setup = "owners" -> {Start(k, o, None, 1) : k \in {"std", "spon"},
                                o \in {One(0, 1), One(2, 1), Multi(1, 2, << 1, 2 >>), Multi(3, 1, << 2, 1 >>)}}
      [] Setup = "multi"  -> {Start("std", Multi(m, r, << 1, 2 >>), None, 1) : m \in {1, 3}, r \in {1, 2}} \cup
                             {Start("std", Multi(1, 2, << 1, 2, 3 >>), None, 1)}
      [] Setup = "multi3" -> {Start("std", Multi(m, r, << 1, 2, 3 >>), None, 1) : m \in {1, 3}, r \in {1, 2, 3}} \cup
                             {Start("std", Multi(1, 2, << 2, 1 >>), None, 1), Start("spon", Multi(1, 2, << 1, 2 >>), None, 1),
                              Start("std", Multi(1, 2, << 1, 1 >>), None, 1), Start("std", Multi(3, 1, << 1 >>), None, 1)}
      [] Setup = "handed" -> {Start(k, o, None, 1) : k \in {"std", "spon"}, o \in {One(0, 1), Multi(1, 1, << 1, 2 >>)}}
      [] Setup = "session" -> {Start(k, o, One(0, 3), 1) : k \in {"std", "spon"}, o \in {One(0, 1), Multi(1, 1, << 1, 2 >>)}}

-----------------------------------------------------------------------------
VARIABLES tx, sess,      \* the transaction; << session >> or <<>>
          saved,         \* << a copy >> or <<>>
          owner,         \* the origin's description
          did,           \* ghost: what was added to the origin, in order: << "s" or "k", key >>
          signed,        \* ghost: << role, key, content >> of every signature ever made
          tampers, n,
          hist
vars == << tx, sess, saved, owner, did, signed, tampers, n, hist >>
View == << tx, sess, saved, did, tampers >>

\* what a signature commits to: everything but the signatures and the other party's later part
\* (public keys among the fields are not part of the chain)
SigsOf(c) == IF S!IsMulti(c) THEN SelectSeq(c.fields, LAMBDA f : f.t = "sig") ELSE << c.sig >>
Content(t, role) == << S!Clear(t), IF role = "o" THEN << t.origin.fee, t.origin.nonce >>
                                   ELSE << SigsOf(t.origin), t.origin.fee, t.origin.nonce, t.sponsor.fee, t.sponsor.nonce >> >>

\* the intended course: the origin's keys sign in order, then a sponsor; the result is saved
Course(s) ==
    LET open == S!StartOrigin(s.tx).x
        add(acc, k) == [x |-> S!SignOrigin(acc.x, Sig(Key(k), S!OriginMessage(acc.x))).x,
                        g |-> acc.g \cup {<< "o", k, Content(acc.x.tx, "o") >>}]
        ks   == SubSeq(s.o.keys, 1, s.o.req)
        rest == SubSeq(s.o.keys, s.o.req + 1, Len(s.o.keys))
        a    == FoldLeft(add, [x |-> open, g |-> {}], ks)
        b    == FoldLeft(LAMBDA x, k : S!AppendOrigin(x, Key(k)).x, a.x, rest)
        c    == S!StartSponsor(b.tx, Cond(One(0, 3), 6, 2)).x
        d    == S!SignSponsor(c, Sig(Key(3), S!SponsorMessage(c))).x
        spon == s.tx.kind = "spon" /\ Setup # "handed"
    IN  [tx |-> IF spon THEN d.tx ELSE b.tx,
         did |-> [i \in 1..Len(s.o.keys) |-> << IF i <= s.o.req THEN "s" ELSE "k", s.o.keys[i] >>],
         signed |-> a.g \cup (IF spon THEN {<< "s", 3, Content(c.tx, "s") >>} ELSE {}),
         hist |-> << s.call, [op |-> "sg.new"] >>
            \o [i \in 1..Len(s.o.keys) |-> [op |-> IF i <= s.o.req THEN "sg.origin" ELSE "sg.append", key |-> Sk(s.o.keys[i])]]
            \o << [op |-> "sg.take"] >>
            \o (IF spon THEN << [op |-> "sg.sponsor", c |-> Descr(One(0, 3), 6, 2)], [op |-> "sg.second", key |-> Sk(3)], [op |-> "sg.take"] >>
                ELSE <<>>)
            \o << [op |-> "tx.save"] >>]

Init == \E s \in Starts :
    /\ owner = s.o /\ sess = <<>> /\ tampers = 0 /\ n = 0
    /\ \/ /\ Setup \notin {"owner", "owners", "handed"}
          /\ tx = s.tx /\ hist = << s.call >> /\ saved = <<>> /\ did = <<>> /\ signed = {}
       \/ /\ Setup \in {"owner", "owners", "handed"}
          /\ LET c == Course(s) IN tx = c.tx /\ hist = c.hist /\ saved = << c.tx >> /\ did = c.did /\ signed = c.signed

Step(call) == n' = n + 1 /\ hist' = Append(hist, call)
Keep(vs) == UNCHANGED vs
KeysOf == {owner.keys[i] : i \in 1..Len(owner.keys)}
Foreign == 4
SponsorKeys == {3}

New == /\ "new" \in Allowed /\ sess = <<>>
       /\ LET r == S!StartOrigin(tx) IN sess' = IF r.ok THEN << r.x >> ELSE <<>>
       /\ Step([op |-> "sg.new"]) /\ Keep(<< tx, saved, owner, did, signed, tampers >>)
StartSponsor(c) ==
       /\ "sponsor" \in Allowed /\ sess = <<>>
       /\ LET r == S!StartSponsor(tx, Cond(c, 6, 2)) IN sess' = IF r.ok THEN << r.x >> ELSE <<>>
       /\ Step([op |-> "sg.sponsor", c |-> Descr(c, 6, 2)]) /\ Keep(<< tx, saved, owner, did, signed, tampers >>)
SignOrigin(k) ==
       /\ sess # <<>>
       /\ LET r == S!SignOrigin(sess[1], Sig(Key(k), S!OriginMessage(sess[1]))) IN
          IF r.ok THEN /\ sess' = << r.x >> /\ did' = Append(did, << "s", k >>)
                       /\ signed' = signed \cup {<< "o", k, Content(sess[1].tx, "o") >>}
          ELSE Keep(<< sess, did, signed >>)
       /\ Step([op |-> "sg.origin", key |-> Sk(k)]) /\ Keep(<< tx, saved, owner, tampers >>)
SignSponsor(k) ==
       /\ "second" \in Allowed /\ sess # <<>>
       /\ LET r == S!SignSponsor(sess[1], Sig(Key(k), S!SponsorMessage(sess[1]))) IN
          IF r.ok THEN /\ sess' = << r.x >>
                       /\ signed' = signed \cup {<< "s", k, Content(sess[1].tx, "s") >>}
          ELSE Keep(<< sess, signed >>)
       /\ Step([op |-> "sg.second", key |-> Sk(k)]) /\ Keep(<< tx, saved, owner, did, tampers >>)
AppendKey(k) ==
       /\ "append" \in Allowed /\ sess # <<>>
       /\ LET r == S!AppendOrigin(sess[1], Key(k)) IN
          IF r.ok THEN sess' = << r.x >> /\ did' = Append(did, << "k", k >>) ELSE Keep(<< sess, did >>)
       /\ Step([op |-> "sg.append", key |-> Sk(k)]) /\ Keep(<< tx, saved, owner, signed, tampers >>)
Flags(a, b) ==
       /\ "flags" \in Allowed /\ sess # <<>>
       /\ sess' = << [sess[1] EXCEPT !.oversign = a, !.overlap = b] >>
       /\ Step([op |-> "sg.flags", oversign |-> a, overlap |-> b]) /\ Keep(<< tx, saved, owner, did, signed, tampers >>)
Take == /\ sess # <<>> /\ tx' = sess[1].tx /\ sess' = <<>>
        /\ Step([op |-> "sg.take"]) /\ Keep(<< saved, owner, did, signed, tampers >>)
SignTx(k) ==
       /\ "sign" \in Allowed /\ sess = <<>>
       /\ LET s == S!StartOrigin(tx)
              r == IF s.ok THEN S!SignOrigin(s.x, Sig(Key(k), S!OriginMessage(s.x))) ELSE s
          IN  IF r.ok THEN /\ tx' = r.x.tx /\ did' = Append(did, << "s", k >>)
                           /\ signed' = signed \cup {<< "o", k, Content(tx, "o") >>}
              ELSE Keep(<< tx, did, signed >>)
       /\ Step([op |-> "tx.sign", key |-> Sk(k)]) /\ Keep(<< sess, saved, owner, tampers >>)

\* changes from outside
Fields == {"version", "chain", "anchor", "pcmode", "pcs", "payload"}
Values(f) == CASE f = "version" -> {0, 128} [] f = "chain" -> {1, 2} [] f = "anchor" -> {1, 2, 3} [] f = "pcmode" -> {1, 2}
               [] f = "pcs" -> {1, 2, 3} [] f = "payload" -> {1, 2, 3, 4, 5}
Concrete(f, x) == CASE f = "chain" -> Chain(x) [] f = "pcs" -> Pcs(x) [] f = "payload" -> Pay(x) [] OTHER -> x
Set(t, f, x) == CASE f = "version" -> [t EXCEPT !.version = x] [] f = "chain" -> [t EXCEPT !.chain = x]
                  [] f = "anchor" -> [t EXCEPT !.anchor = x] [] f = "pcmode" -> [t EXCEPT !.pcmode = x]
                  [] f = "pcs" -> [t EXCEPT !.pcs = x] [] f = "payload" -> [t EXCEPT !.payload = x]
Tampering == sess = <<>> /\ tampers < MaxTampers /\ tampers' = tampers + 1 /\ Keep(<< sess, saved, owner, did, signed >>)
Edit == /\ "edit" \in Allowed /\ Tampering
        /\ \E f \in Fields : \E x \in Values(f) : /\ tx' = Set(tx, f, x)
                                                  /\ Step([op |-> "tx.field", f |-> f, x |-> Concrete(f, x)])
Money == /\ "money" \in Allowed /\ Tampering
         /\ \E x \in {5, 9, 261} :
              \/ tx' = [tx EXCEPT !.origin.fee = x] /\ Step([op |-> "tx.fee", x |-> Num(x)])
              \/ tx' = [tx EXCEPT !.origin.nonce = x] /\ Step([op |-> "tx.nonce", x |-> Num(x)])
              \/ tx.kind = "spon" /\ tx' = [tx EXCEPT !.sponsor.fee = x] /\ Step([op |-> "tx.field", f |-> "sfee", x |-> Num(x)])
              \/ tx.kind = "spon" /\ tx' = [tx EXCEPT !.sponsor.nonce = x] /\ Step([op |-> "tx.field", f |-> "snonce", x |-> Num(x)])
\* one bit of the first signature
FirstSig(c) == SelectInSeq(c.fields, LAMBDA f : f.t = "sig")
FlipCond(c) == IF S!IsMulti(c) THEN [c EXCEPT !.fields[FirstSig(c)].b = Flip(@)] ELSE [c EXCEPT !.sig = Flip(@)]
FlipSig == /\ "flip" \in Allowed /\ Tampering
           /\ \E who \in {"origin", "sponsor"}, byte \in {1, 2, 40} :
                LET c == IF who = "origin" THEN tx.origin ELSE tx.sponsor IN
                /\ who = "sponsor" => tx.kind = "spon"
                /\ S!Sigs(c) > 0
                /\ IF S!IsMulti(c) THEN Len(c.fields[FirstSig(c)].b) = 3 ELSE Len(c.sig) = 3
                /\ tx' = IF who = "origin" THEN [tx EXCEPT !.origin = FlipCond(@)] ELSE [tx EXCEPT !.sponsor = FlipCond(@)]
                /\ Step([op |-> "tx.flip", who |-> who, i |-> 0, byte |-> byte, bit |-> 1])
\* the same signatures under another owner, mode or required count
Owners == LET o == owner IN
    {[o EXCEPT !.mode = 2 - @] : x \in {1}} \cup {[o EXCEPT !.keys = [@ EXCEPT ![1] = Foreign]] : x \in {1}} \cup
    (IF o.k = "multi" THEN {[o EXCEPT !.mode = 4 - o.mode], [o EXCEPT !.keys = Reverse(@)], [o EXCEPT !.req = 1 + (@ % Len(o.keys))]} ELSE {})
Realistic(o) == IF o.k = "one" THEN o.mode \in {0, 2} ELSE o.mode \in {1, 3}
NewOwner == /\ "owner" \in Allowed /\ Tampering
            /\ \E o \in {x \in Owners : Realistic(x)} :
                 LET c == Cond(o, tx.origin.fee, tx.origin.nonce) IN
                 /\ tx' = [tx EXCEPT !.origin = IF S!IsMulti(c) THEN [c EXCEPT !.fields = tx.origin.fields]
                                                ELSE [c EXCEPT !.sig = tx.origin.sig],
                                     !.sponsor = IF tx.kind = "spon" THEN [Cond(One(0, 3), tx.sponsor.fee, tx.sponsor.nonce) EXCEPT !.sig = tx.sponsor.sig] ELSE @]
                 /\ tx.kind = "spon" => tx.sponsor.mode = 0
                 /\ LET d == Descr(o, 0, 0)
                        strip(r) == IF o.k = "one" THEN [k |-> "one", mode |-> o.mode, key |-> Sk(o.keys[1])]
                                    ELSE [k |-> "multi", mode |-> o.mode, req |-> o.req, keys |-> d.keys]
                    IN  Step([op |-> "tx.auth", kind |-> tx.kind, origin |-> [c |-> strip(d)],
                              sponsor |-> [c |-> IF tx.kind = "spon" THEN [k |-> "one", mode |-> 0, key |-> Sk(3)] ELSE [k |-> "def"]]])
\* a modification made directly on a condition: a signature nobody made, an empty one, a key
Modify == /\ "modify" \in Allowed /\ Tampering
          /\ \E who \in {"origin", "sponsor"}, cmd \in {"sig", "addsig", "key", "addkey"}, x \in {1, 2} :
               LET key  == cmd \in {"key", "addkey"}
                   term == IF key THEN Key(x) ELSE IF x = 1 THEN NoSig ELSE << "sig", "stray", 0, 0 >>
                   byte == IF x = 1 THEN 0 ELSE 17
                   r    == S!Modify(tx, who, cmd, term)
               IN  /\ tx' = IF r.ok THEN r.x ELSE tx
                   /\ Step([op |-> "tx.modify", who |-> who, cmd |-> cmd,
                            x |-> IF key THEN Sk(x) ELSE [j \in 1..65 |-> IF j = 1 THEN 0 ELSE byte]])
Reset == /\ "reset" \in Allowed /\ Tampering /\ tx' = S!Clear(tx) /\ Step([op |-> "tx.reset"])
SetSponsor == /\ "setsponsor" \in Allowed /\ Tampering
              /\ tx' = IF tx.kind = "spon" THEN [tx EXCEPT !.sponsor = Cond(One(2, 3), 7, 3)] ELSE tx
              /\ Step([op |-> "tx.sponsor", c |-> Descr(One(2, 3), 7, 3)])
Load == /\ "save" \in Allowed /\ sess = <<>> /\ saved # <<>> /\ tx' = saved[1]
        /\ Step([op |-> "tx.load"]) /\ Keep(<< sess, saved, owner, did, signed, tampers >>)

Ops ==
    \/ New \/ Take \/ Edit \/ Money \/ FlipSig \/ NewOwner \/ Modify \/ Reset \/ SetSponsor \/ Load
    \/ "foreign" \in Allowed /\ (SignOrigin(Foreign) \/ AppendKey(Foreign))
    \/ \E k \in KeysOf : SignOrigin(k) \/ AppendKey(k)
    \/ \E k \in {1, Foreign} : SignTx(k)
    \/ \E c \in {One(0, 3), Multi(1, 2, << 3, 5 >>)} : (c.k = "multi" => "multisponsor" \in Allowed) /\ StartSponsor(c)
    \/ \E k \in SponsorKeys \cup (IF "multisponsor" \in Allowed THEN {5} ELSE {}) : SignSponsor(k)
    \/ \E a, b \in BOOLEAN : Flags(a, b)
Next == n < MaxOps /\ Ops /\ Len(did') <= Len(owner.keys) + MaxExtra
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What verification means.                                                *)

Cur == IF sess = <<>> THEN tx ELSE sess[1].tx
OriginOk == S!VerifyOrigin(Cur, S!InitHash(Cur)).ok
AllOk == S!Verify(Cur).ok

\* C16: only content that the owner signed verifies: for every required key there is a
\* signature by it, made when the content was what it is now
OwnerOf(c) == IF c.signer[1] = "one" THEN << c.signer[3] >> ELSE IF c.signer[1] = "multi" THEN c.signer[4] ELSE <<>>
Signers(role, content) == {s[2] : s \in {x \in signed : x[1] = role /\ x[3] = content}}
OnlyOwner ==
    /\ OriginOk => LET ks == {OwnerOf(Cur.origin)[i] : i \in 1..Len(OwnerOf(Cur.origin))}
                   IN  Cardinality({k \in ks : k[2] \in Signers("o", Content(Cur, "o"))}) >=
                       (IF Cardinality(ks) = Len(OwnerOf(Cur.origin)) THEN S!Required(Cur.origin) ELSE 1)
    /\ AllOk /\ Cur.kind = "spon" =>
           \E k \in 1..9 : Key(k) \in {OwnerOf(Cur.sponsor)[i] : i \in 1..Len(OwnerOf(Cur.sponsor))} /\
                           << "s", k, Content(Cur, "s") >> \in signed

\* C15: the owner's signature over unchanged content verifies
\* (with the guards lifted a session can chain the origin's signature after others)
Unlifted == \A i \in 1..Len(hist) : hist[i].op # "sg.flags"
SingleWorks == tampers = 0 /\ ~S!IsMulti(Cur.origin) /\ Len(did) = 1 /\ Unlifted => (OriginOk <=> did[Len(did)] = << "s", owner.keys[1] >>)

\* C17: exactly the key set in order, with enough signatures
RightDid == /\ [i \in 1..Len(did) |-> did[i][2]] = owner.keys
            /\ Cardinality({i \in 1..Len(did) : did[i][1] = "s"}) >= owner.req
MultiWorks == tampers = 0 /\ S!IsMulti(Cur.origin) /\ Unlifted => (OriginOk <=> RightDid)

\* C18: the guards, as long as they are on
Guards == [][sess # <<>> /\ sess' # <<>> =>
    LET a == sess[1]
        b == sess'[1]
    IN  /\ a.oversign /\ S!Sigs(b.tx.origin) > S!Sigs(a.tx.origin) => S!Sigs(b.tx.origin) <= S!Required(b.tx.origin)
        /\ a.oversign /\ S!Sigs(b.tx.sponsor) > S!Sigs(a.tx.sponsor) => S!Sigs(b.tx.sponsor) <= S!Required(b.tx.sponsor)
        /\ a.overlap /\ a.closed => b.tx.origin = a.tx.origin
        /\ a.closed => b.closed
        /\ a.tx.kind = "std" => b.tx.sponsor = a.tx.sponsor
        /\ ~S!IsMulti(a.tx.origin) => ~S!IsMulti(b.tx.origin)
        \* nothing but signatures ever changes in a session, and a step without effect has none
        /\ S!Clear(b.tx) = S!Clear(a.tx) /\ b.tx.origin.fee = a.tx.origin.fee /\ b.tx.origin.nonce = a.tx.origin.nonce
        /\ a.oversign /\ b.tx = a.tx => b.hash = a.hash /\ b.closed = a.closed]_vars
\* a sponsor session begins only on a verified origin and leaves it alone
SponsorStart == [][sess = <<>> /\ sess' # <<>> /\ sess'[1].closed =>
    /\ tx.kind = "spon" /\ S!VerifyOrigin(tx, S!InitHash(tx)).ok
    /\ [sess'[1].tx EXCEPT !.sponsor = tx.sponsor] = tx]_vars

\* every explored step, followed by a verification whose symbolic outcome is known
Verdict(t) == [op |-> "tx.verify", sym |-> S!Verify(t).ok, symo |-> S!VerifyOrigin(t, S!InitHash(t)).ok]
Worth == Ends => hist'[Len(hist')].op \in {"sg.take", "sg.sponsor", "tx.load"} \/ << tx, sess >> = << tx', sess' >> \/ n' = MaxOps
EmitStep == Worth => Write(hist' \o (IF sess' = <<>> THEN << Verdict(tx') >> ELSE << [op |-> "sg.take"], Verdict(sess'[1].tx) >>))
=============================================================================
