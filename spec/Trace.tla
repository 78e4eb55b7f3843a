------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation. The trace is what the real library was asked and what *)
(* it answered: one event per call, with the arguments in the event and    *)
(* the observations in its field r. An event conforms if the specification *)
(* allows exactly that answer in the state reached so far; the state then  *)
(* moves on as the specification says.                                     *)
(*                                                                         *)
(* An event with h = 1 begins a session (fresh state). Sessions are        *)
(* independent, so each begins in an initial state of its own and TLC      *)
(* validates them in parallel. Non-conforming events are reported as BAD;  *)
(* the rest of that session is then without meaning and is skipped unless  *)
(* the operation is stateless.                                             *)
(***************************************************************************)
EXTENDS Flow, B58, Derive, Schemas, TraceFile

Trace == Load(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, st, mode  \* events consumed; specification state of the session; fresh, on or lost

\* r answers an operation whose outcome should be exp (Got(x) or Fail)
Answers(r, exp) == IF exp.ok THEN r.o = "ok" /\ (IF r.o = "ok" THEN r.v = exp.x ELSE FALSE)
                   ELSE r.o = "err"

J(ok) == [ok |-> ok]

-----------------------------------------------------------------------------
(* Text codecs, hashes, keys.                                              *)

TextOps == {"hex.enc", "hex.dec", "c32.enc", "c32.dec", "c32c.enc", "c32c.dec", "addr.enc",
            "addr.dec", "b58.enc", "b58.dec", "b58c.enc", "b58c.dec"}
TextJudge(e) ==
    CASE e.op = "hex.enc"  -> Answers(e.r, Got(ToHex(e.b)))
      [] e.op = "hex.dec"  -> Answers(e.r, FromHex(e.s))
      [] e.op = "c32.enc"  -> Answers(e.r, Got(C32Encode(e.b)))
      [] e.op = "c32.dec"  -> Answers(e.r, C32Decode(e.s))
      [] e.op = "c32c.enc" -> Answers(e.r, C32CheckEncode(e.b, e.ver))
      [] e.op = "c32c.dec" -> Answers(e.r, C32CheckDecode(e.s))
      [] e.op = "addr.enc" -> Answers(e.r, Address(e.b, e.ver))
      [] e.op = "addr.dec" -> Answers(e.r, AddressDecode(e.s)) /\ Answers(e.r2, AddressDecode(e.s))
      [] e.op = "b58.enc"  -> Answers(e.r, Got(B58Encode(e.b)))
      [] e.op = "b58.dec"  -> Answers(e.r, B58Decode(e.s))
      [] e.op = "b58c.enc" -> Answers(e.r, Got(B58CheckEncode(e.b, e.ver)))
      [] e.op = "b58c.dec" -> Answers(e.r, B58CheckDecode(e.s))

HashOps == {"hash", "keyhash", "keyshash"}
Digest(alg, b) ==
    CASE alg = "sha256"  -> SHA256(b)
      [] alg = "dsha256" -> SHA256(SHA256(b))
      [] alg = "sha512t256" -> SHA512T256(b)
      [] alg = "hash160" -> Hash160(b)
\* a held byte string: every way to read it gives these bytes, every way to
\* print it their hexadecimal form
Held(v, d) == /\ v.d = d
              /\ \A i \in 1..Len(v.routes) : v.routes[i] = d
              /\ \A i \in 1..Len(v.hex) : v.hex[i] = ToHex(d)
HashJudge(e) ==
    CASE e.op = "hash" ->
            LET d == Digest(e.alg, e.b) IN
            e.r.o = "ok" /\ (IF e.r.o = "ok" THEN Held(e.r.v, d) /\ e.r.v.sum = Prefix(d, 4) ELSE FALSE)
      [] e.op = "keyhash"  -> Answers(e.r, Got(SingleKeyHash(e.mode, e.key)))
      [] e.op = "keyshash" -> Answers(e.r, Got(MultiKeyHash(e.mode, e.req, e.keys)))

-----------------------------------------------------------------------------
(* Clarity values.                                                         *)

\* the content of a representable value: its address by version and hash,
\* so that two spellings of one address have the same content
CvOps == {"cv.enc", "cv.dec", "cv.show", "cv.eq", "cv.clone", "cv.cast", "cv.own"}
CvJudge(e) ==
    CASE e.op = "cv.enc" ->
            LET x == Encode(e.v) IN
            /\ Answers(e.r.enc, x)
            /\ Answers(e.r.len, IF x.ok THEN Got(Len(x.x)) ELSE Fail)
            /\ Answers(e.r.empty, IF x.ok THEN Got(Len(x.x) = 0) ELSE Fail)
            /\ Answers(e.r.hex, IF x.ok THEN Got(ToHex(x.x)) ELSE Fail)
            /\ Answers(e.r.hexp, IF x.ok THEN Got(<< 48, 120 >> \o ToHex(x.x)) ELSE Fail)
      [] e.op = "cv.dec" ->
            LET x == DecodeAs(e.b, 0, e.as) IN
            /\ Answers(e.r, IF x.ok THEN Got(x.v) ELSE Fail)
            /\ x.ok => Answers(e.re, Got(Prefix(e.b, x.n)))
      [] e.op = "cv.show" -> Answers(e.r, Got(Display(e.v)))
      [] e.op = "cv.eq" ->
            /\ Answers(e.r.eq, Got(e.v = e.w))
            /\ Answers(e.r.rev, Got(e.v = e.w))
            /\ Answers(e.r.ne, Got(e.v # e.w))
            /\ Answers(e.r.refl, Got(TRUE))
      [] e.op = "cv.clone" ->
            /\ Answers(e.r.clone, Got(e.v))         \* the clone, before anything else
            /\ Answers(e.r.kept, Got(e.v))          \* the clone after the original was changed
            /\ Answers(e.r.eq, Got(TRUE))
      [] e.op = "cv.own" ->      \* taken out of the value by every route
            e.r.o = "ok" /\ (IF e.r.o = "ok" THEN \A i \in 1..Len(e.r.v) : e.r.v[i] = e.v ELSE FALSE)
      [] e.op = "cv.cast" ->
            LET x == IF e.inner THEN e.v.x ELSE e.v
                exp == IF x.t = e.to THEN Got(x) ELSE Fail
            IN  Answers(e.r.own, exp) /\ Answers(e.r.ref, exp)

-----------------------------------------------------------------------------
(* Tuples under edits: three slots, each an ordered map.                   *)

Slots == 3
TupOps == {"tup.new", "tup.ins", "tup.rem", "tup.get", "tup.set", "tup.copy"}
TupStart == [i \in 1..Slots |-> <<>>]
TupNext(s, e) ==
    CASE e.op = "tup.new"  -> [s EXCEPT ![e.slot] = e.kv]
      [] e.op = "tup.ins"  -> [s EXCEPT ![e.slot] = Put(@, e.k, e.x)]
      [] e.op = "tup.rem"  -> [s EXCEPT ![e.slot] = Drop(@, e.k)]
      [] e.op = "tup.get"  -> s
      [] e.op = "tup.set"  -> [s EXCEPT ![e.slot] = Change(@, e.k, e.x)]
      [] e.op = "tup.copy" -> [s EXCEPT ![e.to] = s[e.slot]]
TupJudge(s, e) ==
    LET t == TupNext(s, e) IN
    [ok |->
        /\ e.r.o = "ok"
        /\ e.r.o = "ok" =>
           \* what the call gave back: the value found or removed
           /\ e.op \in {"tup.rem", "tup.get", "tup.set"} => e.r.v.ret = Lookup(s[e.slot], e.k)
           /\ \A i \in 1..Slots :
                /\ e.r.v.keys[i] = Keys(t[i])
                /\ e.r.v.vals[i] = Values(t[i])
           \* lookups of a set of probe keys in the slot that was used
           /\ \A j \in 1..Len(e.r.v.probe) :
                e.r.v.probe[j].x = Lookup(t[e.slot], e.r.v.probe[j].k)
           /\ Answers(e.r.v.enc, Encode([t |-> "tuple", kv |-> t[e.slot]]))
           /\ e.r.v.show = Display([t |-> "tuple", kv |-> t[e.slot]])
           /\ e.r.v.iter = t[e.slot],
     st |-> t]

-----------------------------------------------------------------------------
(* Payloads, post-conditions.                                              *)

PayOps == {"pay.enc", "pay.dec", "pc.enc"}
PayJudge(e) ==
    CASE e.op = "pay.enc" ->
            LET x == EncodePayload(e.p) IN
            /\ Answers(e.r.enc, x)
            /\ Answers(e.r.len, IF x.ok THEN Got(Len(x.x)) ELSE Fail)
            /\ Answers(e.r.hex, IF x.ok THEN Got(ToHex(x.x)) ELSE Fail)
            /\ Answers(e.r.hexp, IF x.ok THEN Got(<< 48, 120 >> \o ToHex(x.x)) ELSE Fail)
            /\ Answers(e.r.copy, x)
      [] e.op = "pay.dec" ->
            LET x == DecodePayloadAs(e.b, e.as) IN
            /\ IF e.as = "any" THEN e.r.o = (IF x.ok THEN "ok" ELSE "err")
               ELSE Answers(e.r, IF x.ok THEN Got(x.v) ELSE Fail)
            /\ x.ok => Answers(e.re, Got(Prefix(e.b, x.n)))
      [] e.op = "pc.enc" ->
            LET es == TLCEval([i \in 1..Len(e.pcs) |-> EncodeCondition(e.pcs[i])])
                x == JoinConditions(es)
                one(r) == Len(r) = Len(e.pcs) /\ \A i \in 1..Len(e.pcs) : Answers(r[i], es[i])
            IN  /\ Answers(e.r.enc, x)
                /\ Answers(e.r.copy, x)
                /\ Answers(e.r.len, IF x.ok THEN Got(Len(x.x)) ELSE Fail)
                /\ one(e.r.each) /\ one(e.r.held) /\ one(e.r.own)

-----------------------------------------------------------------------------
(* Signature primitives.                                                   *)

SigOps == {"sig.pre", "sig.post", "sig.step", "sig.verify", "msg.slice", "msg.recov", "sig.hash"}
VerifyStep(e) ==
    LET m  == PresignHash(e.hash, e.typ, e.fee, e.nonce)
        pk == IF WellFormedSig(e.sig) THEN EcRecover(m, e.sig) ELSE <<>>
    IN  IF pk = <<>> THEN Fail ELSE Got([pk |-> pk, next |-> PostsignHash(m, e.sig)])
SigJudge(e) ==
    CASE e.op = "sig.hash" -> e.r.o = "ok" /\ (IF e.r.o = "ok" THEN Held(e.r.v, SHA512T256(e.b)) ELSE FALSE)
      [] e.op = "sig.pre"  -> Answers(e.r, Got(PresignHash(e.hash, e.typ, e.fee, e.nonce)))
      [] e.op = "sig.post" -> Answers(e.r, Got(PostsignHash(e.hash, e.sig)))
      [] e.op = "sig.step" ->     \* sign, then verify the result
            LET m == PresignHash(e.hash, e.typ, e.fee, e.nonce) IN
            /\ e.r.o = "ok"
            /\ e.r.o = "ok" =>
                 /\ SignedBy(PubKeyOf(e.key), m, e.r.v.sig)
                 /\ e.r.v.next = PostsignHash(m, e.r.v.sig)
                 /\ Answers(e.v, Got([pk |-> PubKeyOf(e.key), next |-> e.r.v.next]))
      [] e.op = "sig.verify" -> Answers(e.r, VerifyStep(e))
      [] e.op = "msg.slice"  ->
            IF Len(e.b) # 65 THEN e.r.o = "err"
            ELSE e.r.o = "ok" /\ (IF e.r.o = "ok" THEN Held(e.r.v, e.b) /\ e.r.v.new = e.b ELSE FALSE)
      [] e.op = "msg.recov"  ->   \* to the recoverable form and back
            Answers(e.r, IF WellFormedSig(e.b) THEN Got([id |-> e.b[1], rs |-> Suffix(e.b, 1), back |-> e.b])
                         ELSE Fail)

-----------------------------------------------------------------------------
(* Transactions and signing sessions. State: the transaction (tx), whether *)
(* there is one (on), the open session if any, and a saved copy.           *)

TxOps == {"tx.make", "tx.build", "tx.fee", "tx.nonce", "tx.sign", "tx.verify", "tx.field",
          "tx.flip", "tx.save", "tx.load", "tx.auth", "tx.modify", "tx.sponsor", "tx.reset",
          "sg.new", "sg.sponsor", "sg.origin", "sg.second", "sg.append", "sg.flags", "sg.take"}

NoTx == [on |-> FALSE, tx |-> <<>>, sess |-> <<>>, saved |-> <<>>]

Cond(c) ==      \* a condition as the caller describes it, by its keys
    CASE c.k = "def"   -> DefaultCond
      [] c.k = "one"   -> NewSingle(c.mode, PubKeyOf(c.key), c.fee, c.nonce)
      [] c.k = "multi" -> NewMulti(c.mode, c.req, [i \in 1..Len(c.keys) |-> PubKeyOf(c.keys[i])],
                                   c.fee, c.nonce)
\* the same with signatures given explicitly
CondWith(c) == IF c.c.k = "multi" THEN [Cond(c.c) EXCEPT !.fields = c.fields]
               ELSE [Cond(c.c) EXCEPT !.sig = c.sig]

MakeTx(d) == [version |-> d.version, chain |-> d.chain, kind |-> d.kind,
              origin |-> Cond(d.origin),
              sponsor |-> IF d.kind = "spon" THEN Cond(d.sponsor) ELSE DefaultCond,
              anchor |-> d.anchor, pcmode |-> d.pcmode, pcs |-> d.pcs, payload |-> d.payload]

NetJudge(e) ==
    e.r.o = "ok" /\ (IF e.r.o = "ok"
                     THEN \A i \in 1..Len(e.r.v) :
                            e.r.v[i] = [version |-> NetVersion(e.net), chain |-> NetChain(e.net), url |-> NetUrl(e.net)]
                     ELSE FALSE)

\* a transaction with one field replaced
WithField(tx, f, v) ==
    CASE f = "version" -> [tx EXCEPT !.version = v]
      [] f = "chain"   -> [tx EXCEPT !.chain = v]
      [] f = "anchor"  -> [tx EXCEPT !.anchor = v]
      [] f = "pcmode"  -> [tx EXCEPT !.pcmode = v]
      [] f = "pcs"     -> [tx EXCEPT !.pcs = v]
      [] f = "payload" -> [tx EXCEPT !.payload = v]
      [] f = "sfee"    -> [tx EXCEPT !.sponsor.fee = v]
      [] f = "snonce"  -> [tx EXCEPT !.sponsor.nonce = v]

LOCAL Xor(a, bit) == IF (a \div bit) % 2 = 1 THEN a - bit ELSE a + bit
FlipSig(sig, byte, bit) == [sig EXCEPT ![byte] = Xor(@, bit)]
\* a bit of the i-th signature field of a condition (of its only one)
FlipCond(c, i, byte, bit) ==
    IF c.mode \in {1, 3} THEN [c EXCEPT !.fields[i].b = FlipSig(@, byte, bit)]
    ELSE [c EXCEPT !.sig = FlipSig(@, byte, bit)]
Flipped(tx, e) == IF e.who = "origin" THEN [tx EXCEPT !.origin = FlipCond(@, e.i, e.byte, e.bit)]
                  ELSE [tx EXCEPT !.sponsor = FlipCond(@, e.i, e.byte, e.bit)]

\* where in the serialised form the (last) signature of a condition ends up
CondLen(c) == Len(EncodeCond(c))
OriginAt == 6                             \* version, chain, authorization type
SigOf(tx, who, b) ==
    LET c   == IF who = "origin" THEN tx.origin ELSE tx.sponsor
        off == IF who = "origin" THEN OriginAt ELSE OriginAt + CondLen(tx.origin)
    IN  IF c.mode \in {1, 3}
        THEN Sub(b, off + CondLen(c) - 2 + 1, 65)   \* after the present fields and a type byte
        ELSE Sub(b, off + 38, 65)

\* every step reports the serialised transaction, its hash and its accessors
CondView(c) == [fee |-> c.fee, nonce |-> c.nonce, mode |-> c.mode,
                sigs |-> RealSigning!Sigs(c), req |-> RealSigning!Required(c)]
TxView(tx) == [std |-> tx.kind = "std", spon |-> tx.kind = "spon", origin |-> CondView(tx.origin),
               sponsor |-> IF tx.kind = "spon" THEN << CondView(tx.sponsor) >> ELSE <<>>]
Shows(o, tx) == LET b == EncodeTx(tx) IN
    /\ Answers(o.b, b)
    /\ Answers(o.id, IF b.ok THEN Got(SHA512T256(b.x)) ELSE Fail)
    /\ Answers(o.len, IF b.ok THEN Got(Len(b.x)) ELSE Fail)
    /\ Answers(o.hex, IF b.ok THEN Got(ToHex(b.x)) ELSE Fail)
    /\ Answers(o.acc, Got(TxView(tx)))
ShowsSession(o, s) == /\ Shows(o, s.tx)
                      /\ o.hash = s.hash
                      /\ o.closed = s.closed

CurTx(s) == IF s.sess = <<>> THEN s.tx ELSE s.sess[1].tx

\* outcome of an operation that gives a session or transaction or a refusal
Named == {"OriginOversign", "OriginPostSponsorSign", "OriginPostSponsorAppend", "SponsorOversign"}
Refused(r, exp) == r.o = "err" /\ (IF r.o = "err" /\ exp.e \in Named THEN r.e = exp.e ELSE TRUE)

\* Signing: the library chooses the signature; read it from what it shows
\* and require it to be the key's signature over the right message.
SessSign(s, e, who, guard, msg, Do(_, _)) ==
    IF guard # "" THEN [ok |-> Refused(e.r, [e |-> guard]) /\ ShowsSession(e.now, s.sess[1]), st |-> s]
    ELSE IF e.r.o # "ok" \/ e.now.b.o # "ok" THEN [ok |-> FALSE, st |-> s]
    ELSE LET sig == SigOf(s.sess[1].tx, who, e.now.b.v) IN
         IF Len(sig) # 65 THEN [ok |-> FALSE, st |-> s]
         ELSE LET n == Do(s.sess[1], sig).x IN
              [ok |-> SignedBy(PubKeyOf(e.key), msg, sig) /\ ShowsSession(e.now, n),
               st |-> [s EXCEPT !.sess = << n >>]]

TxJudge(s, e) ==
    CASE e.op = "tx.make" ->
            LET tx == MakeTx(e.d) IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx),
             st |-> [on |-> TRUE, tx |-> tx, sess |-> <<>>, saved |-> tx]]
      [] e.op = "tx.build" ->
            LET t == BuildTx(e.d) IN
            IF ~t.ok THEN [ok |-> e.r.o = "err", st |-> NoTx]
            ELSE [ok |-> e.r.o = "ok" /\ (e.r.o = "ok" => Shows(e.now, t.x)),
                  st |-> [on |-> TRUE, tx |-> t.x, sess |-> <<>>, saved |-> t.x]]
      [] ~s.on -> [ok |-> e.r.o = "skip", st |-> s]
      [] e.op = "tx.fee" ->
            LET tx == [s.tx EXCEPT !.origin.fee = e.x] IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.nonce" ->
            LET tx == [s.tx EXCEPT !.origin.nonce = e.x] IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.field" ->
            LET tx == WithField(s.tx, e.f, e.x) IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.flip" ->
            LET tx == Flipped(s.tx, e) IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.auth" ->
            LET tx == [s.tx EXCEPT !.kind = e.kind, !.origin = CondWith(e.origin),
                                   !.sponsor = IF e.kind = "spon" THEN CondWith(e.sponsor) ELSE DefaultCond] IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.modify" ->   \* a modification made directly on a condition
            LET r == RealSigning!Modify(s.tx, e.who, e.cmd, e.x) IN
            IF r.ok THEN [ok |-> e.r.o = "ok" /\ Shows(e.now, r.x), st |-> [s EXCEPT !.tx = r.x]]
            ELSE [ok |-> e.r.o = "err" /\ Shows(e.now, s.tx), st |-> s]
      [] e.op = "tx.sponsor" ->
            LET tx == [s.tx EXCEPT !.sponsor = Cond(e.c)] IN
            IF s.tx.kind = "spon" THEN [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
            ELSE [ok |-> e.r.o = "err" /\ Shows(e.now, s.tx), st |-> s]
      [] e.op = "tx.reset" ->
            LET tx == RealSigning!Clear(s.tx) IN
            [ok |-> e.r.o = "ok" /\ Shows(e.now, tx), st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "tx.save" -> [ok |-> e.r.o = "ok" /\ Shows(e.now, s.tx), st |-> [s EXCEPT !.saved = s.tx]]
      [] e.op = "tx.load" ->
            [ok |-> e.r.o = "ok" /\ Shows(e.now, s.saved), st |-> [s EXCEPT !.tx = s.saved]]
      [] e.op = "tx.verify" ->
            LET b == EncodeTx(RealSigning!Clear(s.tx)) IN
            IF ~b.ok THEN [ok |-> e.r.o = "err", st |-> s]
            ELSE LET h  == SHA512T256(b.x)
                     vo == RealSigning!VerifyOrigin(s.tx, h)
                     v  == RealSigning!VerifyFrom(s.tx, h)
                 IN [ok |-> /\ e.init = h
                            /\ Answers(e.ro, vo)
                            /\ e.r.o = (IF v.ok THEN "ok" ELSE "err")
                            \* the verdict of the symbolic model, where it made this history
                            /\ "sym" \in DOMAIN e => e.sym = v.ok /\ e.symo = vo.ok
                            /\ Shows(e.now, s.tx),
                     st |-> s]
      [] e.op = "tx.sign" ->
            LET ss == RealSigning!StartOrigin(s.tx) IN
            IF ~EncodeTx(s.tx).ok THEN [ok |-> e.r.o = "err", st |-> s]
            ELSE IF ~ss.ok THEN [ok |-> e.r.o = "err", st |-> s]
            ELSE IF RealSigning!OriginGuard(ss.x) # ""
            THEN [ok |-> Refused(e.r, [e |-> RealSigning!OriginGuard(ss.x)]), st |-> s]
            ELSE IF e.r.o # "ok" \/ e.now.b.o # "ok" THEN [ok |-> FALSE, st |-> s]
            ELSE LET sig == SigOf(s.tx, "origin", e.now.b.v) IN
                 IF Len(sig) # 65 THEN [ok |-> FALSE, st |-> s]
                 ELSE LET tx == RealSigning!SignTx(s.tx, sig).x IN
                      [ok |-> /\ SignedBy(PubKeyOf(e.key), RealSigning!OriginMessage(ss.x), sig)
                              /\ Shows(e.now, tx),
                       st |-> [s EXCEPT !.tx = tx]]
      [] e.op = "sg.new" ->
            LET ss == RealSigning!StartOrigin(s.tx) IN
            IF ~EncodeTx(s.tx).ok THEN [ok |-> e.r.o = "err", st |-> s]
            ELSE IF ~ss.ok THEN [ok |-> Refused(e.r, ss), st |-> s]
            ELSE [ok |-> e.r.o = "ok" /\ (e.r.o = "ok" => ShowsSession(e.now, ss.x)),
                  st |-> [s EXCEPT !.sess = << ss.x >>]]
      [] e.op = "sg.sponsor" ->
            LET ss == RealSigning!StartSponsor(s.tx, Cond(e.c)) IN
            IF ~EncodeTx(s.tx).ok THEN [ok |-> e.r.o = "err", st |-> s]
            ELSE IF ~ss.ok THEN [ok |-> Refused(e.r, ss), st |-> s]
            ELSE [ok |-> e.r.o = "ok" /\ (e.r.o = "ok" => ShowsSession(e.now, ss.x)),
                  st |-> [s EXCEPT !.sess = << ss.x >>]]
      [] s.sess = <<>> -> [ok |-> e.r.o = "skip", st |-> s]
      [] e.op = "sg.origin" ->
            SessSign(s, e, "origin", RealSigning!OriginGuard(s.sess[1]),
                     RealSigning!OriginMessage(s.sess[1]), RealSigning!SignOrigin)
      [] e.op = "sg.second" ->
            SessSign(s, e, "sponsor", RealSigning!SponsorGuard(s.sess[1]),
                     RealSigning!SponsorMessage(s.sess[1]), RealSigning!SignSponsor)
      [] e.op = "sg.append" ->
            LET n == RealSigning!AppendOrigin(s.sess[1], PubKeyOf(e.key)) IN
            IF ~n.ok THEN [ok |-> Refused(e.r, n) /\ ShowsSession(e.now, s.sess[1]), st |-> s]
            ELSE [ok |-> e.r.o = "ok" /\ ShowsSession(e.now, n.x), st |-> [s EXCEPT !.sess = << n.x >>]]
      [] e.op = "sg.flags" ->
            LET n == [s.sess[1] EXCEPT !.oversign = e.oversign, !.overlap = e.overlap] IN
            [ok |-> e.r.o = "ok" /\ ShowsSession(e.now, n), st |-> [s EXCEPT !.sess = << n >>]]
      [] e.op = "sg.take" ->
            [ok |-> e.r.o = "ok" /\ Shows(e.now, s.sess[1].tx),
             st |-> [s EXCEPT !.tx = s.sess[1].tx, !.sess = <<>>]]

-----------------------------------------------------------------------------
(* Wallets: slots, each empty or a wallet.                                 *)

WalOps == {"w.new", "w.get", "w.copy", "w.set"}
WalStart == [i \in 1..Slots |-> <<>>]
WalJudge(s, e) ==
    CASE e.op = "w.new" ->
            LET w == WalletOf(e.phrase) IN
            [ok |-> Answers(e.r, IF w.ok THEN Got([priv |-> w.x.k, pub |-> PubKeyOf(w.x.k)]) ELSE Fail),
             st |-> [s EXCEPT ![e.slot] = IF w.ok THEN << RealCache!Wallet(w.x) >> ELSE <<>>]]
      [] s[e.slot] = <<>> -> [ok |-> e.r.o = "skip", st |-> s]
      [] e.op = "w.get" ->
            LET w == s[e.slot][1] IN
            [ok |-> Answers(e.r, Got(Account(RealCache!AccountOf(w, e.i)))),
             st |-> [s EXCEPT ![e.slot] = << RealCache!AfterGet(w, e.i) >>]]
      [] e.op = "w.copy" -> [ok |-> e.r.o = "ok", st |-> [s EXCEPT ![e.to] = s[e.slot]]]
      [] e.op = "w.set" ->      \* store slot's account i as slot to's account j
            IF s[e.to] = <<>> THEN [ok |-> e.r.o = "skip", st |-> s]
            ELSE LET a == RealCache!AccountOf(s[e.slot][1], e.i)
                     m == [s EXCEPT ![e.slot] = << RealCache!AfterGet(s[e.slot][1], e.i) >>]
                 IN  [ok |-> e.r.o = "ok",
                      st |-> [m EXCEPT ![e.to] = << RealCache!StoreAccount(m[e.to][1], e.j, a) >>]]

-----------------------------------------------------------------------------
(* Derived structs and RPC calls.                                          *)

DrvJudge(e) == Answers(e.r, Convert(Schema(e.ty), e.kv))

RpcTx(e) == IF e.call \in {"fee", "broadcast"} THEN MakeTx(e.d) ELSE <<>>
RpcCall(e) ==
    CASE e.call = "info"    -> [call |-> "info", base |-> e.base]
      [] e.call = "account" -> [call |-> "account", base |-> e.base, addr |-> e.addr]
      [] e.call \in {"fee", "broadcast"} -> [call |-> e.call, base |-> e.base, tx |-> RpcTx(e)]
      [] e.call = "ro" -> [call |-> "ro", base |-> e.base, addr |-> e.addr, contract |-> e.contract,
                           fn |-> e.fn, args |-> e.args, sender |-> e.sender]
\* the call was sent as it should be and its answer understood
Asked(e, call) ==
    LET q == Request(call) IN
    IF ~q.ok THEN e.sent = <<>> /\ e.r.o = "err"
    ELSE /\ IF e.ans.fault = "refuse" THEN e.sent = <<>> ELSE e.sent = << q.x >>
         /\ Answers(e.r, Result(call.call, e.ans))
RpcJudge(e) == Asked(e, RpcCall(e))

-----------------------------------------------------------------------------
(* Flows from a mnemonic to the node.                                      *)

FlowOps == {"fl.open", "fl.ask", "fl.build", "fl.price", "fl.sign", "fl.send", "fl.read"}
FlowJudge(s, e) ==
    CASE e.op = "fl.open" ->
            LET f == Opened(e.phrase, e.i) IN
            [ok |-> Answers(e.r, IF f.acct = <<>> THEN Fail ELSE Got(Account(f.acct[1]))), st |-> f]
      [] s.acct = <<>> -> [ok |-> e.r.o = "skip", st |-> s]
      [] e.op = "fl.ask" -> [ok |-> Asked(e, AskCall(s, e.base, e.ver)), st |-> AfterAsk(s, e.ans)]
      [] e.op = "fl.read" ->
            LET c == ReadCall(s, e)
                r == Result("ro", e.ans)
            IN  [ok |-> /\ Asked(e, c)
                        /\ IF ~Request(c).ok \/ ~r.ok THEN e.r2.o = "skip"
                           ELSE IF r.x.as # "ok" THEN e.r2.o = "skip"
                           ELSE Answers(e.r2, ReadValue(r.x.v[2])),
                 st |-> s]
      [] e.op = "fl.build" ->
            LET t == FlowBuild(s, e.d) IN
            IF ~t.ok THEN [ok |-> e.r.o = "err", st |-> [s EXCEPT !.tx = <<>>]]
            ELSE [ok |-> e.r.o = "ok" /\ (e.r.o = "ok" => Shows(e.now, t.x)), st |-> [s EXCEPT !.tx = << t.x >>]]
      [] s.tx = <<>> -> [ok |-> e.r.o = "skip", st |-> s]
      [] e.op = "fl.price" ->
            LET f == AfterPrice(s, e.ans) IN
            [ok |-> Asked(e, PriceCall(s, e.base)) /\ Shows(e.now, f.tx[1]), st |-> f]
      [] e.op = "fl.sign" ->
            LET tx == s.tx[1]
                ss == RealSigning!StartOrigin(tx)
            IN  IF ~EncodeTx(tx).ok THEN [ok |-> e.r.o = "err", st |-> s]
                ELSE IF RealSigning!OriginGuard(ss.x) # ""
                THEN [ok |-> Refused(e.r, [e |-> RealSigning!OriginGuard(ss.x)]) /\ Shows(e.now, tx), st |-> s]
                ELSE IF e.r.o # "ok" \/ e.now.b.o # "ok" THEN [ok |-> FALSE, st |-> s]
                ELSE LET sig == SigOf(tx, "origin", e.now.b.v) IN
                     IF Len(sig) # 65 THEN [ok |-> FALSE, st |-> s]
                     ELSE LET f == AfterSign(s, sig) IN
                          [ok |-> /\ SignedBy(PubKeyOf(FlowKey(s)), RealSigning!OriginMessage(ss.x), sig)
                                  /\ Shows(e.now, f.tx[1]),
                           st |-> f]
      [] e.op = "fl.send" ->
            LET b == EncodeTx(RealSigning!Clear(s.tx[1]))
                v == IF b.ok THEN RealSigning!VerifyFrom(s.tx[1], SHA512T256(b.x)).ok ELSE FALSE
            IN  [ok |-> /\ Asked(e, SendCall(s, e.base))
                        /\ e.v.o = (IF v THEN "ok" ELSE "err")
                        /\ "sym" \in DOMAIN e => e.sym = v,
                 st |-> s]

-----------------------------------------------------------------------------
(* An event whose r.o is "abort" or "hang" ended the process; no operation *)
(* of the specification ever does.                                         *)

Judge(s, e) ==
    CASE e.op \in TextOps -> J(TextJudge(e))
      [] e.op \in HashOps -> J(HashJudge(e))
      [] e.op \in CvOps   -> J(CvJudge(e))
      [] e.op \in PayOps  -> J(PayJudge(e))
      [] e.op \in SigOps  -> J(SigJudge(e))
      [] e.op = "drv"     -> J(DrvJudge(e))
      [] e.op = "net"     -> J(NetJudge(e))
      [] e.op = "rpc"     -> J(RpcJudge(e))
      [] e.op \in TupOps  -> TupJudge(s, e)
      [] e.op \in TxOps   -> TxJudge(s, e)
      [] e.op \in WalOps  -> WalJudge(s, e)
      [] e.op \in FlowOps -> FlowJudge(s, e)

Start(e) == IF e.op \in TupOps THEN TupStart
            ELSE IF e.op \in TxOps THEN NoTx
            ELSE IF e.op \in WalOps THEN WalStart
            ELSE IF e.op \in FlowOps THEN FlowStart
            ELSE <<>>

Crashed(e) == "crash" \in DOMAIN e
Stateful(e) == e.op \in TupOps \cup TxOps \cup WalOps \cup FlowOps

Init == \E i \in 1..N : /\ Trace[i].h = 1
                        /\ l = i - 1
                        /\ st = Start(Trace[i])
                        /\ mode = "fresh"

Consume ==
    /\ l < N
    /\ mode = "fresh" \/ Trace[l + 1].h = 0
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           j == IF mode = "lost" THEN [ok |-> TRUE]
                ELSE IF Crashed(e) THEN [ok |-> FALSE] ELSE Judge(st, e)
       IN  /\ IF j.ok THEN TRUE ELSE PrintT(<< "BAD", l + 1 >>)
           /\ mode' = IF mode = "lost" \/ (~j.ok /\ Stateful(e)) THEN "lost" ELSE "on"
           /\ st' = IF mode' = "lost" \/ ~Stateful(e) THEN st ELSE j.st

Spec == Init /\ [][Consume]_<< l, st, mode >>
=============================================================================
