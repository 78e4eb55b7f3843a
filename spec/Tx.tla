--------------------------------- MODULE Tx ---------------------------------
(***************************************************************************)
(* Transactions: the serialised form, key hashes and the real instance of  *)
(* the signing rules.                                                      *)
(*   [version, chain (4 bytes), kind, origin, sponsor, anchor, pcmode,     *)
(*    pcs (post-conditions), payload]                                      *)
(***************************************************************************)
EXTENDS Payload

Zero8  == Zeros(8)
Zero65 == Zeros(65)

Hash160(b) == RIPEMD160(SHA256(b))

\* the script: required count, the keys, their number, OP_CHECKMULTISIG
Script(req, pks) ==
    << 80 + req >> \o FlattenSeq([i \in 1..Len(pks) |-> << Len(pks[i]) >> \o pks[i]])
        \o << 80 + Len(pks), 174 >>

SingleKeyHash(mode, pk) ==
    IF mode = 0 THEN Hash160(pk) ELSE Hash160(<< 0, 20 >> \o Hash160(pk))
MultiKeyHash(mode, req, pks) ==
    IF mode = 1 THEN Hash160(Script(req, pks)) ELSE Hash160(<< 0, 32 >> \o SHA256(Script(req, pks)))

NewSingle(mode, pk, fee, nonce) ==
    [mode |-> mode, signer |-> SingleKeyHash(mode, pk), nonce |-> nonce, fee |-> fee, sig |-> Zero65]
NewMulti(mode, req, pks, fee, nonce) ==
    [mode |-> mode, signer |-> MultiKeyHash(mode, req, pks), nonce |-> nonce, fee |-> fee,
     fields |-> <<>>, req |-> req]
DefaultCond == [mode |-> 0, signer |-> Zeros(20), nonce |-> Zero8, fee |-> Zero8, sig |-> Zero65]

EncodeCond(c) ==
    << c.mode >> \o c.signer \o c.nonce \o c.fee \o
    (IF c.mode \in {1, 3}
     THEN U32(Len(c.fields))
          \o FlattenSeq([i \in 1..Len(c.fields) |->
                (IF c.fields[i].t = "key" THEN << 0 >> ELSE << 2 >>) \o c.fields[i].b])
          \o U16(c.req)
     ELSE << 0 >> \o c.sig)

EncodeAuth(tx) ==
    IF tx.kind = "std" THEN << 4 >> \o EncodeCond(tx.origin)
    ELSE << 5 >> \o EncodeCond(tx.origin) \o EncodeCond(tx.sponsor)

EncodeTx(tx) ==
    Cat(Cat(Got(<< tx.version >> \o tx.chain \o EncodeAuth(tx) \o << tx.anchor, tx.pcmode >>),
            EncodeConditions(tx.pcs)),
        EncodePayload(tx.payload))

TxId(tx) == SHA512T256(EncodeTx(tx).x)

PresignHash(h, typ, fee, nonce) == SHA512T256(h \o << typ >> \o fee \o nonce)
PostsignHash(h, sig) == SHA512T256(h \o << 0 >> \o sig)

RealSigning == INSTANCE Signing WITH
    Zero <- Zero8, ZeroSig <- Zero65, NoKey <- <<>>, DefaultSponsor <- DefaultCond,
    TxHash <- TxId, Presign <- PresignHash, Postsign <- PostsignHash, Recover <- EcRecover,
    SingleHash <- SingleKeyHash, MultiHash <- MultiKeyHash

-----------------------------------------------------------------------------
(* Message signatures: recovery id, r, s.                                  *)

GroupOrder == << 255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,
                 186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65 >>
HalfOrder  == << 127,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,
                 93,87,110,115,87,164,80,29,223,233,47,70,104,27,32,160 >>

Less(a, b) ==      \* big-endian numbers of equal length
    LET d == SelectInSeq([i \in 1..Len(a) |-> a[i] - b[i]], LAMBDA x : x # 0)
    IN  d # 0 /\ a[d] < b[d]

\* an ECDSA signature in its recoverable compact form
WellFormedSig(sig) == /\ Len(sig) = 65
                      /\ sig[1] < 4
                      /\ Less(Sub(sig, 1, 32), GroupOrder)
                      /\ Less(Sub(sig, 33, 32), GroupOrder)
LowS(sig) == ~Less(HalfOrder, Sub(sig, 33, 32))

\* sig is an acceptable signature by the key pk over m
SignedBy(pk, m, sig) == WellFormedSig(sig) /\ LowS(sig) /\ EcRecover(m, sig) = pk
=============================================================================
