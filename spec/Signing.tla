------------------------------ MODULE Signing -------------------------------
(***************************************************************************)
(* Spending conditions, the signature chain, verification and the signing  *)
(* session. The cryptography is a parameter: the design model instantiates *)
(* it with free terms, trace validation with the real algorithms.          *)
(*                                                                         *)
(* A transaction is a record with at least kind ("std" or "spon"), origin  *)
(* and sponsor. A spending condition is                                    *)
(*   single-key  [mode, signer, nonce, fee, sig]         mode 0 or 2       *)
(*   multi-key   [mode, signer, nonce, fee, fields, req] mode 1 or 3       *)
(* where a field is [t |-> "sig", b |-> signature] or [t |-> "key", b |->  *)
(* public key].                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS
    Zero,                   \* the fee and nonce of a cleared condition
    ZeroSig,                \* the empty signature
    NoKey,                  \* Recover's answer when there is no key
    DefaultSponsor,         \* the placeholder sponsor in the signing hash
    TxHash(_),              \* hash of a transaction's serialised form
    Presign(_, _, _, _),    \* previous hash, authorization type, fee, nonce
    Postsign(_, _),         \* presign hash, signature
    Recover(_, _),          \* message, signature: the public key or NoKey
    SingleHash(_, _),       \* mode, public key
    MultiHash(_, _, _)      \* mode, required count, public keys

LOCAL No     == [ok |-> FALSE]
LOCAL Yes(x) == [ok |-> TRUE, x |-> x]

Origin  == 4                \* authorization types chained into the hash
Sponsor == 5

IsMulti(c) == c.mode \in {1, 3}
Sigs(c) == IF IsMulti(c) THEN Len(SelectSeq(c.fields, LAMBDA f : f.t = "sig"))
           ELSE IF c.sig = ZeroSig THEN 0 ELSE 1
Required(c) == IF IsMulti(c) THEN c.req ELSE 1

-----------------------------------------------------------------------------
(* The hash every signature chain starts from: the transaction with its    *)
(* fees, nonces and signatures cleared and the sponsor left open.          *)

ClearCond(c) == IF IsMulti(c) THEN [c EXCEPT !.nonce = Zero, !.fee = Zero, !.fields = <<>>]
                ELSE [c EXCEPT !.nonce = Zero, !.fee = Zero, !.sig = ZeroSig]
Clear(tx) == [tx EXCEPT !.origin = ClearCond(@),
                        !.sponsor = IF tx.kind = "spon" THEN DefaultSponsor ELSE @]
InitHash(tx) == TxHash(Clear(tx))

-----------------------------------------------------------------------------
(* One step of the chain, and the chain over a condition.                  *)

LOCAL ChainStep(acc, f, c, typ) ==
    IF ~acc.ok THEN acc
    ELSE IF f.t = "key" THEN [acc EXCEPT !.keys = Append(@, f.b)]
    ELSE LET m  == Presign(acc.h, typ, c.fee, c.nonce)
             pk == Recover(m, f.b)
         IN  IF pk = NoKey THEN [acc EXCEPT !.ok = FALSE]
             ELSE [acc EXCEPT !.h = Postsign(m, f.b), !.keys = Append(@, pk), !.n = @ + 1]

Fields(c) == IF IsMulti(c) THEN c.fields ELSE << [t |-> "sig", b |-> c.sig] >>

Chain(c, h, typ) ==
    FoldLeft(LAMBDA acc, f : ChainStep(acc, f, c, typ),
             [ok |-> TRUE, h |-> h, keys |-> <<>>, n |-> 0], Fields(c))

\* accepts exactly the owner's signature(s); gives the hash after them
VerifyCond(c, h, typ) ==
    LET r == Chain(c, h, typ) IN
    IF ~r.ok THEN No
    ELSE IF IsMulti(c)
         THEN IF r.n >= c.req /\ MultiHash(c.mode, c.req, r.keys) = c.signer THEN Yes(r.h) ELSE No
         ELSE IF SingleHash(c.mode, r.keys[1]) = c.signer THEN Yes(r.h) ELSE No

VerifyOrigin(tx, h) == VerifyCond(tx.origin, h, Origin)
VerifyFrom(tx, h) ==
    LET o == VerifyOrigin(tx, h) IN
    IF ~o.ok THEN No
    ELSE IF tx.kind = "std" THEN Yes(o.x)
    ELSE VerifyCond(tx.sponsor, o.x, Sponsor)
Verify(tx) == VerifyFrom(tx, InitHash(tx))

-----------------------------------------------------------------------------
(* The signing session: the transaction, the hash the next signature is    *)
(* made over, whether the origin is closed, and the two guards. Operations *)
(* give the new session, or the name of the refusal and no effect.         *)

\* a condition that already holds signatures is continued where it stands
LOCAL Resume(c, h, typ) ==
    IF ~IsMulti(c) THEN Yes(h)
    ELSE LET r == Chain(c, h, typ) IN IF r.ok THEN Yes(r.h) ELSE No

Session(tx, h, closed) ==
    [tx |-> tx, hash |-> h, closed |-> closed, oversign |-> TRUE, overlap |-> TRUE]

Refuse(e) == [ok |-> FALSE, e |-> e]

StartOrigin(tx) ==
    LET r == Resume(tx.origin, InitHash(tx), Origin) IN
    IF r.ok THEN Yes(Session(tx, r.x, FALSE)) ELSE Refuse("Hash")

StartSponsor(tx0, sponsor) ==
    IF tx0.kind # "spon" THEN Refuse("BadSpendingConditionModification")
    ELSE LET tx == [tx0 EXCEPT !.sponsor = sponsor]
             o  == VerifyOrigin(tx, InitHash(tx))
         IN  IF ~o.ok THEN Refuse("Verify")
             ELSE LET r == Resume(sponsor, o.x, Sponsor) IN
                  IF r.ok THEN Yes(Session(tx, r.x, TRUE)) ELSE Refuse("Hash")

LOCAL WithSig(c, sig) == IF IsMulti(c) THEN [c EXCEPT !.fields = Append(@, [t |-> "sig", b |-> sig])]
                         ELSE [c EXCEPT !.sig = sig]

\* the message the next origin (sponsor) signature has to sign
OriginMessage(s)  == Presign(s.hash, Origin, s.tx.origin.fee, s.tx.origin.nonce)
SponsorMessage(s) == Presign(s.hash, Sponsor, s.tx.sponsor.fee, s.tx.sponsor.nonce)

OriginGuard(s) ==
    IF s.overlap /\ s.closed THEN "OriginPostSponsorSign"
    ELSE IF s.oversign /\ Sigs(s.tx.origin) >= Required(s.tx.origin) THEN "OriginOversign"
    ELSE ""
SponsorGuard(s) ==
    IF s.tx.kind # "spon" THEN "BadSpendingConditionModification"
    ELSE IF s.oversign /\ Sigs(s.tx.sponsor) >= Required(s.tx.sponsor) THEN "SponsorOversign"
    ELSE ""
AppendGuard(s) ==
    IF s.overlap /\ s.closed THEN "OriginPostSponsorAppend"
    ELSE IF ~IsMulti(s.tx.origin) THEN "BadSpendingConditionModification"
    ELSE ""

\* sig is the signature that was made over OriginMessage(s)
SignOrigin(s, sig) ==
    IF OriginGuard(s) # "" THEN Refuse(OriginGuard(s))
    ELSE Yes([s EXCEPT !.hash = Postsign(OriginMessage(s), sig), !.tx.origin = WithSig(@, sig)])

SignSponsor(s, sig) ==
    IF SponsorGuard(s) # "" THEN Refuse(SponsorGuard(s))
    ELSE Yes([s EXCEPT !.hash = Postsign(SponsorMessage(s), sig), !.closed = TRUE,
                       !.tx.sponsor = WithSig(@, sig)])

AppendOrigin(s, pk) ==
    IF AppendGuard(s) # "" THEN Refuse(AppendGuard(s))
    ELSE Yes([s EXCEPT !.tx.origin.fields = Append(@, [t |-> "key", b |-> pk])])

-----------------------------------------------------------------------------
(* A modification made directly on a condition, outside any session: a     *)
(* single-key condition has its signature set, a multi-key condition has   *)
(* signatures and public keys added; anything else is refused.             *)

LOCAL ModifyCond(c, cmd, x) ==
    CASE cmd = "sig"    /\ ~IsMulti(c) -> Yes([c EXCEPT !.sig = x])
      [] cmd = "addsig" /\ IsMulti(c)  -> Yes([c EXCEPT !.fields = Append(@, [t |-> "sig", b |-> x])])
      [] cmd = "addkey" /\ IsMulti(c)  -> Yes([c EXCEPT !.fields = Append(@, [t |-> "key", b |-> x])])
      [] OTHER -> Refuse("BadSpendingConditionModification")

Modify(tx, who, cmd, x) ==
    IF who = "origin" THEN LET c == ModifyCond(tx.origin, cmd, x) IN
                           IF c.ok THEN Yes([tx EXCEPT !.origin = c.x]) ELSE c
    ELSE IF tx.kind # "spon" THEN Refuse("BadSpendingConditionModification")
    ELSE LET c == ModifyCond(tx.sponsor, cmd, x) IN
         IF c.ok THEN Yes([tx EXCEPT !.sponsor = c.x]) ELSE c

\* Transaction::sign is one origin signature in a fresh session
SignTx(tx, sig) == LET s == StartOrigin(tx) IN
    IF s.ok THEN LET r == SignOrigin(s.x, sig) IN IF r.ok THEN Yes(r.x.tx) ELSE r ELSE s
=============================================================================
