------------------------------- MODULE Wallet -------------------------------
(***************************************************************************)
(* From a mnemonic to accounts: BIP-39 with an empty passphrase, BIP-32    *)
(* along m/44'/5757'/0'/0/i, and the four address versions.                *)
(***************************************************************************)
EXTENDS Tx, Json, IOUtils

Words == JsonDeserialize(IOEnv.SPEC_DIR \o "/bip39_english.json")   \* 2048 words

LOCAL IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
\* the words of a phrase, whatever whitespace separates them
SplitWords(s) ==
    LET step(acc, c) ==
            IF IsSpace(c) THEN (IF acc.w = <<>> THEN acc ELSE [ws |-> Append(acc.ws, acc.w), w |-> <<>>])
            ELSE [acc EXCEPT !.w = Append(@, c)]
        r == FoldLeft(step, [ws |-> <<>>, w |-> <<>>], s)
    IN  IF r.w = <<>> THEN r.ws ELSE Append(r.ws, r.w)

LOCAL Bits(n, width) == [i \in 1..width |-> (n \div 2^(width - i)) % 2]
LOCAL Packed(bits) ==      \* bits to bytes, the length being a multiple of 8
    [j \in 1..(Len(bits) \div 8) |->
        FoldLeft(LAMBDA acc, b : 2 * acc + b, 0, SubSeq(bits, 8 * j - 7, 8 * j))]

ValidMnemonic(ws) ==
    /\ Len(ws) \in {12, 15, 18, 21, 24}
    /\ LET idx == [i \in 1..Len(ws) |-> SelectInSeq(Words, LAMBDA w : w = ws[i]) - 1] IN
       /\ \A i \in 1..Len(ws) : idx[i] >= 0
       /\ LET bits == FlattenSeq([i \in 1..Len(ws) |-> Bits(idx[i], 11)])
              ent  == (Len(bits) * 32) \div 33
              sum  == SHA256(Packed(SubSeq(bits, 1, ent)))
          IN  SubSeq(bits, ent + 1, Len(bits)) = SubSeq(Bits(sum[1], 8), 1, Len(bits) - ent)

LOCAL JoinWords(ws) ==
    FoldLeft(LAMBDA acc, w : IF acc = <<>> THEN w ELSE acc \o << 32 >> \o w, <<>>, ws)

TMnemonic == << 109,110,101,109,111,110,105,99 >>                   \* "mnemonic"
TSeed == << 66,105,116,99,111,105,110,32,115,101,101,100 >>         \* "Bitcoin seed"

Seed(ws) == PBKDF2SHA512(JoinWords(ws), TMnemonic)

\* extended keys [k, c]; indexes are 4 bytes, hardened from 2^31
LOCAL Ext(m) == [k |-> Prefix(m, 32), c |-> Suffix(m, 32)]
Child(x, i) ==
    LET data == IF i[1] >= 128 THEN << 0 >> \o x.k \o i ELSE PubKeyOf(x.k) \o i
        m    == HMACSHA512(x.c, data)
    IN  [k |-> ScalarAdd(Prefix(m, 32), x.k), c |-> Suffix(m, 32)]

Path == << << 128,0,0,44 >>, << 128,0,22,125 >>, << 128,0,0,0 >>, << 0,0,0,0 >> >>   \* 5757 = 22*256+125

Root(ws) == FoldLeft(Child, Ext(HMACSHA512(TSeed, Seed(ws))), Path)

WalletOf(phrase) == LET ws == SplitWords(phrase) IN IF ValidMnemonic(ws) THEN Got(Root(ws)) ELSE Fail

\* what a user sees of an account
Account(x) == [priv |-> x.k, pub |-> PubKeyOf(x.k),
               addrs |-> [j \in 1..4 |-> Address(Hash160(PubKeyOf(x.k)), << 22, 20, 26, 21 >>[j]).x]]

RealCache == INSTANCE WalletCache WITH DeriveAccount <- Child
=============================================================================
