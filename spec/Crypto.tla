------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The cryptographic primitives the protocol is built from, as             *)
(* uninterpreted operators on byte sequences. The bounded design models    *)
(* replace them by a free term algebra (see SymCrypto); when real          *)
(* executions are validated, TLC evaluates them with java/Crypto.java,     *)
(* which shares no code with stacks.rs or its dependencies.                *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

LOCAL Bytes(n) == [1..n -> 0..255]

SHA256(b)            == CHOOSE d \in Bytes(32) : TRUE
SHA512T256(b)        == CHOOSE d \in Bytes(32) : TRUE
RIPEMD160(b)         == CHOOSE d \in Bytes(20) : TRUE
HMACSHA512(k, d)     == CHOOSE m \in Bytes(64) : TRUE
\* PBKDF2-HMAC-SHA512, 2048 iterations, 64 bytes
PBKDF2SHA512(p, s)   == CHOOSE m \in Bytes(64) : TRUE
\* compressed public key of a secret key, <<>> if the key is out of range
PubKeyOf(sk)         == CHOOSE p \in Bytes(33) \cup {<<>>} : TRUE
\* public key recovered from a 32-byte digest and recid ++ r ++ s, <<>> if none
EcRecover(m, sig)    == CHOOSE p \in Bytes(33) \cup {<<>>} : TRUE
\* BIP-32 scalar addition modulo the group order, <<>> if invalid
ScalarAdd(a, b)      == CHOOSE s \in Bytes(32) \cup {<<>>} : TRUE
=============================================================================
