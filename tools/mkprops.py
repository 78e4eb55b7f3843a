# one-off generator kept for maintenance: writes properties.jsonl
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
IMPL="stacks/src/clarity/impl.rs"; MOD="stacks/src/clarity/mod.rs"; MAC="stacks/src/clarity/macro.rs"
p("C01","Clarity values encode to exactly their consensus wire format",
 "Every Clarity value encodes to exactly the bytes the Stacks consensus format prescribes: its type tag, big-endian 16-byte integers, 4-byte big-endian lengths and counts, 1-byte name lengths, and its elements in order at any nesting. The reported length, emptiness, plain hex and 0x-prefixed hex always agree with those bytes. A value the format cannot represent (a non-ASCII ascii string, a name or key over 128 bytes, an address that is not valid) makes encoding fail, at whatever depth it sits; nothing else does.",
 ["inputs"],"all Clarity values: every constructor, integer, length, key and nesting, including unrepresentable ones",
 "Tests compare a few small literals; they do not vary integer extremes, lengths that need more than one byte, nested counts or unrepresentable parts deep inside a value.",
 [IMPL,MOD],[("per-type encoders",IMPL),("length/hex helpers on the codec trait",MOD)],obs=["encode, len, is_empty, hex, hex_prefixed of a value"])
p("C02","Decoding an encoded Clarity value gives the value back",
 "Decoding the wire bytes of any Clarity value, through the generic decoder or the decoder of its own type, yields that same value: same types, contents, element order and keys. Bytes that follow the value do not change the result. A decoder of a different type refuses the bytes.",
 ["inputs"],"all representable Clarity values, all trailing bytes, all pairs of value and decoder type",
 "Tests round-trip one fixed nested list and random integers; offsets inside nested, multi-element and long values, and trailing data, are not varied.",
 [IMPL,MOD],[("per-type decoders",IMPL),("tag dispatch",MOD)],obs=["decode result inspected part by part"])
p("C03","Clarity decoders are total and accept only canonical bytes",
 "For every byte string, the generic and every typed Clarity decoder, including those for names and argument lists, returns a value or an error; it never panics, hangs or aborts. If it returns a value, encoding that value reproduces exactly the prefix of the input that it was read from. In particular truncated input, unknown tags, wrong tags, oversize names, non-ASCII ascii strings, invalid UTF-8 and unknown address versions are errors.",
 ["inputs","fault_sequences"],"all byte strings: truncations, corruptions and random bytes, at every nesting position",
 "Tests only decode well-formed bytes produced by the encoder.",
 [IMPL,MOD],[("length guards and tag checks in each decoder",IMPL),("tag dispatch",MOD)],obs=["outcome (value, error, panic, abort) of each decoder"])
p("C04","Clarity equality, cloning and casting respect type and content",
 "Two representable Clarity values of a type are equal exactly when they have the same content, so equality is an equivalence and different contents never compare equal. However a value is constructed (constructors, conversions, macros) and however its content is taken out again, the content is the same. A clone equals its original and is independent of it. Casting a value (or the content of an optional or response) to a concrete type succeeds exactly when it has that type, and yields the same content.",
 ["inputs","histories"],"all pairs of Clarity values and all target types",
 "Tests compare equal values only and cast each value to its own type; unequal pairs that look alike and failing casts are never tried.",
 [MAC,MOD],[("equality in the primitive macro",MAC),("downcasts",MAC)],obs=["==, clone, cast, cast_as, value, into_value"])
p("C05","Clarity values print in Clarity's literal notation",
 "The textual form of any Clarity value is its Clarity literal: decimal integers (with u for unsigned), 0x-hex buffers, true/false/none, quoted strings (with u for UTF-8), address and address.contract principals, and parenthesised ok, err, some, list and tuple forms with single-space separators, nested to any depth.",
 ["inputs"],"all Clarity values at any nesting",
 "Tests print a handful of literals; integer extremes, empty and nested containers and unusual strings are not varied.",
 [IMPL],[("Display implementations",IMPL)],obs=["to_string of a value"])
p("C06","Tuples behave as ordered maps under any edit history",
 "Starting from distinct keys, after any sequence of inserts, removals, replacements, in-place changes and copies, a tuple holds each key once: lookup returns the last value stored under a key or nothing if it is absent, removal returns the removed value and affects no other key. Keys and values iterate in the order in which the present keys were added (replacing a value keeps its place, removing and re-adding a key moves it to the end), and that is the order in which it is encoded and printed.",
 ["histories"],"all sequences of tuple operations over any keys and values",
 "One test performs four operations; no test re-inserts a key, removes from the middle or checks the encoding after edits.",
 [IMPL],[("tuple accessors and mutators",IMPL)],state=[("entries","ordered list of key/value pairs",MAC)],obs=["get, get_mut, insert, remove, keys, values, iteration, encode, display"])
p("C07","Hex text and bytes convert exactly",
 "Converting any byte string to hex gives two lower-case digits per byte, and converting that (in either letter case) back gives the same bytes. Text with an odd length, or any character that is not a hex digit, is refused with an error; no text makes the conversion panic.",
 ["inputs"],"all byte strings and all text",
 "Tests try a few strings.",
 ["stacks/src/crypto/hex.rs"],[("digit iterator","stacks/src/crypto/hex.rs")],obs=["bytes_to_hex, hex_to_bytes"])
p("C08","C32 text encodes and decodes bytes exactly",
 "C32-encoding any byte string gives its number in Crockford-style base 32, upper case, with one leading 0 per leading zero byte, and decoding gives the same bytes back. Decoding reads lower case as upper case, O as 0 and I or L as 1. Any other character is refused with an error and no text causes a panic.",
 ["inputs"],"all byte strings (every length and leading-zero count) and all text",
 "Tests use random bytes, which practically never start with zero bytes, and never lower case, look-alike letters or invalid text.",
 ["stacks/src/crypto/c32.rs"],[("5-bit regrouping","stacks/src/crypto/c32.rs")],obs=["c32_encode, c32_decode"])
p("C09","Stacks addresses: one text per address, errors are detected",
 "For every 20-byte hash and the four known versions, formatting an address and parsing it gives the same hash and version, and the text is S, the version digit, then the C32 of hash and 4-byte double-SHA-256 checksum. Parsing accepts only text with a matching checksum, a known version and a 20-byte hash, so a changed, dropped or swapped character is refused; checksummed encoding of arbitrary data with any version below 32 round-trips likewise. Unknown versions and malformed text give errors, never panics.",
 ["inputs"],"all hashes, versions 0..255, data lengths, and all corruptions of valid text",
 "Tests round-trip random hashes and never present corrupted, truncated or foreign text.",
 ["stacks/src/crypto/c32.rs"],[("checksum comparison","stacks/src/crypto/c32.rs"),("version and length checks","stacks/src/crypto/c32.rs")],obs=["c32_address, c32_address_decode, c32check_encode, c32check_decode, Address::from_str"])
p("C10","Base58 and Base58Check convert bytes exactly",
 "Base58-encoding any byte string and decoding it gives the same bytes, with one leading 1 per leading zero byte and the Bitcoin alphabet; the checked form of any data and version round-trips to both. Checked decoding accepts only text whose last four bytes are the double-SHA-256 checksum of the rest. Invalid characters, too-short or corrupted text give errors, never panics.",
 ["inputs"],"all byte strings, versions and text",
 "Tests use random bytes without leading zeros, fixed addresses, and single bad Latin-1 characters.",
 ["stacks/src/crypto/b58.rs"],[("base conversion","stacks/src/crypto/b58.rs"),("checksum comparison","stacks/src/crypto/b58.rs")],obs=["b58_encode, b58_decode, base58check_encode, base58check_decode"])
p("C11","Key hashes match the four Stacks address modes",
 "For every public key, single-key hashes are RIPEMD-160 of SHA-256 of the compressed key, directly or wrapped as a version-0 witness program. For every list of keys and required count that the script's one-byte counts can express, multi-key hashes are of the script: required count, each key in the given order, number of keys, check-multisig; directly or through a SHA-256 witness program. Library digests (SHA-256, double SHA-256 with its 4-byte checksum, SHA-512/256, hash-160) agree with the standards for every input.",
 ["inputs","configurations"],"all keys, key lists, counts, modes, and all digest inputs",
 "One fixed key (used twice) per mode; key order, other counts and longer lists are not tested.",
 ["stacks/src/crypto/c32.rs","stacks/src/crypto/hash.rs"],[("hash_p2pkh, hash_p2wpkh, hash_p2sh, hash_p2wsh","stacks/src/crypto/c32.rs"),("digest wrappers","stacks/src/crypto/hash.rs")],obs=["hash functions; signer bytes of a spending condition"])
p("C12","Post-conditions encode exactly what the user asked for",
 "Any list of post-conditions encodes as its 4-byte count followed by the conditions in order, each with its type, principal form and address, asset identity where it has one, token id for non-fungibles, the condition code, and the 8-byte amount. Every code, amount, principal kind and asset name is carried unchanged. A principal that is not an address or contract, an invalid address or an over-long name is an error.",
 ["inputs"],"all lists of STX, fungible and non-fungible conditions",
 "Tests encode one list with one amount, code GTE/Has and one address.",
 ["stacks/src/transaction/condition.rs"],[("condition encoders","stacks/src/transaction/condition.rs")],obs=["encode of conditions and condition lists; post-condition section of a transaction"])
p("C13","Transaction payloads encode and decode exactly",
 "A token transfer encodes as recipient principal, 8-byte amount and the memo's bytes zero-padded to 34, and is refused if the memo is longer; a contract call encodes as address, contract name, function name and counted arguments. Decoding any encoded payload yields the same payload (the memo with its padding), whatever follows it. Decoding arbitrary bytes gives a payload whose encoding is the prefix read, or an error, never a panic.",
 ["inputs","fault_sequences"],"all payloads, memos, names, arguments, and all byte strings",
 "Tests cover two fixed payloads, ASCII memos and well-formed bytes.",
 ["stacks/src/transaction/payload.rs"],[("payload codecs","stacks/src/transaction/payload.rs")],obs=["encode/decode of both payload types and of the boxed payload"])
p("C14","Built transactions serialise every field and nothing else",
 "A transaction built for a transfer or contract call serialises as network version, chain id, authorization (mode, signer hash of the sender's key, nonce, fee, empty signature), anchor mode, post-condition mode, post-conditions and payload, with exactly the values the caller supplied and the documented defaults for the rest. Mainnet, testnet and mocknet give their own version, chain id and API address. Changing the fee or nonce afterwards changes exactly that field, and the transaction hash is SHA-512/256 of the serialised bytes.",
 ["inputs","configurations","histories"],"all builder inputs, networks, modes, and later fee/nonce changes",
 "Tests build two fixed transactions on one network and compare one hex string each.",
 ["stacks/src/transaction/builder.rs","stacks/src/transaction/base.rs","stacks/src/transaction/network.rs","stacks/src/transaction/auth.rs"],[("builders","stacks/src/transaction/builder.rs"),("transaction encoder","stacks/src/transaction/base.rs"),("network constants","stacks/src/transaction/network.rs")],obs=["encode, hash, set_fee, set_nonce, network getters"])
p("C15","Signing adds one valid signature and changes nothing else",
 "Signing any single-key transaction with its sender's key succeeds, changes only the signature field of its serialised form, and the result passes verification. The signature is a low-S recoverable ECDSA signature by that key over the standard signing hash: SHA-512/256 of the transaction with fee, nonce and signature cleared, then chained with the authorization type, fee and nonce. This holds for both single-key modes and every payload, fee and nonce; a signature added to a multi-key or sponsored transaction likewise adds only that signature, over the same hash chain.",
 ["inputs"],"all transactions, keys, fees and nonces",
 "Tests compare one signed transfer and one signed call with fixed bytes.",
 ["stacks/src/transaction/base.rs","stacks/src/transaction/signer.rs","stacks/src/crypto/hash.rs","stacks/src/transaction/auth.rs"],[("initial hash over the cleared authorization","stacks/src/transaction/base.rs"),("hash chaining","stacks/src/crypto/hash.rs")],obs=["serialised bytes before/after, verification result"])
p("C16","Verification accepts a transaction only with its owner's signature",
 "Verification of an authorization succeeds exactly when every signature recovers, over the current content of the transaction, to the key(s) whose hash is the named signer. After signing, changing any signed part (version, chain, payload, modes, conditions, fee, nonce, signer, hash mode, sponsor's fee or nonce for a sponsored one) or any bit of a signature, or signing with another key, makes it fail with an error, and restoring the part makes it succeed again. It never panics on any signature bytes.",
 ["inputs","histories","fault_sequences"],"all signed transactions and all single-field or single-bit changes to them, and arbitrary signature bytes",
 "No test verifies a transaction whose content, key or signature was changed.",
 ["stacks/src/transaction/auth.rs","stacks/src/crypto/hash.rs"],[("signature recovery and signer comparison","stacks/src/transaction/auth.rs")],obs=["verify and verify_origin of the authorization"])
p("C17","Multi-signature transactions verify exactly with the required keys",
 "For any m-of-n key set (within what a script's one-byte counts can express), if at least m of the keys sign and the others are appended as public keys, all in the key set's order, the transaction verifies, however the work is split over signers and hand-overs. Any other history (too few signatures, wrong order, a missing, extra or foreign key) fails verification. Each signature is chained to the one before it, and the serialised form lists the fields in the order added with the required count.",
 ["histories","inputs","schedules"],"all m-of-n, both multi-key modes, and all sequences of sign, append and hand-over",
 "Two tests sign one fixed 2-of-3 in one order with one signer.",
 ["stacks/src/transaction/auth.rs","stacks/src/transaction/signer.rs","stacks/src/transaction/base.rs"],[("ordered fields and chained hashes","stacks/src/transaction/auth.rs"),("signer state","stacks/src/transaction/signer.rs")],state=[("signing hash","hash the next signature is made over","stacks/src/transaction/signer.rs"),("fields","ordered signatures and public keys","stacks/src/transaction/auth.rs")],obs=["serialised bytes, signer hash, verification after each step"])
p("C18","The signing session enforces its order and fails without effect",
 "A signing session refuses to add more origin or sponsor signatures than required, refuses to sign or append to the origin once the sponsor has signed, refuses sponsor operations on a non-sponsored transaction and key appends on a single-key origin; each refusal leaves transaction and session unchanged. A sponsor session can only be started on a sponsored transaction whose origin verifies, replaces only the sponsor's condition, and its signature is chained after the origin's, so the fully signed transaction verifies. The guards can be switched off individually and then only that guard is lifted. A modification made directly on a spending condition is refused without effect when it does not fit the condition's kind, and otherwise sets or adds exactly that signature or key.",
 ["histories"],"all sequences of session operations on standard and sponsored transactions",
 "No test drives the session through a refusal or checks state after one; the sponsor flow is not tested.",
 ["stacks/src/transaction/signer.rs","stacks/src/transaction/auth.rs"],[("guards before signing","stacks/src/transaction/signer.rs"),("sponsor session constructor","stacks/src/transaction/signer.rs")],state=[("origin closed","whether the origin may still be signed","stacks/src/transaction/signer.rs")],obs=["result and full state after each session operation"])
p("C19","A wallet derives the same standard accounts every time",
 "A valid mnemonic always yields the account keys of the path m/44'/5757'/0'/0/i with an empty passphrase; an account's private key, public key and the addresses for all four versions belong together and depend only on mnemonic and index. Asking for accounts in any order, repeatedly, or from a copy of the wallet gives the same account for the same index and different accounts for different indexes, except where the user stored another account. Invalid mnemonics are refused.",
 ["histories","inputs"],"all mnemonics, indexes and sequences of wallet operations",
 "Tests derive accounts 0 and 1 of one mnemonic.",
 ["stacks/src/wallet.rs"],[("derivation path and child derivation","stacks/src/wallet.rs"),("account cache","stacks/src/wallet.rs")],state=[("accounts","accounts by index","stacks/src/wallet.rs")],obs=["get_account, set_account, keys, addresses"])
p("C20","Deriving a struct from a tuple is exact or an error",
 "A derived conversion from a Clarity tuple fills every field from the tuple entry with the field's key: integers, booleans, buffers, optionals, responses and nested structs carry exactly the entry's content, and text fields (alone, in lists and in optionals) the textual form of the entry, regardless of entry order and of extra entries. If any key is missing or an entry of a non-text field has another type than the field (including inside optionals, an err response, or nested structs), the conversion fails with an error and never substitutes a default.",
 ["inputs","programs"],"all supported field types and all tuples",
 "Tests convert two matching tuples; no mismatch, missing key, or reordering is tried.",
 ["stacks_derive/src/from_tuple.rs","stacks/src/derive.rs"],[("generated extraction and cast code","stacks_derive/src/from_tuple.rs")],obs=["result of the conversion"])
p("C21","RPC calls send the exact request and report the node's answer",
 "Each node call sends exactly one HTTP request with the documented method, path and body: broadcasting posts the transaction's serialised bytes, fee estimation posts the payload's hex and the transaction's length, read-only calls post the sender and each argument's hex in order, account and info calls name the address and resource; a contract's function is named in full, whatever characters its Clarity name has. Repeating a call asks the node again. A success answer is returned with its fields unchanged (also after storing it as JSON and reading it back) and a node's refusal of a broadcast or estimate is returned as that refusal; malformed answers, error statuses and transport failures are errors, never a success or a panic.",
 ["inputs","fault_sequences"],"all transactions, arguments and node answers (status, body, broken connection)",
 "The tests that talk to a node are not run offline; no test checks a request or an error answer.",
 ["stacks/src/rpc.rs"],[("request construction and response mapping","stacks/src/rpc.rs")],obs=["request seen by a local server, value returned to the caller"])
p("C22","Signature hashing and encoding primitives match the Stacks chain",
 "The hash before signing is SHA-512/256 of previous hash, authorization type, 8-byte fee and 8-byte nonce; the hash after is of that, a zero byte and the 65 signature bytes; signing and then verifying one step gives back the signer's key and the same next hash. A message signature is the recovery id followed by the 64-byte compact signature, converts to and from it exactly, and bytes of another length, an unknown recovery id or out-of-range values are errors. Different previous hashes, types, fees or nonces give different results.",
 ["inputs"],"all hashes, types, fees, nonces, keys and signature bytes",
 "No test calls these directly with varied inputs.",
 ["stacks/src/crypto/hash.rs"],[("pre/post sign hashes","stacks/src/crypto/hash.rs"),("signature conversions","stacks/src/crypto/hash.rs")],obs=["hash chain functions and signature conversions"])
p("C23","A flow from mnemonic to broadcast carries one account, nonce, fee and payload",
 "Opening an account from a mnemonic, asking the node for its nonce, building, pricing, signing and broadcasting a transaction, in any order and any number of times, keeps every step about the same things: the node is asked about the address whose hash the transaction's origin carries; the transaction built carries the nonce the node last reported, every u64 included; the node estimates the very payload and length that are then sent, and the first estimate becomes the fee; the bytes broadcast are the signed transaction's and verify for the account exactly when nothing was changed after signing. A failed, refused or malformed answer changes neither account, nonce nor transaction. The hexadecimal value a read-only call returns decodes to the value the node encoded.",
 ["histories","inputs","fault_sequences"],"all mnemonics, account indexes, transactions, orders of steps and node answers",
 "Each test looks at one function; the tests that talk to a node do not run offline, and none connects wallet, builder, signer and node.",
 ["stacks/src/wallet.rs","stacks/src/rpc.rs","stacks/src/transaction/builder.rs","stacks/src/transaction/base.rs","stacks/src/transaction/signer.rs","stacks/src/transaction/network.rs"],
 [("account keys and addresses","stacks/src/wallet.rs"),("requests and answers","stacks/src/rpc.rs"),("transactions from settings","stacks/src/transaction/builder.rs")],
 obs=["requests seen by a local server","serialised transaction and verification before sending"])
p("C24","Calls do not influence one another, not even from several threads",
 "What a call answers depends only on its arguments and on the object it is made on: not on calls made before on other objects, on failures in between, or on what other threads do; repeating a call gives the same answer. Copies and separately made tuples, transactions, signing sessions and wallets share nothing. Threads that use the library at the same time, each with objects of its own, get exactly the answers that they would get alone, whatever the interleaving, and none of them panics or waits forever.",
 ["schedules","histories"],"all programs of calls, orders of sessions and interleavings of threads",
 "Every test makes a few calls in one thread and looks at each object once; none compares a call's answer after other calls or beside other threads.",
 ["stacks/src/clarity/impl.rs","stacks/src/crypto/c32.rs","stacks/src/crypto/b58.rs","stacks/src/crypto/hex.rs","stacks/src/crypto/hash.rs","stacks/src/transaction/base.rs","stacks/src/transaction/auth.rs","stacks/src/transaction/signer.rs","stacks/src/wallet.rs"],
 [("no shared mutable state: values and objects are owned","stacks/src/clarity/impl.rs"),("fresh buffers per call","stacks/src/crypto/c32.rs"),("signing state inside the session","stacks/src/transaction/signer.rs"),("account cache inside the wallet","stacks/src/wallet.rs")],
 obs=["answers of calls made by several threads at once, and of the same calls in other orders"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
