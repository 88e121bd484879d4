#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A one-time key is never used twice and the signing index only moves forward",
 "Over any sequence of signing and set-index calls on one fast signer, every successful signature carries the index the signer reported just before, that index then advances by exactly one, and no index is ever signed twice. Moving the index backwards, to or past the number of keys, or signing after the last key, is refused with an error; a refused call changes neither the index nor any later signature. The basic signer also signs at its current index, advances it by one and refuses to sign past the end, and for both signers the remaining-signature count equals the number of keys minus the index.",
 ["histories", "inputs", "configurations"],
 "all call sequences (sign, set-index to any 32-bit value, queries), all heights, all hash functions, both language implementations",
 "The tests set an index at most twice and sign a handful of times; reuse, rewind and exhaustion are properties of every history.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/algsxmss.c",
  "src/rust_wrapper/qrl/xmss_fast.rs", "src/rust_wrapper/qrl/xmss_basic.rs", "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/xmss_alt/algsxmss_fast.rs", "src/rust_wrapper/xmss_alt/algsxmss.rs"],
 [("range and no-rewind test before any state change", "xmssfast_update, algsxmss_fast.c"), ("index stored big-endian in the first 4 bytes of the secret key", "xmssBase.cpp getIndex/setIndex"), ("index advanced before the signature is assembled", "xmssfast_Signmsg, xmss_Signmsg")],
 [("index", "next one-time key to use", "secret key bytes 0..3")],
 ["getIndex", "getRemainingSignatures", "signature bytes 0..3", "thrown invalid_argument / Err"])

prop("C02", "Every signature a signer produces verifies under its public key",
 "For every seed, supported height, hash function, Winternitz parameter (4, 16, 256), message of any length and every index from first to last, the signature a signer produces verifies under that signer's public key with the same Winternitz parameter. The signature and the keys have exactly the sizes the library announces, and the height recovered from the signature's size is the signer's height.",
 ["inputs", "histories", "configurations"],
 "all seeds, heights 4,6,8,..., hash functions, w, messages (0 bytes to megabytes), all indices reached by any mix of signing and skipping",
 "Tests sign a few short messages at the first indices of height-4 trees (and one height-10 smoke test without assertions).",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/wots.c", "src/xmss-alt/xmss_common.c", "src/xmss-alt/hash.c",
  "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/xmss_alt/algsxmss.rs", "src/rust_wrapper/xmss_alt/algsxmss_fast.rs", "src/rust_wrapper/xmss_alt/wots.rs", "src/rust_wrapper/xmss_alt/xmss_common.rs"],
 [("authentication path maintained by BDS traversal", "bds_round, bds_treehash_update"), ("WOTS+ chains and checksum", "wots.c"), ("root recomputation", "validate_authpath, xmss_common.c")],
 observe=["sign", "verify", "getSignatureSize", "getHeightFromSigSize"])

prop("C03", "Verification accepts exactly the valid signatures and survives any input",
 "Verification returns true only if the signature is one the XMSS specification accepts for that message, public key (descriptor, root and public seed) and Winternitz parameter; changing any byte of message, signature, root, public seed or of the descriptor's hash, signature-type or height field makes it fail. Byte strings of any other size, heights that do not match, and unknown descriptor fields are rejected. Verification never crashes, hangs, or reads outside its inputs, gives the same answer every time and leaves its inputs unchanged.",
 ["inputs", "configurations"],
 "all messages, signatures, public keys of any length and content, all w in 4, 16, 256, all heights up to the largest a descriptor can express",
 "Tests flip one or two bytes of one signature and try a few wrong sizes.",
 ["src/qrl/xmssBase.cpp", "src/qrl/qrlDescriptor.h", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c", "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/qrl_descriptor.rs", "src/rust_wrapper/xmss_alt/xmss_common.rs", "src/rust_wrapper/xmss_alt/wots.rs"],
 [("size, type and height checks before any byte is read", "XmssBase::verify"), ("recomputed root compared over all 32 bytes", "xmss_Verifysig")],
 observe=["verify"])

prop("C04", "Keys and signatures are the deterministic, specified XMSS values everywhere",
 "A signer's secret key, public key, root and every signature are fully determined by seed, height, hash function, Winternitz parameter, index and message, and equal byte for byte the values of the XMSS specification with this library's conventions (key derivation by SHAKE-256 of the 48-byte seed, 3-byte descriptor prefix). The fast and the basic signer, and the C++ and the Rust implementation, produce identical keys and signatures for identical inputs.",
 ["inputs", "configurations", "histories"],
 "all seeds, heights, hash functions, w, indices and messages; both signers; both languages",
 "Tests compare a handful of hard-coded keys; signatures are pinned only for single inputs, and Rust against C++ only through copied constants.",
 ["src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c", "src/xmss-alt/hash_address.c", "src/xmss-alt/xmss_common.c", "src/qrl/xmssBase.cpp",
  "src/rust_wrapper/xmss_alt/algsxmss.rs", "src/rust_wrapper/xmss_alt/algsxmss_fast.rs", "src/rust_wrapper/xmss_alt/wots.rs", "src/rust_wrapper/xmss_alt/hash.rs", "src/rust_wrapper/xmss_alt/hash_address.rs"],
 [("hash addresses separate every hash call", "hash_address.c"), ("seed expansion", "xmss_Genkeypair, xmssfast_Genkeypair, expand_seed")],
 observe=["getSK", "getPK", "getRoot", "getPKSeed", "getSKSeed", "getSKPRF", "sign"])

prop("C05", "A signature does not depend on how its index was reached",
 "For the fast signer, the signature of a given message at index i is the same whether i was reached by signing every earlier index, by one set-index jump, or by any mix of jumps and signatures, for every i in the tree. Setting the index to its current value has no effect on any later signature.",
 ["histories", "configurations"],
 "all forward paths from 0 to i over all i in the tree, all heights",
 "Tests compare one jump of at most 10 positions in a 16-leaf or 64-leaf tree; the traversal state differs at almost every index.",
 ["src/xmss-alt/algsxmss_fast.c", "src/qrl/xmssFast.cpp", "src/rust_wrapper/xmss_alt/algsxmss_fast.rs", "src/rust_wrapper/qrl/xmss_fast.rs"],
 [("BDS state advanced once per skipped index", "xmssfast_update"), ("tree-hash instances, stack, retain and keep arrays", "bds_round, treehash_update")],
 [("BDS state", "authentication path of the next leaf and what is needed to compute later ones", "bds_state")],
 ["sign", "setIndex"])

prop("C06", "A one-time signature cannot be turned into another message's by hashing forward",
 "For each supported Winternitz parameter (4, 16, 256) the chain positions that a one-time signature reveals encode the message digest together with its complete checksum, so that for two different digests neither position vector dominates the other. Consequently, advancing the chains of one signature never yields a signature that verifies for a different digest, and signer and verifier always use the same positions.",
 ["inputs", "configurations"],
 "all pairs of 32-byte digests, including extreme ones, for w = 4, 16, 256",
 "Tests never look at chain positions; they use w = 4 and 16 with digests of fixed messages.",
 ["src/xmss-alt/wots.c", "src/xmss-alt/wots.h", "src/rust_wrapper/xmss_alt/wots.rs"],
 [("base-w digits and shifted checksum", "base_w, wots_sign, wots_pkFromSig"), ("parameter derivation", "wots_set_params")],
 observe=["sign", "verify"])

prop("C07", "The tree pool issues every index exactly once, under any concurrency",
 "However many threads take trees from one pool and however they interleave, every tree handed out belongs to a distinct index, the indices handed out are consecutive from the starting index, and a call that begins after another has returned gets a larger index. The tree handed out for an index is the same for every pool size and schedule, is derived from base seed, height and index only, and starts at signing index 0. The reported current index is the starting index plus the number of calls that have claimed a tree.",
 ["schedules", "histories", "configurations"],
 "all thread interleavings, pool sizes 0,1,2,..., starting indices, mixes of taking a tree, querying availability and the current index",
 "The test uses a few threads on one schedule per run and compares only uniqueness of the trees.",
 ["src/qrl/xmssPool.cpp", "src/qrl/xmssPool.h", "src/rust_wrapper/qrl/xmss_pool.rs"],
 [("index claimed and cache popped in one critical section", "XmssPool::getNextTree"), ("cache refilled to cover current index .. current index + pool size", "fillCache"), ("seed of index i: SHAKE-256 of base seed and i+1", "prepareTree")],
 [("current index", "next index to hand out", "XmssPool::_current_index"), ("cache", "pending trees of the next indices, in order", "XmssPool::_cache")],
 ["getNextTree", "getCurrentIndex", "isAvailable"])

prop("C08", "The tree pool always makes progress and contains failures",
 "Every call to take a tree returns, for every pool size including zero and every interleaving, and availability queries never block and never report a tree that is not ready, and once a pool with a cache has finished building they report the tree. If building a tree fails, exactly the call that claimed its index reports the error, its index stays consumed, and later calls go on to later indices. Destroying a pool with trees still being built waits for them and does not hang or crash.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings, pool sizes, failing tree constructions, destruction with pending builds",
 "Tests take a few trees from pools that never fail; no test fails a build or destroys a busy pool.",
 ["src/qrl/xmssPool.cpp", "src/qrl/xmssPool.h", "src/rust_wrapper/qrl/xmss_pool.rs"],
 [("waiting for a future outside the lock", "XmssPool::getNextTree"), ("empty-cache path builds inline", "XmssPool::getNextTree"), ("exceptions carried by the future", "fillCache")],
 observe=["getNextTree", "isAvailable", "destructor"])

prop("C09", "A wallet is recovered completely from its extended seed",
 "The 3-byte descriptor and the key parameters (hash function, signature type, even height up to 30, address format) determine each other, and strings of other lengths or with an unknown hash function or signature type are rejected. A signer rebuilt from another's extended seed, directly or through its hex or mnemonic form, has the same descriptor, seed, secret and public keys, address and signatures. Seeds that are not 48 bytes, extended seeds that are not 51 bytes, and heights that are odd or not above 2 are refused.",
 ["inputs", "configurations"],
 "all descriptor byte values, all valid parameter combinations, all seeds",
 "The stable tests check three descriptors.",
 ["src/qrl/qrlDescriptor.h", "src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/rust_wrapper/qrl/qrl_descriptor.rs", "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/xmss_fast.rs", "src/jswrapper/jsqrlwrapper.cpp"],
 [("nibble packing of the descriptor", "QRLDescriptor::getBytes / fromBytes"), ("extended seed constructor", "XmssBase(extended_seed)")],
 observe=["getExtendedSeed", "QRLDescriptor", "getPK", "getSK", "getAddress"])

prop("C10", "An address identifies its public key and mistyped addresses are rejected",
 "The address of a 67-byte public key is its descriptor, the SHA-256 of the whole key, and the last 4 bytes of the SHA-256 of those 35 bytes; it validates. An address validates only if it is 39 bytes long, its descriptor is known with the supported address format, and its last 4 bytes match the SHA-256 of its first 35, so changing bytes of a valid address without recomputing the checksum makes it invalid. Public keys of other sizes or with an unsupported address format have no address, and validation never throws.",
 ["inputs"],
 "all public keys and all byte strings offered as address",
 "Tests check two addresses and one corrupted one.",
 ["src/qrl/qrlHelper.h", "src/rust_wrapper/qrl/qrl_helper.rs", "src/jswrapper/jsqrlwrapper.cpp", "src/qrl/xmssBase.cpp"],
 [("4-byte checksum", "QRLHelper::getAddress, addressIsValid")],
 observe=["getAddress", "addressIsValid"])

prop("C11", "Mnemonics encode binary data losslessly and bad mnemonics are rejected",
 "Encoding any byte string whose length is a multiple of 3 gives one word per 12 bits, separated by single spaces, and decoding gives the byte string back; other lengths are refused. The word list has 4096 distinct words, the same in every implementation. Decoding refuses any text with an unknown word or an odd number of words, whatever white space separates the words.",
 ["inputs"],
 "all byte strings, all texts, all 4096 words in every position",
 "Tests use half a dozen phrases; most words of the list never occur.",
 ["src/qrl/misc.cpp", "src/qrl/wordlist.cpp", "src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/wordlist.rs"],
 [("12-bit regrouping", "bin2mnemonic, mnemonic2bin"), ("word list", "wordlist.cpp, wordlist.rs")],
 observe=["bin2mnemonic", "mnemonic2bin"])

prop("C12", "Hexadecimal text encodes binary data losslessly and bad text is rejected",
 "Encoding gives two lower-case digits per byte, in order, with a line break after every full group of the requested wrap width (none for width 0, none at the end); decoding unwrapped text, in either case, gives the bytes back. Decoding refuses text of odd length or with any character that is not a hexadecimal digit, and never crashes. Converting text to bytes keeps every byte.",
 ["inputs"],
 "all byte strings, all wrap widths, all texts including non-ASCII characters",
 "Tests use a few fixed strings.",
 ["src/qrl/misc.cpp", "src/rust_wrapper/qrl/misc.rs"],
 [("digit check before conversion", "hstr2bin"), ("wrapping counter", "bin2hstr")],
 observe=["bin2hstr", "hstr2bin", "str2bin"])

prop("C13", "The hash functions compute SHAKE-128, SHAKE-256 and SHA-256 for every length",
 "For every input length and every output length, the library's SHAKE-128 and SHAKE-256 return the FIPS 202 output, and its SHA-256 returns the FIPS 180-4 digest; in C++ and in Rust. Iterated SHA-256 with count n applies the hash exactly n times and refuses n = 0. Inputs are left unchanged.",
 ["inputs"],
 "all inputs, with emphasis on lengths around every block boundary, and all output lengths",
 "Tests pin one or two short inputs with 32-byte outputs: no block boundary, no multi-block input, no long output.",
 ["src/xmss-alt/fips202.c", "src/qrl/hashing.cpp", "src/shasha/shasha.cpp", "src/rust_wrapper/xmss_alt/fips202.rs", "src/rust_wrapper/qrl/hashing.rs", "src/rust_wrapper/shasha/shasha.rs"],
 [("Keccak permutation, absorb with padding 0x1F..0x80, squeeze", "fips202.c, fips202.rs"), ("iteration", "sha2_256_n")],
 observe=["shake128", "shake256", "sha2_256", "sha2_256_n"])

prop("C14", "Random seeds depend on fresh system entropy or the call fails",
 "A random seed of the requested size is the SHAKE-256 of exactly that many fresh bytes from the system's random source followed by all the caller's entropy (in the browser, of exactly that many bytes from the platform generator, unchanged). If the source cannot be opened, ends early, returns an error or is missing, the call fails and yields no seed; it never falls back to another source or to fewer fresh bytes. The browser version refuses sizes that are not positive integers, and for 16 bytes or more refuses an all-zero answer.",
 ["fault_sequences", "inputs"],
 "all seed sizes, all entropy strings, all failures of the random source at every point (open, any read, short reads, interruption)",
 "Tests check that two seeds differ; no test makes the source fail or looks at how much of it is used.",
 ["src/qrl/misc.cpp", "src/rust_wrapper/qrl/misc.rs", "src/jswrapper/getRandomSeed.js"],
 [("stream state checked after open and after read", "getRandomSeed, misc.cpp"), ("OsRng panics on failure", "get_random_seed, misc.rs"), ("WebCrypto only, fail closed", "getRandomSeed.js")],
 observe=["getRandomSeed / get_random_seed", "bytes consumed from the source"])

prop("C15", "Hash-chain seeds are the specified function of seed, shift and position",
 "The i-th hash-chain seed is the SHAKE-256 (32 bytes) of the seed followed by the shift and i, each as 4 little-endian bytes; exactly the requested number is returned, in order, and asking for fewer or more does not change the common ones. Different (shift, position) pairs for one seed always hash different inputs, and the caller's seed is left unchanged.",
 ["inputs"],
 "all seeds of any length, all 32-bit shifts, counts from 0 to beyond 65536",
 "Tests pin the first seeds of one chain with small shifts; no value needs more than the lowest byte.",
 ["src/qrl/misc.cpp", "src/rust_wrapper/qrl/misc.rs"],
 [("two 32-bit little-endian counters appended to the seed", "getHashChainSeed, get_hash_chain_seed")],
 observe=["getHashChainSeed"])

prop("C16", "Dilithium objects sign, open and split messages faithfully",
 "A signed message is the signature followed by the unchanged message; it opens successfully under the signer's public key giving back the message, and splitting it returns exactly the message and the signature. Opening fails for a signed message that was changed, for another public key, and for public keys or signed messages of the wrong size; objects cannot be built from keys of the wrong size, and an object built from a key pair's bytes signs for that pair. Default construction makes a fresh key pair each time.",
 ["inputs", "histories"],
 "all messages of any length, all corruptions and sizes, all sequences of operations on several objects",
 "Tests sign one 7-byte message and flip one byte; splitting and wrong sizes are untested in C++ and Rust.",
 ["src/dilithium/dilithium.cpp", "src/dilithium/dilithium.h", "src/rust_wrapper/dilithium/dilithium.rs", "src/jswrapper/jsdilwrapper.cpp"],
 [("buffer sizing and return code of the reference functions", "Dilithium::sign, sign_open"), ("offset of the message in a signed message", "extract_message, extract_signature")],
 observe=["sign", "sign_open", "extract_message", "extract_signature", "getPK", "getSK"])

prop("C17", "Kyber key exchange agrees, and wrong sizes are refused",
 "If one party encapsulates to another's public key and the other decapsulates the ciphertext with its secret key, both hold the same 32-byte key; a different key pair or a changed ciphertext does not give that key. Objects built from a key pair's bytes act for that pair and expose those bytes unchanged; keys and ciphertexts of the wrong size are refused without touching the object's state. A failure of the underlying primitive is reported.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of encapsulation and decapsulation among several parties, all sizes, failing primitives",
 "The tests run one exchange.",
 ["src/kyber/kyber.cpp", "src/kyber/kyber.h", "src/rust_wrapper/kyber/kyber.rs", "src/jswrapper/jskybwrapper.cpp"],
 [("buffers sized before the reference call, return code compared with 0", "Kyber::kem_encode, kem_decode")],
 observe=["kem_encode", "kem_decode", "getMyKey", "getCypherText", "getPK", "getSK"])

prop("C18", "The JavaScript bindings agree with the core library",
 "Through the JavaScript interface, keys, hex seed, mnemonic, address, signatures, verification answers and index behaviour of a signer equal those of the core library for the same inputs, the text address is the letter Q followed by the hex address, and a signer rebuilt from its hex seed or mnemonic is the same signer. The address queries return the hash function, signature type and height of the key the address was made from, and validation of a text address agrees with validation of its bytes. Text that is too short or not hexadecimal is refused with an error.",
 ["inputs", "histories", "configurations"],
 "all seeds, heights, hash functions, addresses and texts accepted by the bindings",
 "The browser tests use fixed seeds of one height and a few addresses, and cannot run without the compiled bundle.",
 ["src/jswrapper/jsqrlwrapper.cpp", "src/qrl/qrlHelper.h", "src/qrl/misc.cpp"],
 [("descriptor and raw seed taken from the extended seed", "XmssWrapper::fromHexSeed, fromMnemonic"), ("prefix removed before decoding", "getBinAddress")],
 observe=["registered binding functions and classes"])

prop("C19", "Independent objects and concurrent calls do not influence each other",
 "Results of key generation, signing, verification, hashing, encoding and address functions depend only on their arguments and on the object they are called on: using other objects before, between or at the same time on other threads changes nothing. Calls never modify the messages, seeds, keys and signatures passed in, and values returned earlier never change later.",
 ["schedules", "histories"],
 "all interleavings of operations on distinct objects, sequential and on several threads",
 "Tests use one object at a time on one thread.",
 ["src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/hash.c", "src/xmss-alt/wots.c", "src/xmss-alt/xmss_common.c", "src/xmss-alt/fips202.c", "src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/misc.cpp", "src/qrl/hashing.cpp", "src/rust_wrapper/xmss_alt/hash.rs"],
 [("no shared mutable state; arguments copied before use", "throughout; XmssFast owns its BDS buffers")],
 observe=["sign", "verify", "getPK", "hash and codec functions"])

prop("C20", "A wallet rebuilt from its backup and saved index goes on as the same wallet",
 "A signer's extended seed, as bytes, hexadecimal text or mnemonic, is a complete backup: it is the same whenever it is taken, and a signer rebuilt from it (with the default Winternitz parameter) has the same keys and address and, moved to a saved index, continues exactly like the uninterrupted signer: same indices, same signatures, in either language and through the JavaScript interface. If every index is saved before its signature is released, then no one-time key serves two released signatures, whatever the sequence of crashes. A wallet whose keys are all used stays used up: moving the rebuilt signer to the saved index is refused.",
 ["histories", "crash_points", "configurations"],
 "all sequences of signing, jumping, saving, crashing and rebuilding, all backup forms, saved indices from 0 to the number of keys, all heights and hash functions",
 "Tests rebuild one signer from one extended seed and compare its keys; none continues a used wallet after rebuilding it.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/qrlDescriptor.h", "src/qrl/misc.cpp", "src/xmss-alt/algsxmss_fast.c", "src/jswrapper/jsxmss.cpp", "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/xmss_fast.rs", "src/rust_wrapper/qrl/misc.rs"],
 [("constructor from the extended seed", "XmssBase(extended_seed), XMSSBase::from_extended_seed"), ("forward jump with range check", "xmssfast_update")],
 [("extended seed", "descriptor and seed, all a wallet has to keep besides the index", "getExtendedSeed")],
 ["getExtendedSeed", "bin2hstr, bin2mnemonic and back", "setIndex", "sign", "getPK", "getAddress"])

prop("C21", "No call crashes, strays outside its memory, or leaves memory behind",
 "No call of the public interface, whatever byte strings, texts, sizes and numbers it is given (with a Winternitz parameter of 4, 16 or 256) and whatever was called before, crashes or panics, reads or writes outside the memory of its arguments and objects, or lets an answer depend on uninitialised memory: it answers or reports an error. Verification, address validation, hashing, hash-chain seeds and hexadecimal encoding answer every input. Memory is held by live objects and returned values only: repeating any calls, answered or refused, and freeing the objects they made does not make the memory in use grow.",
 ["inputs", "histories"],
 "all calls of the C++, Rust and JavaScript interfaces with arguments of every length around the expected one and of any content; all sequences of constructing, copying, moving, assigning, using, refusing and freeing",
 "Tests run plain builds on well-formed inputs: an access one byte too far, a value from uninitialised memory or a leak on an error path changes none of their results.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssPool.cpp", "src/qrl/misc.cpp", "src/qrl/qrlHelper.h", "src/qrl/qrlDescriptor.h", "src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/fips202.c", "src/xmss-alt/hash.c", "src/xmss-alt/wots.c", "src/dilithium/dilithium.cpp", "src/kyber/kyber.cpp", "src/jswrapper/jsqrlwrapper.cpp", "src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/dilithium/dilithium.rs"],
 [("sizes checked before use", "every public function that takes bytes or text"), ("buffers owned by containers, freed when a constructor or a call throws", "XmssFast, XmssBasic, treehash"), ("refusals as errors, not panics", "QRLError, std::invalid_argument")],
 [("memory in use", "bytes allocated and not freed", "allocator")],
 ["every public call", "process exit", "bytes in use"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
