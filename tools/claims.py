T = ' Trusted: lvc, z3, clang front end. Termination is not proved.'
CLAIMS = {
    'C01': ('proof', 'Encode, decode, test and size functions of all six codecs proved for every length below 2^59 and every content: output equals the standard encoding, accepted texts are exactly the encodings, all accesses in bounds.' + T),
    'C02': ('proof', 'Every update function and the generic dispatch proved against a ghost log of compressed blocks, for every buffered state and chunk length (sponge functions for every rate). Compression functions are opaque deterministic functions of state and block.' + T),
    'C03': ('proof', 'Every final function and the generic dispatch proved for every buffered state and every total length against the padding of its standard; compression functions opaque.' + T),
    'C04': ('proof', 'hmac_init, hmac_update and hmac_final proved for every algorithm, key length and content against a ghost log of hash operations; the hash interface itself is the contract of C02 and C03.' + T),
    'C06': ('proof', 'Clamping, buffering, block step, terminating block and final reduction proved for both limb sizes with a polynomial back end; limb bounds are a loop invariant.' + T),
    'C07': ('proof', 'Block functions, key setup, nonce derivation and crypt of ChaCha20 and Salsa20 proved for every position, counter and length, in place and separate; ARC4 key schedule and stream proved through array invariants.' + T),
    'C08': ('proof', 'Every call of the AEAD context and the secretbox functions proved against a ghost log of cipher and authenticator operations, every length, in place and separate. Cipher and authenticator are the contracts of C06 and C07.' + T),
    'C10': ('proof', 'ECB, CBC, XTS, CTR, OFB, CFB and stealing proved for every length and content, in place and separate, over an abstract block permutation. Stream modes start from every fill level for 8-byte blocks, and for 16-byte blocks from 0, 1 and 15 (thorough tier: all); other fill levels are only tested in the quick tier.' + T),
    'C11': ('proof', 'Padding and unpadding proved for block sizes 8 and 16 (and 1, 2, 3, 15, 32, 255), every content and length, in place and separate.' + T),
    'C12': ('proof', 'Initialisation, update, single-call and final functions of every mode proved for both block sizes, every buffered state, every chunk length and every padding setting over the mode functions of C10 and C25 and the padding of C11 as contracts.' + T),
    'C13': ('proof', 'Every reader and writer of asn1.c proved for every input length and content: accepted encodings, value, bytes consumed and bounds. Lenient lengths with more than 20 length bytes and the lenient version reader are only tested; big-integer import and export are assumed contracts.' + T),
    'C14': ('proof', 'Every kernel proved for every length: words and carries follow the exact school recurrences, so the telescoped sums are the integer statements; squaring is proved exactly for 1 to 4 words and tested beyond. The portable product macro (no 128-bit type) is proved for fixed lengths; inline assembly is only tested.' + T),
    'C15': ('proof', 'All nine fields in both word sizes: value congruence and limb bounds for every operand within the bounds, exact residues for the Montgomery fields and for byte export, power chains by exponent bookkeeping. Only tested: Montgomery conversion of P-224 with 32-bit words and the square roots of the fields with p = 1 modulo 4.' + T),
    'C16': ('proof', 'Addition, subtraction, negation, comparison, Barrett reduction of single and double width products, range tests and byte conversion proved for the scalar field of every curve and every operand; constants evaluated from the initialisers. Curves with identical fields share the proofs. Inversion and recoding are only tested.' + T),
    'C17': ('proof', 'Weierstrass, Montgomery and Edwards addition, mixed addition, doubling, negation, comparison and coordinate conversion equal the affine group law by polynomial identity over an arbitrary field, every exceptional case included. Field operations are the contracts of C15.' + T),
    'C22': ('proof', 'Uniform rejection, buffered words, byte requests and the key-erasing generate step proved for every buffer state, bound and length over an abstract stream cipher and entropy source. Uniformity of the raw words is an assumption.' + T),
    'C05': ('proof', 'hkdf_extract for every input; hkdf_expand and pbkdf2_derive against the transcript of keyed hashes for every key, salt and info of every length; the refused requests for every requested length. The number of blocks and iterations is taken from a list (up to 5 blocks, 7 iterations), other counts are only tested (bounded). The keyed hash is the contract of C04.' + T),
    'C18': ('proof', 'Weierstrass and Edwards import and decompression proved over an abstract field for every byte string (length, prefix, canonical coordinates, curve equation, sign), every curve. Field operations are the contracts of C15.' + T),
    'C19': ('proof', 'ECDSA sign, verify, recover, BIP340 and Schnorr verification, EdDSA sign and verify and the DER signature functions proved over an abstract group: accepted exactly when all conditions hold. BIP340 signing, the BIP340 challenge midstate, digest truncation and batch verification are only tested or not covered (bounded). Field, scalar, point and hash operations are contracts (C15, C16, C17, C02).' + T),
    'C20': ('proof', 'All v1.5, PSS and OAEP encoders and decoders proved for every content with modulus sizes and some message lengths from a list (unrolled); other sizes, and redrawing of zero padding bytes, are only tested (bounded). The RSA primitive, key import, hash and generator are contracts.' + T),
    'C21': ('proof', 'Initialise, reseed and generate of the three generators proved from every state for every seed and additional input content (any length for the HMAC and hash generators, a list of lengths for the counter generator). Requested lengths are a list of up to four blocks (unrolled), others only tested (bounded). Keyed hash, hash and AES are contracts.' + T),
    'C23': ('proof', 'Comparison, xor, clearing, byte order and counter helpers proved for every length and content.' + T),
    'C24': ('proof', 'SipHash-2-4 and MurmurHash3 equal ghost recurrences of their reference definitions for every length and content (modular variant with 128-bit products; the 32-bit product fallback is only tested).' + T),
}
NOT_CLAIMED = {
    'C27': 'timing is not a property of the functional semantics a contract speaks about; a contract on values cannot express instruction or address traces',
    'C28': 'quantifies over thread interleavings and fork points of the process-wide generator; contracts on sequential functions cannot express them',
}
for _i in range(1, 29):
    _k = 'C%02d' % _i
    if _k not in CLAIMS and _k not in NOT_CLAIMED:
        NOT_CLAIMED[_k] = 'not brought under contract yet'
