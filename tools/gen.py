"""Writes properties.jsonl and MANIFEST.json from one table."""
import os
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
p('C01','Hex, Base32 and Base64 codecs are exact inverses with canonical decoding',
 'Decoding an encoded byte string with the same hex, little-endian hex, Base32, Base32-hex, Base64 or Base64-URL codec returns exactly the original bytes and length. The decoders accept exactly the strings that are the encoding of some byte string (hex and Base32 letters in either case) and reject everything else, including bad padding and non-zero leftover bits. No call reads beyond the given input or writes beyond the size its size function announces.',
 ['inputs'],'every byte string and every candidate text of every length',
 'tests hold a list of short vectors; they cannot cover every length residue together with every invalid character position and every leftover-bit value',
 ['src/encoding.c'],[('encode/decode loops and tail cases','src/encoding.c base16_*, base32_*, base64_*'),('character tables','src/encoding.c')],observe=['return values, output bytes and output length of *_encode, *_decode, *_test, *_encode_size, *_decode_size'])
p('C02','Incremental hashing depends only on the concatenated message',
 'For every hash function, feeding a message through any sequence of update calls makes the hash absorb exactly the message bytes in order, once each, in full blocks, and leaves the remaining tail buffered, whatever the chunk sizes. No update call reads outside the given chunk or writes outside the hash context.',
 ['inputs','histories'],'every chunk length, every number of bytes already absorbed, and so by induction every sequence of update calls, for every algorithm',
 'tests feed whole short vectors or a few fixed splits; boundary splits around the block size are a small sample of all histories',
 ['src/hash.c'],[('update: buffer fill, whole block loop, tail copy','src/hash.c *_update')],[('absorbed length','number of bytes hashed so far','context size/pos fields'),('pending block','bytes not yet compressed','context block field')],['calls to the compression function, context contents after update'])
p('C03','Hash finalisation pads every message as its standard prescribes',
 'When a hash is finalised, the blocks compressed are exactly the message tail followed by the padding and length encoding its standard prescribes for that total length, and the digest is the prescribed prefix of the final state in the prescribed byte order. This holds for every possible tail length and every total length.',
 ['inputs','histories'],'every message length (all tail lengths, all values of the length field) for every algorithm',
 'digest vectors cover few lengths; the padding boundary and the high half of the length field need specific lengths, some beyond what can be hashed in a test',
 ['src/hash.c'],[('final: padding, length encoding, state serialisation','src/hash.c *_final')],[('absorbed length','length encoded in padding','context size fields')],['blocks given to the compression function by final, digest bytes'])
p('C04','HMAC equals its definition for every key and message length',
 'A MAC computed through the keyed-hash interface with any hash algorithm equals H((K xor opad) || H((K xor ipad) || message)), where a key longer than the block size is replaced by its digest and a shorter one is zero padded. The result is independent of how the message is split over update calls.',
 ['inputs','histories'],'every hash algorithm, key length and key, message and split',
 'vectors use a handful of key lengths per algorithm; the boundary at exactly one block and keys longer than a block are rarely combined with each algorithm',
 ['src/hash.c'],[('hmac_init/update/final','src/hash.c hmac_*')],[('inner/outer contexts','keyed hash states','hmac context')],['sequence of hash operations performed, resulting tag'])
p('C05','HKDF and PBKDF2 outputs equal their definitions for every length',
 'Key material returned by HKDF extract/expand and by PBKDF2 is the byte string defined by RFC 5869 and RFC 8018 for the given hash, secret, salt, info, iteration count and requested length, including requests that are not a multiple of the digest size. Requests above the defined maximum length and unsupported hashes are refused.',
 ['inputs'],'every requested length, salt, info, positive iteration count, and hash algorithm',
 'vectors fix a few lengths; block counter and truncation mistakes at other lengths stay invisible',
 ['src/kdf.c'],[('hkdf_extract/hkdf_expand','src/kdf.c'),('pbkdf2_derive','src/kdf.c')],observe=['output bytes, return value, bytes fed to each HMAC'])
p('C06','Poly1305 equals its definition modulo 2^130-5 for every message',
 'For every 32-byte key and every message, in every chunking, the Poly1305 tag equals the sum of the message blocks (with their terminating bit) evaluated at the clamped key modulo 2^130-5, plus the second key half, modulo 2^128. Both the 64-bit and the 32-bit implementation satisfy this.',
 ['inputs','histories','configurations'],'every key, message, chunking; both limb sizes',
 'carry and final-reduction mistakes show up for roughly one in 2^64 random inputs, so vectors do not reach them',
 ['src/mac.c'],[('block multiply, carry, final reduction','src/mac.c poly1305_*')],[('accumulator limbs','partial sum modulo p','poly1305 context')],['tag bytes'])
p('C07','ChaCha20, Salsa20 and ARC4 keystreams are position exact',
 'Encrypting with ChaCha20 or Salsa20 xors each message byte with the keystream byte of its absolute position, for every split of the message over calls, with the 64-bit block counter carrying correctly, and the same holds for ARC4; applying the same operation again restores the message. In-place and separate buffers give the same bytes and nothing outside the output is written.',
 ['inputs','histories'],'every message length, every position at which a call starts, every counter value',
 'vectors use whole messages; partial-block starts and counter carries need specific histories',
 ['src/stream.c'],[('chacha20_crypt/salsa20_crypt/arc4_crypt','src/stream.c'),('counter increment in block functions','src/stream.c')],[('pos','bytes of the current keystream block used','stream contexts')],['output bytes, context after the call'])
p('C08','AEAD and secretbox authenticate exactly the transmitted bytes',
 'The ChaCha20-Poly1305 tag covers the associated data and ciphertext in order, each zero padded to 16 bytes, followed by their 64-bit lengths, whatever the call splitting, and encryption and decryption authenticate the same ciphertext bytes. Opening a secret box succeeds exactly when the supplied tag equals the tag of the supplied ciphertext, and then returns the sealed message.',
 ['inputs','histories'],'every associated data, message, split, and every forged box',
 'tests use fixed vectors and a few corrupted tags; they cannot cover every length residue or every forged bit',
 ['src/aead.c','src/ies.c'],[('chachapoly_* transcript','src/aead.c'),('secretbox_seal/secretbox_open','src/ies.c')],observe=['bytes absorbed by the authenticator, return value, output'])
p('C09','Block cipher decryption inverts encryption for every key and block',
 'For every supported block cipher, key size and key, decrypting an encrypted block returns the original block.',
 ['inputs'],'every key and every block of every cipher',
 'tests check some vectors per cipher; a wrong table entry or key schedule slip on the decryption side can affect a minute fraction of blocks',
 ['src/cipher.c'],[('per cipher encrypt/decrypt and key schedules','src/cipher.c')],observe=['output blocks'])
p('C10','Block cipher modes round-trip every length, in place and out of place',
 'For ECB, CBC, XTS (including ciphertext stealing), CTR, CFB and OFB, decrypting what was encrypted with the same key and starting value returns the original data for every length the mode admits, for separate and identical input and output buffers. Output positions beyond the data are untouched.',
 ['inputs','configurations'],'every data length, content, starting value, block size 8 or 16, aliased or not',
 'tests run vectors of a few lengths; stealing and chaining mistakes appear at specific residues only',
 ['src/cipher.c'],[('ecb/cbc/xts/ctr/cfb/ofb update, steal, unsteal','src/cipher.c')],observe=['output buffers, mode state after a call'])
p('C11','Padding removal accepts exactly the well-formed paddings',
 'Adding block padding yields a whole block whose last bytes all equal the number of bytes added, and removing padding succeeds exactly when the last byte is between one and the block size and all bytes it counts equal it, returning the unpadded length. On failure no length is exposed as valid.',
 ['inputs'],'every block content, block size and data length',
 'tests remove paddings they produced; malformed paddings number 2^128',
 ['src/cipher.c'],[('pkcs7_pad/pkcs7_unpad','src/cipher.c')],observe=['return value, reported length, padded block'])
p('C12','Buffered cipher interface releases exactly the bytes it has consumed',
 'Feeding data to the buffered cipher interface in any chunking processes the same blocks in the same order as feeding it at once, never writes more bytes than announced by its size function, and withholds exactly the final block when decrypting with padding.',
 ['inputs','histories'],'every chunk length and every fill level of the internal buffer, so every sequence of calls',
 'tests use a few fixed chunkings; errors need particular fill levels together with particular chunk lengths',
 ['src/cipher.c'],[('cipher_stream_update/final/update_size','src/cipher.c')],[('block_pos','bytes held back','cipher stream context')],['output bytes and lengths'])
p('C13','DER parsing is exact, in bounds, and inverse to DER writing',
 'The ASN.1 readers accept exactly the encodings their strictness rules allow, consume exactly the bytes of the element, and never read outside the given input, whatever that input is. Reading back what the writers produced yields the same value, and the size functions announce exactly the number of bytes written.',
 ['inputs'],'every byte string of every length, every value',
 'tests parse a few valid keys and signatures; the set of malformed inputs is unbounded',
 ['src/asn1.c'],[('asn1_read_*','src/asn1.c'),('asn1_size_*/asn1_write_*','src/asn1.c')],observe=['return value, consumed length, value'])
p('C14','Multi-precision integer kernels compute exact results with exact carries',
 'Addition, subtraction, comparison, shifting, multiplication by a word and full multiplication and squaring of multi-word integers return exactly the mathematical result modulo the output size together with the exact carry or borrow, for operands of every size and every value, and write only the result words.',
 ['inputs','configurations'],'every operand length and value; both product back ends',
 'carry chains that matter occur with probability about 2^-64 on random operands',
 ['src/mpi.c'],[('mpn_add/sub/mul/sqr/lshift/rshift/cmp families','src/mpi.c')],observe=['result words and returned carry'])
p('C15','Prime field arithmetic of every curve is exact for every operand',
 'For every supported curve field, addition, subtraction, negation, multiplication, squaring, inversion and conversion to and from bytes give the residue of the mathematical result for every pair of representable operands, and keep the representation bounds required by later operations. Square roots and roots of quotients report success exactly when the root exists.',
 ['inputs','configurations'],'every pair of field elements within the representation bounds, for each field and both word sizes',
 'a lost carry in a limb product changes results for a vanishing fraction of operands',
 ['src/fields','src/ecc.c'],[('fiat field routines and wrappers','src/fields/*.h, src/ecc.c fe_*')],[('limbs','loose/tight bounded digits','field element type')],['residue of the result'])
p('C16','Scalar reduction and arithmetic modulo the group order are exact',
 'Scalar addition, negation, subtraction, comparison, canonical-range checks and byte import/export agree with integer arithmetic modulo the group order for every scalar and every curve; import reports success exactly for encodings below the order.',
 ['inputs','configurations'],'every scalar value of every curve and both word sizes',
 'boundary values next to the order are reached with negligible probability and tests sample few',
 ['src/ecc.c'],[('sc_* routines','src/ecc.c')],observe=['scalar words, return flags'])
p('C17','Elliptic curve point formulas implement the group law',
 'Point addition, mixed addition, doubling, negation, equality and conversion between coordinate systems produce the point prescribed by the group law of the curve for every pair of points, including the exceptional cases (identity, equal points, opposite points) where the formula claims to handle them.',
 ['inputs'],'every pair of points in every projective representation, for every curve shape',
 'exceptional cases and wrong terms multiplied by a usually-zero factor are not hit by random multiplication tests',
 ['src/ecc.c'],[('jge_*/wge_* (Weierstrass), xge_* (Edwards), pge_*/mge_* (Montgomery)','src/ecc.c')],observe=['resulting coordinates'])
p('C18','Decoded public points lie on the curve and re-encode to the same bytes',
 'Importing a Weierstrass or Edwards public point succeeds only when the coordinates are canonical and satisfy the curve equation, with the sign or parity requested by the encoding, and rejects every other byte string, unknown prefix or wrong length.',
 ['inputs'],'every byte string given as a Weierstrass or Edwards point',
 'tests use a few invalid encodings; the set of malformed encodings is unbounded',
 ['src/ecc.c'],[('wge_import/xge_import/pge_import and set_x/set_y','src/ecc.c')],observe=['return value, resulting point'])
p('C19','Signature verifiers enforce every acceptance condition',
 'ECDSA, EdDSA and BIP340 verification returns success only if every component is canonical and in range, the key decodes, and the final group equation holds; ECDSA signing output is low-S and recovers to the signing key, and malformed lengths or encodings are rejected.',
 ['inputs'],'every signature, message, and public key byte string',
 'tests contain a finite list of invalid signatures; each missing range check is a separate input class',
 ['src/ecc.c'],[('ecdsa_verify, eddsa_verify, bip340_verify, signature import','src/ecc.c')],observe=['return value for each combination of component checks'])
p('C20','RSA message encodings are verified exactly and built as specified',
 'PKCS#1 v1.5 and PSS signature verification accept an encoded message exactly when it is the specified encoding of the given digest, v1.5 and OAEP decryption accept exactly the well-formed encodings and return exactly the embedded message, and the encoders produce these encodings for every admissible message length and key size.',
 ['inputs'],'every encoded message, digest, salt length, key size',
 'forgeries exploit single unchecked bytes; tests check a few corruptions out of 2^2048',
 ['src/rsa.c'],[('pss_encode/pss_verify, rsa_verify, pkcs1v15_unpad, oaep','src/rsa.c')],observe=['return value, recovered message'])
p('C21','Deterministic random generators follow their specified state updates',
 'For the HMAC, hash and counter generators, every initialise, reseed and generate call consumes its inputs in the specified order, advances the state as specified after every request, and returns the specified bytes for every requested length.',
 ['inputs','histories'],'every seed, additional input, requested length and sequence of calls',
 'vectors use fixed lengths; truncation, counter carry and additional input handling vary over unbounded lengths',
 ['src/drbg.c'],[('hmac_drbg_*, hash_drbg_*, ctr_drbg_*','src/drbg.c')],[('V, K, reseed counter','generator state','drbg contexts')],['state after each call, output bytes'])
p('C22','Bounded random numbers are in range and unbiased',
 'A uniform random number request with bound max returns a value below max (zero for bounds zero and one), rejecting exactly the raw values that would bias the result, and random 32-bit words and byte requests consume the generator output once, in order, without reuse.',
 ['inputs','histories'],'every bound, every generator output, every sequence of requests',
 'bias and off-by-one rejection thresholds cannot be seen in samples',
 ['src/rand.c'],[('rng_uniform, rng_random, rng_generate','src/rand.c')],[('pool position','unused pooled words','rng context')],['returned number as a function of raw words'])
p('C23','Memory helpers compare, xor and clear exactly the given range',
 'The comparison helpers return the sign (or equality) of the first difference over exactly n bytes, the xor helpers change exactly n bytes to the xor, clearing zeroes exactly n bytes, and the counter helpers increment exactly by one with carry across the whole counter, for every n.',
 ['inputs'],'every length, content and, where allowed, aliasing',
 'tests use short fixed arrays; constant-time code uses borrow arithmetic that is wrong only for particular byte pairs or lengths',
 ['src/util.c','src/bio.h'],[('torsion_memcmp, memequal, memxor, memzero','src/util.c'),('read/write/increment helpers','src/bio.h')],observe=['return value, memory after the call'])
p('C24','Keyed short hashes equal their definitions for every length',
 'SipHash (64-bit, modular, and fixed-width variants) and MurmurHash3 return the value defined by their reference algorithms for every key and message length, including every tail length.',
 ['inputs'],'every message length and content, every key or seed',
 'vectors cover few lengths; tail handling differs by residue and sign extension errors need bytes above 127',
 ['src/mac.c','src/util.c'],[('siphash_*','src/mac.c'),('murmur3_*','src/util.c')],observe=['returned value'])
p('C25','GCM, CCM and EAX authenticate lengths, data and associated data exactly',
 'For the authenticated block modes, the tag is computed from exactly the nonce, associated data, ciphertext (GCM, EAX) or message (CCM) and their lengths as specified, for every length and chunking, encryption and decryption derive the same tag, and verification accepts exactly matching tags of admissible size.',
 ['inputs','histories'],'every nonce length admitted, every data and associated data length and split',
 'vectors cover few length residues and no counter wrap',
 ['src/cipher.c'],[('gcm_*, ccm_*, eax_*, ghash_*, cmac_*','src/cipher.c')],observe=['blocks given to the cipher and to the authenticator, tag, return value'])
p('C26','Base58, Bech32 and CashAddr decode exactly what they encode',
 'Decoding an encoded value returns the same bytes, version and prefix; decoders reject every string whose checksum, alphabet, case mix, length or padding is not the one the encoder produces, and never write outside their output limits.',
 ['inputs'],'every payload and every candidate string',
 'tests hold a list of valid and invalid addresses; the language of rejected strings is unbounded',
 ['src/encoding.c'],[('base58_*, bech32_*, cash32_*','src/encoding.c')],observe=['return value, output'])
p('C27','Secret-dependent operations run in input-independent time',
 'Operations on secrets documented as constant time execute the same instruction and memory address sequence for all secret values of the same length.',
 ['inputs'],'all secrets',
 'functional tests do not observe timing or address traces',
 ['src/ecc.c','src/mpi.c','src/util.c'],[('branch-free selection and table scans','src/ecc.c, src/mpi.c sec_* routines')],observe=['execution trace'])
p('C28','The process-wide generator never repeats output across fork or threads',
 'Output drawn from the process-wide generator is never duplicated between parent and child processes or between threads, under every interleaving and fork point.',
 ['schedules','crash_points'],'all interleavings of threads and all fork points',
 'tests run few schedules',
 ['src/rand.c'],[('global lock, pid check and reseed','src/rand.c')],observe=['bytes returned to each process and thread'])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_CLAIMED   # noqa
open(HERE + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
M = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, json; print(z3.get_version_string())" && clang-18 --version',
     'hooks': {'guard': 'none', 'enable': 'no change to /repo is needed: the sources are compiled as they are', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'Every check compiles the current sources of /repo to LLVM IR and generates and discharges its obligations anew on each run; see DESIGN.md.'}
for x in P:
    i = x['id']
    if i in CLAIMS:
        level, note = CLAIMS[i]
        M['checks'].append({'property': i, 'quick_cmd': 'python3-vt run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt run.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'contract-based deductive verification of the compiled functions (own VC generator over LLVM IR, z3)',
                            'level': level, 'level_note': note})
    else:
        M['not_applicable'].append({'property': i, 'reason': NOT_CLAIMED[i]})
json.dump(M, open(HERE + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, S)
    assert x['statement'].count('. ') < 3, x['id']
jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties', len(M['checks']), 'claimed')
