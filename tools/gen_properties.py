#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=None,**({"state":state} if state else {}))))

p("C01","Accepted tokens are authentic",
"Whenever signature verification returns Ok, the key set holds at least one key whose id is compatible with the token's (equal, or one of the two is absent), whose declared algorithm (if any) equals the token's, whose type is the one the token's algorithm is used with, and under which the token's decoded signature verifies, with the token's algorithm, over exactly the transmitted 'header.payload' text. In every other case verification does not return Ok.",
["inputs"],"every parsed token and every imported key set (any number, order, type and mix of keys, ids and algorithms present or absent)",
"The tests sample a few dozen token/key pairs; they cannot enumerate key sets, key orders, id/alg presence combinations or signatures.",
["src/verify.cc","jwt_verify_lib/verify.h"],[("key selection loop (kid, alg, kty) and per-algorithm dispatch","src/verify.cc verifyJwtWithoutTimeChecking")],
["status returned by verifyJwt / verifyJwtWithoutTimeChecking"])
p("C02","Verification is complete, order independent, and failures are exact",
"If some key of the set is eligible (compatible id, compatible algorithm, right type) and the token's signature verifies under it, verification returns Ok whatever the other keys are and whatever their order. Otherwise it returns JwksKidAlgMismatch exactly when no key is compatible in both id and algorithm, JwtEd25519SignatureWrongLength when an EdDSA token whose signature is not 64 bytes meets a compatible Ed25519 key, and JwtVerificationFail in all remaining cases.",
["inputs"],"every parsed token and every imported key set, in every order",
"Order and mixture of keys is an unbounded space; the tests use fixed sets of at most a few keys.",
["src/verify.cc"],[("continue trying further keys after a failed one; kid_alg_matched","src/verify.cc verifyJwtWithoutTimeChecking")],
["status returned by verifyJwtWithoutTimeChecking"])
p("C03","Asymmetric algorithms are bound to their primitive, hash and encoding",
"RS256/384/512 are verified as RSASSA-PKCS1-v1_5, PS256/384/512 as RSASSA-PSS with MGF1 over the same hash, ES256/384/512 as ECDSA over the digest with the signature being the fixed-width concatenation R||S (each exactly the byte length of the key's field, any other length is rejected), and EdDSA as Ed25519 with a 64-byte signature. The hash is the SHA-2 variant the algorithm's number names, and the primitive is given the complete signature and the complete signed text.",
["inputs"],"every key, signature of any length (also 0, odd, too short, too long) and signed text of any length and content",
"Tests use one valid signature per algorithm plus a few corruptions; dropping a byte from the comparison, another salt/hash, or lax lengths are not visible to them in general.",
["src/verify.cc"],[("verifySignatureRSA/RSAPSS/EC/Ed25519","src/verify.cc")],["status of verification"])
p("C04","HMAC tokens need the complete MAC under the complete key",
"An HS256/384/512 token is accepted under a symmetric key if and only if the decoded signature equals, in length and in every byte, the HMAC with SHA-256/384/512 of the signed text under the complete decoded key bytes. Truncated, extended or empty signatures are rejected.",
["inputs"],"every key (any length, embedded NULs), every signature of any length, every signed text",
"A comparison that ignores one byte, or a length check off by one, passes sampled tests.",
["src/verify.cc"],[("verifySignatureOct: length check and CRYPTO_memcmp","src/verify.cc")],["status of verification"])
p("C05","Time window is exact for all 64-bit values",
"For every now, clock skew, not-before and expiration value in 0..2^64-1, the time check returns JwtNotYetValid exactly when not-before exceeds now by more than the skew, otherwise JwtExpired exactly when an expiration is present (non-zero) and now exceeds it by more than the skew, otherwise Ok; as over unbounded integers, without wrap-around.",
["inputs"],"all quadruples of 64-bit values","Tests use a handful of small values around 'now'; the boundary cases and overflow cases are 2^256 many.",
["src/jwt.cc","jwt_verify_lib/jwt.h"],[("verifyTimeConstraint","src/jwt.cc")],["status of Jwt::verifyTimeConstraint, verifyJwt"])
p("C06","Audience check is exact up to scheme and trailing slash",
"A token passes the audience check if and only if no audience is configured, or some token audience equals some configured audience after normalising both, where normalising removes one leading 'http://' or 'https://' and one trailing '/' and nothing else (no case folding, no further slash or prefix removal; the text that is just a scheme becomes empty). An audience that is configured as empty text still counts as configured.",
["inputs"],"every list of configured audiences and of token audiences, of any length and content",
"Tests try about a dozen literal audiences.",
["src/check_audience.cc","jwt_verify_lib/check_audience.h"],[("sanitizeAudience on both sides, set membership","src/check_audience.cc")],["CheckAudience::areAudiencesAllowed"])
p("C07","verifyJwt composes audience, time and signature checks without bypass",
"verifyJwt returns Ok only if every applicable check passes: signature always, the time window always (at the given now, or the current time, with the given skew or 60 seconds by default), and the audience check when audiences are given. The status is that of the first failing check in the order audience, time, signature, and verification modifies neither the token nor the key set.",
["inputs","configurations"],"every overload, token, key set, audience list, time and skew",
"Tests exercise few combinations of simultaneously failing checks.",
["src/verify.cc","jwt_verify_lib/verify.h","jwt_verify_lib/jwt.h"],[("the verifyJwt overloads","src/verify.cc")],["status of verifyJwt"])
p("C08","Parsed token fields are exactly what the text says",
"Parsing returns Ok only for text of exactly three non-empty sections separated by exactly two dots, whose sections are valid base64url, whose header and payload are JSON objects, with a string alg among the thirteen supported ones and with kid, iss, sub, jti strings, iat, nbf, exp numbers in 64-bit range and aud a string or list of strings when present. Every field then holds exactly the transmitted section, its decoding, or the claim's value (a single aud string as a one-element list, lists in order), and absent claims hold their defaults.",
["inputs"],"every input string","Tests parse a few dozen literals; the guarantee is over all strings.",
["src/jwt.cc","jwt_verify_lib/jwt.h"],[("parseFromString","src/jwt.cc")],["status and fields of Jwt after parseFromString"])
p("C09","Parse failures report the first failing check",
"Parsing text that is not acceptable returns the status that names the first problem in the documented order: section count, header base64, header JSON, alg missing or not a string, alg unsupported, kid type, payload base64, payload JSON, iss, sub, iat, nbf, exp (wrong type before out of range), jti, aud, signature base64. It never returns Ok and never throws or crashes.",
["inputs"],"every input string and every combination of simultaneous defects","Tests inject one defect at a time.",
["src/jwt.cc"],[("parseFromString","src/jwt.cc")],["status of Jwt::parseFromString"])
p("C10","Parse result does not depend on history; copies are equal",
"The status and all fields after a parse depend only on the text parsed, not on what the object held before, and copying or assigning a token (also to itself, also over a used object) yields the fields that parsing the source's text yields. The text argument may alias a field of the object.",
["histories","inputs"],"every sequence of parses and assignments on one object","Tests use fresh objects.",
["src/jwt.cc","jwt_verify_lib/jwt.h"],[("parseFromString resets the fields; copy constructor and operator=","src/jwt.cc")],["fields of Jwt"])
p("C11","Struct accessors are exact",
"Each typed accessor returns OK with exactly the stored value if the dotted path names a value of the accessor's type, MISSING if a component of the path is absent, WRONG_TYPE if an intermediate component is not an object or the final value has another type, and leaves its output unchanged unless it returns OK (a list accessor that fails may have appended leading elements). The list accessor accepts a string (appending it) or a list of only strings (appending all in order).",
["inputs"],"every protobuf Struct of any size and nesting, every dotted name",
"Nesting depth, list length and type combinations are unbounded.",
["src/struct_utils.cc","jwt_verify_lib/struct_utils.h"],[("GetValue path walk; kind checks","src/struct_utils.cc")],["StructUtils getters"])
p("C12","Integer claims convert exactly or are rejected",
"The unsigned integer accessor accepts a number v if and only if 0 <= v < 2^64 and then yields exactly v truncated toward zero; every other number, including negative, huge, infinite and NaN, is reported out of range without undefined behaviour. Negative zero yields 0.",
["inputs"],"every double value","Tests try a few numbers; there are 2^64 doubles.",
["src/struct_utils.cc"],[("GetUInt64 range check before the cast","src/struct_utils.cc")],["StructUtils::GetUInt64, Jwt iat/nbf/exp"])
p("C13","JWKS import keeps exactly the valid keys, in order",
"Importing a JSON key set yields, in document order, exactly one key per entry of 'keys' that is individually acceptable, other entries never suppressing or altering it; the status is Ok exactly when at least one key resulted, otherwise it names the first failing entry (JwksNoValidKeys when no entry could even be tried). Text that is not a JSON object gives JwksParseError, a 'keys' that is not a list JwksBadKeys, and a missing 'keys' JwksNoKeys unless the object is a set of certificates; the result never has keys together with a non-Ok status.",
["inputs"],"every JSON text, any number and mix of entries","Mixes of good and bad entries in any order and number cannot be enumerated.",
["src/jwks.cc","jwt_verify_lib/jwks.h"],[("createFromJwksCore loop, updateStatus/resetStatus","src/jwks.cc")],["Jwks::keys, Jwks::getStatus"])
p("C14","Imported JWKs are well formed and carry exactly the declared material",
"Every key imported from a JWK has the kty, kid, alg of its entry and exactly the material its type needs: RSA with the decoded modulus and an exponent of 3 or 65537 that passes the RSA key check, EC with the decoded point on the curve that alg and crv consistently name (P-256 when neither is given) , oct with the non-empty decoded k, OKP with crv Ed25519 and 32 decoded bytes; a declared alg always belongs to the key's type. An entry violating any of these is rejected with the status naming the first problem.",
["inputs"],"every JWK entry","Tests list sample malformed entries, one per status.",
["src/jwks.cc"],[("extractJwk*, KeyGetter","src/jwks.cc")],["Jwks::keys fields, Jwks::getStatus"])
p("C15","PEM and X.509 import yields the encoded key or a precise failure",
"Importing a PEM public key yields exactly one key of type RSA, EC or OKP/Ed25519 holding the encoded key and the given kid and alg (with crv implied by an ES alg or Ed25519), or no key with JwksPemBadBase64 or JwksPemNotImplementedKty. A JSON object is imported as certificates if and only if it is non-empty and every member is a non-empty id mapped to text with the certificate prefix and suffix; then there is one RSA key per member, with that member's id and its certificate's key, or no key at all and the first failing member's status.",
["inputs"],"every PEM text, kid, alg, and every JSON object","Few sample keys and certificates are tested.",
["src/jwks.cc"],[("createFromPemCore, createFromPem, shouldCheckX509, createFromX509, extractX509","src/jwks.cc")],["Jwks::keys, Jwks::getStatus"])
p("C16","Adding a key is atomic",
"Adding a PEM key to a key set either returns Ok and appends exactly that one key, with the given kid and alg, after the existing keys, or returns the failure and leaves the key set as it was. Existing keys and the set's own status are never changed by it.",
["histories","inputs"],"every sequence of additions, successful and failing","Tests add one or two keys.",
["src/jwks.cc"],[("addKeyFromPem","src/jwks.cc")],["Jwks::keys, Jwks::getStatus"])
p("C17","No memory or resource error on any token or key material",
"Parsing, importing and verifying never read or write outside the buffers they are given, never use released or dangling memory, never release an object twice, never leak an owned crypto object and never hand a crypto primitive a buffer shorter than it reads, whatever the bytes of token, key material and key set.",
["inputs"],"every token text, key text and key set","Sanitizer runs only see sampled inputs.",
["src/verify.cc","src/jwks.cc","src/jwt.cc","src/check_audience.cc","src/struct_utils.cc"],[("length checks, owning pointers, release() after transfer","src/verify.cc, src/jwks.cc")],["memory safety"])
p("C18","Every status has its own message",
"Converting any status value to text yields a non-empty message, different statuses yield different messages, and the value Ok yields 'OK'. The status holder keeps the first failure until it is reset.",
["inputs","histories"],"every enumerator, every sequence of updates","Tests look at few messages.",
["src/status.cc","jwt_verify_lib/status.h"],[("getStatusString; WithStatus","src/status.cc, jwt_verify_lib/status.h")],["getStatusString"])
L=["simple_lru_cache/simple_lru_cache_inl.h","simple_lru_cache/simple_lru_cache.h"]
p("C19","LRU cache: lookups answer from the current contents",
"A lookup returns the value most recently inserted under the key if it has been neither removed, replaced, evicted nor expired since, and otherwise nothing; insertion under an existing key replaces it, and operations on one key never change what other keys map to except by eviction of unpinned entries.",
["histories"],"every sequence of cache operations","Operation sequences are unbounded.",
L,[("table_ map, lookup/insertPinned/remove","simple_lru_cache_inl.h")],["lookup results"])
p("C20","LRU cache: pinned values live, every value is destroyed exactly once",
"A value that is pinned (looked up or inserted and not yet released) is never destroyed, whatever is removed, replaced or evicted meanwhile; when its last pin goes, it is destroyed immediately if it had been removed or replaced. Every value handed to the cache is destroyed exactly once, at the latest when the cache is destroyed.",
["histories"],"every sequence of operations with pins outstanding at any point","Operation interleavings are unbounded.",
L,[("pin_ counting, defer_ map, discard/release/remove","simple_lru_cache_inl.h")],["value destruction"])
p("C21","LRU cache: size accounting and capacity are exact",
"The reported size is the sum of the units of the entries in the cache, pinned and deferred units are accounted likewise, and after any operation the size exceeds the maximum only by entries that are pinned.",
["histories"],"every sequence of operations, units and resizes","Operation sequences are unbounded.",
L,[("units_, pinned_units_, garbageCollect","simple_lru_cache_inl.h")],["size(), maxSize(), deferredSize()..."])
p("C22","LRU cache: eviction takes the least recently used entries",
"Entries are evicted only to get within capacity, only while unpinned, and in order of least recent release (of insertion in age mode); an entry is never evicted while a less recently used unpinned one remains. The mode is chosen while the cache is empty, pins are returned with the options they were taken with, and lookups that ask not to update the order leave an entry at its place.",
["histories"],"every sequence of operations","Operation sequences are unbounded.",
L,[("intrusive list head_, link/unlink, garbageCollect","simple_lru_cache_inl.h")],["which keys remain"])
p("C23","LRU cache: expiry by age or idleness is exact",
"With a maximum idle time or age set, an entry past it is discarded at the next lookup or collection and never returned, while an entry within it is not discarded on that ground. In idle mode an entry is in use, and does not idle, from a lookup or insertion that updates the order to the release of its last pin. The times and the age that the cache reports are those of its entries.",
["histories"],"every sequence of operations and clock values","Clock-dependent histories are unbounded.",
L,[("discardIdle, isExpired","simple_lru_cache_inl.h")],["lookup results"])
p("C24","Concurrent verification with shared tokens and key sets is race free",
"Any number of threads may verify tokens against one shared key set at the same time, each getting the status it would get alone.",
["schedules"],"every interleaving","Tests are single threaded.",
["src/verify.cc","src/jwt.cc"],[("const access only; BoringSSL reference counts; function-local static initialisation","src/verify.cc, src/jwt.cc")],["status of verifyJwt"])
p("C25","MAC comparison time does not depend on the secret",
"The time an HMAC verification takes does not depend on how many leading bytes of the presented signature are right.",
["inputs"],"all signatures of the right length","Functional tests do not observe time.",
["src/verify.cc"],[("CRYPTO_memcmp","src/verify.cc")],["timing"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
