#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "A chain is accepted only if every token in it is signed by its issuer",
  "A proof chain is built successfully only if, for the presented token and for every token it cites as a proof directly or transitively, the signature verifies under the public key named by that token's own issuer, over exactly the header and payload text of that token as it was presented. One failing signature anywhere rejects the whole chain.",
  ["inputs", "configurations"], "every chain shape, every combination of signature verdicts, every issuer, at every depth of the chain",
  "The tests only ever verify correctly signed tokens of two levels; no test presents a token whose signature is wrong, let alone a bad signature on one proof among several or at depth three.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs"],
  [("recursive validation", "ucan/src/chain.rs ProofChain::from_ucan"), ("signature check", "ucan/src/ucan.rs Ucan::check_signature"), ("signed text kept verbatim", "ucan/src/ucan.rs FromStr for Ucan")],
  observe=["result of building a chain", "payload and signature handed to the issuer key's verify"])
p("C02", "A token validates at time t exactly when t lies in its validity window",
  "Validating a correctly signed token at time t succeeds if and only if t is not after its expiry and not before its not-before time, an absent bound meaning no bound. The time used is the one the caller supplies, else the system clock, and in a chain the same caller-supplied time governs every token.",
  ["inputs"], "all 64-bit times, all present/absent combinations of the two bounds, explicit time and clock time, every token of a chain",
  "Tests try a handful of times seconds away from now; the boundary values, absent bounds combined with explicit times, and not-before under an explicit time are never exercised.",
  ["ucan/src/ucan.rs", "ucan/src/chain.rs", "ucan/src/time.rs"],
  [("expiry and activation tests", "ucan/src/ucan.rs Ucan::validate / is_expired / is_too_early"), ("time passed down the recursion", "ucan/src/chain.rs ProofChain::from_ucan")])
p("C03", "Each proof must be addressed to its citer and outlive it",
  "A chain is accepted only if, for every cited proof at every depth, the proof's audience is byte-for-byte the citing token's issuer and the proof's validity window contains the citing token's window. When both hold for every link and everything else is in order, the chain is accepted.",
  ["inputs", "configurations"], "all audience and issuer strings up to the bound, all 64-bit window combinations with absent bounds, every proof position and depth",
  "One test uses a wholly different audience and none uses a proof that expires or activates inside its citer's window; near-miss strings, later proofs and deeper links are unsampled.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs"],
  [("link validation", "ucan/src/chain.rs ProofChain::validate_link_to"), ("window containment", "ucan/src/ucan.rs Ucan::lifetime_encompasses")])
p("C04", "Lifetime comparisons agree with instant-by-instant validity",
  "One token's lifetime is reported to encompass another's exactly when its start bound is no later and its end bound is no earlier, an absent bound being infinitely early or late; so whenever it is reported, no instant exists at which the inner token is within its window and the outer is not. The comparison is reflexive and transitive.",
  ["inputs"], "all 64-bit windows with absent bounds, all instants, pairs and triples of tokens",
  "One test compares three expiries; boundary equality, not-before, and the transitivity that multi-level delegation depends on are not tested.",
  ["ucan/src/ucan.rs"],
  [("comparisons", "ucan/src/ucan.rs lifetime_begins_before / lifetime_ends_after / lifetime_encompasses")])
p("C05", "Proof resolution is complete, ordered and fails closed",
  "A successfully built chain has exactly one proof node per cited identifier, in the cited order, each being the token that the store holds under that identifier. If any cited identifier, at any depth, is malformed, absent from the store, or holds something that is not a token, building the chain fails.",
  ["inputs", "fault_sequences"], "every proof list up to the bound, every per-lookup store outcome (token, absent, error, garbage), every depth",
  "Tests only use stores that hold every proof; missing, failing or garbage lookups and their position in the list are never tried.",
  ["ucan/src/chain.rs", "ucan/src/store.rs"],
  [("proof loop", "ucan/src/chain.rs ProofChain::from_ucan"), ("required lookup", "ucan/src/store.rs UcanJwtStore::require_token")])
p("C06", "No capability is attributed to an originator who did not delegate it",
  "If reducing a chain reports capability X with originator D, then the chain contains a path of tokens from one issued by D up to the presented token such that D's token claims a capability enabling X, and every later token on the path either claims a capability that enables X and is itself enabled by the previous link, or redelegates the previous link's proof wholesale. The presented token's own issuer may also be named, but nobody else.",
  ["inputs", "configurations"], "every chain shape up to the bound, every combination of claimed resources, abilities and caveats, with and without redelegation",
  "The tests cover a few two-level chains with one or two claims; interactions between several claims of one token, where authority can leak from a narrow claim to a broad one, are not sampled.",
  ["ucan/src/chain.rs", "ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs"],
  [("reduction", "ucan/src/chain.rs ProofChain::reduce_capabilities"), ("enabling", "ucan/src/capability/semantics.rs CapabilityView::enables")])
p("C07", "Every understood capability of a token is reported with all its originators",
  "Reducing a chain reports, for every capability the presented token claims or redelegates that the semantics understands, a capability that enables it, together with every originator who delegated it. Claims that the semantics does not understand affect nothing else.",
  ["inputs", "configurations"], "every set and order of claims, understood or not, every chain shape up to the bound",
  "The tests never mix claims of different semantics in one token, so lost claims go unnoticed.",
  ["ucan/src/chain.rs", "ucan/src/capability/data.rs"],
  [("reduction", "ucan/src/chain.rs ProofChain::reduce_capabilities"), ("claim iteration", "ucan/src/capability/data.rs Capabilities::iter")])
p("C08", "Reported capabilities carry a window no wider than any contributing token",
  "Every capability reported by reducing an accepted chain carries exactly the presented token's expiry and not-before time, so its window never exceeds that of any token on the delegation path it came from.",
  ["inputs"], "all 64-bit windows with absent bounds on every token, own and redelegated capabilities, every depth",
  "Tests compare the window only for explicitly claimed capabilities with identical or nearby lifetimes, never for redelegated ones.",
  ["ucan/src/chain.rs"],
  [("window attenuation", "ucan/src/chain.rs ProofChain::reduce_capabilities"), ("link validation", "ucan/src/chain.rs ProofChain::validate_link_to")])
p("C09", "Redelegation hands on exactly the selected proofs",
  "A claim to delegate proof number n passes on the capabilities of proof n alone, a claim to delegate all proofs passes on the capabilities of every proof, and proofs not selected contribute nothing beyond explicitly claimed capabilities. Selecting a proof number that does not exist makes the chain invalid, and look-alike claims (other scheme, other ability, my: or as: forms) select nothing.",
  ["inputs", "configurations"], "every proof count up to the bound, every 64-bit index, every selector text up to the bound",
  "No test redelegates anything: the builder's delegation call and the selector parsing are untested.",
  ["ucan/src/chain.rs", "ucan/src/capability/proof.rs"],
  [("selection", "ucan/src/chain.rs ProofChain::from_ucan"), ("selector parsing", "ucan/src/capability/proof.rs ProofSelection")])
p("A01", "A capability enables another only if resource, ability and caveat all do",
  "One capability enables another exactly when its resource contains the other's resource, its ability is at least the other's, and its caveat allows the other's caveat, and never when either caveat is not an object. Given a well-behaved scope and ability order the relation is reflexive and transitive, so no sequence of attenuations can regain what an earlier one gave up.",
  ["inputs"], "all resources, abilities and caveats up to the bound, pairs and triples",
  "Doc examples and one table of eight caveat pairs; no test combines the three components or checks transitivity, on which multi-level delegation rests.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs"],
  [("conjunction", "ucan/src/capability/semantics.rs CapabilityView::enables")])
p("A02", "Caveats can only be added or kept, never dropped or altered",
  "A caveat allows another exactly when every entry of the first is present in the second with an equal value; the empty caveat allows everything and is allowed only by the empty caveat. The relation is reflexive, transitive and, on distinct caveats, never mutual.",
  ["inputs"], "all caveat objects up to the bound on keys, value kinds and value contents",
  "Seven doc examples with boolean values; other value kinds, several entries, and missing-versus-null are not sampled.",
  ["ucan/src/capability/caveats.rs"],
  [("caveat order", "ucan/src/capability/caveats.rs Caveat::enables")])
p("A03", "Resources contain only resources of the same kind and owner",
  "A resource contains another only if both are of the same kind (plain, own, or another identity's), the identities named are identical where there is one, and either the first is the wildcard or both are specific and the first's scope contains the second's. A specific resource never contains the wildcard.",
  ["inputs"], "all pairs of resources, scopes and identity strings up to the bound",
  "No test constructs own-resource or other-identity resources or wildcards.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/proof.rs"],
  [("containment", "ucan/src/capability/semantics.rs Resource::contains / ResourceUri::contains"), ("proof selection containment", "ucan/src/capability/proof.rs ProofSelection::contains")])
p("A04", "Resource URIs are read without confusing kind, identity, scope or wildcard",
  "A resource URI is read as an own resource exactly when its scheme is my, as another identity's resource exactly when it has the form as:<did:key>:<resource> (that very identity, and the resource text after it read in full), and as a plain resource otherwise; it is the wildcard exactly when the resource part is a lone asterisk. Text that is not such a URI, or whose ability or scope the semantics rejects, is not understood at all.",
  ["inputs"], "all URI texts of the bounded forms, with arbitrary bytes in the identity, scope and ability parts",
  "Tests parse four fixed plain URIs; the my:, as: and wildcard forms are never parsed.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/proof.rs"],
  [("parsing", "ucan/src/capability/semantics.rs CapabilitySemantics::parse / extract_did / parse_resource")])
p("A05", "Capability map and sequence forms carry the same capabilities",
  "Turning a sequence of capabilities into the map form and iterating it yields exactly the same capabilities (grouped by resource and ability, in claim order within a group), none lost, merged, invented or altered; iterating a map and rebuilding gives back the map without its caveat-less entries. An ability with an empty caveat list contributes no capability.",
  ["inputs"], "all sequences up to the bound with arbitrary equal or different resource, ability and caveat parts",
  "One fixed three-element example and one with an empty list.",
  ["ucan/src/capability/data.rs"],
  [("conversions", "ucan/src/capability/data.rs TryFrom<Vec<Capability>>, Capabilities::iter")])
p("A06", "Ill-formed capability maps are rejected however they arrive",
  "A capability map in which some resource has no ability, some caveat list is not a list, or some caveat is not an object is rejected, whether it comes from a sequence, from a JSON value, from a native map, or inside a received token or its IPLD form; every well-formed map is accepted unchanged.",
  ["inputs"], "all JSON shapes up to the bound at each level of the map, each entry route",
  "Five fixed failure cases through one of the routes; a received token's capability map goes through a different route that no test covers.",
  ["ucan/src/capability/data.rs", "ucan/src/ucan.rs"],
  [("validation", "ucan/src/capability/data.rs TryFrom impls and Deserialize for Capabilities")])
p("T01", "Token text survives parse and encode unchanged; only three-part text parses",
  "Whenever a text is accepted as a token, encoding the result gives back exactly that text, its signed data is exactly the text before the last dot and its signature exactly the decoded third part. Text with fewer or more than three dot-separated parts, or with a part that is not unpadded URL-safe base64, is rejected.",
  ["inputs"], "all token texts of the bounded forms: arbitrary bytes in separators, base64 parts and JSON layout, arbitrary signatures up to the bound",
  "Tests encode and parse tokens this library itself built; tokens laid out by other implementations and malformed texts are never tried.",
  ["ucan/src/ucan.rs"],
  [("parse", "ucan/src/ucan.rs FromStr for Ucan"), ("encode", "ucan/src/ucan.rs Ucan::encode")])
p("T02", "A token's fields survive signing, encoding and parsing",
  "Parsing the encoding of a token built by this library gives a token equal to the original: same issuer, audience, expiry, not-before, nonce, capabilities, facts, proofs, version, algorithm, signed data and signature, with absent fields absent. This holds for all field values that DAG-JSON can represent.",
  ["inputs"], "all 64-bit times, presence and absence of every optional field, strings with arbitrary bytes up to the bound",
  "The tests decode what they encode but mostly compare only the audience or the signature check, for one or two field combinations.",
  ["ucan/src/ucan.rs", "ucan/src/serde.rs", "ucan/src/capability/data.rs"],
  [("field codecs", "ucan/src/ucan.rs UcanPayload/UcanHeader serde, ucan/src/serde.rs DagJson")])
p("W01", "Tokens are written in the UCAN 0.10 text layout",
  "The text of a token signed by this library is three unpadded URL-safe base64 parts: the DAG-JSON header with exactly alg and typ, the latter JWT; the DAG-JSON payload with exactly aud, cap, exp, iss, ucv and, only where they were set, fct, nbf, nnc and prf; and the signature. exp is null where there is no expiry; cap maps each resource to its abilities and each ability to the list of its caveats in claim order. The JSON is canonical: keys in byte order, no white space, shortest escapes, text as it is.",
  ["inputs"], "all texts up to the bound in every text field, every presence of optional fields, times at all magnitudes, all signature bytes",
  "Tests read back what the library itself wrote, so a layout that only this library understands passes them all.",
  ["ucan/src/ucan.rs", "ucan/src/builder.rs", "ucan/src/serde.rs", "ucan/src/capability/data.rs"],
  [("field codecs", "ucan/src/ucan.rs UcanPayload/UcanHeader serde, ucan/src/serde.rs"), ("signing", "ucan/src/builder.rs Signable::sign")])
p("T03", "Hostile text never crashes the library",
  "Parsing and then validating arbitrary bytes as a token, issuer identity, capability URI, proof selector, proof identifier, IPLD principal or IPLD signature returns a value or an error; it never panics, overflows or indexes out of bounds.",
  ["inputs"], "all byte strings up to the bound for each entry point, and hostile values in each field of an otherwise valid token",
  "All tests feed well-formed data; short, truncated and over-long inputs are exactly what they never sample.",
  ["ucan/src/ucan.rs", "ucan/src/crypto/did.rs", "ucan/src/ipld/signature.rs", "ucan/src/ipld/principle.rs", "ucan/src/capability/semantics.rs"],
  [("fallible parsing", "ucan/src/ucan.rs, ucan/src/crypto/did.rs, ucan/src/ipld/*.rs")])
p("T04", "A token's identifier is the hash of its exact text",
  "The content identifier computed for a token is the version-1 raw-codec identifier holding the requested hash of the token's encoded text, so it is the identifier under which a store using that hash files the text, and tokens with different text are hashed over different input. Every supported hash choice is honoured.",
  ["inputs", "configurations"], "all token texts up to the bound, every hash choice used by the library",
  "Two tests compare an identifier for one token each.",
  ["ucan/src/ucan.rs", "ucan/src/store.rs", "ucan/src/builder.rs"],
  [("identifier", "ucan/src/ucan.rs Ucan::to_cid")])
p("B01", "The builder puts into a token exactly what was configured",
  "For every sequence of builder calls that sets an issuer and an audience, the resulting token carries that issuer's identity and algorithm, the last audience, expiry and not-before set, all facts (last value per key), all proofs and all claimed capabilities, and nothing that was not asked for; a nonce appears exactly when requested. Without an issuer or without an audience, building fails.",
  ["inputs", "histories"], "all builder call sequences up to the bound with arbitrary argument values",
  "Tests use a few fixed call orders, set each thing once, and check a subset of the fields.",
  ["ucan/src/builder.rs"],
  [("accumulation", "ucan/src/builder.rs UcanBuilder"), ("payload", "ucan/src/builder.rs Signable::ucan_payload")])
p("B02", "Expiry follows the explicit time, else the lifetime from build time",
  "A built token expires at the explicit expiry if one was set, in whatever order the calls came; otherwise at the clock time of building plus the lifetime, capped at the largest representable time; otherwise never. No lifetime value makes building crash or yields an expiry earlier than the build time.",
  ["inputs", "histories"], "all 64-bit lifetimes, expiries and clock readings, all call orders",
  "One test checks that a 300 second lifetime ends later than 290 seconds from now.",
  ["ucan/src/builder.rs", "ucan/src/time.rs"],
  [("implied expiration", "ucan/src/builder.rs UcanBuilder::implied_expiration")])
p("B03", "Proof and delegation calls cite the right token under the right hash",
  "Each proof or delegation call appends exactly one proof identifier, that of the given token under the requested hash or else the default hash; a delegation also claims the redelegation of exactly that proof's position, so the resulting token redelegates that proof and no other whatever calls came before or after.",
  ["inputs", "histories"], "all interleavings of proof and delegation calls up to the bound, each hash option",
  "The delegation call has no test, and proof positions are tested only for a single proof.",
  ["ucan/src/builder.rs"],
  [("proof citation", "ucan/src/builder.rs UcanBuilder::witnessed_by / delegating_from")])
p("B04", "Signing covers exactly the encoded content and reports every failure",
  "A signed token's signed data is the encoding of its own header and payload and is exactly what was handed to the issuer's key, its signature is exactly what the key returned, and its encoding is the signed data followed by the signature. If the key fails to identify itself or to sign, or a claim is unencodable, signing returns an error and never panics.",
  ["inputs", "fault_sequences"], "all payload field values up to the bound, all signature bytes, every failure point of the key",
  "Tests use keys that never fail and do not compare signed data with the encoding.",
  ["ucan/src/builder.rs", "ucan/src/ucan.rs"],
  [("signing", "ucan/src/builder.rs Signable::sign")])
p("K02", "Boxed and shared keys act exactly as the key within",
  "A key behind a Box, an Arc or any nesting of them reports the same algorithm and identity, produces the same signature over exactly the given payload, and gives the same verdict on exactly the given payload and signature as the key itself; a failure of the key is reported as that failure. Each call asks the key once, and a token signed through the wrapper equals one signed by the key.",
  ["inputs", "fault_sequences"], "all nestings up to three levels, all payload and signature bytes up to the bound, every failure of the key",
  "Tests use wrapped keys only where the wrapped key succeeds, and verify what was signed through the same wrapper.",
  ["ucan/src/crypto/key.rs"],
  [("forwarding", "ucan/src/crypto/key.rs impl KeyMaterial for Box<dyn KeyMaterial>, for Arc<K>")])
p("K01", "An identity resolves to the key it names, regardless of history",
  "Resolving a did:key identity hands the bytes after its two-byte type prefix, complete and unaltered, to the constructor registered for exactly that prefix, and yields that constructor's key; an unknown prefix, a malformed identity or a constructor failure is an error. The outcome for an identity does not depend on which identities were resolved before.",
  ["inputs", "histories"], "all identity strings of the bounded length, all registered prefix sets, all sequences of lookups up to the bound",
  "Tests resolve one or two fixed identities; the cache is never exercised with look-alike identities or after failures.",
  ["ucan/src/crypto/did.rs"],
  [("dispatch and cache", "ucan/src/crypto/did.rs DidParser::parse")], state=[dict(name="key cache", meaning="keys already resolved, by identity", where="ucan/src/crypto/did.rs DidParser.key_cache")])
p("I01", "IPLD signatures convert losslessly and malformed ones are rejected",
  "Wrapping an algorithm and signature as an IPLD signature and unwrapping gives both back; each algorithm has its own prefix, the one registered for it. Bytes that are not exactly such a wrapping (unknown prefix, wrong length, missing or extra bytes) are rejected, so every accepted byte string is the unique encoding of what it decodes to.",
  ["inputs"], "all signatures up to the bound, all algorithms, all 64-bit prefixes, all byte strings up to the bound",
  "One signature of one algorithm is round-tripped; no malformed input.",
  ["ucan/src/ipld/signature.rs", "ucan/src/crypto/signature.rs"],
  [("varsig codec", "ucan/src/ipld/signature.rs Signature::decode / TryFrom"), ("prefix table", "ucan/src/ipld/signature.rs VarsigPrefix")])
p("I02", "IPLD principals identify the same DID they were made from",
  "Converting a DID to an IPLD principal and back gives the identical DID, different DIDs give different principals, and text that is not a DID is rejected. Every byte string, however it was received, can be shown as text without failing.",
  ["inputs"], "all DID strings up to the bound (did:key and other methods), all byte strings up to the bound",
  "Two fixed DIDs are round-tripped.",
  ["ucan/src/ipld/principle.rs"],
  [("principal codec", "ucan/src/ipld/principle.rs FromStr / Display for Principle")])
p("I03", "Converting a token to IPLD and back loses nothing",
  "For every token in this library's canonical text form, converting it to its IPLD form and back gives a token equal in every field with the same text, signed data and signature, so it still verifies; a token whose issuer, audience, algorithm or proof identifiers cannot be represented is rejected rather than altered.",
  ["inputs"], "all field values up to the bound, presence and absence of each optional field, all algorithms, versions and signatures",
  "One token with one combination of fields is converted.",
  ["ucan/src/ipld/ucan.rs", "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs"],
  [("conversion", "ucan/src/ipld/ucan.rs TryFrom impls")])
p("M01", "The memory store returns what was written under an identifier, always",
  "Reading an identifier returned by a write gives back exactly the written content after any later sequence of writes through the same store or its clones; an identifier never written yields no content. The identifier is the hash of the content, so equal content gets equal identifiers and writes are idempotent.",
  ["inputs", "histories"], "all sequences of writes and reads up to the bound with arbitrary contents, through any clone",
  "Tests write one or two tokens and read each once.",
  ["ucan/src/store.rs"],
  [("content addressing", "ucan/src/store.rs MemoryStore")], state=[dict(name="dags", meaning="content by identifier, shared between clones", where="ucan/src/store.rs MemoryStore.dags")])
p("M03", "Threads that share a memory store never lose each other's work",
  "Operations made at the same time by different threads through clones of one memory store behave as if made one after another: every write succeeds and gives its content's identifier, everything written can afterwards be read through every clone, a read gives either nothing or the whole content filed under the identifier, what was readable stays readable, and no schedule makes an operation fail, panic or wait forever.",
  ["inputs", "schedules"], "all interleavings of two threads up to the bound on interruptions, with arbitrary contents",
  "Every test uses a store from a single thread.",
  ["ucan/src/store.rs"],
  [("locking", "ucan/src/store.rs MemoryStore::read / write")], state=[dict(name="dags", meaning="content by identifier, shared between clones and threads", where="ucan/src/store.rs MemoryStore.dags")])
p("M02", "Token lookup only ever yields a stored raw UTF-8 token",
  "Looking up a token by identifier succeeds only when the identifier uses the raw codec and the store holds valid UTF-8 bytes under that very identifier, and then yields exactly those bytes as text; absence, non-text content, other codecs and store failures all give an error from the required lookup.",
  ["inputs", "fault_sequences"], "all codecs, all store outcomes, all contents up to the bound",
  "Tests only look up tokens they have just written.",
  ["ucan/src/store.rs"],
  [("lookup", "ucan/src/store.rs UcanJwtStore::read_token / require_token")])
p("X01", "Signatures of supported keys verify for exactly the signed bytes",
  "For Ed25519, P-256 and RSA keys, a signature made with a private key verifies under the key resolved from that key's own identity for exactly the signed bytes: no other message, no other key and no altered, cut or lengthened signature verifies (a variant that the signature scheme itself permits aside). The resolved key has the same identity and algorithm, and a key without its private part does not sign.",
  ["inputs"], "all keys, all messages, all signatures",
  "One random key and one message per algorithm, positive case only.",
  ["ucan-key-support/src/ed25519.rs", "ucan-key-support/src/p256.rs", "ucan-key-support/src/rsa.rs"],
  [("key material", "ucan-key-support/src/*.rs")])
p("X02", "Browser-held RSA keys interoperate with native verification",
  "Tokens signed through the browser's WebCrypto key verify with the native RSA implementation under the identity reported for the browser key, for every generated key.",
  ["inputs", "configurations"], "all browser keys and messages",
  "The tests run only in a browser against one generated key.",
  ["ucan-key-support/src/web_crypto.rs"],
  [("WebCrypto key material", "ucan-key-support/src/web_crypto.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
