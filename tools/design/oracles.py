"""How each property is decided: the harness, and what it compares with."""
M = {
'C01': ('`chain.rs: c01_tree`. A tree of tokens is put together in memory and filed in a store; every key\'s `verify` is a trait object whose verdict on each (key, text, signature) triple is a fresh variable, memoised. The chain is built from text, from a token or through the store.',
        'Accepted if and only if the verdict for every token of the tree is true *for the issuer of that token, its exact header.payload text and its exact signature*; verdicts asked about any other triple are recorded and count as unverified.'),
'C02': ('`time.rs`. One token, or a linear chain, with optional 64-bit bounds, optional caller time and an arbitrary clock.',
        'Accepted iff `nbf <= t <= exp` for every token, `t` the caller\'s time or else the clock; the error otherwise; `is_expired`, `is_too_early` agree.'),
'C03': ('`chain.rs: c03_links`. One token of a tree gets an arbitrary audience and the tokens around it arbitrary windows.',
        'Accepted iff every link has `proof.aud == citer.iss` bytewise and window containment, computed by the harness from its own variables, and all are valid at the given time.'),
'C04': ('`time.rs: c04_pairs, c04_triples`.', 'The containment of the intervals as sets of instants: an instant is a variable too, so "no instant exists that ..." is one query.'),
'C05': ('`chain.rs: c05_resolve, c05_identifier`. Each cited identifier is resolved from a store whose answer for one position is one of 16 states; or the text of an identifier has an arbitrary byte.',
        'Accepted iff all are well-formed and present; proofs in cited order with the identifier\'s own token. An identifier is well-formed iff the `cid` crate accepts it (called separately by the harness).'),
'C06': ('`reduce.rs: c06_originators`. A chain of a given shape whose claims are arbitrary capabilities is built through the public API, then `reduce_capabilities` is called.',
        'An independent specification in the harness works on the claim variables alone: a least fixed point of "issuer D can hand on X along a path". Every reported (capability, originator) must satisfy it.'),
'C07': ('`reduce.rs: c07_complete`. Same chains.', 'For every understood claim or redelegated capability in the specification, some reported capability must enable it and name each of its originators.'),
'C08': ('`reduce.rs: c08_window`. Same chains, with windows.', 'Every reported capability has the presented token\'s bounds, for an accepted chain.'),
'C09': ('`reduce.rs: c09_selection`. A token citing n proofs, each claiming a distinct capability, with a redelegation claim of a given or an arbitrary text.',
        'The capabilities reported are those of the selected proofs and explicit claims; a selector out of range is an error; a claim selects iff its text is `prf:` + decimal or `*` with ability `ucan/DELEGATE`.'),
'A01': ('`attenuate.rs: a01_*`. Two or three capability views over arbitrary resources, abilities, caveats.', '`enables` = resource contains and ability >= and caveat allows and both caveats are objects (each computed from the variables); reflexive; transitive.'),
'A02': ('`attenuate.rs: a02_*`. Caveats as JSON objects with arbitrary presence and values.', 'Entrywise comparison in the harness; reflexive, transitive, antisymmetric.'),
'A03': ('`attenuate.rs: a03_*`.', 'Table of kinds, byte comparison of identities, inclusion of atom sets.'),
'A04': ('`attenuate.rs: a04_*`. The real `url` crate and `CapabilitySemantics::parse` run on URIs with arbitrary bytes.', 'A small reader written for the harness from the statement (scheme, did, rest, lone asterisk), applied to the text as the URL crate normalises it; and for abilities and selectors the same.'),
'A05': ('`attenuate.rs: a05_*`. Sequences to map and back, maps iterated and rebuilt.', 'A list computed by grouping in the harness.'),
'A06': ('`attenuate.rs: a06_maps`. A map in which one place is an arbitrary JSON value, through seven ways of arrival.', 'Well-formed iff objects and lists where they must be; accepted unchanged or rejected.'),
'T01': ('`text.rs: t01_*`. Tokens\' texts with arbitrary characters go through the real base64 and JSON decoders.', 'If accepted, `encode()` equals the text byte for byte, `signed_data()` the prefix and `signature()` the independent decoding of the third part. If not three parts in the URL-safe alphabet without padding, rejected.'),
'T02': ('`text.rs: t02_*`. Tokens built with arbitrary field values, encoded and parsed; also texts of foreign layout.', 'Each accessor returns what was put in, `==` holds.'),
'W01': ('`text.rs: w01_layout`. A token signed through `Signable` with the real codecs; its three parts are decoded by the harness and compared byte for byte.', 'A JSON writer of the harness (sorted keys, no white space, shortest escapes) over the fields that were put in, absent ones left out but for `exp`.'),
'T03': ('`text.rs: t03_*`. Every entry point that takes outside data.', 'No panic, no overflow (checks on), no out-of-bounds access: the engine reports each as a violation with its input.'),
'T04': ('`text.rs: t04_identifier`.', 'Version 1, raw codec, and the multihash of the requested code computed by the harness over the token\'s text; a store using that hash files it there; another signature, another hash input.'),
'B01': ('`make.rs: b01_calls, b01_clone`. The sequence of calls is itself a variable.', 'A record of what was asked, updated by the harness per call, compared with the `Signable` and the signed token field by field.'),
'B02': ('`make.rs: b02_expiry`.', 'Last explicit expiry, else `min(clock + lifetime, u64::MAX)` at build time, else none.'),
'B03': ('`make.rs: b03_proofs`.', 'The list of identifiers computed by the harness; the positions redelegated; and the reduction of the resulting chain.'),
'B04': ('`make.rs: b04_sign`. A key whose identity and signing may fail, which records what it was given.', 'Signed data equals the record, decodes to the header and payload, signature is the key\'s; failures are errors.'),
'K02': ('`make.rs: k02_wrapped`. A key that writes down what it is asked, behind five kinds of wrapper.', 'The key itself: same answers, same questions, once each.'),
'K01': ('`ident.rs: k01_*`. Constructor tables and histories of lookups.', 'Prefix and key bytes from an independent base58 decoding; constructors record what they receive.'),
'I01': ('`ident.rs: i01_*`.', 'A reader of varint prefix + length + bytes in the harness; bijectivity.'),
'I02': ('`ident.rs: i02_*`.', 'Round trip and injectivity on arbitrary pairs; display never panics.'),
'I03': ('`ident.rs: i03_*`.', 'Field-wise equality, equal text, signed data, signature after a round trip; else an error.'),
'M01': ('`hold.rs: m01_history`.', 'A list of (identifier, content) kept by the harness.'),
'M03': ('`hold.rs: m03_race`. Two threads using clones of one store; the engine explores every schedule with a bounded number of interruptions, at every atomic operation, switching also when a lock has to be waited for.', 'Some order of the operations explains the outcome: writes succeed and are all readable afterwards, reads are whole, what was seen stays; no failure, panic or deadlock.'),
'M02': ('`hold.rs: m02_*`. A store with arbitrary content under arbitrary identifiers; and the memory store.', 'Raw codec, present, UTF-8, under that very identifier.'),
}
M['X01'] = ('`harness/keys` (its own build, with `ucan-key-support`). Keys are concrete; messages, edits of messages, alterations of signatures and characters of a token are variables. In the symbolic build the curve, RSA and SHA-256 primitives are replaced by ideal ones (`stubs/ed25519-zebra`, `p256`, `rsa`, `sha2`: copies of the crates with only the primitive replaced); key generation and decoding, DER, point decompression, PKCS#1 padding, range and length checks are executed as they are. The native replays use the unmodified crates, so the harness states only what holds for every scheme.',
        'The resolved key accepts (message, signature) iff the message equals the signed one and the signature is unaltered; algorithm and identity are those of the key; no private part, no signature.')
