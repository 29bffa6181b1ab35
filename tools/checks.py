"""Which harness runs decide which property, within which bounds."""

COMMON_ASSUMPTIONS = [
    'The encoding is the LLVM IR that rustc emits for the harness, the ucan crate and every dependency and the standard library together (opt-level 2, fat LTO, overflow checks on); the symbolic executor in engine/ interprets it and Z3 4.8.12 decides every branch and assertion.',
    'Allocation never fails. The clock is a stub returning an arbitrary value. Hash functions are modelled as injective functions. Random bytes are fixed.',
]

import json, os
COSTS = json.load(open(os.path.join(os.path.dirname(__file__), "costs.json")))
CHECKS = {}
def prop(pid, **kw): CHECKS[pid] = kw

prop('C02',
    quick=[('c02_single',)] + [('c02_chain', [d]) for d in (1, 2, 3, 4)],
    thorough=[('c02_single',)] + [('c02_chain', [d]) for d in (1, 2, 3, 4, 5, 6)],
    reach=['c02_single.1', 'c02_single.2', 'c02_chain.1', 'c02_chain.2'],
    bounds='Every combination of absent or present 64-bit expiry, not-before and caller time and a 62-bit clock, for one token and for linear chains of up to 4 tokens.',
    thorough_bounds='chains of up to 6 tokens.',
    outside='Larger trees in which several tokens have odd windows.',
    assumptions=['Payload text is an opaque bijective encoding of the payload in the symbolic run and real DAG-JSON in the native replays.', 'Signatures verify.'],
    technique='symbolic execution of LLVM IR with Z3',
)

prop('C04',
    quick=[('c04_pairs',), ('c04_triples',)],
    reach=['c04_pairs.1', 'c04_triples.2'],
    bounds='Every pair and triple of tokens with absent or present 64-bit expiry and not-before, and every 64-bit instant.',
    outside='Nothing: the comparisons read no other field.',
    technique='symbolic execution of LLVM IR with Z3',
)

SYMEX = 'symbolic execution of LLVM IR with Z3'

prop('C01',
    quick=[('c01_tree', [s, v]) for s in range(10) for v in (0, 1, 2)],
    reach=['c01_tree.1', 'c01_tree.2'],
    bounds='Token trees of ten shapes (up to 4 tokens, 3 proofs per token, 3 links deep, including a shared proof and a twice cited one); which of two issuers signed each token, payload layout, proof claims, entry point (text, token, store), whether signatures recur and what the parser has seen before arbitrary; the verdict of every key on every (text, signature) pair arbitrary; or windows and time arbitrary.',
    outside='Larger trees with several odd signatures. Signature schemes themselves (X01).',
    assumptions=['A key is a trait object whose verify answers arbitrarily, but the same way for the same text and signature.'],
    technique=SYMEX,
)
prop('C03',
    quick=[('c03_links', [s, k, 2]) for s in range(1, 10) for k in range(0, 4) if not (s in (1, 8) and k > 1) and not (s in (2, 4) and k > 2)] + [('c03_links', [s, k, l]) for (s, k) in ((1, 1), (2, 1), (2, 2), (4, 2)) for l in (1, 3)],
    reach=['c03_links.1', 'c03_links.2'],
    bounds='Trees of nine shapes up to 4 tokens; one token whose audience is arbitrary ASCII text of the citer\'s DID length (or one more or less); expiry and not-before of the tokens around it absent or any 64-bit value; any 64-bit time.',
    outside='Audiences differing in length by more than one; several odd audiences at once.',
    assumptions=['Signatures verify.'],
    technique=SYMEX,
)
prop('C05',
    quick=[('c05_resolve', [n, k, d]) for n in (1, 2, 3) for k in range(n) for d in (0, 1)] + [('c05_identifier', [p]) for p in range(0, 59, 2)],
    thorough=[('c05_resolve', [n, k, d]) for n in (1, 2, 3, 4) for k in range(n) for d in (0, 1)] + [('c05_identifier', [p]) for p in range(0, 59)],
    reach=['c05_resolve.1', 'c05_resolve.2', 'c05_identifier.3', 'c05_identifier.4'],
    bounds='Up to 3 cited proofs, on the presented token or one level down, one of them in one of 16 states (missing, store failure, not UTF-8, empty, malformed, cut, misspelt or differently encoded identifier...); any one byte at every other place of an identifier arbitrary.',
    thorough_bounds='up to 4 proofs, every place of the identifier.',
    outside='Several odd proofs at once; two arbitrary bytes in one identifier.',
    technique=SYMEX,
)

def costed(entry, limit):
    out = []
    for k, v in COSTS.items():
        e, *ps = k.split()
        if e == entry and v <= limit: out.append((v, (entry, [int(x) for x in ps])))
    return [j for _, j in sorted(out, key=lambda x: -x[0])]   # longest first
REDUCE = ('Chains of 19 shapes (up to 4 tokens, 3 proofs per token, 3 links deep, up to 5 claims), each claim with an arbitrary scope (a set of up to 4 atoms), an arbitrary ability rank, and, one at a time, an arbitrary choice of: caveat, whether resource and ability are understood, plain, own, other\'s or wildcard resource, windows, a recurring issuer; '
          'with no, one or all proofs redelegated.')
for pid, entry, text in (('C06', 'c06_originators', ['c06_originators.1', 'c06_originators.2']), ('C07', 'c07_complete', ['c07_complete.1', 'c07_complete.2']), ('C08', 'c08_window', ['c08_window.1', 'c08_window.2'])):
    prop(pid,
        quick=costed(entry, 20),
        thorough=costed(entry, 200),
        reach=text,
        bounds=REDUCE + ' Combinations that need more than a few seconds only in the thorough tier.',
        outside='Larger trees with several odd claims; scopes with more than 4 independent atoms; several of the variations at once.',
        assumptions=['The application\'s scope and ability types are a set of atoms ordered by inclusion and a rank ordered by size; both refuse arbitrary texts.', 'Signatures verify.'],
        technique=SYMEX,
    )
prop('C09',
    quick=[('c09_selection', [n, k, e]) for n in (1, 2, 3) for k in range(14) for e in (0, 1) if not (k == 3 and (n, e) != (2, 0))],
    thorough=[('c09_selection', [n, k, e]) for n in (0, 1, 2, 3, 4) for k in range(14) for e in (0, 1)],
    reach=['c09_selection.1', 'c09_selection.2', 'c09_selection.3'],
    bounds='Up to 3 proofs; selectors with one or two arbitrary characters, arbitrary 13-character abilities, arbitrary 3-character schemes, one arbitrary separator, every combination of four selectors, once or repeated, with or without explicit claims; a table of near misses.',
    thorough_bounds='up to 4 proofs.',
    outside='Selectors spelt with a leading plus sign (usize::from_str accepts one). Nested selection is decided with C06 and C07.',
    technique=SYMEX,
)
prop('A01', quick=[('a01_pairs',), ('a01_triples',), ('a01_new',)], reach=['a01_pairs.1', 'a01_pairs.2', 'a01_triples.1', 'a01_new.1'],
    bounds='All pairs and triples of capabilities from: six kinds of resource with an arbitrary scope of 4 atoms and an arbitrary two-character identity, any 64-bit ability rank, eight kinds of caveat with arbitrary entries (including caveats that are no objects).',
    outside='Caveats with more than two entries (A02).', technique=SYMEX)
prop('A02', quick=[('a02_pairs', [k, n]) for k in range(6) for n in (1, 2, 3)] + [('a02_kinds',)] + [('a02_triples', [k]) for k in range(6)],
    reach=['a02_pairs.1', 'a02_pairs.2', 'a02_kinds.1', 'a02_kinds.2', 'a02_triples.1'],
    bounds='All pairs of caveats with any subset of 3 keys, all triples with any subset of 2, values arbitrary within 13 kinds (null, booleans, 64-bit, negative and fractional numbers, text, arrays, nested objects).',
    outside='Several odd entries in a large caveat.', technique=SYMEX)
prop('A03', quick=[('a03_resources',), ('a03_triples',), ('a03_selections',)], reach=['a03_resources.1', 'a03_resources.2', 'a03_triples.1', 'a03_selections.1', 'a03_selections.2'],
    bounds='All pairs and triples of resources: six kinds, arbitrary identity of 2 to 4 characters, arbitrary scope of 4 atoms; all pairs of proof selections with any index.',
    outside='Several arbitrary characters in a long identity.', technique=SYMEX)
prop('A04',
    quick=[('a04_templates', [t, n]) for t in range(19) for n in (1, 2, 3)] + [('a04_mutations', [u, p]) for u in range(12) for p in range(18)] + [('a04_inserts', [u, p]) for u in range(12) for p in range(18)] + [('a04_slips', [u]) for u in range(12)] + [('a04_abilities', [l]) for l in range(1, 6)] + [('a04_display',)] + [('a04_selectors', [t, l]) for t in range(8) for l in range(4)],
    reach=['a04_templates.1', 'a04_templates.2', 'a04_templates.3', 'a04_mutations.1', 'a04_mutations.2', 'a04_mutations.3', 'a04_inserts.1', 'a04_inserts.2', 'a04_slips.1', 'a04_slips.2', 'a04_abilities.1', 'a04_display.1', 'a04_selectors.1', 'a04_selectors.2'],
    bounds='Nineteen URI templates with up to 3 arbitrary ASCII characters in a gap, twelve whole URIs with any one character arbitrary, put in, left out or doubled, abilities of up to 5 arbitrary characters, eight proof selector templates with up to 3 arbitrary characters. The URL parser is executed, not modelled.',
    outside='Non-ASCII text (percent-encoded by the URL parser before this code sees it); longer gaps of arbitrary text; an empty did:key value.',
    technique=SYMEX)
prop('A05', quick=[('a05_sequence', [4, 0])] + [('a05_sequence', [n, l]) for n in (1, 2, 3) for l in (0, 1)] + [('a05_maps', [s]) for s in range(256)],
    thorough=[('a05_sequence', [n, l]) for n in (1, 2, 3, 4) for l in (0, 1)] + [('a05_maps', [s]) for s in range(256)],
    reach=['a05_sequence.1', 'a05_maps.1'],
    bounds='Sequences of up to 4 capabilities with arbitrary resources and abilities of one or two characters and arbitrary caveats; maps of two resources and two abilities with 0 to 3 caveats in each list.',
    thorough_bounds='sequences of 4 with longer texts.', outside='Several arbitrary capabilities among many.', technique=SYMEX)
prop('A06', quick=[('a06_maps', [s]) for s in range(7)], reach=['a06_maps.1', 'a06_maps.2'],
    bounds='A map of three resources and three abilities in which any one place (the whole, a resource\'s abilities, a caveat list, a caveat) holds any kind of JSON value with arbitrary content; arriving as JSON value, by serde, as native map, as sequence, as IPLD, inside a token, inside an IPLD token.',
    outside='Two odd places at once.', technique=SYMEX)

T01_BASES = ((0, 150), (1, 195), (2, 185), (3, 180))   # lengths of the base texts
prop('T01',
    quick=[('t01_mutate', [b, p]) for b, n in T01_BASES for p in range(n)] + [('t01_insert', [b, w, n]) for b in range(4) for w in range(6) for n in (1, 2)] + [('t01_signature', [b, n]) for b in (0, 1) for n in range(1, 6)] + [('t01_table',)],
    thorough=[('t01_mutate', [b, p]) for b, n in T01_BASES for p in range(n)] + [('t01_insert', [b, w, n]) for b in range(4) for w in range(6) for n in (1, 2, 3)] + [('t01_signature', [b, n]) for b in range(4) for n in range(1, 9)] + [('t01_table',)],
    reach=['t01_mutate.1', 't01_mutate.2', 't01_insert.1', 't01_insert.2', 't01_signature.1', 't01_signature.2', 't01_table.1', 't01_table.2'],
    bounds='Four tokens of different make (canonical, spaced and escaped JSON, all fields, unknown fields and null times): any one character arbitrary; one or two arbitrary characters inserted at either end or on either side of either dot; the whole third part arbitrary text of up to 5 characters; a table of 35 misassembled texts. Real JSON and base64 code; read through from_str and both try_froms.',
    thorough_bounds='three inserted characters; third parts of 8.',
    outside='Several distant arbitrary characters at once. Non-ASCII characters, except in the table.', technique=SYMEX)
prop('T02',
    quick=[('t02_text', [p, n]) for p in range(14) for n in (0, 1, 2)] + [('t02_numbers', [p, b]) for p in range(5) for b in (0, 2, 4, 7, 8) if not (p == 3 and b > 4)] + [('t02_fields',), ('t02_values', [0]), ('t02_values', [1])] + [('t02_read', [w]) for w in range(4)],
    thorough=[('t02_text', [p, n]) for p in range(14) for n in (0, 1, 2, 3) if (p, n) != (10, 3)] + [('t02_numbers', [p, b]) for p in range(5) for b in range(9) if not (p == 3 and b > 6)] + [('t02_fields',), ('t02_values', [0]), ('t02_values', [1])] + [('t02_read', [w]) for w in range(4)],
    reach=['t02_text.1', 't02_numbers.1', 't02_fields.1', 't02_values.1', 't02_read.1'],
    bounds='With JSON text opaque: every presence of every field, all 64-bit times, up to 3 claims and proofs. With the real JSON code: any UTF-8 text of up to 2 bytes in each of 14 places, numbers within 16 or 4 of nine magnitudes up to 2^64 - 1, values of 12 kinds nested in facts and caveats; and four tokens of foreign layout with an arbitrary character in every text field.',
    thorough_bounds='3 bytes; further magnitudes.',
    outside='Other numbers with the real JSON code (printing and parsing 64-bit decimals is beyond the solver). Maps whose only key is "/", which DAG-JSON reserves. Reads of a repeated key.',
    assumptions=['Where JSON is opaque, encoding and decoding are a bijection.'], technique=SYMEX)
prop('W01',
    quick=[('w01_layout', [p, n]) for p in range(10) for n in (0, 1, 2)] + [('w01_layout', [10, 0])] + [('w01_layout', [p, b]) for p in (11, 12, 13) for b in range(6)],
    thorough=[('w01_layout', [p, n]) for p in range(10) for n in (0, 1, 2, 3)] + [('w01_layout', [10, 0])] + [('w01_layout', [p, b]) for p in (11, 12, 13) for b in range(6)],
    reach=['w01_layout.1'],
    bounds='Real JSON and base64 code throughout. Any UTF-8 text of up to 2 bytes as issuer, algorithm, audience, fact name, fact value, proof identifier, resource, ability, caveat name or caveat value of a token with two facts, two proofs and four claims (two under one resource and ability); every presence of facts, proofs, claims, expiry, not-before and nonce; times within 16 or 4 of six magnitudes up to 2^64 - 1; any signature bytes.',
    thorough_bounds='text of 3 bytes.',
    outside='Fractional and negative numbers (T02 reads them back). Other times (printing 64-bit decimals is beyond the solver).', technique=SYMEX)
WIDE = [('t03_wide', [i, b, 0, 0]) for i in range(15) for b in range(9)] + [('t03_wide', [i, 0, 0, f]) for i in range(15) for f in range(1, 22)] + [('t03_wide', [i, 1, 0, f]) for i in range(15) for f in (4, 5, 10)] + [('t03_wide', [i, 0, 1, f]) for i in (0, 1, 14) for f in range(22)]
def keys():
    # lengths at which a point would have to be decoded from arbitrary bytes are left out
    real = (32, 33, None)
    out = []
    for s in range(3):
        out += [('t03_keys', [s, 0, 0, n]) for n in (0, 1, 2, 3, 4)]
        out += [('t03_keys', [s, 1, p, n]) for p in (0, 1, 31, 32, 33, 64, 65, 200) for n in (0, 1, 2) if n == 0 or min(p, (32, 33, 270)[s]) + n not in (real[s], 65)]
        out += [('t03_keys', [s, k, p, n]) for k in (2, 3) for p in (0, 1, 2, 16, 31) for n in (1, 2, 3) if s < 2 or k == 3]
        out += [('t03_keys', [s, 5, p, n]) for (p, n) in ((0, 0), (0, 1), (0, 2), (0, 8), (0, 63), (62, 2), (63, 2), (128, 1))]
    return out + [('t03_keys', [2, 4, p, 1]) for p in (0, 1, 2, 3, 4, 5, 7, 266)] + [('t03_keys', [2, 2, p, 1]) for p in range(6)]
prop('T03',
    quick=[('t03_json', [0, p, 1]) for p in range(0, 245, 2) if p != 144] + [('t03_json', [1, p, 1]) for p in range(0, 185, 2) if not 46 < p < 53]
        + [('t03_text', [w, t, n]) for w in range(7) for t in range(11) for n in (0, 1, 2, 3) if not (w in (2, 3) and n == 3) and (w, t, n) != (6, 1, 3)]
        + WIDE + keys()
        + [('t03_bytes', [0, n]) for n in range(9)] + [('t03_bytes', [k, n]) for k in (1, 2, 3, 4) for n in (0, 1, 2) if (k, n) != (3, 2)] + [('t03_bytes', [5, n]) for n in range(7)],
    thorough=[('t03_json', [0, p, n]) for p in range(0, 245) for n in (1, 2) if p not in (143, 144) and not (n == 2 and 40 < p < 50)] + [('t03_json', [1, p, n]) for p in range(0, 185) for n in (1, 2) if not 45 < p < 53]
        + [('t03_text', [w, t, n]) for w in range(7) for t in range(11) for n in (0, 1, 2, 3) if not (w in (2, 3) and n == 3 and 0 < t < 8)]
        + WIDE + keys()
        + [('t03_bytes', [0, n]) for n in range(11)] + [('t03_bytes', [k, n]) for k in (1, 2, 3, 4) for n in (0, 1, 2, 3) if not (k > 2 and n > 2) and (k, n) != (3, 2)] + [('t03_bytes', [5, n]) for n in range(7)],
    reach=['t03_json.1', 't03_text.1', 't03_wide.1', 't03_bytes.1', 't03_keys.1', 't03_keys.2'],
    bounds='Two tokens with any one byte at every second place of their JSON arbitrary, then validated, re-encoded, converted to IPLD and back, chained and reduced; whole texts of up to 3 arbitrary bytes in eleven surroundings as token, identity, URI, selector, principal, identifier, and as the issuer, proof and claim of a token; fifteen long repetitive texts, three of them of wide characters after an arbitrary one, at every place of tokens and capability maps, also where no text belongs; IPLD signatures of up to 8 arbitrary bytes, principals of up to 2; for the supported key types, key and signature bytes cut, lengthened, short and arbitrary, or with arbitrary DER headers.',
    thorough_bounds='every place, two adjacent bytes; longer parts.',
    outside='Stack use on very long proof chains; a store in which a token cites itself (no hash allows it). Longer arbitrary stretches.',
    technique=SYMEX)
prop('T04',
    quick=[('t04_identifier', [l, n]) for l in (0, 1) for n in (0, 1, 2, 3, 5)],
    thorough=[('t04_identifier', [l, n]) for l in (0, 1) for n in range(13)],
    reach=['t04_identifier.1', 't04_identifier.2'],
    bounds='Tokens in canonical or foreign layout with an arbitrary 64-bit or absent expiry and an arbitrary signature of up to 5 bytes, all fifteen hash codes; compared with a token with another arbitrary signature.',
    thorough_bounds='signatures of 12 bytes.',
    outside='Hash functions themselves. The store is the crate\'s own, which always uses BLAKE3.', technique=SYMEX)

prop('B01',
    quick=[('b01_calls', [4, c, 0]) for c in range(14)] + [('b01_calls', [n, c, w]) for n in (1, 2, 3) for c in range(14) for w in (0, 1, 2)] + [('b01_clone', [c]) for c in range(14)],
    thorough=[('b01_calls', [n, c, w]) for n in (4, 3, 2, 1) for c in range(14) for w in (0, 1, 2)] + [('b01_clone', [c]) for c in range(14)],
    reach=['b01_calls.1', 'b01_calls.2', 'b01_clone.1'],
    bounds='Every sequence of up to 4 calls out of 14 (all builder methods, an unrepresentable fact, empty lists) with arbitrary 64-bit and 8-bit arguments after issuer and audience, up to 3 calls with them set afterwards or never; the built Signable and the signed token are both compared with what was asked; clones of a builder.',
    thorough_bounds='4 calls in every case.',
    outside='Longer sequences of different calls. Fact and claim values of other shapes (T02).', technique=SYMEX)
prop('B02',
    quick=[('b02_expiry', [n, m, p]) for n in (0, 1, 2, 3, 4) for m in range(1 << n) for p in range(n + 1)],
    thorough=[('b02_expiry', [n, m, p]) for n in (0, 1, 2, 3, 4, 5) for m in range(1 << n) for p in range(n + 1)],
    reach=['b02_expiry.1', 'b02_expiry.2'],
    bounds='Every sequence of up to 4 with_lifetime and with_expiration calls with arbitrary 64-bit arguments, issuer and audience set at any point, the clock an arbitrary 62-bit value at every call, at building and at signing.',
    thorough_bounds='5 calls.', outside='Clocks before 1970.', technique=SYMEX)
prop('B03',
    quick=[('b03_proofs', [n, t, k]) for n in (1, 2, 3) for t in (1, 2, 3) for k in (0, 1, 2)] + [('b03_proofs', [4, 1, k]) for k in (0, 1, 2)],
    thorough=[('b03_proofs', [n, t, k]) for n in (4, 3, 2, 1) for t in (1, 2, 3) for k in (0, 1, 2)],
    reach=['b03_proofs.1'],
    bounds='Every sequence of up to 3 witnessed_by, delegating_from and claiming_capability calls over up to 3 tokens, each with the default or one of three explicit hashes; the result is signed, chained with a store that files each token under the requested hash, and reduced.',
    thorough_bounds='4 calls.', outside='Tokens that cannot be encoded.', technique=SYMEX)
prop('B04',
    quick=[('b04_sign', [k, n]) for k in range(8) for n in (0, 1, 3, 4)],
    reach=['b04_sign.1', 'b04_sign.2'],
    bounds='A key that fails to identify itself or to sign or neither, with an arbitrary signature of up to 4 bytes and an odd algorithm name; claims whose caveat is of any JSON kind; any presence of second claim, fact, nonce and expiry.',
    outside='Null facts, which are reported as errors.', technique=SYMEX)
prop('K02',
    quick=[('k02_wrapped', [w, p, g]) for w in range(5) for p, g in ((0, 0), (1, 2), (3, 1), (5, 8), (1500, 700), (300, 1100), (70000, 70000))],
    thorough=[('k02_wrapped', [w, p, g]) for w in range(5) for p in (0, 1, 3, 8, 33, 1500, 5000) for g in (0, 1, 8, 64, 700, 3000)],
    reach=['k02_wrapped.1', 'k02_wrapped.2'],
    bounds='A key that has an identity (with an arbitrary character) or not, signs (with an arbitrary signature) or not and finds a signature good or not; as Box<dyn KeyMaterial>, Arc, Arc of Box, Arc of Arc and Box of Arc of Box; arbitrary payloads and signatures of 0 and 0, 1 and 2, 3 and 1, 5 and 8, 1500 and 700, 300 and 1100, 70000 and 70000 bytes; and a token with any 64-bit expiry signed through it.',
    thorough_bounds='further lengths.',
    outside='Longer payloads and signatures (nothing looks at them).', technique=SYMEX)
prop('K01',
    quick=[('k01_table', [i]) for i in range(15)] + [('k01_history', [n, a, b]) for n in (2, 3) for a in range(12) for b in range(12)] + [('k01_text', [a, n]) for a in range(8) for n in (0, 1, 2)],
    thorough=[('k01_table', [i]) for i in range(15)] + [('k01_history', [n, a, b]) for n in (2, 3, 4) for a in range(12) for b in range(12)] + [('k01_text', [a, n]) for a in range(8) for n in (0, 1, 2, 3)],
    reach=['k01_table.1', 'k01_table.2', 'k01_history.1', 'k01_history.2', 'k01_text.1', 'k01_text.2'],
    bounds='Constructor tables with two arbitrary two-byte prefixes and one of odd length in any order; 15 identities (empty, short, leading zeros, 32 byte keys differing in one bit, swapped prefixes); every history of 3 lookups among 12 identities, constructors accepting arbitrary bytes or not; identities with up to 2 arbitrary bytes.',
    thorough_bounds='4 lookups, 3 bytes.',
    outside='The base58 decoder is the bs58 crate, executed but not specified. Constructors that answer differently for the same bytes. Two entries of a table with the same prefix.', technique=SYMEX)
prop('I01',
    quick=[('i01_wrap', [n]) for n in (0, 1, 2, 3, 64, 127, 128, 129, 256, 300)] + [('i01_bytes', [n]) for n in range(9)] + [('i01_header', [k, n]) for k in range(9) for n in (0, 1, 2, 130) if (k, n) != (4, 0)] + [('i01_prefix',)],
    thorough=[('i01_wrap', [n]) for n in list(range(0, 131)) + [255, 256, 257, 300, 512]] + [('i01_bytes', [n]) for n in range(11)] + [('i01_header', [k, n]) for k in range(9) for n in (0, 1, 2, 3, 64, 127, 130) if (k, n) != (4, 0)] + [('i01_prefix',)],
    reach=['i01_wrap.1', 'i01_bytes.1', 'i01_bytes.2', 'i01_header.1', 'i01_header.2', 'i01_prefix.1', 'i01_prefix.2', 'i01_prefix.3'],
    bounds='All five algorithms with arbitrary signatures of ten lengths up to 300; all byte strings of up to 8 bytes; wrappings with an arbitrary byte or length, or a varint longer than need be; all 64-bit prefixes; all five-character algorithm names.',
    thorough_bounds='135 lengths; all byte strings of up to 10 bytes.',
    outside='Longer arbitrary strings.', technique=SYMEX)
prop('I02',
    quick=[('i02_text', [a, n]) for a in range(12) for n in (0, 1, 2)] + [('i02_text', [a, 3]) for a in (3, 4, 5, 6, 7, 9, 10)] + [('i02_mutate', [i, p]) for i, n in ((1, 44), (2, 59), (4, 8), (5, 11)) for p in range(n)] + [('i02_mutate', [0, p]) for p in range(10, 17)] + [('i02_mutate', [0, p]) for p in range(9)] + [('i02_mutate', [3, p]) for p in range(9)]
        + [('i02_two', [a, x, b, y]) for a in range(4) for b in range(4) for x in (0, 1, 2) for y in (1, 2)] + [('i02_bytes', [f, n]) for f in range(5) for n in (0, 1, 2)],
    thorough=[('i02_text', [a, n]) for a in range(12) for n in (0, 1, 2, 3) if not (n == 3 and a in (2, 8, 11))] + [('i02_mutate', [i, p]) for i, n in ((1, 44), (2, 59), (4, 8), (5, 11), (6, 13)) for p in range(n)] + [('i02_mutate', [0, p]) for p in range(17)] + [('i02_mutate', [3, p]) for p in range(9)]
        + [('i02_two', [a, x, b, y]) for a in range(4) for b in range(4) for x in (0, 1, 2, 3) for y in (1, 2, 3) if x + y < 6] + [('i02_bytes', [f, n]) for f in range(5) for n in (0, 1, 2)],
    reach=['i02_text.1', 'i02_text.2', 'i02_mutate.1', 'i02_mutate.2', 'i02_two.1', 'i02_two.2', 'i02_bytes.1', 'i02_bytes.2'],
    bounds='Up to 2 (beside base58: 3) arbitrary bytes in twelve surroundings; seven whole identities with an arbitrary byte at any place (within base58 only short keys); all pairs of such; all byte strings of up to 2 bytes, bare or after five beginnings.',
    thorough_bounds='3 bytes.',
    outside='Long base58 stretches with arbitrary characters: conversion between bases 58 and 256 is beyond the solver.', technique=SYMEX)
prop('I03',
    quick=[('i03_token', [t, n]) for t in (0, 1) for n in (0, 1, 4)] + [('i03_payload', [t]) for t in (0, 1)] + [('i03_text', [t, f, n]) for t in (0, 1) for f in range(6) for n in (0, 1, 2)] + [('i03_reject', [f, n]) for f in range(6) for n in (0, 1, 4, 5) if not (f in (3, 4) and n > 1)] + [('i03_reject', [3, 4]), ('i03_reject', [6, 0])],
    thorough=[('i03_token', [t, n]) for t in (0, 1) for n in (0, 1, 4, 64, 128)] + [('i03_payload', [t]) for t in (0, 1)] + [('i03_text', [t, f, n]) for t in (0, 1) for f in range(6) for n in (0, 1, 2, 3) if (f, n) != (3, 3)] + [('i03_reject', [f, n]) for f in range(6) for n in (0, 1, 3, 4, 5, 6) if not (f == 3 and n > 5) and not (f == 4 and n > 3)] + [('i03_reject', [6, 0])],
    reach=['i03_token.1', 'i03_payload.1', 'i03_text.1', 'i03_reject.1', 'i03_reject.2'],
    bounds='Tokens built, and tokens of foreign make with any combination of absent, empty and filled fields; five algorithms, three kinds of issuer, any signature of up to 4 bytes, any 64-bit times, and each other field in turn; with the real JSON code any UTF-8 text of up to 2 bytes in each text field; converted directly and through generic IPLD data. Issuers, audiences, algorithms and proof identifiers of up to 5 arbitrary bytes, other spellings of an identifier.',
    thorough_bounds='3 bytes; signatures of 128 bytes.',
    outside='Tokens whose text is not the canonical one this library writes.', technique=SYMEX)
prop('M01',
    quick=[('m01_history', [1, l, 3]) for l in range(4)] + [('m01_history', [2, l, 3]) for l in (0, 1, 2, 3, 5)] + [('m01_history', [3, l, h]) for l in (0, 1, 2, 4, 5, 8, 9, 18, 20, 21) for h in (0, 1)],
    thorough=[('m01_history', [2, l, 3]) for l in range(16)] + [('m01_history', [3, l, h]) for l in range(64) for h in (0, 1, 2)],
    max_time=800,
    reach=['m01_history.1'],
    bounds='Every history of up to 3 writes (as IPLD, bytes or token) of arbitrary or repeated contents of up to 2 bytes through a store and up to two clones taken at any point, failed writes in between; every identifier is then read through every handle, and so are identifiers with another codec, hash, version or content.',
    thorough_bounds='contents of 3 bytes.',
    outside='Longer arbitrary histories. Threads: see M03.', technique=SYMEX)
prop('M03',
    quick=[('m03_race', [a, b, 3]) for a in range(8) for b in range(8) if a <= b or b in (0, 4)] + [('m03_race', [a, b, 5]) for a, b in ((0, 0), (0, 3), (0, 7), (4, 0), (0, 2))],
    thorough=[('m03_race', [a, b, 5]) for a in range(8) for b in range(8)] + [('m03_race', [a, b, 7]) for a, b in ((0, 0), (0, 3), (0, 7), (4, 0), (0, 2))],
    reach=['m03_race.1', 'm03_race.2', 'm03_race.3'],
    bounds='Two threads, each doing one or two of eight things (writing one or two contents, through a fresh clone, reading what is there, what the other writes, or what it wrote itself) through clones of one store; every schedule in which a running thread is interrupted at most 3 times (5 for the central pairs), at any atomic operation, beside the switches that waiting for a lock brings; contents of 1 or 2 arbitrary, possibly equal, bytes.',
    thorough_bounds='5 interruptions, 7 for the central pairs.',
    assumptions=['Threads share memory only through atomic operations and what these guard (Rust has no data races in safe code, and the store has no unsafe code), so interruptions anywhere else change nothing; sequentially consistent atomics.'],
    outside='Three or more threads; weaker memory orderings.', technique='symbolic execution of the compiled code (LLVM IR) under every bounded schedule, with an SMT solver')
prop('M02',
    quick=[('m02_lookup', [h, l, d]) for h in (0, 1, 2) for l in range(5) for d in range(5)] + [('m02_memory', [l]) for l in range(5)],
    thorough=[('m02_lookup', [h, l, d]) for h in (0, 1, 2) for l in range(6) for d in range(5)] + [('m02_memory', [l]) for l in range(6)],
    reach=['m02_lookup.1', 'm02_lookup.2', 'm02_memory.1', 'm02_memory.2'],
    bounds='Any bytes of up to 4, absence or failure, held under any codec of up to 62 bits and any 4 byte digest, looked up under that or another codec, digest, hash code or version; the memory store with the same contents.',
    thorough_bounds='5 bytes.', outside='Long contents with several arbitrary bytes.', technique=SYMEX)

def x01(thorough):
    out = []
    places = (55, 56, 63, 64, 65, 119, 120, 127, 128)
    for s in range(3):
        step = (1, 1, 3)[s] if not thorough else 1
        for i in range(3):
            out += [('x01_own', [s, i, n, 0, n]) for n in (0, 1, 3, 16, 64)] + [('x01_own', [s, i, n, n - 1, 1]) for n in places + (5000,)]
        for i in (0, 2):
            out += [('x01_message', [s, i, n, 0, n, m, 0, m]) for n in range(5) for m in range(5)]
            out += [('x01_message', [s, i, n, 0, n, n, 0, n]) for n in (16, 64)]
            out += [('x01_message', [s, i, n, n - 1, 1, m, m - 1, 1]) for n in places + (5000,) for m in (n - 1, n, n + 1)]
            out += [('x01_edit', [s, i, n, k, p]) for n in (1, 5, 64, 300) for k in range(8) for p in ((0, 1, n // 2, n - 2, n - 1, n) if n < 64 else (0, 1, 31, 55, 63, n - 2, n - 1, n)) if 0 <= p <= n]
        out += [('x01_message', [s, 0, 70000, 69999, 1, 70000, 69999, 1])]
        for i in range(3):
            size = 64 if s < 2 else 256 if i < 2 else 128
            out += [('x01_signature', [s, i, 0, p, 1]) for p in range(0, size, step)] + [('x01_signature', [s, i, 0, p, 4]) for p in range(0, size, 4 * step)]
            out += [('x01_signature', [s, i, 0, 0, n]) for n in ((32, 64) if s < 2 else (16, 32))]
            out += [('x01_signature', [s, i, k, p, n]) for k in (1, 2) for p in (0, 1, 31, 32, 33, size // 2, size - 2, size - 1, size) for n in (1, 2, 8)]
            out += [('x01_signature', [s, i, 3, 0, n]) for n in range(9)] + [('x01_signature', [s, i, 4, 0, n]) for n in range(10)]
            out += [('x01_key', [s, i, t, j, n]) for t in range(3) for j in range(3) for n in (0, 2)]
        out += [('x01_token', [s, 0, p]) for p in range(0, (365, 365, 1020)[s], (2, 2, 5)[s] if not thorough else 1)]
    return out
prop('X01', quick=x01(False), thorough=x01(True),
    reach=['x01_own.1', 'x01_message.1', 'x01_message.2', 'x01_edit.1', 'x01_edit.2', 'x01_signature.1', 'x01_key.1', 'x01_token.2', 'x01_token.3'],
    bounds='Three fixed keys of each scheme (RSA of 2048 and 1024 bits). Messages of up to 64 arbitrary bytes and of up to 70000 bytes with arbitrary ones at hash block borders and at the end; pairs of such of equal or different lengths; one message edited in eight ways at any of several places. Signatures with any one byte (RSA: every third), any four adjacent or 16 to 64 leading bytes altered, bytes put in or left out, short arbitrary ones, ten other rearrangements. All pairs of keys. A whole token with an arbitrary character in its text.',
    thorough_bounds='every place of the signature and of the token.',
    outside='The schemes themselves: curve, RSA and hash arithmetic on symbolic data is out of reach. Other keys, all of whose material is concrete here. Characters within the issuer of a token.',
    assumptions=['Ideal primitives in the symbolic run: SHA-256 is injective; a public key accepts exactly one signature per message (Ed25519) or digest (ECDSA, RSA), different for different keys and messages. Key generation, point and DER decoding, padding, range and length checks are the real code. The native replays use the real primitives.'],
    technique=SYMEX)

def larger(pid, jobs, bounds, reach=[], deeper=[]):
    """Large inputs of which one place at a time is odd."""
    c = CHECKS[pid]
    full = c.get('thorough') or c['quick']
    c['quick'] = jobs + c['quick']
    c['thorough'] = deeper + jobs + full
    c['reach'] = c['reach'] + reach
    c['bounds'] += ' Large inputs: ' + bounds
def extra(pid, jobs, bounds, reach):
    """Jobs that need no deeper variant."""
    c = CHECKS[pid]
    c['thorough'] = jobs + (c.get('thorough') or c['quick'])
    c['quick'] = jobs + c['quick']
    c['reach'] = c['reach'] + reach
    c['bounds'] += ' ' + bounds
for pid, text in (('C02', 'at two arbitrary times, all expiries or all not-before times arbitrary'), ('C03', 'cited by one token and then by another of the same or another issuer, all expiries or all not-before times arbitrary'), ('C05', 'with two stores, each of which has, lacks, fails on or garbles each proof')):
    e = pid.lower() + '_again'
    extra(pid, [(e,)], 'Any two of four related tokens presented one after the other to one parser ' + text + '.', [e + '.1', e + '.2'])
TREES = [(0, 70), (1, 48), (2, 64)] + [(f, 300) for f in range(3)]
SMALL = [(0, 130), (0, 24), (1, 16), (2, 14)]
TREE = '%s any one token of a tree with 69 proofs, of a chain of 48 tokens, or of a tree with 62 proofs below one; any of 15 tokens in such trees of 300.'
for pid, text in (('C01', 'an arbitrary verdict on'), ('C05', 'whatever the store does about')):
    e = pid.lower() + '_large'
    larger(pid, [(e, list(t)) for t in TREES], TREE % text, [e + '.11', e + '.12'], [(e, [f, 100]) for f in (0, 1, 2)] + [(e, [f, 500]) for f in (0, 1, 2)])
for pid, text in (('C02', 'every combination of windows (two arbitrary ones, shared by all tokens but one)'), ('C03', 'every combination of windows (two arbitrary ones, shared by all tokens but one) or another audience')):
    e = pid.lower() + '_large'
    larger(pid, [(e, list(t)) for t in SMALL], text + ', of any one token of a tree with 24 or 14 tokens or a chain of 16, and some of a tree of 130.', [e + '.11', e + '.12'], [(e, [0, 300]), (e, [0, 60]), (e, [1, 24]), (e, [2, 60])])
for pid, e in (('C06', 'c06_originators'), ('C07', 'c07_complete'), ('C08', 'c08_window')):
    larger(pid, [(e, j) for j in ([100, 0, 16], [100, 1, 11], [101, 0, 40], [101, 1, 40], [101, 2, 40], [101, 2, 120], [102, 0, 60], [102, 0, 20], [102, 1, 20])],
        'any one claim that is different in scope, ability or in being understood, in chains of 16 tokens (11 with redelegation), trees with 39 proofs, or two tokens of 20 claims each; any of 15 places in trees with 119 proofs all handed on, or two tokens of 60 claims.', deeper=[(e, [101, 2, 70]), (e, [101, 0, 300]), (e, [102, 1, 40])])
larger('C09', [('c09_large', [n]) for n in (30, 100, 300)], 'up to 300 proofs, of which any one (15 of 300) is handed on by its number, or one that does not exist by numbers up to 2^64 - 1.', ['c09_large.1', 'c09_large.2'], [('c09_large', [600])])
larger('A02', [('a02_large', [130, 0]), ('a02_large', [12, 0]), ('a02_large', [20, 8])], 'caveats of 12, 20 or 130 entries of which any one (or some of 130) differs, up to eight levels down.', ['a02_large.1', 'a02_large.2'], [('a02_large', [40, 20]), ('a02_large', [300, 0])])
larger('A03', [('a03_large', [n]) for n in (20, 60, 2000)], 'identities of 20, 60 and (at any of 15 places) 2000 characters that differ in any one character or in length.', ['a03_large.1', 'a03_large.2'], [('a03_large', [200])])
larger('A04', [('a04_large', [w, p, 0]) for w in range(5) for p in range(20)] + [('a04_large', [w, p, n]) for w in range(5) for n in (300, 5000) for p in (0, 1, 2, 15, 16, n // 8, n // 8 + 2)], 'five URIs of about 150 characters with an arbitrary one anywhere, and of up to 5000 with one at some places.', ['a04_large.1', 'a04_large.2'])
larger('A05', [('a05_large', j) for j in ([300, 13], [30, 7], [80, 13])], '30 capabilities over 7 resources and 80 or 300 over 13, of which any one has an arbitrary resource.', ['a05_large.1'])
larger('A06', [('a06_large', [s, m, n]) for s in range(7) for m in range(3) for n in (300, 40)], '40 or 300 resources, abilities or caveats, of which any one (15 of 300) is odd.')
larger('T01', [('t01_long', [w, 300, p]) for w in range(3) for p in range(0, 55)] + [('t01_long', [w, 2000, p]) for w in range(3) for p in (0, 5, 100, 200, 331, 332, 333)] + [('t01_long', [w, 70000, p]) for w in range(3) for p in (0, 11662)],
    'any one arbitrary character of a header, payload or signature of 300 bytes, some of one of 2000 or 70000.', ['t01_long.1', 't01_long.2'])
larger('T02', [('t02_text', [p, n]) for n in (70000, 300) for p in range(15)] + [('t02_text', [14, n]) for n in (0, 1, 2, 3, 4, 5, 64)], 'text and signatures of 300 or 70000 bytes, one at the start, middle or end arbitrary, in every place.')
larger('W01', [('w01_layout', [p, n]) for n in (70000, 300) for p in range(10)], 'text of 300 or 70000 bytes, one at the start, middle or end arbitrary.')
larger('T04', [('t04_identifier', [l, n]) for n in (70000, 5000, 700) for l in (0, 1)], 'signatures of 700, 5000 or 70000 bytes with an arbitrary one at the start, in the middle or at the end.')
larger('B01', [('b01_many', [k, n]) for n in (300, 40) for k in range(5)], '40 or 300 calls of one kind, after any other call, of which any one (15 of 300) has arbitrary arguments.', ['b01_many.1'])
larger('B03', [('b03_many', [n, o]) for n in (300, 40) for o in (0, 1)], '40 or 300 proofs, of which any one (15 of 300) is delegated from, or all others.', ['b03_many.1'])
larger('B04', [('b04_sign', [k, n]) for n in (70000, 700) for k in range(8)], 'signatures of 700 or 70000 bytes with an arbitrary one at the start, in the middle or at the end.')
larger('K01', [('k01_many', j) for j in ([48, 33], [70, 5], [300, 33], [3, 400])], '48, 70 or 300 identities, or three with keys of 400 bytes, of which any one is refused by the constructor, then any of them again.', ['k01_many.1'])
larger('I01', [('i01_wrap', [n]) for n in (700, 2000, 17000, 70000)], 'signatures of 700, 2000, 17000 and 70000 bytes with an arbitrary one.')
larger('I02', [('i02_text', [a, 70000]) for a in (4, 5, 6, 7, 10)], 'text of 70000 bytes, one of them arbitrary, outside base58.')
larger('I03', [('i03_text', [t, f, n]) for n in (70000, 300) for t in (0, 1) for f in range(6)] + [('i03_many', [t, k, n]) for t in (0, 1) for k in range(5) for n in (500 if k == 0 else 60, 300)],
    'text of 300 or 70000 bytes, signatures of 500, 60 or 300 facts, proofs or claims, one of them arbitrary.', ['i03_many.1'])
larger('M01', [('m01_large', j) for j in ([2, 1100000], [300, 10], [3, 70000])], '300 contents of 10 bytes, three of 70000 and two of 1100000, two of them equal but for one arbitrary byte.', ['m01_large.1'])
larger('M02', [('m02_lookup', [h, 3000, d]) for h in (0, 1, 2) for d in range(5)] + [('m02_lookup', [h, 1100000, 0]) for h in range(3)] + [('m02_memory', [n]) for n in (300, 3000, 1100000)], 'contents of 3000 and 1100000 bytes with an arbitrary one at the start, in the middle or at the end.')

NOT_APPLICABLE = {
    'X02': 'The WebCrypto key lives in a browser: its code compiles only for wasm32 and every operation is a call into JavaScript, which is not present here and has no source to encode.',
}
