"""Writes properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  _note=note, _tech=tech))

prop("C01", "A built bundle's value balance is the exact sum of spends minus outputs",
 "For every sequence of spends and outputs, a successful balance query or bundle construction reports exactly the sum of the spent values minus the sum of the output values. When that exact value does not fit the balance type the operation returns an error; it never wraps, truncates, saturates or panics. When the exact value and every partial sum fit their documented ranges, the operation succeeds.",
 ["inputs", "histories"], "all sequences of spend and output values over the full 64-bit range, all bundle types, all balance types",
 "Tests build a couple of bundles with small values; overflow and sign handling at the 64-bit edges, combinations and orders of many notes are never reached.",
 ["src/builder.rs", "src/value.rs"], [("Builder::value_balance", "src/builder.rs"), ("bundle", "src/builder.rs"), ("ValueSum::add, TryFrom<ValueSum> for i64", "src/value.rs")],
 "all sequences up to the stated length over a boundary alphabet; 128-bit reference arithmetic", "exhaustive bounded enumeration of builder histories on the real code against an exact reference model")
prop("C02", "Every built bundle has the shape and padding its bundle type promises",
 "For every bundle type and every admissible number of spends and outputs, the produced bundle has exactly the number of actions the type prescribes (at least two and as many as the larger request when transactional, exactly the outputs when coinbase, none when nothing is requested and no bundle is required), and carries the requested flags and anchor. Each action not accounted for by a request on a side is padded on that side with a zero-valued dummy, unrelated to any requested key. The action count query agrees with what is built.",
 ["configurations", "inputs"], "all bundle types and flags, all numbers of spends and outputs",
 "Tests sample a few fixed shapes; the rule is over all types, flags and counts, including asymmetric and empty ones.",
 ["src/builder.rs"], [("BundleType::num_actions", "src/builder.rs"), ("bundle", "src/builder.rs"), ("SpendInfo::dummy, OutputInfo::dummy", "src/builder.rs")],
 "all bundle types x spend/output counts up to the bound; real construction compared with the type model", "exhaustive configuration enumeration on the real builder against a reference model")
prop("C03", "Spends and outputs are placed where the metadata says and shuffled uniformly",
 "Every requested spend and output appears in exactly one action of the built bundle, and the metadata reports that action for it, and nothing for indices that were not requested. Over the builder's randomness every arrangement of spends among the actions and, independently, every arrangement of outputs among the actions is reachable and equally likely.",
 ["inputs", "configurations"], "all numbers of spends and outputs and all outcomes of the randomness that decides the order",
 "A test sees one arrangement per run and cannot tell a uniform shuffle from a partial, correlated or biased one.",
 ["src/builder.rs"], [("shuffle of indexed_spends, indexed_outputs", "src/builder.rs"), ("BundleMetadata", "src/builder.rs")],
 "all outcomes (on a quantile grid) of every random draw that affects the arrangement", "exhaustive enumeration of the environment's random choices on the real builder")
prop("C04", "The builder admits exactly the spends and outputs its rules allow",
 "A spend is accepted exactly when spends are enabled, the viewing key owns the note in one of its scopes, and either the note has zero value or its authentication path leads from its commitment to the builder's anchor; an output is accepted exactly when outputs are enabled. Rejection by the builder reports the first violated rule and leaves the builder as it was, and direct bundle construction enforces the same rules.",
 ["histories", "inputs"], "all sequences of valid and invalid add operations under every bundle type",
 "Tests mostly add valid items; rejection, precedence of rejections and state after rejection are over all sequences and kinds of invalid input.",
 ["src/builder.rs"], [("Builder::add_spend, Builder::add_output", "src/builder.rs"), ("SpendInfo::new, has_matching_anchor", "src/builder.rs"), ("bundle", "src/builder.rs")],
 "all operation sequences up to the depth bound over an alphabet of valid and invalid operations", "explicit-state exploration of builder operation sequences against a reference model")
prop("C05", "Signing accepts exactly valid authorizations and finalizes only complete ones",
 "Along every sequence of signing operations, each spend becomes signed exactly when it is padding, its own authorizing key signs, or an external signature valid for it and the loaded message is appended; a signature valid for no unsigned spend, or for several, is rejected with the corresponding error. Finalization succeeds exactly when every spend is signed, and then every spend signature and the binding signature verify over the loaded message; a signature that is already present is never lost or replaced.",
 ["histories", "inputs"], "all interleavings of prepare, sign, append and finalize over correct, foreign, duplicate and corrupt keys and signatures",
 "Tests follow the one successful path; error paths, repeats and orders multiply beyond samples.",
 ["src/builder.rs"], [("prepare, sign, append_signatures, finalize, apply_signatures", "src/builder.rs"), ("MaybeSigned", "src/builder.rs")],
 "all operation sequences up to the depth bound over the alphabet of keys and signatures", "explicit-state exploration of the signing workflow on the real code against a reference state machine")
prop("C06", "Honestly built bundles validate, individually and in batches",
 "Every bundle built, proven and signed through the public workflow, for any admissible bundle type, spends, outputs, scopes and values, has a proof that verifies, spend signatures and a binding signature that verify over the signed message, and passes batch validation. This is true however the proving and signing steps are interleaved.",
 ["configurations", "inputs", "histories"], "all bundle types, shapes, scopes, values, and orders of proving and signing",
 "The end-to-end tests build one or two bundles; completeness is over all shapes and values.",
 ["src/builder.rs", "src/circuit.rs", "src/bundle.rs", "src/bundle/batch.rs"], [("create_proof, apply_signatures", "src/builder.rs"), ("verify_proof, binding_validating_key", "src/bundle.rs"), ("BatchValidator", "src/bundle/batch.rs")],
 "a bounded set of shapes x values x scopes x step orders, each really proven and verified", "exhaustive enumeration of bounded workflows on the real code")
prop("C07", "Any change to an authorized bundle makes its validation fail without crashing",
 "For a valid authorized bundle, replacing any component that validation covers (nullifier, randomized key, note commitment, value commitment, flags, balance, anchor, proof bytes, any signature, the signed message, or the set and order of actions) by a different value that still parses makes proof verification, signature verification or batch validation reject it. Validation of any bundle that parses terminates with a verdict and never panics.",
 ["inputs", "fault_sequences"], "all single changes of every component and pairs that exchange components between actions or bundles",
 "The tests verify good bundles only; soundness is about every alteration.",
 ["src/bundle.rs", "src/bundle/batch.rs", "src/circuit.rs"], [("to_instances, verify_proof, binding_validating_key", "src/bundle.rs"), ("BatchValidator::add_bundle", "src/bundle/batch.rs"), ("to_halo2_instance, Proof::verify", "src/circuit.rs")],
 "every single-component mutation of an alphabet at every position, plus exchanges, on real authorized bundles", "fault enumeration over authorized bundles on the real verifier")
prop("C08", "Batch validation accepts exactly the batches whose members are all valid",
 "For every multiset and order of bundles, batch validation returns true exactly when each bundle's proof, every spend signature and the binding signature are individually valid for the message it was added with. An empty batch is valid, and one invalid member at any position makes the batch invalid whatever the others are.",
 ["inputs", "histories"], "all sequences of valid and variously invalid bundles",
 "No test puts an invalid bundle into a batch; position and combination matter.",
 ["src/bundle/batch.rs"], [("BatchValidator::add_bundle, validate", "src/bundle/batch.rs"), ("create_batch_item", "src/primitives/redpallas.rs"), ("Proof::add_to_batch", "src/circuit.rs")],
 "all sequences up to the length bound over an alphabet of valid and invalid bundles", "exhaustive enumeration of batches on the real validator against individual verification")
prop("C09", "The transaction commitment binds exactly the bundle's effects as ZIP 244 says",
 "For every bundle the effects commitment equals the ZIP 244 digest of its actions in order, flags, balance and anchor, and the commitment of the absent bundle is the ZIP 244 constant. It changes whenever any of these change, and does not depend on proof, signatures, authorization state or the balance's representation.",
 ["inputs"], "all bundles, all action counts, every byte of every field",
 "Fixed vectors cover a few bundles; splitting, ordering and per-byte binding are over all bundles.",
 ["src/bundle/commitments.rs", "src/bundle.rs"], [("hash_bundle_txid_data, hash_bundle_txid_empty", "src/bundle/commitments.rs"), ("Bundle::commitment", "src/bundle.rs")],
 "every byte position and edge value in bundles up to the action bound", "exhaustive bounded enumeration on the real code against an independent reference digest")
prop("C10", "The authorizing commitment binds exactly the authorizing data per ZIP 244",
 "For every authorized bundle the authorizing commitment equals the ZIP 244 digest of the proof, the spend signatures in action order and the binding signature, and that of the absent bundle is the ZIP 244 constant. It changes whenever any of these change and does not depend on the bundle's effects.",
 ["inputs"], "all authorized bundles, every byte of the authorizing data",
 "Only incidental use in tests; binding is per byte and per position.",
 ["src/bundle/commitments.rs", "src/bundle.rs"], [("hash_bundle_auth_data, hash_bundle_auth_empty", "src/bundle/commitments.rs"), ("Bundle::authorizing_commitment", "src/bundle.rs")],
 "every byte of proof and signatures in bundles up to the action bound", "exhaustive bounded enumeration on the real code against an independent reference digest")
prop("C11", "Notes sent are received intact by the recipient and recoverable by the sender",
 "For every recipient address, value, memo and outgoing key, the ciphertexts in a built action are those of the protocol's note encryption, and the holder of the recipient's incoming key recovers exactly the note, address and memo, from the full and (without memo) the compact form. The holder of the outgoing key recovers the same exactly when one was supplied, in which case no other outgoing key does.",
 ["inputs", "configurations"], "all addresses in both scopes, all values, all memos, with and without outgoing key",
 "Fixed test vectors cover a handful of notes; the guarantee is for all content.",
 ["src/note_encryption.rs", "src/builder.rs", "src/keys.rs", "src/note.rs"], [("OrchardDomain", "src/note_encryption.rs"), ("ActionInfo::build", "src/builder.rs"), ("decrypt_output_with_key, recover_output_with_ovk", "src/bundle.rs")],
 "all combinations of edge values, memo shapes, scopes and key choices, byte-compared with the reference", "exhaustive bounded enumeration on the real code against an independent reference implementation")
prop("C12", "Decryption yields a note only if the ciphertext is a valid one for that action",
 "Decryption with an incoming or outgoing key succeeds exactly when the protocol's decryption rules accept: key agreement, authentication, plaintext version, note commitment and ephemeral key consistency for that very action. Any alteration of the ciphertexts or of the action data they are bound to, and any wrong key, yields nothing, and no input makes it panic.",
 ["inputs", "fault_sequences"], "all ciphertext and action-field corruptions, all maliciously encrypted plaintexts, all keys",
 "Vectors only exercise success; rejection must hold for every crafted input.",
 ["src/note_encryption.rs", "src/keys.rs", "src/note.rs"], [("orchard_parse_note_plaintext_without_memo", "src/note_encryption.rs"), ("extract_pk_d, extract_esk, derive_ock, epk", "src/note_encryption.rs"), ("RandomSeed::from_bytes, Note::from_parts", "src/note.rs")],
 "every byte position of every field, and a grid of adversarially sealed plaintexts, against the reference decryption", "fault enumeration on the real code against an independent reference decryption")
prop("C13", "Scanning with many keys finds every note, once, under the right key",
 "Scanning a bundle with a list of incoming (or outgoing) keys reports, in action order, each action that some key of the list decrypts, with the first such key and its note, address and memo, and nothing else; single-action decryption and batched, full and compact trial decryption agree with it. Actions that are invalid, or indices out of range, yield nothing and do not disturb the others.",
 ["inputs", "configurations"], "all lists and orders of keys, all mixtures of owned, foreign and invalid actions",
 "Tests scan with one matching key; key order, duplicates, interleaved invalid entries are untested.",
 ["src/bundle.rs", "src/note_encryption.rs", "src/keys.rs"], [("decrypt_outputs_with_keys, recover_outputs_with_ovks", "src/bundle.rs"), ("BatchDomain::batch_kdf", "src/note_encryption.rs"), ("SharedSecret::batch_to_affine", "src/keys.rs")],
 "all key lists and action mixtures up to the bound, several decryption routes compared with each other and the reference", "exhaustive bounded enumeration on the real code, differential and against a reference")
prop("C14", "Viewing and authorizing keys derive from the spending key as specified",
 "For every valid spending key, the authorizing key, full viewing key, and the incoming and outgoing keys of both scopes are those of the protocol specification; the validating key always has the positive sign and corresponds to the authorizing key, also after equal randomization. Keys obtained by way of a parsed full viewing key are the same as those obtained from the spending key, and internal keys differ from external ones.",
 ["inputs"], "all spending keys and all valid full viewing keys, both scopes, all randomizers",
 "Ten fixed vectors cannot cover both sign cases and all derivation paths in combination.",
 ["src/keys.rs", "src/spec.rs"], [("SpendAuthorizingKey::from, FullViewingKey::from", "src/keys.rs"), ("rivk, derive_dk_ovk, derive_internal", "src/keys.rs"), ("commit_ivk", "src/spec.rs")],
 "structured and pseudorandom spending keys, both signs, both scopes, edge randomizers, against the reference", "exhaustive bounded enumeration on the real code against an independent reference derivation")
prop("C15", "Address ownership, scope and diversifier index queries are exact",
 "For every key and scope, the address at an index is the specified one, the index query returns exactly that index for it, and the scope query reports the scope that derived it. For an address not derived from the key, however close to one that is, the queries return nothing.",
 ["inputs"], "all 88-bit indices, all diversifiers, all keys and scopes, all near-miss addresses",
 "One index test samples small indices; ownership must be exact over the entire index space and for adversarial addresses.",
 ["src/keys.rs", "src/address.rs"], [("DiversifierKey::get, diversifier_index", "src/keys.rs"), ("scope_for_address", "src/keys.rs"), ("IncomingViewingKey::diversifier_index", "src/keys.rs")],
 "boundary and bit-pattern indices x keys x scopes, all single-bit near misses, against the reference", "exhaustive bounded enumeration on the real code against an independent reference")
prop("C16", "Account keys derive from the seed along the ZIP 32 path",
 "For every seed of permitted length, coin type and account, the spending key is the one ZIP 32 derives along the hardened path purpose, coin type, account. A seed of another length never gives a key, a coin type or account outside the hardened range is an error, and distinct paths give distinct keys.",
 ["inputs"], "all seeds of 32 to 252 bytes, all coin types, all accounts",
 "One or two fixed derivations are tested.",
 ["src/keys.rs", "src/zip32.rs"], [("SpendingKey::from_zip32_seed", "src/keys.rs"), ("ExtendedSpendingKey::from_path, derive_child", "src/zip32.rs")],
 "all seed lengths x boundary coin types and accounts, against the reference", "exhaustive bounded enumeration on the real code against an independent reference")
prop("C17", "Every encoding is canonical: parsers accept exactly what serializers produce",
 "For keys, addresses, notes' components, nullifiers, commitments, anchors, tree nodes, trapdoors, flags and signature keys, parsing succeeds exactly on valid canonical encodings, serialization returns the very bytes that were parsed, and equal values have equal encodings. Non-canonical field elements, off-curve points, forbidden identities or signs, zero keys, reserved bits and short input are rejected without panicking.",
 ["inputs"], "all byte strings of the encoding's length",
 "Round-trip tests only use honest values; the rejections are over all byte strings.",
 ["src/keys.rs", "src/address.rs", "src/note.rs", "src/note/nullifier.rs", "src/note/commitment.rs", "src/tree.rs", "src/value.rs", "src/bundle.rs", "src/primitives/redpallas.rs"], [("from_bytes, to_bytes, read, write", "src/keys.rs"), ("from_raw_address_bytes", "src/address.rs"), ("Flags::from_byte", "src/bundle.rs")],
 "a complete set of boundary encodings (field edges, all bit flips, small x-coordinates, both signs) for every parser, against the reference", "exhaustive bounded enumeration on the real code against a reference decision procedure")
prop("C18", "Merkle hashing, paths and roots are those of the Orchard commitment tree",
 "For every leaf, position and authentication path the computed root is that of the specified tree with layer-personalized hashing, so a path verifies exactly for its own leaf and position. Empty roots at every level are the specified ones, and the incremental tree library instantiated with these hashes yields paths whose roots agree.",
 ["inputs", "histories"], "all 2^32 positions, all leaves and siblings, all append histories",
 "Fixed vectors cover a few positions near the left edge.",
 ["src/tree.rs"], [("MerklePath::root", "src/tree.rs"), ("Hashable for MerkleHashOrchard", "src/tree.rs"), ("EMPTY_ROOTS", "src/tree.rs")],
 "every level, boundary positions including all single-bit ones, all small append histories, against the reference", "exhaustive bounded enumeration on the real code against an independent reference tree")
prop("C19", "Note commitments and nullifiers are exactly the specified functions of the note",
 "For every note the commitment equals the specified commitment to recipient, value, nullifier base and randomness, and its nullifier under a viewing key equals the specified derivation; a note created in an action is bound to the nullifier revealed in that action. Changing any component of the note changes the commitment, and the nullifier does not depend on the key's scope but on its nullifier key.",
 ["inputs"], "all notes and viewing keys",
 "Vectors cover a dozen notes; dependence on every bit of each component is untested.",
 ["src/note.rs", "src/note/commitment.rs", "src/note/nullifier.rs", "src/spec.rs"], [("NoteCommitment::derive", "src/note/commitment.rs"), ("Nullifier::derive", "src/note/nullifier.rs"), ("RandomSeed::psi, rcm, esk", "src/note.rs")],
 "edge values and every single-bit change of every component, against the reference", "exhaustive bounded enumeration on the real code against an independent reference")
prop("C20", "The proof system accepts a private input exactly when the action statement holds",
 "For every assignment of private and public inputs, the action circuit is satisfied exactly when the specified action statement holds for them: path validity or zero value, value commitment, nullifier, spend authority, address and commitment integrity, and the enable flags. Honest inputs at every edge of value, position and scope are accepted and every inconsistent one is rejected.",
 ["inputs"], "all private and public inputs, including those of a prover not bound by the constructors",
 "The tests prove dummy spends only, with honest inputs.",
 ["src/circuit.rs", "src/circuit/gadget.rs", "src/circuit/note_commit.rs", "src/circuit/commit_ivk.rs", "src/builder.rs"], [("synthesize, from_action_context", "src/circuit.rs"), ("Instance::to_halo2_instance", "src/circuit.rs")],
 "all single and paired substitutions of private inputs between honest witnesses and of public inputs by an edge alphabet, decided by complete constraint evaluation", "exhaustive enumeration of bounded witness substitutions on the real circuit against the reference statement")
prop("C21", "Reported memory use is exactly the heap memory a value holds",
 "For every authorized bundle, action, proof, prepared incoming key and note encryption domain, alone or in collections, the reported dynamic memory usage equals the number of heap bytes the value owns, including reserved capacity and the balance's own memory. The reported bounds enclose it.",
 ["inputs", "configurations"], "all numbers of actions, proof sizes and capacities, balance types, keys",
 "No test queries memory usage.",
 ["src/bundle.rs", "src/circuit.rs", "src/keys.rs", "src/note_encryption.rs", "src/action.rs", "src/spec.rs"], [("impl DynamicUsage", "src/bundle.rs"), ("impl DynamicUsage", "src/circuit.rs"), ("impl DynamicUsage", "src/spec.rs")],
 "all shapes up to the bound; the oracle is a counting allocator", "exhaustive bounded enumeration on the real code against a counting allocator")
prop("C22", "Fresh, full-entropy randomness protects every action, signature and proof",
 "Each action's randomized key, value blinding, note seed and signature, when no outgoing key is given, its outgoing ciphertext, each padding note (its key, nullifier seed and note seed) and each proof's blinding are drawn freshly from the supplied randomness: they differ between actions and between bundles, depend on at least 250 bits of it, and never coincide with or degenerate to the unrandomized values. Equal randomness gives equal results.",
 ["inputs", "configurations"], "all randomness streams and all bundle shapes",
 "A test cannot distinguish reused or truncated randomness from fresh randomness.",
 ["src/builder.rs", "src/note.rs", "src/value.rs", "src/circuit.rs"], [("Proof::create", "src/circuit.rs"), ("ActionInfo::new, ActionInfo::build", "src/builder.rs"), ("RandomSeed::random, Note::dummy", "src/note.rs"), ("ValueCommitTrapdoor::random", "src/value.rs")],
 "every random draw perturbed in turn, every bundle shape up to the bound, with dependence of each output on each draw computed", "exhaustive single-deviation enumeration of the randomness environment on the real builder")
prop("C23", "RedPallas signing, verification and randomization satisfy their specification",
 "For every key, message and randomness the produced signature verifies under the corresponding key and equals a signature of the specified scheme; verification accepts exactly the signatures satisfying the verification equation with valid encodings, individually and in batches, for both signature types. Randomizing signing and verification keys by the same scalar gives corresponding keys.",
 ["inputs"], "all keys (including the identity), messages, signatures and randomizers",
 "The scheme is only exercised with honest signatures.",
 ["src/primitives/redpallas.rs"], [("SigningKey::sign, VerificationKey::verify, randomize", "src/primitives/redpallas.rs"), ("create_batch_item", "src/primitives/redpallas.rs")],
 "edge and pseudorandom keys x messages x all signature byte corruptions, against a reference verifier", "exhaustive bounded enumeration on the real code against an independent reference verifier")
prop("C24", "Authorization transitions keep effects and order and propagate every failure",
 "Mapping a bundle or action from one authorization state to another, or its balance to another type, keeps every effect and the order of actions, calls the per-action step exactly once per action in action order with the action's own authorization, then the bundle step once. If any step fails, that first failure is returned and no later step runs.",
 ["inputs", "fault_sequences"], "all action counts and every position at which a step fails",
 "Tests only use the infallible success path.",
 ["src/bundle.rs", "src/action.rs"], [("map_authorization, try_map_authorization, try_map_value_balance", "src/bundle.rs"), ("Action::map, Action::try_map", "src/action.rs")],
 "all action counts up to the bound and every subset of failing steps", "fault enumeration on the real code with recorded call histories")
prop("C25", "Every error has a message of its own, and any value can be shown",
 "Every kind of error of bundle building, adding spends and outputs, value arithmetic and key derivation has a printable message that names what was violated and that no other kind of the same error type has, and converts unchanged into the error of the operation around it. Formatting any public value, and a bundle in any authorization state, shows the same value alike and never panics.",
 ["inputs", "configurations"], "all error kinds, all public types at their edges, all authorization states",
 "No test looks at messages or formats values at edges.",
 ["src/builder.rs", "src/zip32.rs", "src/value.rs", "src/bundle.rs", "src/note.rs", "src/note_encryption.rs"], [("impl Display for BuildError, SpendError, OutputError", "src/builder.rs"), ("impl Display for Error", "src/zip32.rs"), ("impl Debug for Bundle", "src/bundle.rs")],
 "all pairs of error kinds; all public types x edges; all states", "exhaustive bounded enumeration on the real code")
prop("C26", "Value commitments are binding-consistent Pedersen commitments over exact sums",
 "For every value in the valid range and trapdoor, the value commitment equals the specified commitment, commitments add as their values and trapdoors add, and the bundle's binding verification key is the sum of the action commitments minus the commitment to the balance. Consequently a binding signature verifies exactly for the true balance.",
 ["inputs"], "all 65-bit signed values, all trapdoors, all numbers of actions, all balances",
 "One property test with bounded values covers part of the range.",
 ["src/value.rs", "src/bundle.rs"], [("ValueCommitment::derive, Sum", "src/value.rs"), ("Bundle::binding_validating_key", "src/bundle.rs")],
 "all pairs of boundary values x trapdoors, all action sequences up to the bound, against the reference", "exhaustive bounded enumeration on the real code against an independent reference")

DONE = open(os.path.join(HERE, "tools", "claimed")).read().split()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
commits = [l.split()[0] for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines() if "orchard_mc" in l]
m = dict(version=1, setup_cmd="bash build.sh",
  hooks=dict(guard="cfg(orchard_mc)", enable="RUSTFLAGS='--cfg orchard_mc' (set by build.sh)", source_commits=commits),
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
               technique=p["_tech"], level="model_checking", level_note=p["_note"]) for p in P if p["id"] in DONE],
  not_applicable=[dict(property=p["id"], reason="the check is still being built") for p in P if p["id"] not in DONE],
  notes="One Rust binary (mc/) holds the explorer, the reference model and one module per property; check.sh rebuilds it against /repo and runs one property. Replay: target/release/orchard-mc replay <file>.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties,", len(DONE), "claimed")
