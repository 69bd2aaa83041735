#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Ratchet tree index arithmetic agrees with the complete binary tree",
 "For every tree size that is a power of two and every node index inside it, parent, sibling, left child, right child, level, root, direct path, copath and lowest common ancestor computed from the index are exactly those of the complete balanced binary tree of that size. Conversions between leaf numbers, node numbers, leaf counts and array widths are mutually inverse, and queries that have no answer (parent of the root, child of a leaf) say so instead of returning an index.",
 ["inputs"], "all node indices and all power-of-two tree sizes representable by the index type (2^0 .. 2^31 leaves)",
 "The vectors stop at 32 leaves; the arithmetic is bit-twiddling on 32-bit words whose high bits no test ever sets.",
 ["tree_math.go"], [("index arithmetic", "tree_math.go"), ("leaf/node conversions", "tree_math.go leafIndex/nodeIndex")])

prop("C02", "Primitive wire encodings are exact, canonical and input-bounded",
 "Encoding a length, byte string, list or optional marker and decoding it returns the same value and consumes exactly the bytes written. A decoder accepts only the shortest length form, never reads past the declared length, rejects anything cut short and any optional marker other than 0 or 1, and never allocates more memory than a small multiple of the bytes it was given. Values whose length does not fit 30 bits are refused by the encoder instead of being truncated.",
 ["inputs"], "all 32-bit lengths, all byte strings and lists within the stated length bound, all input buffers within the bound",
 "The vectors hold 25 valid length headers; invalid headers, truncations and the interaction of headers with the remaining buffer are not enumerated.",
 ["mls.go"], [("variable length integer codec", "mls.go readVarint/writeVarint"), ("opaque and vector codec", "mls.go readOpaqueVec/readVector/writeVector"), ("optional marker", "mls.go readOptional/writeOptional")])

prop("C03", "Every message the library can encode decodes back to the same value",
 "For every value of every protocol message and message component, encoding succeeds and decoding the bytes yields a value equal in every field, with no bytes left over. This covers key packages, welcomes, public and private messages, group info, commits, all proposal types, credentials, tree nodes, whole trees, group secrets and PSK identifiers.",
 ["inputs"], "all field values, all presence/type combinations of optional and variant fields, vectors up to the stated bound",
 "The vectors contain only messages produced by other implementations, with default extensions, capabilities and variants; field values next to each other in the wire format are never varied independently.",
 ["framing.go", "proposal.go", "tree.go", "group.go", "key_package.go", "key_schedule.go", "crypto.go"],
 [("per-type marshal/unmarshal pairs", "framing.go, proposal.go, tree.go, group.go, key_package.go, key_schedule.go, crypto.go")])

prop("C04", "Decoders accept exactly one encoding and nothing cut short",
 "Whenever a decoder accepts a byte string, encoding the decoded value reproduces that byte string exactly, so no two byte strings decode to the same message. Consequently truncated messages, messages with surplus bytes and messages with unknown enumerators are reported as errors, never returned as partially filled values.",
 ["inputs"], "all byte strings within the stated size bound, for every message type reachable from the network, and every truncation or single corruption of well-formed messages",
 "Tests only decode well-formed vectors; no test feeds a truncated or altered message.",
 ["framing.go", "proposal.go", "tree.go", "group.go", "key_package.go", "key_schedule.go", "crypto.go", "mls.go"],
 [("per-type unmarshal error paths", "all unmarshal methods"), ("excess byte check", "mls.go unmarshal")])

prop("C05", "No byte string from the network can crash or stall the library",
 "Passing any byte string to the exported decoders, and passing any message so decoded to the exported group operations (processing a message, joining from a welcome, computing a key package reference, listing new members), returns a result or an error. It never panics, loops without bound or exhausts memory.",
 ["inputs"], "all byte strings and all decoded messages within the stated bounds, including unknown cipher suites, out-of-range leaf numbers, malformed public keys and arbitrary ratchet trees",
 "Tests use honest peers' messages only.",
 ["framing.go", "group.go", "tree.go", "ciphersuite.go", "mls.go", "key_package.go"],
 [("message dispatch", "group.go UnmarshalAndProcessMessage"), ("joining", "group.go GroupFromWelcome/groupFromSecrets"), ("tree indexing", "tree.go get/getLeaf/set")])

prop("C06", "No group member can crash another member with a well-authenticated message",
 "A group member who holds all current keys and signs, encrypts and MACs correctly, but fills proposals, commits, update paths, sender data or welcomes with arbitrary contents, cannot make another member panic, hang or corrupt its state: the message is either applied or rejected with an error. Proposals naming leaves that do not exist or are empty are rejected.",
 ["inputs", "histories"], "all proposal contents and leaf numbers, update path lengths, path secret lengths, sender data values and committed proposal lists within the stated bounds",
 "The vectors only contain commits made by correct implementations.",
 ["group.go", "tree.go", "framing.go", "secret_tree.go", "proposal.go"],
 [("commit processing", "group.go processCommit"), ("proposal application", "tree.go apply/remove/update"), ("sender data", "group.go processPrivateMessage")])

prop("C07", "Rejected input and message creation leave the group state untouched",
 "If processing a message returns an error, every later observable behaviour of the group is the same as if the message had never arrived; in particular its epoch, tree, keys, transcript and pending proposals are unchanged. Creating an application message or a welcome never changes the group: the group advances only when it processes a commit.",
 ["inputs", "histories"], "all group shapes within the bound, all messages (valid, altered, out of order), failure at every validation step of commit processing",
 "Tests stop at the first error and never continue using a group after a rejection; none compares the state before and after.",
 ["group.go", "tree.go"],
 [("copy-then-swap of state", "group.go processCommit"), ("tree copy", "tree.go copy/add"), ("creation", "group.go CreateWelcome/CreateApplicationMessage")])

prop("C08", "Adding, updating and removing members changes the tree as RFC 9420 says",
 "Adding places the new leaf in the leftmost empty position, growing the tree by doubling only when full, and records it as unmerged in every non-empty ancestor; updating or removing replaces or empties the leaf and empties exactly its ancestors; removal shrinks the tree to the smallest power of two that still holds the rightmost member. A committed list applies all updates, then all removes, then all adds, whatever the order listed.",
 ["inputs", "histories"], "all occupancy patterns of trees within the bound, all leaf numbers and all short sequences of operations",
 "The vectors apply single operations to a few dozen fixed trees.",
 ["tree.go"], [("add/update/remove/apply", "tree.go")])

prop("C09", "Resolutions and filtered direct paths match their definition",
 "The resolution of a node is the node itself followed by its unmerged leaves when non-empty, nothing for an empty leaf, and the concatenation of its children's resolutions otherwise. The filtered direct path of a leaf is its direct path without the nodes whose child on the copath has an empty resolution, in leaf-to-root order.",
 ["inputs"], "all occupancy and unmerged-leaf patterns of trees within the bound, and every node",
 "The vectors carry a few fixed trees; resolutions of trees with gaps next to unmerged leaves are not enumerated.",
 ["tree.go"], [("resolve", "tree.go"), ("filteredDirectPath", "tree.go")])

prop("C10", "The tree hash binds every part of the tree",
 "The tree hash of a node equals the RFC 9420 section 7.8 recursive definition over the subtree, including exclusion of listed leaves, and two trees have the same root hash only if they are identical: any difference in any node's content, position, emptiness or unmerged list changes it.",
 ["inputs"], "all trees within the bound with arbitrary node contents; all single differences between two trees",
 "Vectors check equality for given trees and never that different trees are told apart.",
 ["tree.go"], [("tree hash", "tree.go computeTreeHash"), ("hash inputs", "tree.go marshalLeafNodeHashInput/marshalParentNodeHashInput")])

prop("C11", "Key schedule, transcript and PSK chain follow RFC 9420 exactly",
 "The joiner, welcome, epoch, init, confirmation, membership, sender data, encryption, exporter, external, resumption and authentication secrets, the confirmation tag, the confirmed and interim transcript hashes, the exporter and the PSK secret are the RFC 9420 section 8 functions of their inputs. Every input of a derivation influences its result and no two differently labelled derivations coincide.",
 ["inputs"], "all secrets, contexts, labels, lengths, PSK lists within the bound, and every supported cipher suite",
 "Vectors fix a handful of inputs per suite; that no input is dropped and that labels stay separated is a statement about all inputs.",
 ["key_schedule.go", "ciphersuite.go"], [("derivations", "key_schedule.go"), ("labelled expansion", "ciphersuite.go expandWithLabel/deriveSecret"), ("PSK chain", "key_schedule.go extractPSKSecret")])

prop("C12", "Message keys are unique per sender, purpose and generation",
 "The per-message key and nonce secrets of a group follow RFC 9420 section 9: they differ for different members, for handshake versus application content, for different generations and for key versus nonce, and each generation's secret is a one-way function of the previous one. Any member derives the same keys for a given sender, purpose and generation.",
 ["inputs"], "all members and tree sizes within the bound, all pairs of (member, purpose, generation) within the bound",
 "Vectors check the values of a few generations; uniqueness is a statement over pairs.",
 ["secret_tree.go"], [("secret tree", "secret_tree.go deriveSecretTree/deriveChildren"), ("ratchets", "secret_tree.go deriveRatchetRoot/deriveNext/deriveKey/deriveNonce")])

prop("C13", "Private messages are read by members as sent and by nobody otherwise",
 "Every application payload sent by a member is returned unchanged to every other member in the same epoch. A private message altered in any byte, cut short, sent to another group or epoch, carrying non-zero padding, or whose inner signature is not by the member it claims to come from is rejected, and so is any private message presented by someone who does not hold the epoch's keys.",
 ["inputs", "fault_sequences"], "all payloads within the bound, all group shapes within the bound, all modifications of every byte of the message, all sender/receiver pairs",
 "Tests send one payload in one direction and never alter a message.",
 ["framing.go", "group.go", "secret_tree.go"],
 [("content protection", "framing.go encryptPrivateMessage/decryptContent"), ("sender data", "framing.go encryptSenderData/decryptSenderData"), ("processing", "group.go processPrivateMessage")])

prop("C14", "Public messages are accepted only when authentic",
 "A public handshake message is accepted only if its group, epoch and sender match the receiving group, it is signed by the claimed member over exactly its contents and the current group context, and its membership tag was made with the current epoch's key over exactly its contents. Any alteration of contents, signature, confirmation tag or membership tag, any reuse in another group, epoch or wire format, and any non-member sender leads to rejection.",
 ["inputs", "fault_sequences"], "all message contents within the bound, all alterations of each field, all sender types and leaf numbers",
 "Tests verify that correct messages are accepted; a check that is silently skipped is invisible to them.",
 ["framing.go", "group.go"], [("verifyPublicMessage", "group.go"), ("signature and membership tag", "framing.go verifySignature/verifyMembershipTag")])

prop("C15", "Members who process the same commit reach the same new epoch",
 "A commit is applied only if it is consistent: its confirmation tag matches the new epoch's key and transcript, a required update path is present, and the update path's leaf is signed for this group and position with a fresh key. When it is applied the epoch number increases by exactly one, pending proposals are cleared and all members and joiners who follow it hold equal group contexts, tree hashes, transcript hashes and epoch secrets.",
 ["inputs", "histories"], "all group shapes within the bound, sequences of membership changes, all alterations of commit fields, all orders of proposal references",
 "Tests use one fixed two-member scenario and vectors with honest commits; agreement after arbitrary histories and rejection of inconsistent commits are not covered.",
 ["group.go", "tree.go", "key_schedule.go"], [("processCommit", "group.go"), ("CreateWelcome", "group.go"), ("confirmation tag", "framing.go verifyConfirmationTag")])

prop("C16", "Illegal proposal combinations are rejected and proposals keep their senders",
 "A commit's proposal list is refused when it updates the committer, removes the committer, updates or removes one leaf twice, adds two members with one signature key, references one PSK identity twice, sets group extensions twice, combines re-initialisation with anything else or contains an external init; otherwise it is accepted. By-reference proposals resolve to exactly the pending proposal with that reference together with its original sender, in list order, and unknown references are refused; a path is required exactly when the list is empty or contains an update, remove, external init or group extensions proposal.",
 ["inputs"], "all proposal lists up to the stated length with all type combinations, senders, leaf numbers, keys and PSK identities",
 "Vectors only contain legal lists.",
 ["proposal.go", "group.go"], [("list rules", "proposal.go verifyProposalList"), ("path requirement", "proposal.go proposalListNeedsPath"), ("resolution", "group.go resolveProposals")])

prop("C17", "Only valid key packages and leaf nodes are accepted",
 "A key package is accepted only if its version and cipher suite match the group, its leaf comes from a key package, its signature verifies over all its fields and its init and encryption keys differ. A leaf node is accepted only if its signature verifies over all its fields (and, for update and commit leaves, group and position), its credential type is supported by all members, its extensions are among those it lists and its signature and encryption keys are not used elsewhere; honestly generated ones are always accepted.",
 ["inputs"], "all key packages and leaf nodes within the bound, every single-field alteration after signing, all capability, extension and credential lists within the bound",
 "No existing test offers an invalid key package or leaf node.",
 ["key_package.go", "tree.go"], [("key package verification", "key_package.go verify/verifySignature"), ("leaf verification", "tree.go leafNode.verify"), ("supported credentials", "tree.go supportedCreds")])

prop("C18", "A joiner accepts only trees that are internally consistent",
 "A ratchet tree received on joining is accepted only if its hash matches the group context, every non-empty parent node is linked by parent hash to exactly one child side, every leaf is individually valid, every unmerged leaf is a non-empty descendant recorded in all non-empty nodes in between, and no encryption key occurs twice. Trees produced by adding, updating, removing and committing in the library are always accepted.",
 ["inputs", "histories"], "all trees within the bound, all alterations of parent hashes, unmerged lists, keys and leaves, and all short operation histories",
 "Vectors contain valid trees only.",
 ["tree.go"], [("verifyIntegrity", "tree.go"), ("parent hashes", "tree.go verifyParentHashes/computeParentHash"), ("path merge", "tree.go mergeUpdatePath")])

prop("C19", "A welcome admits exactly the invited key package into the announced group",
 "A member invited through a welcome that nobody altered joins and holds the same group state as the inviter after the commit. Joining fails for anyone else, and for a welcome whose group secrets, group info, signature, signer, confirmation tag, cipher suite or ratchet tree were altered or replaced, even by another group member; a path secret in the welcome yields the private keys of exactly the tree nodes above the common ancestor.",
 ["inputs", "fault_sequences"], "all group shapes and numbers of invitees within the bound, every alteration of the welcome's parts",
 "Tests join from unmodified welcomes only.",
 ["group.go"], [("GroupFromWelcome", "group.go"), ("CreateWelcome", "group.go"), ("path secret", "group.go processPathSecret")])

prop("C20", "Leaf lifetimes are enforced exactly",
 "A leaf carrying a lifetime is accepted only while the current time lies strictly between its bounds and only when the range is positive and no longer than 90 days; leaves without a lifetime are unaffected, as are all leaves when checking is disabled. This holds for every pair of 64-bit timestamps, including those that do not fit the platform's time range.",
 ["inputs"], "all 64-bit not-before and not-after values and all current times",
 "The vectors disable the check; no test reaches the boundaries or overflowing timestamps.",
 ["tree.go"], [("lifetime check", "tree.go lifetime.verify"), ("leaf verification", "tree.go leafNode.verify")])

prop("C21", "A committed update path gives every member the committer's secret",
 "When a committer encrypts a fresh path, every other member of the resulting tree decrypts it to the committer's commit secret and obtains the private keys of exactly the path nodes above it, and the public keys in the tree match. A path whose length, ciphertext count, node keys, parent hash or ciphertexts do not fit the tree, or that was encrypted for another group context, is rejected.",
 ["inputs", "histories"], "all occupancy and unmerged patterns within the bound, all committer/recipient pairs, every alteration of path fields",
 "Vectors contain honest paths on fixed trees.",
 ["tree.go"], [("decryptPathSecrets", "tree.go"), ("mergeUpdatePath", "tree.go"), ("node keys", "tree.go nodePrivFromPathSecret")])

prop("C22", "Supported cipher suites work end to end with their registered algorithms",
 "A cipher suite is reported as supported exactly if groups can be created, joined and used with it: the suites 1, 2, 3 and 7 are, all other numbers are not. With a supported suite, a group created by the library can be joined by anybody who follows RFC 9420 and its registered algorithms, and its creator follows everything these members commit.",
 ["inputs", "configurations"], "all 65536 suite numbers, all supported suites, groups created by the library and joined by others in every combination within the bound",
 "Tests ask the library itself which suites to test, so a suite that is dropped or replaced is skipped, and none lets a foreign member commit in a group the library created.",
 ["ciphersuite.go", "group.go", "key_package.go"], [("suite table and support check", "ciphersuite.go"), ("group creation", "group.go CreateGroup"), ("key generation", "key_package.go GenerateKeyPairPackage")])

prop("C23", "Keys, group secrets and reuse guards are fresh and fully random",
 "No two messages sent by a member use the same reuse guard, and each byte of the guard is random, so that no key and nonce pair is used twice. Generated key packages share no key with each other even for one credential, groups created with the same name by the same member share no secret, and each welcome has encapsulated keys of its own.",
 ["inputs", "histories"], "all suites, all credentials, group names and texts within the bound, every pair of repeated operations",
 "Each run of a test sees one random value; that two never share bytes, or that part of a guard is constant, is visible only over pairs of runs.",
 ["framing.go", "key_package.go", "group.go", "ciphersuite.go"], [("sender data with reuse guard", "framing.go newSenderData"), ("key generation", "key_package.go GenerateKeyPairPackage"), ("initial epoch secret", "group.go CreateGroup")])

prop("C24", "Message buffers belong to the caller before and after every call",
 "Decoding or processing a message never changes the bytes passed in and does not depend on them afterwards: when the caller overwrites the buffer with anything, all later behaviour of key packages, welcomes and groups stays the same. Likewise, byte strings the library returned (application data, messages, encodings) keep their contents whatever is called later, and overwriting them affects nothing.",
 ["inputs", "histories"], "all histories of operations within the bound, every overwriting value, key packages, welcomes, proposals, commits and application messages",
 "Tests pass each message in a buffer of its own and never write to it; shared memory shows only when the buffer is used again.",
 ["mls.go", "framing.go", "group.go", "key_package.go", "tree.go"], [("byte string decoding", "mls.go readOpaqueVec"), ("pending proposals", "group.go processProposal"), ("message processing", "group.go UnmarshalAndProcessMessage")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
