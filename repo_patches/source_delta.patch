From 086799f181277a96c6a88a53f3a51447dc94398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:28 +0000
Subject: [PATCH 01/18] fix: check opaque vector length before allocating its
 buffer

A short message could declare a length of up to 1 GiB, which was allocated
before noticing that the bytes are missing.
---
 mls.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..f043481 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,9 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 3fad69de00ea21399744f18e7f9610036ec8e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:32 +0000
Subject: [PATCH 02/18] fix: report truncated key packages and group infos

When the final fields of a key package or group info were cut short the
decoders returned a nil error together with a partially filled value.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 0bb5f64ee1981c52d70404236cfde7ee277a2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:35 +0000
Subject: [PATCH 03/18] fix: reject malformed ECDSA public keys instead of
 panicking

elliptic.Unmarshal returns nil coordinates when the key is not a valid
point. Passing them to ecdsa.VerifyASN1 panics.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..d0ef625 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -365,6 +365,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From c9ff881a9e9f32c7fb4d1b1edf6519c9c1250bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:14 +0000
Subject: [PATCH 04/18] fix: reject leaf indices outside of the ratchet tree

Senders, group info signers and remove proposals carry a leaf index chosen
by the peer. An index past the end of the tree caused an out of range
panic, as did removing a leaf which doesn't exist.
---
 group.go | 19 +++++++++++--------
 tree.go  |  6 ++++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/group.go b/group.go
index 4f7cb39..5186993 100644
--- a/group.go
+++ b/group.go
@@ -302,7 +302,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -343,6 +342,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -373,11 +377,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
@@ -434,10 +433,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	}
 
 	for _, prop := range proposals {
-		if prop.proposalType == proposalTypeAdd {
+		switch prop.proposalType {
+		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal refers to a blank leaf node")
+			}
 		}
 	}
 
@@ -467,7 +471,6 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("mls: commit path leaf node source must be commit")
 		}
 
-		// TODO: check tree length
 		senderNode := newTree.getLeaf(senderLeafIndex)
 
 		// The same signature key can be re-used, but the encryption key
diff --git a/tree.go b/tree.go
index a0eefbe..947288b 100644
--- a/tree.go
+++ b/tree.go
@@ -679,7 +679,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided index.
+//
+// nil is returned for blank leaves and for indices outside of the tree.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if li >= leafIndex(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From 10891c404799bd833e3eeb2e8788c14b0739a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:18 +0000
Subject: [PATCH 05/18] fix: validate the shape of decoded ratchet trees

Leaf nodes must be at even indices, parent nodes at odd indices, and the
last node must not be blank (RFC 9420 section 12.4.3.3). Trees which don't
follow these rules caused a panic when used.
---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index 947288b..068c8df 100644
--- a/tree.go
+++ b/tree.go
@@ -630,6 +630,9 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 			if err := n.unmarshal(s); err != nil {
 				return err
 			}
+			if nodeIndex(len(*tree)).isLeaf() != (n.nodeType == nodeTypeLeaf) {
+				return fmt.Errorf("mls: invalid node type %d at index %v in ratchet tree", n.nodeType, len(*tree))
+			}
 		}
 		*tree = append(*tree, n)
 		return nil
@@ -640,6 +643,9 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
+	if len(*tree) == 0 || (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: last node in ratchet tree is blank")
+	}
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
 		*tree = append(*tree, nil)
 	}
-- 
2.43.0


From d1e7484b88f00c1f6b7bfec659b39bd06d5efd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:21 +0000
Subject: [PATCH 06/18] fix: don't mutate shared parent nodes when adding a
 leaf

Copies of a ratchet tree share their nodes. Creating a welcome message, or
processing a commit which ends up being rejected, recorded the new leaves
as unmerged in the tree of the current epoch as well.
---
 tree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 068c8df..ddb8a4b 100644
--- a/tree.go
+++ b/tree.go
@@ -1054,9 +1054,16 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		n := tree.get(p)
+		if n != nil {
+			// Nodes are shared with copies of this tree, don't mutate them
+			parent := *n.parentNode
+			parent.unmergedLeaves = append([]leafIndex(nil), parent.unmergedLeaves...)
+			parent.unmergedLeaves = append(parent.unmergedLeaves, li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parent,
+			})
 		}
 	}
 
-- 
2.43.0


From b521ffd60f62da09a04ba01d93147c020a6f85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:25 +0000
Subject: [PATCH 07/18] fix: derive every path secret when joining with a path
 secret

The path secret was shadowed in the loop, so that the second and following
ancestors were derived from the secret of the first one and joining failed.
Blank nodes caused a nil pointer dereference, they need to be skipped since
they aren't part of the filtered direct path.
---
 group.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 5186993..0fefe4d 100644
--- a/group.go
+++ b/group.go
@@ -220,7 +220,11 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
-	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+	node := tree.get(nodeIndex)
+	if node == nil {
+		return fmt.Errorf("mls: node %v is blank but a path secret was provided", nodeIndex)
+	}
+	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 	}
@@ -233,12 +237,18 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		// Blank nodes aren't part of the signer's filtered direct path
+		node := tree.get(nodeIndex)
+		if node == nil {
+			continue
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
 
-		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 		if err != nil {
 			return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 		}
-- 
2.43.0


From 3d30375da1c2ea446838d5a2f2d2a410060020ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:29 +0000
Subject: [PATCH 08/18] fix: count each supported credential type once per
 member

A member listing a credential type several times in its capabilities could
make a credential type supported by all members look unsupported, or make up
for a member which doesn't support it.
---
 tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index ddb8a4b..5927bae 100644
--- a/tree.go
+++ b/tree.go
@@ -732,8 +732,12 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
+		seen := make(map[credentialType]struct{})
 		for _, ct := range node.capabilities.credentials {
-			supportedCredsCount[ct]++
+			if _, dup := seen[ct]; !dup {
+				seen[ct] = struct{}{}
+				supportedCredsCount[ct]++
+			}
 		}
 	}
 
-- 
2.43.0


From a7b36335401ed62e6b9c63fd06670ce792185624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:33 +0000
Subject: [PATCH 09/18] fix: reject unmerged leaves which don't exist when
 verifying a tree

An unmerged leaf outside of the tree caused an out of range panic while
checking parent hashes, and blank unmerged leaves were accepted.
---
 tree.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 5927bae..66042e7 100644
--- a/tree.go
+++ b/tree.go
@@ -782,10 +782,6 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		return fmt.Errorf("mls: tree hash verification failed")
 	}
 
-	if !tree.verifyParentHashes(cs) {
-		return fmt.Errorf("mls: parent hashes verification failed")
-	}
-
 	supportedCreds := tree.supportedCreds()
 	signatureKeys := make(map[string]struct{})
 	encryptionKeys := make(map[string]struct{})
@@ -818,6 +814,10 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		}
 		p := nodeIndex(i)
 		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(unmergedLeaf) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, p)
+			}
+
 			x := unmergedLeaf.nodeIndex()
 			for {
 				var ok bool
@@ -840,6 +840,11 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
 	}
 
+	// Requires the unmerged leaves to be valid
+	if !tree.verifyParentHashes(cs) {
+		return fmt.Errorf("mls: parent hashes verification failed")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From befbd916882f4279ca2ce59e6b5032b97228dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:15 +0000
Subject: [PATCH 10/18] fix: return an error when a secret cannot be expanded

HPKE's KDF panics if the secret is shorter than the hash or the requested
length is too large. Path secrets come from other members and can have any
length.
---
 ciphersuite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index d0ef625..d79347e 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -177,6 +177,12 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) < kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: secret too short: got %v bytes, want at least %v", len(secret), kdf.ExtractSize())
+	}
+	if int(length) > 255*kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: cannot derive %v bytes from a secret", length)
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0


From 6c73d7eb1c6cb711c63baf7f3cea2b7ac276f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:19 +0000
Subject: [PATCH 11/18] fix: reject unknown cipher suites in key packages and
 welcomes

Cipher suites received from the network were used before being checked,
which panics if the suite is unknown.
---
 group.go       | 11 +++++++----
 key_package.go |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/group.go b/group.go
index 0fefe4d..1fad91b 100644
--- a/group.go
+++ b/group.go
@@ -104,6 +104,10 @@ func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, err
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
 	}
 
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	groupSecrets, err := welcome.decryptGroupSecrets(keyPkgRef, keyPairPkg.Private.InitKey)
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group secrets: %v", err)
@@ -140,6 +144,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
 
 	rawTree := options.rawTree
 	if rawTree == nil {
@@ -163,10 +170,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
-
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
 	}
diff --git a/key_package.go b/key_package.go
index ad62959..a65b97e 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
-- 
2.43.0


From 5b5bbc6b3ec7327c9ad42aaa2a730f9de305b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:24 +0000
Subject: [PATCH 12/18] fix: verify the confirmation tag of commits

A commit whose confirmation tag doesn't match moved the group to an epoch
that no other member shares. RFC 9420 section 12.4.2 requires to check it.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 1fad91b..071aada 100644
--- a/group.go
+++ b/group.go
@@ -557,6 +557,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	newConfirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, newConfirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify commit confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From 0de3c070c5f23af9d29b21cc68a025c911522765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:28 +0000
Subject: [PATCH 13/18] fix: check update path keys against all nodes of the
 tree

Only the keys of other leaves were considered, a commit could re-use the
key of a parent node or the same key for several nodes of the path.
---
 group.go | 2 ++
 tree.go  | 9 +++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/group.go b/group.go
index 071aada..fc2eaf7 100644
--- a/group.go
+++ b/group.go
@@ -503,10 +503,12 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to verify leaf node: %v", err)
 		}
 
+		encryptionKeys[string(commit.path.leafNode.encryptionKey)] = struct{}{}
 		for _, updateNode := range commit.path.nodes {
 			if _, dup := encryptionKeys[string(updateNode.encryptionKey)]; dup {
 				return fmt.Errorf("mls: encryption key in update path already used in ratchet tree")
 			}
+			encryptionKeys[string(updateNode.encryptionKey)] = struct{}{}
 		}
 
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
diff --git a/tree.go b/tree.go
index 66042e7..48e9ded 100644
--- a/tree.go
+++ b/tree.go
@@ -754,13 +754,14 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
-		node := tree.getLeaf(li)
+	for _, node := range tree {
 		if node == nil {
 			continue
 		}
-		signatureKeys[string(node.signatureKey)] = struct{}{}
-		encryptionKeys[string(node.encryptionKey)] = struct{}{}
+		if node.nodeType == nodeTypeLeaf {
+			signatureKeys[string(node.leafNode.signatureKey)] = struct{}{}
+		}
+		encryptionKeys[string(node.encryptionKey())] = struct{}{}
 	}
 	return signatureKeys, encryptionKeys
 }
-- 
2.43.0


From 37b840316b25a409c2e26c4eb4625d6be441015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:32 +0000
Subject: [PATCH 14/18] fix: exclude new members when decrypting path secrets

The path secrets of a commit are not encrypted to the members it adds (RFC
9420 section 12.4.1). Commits with both an update path and add proposals
were rejected because of an unexpected number of ciphertexts.
---
 group.go |  4 ++--
 tree.go  | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index fc2eaf7..737302b 100644
--- a/group.go
+++ b/group.go
@@ -468,7 +468,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, senders)
+	added := newTree.apply(proposals, senders)
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -522,7 +522,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree, added)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index 48e9ded..117728f 100644
--- a/tree.go
+++ b/tree.go
@@ -1034,7 +1034,8 @@ func (tree ratchetTree) findLeaf(node *leafNode) (leafIndex, bool) {
 	return 0, false
 }
 
-func (tree *ratchetTree) add(leafNode *leafNode) {
+// add inserts a new leaf and returns its index.
+func (tree *ratchetTree) add(leafNode *leafNode) leafIndex {
 	li := leafIndex(0)
 	var ni nodeIndex
 	found := false
@@ -1081,6 +1082,7 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		nodeType: nodeTypeLeaf,
 		leafNode: leafNode,
 	})
+	return li
 }
 
 func (tree ratchetTree) update(li leafIndex, leafNode *leafNode) {
@@ -1237,7 +1239,7 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey, added map[leafIndex]struct{}) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1276,7 +1278,17 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	// Path secrets are not encrypted to members added by the same commit, they
+	// are sent in the welcome message instead
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if li, ok := ni.leafIndex(); ok {
+			if _, excluded := added[li]; excluded {
+				continue
+			}
+		}
+		copathResolution = append(copathResolution, ni)
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
@@ -1331,7 +1343,9 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	return commitSecret, nil
 }
 
-func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
+// apply applies a list of proposals to the tree. It returns the leaves which
+// have been added.
+func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) map[leafIndex]struct{} {
 	// Apply all update proposals
 	for i, prop := range proposals {
 		if prop.proposalType == proposalTypeUpdate {
@@ -1347,9 +1361,12 @@ func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
 	}
 
 	// Apply all add proposals
+	added := make(map[leafIndex]struct{})
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
-			tree.add(&prop.add.keyPackage.leafNode)
+			li := tree.add(&prop.add.keyPackage.leafNode)
+			added[li] = struct{}{}
 		}
 	}
+	return added
 }
-- 
2.43.0


From 5d68aecfcbbc857133debbb588c045e88a884c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:35 +0000
Subject: [PATCH 15/18] fix: limit the generation of received messages

A member could make others perform up to 2^32 key derivations with a single
message.
---
 group.go       | 4 +++-
 secret_tree.go | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 737302b..026e001 100644
--- a/group.go
+++ b/group.go
@@ -376,7 +376,9 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
-	// TODO: limit number of iterations
+	if senderData.generation > maxRatchetGeneration {
+		return nil, fmt.Errorf("mls: generation %v is too large", senderData.generation)
+	}
 	// TODO: erase knowledge about used generations to ensure forward secrecy
 	for secret.generation != senderData.generation {
 		secret, err = secret.deriveNext(cs)
diff --git a/secret_tree.go b/secret_tree.go
index e8e7494..7eb2d2f 100644
--- a/secret_tree.go
+++ b/secret_tree.go
@@ -84,6 +84,10 @@ func (tree secretTree) deriveRatchetRoot(cs CipherSuite, ni nodeIndex, label rat
 	return ratchetSecret{root, 0}, err
 }
 
+// maxRatchetGeneration is the maximum generation accepted in a message, to
+// limit the number of ratchet steps that a message can trigger.
+const maxRatchetGeneration = 1 << 20
+
 type ratchetSecret struct {
 	secret     []byte
 	generation uint32
-- 
2.43.0


From 375c431efa6f29ede216266a31f5d3d5405d539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:12 +0000
Subject: [PATCH 16/18] fix: validate leaf nodes of add and update proposals

Commits adding or updating leaf nodes with invalid signatures, expired
lifetimes, unsupported credentials or extensions, or keys already used in
the group were applied. New members reject such trees, so nobody could join
the group afterwards.
---
 group.go | 24 +++++++++++++++++++++++-
 tree.go  | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 026e001..066f9f6 100644
--- a/group.go
+++ b/group.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"fmt"
 	"io"
@@ -447,12 +448,20 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
-	for _, prop := range proposals {
+	for i, prop := range proposals {
 		switch prop.proposalType {
 		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeUpdate:
+			leafNode := &prop.update.leafNode
+			if leafNode.leafNodeSource != leafNodeSourceUpdate {
+				return fmt.Errorf("mls: update proposal leaf node source must be update")
+			}
+			if bytes.Equal(leafNode.encryptionKey, group.tree.getLeaf(senders[i]).encryptionKey) {
+				return fmt.Errorf("mls: update proposal doesn't change the encryption key")
+			}
 		case proposalTypeRemove:
 			if group.tree.getLeaf(prop.remove.removed) == nil {
 				return fmt.Errorf("mls: remove proposal refers to a blank leaf node")
@@ -472,6 +481,19 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newTree := group.tree.copy()
 	added := newTree.apply(proposals, senders)
 
+	var changed []leafIndex
+	for i, prop := range proposals {
+		if prop.proposalType == proposalTypeUpdate {
+			changed = append(changed, senders[i])
+		}
+	}
+	for li := range added {
+		changed = append(changed, li)
+	}
+	if err := newTree.verifyChangedLeaves(&group.groupContext, changed, now); err != nil {
+		return err
+	}
+
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
 		if i < len(newPrivTree) {
diff --git a/tree.go b/tree.go
index 117728f..52f9c21 100644
--- a/tree.go
+++ b/tree.go
@@ -849,6 +849,38 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 	return nil
 }
 
+// verifyChangedLeaves performs leaf node validation for leaves which have been
+// updated or added.
+func (tree ratchetTree) verifyChangedLeaves(ctx *groupContext, changed []leafIndex, now func() time.Time) error {
+	unchanged := tree.copy()
+	for _, li := range changed {
+		unchanged.set(li.nodeIndex(), nil)
+	}
+
+	supportedCreds := tree.supportedCreds()
+	signatureKeys, encryptionKeys := unchanged.keys()
+	for _, li := range changed {
+		node := tree.getLeaf(li)
+		err := node.verify(&leafNodeVerifyOptions{
+			cipherSuite:    ctx.cipherSuite,
+			groupID:        ctx.groupID,
+			leafIndex:      li,
+			supportedCreds: supportedCreds,
+			signatureKeys:  signatureKeys,
+			encryptionKeys: encryptionKeys,
+			now:            now,
+		})
+		if err != nil {
+			return fmt.Errorf("leaf node at index %v: %v", li, err)
+		}
+
+		signatureKeys[string(node.signatureKey)] = struct{}{}
+		encryptionKeys[string(node.encryptionKey)] = struct{}{}
+	}
+
+	return nil
+}
+
 func hasUnmergedLeaf(node *parentNode, unmergedLeaf leafIndex) bool {
 	for _, li := range node.unmergedLeaves {
 		if li == unmergedLeaf {
-- 
2.43.0


From 0394a1b20a1552f292c62c2db6c8bea599536bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:16 +0000
Subject: [PATCH 17/18] fix: reject commits leaving a credential type
 unsupported by a member

A new leaf node could drop support for credential types used by other
members, or by itself in a commit path. New members reject such trees.
---
 group.go |  4 ++++
 tree.go  | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/group.go b/group.go
index 066f9f6..22b4b64 100644
--- a/group.go
+++ b/group.go
@@ -558,6 +558,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	if !newTree.verifyCredentialTypes() {
+		return fmt.Errorf("mls: credential type used by leaf node not supported by all members")
+	}
+
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
 	if err != nil {
 		return fmt.Errorf("failed to hash confirmed transcript hash input: %v", err)
diff --git a/tree.go b/tree.go
index 52f9c21..5dcb6eb 100644
--- a/tree.go
+++ b/tree.go
@@ -751,6 +751,22 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	return supportedCreds
 }
 
+// verifyCredentialTypes checks that all credential types used by members are
+// supported by all members.
+func (tree ratchetTree) verifyCredentialTypes() bool {
+	supportedCreds := tree.supportedCreds()
+	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
+		node := tree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
+			return false
+		}
+	}
+	return true
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From 40bbf0b5d79a7e26039b19fdb0362b119d8c5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:14 +0000
Subject: [PATCH 18/18] fix: check the number of path secrets of all update
 path nodes

Only the node used by the recipient was checked, so a path with ciphertexts
missing or in excess in other nodes was accepted.
---
 tree.go | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/tree.go b/tree.go
index 5dcb6eb..4098736 100644
--- a/tree.go
+++ b/tree.go
@@ -1311,34 +1311,35 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	}
 	updatePathNode := path.nodes[recipientAncestorIndex]
 
-	// Find the copath node
-	ancestor := commonAncestor(senderNodeIndex, recipientNodeIndex)
-	var (
-		copathNode nodeIndex
-		ok         bool
-	)
-	if recipientNodeIndex < senderNodeIndex {
-		copathNode, ok = ancestor.left()
-	} else {
-		copathNode, ok = ancestor.right()
-	}
-	if !ok {
-		panic("unreachable")
-	}
-
-	// Path secrets are not encrypted to members added by the same commit, they
-	// are sent in the welcome message instead
 	var copathResolution []nodeIndex
-	for _, ni := range tree.resolve(copathNode) {
-		if li, ok := ni.leafIndex(); ok {
-			if _, excluded := added[li]; excluded {
-				continue
+	for i, ni := range senderFilteredDirectPath {
+		// Find the copath node
+		copathNode, right, ok := ni.children()
+		if !ok {
+			panic("unreachable")
+		}
+		if senderNodeIndex < ni {
+			copathNode = right
+		}
+
+		// Path secrets are not encrypted to members added by the same commit,
+		// they are sent in the welcome message instead
+		var resolution []nodeIndex
+		for _, ni := range tree.resolve(copathNode) {
+			if li, ok := ni.leafIndex(); ok {
+				if _, excluded := added[li]; excluded {
+					continue
+				}
 			}
+			resolution = append(resolution, ni)
+		}
+		if len(path.nodes[i].encryptedPathSecret) != len(resolution) {
+			return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
+		}
+
+		if i == recipientAncestorIndex {
+			copathResolution = resolution
 		}
-		copathResolution = append(copathResolution, ni)
-	}
-	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
-		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
 
 	// Identify a node in the resolution of the copath node for which we have
-- 
2.43.0

