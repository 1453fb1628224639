From f3a7f2741075d3bf97c385e2b6da708cce804ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:43 +0000
Subject: [PATCH 01/36] fix: derive every path secret when joining from a
 welcome

The chain of path secrets was not advanced past the first ancestor, and
blank ancestors, which are not part of the filtered direct path, were
dereferenced.
---
 group.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..8d662dd 100644
--- a/group.go
+++ b/group.go
@@ -220,7 +220,11 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
-	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+	node := tree.get(nodeIndex)
+	if node == nil {
+		return fmt.Errorf("mls: path secret provided for blank node %v", nodeIndex)
+	}
+	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 	}
@@ -233,12 +237,18 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		node := tree.get(nodeIndex)
+		if node == nil {
+			// Not part of the sender's filtered direct path
+			continue
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
 
-		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 		if err != nil {
 			return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 		}
-- 
2.43.0


From 98fe6911a7256f6410999d91805e8c3d873d4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:21 +0000
Subject: [PATCH 02/36] fix: don't modify shared parent nodes when adding a
 leaf

Copies of the ratchet tree share their nodes. Adding a leaf to a copy
appended to the unmerged leaves of the original tree's parent nodes, so
preparing a welcome or rejecting a commit corrupted the group.
---
 tree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index a0eefbe..8572c5a 100644
--- a/tree.go
+++ b/tree.go
@@ -1042,9 +1042,15 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		if n := tree.get(p); n != nil {
+			// The node may be shared with a copy of the tree
+			parent := *n.parentNode
+			parent.unmergedLeaves = append([]leafIndex(nil), parent.unmergedLeaves...)
+			parent.unmergedLeaves = append(parent.unmergedLeaves, li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parent,
+			})
 		}
 	}
 
-- 
2.43.0


From 0727e39a96d5e2d2b96bbde788d57941d252e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:25 +0000
Subject: [PATCH 03/36] fix: accept default extension types in leaf nodes

Section 7.2 says that the extension types defined by the RFC are
considered to be supported by everybody and aren't listed in the
capabilities.
---
 tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 8572c5a..4ea2645 100644
--- a/tree.go
+++ b/tree.go
@@ -235,6 +235,12 @@ const (
 	extensionTypeExternalSenders      extensionType = 0x0005
 )
 
+// isDefault checks whether the extension type is defined in RFC 9420. These
+// are supported by all clients and aren't listed in capabilities.
+func (t extensionType) isDefault() bool {
+	return t >= extensionTypeApplicationID && t <= extensionTypeExternalSenders
+}
+
 type extension struct {
 	extensionType extensionType
 	extensionData []byte
@@ -430,7 +436,7 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 		supportedExts[et] = struct{}{}
 	}
 	for _, ext := range node.extensions {
-		if _, ok := supportedExts[ext.extensionType]; !ok {
+		if _, ok := supportedExts[ext.extensionType]; !ok && !ext.extensionType.isDefault() {
 			return fmt.Errorf("mls: extension type %d used by leaf node not supported by that leaf node", ext.extensionType)
 		}
 	}
-- 
2.43.0


From d4d8974c37bed942fdeb84c2e2d0514826d06620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:52 +0000
Subject: [PATCH 04/36] fix: exclude new leaves from update path resolutions

A committer doesn't encrypt path secrets to the members added by the
same commit, see section 12.4.1.
---
 group.go |  4 ++--
 tree.go  | 29 ++++++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 8d662dd..82b1191 100644
--- a/group.go
+++ b/group.go
@@ -461,7 +461,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, senders)
+	added := newTree.apply(proposals, senders)
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -514,7 +514,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, added, newPrivTree)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index 4ea2645..0cf4c4b 100644
--- a/tree.go
+++ b/tree.go
@@ -1018,7 +1018,8 @@ func (tree ratchetTree) findLeaf(node *leafNode) (leafIndex, bool) {
 	return 0, false
 }
 
-func (tree *ratchetTree) add(leafNode *leafNode) {
+// add inserts a new leaf in the tree and returns its index.
+func (tree *ratchetTree) add(leafNode *leafNode) leafIndex {
 	li := leafIndex(0)
 	var ni nodeIndex
 	found := false
@@ -1064,6 +1065,8 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		nodeType: nodeTypeLeaf,
 		leafNode: leafNode,
 	})
+
+	return li
 }
 
 func (tree ratchetTree) update(li leafIndex, leafNode *leafNode) {
@@ -1220,7 +1223,9 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+// decryptPathSecrets decrypts the path secrets of an update path. added lists
+// the leaves added by the commit: path secrets aren't encrypted to these.
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, added []leafIndex, privTree []hpkePrivateKey) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1259,7 +1264,16 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	addedNodes := make(map[nodeIndex]struct{}, len(added))
+	for _, li := range added {
+		addedNodes[li.nodeIndex()] = struct{}{}
+	}
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if _, ok := addedNodes[ni]; !ok {
+			copathResolution = append(copathResolution, ni)
+		}
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
@@ -1314,7 +1328,9 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	return commitSecret, nil
 }
 
-func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
+// apply applies proposals to the tree. The indices of the leaves added by the
+// proposals are returned.
+func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) []leafIndex {
 	// Apply all update proposals
 	for i, prop := range proposals {
 		if prop.proposalType == proposalTypeUpdate {
@@ -1330,9 +1346,12 @@ func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
 	}
 
 	// Apply all add proposals
+	var added []leafIndex
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
-			tree.add(&prop.add.keyPackage.leafNode)
+			added = append(added, tree.add(&prop.add.keyPackage.leafNode))
 		}
 	}
+
+	return added
 }
-- 
2.43.0


From 7ccfee65190368e7bc247a44d6bf2640e43886b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:03 +0000
Subject: [PATCH 05/36] fix: use a fresh ratchet generation for each message

Keep the next unused ratchet secret of our leaf per epoch instead of always
encrypting with generation 0.
---
 group.go | 61 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/group.go b/group.go
index 82b1191..7911ab7 100644
--- a/group.go
+++ b/group.go
@@ -30,6 +30,10 @@ type Group struct {
 	signaturePriv signaturePrivateKey
 
 	pendingProposals []pendingProposal
+
+	// Next unused ratchet secrets of our own leaf in the current epoch,
+	// indexed by ratchet label
+	sendRatchets map[string]ratchetSecret
 }
 
 // CreateGroup creates a new group with a single member.
@@ -564,6 +568,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.epochSecret = newEpochSecret
 	group.initSecret = newInitSecret
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
+	group.sendRatchets = nil
 	return nil
 }
 
@@ -792,25 +797,15 @@ func (group *Group) CreateApplicationMessage(data []byte) ([]byte, error) {
 func (group *Group) encryptPrivateMessage(framedContent *framedContent, privContent *privateMessageContent) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-	senderData, err := newSenderData(group.myLeafIndex, 0) // TODO: set generation > 0
-	if err != nil {
-		return nil, fmt.Errorf("failed to create sender data: %v", err)
-	}
-
-	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
-	}
-
-	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	label := ratchetLabelFromContentType(framedContent.contentType)
+	secret, err := group.sendRatchetSecret(label)
 	if err != nil {
-		return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		return nil, err
 	}
 
-	label := ratchetLabelFromContentType(framedContent.contentType)
-	secret, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+	senderData, err := newSenderData(group.myLeafIndex, secret.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		return nil, fmt.Errorf("failed to create sender data: %v", err)
 	}
 
 	senderDataSecret, err := cs.deriveSecret(group.epochSecret, secretLabelSenderData)
@@ -832,9 +827,45 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		return nil, fmt.Errorf("failed to marshal private message: %v", err)
 	}
 
+	// The key must not be used again
+	nextSecret, err := secret.deriveNext(cs)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive next ratchet secret: %v", err)
+	}
+	if group.sendRatchets == nil {
+		group.sendRatchets = make(map[string]ratchetSecret)
+	}
+	group.sendRatchets[string(label)] = nextSecret
+
 	return rawMsg, nil
 }
 
+// sendRatchetSecret returns the next unused ratchet secret of our own leaf.
+func (group *Group) sendRatchetSecret(label ratchetLabel) (ratchetSecret, error) {
+	if secret, ok := group.sendRatchets[string(label)]; ok {
+		return secret, nil
+	}
+
+	cs := group.groupContext.cipherSuite
+
+	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
+	if err != nil {
+		return ratchetSecret{}, fmt.Errorf("failed to derive encryption secret: %v", err)
+	}
+
+	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	if err != nil {
+		return ratchetSecret{}, fmt.Errorf("failed to erive secret tree: %v", err)
+	}
+
+	secret, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+	if err != nil {
+		return ratchetSecret{}, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+	}
+
+	return secret, nil
+}
+
 func (group *Group) signPublicMessageMembershipTag(pubMsg *publicMessage) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-- 
2.43.0


From c21b64fde043404bf4e011e837a607f833f37e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:26 +0000
Subject: [PATCH 06/36] fix: verify the confirmation tag of commits

Without this check a receiver whose new epoch differs from the committer's
view silently diverges from the rest of the group.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 7911ab7..01d2ae6 100644
--- a/group.go
+++ b/group.go
@@ -555,6 +555,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify commit confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From 6aca9ba7bb6bfad3196854379eb53086d437aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:52 +0000
Subject: [PATCH 07/36] fix: reject out of range leaf indices

A message naming a sender which isn't in the tree made the receiver panic, or
was attributed to another leaf because of an integer overflow.
---
 group.go | 12 +++++-------
 tree.go  |  6 ++++++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 01d2ae6..88680c8 100644
--- a/group.go
+++ b/group.go
@@ -316,7 +316,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -357,6 +356,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -387,11 +391,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
@@ -481,7 +480,6 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("mls: commit path leaf node source must be commit")
 		}
 
-		// TODO: check tree length
 		senderNode := newTree.getLeaf(senderLeafIndex)
 
 		// The same signature key can be re-used, but the encryption key
diff --git a/tree.go b/tree.go
index 0cf4c4b..3292e45 100644
--- a/tree.go
+++ b/tree.go
@@ -685,7 +685,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided index.
+//
+// nil is returned for blank leaf nodes and if the index is out of range.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if uint32(li) >= uint32(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From 89eb4146aee87fd6c2715ae78ac78cd9521fb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:54 +0000
Subject: [PATCH 08/36] fix: reject remove proposals for blank leaves

---
 group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 88680c8..502687e 100644
--- a/group.go
+++ b/group.go
@@ -447,10 +447,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	}
 
 	for _, prop := range proposals {
-		if prop.proposalType == proposalTypeAdd {
+		switch prop.proposalType {
+		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal for blank leaf node %v", prop.remove.removed)
+			}
 		}
 	}
 
-- 
2.43.0


From 93f337fe77b9d1c7fba552c3d11e4f72735dc5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:25 +0000
Subject: [PATCH 09/36] fix: count each credential type once per leaf node

---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 3292e45..50c265f 100644
--- a/tree.go
+++ b/tree.go
@@ -732,7 +732,11 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
+		leafCreds := make(map[credentialType]struct{})
 		for _, ct := range node.capabilities.credentials {
+			leafCreds[ct] = struct{}{}
+		}
+		for ct := range leafCreds {
 			supportedCredsCount[ct]++
 		}
 	}
-- 
2.43.0


From 22d38d4fe625529e2d5e603f0eff58d51a05b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:28 +0000
Subject: [PATCH 10/36] fix: verify leaf nodes of add proposals

---
 group.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/group.go b/group.go
index 502687e..40c7670 100644
--- a/group.go
+++ b/group.go
@@ -471,6 +471,20 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newTree := group.tree.copy()
 	added := newTree.apply(proposals, senders)
 
+	supportedCreds := newTree.supportedCreds()
+	for _, li := range added {
+		err := newTree.getLeaf(li).verify(&leafNodeVerifyOptions{
+			cipherSuite:    cs,
+			groupID:        group.groupContext.groupID,
+			leafIndex:      li,
+			supportedCreds: supportedCreds,
+			now:            now,
+		})
+		if err != nil {
+			return fmt.Errorf("failed to verify added leaf node: %v", err)
+		}
+	}
+
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
 		if i < len(newPrivTree) {
-- 
2.43.0


From f117eb96c1b97197249a5eba8bb29cbe91ee15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:32 +0000
Subject: [PATCH 11/36] fix: verify leaf nodes of update proposals

---
 group.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/group.go b/group.go
index 40c7670..a101403 100644
--- a/group.go
+++ b/group.go
@@ -484,6 +484,29 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to verify added leaf node: %v", err)
 		}
 	}
+	for i, prop := range proposals {
+		if prop.proposalType != proposalTypeUpdate {
+			continue
+		}
+		updatedNode := &prop.update.leafNode
+		if updatedNode.leafNodeSource != leafNodeSourceUpdate {
+			return fmt.Errorf("mls: update proposal leaf node source must be update")
+		}
+		err := updatedNode.verify(&leafNodeVerifyOptions{
+			cipherSuite:    cs,
+			groupID:        group.groupContext.groupID,
+			leafIndex:      senders[i],
+			supportedCreds: supportedCreds,
+			// The encryption key must change
+			encryptionKeys: map[string]struct{}{
+				string(group.tree.getLeaf(senders[i]).encryptionKey): {},
+			},
+			now: now,
+		})
+		if err != nil {
+			return fmt.Errorf("failed to verify updated leaf node: %v", err)
+		}
+	}
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
-- 
2.43.0


From a5c5a821ce3253165d474c8bbe2b587120f1ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:49 +0000
Subject: [PATCH 12/36] fix: reject commits resulting in duplicate keys

---
 group.go |  4 ++++
 tree.go  | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/group.go b/group.go
index a101403..1428365 100644
--- a/group.go
+++ b/group.go
@@ -570,6 +570,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	if err := newTree.verifyUniqueKeys(); err != nil {
+		return err
+	}
+
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
 	if err != nil {
 		return fmt.Errorf("failed to hash confirmed transcript hash input: %v", err)
diff --git a/tree.go b/tree.go
index 50c265f..ea580ac 100644
--- a/tree.go
+++ b/tree.go
@@ -765,6 +765,33 @@ func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{
 	return signatureKeys, encryptionKeys
 }
 
+// verifyUniqueKeys verifies that no signature or encryption key is used more
+// than once in the tree.
+func (tree ratchetTree) verifyUniqueKeys() error {
+	signatureKeys := make(map[string]struct{})
+	encryptionKeys := make(map[string]struct{})
+	for _, node := range tree {
+		if node == nil {
+			continue
+		}
+
+		if node.nodeType == nodeTypeLeaf {
+			k := string(node.leafNode.signatureKey)
+			if _, dup := signatureKeys[k]; dup {
+				return fmt.Errorf("mls: duplicate signature key in ratchet tree")
+			}
+			signatureKeys[k] = struct{}{}
+		}
+
+		k := string(node.encryptionKey())
+		if _, dup := encryptionKeys[k]; dup {
+			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
+		}
+		encryptionKeys[k] = struct{}{}
+	}
+	return nil
+}
+
 // verifyIntegrity verifies the integrity of the ratchet tree, as described in
 // section 12.4.3.1.
 //
-- 
2.43.0


From 73d77570e062908b90c2b3f0992db45243342389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:26 +0000
Subject: [PATCH 13/36] fix: reject commits dropping support for credential
 types in use

---
 group.go |  3 +++
 tree.go  | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/group.go b/group.go
index 1428365..2b2a8b0 100644
--- a/group.go
+++ b/group.go
@@ -573,6 +573,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	if err := newTree.verifyUniqueKeys(); err != nil {
 		return err
 	}
+	if err := newTree.verifyCreds(); err != nil {
+		return err
+	}
 
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
 	if err != nil {
diff --git a/tree.go b/tree.go
index ea580ac..99a5511 100644
--- a/tree.go
+++ b/tree.go
@@ -751,6 +751,22 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	return supportedCreds
 }
 
+// verifyCreds verifies that the credential types used in the tree are
+// supported by all members.
+func (tree ratchetTree) verifyCreds() error {
+	supportedCreds := tree.supportedCreds()
+	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
+		node := tree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
+			return fmt.Errorf("mls: credential type %v used by leaf node %v not supported by all members", node.credential.credentialType, li)
+		}
+	}
+	return nil
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From 830ee4c82d290a5b7a9961de62631e7277ef834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:49 +0000
Subject: [PATCH 14/36] fix: check the number of path secrets of all update
 path nodes

RFC 9420 section 7.6 requires the lengths of all encrypted_path_secret vectors
to be checked, otherwise members disagree about whether a commit is valid.
---
 tree.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/tree.go b/tree.go
index 99a5511..1af6843 100644
--- a/tree.go
+++ b/tree.go
@@ -1302,33 +1302,36 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	}
 	updatePathNode := path.nodes[recipientAncestorIndex]
 
-	// Find the copath node
-	ancestor := commonAncestor(senderNodeIndex, recipientNodeIndex)
-	var (
-		copathNode nodeIndex
-		ok         bool
-	)
-	if recipientNodeIndex < senderNodeIndex {
-		copathNode, ok = ancestor.left()
-	} else {
-		copathNode, ok = ancestor.right()
-	}
-	if !ok {
-		panic("unreachable")
-	}
-
 	addedNodes := make(map[nodeIndex]struct{}, len(added))
 	for _, li := range added {
 		addedNodes[li.nodeIndex()] = struct{}{}
 	}
+
+	// Find the resolution of the copath node, and check that each path secret
+	// is encrypted to the whole resolution of its copath node
 	var copathResolution []nodeIndex
-	for _, ni := range tree.resolve(copathNode) {
-		if _, ok := addedNodes[ni]; !ok {
-			copathResolution = append(copathResolution, ni)
+	for i, ni := range senderFilteredDirectPath {
+		copathNode, ok := ni.left()
+		if senderNodeIndex < ni {
+			copathNode, ok = ni.right()
+		}
+		if !ok {
+			panic("unreachable")
+		}
+
+		var resolution []nodeIndex
+		for _, x := range tree.resolve(copathNode) {
+			if _, ok := addedNodes[x]; !ok {
+				resolution = append(resolution, x)
+			}
+		}
+		if len(path.nodes[i].encryptedPathSecret) != len(resolution) {
+			return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
+		}
+
+		if i == recipientAncestorIndex {
+			copathResolution = resolution
 		}
-	}
-	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
-		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
 
 	// Identify a node in the resolution of the copath node for which we have
-- 
2.43.0


From 2cdc9851731c8663e5f77c37eb8c595227401c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:05 +0000
Subject: [PATCH 15/36] fix: don't panic on secrets with an invalid size

---
 ciphersuite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..a06bf40 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -165,6 +165,11 @@ func (cs CipherSuite) refHash(label, value []byte) ([]byte, error) {
 }
 
 func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint16) ([]byte, error) {
+	_, kdf, _ := cs.hpke().Params()
+	if len(secret) != kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: invalid secret size")
+	}
+
 	label = append([]byte("MLS 1.0 "), label...)
 
 	var b cryptobyte.Builder
@@ -176,7 +181,6 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 		return nil, err
 	}
 
-	_, kdf, _ := cs.hpke().Params()
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0


From f8c26655046327cdf3dc130dd589e9abcfd91a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:24 +0000
Subject: [PATCH 16/36] fix: apply group context extensions proposals

---
 group.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 2b2a8b0..db400f6 100644
--- a/group.go
+++ b/group.go
@@ -467,6 +467,11 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	newGroupCtx := group.groupContext
 	newGroupCtx.epoch++
+	for _, prop := range proposals {
+		if prop.proposalType == proposalTypeGroupContextExtensions {
+			newGroupCtx.extensions = prop.groupContextExtensions.extensions
+		}
+	}
 
 	newTree := group.tree.copy()
 	added := newTree.apply(proposals, senders)
@@ -556,8 +561,6 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to compute root tree hash: %v", err)
 		}
 
-		// TODO: update group context extensions
-
 		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, added, newPrivTree)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
-- 
2.43.0


From 13fcd52c1182b1ba6942497282ef4c027d964960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:28 +0000
Subject: [PATCH 17/36] fix: reject commits with unavailable PSKs

---
 group.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/group.go b/group.go
index db400f6..42c78f2 100644
--- a/group.go
+++ b/group.go
@@ -459,6 +459,16 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	numPSKs := 0
+	for _, prop := range proposals {
+		if prop.proposalType == proposalTypePSK {
+			numPSKs++
+		}
+	}
+	if numPSKs != len(pskIDs) {
+		return fmt.Errorf("mls: missing PSKs referenced by commit")
+	}
+
 	// TODO: additional proposal list checks
 
 	if proposalListNeedsPath(proposals) && commit.path == nil {
-- 
2.43.0


From bf38345666860b7c2b82836b47a9dbe7389ae266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:46 +0000
Subject: [PATCH 18/36] fix: reject malformed ratchet trees

Leaf nodes must be at even positions, parent nodes at odd ones, and the
last node must not be blank.
---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index 1af6843..dd89e3f 100644
--- a/tree.go
+++ b/tree.go
@@ -636,6 +636,9 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 			if err := n.unmarshal(s); err != nil {
 				return err
 			}
+			if isLeaf := nodeIndex(len(*tree)).isLeaf(); isLeaf != (n.nodeType == nodeTypeLeaf) {
+				return fmt.Errorf("mls: node type %d doesn't match its position in the ratchet tree", n.nodeType)
+			}
 		}
 		*tree = append(*tree, n)
 		return nil
@@ -644,6 +647,10 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 || (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: last node of the ratchet tree is blank")
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
-- 
2.43.0


From 281109270e5fc5fc490fba22aa94643b26d3904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:07 +0000
Subject: [PATCH 19/36] fix: verify unmerged leaves before using them

Unmerged leaves which are blank or out of range were used to compute
resolutions, and crashed the joiner.
---
 tree.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index dd89e3f..08fb8e7 100644
--- a/tree.go
+++ b/tree.go
@@ -832,6 +832,10 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		return fmt.Errorf("mls: tree hash verification failed")
 	}
 
+	if err := tree.verifyUnmergedLeaves(); err != nil {
+		return err
+	}
+
 	if !tree.verifyParentHashes(cs) {
 		return fmt.Errorf("mls: parent hashes verification failed")
 	}
@@ -862,12 +866,35 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		encryptionKeys[string(node.encryptionKey)] = struct{}{}
 	}
 
+	for _, node := range tree {
+		if node == nil || node.nodeType != nodeTypeParent {
+			continue
+		}
+
+		if _, dup := encryptionKeys[string(node.parentNode.encryptionKey)]; dup {
+			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
+		}
+		encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
+	}
+
+	return nil
+}
+
+// verifyUnmergedLeaves verifies that each unmerged leaf is a non-blank
+// descendant of the parent node and is listed in all non-blank intermediate
+// nodes.
+func (tree ratchetTree) verifyUnmergedLeaves() error {
+	numLeaves := tree.numLeaves()
 	for i, node := range tree {
 		if node == nil || node.nodeType != nodeTypeParent {
 			continue
 		}
 		p := nodeIndex(i)
 		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(unmergedLeaf) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, p)
+			}
+
 			x := unmergedLeaf.nodeIndex()
 			for {
 				var ok bool
@@ -883,13 +910,7 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 				}
 			}
 		}
-
-		if _, dup := encryptionKeys[string(node.parentNode.encryptionKey)]; dup {
-			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
-		}
-		encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
 	}
-
 	return nil
 }
 
-- 
2.43.0


From 3d6878ba279b951176ba915cc3b46e2240211f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:37 +0000
Subject: [PATCH 20/36] fix: check resolutions when verifying parent hashes

A parent node is only parent-hash valid with respect to a descendant if
all other nodes in the resolution of its child are unmerged leaves.
---
 tree.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tree.go b/tree.go
index 08fb8e7..2d0cef5 100644
--- a/tree.go
+++ b/tree.go
@@ -1046,8 +1046,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 			return false
 		}
 
-		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
-		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant := tree.findParentHash(tree.resolve(l), exclude, leftParentHash)
+		isRightDescendant := tree.findParentHash(tree.resolve(r), exclude, rightParentHash)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -1055,12 +1055,21 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
-func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
-	for _, x := range nodeIndices {
-		node := tree.get(x)
-		if node == nil {
-			continue
+// findParentHash checks whether the resolution of a child is composed of a
+// node with the specified parent hash and of unmerged leaves of the parent, as
+// described in section 7.9.2.
+func (tree ratchetTree) findParentHash(resolution []nodeIndex, unmergedLeaves map[leafIndex]struct{}, parentHash []byte) bool {
+	found := false
+	for _, x := range resolution {
+		if li, ok := x.leafIndex(); ok {
+			if _, unmerged := unmergedLeaves[li]; unmerged {
+				continue
+			}
 		}
+		if found {
+			return false
+		}
+		node := tree.get(x)
 		var h []byte
 		switch node.nodeType {
 		case nodeTypeLeaf:
@@ -1068,11 +1077,12 @@ func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byt
 		case nodeTypeParent:
 			h = node.parentNode.parentHash
 		}
-		if bytes.Equal(h, parentHash) {
-			return true
+		if !bytes.Equal(h, parentHash) {
+			return false
 		}
+		found = true
 	}
-	return false
+	return found
 }
 
 func (tree ratchetTree) numLeaves() numLeaves {
-- 
2.43.0


From cd3fcb7dc4ec1405a19f9921a4caae1232fec5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:02 +0000
Subject: [PATCH 21/36] fix: check cipher suites before joining a group

The cipher suite of the welcome message must be the one of the key
package, and the cipher suite of the group info must be checked before it's
used to verify signatures.
---
 group.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 42c78f2..882c347 100644
--- a/group.go
+++ b/group.go
@@ -103,6 +103,10 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -144,6 +148,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
 
 	rawTree := options.rawTree
 	if rawTree == nil {
@@ -167,9 +174,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
 
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
-- 
2.43.0


From d312839311061abbf968b72ef0ee3c1052c883cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:58 +0000
Subject: [PATCH 22/36] fix: limit generation of received messages

The generation is picked by the sender, and deriving the ratchet up to it
takes a time proportional to it.
---
 group.go       | 5 ++++-
 secret_tree.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 882c347..f124c87 100644
--- a/group.go
+++ b/group.go
@@ -381,7 +381,10 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
-	// TODO: limit number of iterations
+	if senderData.generation > maxRatchetGeneration {
+		return nil, fmt.Errorf("mls: message generation %v is too large", senderData.generation)
+	}
+
 	// TODO: erase knowledge about used generations to ensure forward secrecy
 	for secret.generation != senderData.generation {
 		secret, err = secret.deriveNext(cs)
diff --git a/secret_tree.go b/secret_tree.go
index e8e7494..b0a5630 100644
--- a/secret_tree.go
+++ b/secret_tree.go
@@ -11,6 +11,10 @@ var (
 	ratchetLabelApplication = ratchetLabel("application")
 )
 
+// maxRatchetGeneration is the maximum generation we are willing to derive from
+// the root of a ratchet to decrypt a message.
+const maxRatchetGeneration = 1 << 20
+
 func ratchetLabelFromContentType(ct contentType) ratchetLabel {
 	switch ct {
 	case contentTypeApplication:
-- 
2.43.0


From fd3feaabcbe714bf828ee393e2438765db5f4389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:02 +0000
Subject: [PATCH 23/36] fix: reject replayed private messages

Each ratchet key is used for a single message.
---
 group.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index f124c87..4748b74 100644
--- a/group.go
+++ b/group.go
@@ -34,6 +34,14 @@ type Group struct {
 	// Next unused ratchet secrets of our own leaf in the current epoch,
 	// indexed by ratchet label
 	sendRatchets map[string]ratchetSecret
+	// Ratchet keys already used by received messages in the current epoch
+	usedRatchetKeys map[usedRatchetKey]struct{}
+}
+
+type usedRatchetKey struct {
+	leafIndex  leafIndex
+	label      string
+	generation uint32
 }
 
 // CreateGroup creates a new group with a single member.
@@ -381,6 +389,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
+	usedKey := usedRatchetKey{senderData.leafIndex, string(label), senderData.generation}
+	if _, used := group.usedRatchetKeys[usedKey]; used {
+		return nil, fmt.Errorf("mls: message generation %v has already been used", senderData.generation)
+	}
+
 	if senderData.generation > maxRatchetGeneration {
 		return nil, fmt.Errorf("mls: message generation %v is too large", senderData.generation)
 	}
@@ -405,10 +418,15 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 
 	switch authContent.content.contentType {
 	case contentTypeProposal:
-		return nil, group.processProposal(authContent)
+		if err := group.processProposal(authContent); err != nil {
+			return nil, err
+		}
+		group.markRatchetKeyUsed(usedKey)
+		return nil, nil
 	case contentTypeCommit:
 		return nil, group.processCommit(authContent, nil, nil, nil)
 	case contentTypeApplication:
+		group.markRatchetKeyUsed(usedKey)
 		return authContent.content.applicationData, nil
 	default:
 		// TODO: support other content types
@@ -416,6 +434,13 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 	}
 }
 
+func (group *Group) markRatchetKeyUsed(k usedRatchetKey) {
+	if group.usedRatchetKeys == nil {
+		group.usedRatchetKeys = make(map[usedRatchetKey]struct{})
+	}
+	group.usedRatchetKeys[k] = struct{}{}
+}
+
 func (group *Group) processProposal(authContent *authenticatedContent) error {
 	if authContent.content.contentType != contentTypeProposal {
 		panic("mls: expected a proposal")
@@ -643,6 +668,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.initSecret = newInitSecret
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
 	group.sendRatchets = nil
+	group.usedRatchetKeys = nil
 	return nil
 }
 
-- 
2.43.0


From 5b1bde4114ba3451e912e4e8f8b05efe0e656ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:11 +0000
Subject: [PATCH 24/36] fix: reject unsorted unmerged leaves

---
 tree.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 2d0cef5..fdd7f4c 100644
--- a/tree.go
+++ b/tree.go
@@ -880,9 +880,9 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 	return nil
 }
 
-// verifyUnmergedLeaves verifies that each unmerged leaf is a non-blank
-// descendant of the parent node and is listed in all non-blank intermediate
-// nodes.
+// verifyUnmergedLeaves verifies that unmerged leaves are sorted, and that each
+// of them is a non-blank descendant of the parent node and is listed in all
+// non-blank intermediate nodes.
 func (tree ratchetTree) verifyUnmergedLeaves() error {
 	numLeaves := tree.numLeaves()
 	for i, node := range tree {
@@ -890,7 +890,10 @@ func (tree ratchetTree) verifyUnmergedLeaves() error {
 			continue
 		}
 		p := nodeIndex(i)
-		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+		for j, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if j > 0 && unmergedLeaf <= node.parentNode.unmergedLeaves[j-1] {
+				return fmt.Errorf("mls: unmerged leaves of the parent node at index %v are not sorted", p)
+			}
 			if tree.getLeaf(unmergedLeaf) == nil {
 				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, p)
 			}
-- 
2.43.0


From 9378e77454e32159837272720f1e7a82af38f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:43 +0000
Subject: [PATCH 25/36] fix: check opaque vector length before allocating

---
 mls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..a699d06 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,10 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
+
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 26e019d8cf8de23a2c54d956c1c5c5456dbc5d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:27 +0000
Subject: [PATCH 26/36] fix: don't panic when generating a reference for an
 unknown cipher suite

---
 key_package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key_package.go b/key_package.go
index 389dba9..9ee4879 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
-- 
2.43.0


From 9196f3840713634a96b039861d8aba00dde1fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:24 +0000
Subject: [PATCH 27/36] fix: don't panic on invalid ECDSA public keys

---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index a06bf40..08c86ab 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -369,6 +369,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 305ad9224788f4499dc73c825005f164de598475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:37 +0000
Subject: [PATCH 28/36] fix: don't panic when deriving a key pair from a seed
 of invalid size

---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index 08c86ab..dfb107b 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -282,6 +282,9 @@ func (cs CipherSuite) generateEncryptionKeyPair() (hpkePublicKey, hpkePrivateKey
 
 func (cs CipherSuite) deriveEncryptionKeyPair(seed []byte) (hpkePublicKey, hpkePrivateKey, error) {
 	kem, _, _ := cs.hpke().Params()
+	if len(seed) != kem.Scheme().SeedSize() {
+		return nil, nil, fmt.Errorf("mls: invalid seed size")
+	}
 	pub, priv := kem.Scheme().DeriveKeyPair(seed)
 
 	rawPub, err := pub.MarshalBinary()
-- 
2.43.0


From 3ceb6d4691745124bf2ae139d1640c189b360f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:36 +0000
Subject: [PATCH 29/36] fix: copy identity in NewBasicCredential

---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 2aae887..01fc986 100644
--- a/crypto.go
+++ b/crypto.go
@@ -34,7 +34,7 @@ type Credential struct {
 func NewBasicCredential(identity []byte) *Credential {
 	return &Credential{
 		credentialType: credentialTypeBasic,
-		identity:       identity,
+		identity:       append([]byte(nil), identity...),
 	}
 }
 
-- 
2.43.0


From edd0bfe5a0c702eb46c7f3ee309222d437000e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:40 +0000
Subject: [PATCH 30/36] fix: return copies from Welcome.NewMembers

---
 group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 4748b74..540bcc1 100644
--- a/group.go
+++ b/group.go
@@ -1289,7 +1289,7 @@ func (w *Welcome) marshal(b *cryptobyte.Builder) {
 func (w *Welcome) NewMembers() []KeyPackageRef {
 	refs := make([]KeyPackageRef, len(w.secrets))
 	for i, sec := range w.secrets {
-		refs[i] = sec.newMember
+		refs[i] = append(KeyPackageRef(nil), sec.newMember...)
 	}
 	return refs
 }
-- 
2.43.0


From 8f29e0b1b41871cdddb520ade983f3ef6e821aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:43 +0000
Subject: [PATCH 31/36] fix: copy group ID and leaf node in CreateGroup

---
 group.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 540bcc1..01821ef 100644
--- a/group.go
+++ b/group.go
@@ -48,8 +48,10 @@ type usedRatchetKey struct {
 func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
 
+	leafNode := keyPairPkg.Public.leafNode
+
 	tree := make(ratchetTree, 1)
-	tree.add(&keyPairPkg.Public.leafNode)
+	tree.add(&leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
 	privTree[0] = keyPairPkg.Private.EncryptionKey
@@ -70,7 +72,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	groupCtx := groupContext{
 		version:                 keyPairPkg.Public.version,
 		cipherSuite:             keyPairPkg.Public.cipherSuite,
-		groupID:                 groupID,
+		groupID:                 append(GroupID(nil), groupID...),
 		epoch:                   0,
 		treeHash:                treeHash,
 		confirmedTranscriptHash: confirmedTranscriptHash,
-- 
2.43.0


From b7bca29e7f162b7d65b65749707214f878f6f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:13 +0000
Subject: [PATCH 32/36] fix: copy private keys when creating or joining a group

---
 group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/group.go b/group.go
index 01821ef..e7ec79e 100644
--- a/group.go
+++ b/group.go
@@ -54,7 +54,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	tree.add(&leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[0] = keyPairPkg.Private.EncryptionKey
+	privTree[0] = append(hpkePrivateKey(nil), keyPairPkg.Private.EncryptionKey...)
 
 	treeHash, err := tree.computeRootTreeHash(cs)
 	if err != nil {
@@ -102,7 +102,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		tree:                  tree,
 		privTree:              privTree,
 		myLeafIndex:           0,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         append(signaturePrivateKey(nil), keyPairPkg.Private.SignatureKey...),
 		groupContext:          groupCtx,
 		interimTranscriptHash: interimTranscriptHash,
 		pskSecret:             pskSecret,
@@ -214,7 +214,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	}
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[int(myLeafIndex.nodeIndex())] = keyPairPkg.Private.EncryptionKey
+	privTree[int(myLeafIndex.nodeIndex())] = append(hpkePrivateKey(nil), keyPairPkg.Private.EncryptionKey...)
 
 	if groupSecrets.pathSecret != nil {
 		nodeIndex := commonAncestor(myLeafIndex.nodeIndex(), groupInfo.signer.nodeIndex())
@@ -233,7 +233,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		initSecret:            initSecret,
 		myLeafIndex:           myLeafIndex,
 		privTree:              privTree,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         append(signaturePrivateKey(nil), keyPairPkg.Private.SignatureKey...),
 	}, nil
 }
 
-- 
2.43.0


From fc59189d48dbcdfa655488f51d650c12b14d6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:34 +0000
Subject: [PATCH 33/36] fix: check key packages before inviting them

---
 group.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index e7ec79e..2ea30a3 100644
--- a/group.go
+++ b/group.go
@@ -718,8 +718,13 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	}
 
 	proposals := make([]proposal, len(keyPkgs))
+	senders := make([]leafIndex, len(keyPkgs))
 	proposalOrRefs := make([]proposalOrRef, len(keyPkgs))
 	for i, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
+		senders[i] = group.myLeafIndex
 		proposals[i] = proposal{
 			proposalType: proposalTypeAdd,
 			add:          &add{keyPackage: keyPkg},
@@ -730,14 +735,35 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 		}
 	}
 
-	// TODO: check proposal list validity per section 12.2
+	if err := verifyProposalList(proposals, senders, group.myLeafIndex); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify proposals: %v", err)
+	}
 	commit := commit{proposals: proposalOrRefs}
 
 	newGroupCtx := group.groupContext
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, []leafIndex{group.myLeafIndex})
+	added := newTree.apply(proposals, senders)
+
+	supportedCreds := newTree.supportedCreds()
+	for _, li := range added {
+		err := newTree.getLeaf(li).verify(&leafNodeVerifyOptions{
+			cipherSuite:    cs,
+			groupID:        group.groupContext.groupID,
+			leafIndex:      li,
+			supportedCreds: supportedCreds,
+		})
+		if err != nil {
+			return nil, nil, fmt.Errorf("failed to verify added leaf node: %v", err)
+		}
+	}
+	if err := newTree.verifyUniqueKeys(); err != nil {
+		return nil, nil, err
+	}
+	if err := newTree.verifyCreds(); err != nil {
+		return nil, nil, err
+	}
 
 	// TODO: only recompute parts of the tree affected by proposals
 	var err error
-- 
2.43.0


From de2f6c248f75b106f2e09fa8b1e7f79027531767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:29 +0000
Subject: [PATCH 34/36] fix: refuse key packages and group infos with a
 truncated end

Both decoders returned a nil error variable when the last fields could
not be read.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 2ea30a3..88af917 100644
--- a/group.go
+++ b/group.go
@@ -1082,7 +1082,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 9ee4879..a65b97e 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 5dfd7a00b84dbfc0822b7998b7fec48a9ee3fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:16 +0000
Subject: [PATCH 35/36] fix: refuse update paths reusing a key of the ratchet
 tree

None of the public keys in an UpdatePath may appear in any node of the
ratchet tree, parent nodes included (RFC 9420 section 12.4.2).
---
 group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/group.go b/group.go
index 88af917..a68ed51 100644
--- a/group.go
+++ b/group.go
@@ -577,6 +577,11 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		// must change
 		signatureKeys, encryptionKeys := newTree.keys()
 		delete(signatureKeys, string(senderNode.signatureKey))
+		for _, node := range newTree {
+			if node != nil {
+				encryptionKeys[string(node.encryptionKey())] = struct{}{}
+			}
+		}
 		err := commit.path.leafNode.verify(&leafNodeVerifyOptions{
 			cipherSuite:    cs,
 			groupID:        group.groupContext.groupID,
-- 
2.43.0


From 993de29bd4457c429a0d945b76f24935b67ea340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:22 +0000
Subject: [PATCH 36/36] fix: refuse HPKE public keys of the wrong size

X25519 public keys with excess bytes were silently truncated.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index dfb107b..25380be 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -215,6 +215,9 @@ func (cs CipherSuite) encryptWithLabel(publicKey hpkePublicKey, label, context,
 
 	hpke := cs.hpke()
 	kem, _, _ := hpke.Params()
+	if len(publicKey) != kem.Scheme().PublicKeySize() {
+		return nil, nil, fmt.Errorf("mls: invalid public key size")
+	}
 	pub, err := kem.Scheme().UnmarshalBinaryPublicKey(publicKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0

