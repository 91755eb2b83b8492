From 02ae7809bf8e53a4ebc93678f3abb8e294c71a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:52 +0000
Subject: [PATCH 01/25] fix: refuse key packages with a truncated signature

The decoder returned a nil error, so the package was accepted.
---
 key_package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 7b8afcf8fbd6fe5a8dab1096e67b77bd76f47816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:56 +0000
Subject: [PATCH 02/25] fix: refuse group infos with truncated trailing fields

The decoder returned a nil error when the confirmation tag, signer or
signature could not be read.
---
 group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 44469455cb49b2e03846812c9b0517994e24026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:59 +0000
Subject: [PATCH 03/25] fix: check vector length before allocating

A few bytes of input could make the decoder allocate up to 1 GiB.
---
 mls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mls.go b/mls.go
index adfc8c8..a55b70f 100644
--- a/mls.go
+++ b/mls.go
@@ -53,7 +53,7 @@ func writeVarint(b *cryptobyte.Builder, n uint32) {
 
 func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 	var n uint32
-	if !readVarint(s, &n) {
+	if !readVarint(s, &n) || uint64(n) > uint64(len(*s)) {
 		return false
 	}
 
-- 
2.43.0


From 703e6a8239674e7109bd386cf6c9b371eaeebc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:03 +0000
Subject: [PATCH 04/25] fix: refuse out-of-range sender and signer leaf indices

A public message, private message or group info naming a leaf outside of
the tree made the library panic. Indices of 2^31 and more wrapped around
to another leaf.
---
 group.go | 11 +++++------
 tree.go  |  6 ++++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/group.go b/group.go
index 4f7cb39..97fe28c 100644
--- a/group.go
+++ b/group.go
@@ -302,7 +302,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -343,6 +342,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -373,11 +377,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
diff --git a/tree.go b/tree.go
index a0eefbe..0055924 100644
--- a/tree.go
+++ b/tree.go
@@ -679,7 +679,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf at the provided index.
+//
+// nil is returned for blank leaves and if the index is out of range.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if li >= leafIndex(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From 77b11c156e05a55126064cf86747d816481bc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:07 +0000
Subject: [PATCH 05/25] fix: refuse malformed ratchet trees

An empty tree, or a tree with a leaf at a parent position and vice versa,
made joining panic. Section 12.4.3.3 also forbids trailing blank nodes.
---
 tree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tree.go b/tree.go
index 0055924..33276ea 100644
--- a/tree.go
+++ b/tree.go
@@ -630,6 +630,10 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 			if err := n.unmarshal(s); err != nil {
 				return err
 			}
+			_, isLeaf := nodeIndex(len(*tree)).leafIndex()
+			if isLeaf != (n.nodeType == nodeTypeLeaf) {
+				return fmt.Errorf("mls: invalid type for ratchet tree node at index %v", len(*tree))
+			}
 		}
 		*tree = append(*tree, n)
 		return nil
@@ -638,6 +642,12 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 {
+		return fmt.Errorf("mls: empty ratchet tree")
+	} else if (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: last node of ratchet tree is blank")
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
-- 
2.43.0


From 9f2feb886831fd581374e0ef7475537974cbc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:11 +0000
Subject: [PATCH 06/25] fix: refuse trees with invalid unmerged leaves

An unmerged leaf outside of the tree made joining panic. Blank, repeated
and unsorted unmerged leaves were accepted.
---
 tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tree.go b/tree.go
index 33276ea..e51a074 100644
--- a/tree.go
+++ b/tree.go
@@ -782,6 +782,20 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		return fmt.Errorf("mls: tree hash verification failed")
 	}
 
+	for i, node := range tree {
+		if node == nil || node.nodeType != nodeTypeParent {
+			continue
+		}
+		unmergedLeaves := node.parentNode.unmergedLeaves
+		for j, li := range unmergedLeaves {
+			if tree.getLeaf(li) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is not in the tree", li, i)
+			} else if j > 0 && unmergedLeaves[j-1] >= li {
+				return fmt.Errorf("mls: unmerged leaves of the parent node at index %v are not sorted", i)
+			}
+		}
+	}
+
 	if !tree.verifyParentHashes(cs) {
 		return fmt.Errorf("mls: parent hashes verification failed")
 	}
-- 
2.43.0


From 5367ec0bbb0f517ea10c45df727b7ade14a9fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:05 +0000
Subject: [PATCH 07/25] fix: check unmerged leaves when verifying parent hashes

Section 7.9.2 requires all nodes in the resolution, besides the one with
the matching parent hash, to be unmerged leaves of the parent. A tree with
members who don't know the secret of a parent node was accepted.
---
 tree.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index e51a074..09406ad 100644
--- a/tree.go
+++ b/tree.go
@@ -989,8 +989,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 			return false
 		}
 
-		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
-		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash, exclude)
+		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash, exclude)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -998,8 +998,28 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
-func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
+// findParentHash checks whether a node in the resolution of a child has the
+// provided parent hash. All other nodes in the resolution must be unmerged
+// leaves of the parent.
+func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte, unmergedLeaves map[leafIndex]struct{}) bool {
+	numUnmerged := 0
 	for _, x := range nodeIndices {
+		if li, ok := x.leafIndex(); ok {
+			if _, unmerged := unmergedLeaves[li]; unmerged {
+				numUnmerged++
+			}
+		}
+	}
+	if numUnmerged != len(nodeIndices)-1 {
+		return false
+	}
+
+	for _, x := range nodeIndices {
+		if li, ok := x.leafIndex(); ok {
+			if _, unmerged := unmergedLeaves[li]; unmerged {
+				continue
+			}
+		}
 		node := tree.get(x)
 		if node == nil {
 			continue
-- 
2.43.0


From 22ad99b8fd3c77b8fad6346e3c3db3eec15629d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:10 +0000
Subject: [PATCH 08/25] fix: don't modify shared parent nodes when adding a
 leaf

Copies of a ratchet tree share their nodes, so creating a Welcome or
processing a commit which is later refused added unmerged leaves to the
current tree of the group.
---
 tree.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 09406ad..8539980 100644
--- a/tree.go
+++ b/tree.go
@@ -570,6 +570,13 @@ type node struct {
 	parentNode *parentNode // for nodeTypeParent
 }
 
+func newParentNode(parent *parentNode) *node {
+	return &node{
+		nodeType:   nodeTypeParent,
+		parentNode: parent,
+	}
+}
+
 func (n *node) unmarshal(s *cryptobyte.String) error {
 	*n = node{}
 
@@ -1094,7 +1101,10 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		}
 		node := tree.get(p)
 		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+			// Copies of the tree share their nodes
+			parent := *node.parentNode
+			parent.unmergedLeaves = append(parent.unmergedLeaves[:len(parent.unmergedLeaves):len(parent.unmergedLeaves)], li)
+			tree.set(p, newParentNode(&parent))
 		}
 	}
 
-- 
2.43.0


From 79a66378893e9992cfdf935635d338c35daaebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:14 +0000
Subject: [PATCH 09/25] fix: follow commits with both a path and new members

Path secrets are not encrypted to the leaves added by the same commit, so
these have to be left out of the resolution. Such commits were refused.
---
 group.go |  4 ++--
 tree.go  | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 97fe28c..7781f15 100644
--- a/group.go
+++ b/group.go
@@ -450,7 +450,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, senders)
+	newLeaves := newTree.apply(proposals, senders)
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -503,7 +503,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, newLeaves, commit.path, newPrivTree)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index 8539980..f267ebd 100644
--- a/tree.go
+++ b/tree.go
@@ -1069,7 +1069,8 @@ func (tree ratchetTree) findLeaf(node *leafNode) (leafIndex, bool) {
 	return 0, false
 }
 
-func (tree *ratchetTree) add(leafNode *leafNode) {
+// add inserts a new leaf and returns its index.
+func (tree *ratchetTree) add(leafNode *leafNode) leafIndex {
 	li := leafIndex(0)
 	var ni nodeIndex
 	found := false
@@ -1112,6 +1113,7 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		nodeType: nodeTypeLeaf,
 		leafNode: leafNode,
 	})
+	return li
 }
 
 func (tree ratchetTree) update(li leafIndex, leafNode *leafNode) {
@@ -1268,7 +1270,10 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+// decryptPathSecrets decrypts the path secrets of an update path.
+//
+// No path secret is encrypted to newLeaves, the leaves added by the commit.
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, newLeaves map[leafIndex]struct{}, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1307,7 +1312,15 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if li, ok := ni.leafIndex(); ok {
+			if _, isNew := newLeaves[li]; isNew {
+				continue
+			}
+		}
+		copathResolution = append(copathResolution, ni)
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
@@ -1362,7 +1375,8 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	return commitSecret, nil
 }
 
-func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
+// apply applies a list of proposals and returns the new leaves.
+func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) map[leafIndex]struct{} {
 	// Apply all update proposals
 	for i, prop := range proposals {
 		if prop.proposalType == proposalTypeUpdate {
@@ -1378,9 +1392,12 @@ func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
 	}
 
 	// Apply all add proposals
+	newLeaves := make(map[leafIndex]struct{})
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
-			tree.add(&prop.add.keyPackage.leafNode)
+			li := tree.add(&prop.add.keyPackage.leafNode)
+			newLeaves[li] = struct{}{}
 		}
 	}
+	return newLeaves
 }
-- 
2.43.0


From 68bd33a99715694b10f456255311934a6be07476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:18 +0000
Subject: [PATCH 10/25] fix: derive all path secrets when joining

The path secret wasn't carried from one ancestor to the next, so joining
failed when there were several. A blank ancestor caused a panic.
---
 group.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 7781f15..2242dec 100644
--- a/group.go
+++ b/group.go
@@ -220,6 +220,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
+	if tree.get(nodeIndex) == nil {
+		return fmt.Errorf("mls: path secret provided for blank node %v", nodeIndex)
+	}
 	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
@@ -233,7 +236,11 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		if tree.get(nodeIndex) == nil {
+			continue // not in the filtered direct path
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
-- 
2.43.0


From b1b0a97b3aa1a6078ac378a07af2636ca82ab667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:05 +0000
Subject: [PATCH 11/25] fix: verify the confirmation tag of commits

A commit was accepted even if the new epoch didn't match the one of the
committer.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 2242dec..8419f69 100644
--- a/group.go
+++ b/group.go
@@ -547,6 +547,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify commit confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From 31c28ce946b440e829825cab55a4d69080c186f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:08 +0000
Subject: [PATCH 12/25] fix: refuse removal of leaves which aren't in the group

Removing a leaf outside of the tree caused a panic, removing a blank leaf
was accepted.
---
 group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 8419f69..8bf6df5 100644
--- a/group.go
+++ b/group.go
@@ -440,10 +440,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	}
 
 	for _, prop := range proposals {
-		if prop.proposalType == proposalTypeAdd {
+		switch prop.proposalType {
+		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal for blank leaf node %v", prop.remove.removed)
+			}
 		}
 	}
 
-- 
2.43.0


From 935c5afe2549eb27a58b1a9344035f07ec53e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:12 +0000
Subject: [PATCH 13/25] fix: use a new generation for each outgoing private
 message

All messages of a member in an epoch were encrypted with the key and nonce
of generation 0, with only the 32-bit reuse guard to tell them apart.
---
 group.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/group.go b/group.go
index 8bf6df5..8980820 100644
--- a/group.go
+++ b/group.go
@@ -30,6 +30,11 @@ type Group struct {
 	signaturePriv signaturePrivateKey
 
 	pendingProposals []pendingProposal
+
+	// Next ratchet secrets for outgoing messages in the current epoch, nil if
+	// no message has been sent yet
+	handshakeRatchet   *ratchetSecret
+	applicationRatchet *ratchetSecret
 }
 
 // CreateGroup creates a new group with a single member.
@@ -572,6 +577,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.epochSecret = newEpochSecret
 	group.initSecret = newInitSecret
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
+	group.handshakeRatchet = nil
+	group.applicationRatchet = nil
 	return nil
 }
 
@@ -800,25 +807,33 @@ func (group *Group) CreateApplicationMessage(data []byte) ([]byte, error) {
 func (group *Group) encryptPrivateMessage(framedContent *framedContent, privContent *privateMessageContent) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-	senderData, err := newSenderData(group.myLeafIndex, 0) // TODO: set generation > 0
-	if err != nil {
-		return nil, fmt.Errorf("failed to create sender data: %v", err)
+	ratchet := &group.handshakeRatchet
+	if framedContent.contentType == contentTypeApplication {
+		ratchet = &group.applicationRatchet
 	}
+	if *ratchet == nil {
+		encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
+		if err != nil {
+			return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+		}
 
-	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
-	}
+		secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+		if err != nil {
+			return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		}
 
-	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
-	if err != nil {
-		return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		label := ratchetLabelFromContentType(framedContent.contentType)
+		root, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+		if err != nil {
+			return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		}
+		*ratchet = &root
 	}
+	secret := **ratchet
 
-	label := ratchetLabelFromContentType(framedContent.contentType)
-	secret, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+	senderData, err := newSenderData(group.myLeafIndex, secret.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		return nil, fmt.Errorf("failed to create sender data: %v", err)
 	}
 
 	senderDataSecret, err := cs.deriveSecret(group.epochSecret, secretLabelSenderData)
@@ -840,6 +855,13 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		return nil, fmt.Errorf("failed to marshal private message: %v", err)
 	}
 
+	// The same secret must not be used to encrypt another message
+	next, err := secret.deriveNext(cs)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive next ratchet secret: %v", err)
+	}
+	*ratchet = &next
+
 	return rawMsg, nil
 }
 
-- 
2.43.0


From b77f90058788e6a879b7d75620190085ed30620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:15 +0000
Subject: [PATCH 14/25] fix: limit the generation of private messages

A member could make others derive up to 2^32 secrets with a single
message.
---
 group.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 8980820..8e07da7 100644
--- a/group.go
+++ b/group.go
@@ -9,6 +9,10 @@ import (
 	"golang.org/x/crypto/cryptobyte"
 )
 
+// maxGeneration is the maximum generation of a private message. It bounds the
+// work needed to derive the message key.
+const maxGeneration = 1 << 18
+
 type pendingProposal struct {
 	ref      proposalRef
 	proposal *proposal
@@ -375,7 +379,9 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
-	// TODO: limit number of iterations
+	if senderData.generation > maxGeneration {
+		return nil, fmt.Errorf("mls: generation %v is too far in the future", senderData.generation)
+	}
 	// TODO: erase knowledge about used generations to ensure forward secrecy
 	for secret.generation != senderData.generation {
 		secret, err = secret.deriveNext(cs)
@@ -830,6 +836,9 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		*ratchet = &root
 	}
 	secret := **ratchet
+	if secret.generation > maxGeneration {
+		return nil, fmt.Errorf("mls: too many messages sent in the current epoch")
+	}
 
 	senderData, err := newSenderData(group.myLeafIndex, secret.generation)
 	if err != nil {
-- 
2.43.0


From 35e23af864b45483657ccc30b62c5be1739e36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:18 +0000
Subject: [PATCH 15/25] fix: don't panic on malformed ECDSA public keys

---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..d0ef625 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -365,6 +365,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 4b64d0c4b9417cdce17b0b69ac0cfd192ca1d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:22 +0000
Subject: [PATCH 16/25] fix: return errors for unknown and mismatched cipher
 suites

A key package, Welcome or group info with an unknown cipher suite caused a
panic, and a Welcome could be opened with a key package made for another
cipher suite. Suites which aren't reported as supported fail early rather
than panic when the first update path is processed.
---
 group.go       | 16 +++++++++++++---
 key_package.go |  8 ++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 8e07da7..19f8986 100644
--- a/group.go
+++ b/group.go
@@ -44,6 +44,9 @@ type Group struct {
 // CreateGroup creates a new group with a single member.
 func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
+	if !cs.Supported() {
+		return nil, fmt.Errorf("mls: unsupported cipher suite %v", cs)
+	}
 
 	tree := make(ratchetTree, 1)
 	tree.add(&keyPairPkg.Public.leafNode)
@@ -108,6 +111,13 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if !welcome.cipherSuite.Supported() {
+		return nil, fmt.Errorf("mls: unsupported cipher suite %v", welcome.cipherSuite)
+	}
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -149,6 +159,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
 
 	rawTree := options.rawTree
 	if rawTree == nil {
@@ -172,9 +185,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
 
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
diff --git a/key_package.go b/key_package.go
index ad62959..9c0e608 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: unknown cipher suite %v", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
@@ -179,6 +183,10 @@ type KeyPairPackage struct {
 
 // GenerateKeyPairPackage generates a new key pair package.
 func GenerateKeyPairPackage(cs CipherSuite, credential *Credential) (*KeyPairPackage, error) {
+	if !cs.Supported() {
+		return nil, fmt.Errorf("mls: unsupported cipher suite %v", cs)
+	}
+
 	// TODO: add options to configure the new key package
 
 	initPub, initPriv, err := cs.generateEncryptionKeyPair()
-- 
2.43.0


From 57d98d20ffe82f8ad1b0e42f524adfc29001574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:21 +0000
Subject: [PATCH 17/25] fix: validate the leaf nodes of proposals in commits

Commits could add members with forged, expired, unsupported or duplicate
leaf nodes, or replace a leaf with an invalid one. Newcomers then refuse
to join the group since its tree isn't valid.
---
 group.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 tree.go  | 31 +++++++++++++++++++++++++++++++
 2 files changed, 77 insertions(+)

diff --git a/group.go b/group.go
index 19f8986..146739a 100644
--- a/group.go
+++ b/group.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"fmt"
 	"io"
@@ -485,6 +486,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newTree := group.tree.copy()
 	newLeaves := newTree.apply(proposals, senders)
 
+	if err := group.verifyNewLeaves(newTree, proposals, senders, now); err != nil {
+		return err
+	}
+
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
 		if i < len(newPrivTree) {
@@ -528,6 +533,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
 			return fmt.Errorf("failed to merge update path in ratchet tree: %v", err)
 		}
+		if err := newTree.verifyMembers(); err != nil {
+			return fmt.Errorf("failed to verify update path: %v", err)
+		}
 
 		newGroupCtx.treeHash, err = newTree.computeRootTreeHash(cs)
 		if err != nil {
@@ -598,6 +606,44 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	return nil
 }
 
+// verifyNewLeaves performs the leaf node validation described in section 7.3
+// for leaf nodes in add and update proposals. newTree is the ratchet tree after
+// the proposals have been applied.
+func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, senders []leafIndex, now func() time.Time) error {
+	supportedCreds := newTree.supportedCreds()
+	for i, prop := range proposals {
+		var leaf *leafNode
+		switch prop.proposalType {
+		case proposalTypeAdd:
+			leaf = &prop.add.keyPackage.leafNode
+		case proposalTypeUpdate:
+			leaf = &prop.update.leafNode
+			if leaf.leafNodeSource != leafNodeSourceUpdate {
+				return fmt.Errorf("mls: update proposal contains a leaf node with an invalid source")
+			}
+			oldLeaf := group.tree.getLeaf(senders[i])
+			if oldLeaf == nil || bytes.Equal(oldLeaf.encryptionKey, leaf.encryptionKey) {
+				return fmt.Errorf("mls: update proposal doesn't change the encryption key")
+			}
+		default:
+			continue
+		}
+
+		err := leaf.verify(&leafNodeVerifyOptions{
+			cipherSuite:    group.groupContext.cipherSuite,
+			groupID:        group.groupContext.groupID,
+			leafIndex:      senders[i],
+			supportedCreds: supportedCreds,
+			now:            now,
+		})
+		if err != nil {
+			return fmt.Errorf("failed to verify leaf node: %v", err)
+		}
+	}
+
+	return newTree.verifyMembers()
+}
+
 func resolveProposals(proposalOrRefs []proposalOrRef, senderLeafIndex leafIndex, pendingProposals []pendingProposal) ([]proposal, []leafIndex, error) {
 	var (
 		proposals []proposal
diff --git a/tree.go b/tree.go
index f267ebd..4c58d3d 100644
--- a/tree.go
+++ b/tree.go
@@ -772,6 +772,37 @@ func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{
 	return signatureKeys, encryptionKeys
 }
 
+// verifyMembers verifies that the nodes of the ratchet tree are compatible with
+// each other: keys must be unique and credentials must be supported by all
+// members.
+func (tree ratchetTree) verifyMembers() error {
+	supportedCreds := tree.supportedCreds()
+	signatureKeys := make(map[string]struct{})
+	encryptionKeys := make(map[string]struct{})
+	for _, node := range tree {
+		if node == nil {
+			continue
+		}
+
+		if leaf := node.leafNode; leaf != nil {
+			if _, ok := supportedCreds[leaf.credential.credentialType]; !ok {
+				return fmt.Errorf("mls: credential type %v not supported by all members", leaf.credential.credentialType)
+			}
+			if _, dup := signatureKeys[string(leaf.signatureKey)]; dup {
+				return fmt.Errorf("mls: duplicate signature key in ratchet tree")
+			}
+			signatureKeys[string(leaf.signatureKey)] = struct{}{}
+		}
+
+		encryptionKey := string(node.encryptionKey())
+		if _, dup := encryptionKeys[encryptionKey]; dup {
+			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
+		}
+		encryptionKeys[encryptionKey] = struct{}{}
+	}
+	return nil
+}
+
 // verifyIntegrity verifies the integrity of the ratchet tree, as described in
 // section 12.4.3.1.
 //
-- 
2.43.0


From e196408ba1aefd889d3010d4091a500e7f86514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:25 +0000
Subject: [PATCH 18/25] fix: refuse invalid key packages when creating a
 Welcome

The resulting commit and Welcome were refused by everybody else, and key
packages with an unknown cipher suite caused a panic.
---
 group.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 146739a..538a051 100644
--- a/group.go
+++ b/group.go
@@ -688,8 +688,14 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	}
 
 	proposals := make([]proposal, len(keyPkgs))
+	senders := make([]leafIndex, len(keyPkgs))
 	proposalOrRefs := make([]proposalOrRef, len(keyPkgs))
 	for i, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
+
+		senders[i] = group.myLeafIndex
 		proposals[i] = proposal{
 			proposalType: proposalTypeAdd,
 			add:          &add{keyPackage: keyPkg},
@@ -700,14 +706,19 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 		}
 	}
 
-	// TODO: check proposal list validity per section 12.2
+	if err := verifyProposalList(proposals, senders, group.myLeafIndex); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify proposals: %v", err)
+	}
 	commit := commit{proposals: proposalOrRefs}
 
 	newGroupCtx := group.groupContext
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, []leafIndex{group.myLeafIndex})
+	newTree.apply(proposals, senders)
+	if err := group.verifyNewLeaves(newTree, proposals, senders, nil); err != nil {
+		return nil, nil, err
+	}
 
 	// TODO: only recompute parts of the tree affected by proposals
 	var err error
-- 
2.43.0


From 828b31124de70369a1a7aba6a9a4c4d88fe02392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:55 +0000
Subject: [PATCH 19/25] fix: copy buffers shared with the caller

Groups and credentials kept references to slices and key packages owned
by the caller, and Welcome.NewMembers returned internal slices.
Overwriting any of them afterwards silently changed the group.
---
 crypto.go |  3 ++-
 group.go  | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crypto.go b/crypto.go
index 2aae887..6b0b36c 100644
--- a/crypto.go
+++ b/crypto.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 
@@ -34,7 +35,7 @@ type Credential struct {
 func NewBasicCredential(identity []byte) *Credential {
 	return &Credential{
 		credentialType: credentialTypeBasic,
-		identity:       identity,
+		identity:       bytes.Clone(identity),
 	}
 }
 
diff --git a/group.go b/group.go
index 538a051..f106df6 100644
--- a/group.go
+++ b/group.go
@@ -50,10 +50,11 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	}
 
 	tree := make(ratchetTree, 1)
-	tree.add(&keyPairPkg.Public.leafNode)
+	leafNode := keyPairPkg.Public.leafNode
+	tree.add(&leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[0] = keyPairPkg.Private.EncryptionKey
+	privTree[0] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	treeHash, err := tree.computeRootTreeHash(cs)
 	if err != nil {
@@ -71,7 +72,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	groupCtx := groupContext{
 		version:                 keyPairPkg.Public.version,
 		cipherSuite:             keyPairPkg.Public.cipherSuite,
-		groupID:                 groupID,
+		groupID:                 bytes.Clone(groupID),
 		epoch:                   0,
 		treeHash:                treeHash,
 		confirmedTranscriptHash: confirmedTranscriptHash,
@@ -101,7 +102,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		tree:                  tree,
 		privTree:              privTree,
 		myLeafIndex:           0,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 		groupContext:          groupCtx,
 		interimTranscriptHash: interimTranscriptHash,
 		pskSecret:             pskSecret,
@@ -216,7 +217,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	}
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[int(myLeafIndex.nodeIndex())] = keyPairPkg.Private.EncryptionKey
+	privTree[int(myLeafIndex.nodeIndex())] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	if groupSecrets.pathSecret != nil {
 		nodeIndex := commonAncestor(myLeafIndex.nodeIndex(), groupInfo.signer.nodeIndex())
@@ -235,7 +236,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		initSecret:            initSecret,
 		myLeafIndex:           myLeafIndex,
 		privTree:              privTree,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 	}, nil
 }
 
@@ -1264,7 +1265,7 @@ func (w *Welcome) marshal(b *cryptobyte.Builder) {
 func (w *Welcome) NewMembers() []KeyPackageRef {
 	refs := make([]KeyPackageRef, len(w.secrets))
 	for i, sec := range w.secrets {
-		refs[i] = sec.newMember
+		refs[i] = bytes.Clone(sec.newMember)
 	}
 	return refs
 }
-- 
2.43.0


From 2d8475e9b2444da1c5aed0948fae094d8947f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:38 +0000
Subject: [PATCH 20/25] fix: refuse secrets of the wrong size

---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index d0ef625..41a1296 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -177,6 +177,9 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) != kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: invalid secret size")
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0


From bc70af26ea7dbeb4c6be27b1f0dc0ff71ee4a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 21:38:04 +0000
Subject: [PATCH 21/25] fix: count a credential type once per leaf

A leaf that lists a credential type twice was counted as two members.
Valid groups were refused because of it. A second member without support
for the type could also go unnoticed.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 4c58d3d..00220dc 100644
--- a/tree.go
+++ b/tree.go
@@ -743,7 +743,11 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
+		leafCreds := make(map[credentialType]struct{})
 		for _, ct := range node.capabilities.credentials {
+			leafCreds[ct] = struct{}{}
+		}
+		for ct := range leafCreds {
 			supportedCredsCount[ct]++
 		}
 	}
-- 
2.43.0


From 5afa1104da8677e6cd486bea7b799850976a491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:04 +0000
Subject: [PATCH 22/25] fix: judge a path leaf by the members it joins

The capabilities of the leaf that a commit path replaces were still taken
into account. A member could not move to a credential type that its old
leaf did not list, although its new leaf and everybody else's did.
---
 group.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index f106df6..e51f10d 100644
--- a/group.go
+++ b/group.go
@@ -512,11 +512,17 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		// must change
 		signatureKeys, encryptionKeys := newTree.keys()
 		delete(signatureKeys, string(senderNode.signatureKey))
+		// The capabilities of the leaf node being replaced no longer count
+		members := newTree.copy()
+		members.set(senderLeafIndex.nodeIndex(), &node{
+			nodeType: nodeTypeLeaf,
+			leafNode: &commit.path.leafNode,
+		})
 		err := commit.path.leafNode.verify(&leafNodeVerifyOptions{
 			cipherSuite:    cs,
 			groupID:        group.groupContext.groupID,
 			leafIndex:      senderLeafIndex,
-			supportedCreds: newTree.supportedCreds(),
+			supportedCreds: members.supportedCreds(),
 			signatureKeys:  signatureKeys,
 			encryptionKeys: encryptionKeys,
 			now:            now,
-- 
2.43.0


From 209ca030a4b7dab897077f17a2d168249606ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:13 +0000
Subject: [PATCH 23/25] fix: refuse commits whose pre-shared keys aren't known

The pre-shared keys of a commit's proposals are part of the new epoch.
Such a commit was accepted if its author had left them out as well.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index e51f10d..0fccd70 100644
--- a/group.go
+++ b/group.go
@@ -462,12 +462,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
+	numPSKs := 0
 	for _, prop := range proposals {
 		switch prop.proposalType {
 		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypePSK:
+			numPSKs++
 		case proposalTypeRemove:
 			if group.tree.getLeaf(prop.remove.removed) == nil {
 				return fmt.Errorf("mls: remove proposal for blank leaf node %v", prop.remove.removed)
@@ -475,6 +478,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	if numPSKs != len(pskIDs) {
+		return fmt.Errorf("mls: commit uses %v PSKs, but %v are known", numPSKs, len(pskIDs))
+	}
+
 	// TODO: additional proposal list checks
 
 	if proposalListNeedsPath(proposals) && commit.path == nil {
-- 
2.43.0


From b5a83120bcf301a6d9e3dc576bee1535743213af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:13 +0000
Subject: [PATCH 24/25] fix: refuse commits which change the group context
 extensions

The change isn't implemented.  Such a commit was accepted, with the old
extensions, if its author hadn't made the change either.
---
 group.go |  4 ++++
 tree.go  | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/group.go b/group.go
index 0fccd70..03cd8fe 100644
--- a/group.go
+++ b/group.go
@@ -471,6 +471,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			}
 		case proposalTypePSK:
 			numPSKs++
+		case proposalTypeGroupContextExtensions:
+			if !equalExtensions(prop.groupContextExtensions.extensions, group.groupContext.extensions) {
+				return fmt.Errorf("mls: changing the group context extensions is not yet supported")
+			}
 		case proposalTypeRemove:
 			if group.tree.getLeaf(prop.remove.removed) == nil {
 				return fmt.Errorf("mls: remove proposal for blank leaf node %v", prop.remove.removed)
diff --git a/tree.go b/tree.go
index 00220dc..b281b30 100644
--- a/tree.go
+++ b/tree.go
@@ -261,6 +261,18 @@ func marshalExtensionVec(b *cryptobyte.Builder, exts []extension) {
 	})
 }
 
+func equalExtensions(a, b []extension) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if a[i].extensionType != b[i].extensionType || !bytes.Equal(a[i].extensionData, b[i].extensionData) {
+			return false
+		}
+	}
+	return true
+}
+
 func findExtensionData(exts []extension, t extensionType) []byte {
 	for _, ext := range exts {
 		if ext.extensionType == t {
-- 
2.43.0


From a36aa646d39fb0237f64f084107988c4b9f75550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:18 +0000
Subject: [PATCH 25/25] fix: refuse path keys which are in use in the tree

The keys of an update path were only compared with those of leaves and of
the nodes left after merging the path, so that a node could keep its key.
---
 group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/group.go b/group.go
index 03cd8fe..6d268b1 100644
--- a/group.go
+++ b/group.go
@@ -523,6 +523,11 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		// must change
 		signatureKeys, encryptionKeys := newTree.keys()
 		delete(signatureKeys, string(senderNode.signatureKey))
+		for _, node := range newTree {
+			if node != nil && node.nodeType == nodeTypeParent {
+				encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
+			}
+		}
 		// The capabilities of the leaf node being replaced no longer count
 		members := newTree.copy()
 		members.set(senderLeafIndex.nodeIndex(), &node{
-- 
2.43.0

