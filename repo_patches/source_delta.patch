From 5482b3bc401d36c284726f55c30e393c0beb48dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 01/27] fix: shift the WOTS+ checksum by zero bits when it
 fills its last byte

When len2*log2(w) is a multiple of eight (w=256; w=4 with n=16) the checksum
was shifted by eight bits instead of zero, which pushes its most significant
part out of the encoded checksum.
---
 wots.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..6989bec 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,7 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From c9f1adccd991e2ec871f09ef5c8c97f7df410cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 02/27] fix: do not use the fourway hashes with the NIST PRF
 construction

They implement the RFC 8391 prefixes only, so that for SHAKE with n=16 or 32
and Prf=NIST keys and signatures depended on whether AVX2 is available.
---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..1f14f49 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes only implement the PRFs as described by the RFC.
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From 5505698ea9a647b0697161f50255112ee4e1b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 03/27] fix: take the lock in PrivateKey.SeqNo, BorrowedSeqNos
 and CachedSubTrees

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index 1f14f49..18b4c57 100644
--- a/api.go
+++ b/api.go
@@ -506,6 +506,8 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -807,6 +809,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -829,6 +833,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From ce493bba56899d152fee4956823a5754a7bafa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 04/27] fix: check the integrity of a cached subtree under the
 lock

The stored checksum was read while another thread might be correcting the
subtree, which led to correcting subtrees that had been corrected already and
are in use.  Also threads waiting for the correction of a subtree hung if that
failed, and using a subtree again after an attempt to generate it had failed
led to a panic.
---
 core.go | 81 ++++++++++++++++-----------------------------------------
 1 file changed, 23 insertions(+), 58 deletions(-)

diff --git a/core.go b/core.go
index bd607cf..33ede17 100644
--- a/core.go
+++ b/core.go
@@ -234,46 +234,52 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	mt *merkleTree, wotsSig []byte, err Error) {
 	alreadyDone := false
-	justCheckTheChecksum := false
 	isRoot := (sta.Layer == sk.ctx.p.D-1)
 	parentSta := SubTreeAddress{
 		Layer: sta.Layer + 1,
 		Tree:  sta.Tree >> sk.ctx.treeHeight,
 	}
 	var parentTreeReady bool
-	var exists bool
 	var buf []byte
 
 	sk.mux.Lock()
 	for {
-		buf, exists, err = sk.ctr.GetSubTree(sta)
-		subTreeReady, exists2 := sk.subTreeReady[sta]
+		buf, _, err = sk.ctr.GetSubTree(sta)
+		subTreeReady, exists := sk.subTreeReady[sta]
 		if err != nil {
 			sk.mux.Unlock()
 			return
 		}
 
-		if exists2 {
-			if !exists {
-				panic("This should not be possible")
-			}
-			if subTreeReady {
-				alreadyDone = true
-				justCheckTheChecksum = !sk.subTreeChecked[sta]
-				break
-			}
-
+		if exists && !subTreeReady {
 			// The sub tree exists, but is being filled by another thread.
 			log.Logf("Subtree %v seems to be generated by another thread.  Waiting ...", sta)
 			sk.cond.Wait()
 			continue
 		}
 
+		if exists && !sk.subTreeChecked[sta] {
+			// The tree seems ready, but we need to check whether it
+			// hasn't been corrupted.  We hold on to the lock, so that no
+			// other thread starts correcting it in the meantime.
+			log.Logf("Checking integrity of subtree %v ...", sta)
+			storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
+			if storedCheckSum == xxhash.Sum64(buf[:len(buf)-8]) {
+				sk.subTreeChecked[sta] = true
+			} else {
+				log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
+				exists = false
+			}
+		}
+
 		if exists {
-			panic("This should not be possible")
+			alreadyDone = true
+			break
 		}
 
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist (or is corrupted.)
+		// We will have to fill it.  Note that the container might have
+		// a buffer for it already if an earlier attempt to fill it failed.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
@@ -291,48 +297,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	wotsSig = buf[sk.ctx.p.BareSubTreeSize() : sk.ctx.p.BareSubTreeSize()+int(sk.ctx.p.WotsSignatureSize())]
 
 	if alreadyDone {
-		if !justCheckTheChecksum {
-			return
-		}
-
-		log.Logf("Checking integrity of subtree %v ...", sta)
-
-		// The tree seems ready, but we just need to check whether it
-		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
-		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
-		if intact {
-			sk.subTreeChecked[sta] = true
-			sk.mux.Unlock()
-			return
-		}
-
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
-
-		// Mark the subtree not-ready
-		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
-		sk.subTreeReady[sta] = false
-		sk.mux.Unlock()
+		return
 	}
 
 	sk.ctx.genSubTreeInto(pad, sk.skSeed, sk.ph, sta, mtDeref)
-- 
2.43.0


From f796902a65594620cf8a2a1731cfa4fd1885be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 05/27] fix: account exactly for reserved signature sequence
 numbers

When lowering the number of reserved signatures the container forgot that the
remaining ones might get lost; and if storing the sequence number failed after
it took effect, reserved numbers above it were still used.  When all reserved
signatures were used, Close() did not correct the container's record of
possibly lost signatures.
---
 api.go  | 29 +++++++++++++++++++++--------
 core.go |  1 +
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/api.go b/api.go
index 18b4c57..446af6a 100644
--- a/api.go
+++ b/api.go
@@ -66,6 +66,10 @@ type PrivateKey struct {
 	// See PrivateKeyContainer.Borrow()
 	borrowed uint32
 
+	// Whether we borrowed signatures from the container, for which there
+	// hasn't been a SetSeqNo() yet.
+	borrowRecorded bool
+
 	// The least signature sequence number that might still be in use
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
@@ -486,19 +490,27 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+		// Return all borrowed signatures and then borrow those we keep, so
+		// that the container knows how many signatures might get lost.
+		// If SetSeqNo fails, the signature sequence number stored might have
+		// been changed or not: in any case we can't use the borrowed
+		// signatures anymore.
+		sk.borrowed = 0
+		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		sk.borrowRecorded = false
 	}
 
-	// sk.borrowed < amount
-	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
-	if err != nil {
-		return err
+	if sk.borrowed < amount {
+		_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
+		if err != nil {
+			return err
+		}
+		sk.borrowRecorded = true
 	}
+
 	sk.borrowed = amount
 	return nil
 }
@@ -584,12 +596,13 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 func (sk *PrivateKey) Close() Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
+	if sk.borrowRecorded {
 		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
+		sk.borrowRecorded = false
 	}
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
diff --git a/core.go b/core.go
index 33ede17..a050a8e 100644
--- a/core.go
+++ b/core.go
@@ -396,6 +396,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		if err != nil {
 			return 0, err
 		}
+		sk.borrowRecorded = false
 	}
 
 	sk.seqNo += 1
-- 
2.43.0


From 0cad4cf2816eb61d7cf1c96fa291a969782b9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 06/27] fix: let Close wait for background computations without
 holding the lock

Close() deadlocked if a subtree was being precomputed, and closed the container
before the precomputation was done with it.  After Close() no signatures can be
made or reserved anymore.
---
 api.go  | 36 ++++++++++++++++++++++++------------
 core.go | 25 ++++++++++++++++++-------
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/api.go b/api.go
index 446af6a..27d4be5 100644
--- a/api.go
+++ b/api.go
@@ -91,6 +91,9 @@ type PrivateKey struct {
 
 	// If true, will precompute a subtree in advance
 	precomputeNextSubTree bool
+
+	// Whether Close() has been called.
+	closed bool
 }
 
 // XMSS[MT] public key
@@ -485,6 +488,10 @@ func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 
 // Implementation of BorrowExactly.  Requires sk.mux lock.
 func (sk *PrivateKey) borrowExactly(amount uint32) Error {
+	if sk.closed {
+		return errorf("The private key is closed")
+	}
+
 	if sk.borrowed == amount {
 		return nil
 	}
@@ -594,6 +601,15 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  So wait for that.
+	// We can't hold the lock while waiting, as the goroutine needs it.
+	sk.mux.Lock()
+	sk.precomputeNextSubTree = false
+	sk.closed = true
+	sk.mux.Unlock()
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowRecorded {
@@ -607,10 +623,6 @@ func (sk *PrivateKey) Close() Error {
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
 	return err
 }
 
@@ -863,6 +875,12 @@ func (sk *PrivateKey) SeqNo() SignatureSeqNo {
 // of the Sign() function.
 func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	sk.mux.Lock()
+	defer sk.mux.Unlock()
+
+	if sk.closed {
+		return
+	}
+
 	sk.precomputeNextSubTree = true
 
 	// ensure the next subtree is computed
@@ -870,14 +888,8 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 		Layer: 0,
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 	}
-	_, nextTreeExists := sk.subTreeReady[nextSta]
-	sk.mux.Unlock()
 
-	if !nextTreeExists {
-		sk.wg.Add(1)
-		go func() {
-			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
-			sk.wg.Done()
-		}()
+	if _, nextTreeExists := sk.subTreeReady[nextSta]; !nextTreeExists {
+		sk.precomputeSubTree(nextSta)
 	}
 }
diff --git a/core.go b/core.go
index a050a8e..5c39c9e 100644
--- a/core.go
+++ b/core.go
@@ -381,6 +381,10 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
+	if sk.closed {
+		return 0, errorf("The private key is closed")
+	}
+
 	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
@@ -404,13 +408,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
-		sk.wg.Add(1)
-		go func(sta SubTreeAddress) {
-			log.Logf("Precomputing subtree %v", sta)
-			sk.getSubTree(sk.ctx.newScratchPad(), sta)
-			log.Logf("Finished precomputing subtree %v", sta)
-			sk.wg.Done()
-		}(SubTreeAddress{
+		sk.precomputeSubTree(SubTreeAddress{
 			Layer: 0,
 			Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 		})
@@ -419,6 +417,19 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	return sk.seqNo - 1, nil
 }
 
+// Computes the given subtree in the background.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) precomputeSubTree(sta SubTreeAddress) {
+	sk.wg.Add(1)
+	go func() {
+		log.Logf("Precomputing subtree %v", sta)
+		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		log.Logf("Finished precomputing subtree %v", sta)
+		sk.wg.Done()
+	}()
+}
+
 func (pad scratchPad) fBuf() []byte {
 	return pad.buf[:3*pad.n]
 }
-- 
2.43.0


From 8ed2182380d950451754540587b3bd9282937b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 07/27] fix: retire sequence numbers beyond 2^32 too

---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 27d4be5..1b27910 100644
--- a/api.go
+++ b/api.go
@@ -76,7 +76,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -850,7 +850,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index 5c39c9e..973aba1 100644
--- a/core.go
+++ b/core.go
@@ -496,7 +496,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -529,7 +529,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -537,7 +537,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..bc0d331 100644
--- a/misc.go
+++ b/misc.go
@@ -112,3 +112,22 @@ func (h *uint32Heap) Pop() interface{} {
 	*h = old[0 : n-1]
 	return x
 }
+
+// Priority queue of signature sequence numbers
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
-- 
2.43.0


From 7ad4025c5f91729f90a18f482d787a5ad78dae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 08/27] fix: don't precompute subtrees that don't exist or
 aren't needed anymore

A precomputation that started late could add a subtree to the cache again after
it had been dropped.
---
 core.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core.go b/core.go
index 973aba1..86ade93 100644
--- a/core.go
+++ b/core.go
@@ -229,6 +229,13 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 	return
 }
 
+// Returns whether the given subtree is only used for signature sequence numbers
+// smaller than the one given.
+func (ctx *Context) subTreeIsObsolete(sta SubTreeAddress,
+	seqNo SignatureSeqNo) bool {
+	return uint64(seqNo)>>((sta.Layer+1)*ctx.treeHeight) > sta.Tree
+}
+
 // Returns the given subtree, either by loading it from the cache,
 // or generating it.
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
@@ -244,6 +251,13 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 	sk.mux.Lock()
 	for {
+		if sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
+			// This can only happen if we're precomputing the subtree
+			// and the signers have overtaken us.
+			sk.mux.Unlock()
+			return nil, nil, errorf("Subtree %v is not needed anymore", sta)
+		}
+
 		buf, _, err = sk.ctr.GetSubTree(sta)
 		subTreeReady, exists := sk.subTreeReady[sta]
 		if err != nil {
@@ -310,6 +324,9 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		sk.mux.Lock()
 		delete(sk.subTreeReady, sta)
 		delete(sk.subTreeChecked, sta)
+		if err2 := sk.ctr.DropSubTree(sta); err2 != nil {
+			log.Logf("  failed to drop subtree %v: %v", sta, err2)
+		}
 		sk.cond.Broadcast()
 		sk.mux.Unlock()
 	}
@@ -421,6 +438,10 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 //
 // NOTE Assumes a lock on sk.mux.
 func (sk *PrivateKey) precomputeSubTree(sta SubTreeAddress) {
+	if sta.Tree>>(sk.ctx.p.FullHeight-(sta.Layer+1)*sk.ctx.treeHeight) != 0 {
+		return // there is no such subtree
+	}
+
 	sk.wg.Add(1)
 	go func() {
 		log.Logf("Precomputing subtree %v", sta)
-- 
2.43.0


From 3c171186940860204bd461d7fae80b553353067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 09/27] fix: drop cached subtrees that aren't needed anymore
 when loading a key

They were left in the cache forever, if the process had ended before they were
dropped.
---
 core.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core.go b/core.go
index 86ade93..f129321 100644
--- a/core.go
+++ b/core.go
@@ -528,6 +528,14 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 		return nil, err
 	}
 	for _, sta := range stas {
+		if ctx.subTreeIsObsolete(sta, seqNo) {
+			// Not dropped before, for instance because of a crash.
+			log.Logf("Dropping cached subtree %v ...", sta)
+			if err := ctr.DropSubTree(sta); err == nil {
+				continue
+			}
+			log.Logf("  failed to drop subtree %v", sta)
+		}
 		ret.subTreeReady[sta] = true
 		ret.subTreeChecked[sta] = false
 	}
-- 
2.43.0


From 1324eb0ae0bb1b16f564e5808091300367fa546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 10/27] fix: don't drop a subtree from the cache while it is
 being generated

If the signatures it is generated for fail, a subtree was unmapped while the
background computation was writing to it.
---
 core.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/core.go b/core.go
index f129321..15e7921 100644
--- a/core.go
+++ b/core.go
@@ -339,6 +339,10 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
 		sk.subTreeChecked[sta] = true
+		if sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
+			// See incLeastSeqNoInUse().
+			sk.dropSubTree(sta)
+		}
 		sk.cond.Broadcast()
 		sk.mux.Unlock()
 	}
@@ -590,12 +594,24 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
 		}
-		log.Logf("Dropping cached subtree %v ...", staToDrop)
-		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
-			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
+		if ready, exists := sk.subTreeReady[staToDrop]; exists && !ready {
+			// The subtree is being generated in the background.  It will
+			// be dropped when that's finished.
+			continue
 		}
+		sk.dropSubTree(staToDrop)
+	}
+}
+
+// Drops the given subtree from the cache.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	log.Logf("Dropping cached subtree %v ...", sta)
+	if err := sk.ctr.DropSubTree(sta); err != nil {
+		log.Logf("  failed to drop subtree %v: %v", sta, err)
+	} else {
+		delete(sk.subTreeReady, sta)
+		delete(sk.subTreeChecked, sta)
 	}
 }
-- 
2.43.0


From 3a64e227946f7078152e0f33087a172453dc1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 11/27] fix: regenerate a subtree that is missing from the
 container

---
 core.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core.go b/core.go
index 15e7921..5711ff0 100644
--- a/core.go
+++ b/core.go
@@ -258,7 +258,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			return nil, nil, errorf("Subtree %v is not needed anymore", sta)
 		}
 
-		buf, _, err = sk.ctr.GetSubTree(sta)
+		var inContainer bool
+		buf, inContainer, err = sk.ctr.GetSubTree(sta)
 		subTreeReady, exists := sk.subTreeReady[sta]
 		if err != nil {
 			sk.mux.Unlock()
@@ -272,6 +273,11 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
+		if exists && !inContainer {
+			// The container has dropped it.
+			exists = false
+		}
+
 		if exists && !sk.subTreeChecked[sta] {
 			// The tree seems ready, but we need to check whether it
 			// hasn't been corrupted.  We hold on to the lock, so that no
-- 
2.43.0


From 1131f518b2fba278e6f03b22b415862631fcf003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 12/27] fix: keep a container from being opened twice

A container could be opened a second time by the same process; errors of the
lockfile other than it being held by another process were ignored; the lock was
not released when opening or loading failed; and a stale handle could release
the lock of a newer one.
---
 api.go       | 17 ++++++++++-
 container.go | 80 ++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 85 insertions(+), 12 deletions(-)

diff --git a/api.go b/api.go
index 1b27910..fbb7c0c 100644
--- a/api.go
+++ b/api.go
@@ -426,7 +426,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -762,6 +767,16 @@ func LoadPrivateKey(path string) (
 //
 // NOTE Takes ownership of ctr.  Do not forget to Close() the  PrivateKey.
 func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
+	sk *PrivateKey, pk *PublicKey, lostSigs uint32, err Error) {
+	sk, pk, lostSigs, err = loadPrivateKeyFrom(ctr)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, 0, err
+	}
+	return
+}
+
+func loadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	sk *PrivateKey, pk *PublicKey, lostSigs uint32, err Error) {
 	// First check if the container is sane.
 	params := ctr.Initialized()
diff --git a/container.go b/container.go
index a878742..5b3fa36 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -128,6 +129,30 @@ const (
 	FS_CONTAINER_CACHE_MAGIC2 = "5a11d7cf4a1f6314"
 )
 
+// The paths of the containers that are open in this process.
+var (
+	openContainersMux sync.Mutex
+	openContainers    = make(map[string]bool)
+)
+
+// Registers the container with the given path as open in this process.
+// Returns false if it already is.
+func registerOpenContainer(path string) bool {
+	openContainersMux.Lock()
+	defer openContainersMux.Unlock()
+	if openContainers[path] {
+		return false
+	}
+	openContainers[path] = true
+	return true
+}
+
+func unregisterOpenContainer(path string) {
+	openContainersMux.Lock()
+	defer openContainersMux.Unlock()
+	delete(openContainers, path)
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
@@ -139,6 +164,15 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Could not turn %s into an absolute path", path)
 	}
 
+	// Different paths to the same key should use the same lockfile (and
+	// writeKeyFile() should not replace a symlink to the key.)
+	if realPath, err := filepath.EvalSymlinks(ctr.path); err == nil {
+		ctr.path = realPath
+	} else if dir, err := filepath.EvalSymlinks(
+		filepath.Dir(ctr.path)); err == nil {
+		ctr.path = filepath.Join(dir, filepath.Base(ctr.path))
+	}
+
 	// Acquire lock
 	lockFilePath := ctr.path + ".lock"
 	ctr.flock, err = lockfile.New(lockFilePath)
@@ -147,35 +181,54 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Failed to create lockfile %s", lockFilePath)
 	}
 
-	err = ctr.flock.TryLock()
-	if _, ok := err.(interface {
-		Temporary() bool
-	}); ok {
+	// The lockfile only keeps out other processes.
+	if !registerOpenContainer(ctr.path) {
 		err2 := errorf("%s is locked", path)
 		err2.locked = true
 		return nil, err2
 	}
 
+	if err = ctr.flock.TryLock(); err != nil {
+		unregisterOpenContainer(ctr.path)
+		err2 := wrapErrorf(err, "Failed to lock %s", path)
+		if _, ok := err.(interface {
+			Temporary() bool
+		}); ok {
+			err2.locked = true
+		}
+		return nil, err2
+	}
+
+	if err2 := ctr.open(); err2 != nil {
+		ctr.Close()
+		return nil, err2
+	}
+
+	return &ctr, nil
+}
+
+// Reads the key file and opens the cache, if there are any.
+func (ctr *fsContainer) open() Error {
 	// Check if the container exists
-	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+	if _, err := os.Stat(ctr.path); os.IsNotExist(err) {
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", ctr.path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -184,12 +237,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -714,6 +767,10 @@ func (ctr *fsContainer) closeCache() (err error) {
 }
 
 func (ctr *fsContainer) Close() Error {
+	if ctr.closed {
+		return errorf("Container is already closed")
+	}
+
 	var err error
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
@@ -723,6 +780,7 @@ func (ctr *fsContainer) Close() Error {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
+	unregisterOpenContainer(ctr.path)
 	ctr.closed = true
 	ctr.initialized = false
 
-- 
2.43.0


From 5ae4955e1c1f02a82574dc000654cb5d3abccbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 13/27] fix: close the container even if storing the sequence
 number fails

Otherwise the key stays locked.
---
 api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index fbb7c0c..d66d0c9 100644
--- a/api.go
+++ b/api.go
@@ -617,15 +617,17 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	var err Error
 	if sk.borrowRecorded {
+		// If this fails, the signatures borrowed are lost.  There is no
+		// reason to keep the container open (and locked) though.
 		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
-		if err != nil {
-			return err
-		}
 		sk.borrowRecorded = false
+		err = sk.ctr.SetSeqNo(sk.seqNo)
+	}
+	if err2 := sk.ctr.Close(); err == nil {
+		err = err2
 	}
-	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
 	return err
-- 
2.43.0


From 6b5b1d475fa98015bae5d0121f4d8899f0ef7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 14/27] fix: rebuild the cache of a key if it is missing or
 broken

Loading a key failed, or accessed memory past the end of the cache file, if the
cache file was missing, truncated or had a broken header.  Also keep the cache
consistent if allocating a subtree fails, and don't have two entries for the
same subtree.
---
 container.go | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/container.go b/container.go
index 5b3fa36..d586660 100644
--- a/container.go
+++ b/container.go
@@ -242,9 +242,16 @@ func (ctr *fsContainer) open() Error {
 
 	ctr.initialized = true
 
-	return ctr.openCache()
+	// The cache can be rebuilt, so we should not fail if it's missing or broken.
+	if err := ctr.openCache(); err != nil {
+		log.Logf("Failed to open cache: %v", err)
+		ctr.closeCache()
+	}
+
+	return nil
 }
 
+// Opens the cache.  If it fails, the caller should call closeCache().
 func (ctr *fsContainer) openCache() Error {
 	var err error
 
@@ -270,27 +277,50 @@ func (ctr *fsContainer) openCache() Error {
 
 	magic := hex.EncodeToString(header.Magic[:])
 	if magic != FS_CONTAINER_CACHE_MAGIC && magic != FS_CONTAINER_CACHE_MAGIC2 {
-		return wrapErrorf(err, "Cache file magic is wrong")
+		return errorf("Cache file magic is wrong")
 	}
 
 	if magic == FS_CONTAINER_CACHE_MAGIC {
 		if header.Version != 0 {
-			return wrapErrorf(err, "Cache file version does not match magic")
+			return errorf("Cache file version does not match magic")
 		}
 
 		ctr.subTreeAlignment = 4096
 	} else {
 		if header.Version != 1 {
-			return wrapErrorf(err, "Unsupported cache file version: %d",
+			return errorf("Unsupported cache file version: %d",
 				header.Version)
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
+		if ctr.subTreeAlignment < binary.Size(header) {
+			return errorf("Invalid subtree alignment: %d",
+				ctr.subTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Check whether the file isn't truncated
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	var maxSubTrees int64
+	tailSize := info.Size() - int64(ctr.subTreeOffset(0)+
+		ctr.params.CachedSubTreeSize()+13)
+	if tailSize >= 0 {
+		maxSubTrees = tailSize/int64(
+			ctr.subTreeOffset(1)-ctr.subTreeOffset(0)) + 1
+	}
+	if int64(ctr.allocatedSubTrees) > maxSubTrees {
+		return errorf("Cache file is truncated")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
@@ -305,7 +335,8 @@ func (ctr *fsContainer) openCache() Error {
 			return wrapErrorf(err, "Failed to read subtree header in cache")
 		}
 
-		if treeHeader.Allocated == 0 {
+		if _, ok := ctr.cacheIdxLut[treeHeader.Address]; ok ||
+			treeHeader.Allocated == 0 {
 			heap.Push(ctr.cacheFreeIdx, idx)
 		} else {
 			ctr.cacheIdxLut[treeHeader.Address] = idx
@@ -374,9 +405,7 @@ func (ctr *fsContainer) ResetCache() Error {
 	}
 
 	// Close old cache
-	if ctr.cacheInitialized {
-		ctr.closeCache() // we ignore munmap failures
-	}
+	ctr.closeCache() // we ignore munmap failures
 	ctr.cacheBufLut = make(map[SubTreeAddress]mmapedSubTree)
 	ctr.cacheIdxLut = make(map[SubTreeAddress]uint32)
 	ctr.pageSize = os.Getpagesize()
@@ -396,10 +425,11 @@ func (ctr *fsContainer) ResetCache() Error {
 		os.O_RDWR|os.O_CREATE|os.O_TRUNC,
 		0600)
 	if err2 != nil {
-		return wrapErrorf(err, "failed to create cache file")
+		return wrapErrorf(err2, "failed to create cache file")
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
+		ctr.closeCache()
 		return err
 	}
 	ctr.cacheInitialized = true
@@ -422,7 +452,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
@@ -493,17 +522,20 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		err2 = ctr.cacheFile.Truncate(int64(
 			ctr.subTreeOffset(ctr.allocatedSubTrees)))
 		if err2 != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
 		err = ctr.writeCacheHeader()
 		if err != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, err
 		}
 	}
 
 	buf, err2 := ctr.mmapSubTree(idx)
 	if err2 != nil {
+		heap.Push(ctr.cacheFreeIdx, idx)
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
-- 
2.43.0


From a0d6cae3225eb3c2a3b04230cdd5a355f71cb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 15/27] fix: only give up on subtrees that aren't needed when
 precomputing

---
 core.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/core.go b/core.go
index 5711ff0..decb64e 100644
--- a/core.go
+++ b/core.go
@@ -240,6 +240,13 @@ func (ctx *Context) subTreeIsObsolete(sta SubTreeAddress,
 // or generating it.
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	mt *merkleTree, wotsSig []byte, err Error) {
+	return sk.getSubTreeFor(pad, sta, false)
+}
+
+// Implementation of getSubTree().  If precomputing is set, it's not called on
+// behalf of a Sign() operation, so the subtree might not be needed anymore.
+func (sk *PrivateKey) getSubTreeFor(pad scratchPad, sta SubTreeAddress,
+	precomputing bool) (mt *merkleTree, wotsSig []byte, err Error) {
 	alreadyDone := false
 	isRoot := (sta.Layer == sk.ctx.p.D-1)
 	parentSta := SubTreeAddress{
@@ -251,9 +258,9 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 	sk.mux.Lock()
 	for {
-		if sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
-			// This can only happen if we're precomputing the subtree
-			// and the signers have overtaken us.
+		if precomputing &&
+			sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
+			// The signers have overtaken us.
 			sk.mux.Unlock()
 			return nil, nil, errorf("Subtree %v is not needed anymore", sta)
 		}
@@ -345,7 +352,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
 		sk.subTreeChecked[sta] = true
-		if sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
+		if precomputing &&
+			sk.ctx.subTreeIsObsolete(sta, sk.leastSeqNoInUse) {
 			// See incLeastSeqNoInUse().
 			sk.dropSubTree(sta)
 		}
@@ -373,7 +381,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 				Layer: layer,
 				Tree:  sta.Tree >> (sk.ctx.treeHeight * (layer - sta.Layer)),
 			}
-			_, _, err = sk.getSubTree(pad, ancSta)
+			_, _, err = sk.getSubTreeFor(pad, ancSta, precomputing)
 
 			if err != nil {
 				abort()
@@ -383,7 +391,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	}
 
 	// Get the parent sub tree
-	_, _, err = sk.getSubTree(pad, parentSta)
+	_, _, err = sk.getSubTreeFor(pad, parentSta, precomputing)
 	if err != nil {
 		abort()
 		return nil, nil, err
@@ -455,7 +463,7 @@ func (sk *PrivateKey) precomputeSubTree(sta SubTreeAddress) {
 	sk.wg.Add(1)
 	go func() {
 		log.Logf("Precomputing subtree %v", sta)
-		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		sk.getSubTreeFor(sk.ctx.newScratchPad(), sta, true)
 		log.Logf("Finished precomputing subtree %v", sta)
 		sk.wg.Done()
 	}()
-- 
2.43.0


From d829933b386ffcfebb48379bc88741760ad77518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 16/27] fix: check whether a cached subtree is the right one

If interrupted at the wrong moment, the cache might contain a subtree with the
right checksum, but at another address or of another key.
---
 core.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index decb64e..44ae9e5 100644
--- a/core.go
+++ b/core.go
@@ -5,6 +5,7 @@ package xmssmt
 import (
 	"github.com/cespare/xxhash"
 
+	"bytes"
 	"container/heap"
 	"encoding/binary"
 	"runtime"
@@ -236,6 +237,31 @@ func (ctx *Context) subTreeIsObsolete(sta SubTreeAddress,
 	return uint64(seqNo)>>((sta.Layer+1)*ctx.treeHeight) > sta.Tree
 }
 
+// Checks the integrity of a cached subtree.
+func (sk *PrivateKey) checkSubTree(pad scratchPad, sta SubTreeAddress,
+	buf []byte) bool {
+	storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
+	if storedCheckSum != xxhash.Sum64(buf[:len(buf)-8]) {
+		return false
+	}
+
+	// The checksum doesn't tell us whether it is the right subtree.  The buffer
+	// might contain a subtree that was dropped before or even a subtree of
+	// another private key if we were interrupted at the wrong moment.  To be
+	// certain, we check the first leaf.
+	var otsAddr, lTreeAddr address
+	addr := sta.address()
+	otsAddr.setSubTreeFrom(addr)
+	otsAddr.setType(ADDR_TYPE_OTS)
+	lTreeAddr.setSubTreeFrom(addr)
+	lTreeAddr.setType(ADDR_TYPE_LTREE)
+	leaf := make([]byte, sk.ctx.p.N)
+	sk.ctx.genLeafInto(pad, sk.ph, lTreeAddr, otsAddr, leaf)
+	mt := merkleTreeFromBuf(buf[:sk.ctx.p.BareSubTreeSize()],
+		sk.ctx.treeHeight+1, sk.ctx.p.N)
+	return bytes.Equal(leaf, mt.Node(0, 0))
+}
+
 // Returns the given subtree, either by loading it from the cache,
 // or generating it.
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
@@ -290,8 +316,7 @@ func (sk *PrivateKey) getSubTreeFor(pad scratchPad, sta SubTreeAddress,
 			// hasn't been corrupted.  We hold on to the lock, so that no
 			// other thread starts correcting it in the meantime.
 			log.Logf("Checking integrity of subtree %v ...", sta)
-			storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-			if storedCheckSum == xxhash.Sum64(buf[:len(buf)-8]) {
+			if sk.checkSubTree(pad, sta, buf) {
 				sk.subTreeChecked[sta] = true
 			} else {
 				log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
-- 
2.43.0


From c14c9975ccd6eedd13ca6cf21effd4c1b6e2979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 17/27] fix: consider a container uninitialized if resetting it
 fails

---
 container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/container.go b/container.go
index d586660..d8342a8 100644
--- a/container.go
+++ b/container.go
@@ -633,6 +633,7 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
 	ctr.borrowed = 0
+	ctr.initialized = false
 	ctr.cacheInitialized = false
 
 	if err := ctr.writeKeyFile(); err != nil {
-- 
2.43.0


From c73824faa34ccda5a230eea36291a24987b7d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 18/27] fix: do not sign with sequence numbers that are out of
 range

---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index 44ae9e5..7d1f7c1 100644
--- a/core.go
+++ b/core.go
@@ -445,7 +445,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		return 0, errorf("The private key is closed")
 	}
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From 22104d0b975c8a1af0b4035afe2db4bbeddddc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 19/27] fix: look up the name and OID when creating a context

Contexts are shared by goroutines, so filling them in lazily is a data race.
---
 api.go    |  7 +++++++
 params.go | 20 +-------------------
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/api.go b/api.go
index d66d0c9..1aa647f 100644
--- a/api.go
+++ b/api.go
@@ -732,6 +732,13 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.x4Available = f1600x4.Available
 	}
 
+	// Look up the name and OID, if it has any, now as a context might be used
+	// by several goroutines at the same time.
+	if name, oid := params.LookupNameAndOid(); name != "" {
+		ctx.name = &name
+		ctx.oid = oid
+	}
+
 	return
 }
 
diff --git a/params.go b/params.go
index f3e9ea5..3cc0713 100644
--- a/params.go
+++ b/params.go
@@ -544,25 +544,10 @@ func (params *Params) LookupNameAndOid() (string, uint32) {
 	return "", 0
 }
 
-// Looks up the name and oid of this set of parameters and returns whether
-// any were found.
-func (ctx *Context) ensureNameAndOidAreSet() bool {
-	if ctx.name != nil {
-		return true
-	}
-	var name2 string
-	name2, ctx.oid = ctx.p.LookupNameAndOid()
-	if name2 != "" {
-		ctx.name = &name2
-		return true
-	}
-	return false
-}
-
 // Returns the name of the XMSSMT instance and an empty string if it has
 // no name.
 func (ctx *Context) Name() string {
-	if ctx.ensureNameAndOidAreSet() {
+	if ctx.name != nil {
 		return *ctx.name
 	}
 	return ""
@@ -570,14 +555,12 @@ func (ctx *Context) Name() string {
 
 // Returns the Oid of the XMSSMT instance and 0 if it has no Oid.
 func (ctx *Context) Oid() uint32 {
-	ctx.ensureNameAndOidAreSet()
 	return ctx.oid
 }
 
 // Returns whether this XMSS[MT] instance is listed in the NIST Special
 // Publication.
 func (ctx *Context) FromNIST() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.mt {
 		return ctx.oid >= 0x21 && ctx.oid <= 0x38
 	}
@@ -587,7 +570,6 @@ func (ctx *Context) FromNIST() bool {
 // Returns whether this XMSS[MT] instance is listed in the RFC (and thus should
 // also be supported by other implementations).
 func (ctx *Context) FromRFC() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.oid == 0 {
 		return false
 	}
-- 
2.43.0


From b984388f3c02b75f83d1c49a2a72dc86a14fe18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 20/27] fix: reject malformed signatures and public keys with
 an error

Unmarshalling panicked if the buffer was too short, for an unknown hash
function and for a zero full height; and so did verifying a signature with
other parameters than those of the public key.
---
 api.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/api.go b/api.go
index 1aa647f..820cfe8 100644
--- a/api.go
+++ b/api.go
@@ -204,6 +204,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf(
+			"The parameters of the signature and public key differ")
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
@@ -280,14 +285,22 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	sig.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+uint64(ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+uint64(ctx.sigBytes), len(buf))
 	}
+	sig.ctx = ctx
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -377,14 +390,22 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	pk.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+uint64(ctx.pkBytes) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+uint64(ctx.pkBytes), len(buf))
 	}
+	pk.ctx = ctx
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
@@ -691,6 +712,18 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
 
+	if params.Func > SHAKE256 {
+		return nil, errorf("Only SHA2, SHAKE and SHAKE256 are supported")
+	}
+
+	if params.Prf != RFC && params.Prf != NIST {
+		return nil, errorf("Only the RFC and NIST PRFs are supported")
+	}
+
+	if params.FullHeight == 0 {
+		return nil, errorf("FullHeight can't be zero")
+	}
+
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
-- 
2.43.0


From 2e9e62cbd0775b16eb0c6adbc2184a5d34b442e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 21/27] fix: refuse to write what does not fit

Params.WriteInto() garbled the magic if N is zero and the other WriteInto()s
truncated silently if the buffer is too small.
---
 api.go    | 6 ++++++
 params.go | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 820cfe8..1efac8a 100644
--- a/api.go
+++ b/api.go
@@ -321,6 +321,9 @@ func (sig *Signature) UnmarshalBinary(buf []byte) error {
 // Writes signature to buf in the same way as returned
 // by Signature.MarshalBinary().
 func (sig *Signature) WriteInto(buf []byte) error {
+	if uint64(len(buf)) < 4+uint64(sig.ctx.sigBytes) {
+		return errorf("Buffer is too small")
+	}
 	err := sig.ctx.p.WriteInto(buf)
 	if err != nil {
 		return err
@@ -367,6 +370,9 @@ func (pk *PublicKey) MarshalText() ([]byte, error) {
 // Writes the public key into buf in the same way as returned
 // by PublicKey.MarshalBinary()
 func (pk *PublicKey) WriteInto(buf []byte) error {
+	if uint64(len(buf)) < 4+uint64(pk.ctx.pkBytes) {
+		return errorf("Buffer is too small")
+	}
 	err := pk.ctx.p.WriteInto(buf)
 	if err != nil {
 		return err
diff --git a/params.go b/params.go
index 3cc0713..cfdf7bb 100644
--- a/params.go
+++ b/params.go
@@ -193,8 +193,11 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
-	if params.N%8 != 0 {
-		return errorf("N is not divisable by 8")
+	if len(buf) < 4 {
+		return errorf("Buffer is too small")
+	}
+	if params.N == 0 || params.N%8 != 0 {
+		return errorf("N is not a positive multiple of 8")
 	}
 	if params.N > 128 {
 		return errorf("N is too large")
-- 
2.43.0


From 724c2489861bae035c7bb8390c93c80f85f8130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 22/27] fix: reject algorithm names that do not spell a set of
 parameters

---
 params.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/params.go b/params.go
index cfdf7bb..3f35b10 100644
--- a/params.go
+++ b/params.go
@@ -400,9 +400,12 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if err != nil {
 		return nil, wrapErrorf(err, "parse N")
 	}
-	if n < 0 || int64(n) > int64(1)<<32 {
+	if n < 0 || int64(n) >= int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N is not a multiple of 8 bits")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
@@ -410,12 +413,17 @@ func parseParamsFromName(name string) (*Params, Error) {
 	}
 
 	ret.WotsW = 16
+	var prfSeen, wSeen bool
 	for i := 3; i < len(bits); i++ {
-		if bits[i] == "NIST" {
-			ret.Prf = NIST
-			continue
-		} else if bits[i] == "RFC" {
+		if bits[i] == "NIST" || bits[i] == "RFC" {
+			if prfSeen {
+				return nil, errorf("PRF is given twice")
+			}
+			prfSeen = true
 			ret.Prf = RFC
+			if bits[i] == "NIST" {
+				ret.Prf = NIST
+			}
 			continue
 		} else if len(bits[i]) < 2 {
 			return nil, errorf("Fourth or fifth parameter is too short")
@@ -424,6 +432,10 @@ func parseParamsFromName(name string) (*Params, Error) {
 			return nil, errorf(
 				"Expected 'w[...]', NIST or RFC for fourth or fifth parameter")
 		}
+		if wSeen {
+			return nil, errorf("WotsW is given twice")
+		}
+		wSeen = true
 		w, err := strconv.Atoi(bits[i][1:])
 		if err != nil {
 			return nil, wrapErrorf(err, "Failed to parse WotsW parameter")
-- 
2.43.0


From da933d7a651f00d79cbab564c270bcca7f280b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 23/27] fix: do not let the number of possibly lost signatures
 overflow

---
 container.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index d8342a8..123650c 100644
--- a/container.go
+++ b/container.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sync"
@@ -658,12 +659,16 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
+	oldBorrowed := ctr.borrowed
 	ctr.borrowed += amount
+	if ctr.borrowed < amount {
+		ctr.borrowed = math.MaxUint32 // overflow
+	}
 	ctr.seqNo += SignatureSeqNo(amount)
 
 	if err := ctr.writeKeyFile(); err != nil {
 		// rollback
-		ctr.borrowed -= amount
+		ctr.borrowed = oldBorrowed
 		ctr.seqNo -= SignatureSeqNo(amount)
 		return 0, err
 	}
-- 
2.43.0


From 4de3f922ea7c0fc3039c18360c5af0cc89c970d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 24/27] fix: load keys of which more signatures were reserved
 than there are left

Reserving past the last sequence number stores a number that is too large,
and if the key isn't closed afterwards, loading it failed.
---
 api.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api.go b/api.go
index 1efac8a..c687e09 100644
--- a/api.go
+++ b/api.go
@@ -854,6 +854,16 @@ func loadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
+	if uint64(seqNo) > params.MaxSignatureSeqNo() {
+		// More signatures were borrowed than there were left.
+		excess := uint64(seqNo) - params.MaxSignatureSeqNo()
+		if excess < uint64(lostSigs) {
+			lostSigs -= uint32(excess)
+		} else {
+			lostSigs = 0
+		}
+		seqNo = SignatureSeqNo(params.MaxSignatureSeqNo())
+	}
 
 	// Create the private and public key structures
 	pad := ctx.newScratchPad()
-- 
2.43.0


From c77d11fc2dcb1398572fe0e64e4320d6975fba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 25/27] fix: let Close wait for unfinished signatures

Otherwise Sign might access a cached subtree that is not mapped into memory
anymore.
---
 api.go  | 8 +++++---
 core.go | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index c687e09..d80b269 100644
--- a/api.go
+++ b/api.go
@@ -80,7 +80,7 @@ type PrivateKey struct {
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
-	wg   sync.WaitGroup // used to join all background workers when Close()ing
+	wg   sync.WaitGroup // used to join all background workers and Sign()s when Close()ing
 	// subTreeReady[sta] is true if and only if the sub tree with the given
 	// address is allocated and filled.
 	subTreeReady map[SubTreeAddress]bool
@@ -574,6 +574,7 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 	if err != nil {
 		return nil, err
 	}
+	defer sk.wg.Done()
 	defer sk.retireSeqNo(seqNo)
 
 	// Compute the path of subtrees
@@ -634,8 +635,9 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
 	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	// We can't hold the lock while waiting, as the goroutine needs it.
+	// when EnableSubTreePrecomputation() was called and there might be
+	// unfinished Sign()s.  So wait for those.
+	// We can't hold the lock while waiting, as they need it.
 	sk.mux.Lock()
 	sk.precomputeNextSubTree = false
 	sk.closed = true
diff --git a/core.go b/core.go
index 7d1f7c1..a7cb5ae 100644
--- a/core.go
+++ b/core.go
@@ -436,7 +436,9 @@ func (sk *PrivateKey) getSubTreeFor(pad scratchPad, sta SubTreeAddress,
 	return
 }
 
-// Gets the next free sequence number
+// Gets the next free sequence number.
+//
+// If this succeeds, Close() will wait for sk.wg.Done() to be called.
 func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
@@ -474,6 +476,8 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		})
 	}
 
+	sk.wg.Add(1)
+
 	return sk.seqNo - 1, nil
 }
 
-- 
2.43.0


From 7188d8b5c910c5e65ae1a3d93be61da694562890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 26/27] fix: keep our own copy of the seeds passed to
 DeriveInto

---
 api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index d80b269..ac5ad33 100644
--- a/api.go
+++ b/api.go
@@ -481,7 +481,14 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 	}
 
 	pad := ctx.newScratchPad()
-	sk, err := ctx.newPrivateKey(pad, pubSeed, skSeed, skPrf, 0, ctr)
+	// Use our own copy of the seeds: the caller might wipe theirs.
+	sk, err := ctx.newPrivateKey(
+		pad,
+		concatSk[ctx.p.N*2:],
+		concatSk[:ctx.p.N],
+		concatSk[ctx.p.N:ctx.p.N*2],
+		0,
+		ctr)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 2d4645952f7a7b3917ff3e5e287b7217584a6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 27/27] fix: refuse key files with unsupported parameters when
 opening them

---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index 123650c..aae6321 100644
--- a/container.go
+++ b/container.go
@@ -232,6 +232,10 @@ func (ctr *fsContainer) open() Error {
 		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return wrapErrorf(err, "Keyfile has unsupported parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0

