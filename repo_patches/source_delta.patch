From 2ccfec9aba6a0841c85e9b3968ddd4e58918a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:04 +0000
Subject: [PATCH 01/23] fix: DagModifier.WriteAt lands at the requested offset
 with a pending write

An overlapping shorter write at the start of the pending buffer was appended
to the buffer, and the current offset was not updated when the write moved
elsewhere, so a later write at the stale offset was taken as a continuation.
---
 mod/dagmodifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..ef55adc 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,11 +91,10 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if dm.wrBuf != nil && offset == int64(dm.writeStart) && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the whole previous write
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
 		size, err := dm.Size()
 		if err != nil {
@@ -113,6 +112,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 			return 0, err
 		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
-- 
2.43.0


From d94540c0b764c05861aa9cc722fa11e44435b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:04 +0000
Subject: [PATCH 02/23] fix: DagModifier.Write after Read writes at the current
 offset

Reads advance the current offset but the flush used the stale write start.
---
 mod/dagmodifier.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index ef55adc..7a726ed 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -148,6 +148,8 @@ func (dm *DagModifier) Write(b []byte) (int, error) {
 	}
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		// Reads move the current offset but not the start of the write.
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
-- 
2.43.0


From 4788a5af5a589df8bb77f07d56a6a4a62c9ff943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 03/23] fix: DagModifier.Seek follows io.Seeker, negative
 offsets are errors

SeekEnd subtracted the offset from the size. Negative positions in Seek,
WriteAt and Truncate were accepted and corrupted the file or panicked.
---
 mod/dagmodifier.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 7a726ed..c93e86c 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -25,6 +25,9 @@ var (
 	ErrSeekFail = errors.New("failed to seek properly")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrUnrecognizedWhence
 	ErrUnrecognizedWhence = errors.New("unrecognized whence")
+	// ErrNegativeOffset is returned when asked to move to, write at or
+	// truncate to a position before the start of the file.
+	ErrNegativeOffset = errors.New("negative offset")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrNotUnixfs
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
@@ -91,6 +94,9 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
+	if offset < 0 {
+		return 0, ErrNegativeOffset
+	}
 	if dm.wrBuf != nil && offset == int64(dm.writeStart) && len(b) >= dm.wrBuf.Len() {
 		// We would overwrite the whole previous write
 		dm.wrBuf.Reset()
@@ -468,11 +474,15 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		newoffset = uint64(offset)
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = uint64(fisize) + uint64(offset)
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
 
+	if int64(newoffset) < 0 {
+		return 0, ErrNegativeOffset
+	}
+
 	if int64(newoffset) > fisize {
 		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
 			return 0, err
@@ -494,6 +504,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return ErrNegativeOffset
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
-- 
2.43.0


From d4aad609ba17cd3d86d365bfa721f7f8e3ec5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 04/23] fix: DagModifier drops its reader when the file is
 truncated or expanded

The active reader kept serving the old content (or panicked in the walker)
after Truncate or a Seek past the end.
---
 mod/dagmodifier.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index c93e86c..ff2c448 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -143,10 +143,21 @@ func (dm *DagModifier) expandSparse(size int64) error {
 	if err != nil {
 		return err
 	}
+	// The active reader (if any) doesn't know about the new blocks.
+	dm.dropReader()
 	err = dm.dagserv.Add(dm.ctx, nnode)
 	return err
 }
 
+// dropReader discards the active reader (if any), to be called every time the
+// current node changes. The next read starts a new one at the current offset.
+func (dm *DagModifier) dropReader() {
+	if dm.read != nil {
+		dm.read = nil
+		dm.readCancel()
+	}
+}
+
 // Write continues writing to the dag at the current offset
 func (dm *DagModifier) Write(b []byte) (int, error) {
 	if dm.read != nil {
@@ -207,10 +218,7 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.dropReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -492,7 +500,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
 			return 0, err
 		}
@@ -526,6 +534,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return dm.expandSparse(int64(size) - realSize)
 	}
 
+	dm.dropReader()
 	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
 	if err != nil {
 		return err
-- 
2.43.0


From 86934cdde2756553aafa74dca33906fa789a03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 05/23] fix: DagModifier doesn't modify links shared with other
 nodes

Overwriting changed in place the Link objects shared by the node passed to
NewDagModifier and the ones returned by earlier GetNode calls.
---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index ff2c448..411eb70 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -351,7 +351,11 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// The link may be shared with other copies of this node (see
+			// ProtoNode.Copy), replace it instead of modifying it.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 4fa8ce91a63a286043ccab1f54ac496525386157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 06/23] fix: DagModifier can append to files made of a single
 block

trickle.Append drops the data kept in a root without links and rejects raw
nodes: move the data to a leaf first.
---
 mod/dagmodifier.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 411eb70..e942e27 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -143,6 +143,7 @@ func (dm *DagModifier) expandSparse(size int64) error {
 	if err != nil {
 		return err
 	}
+	dm.curNode = nnode
 	// The active reader (if any) doesn't know about the new blocks.
 	dm.dropReader()
 	err = dm.dagserv.Add(dm.ctx, nnode)
@@ -390,12 +391,44 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		return trickle.Append(dm.ctx, nd, db)
+		base, err := ensureAppendable(nd, db)
+		if err != nil {
+			return nil, err
+		}
+		return trickle.Append(dm.ctx, base, db)
 	default:
 		return nil, ErrNotUnixfs
 	}
 }
 
+// ensureAppendable returns a node with the contents of the given file that
+// keeps no data in its root, as expected by trickle.Append. In files made of a
+// single block the data is moved to a leaf.
+func ensureAppendable(nd ipld.Node, db *help.DagBuilderHelper) (ipld.Node, error) {
+	if len(nd.Links()) > 0 {
+		return nd, nil
+	}
+	data, err := ft.ReadUnixFSNodeData(nd)
+	if err != nil {
+		return nil, err
+	}
+	if _, ok := nd.(*mdag.ProtoNode); ok && len(data) == 0 {
+		return nd, nil
+	}
+
+	root := db.NewFSNodeOverDag(ft.TFile)
+	if len(data) > 0 {
+		leaf, err := db.NewLeafNode(data, ft.TRaw)
+		if err != nil {
+			return nil, err
+		}
+		if err := root.AddChild(leaf, uint64(len(data)), db); err != nil {
+			return nil, err
+		}
+	}
+	return root.Commit()
+}
+
 // Read data from this dag starting at the current offset
 func (dm *DagModifier) Read(b []byte) (int, error) {
 	err := dm.readPrep()
-- 
2.43.0


From 6bb8ea05876fba708a90d9468e3256039123ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 07/23] fix: trickle.Append doesn't skip a depth level

When the last depth was complete (or there was none yet) the next group of
sub-graphs was built one level too deep for its position.
---
 importer/trickle/trickledag.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..d4e51a5 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -127,8 +127,9 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, the partially filled depth (if any) is
+	// complete and our depth is now increased by one
+	if !db.Done() && repeatNumber != 0 {
 		depth++
 	}
 
@@ -228,8 +229,9 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, the partially filled depth (if any) is
+	// complete and our depth is now increased by one
+	if !db.Done() && repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From 68920a37571558d61b065daf1df2ff369d6fa29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 08/23] fix: DagReader.Seek leaves the reader consistent after
 an error

The offset was reset to zero but not the walker, so a later Seek(0) was taken
as a no-op and reads continued from wherever the failed search ended.
---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..f46b035 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -462,6 +462,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker may be left anywhere, start over to keep it in
+			// sync with the offset.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From b1d2b8e29a3f7c8e377a130aa003b275f1c1d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 09/23] fix: DagReader.WriteTo accounts for data written before
 a writer error

---
 io/dagreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index f46b035..54a1934 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,7 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	dr.offset += int64(n)
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +277,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From a4fb715bbef924177900fccdbb1d794a3a2683a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 10/23] fix: HAMT enumeration reports a cancelled context

The channel is closed early without an error when the context is cancelled:
EnumLinks returned a partial listing as complete and DynamicDirectory could
downgrade a directory above the sharding threshold.
---
 hamt/hamt.go    | 3 ++-
 io/directory.go | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..799bf24 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -398,7 +398,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// The channel is also closed early if the context is cancelled.
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
diff --git a/io/directory.go b/io/directory.go
index a0ec307..1a38f92 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -532,6 +532,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// The enumeration also ends early if the context is cancelled.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From 6b89ae8bc0533870910fb23fab95ed4818c7f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 11/23] fix: reject malformed HAMT shards instead of panicking

---
 hamt/hamt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 799bf24..3f016ff 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,13 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
+	if len(fsn.Data()) > len(ds.childer.bitfield) {
+		return nil, fmt.Errorf("bitfield too large for a shard of %d entries", size)
+	}
 	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if ds.childer.bitfield.Ones() != len(pbnd.Links()) {
+		return nil, fmt.Errorf("bitfield doesn't match the number of links of the shard")
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -209,6 +215,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
-- 
2.43.0


From 6024ce38cba94a0f06bc8e62394f600d74c0324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 12/23] fix: ResolveUnixfsOnce with an empty path on a HAMT
 returns an error

---
 io/resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..30ee49f 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -23,7 +23,7 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 			return nd.ResolveLink(names)
 		}
 
-		if fsn.Type() == ft.THAMTShard {
+		if fsn.Type() == ft.THAMTShard && len(names) > 0 {
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From 2324e62b36a249b88594e710ea0cee865e769994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 13/23] fix: MetadataFromBytes restores the size

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 8da5b601059b0a86f1d6d93c0181df08ee101665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 14/23] fix: trickle.Append doesn't treat a leaf as a sub-tree
 to fill

---
 importer/trickle/trickledag.go | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index d4e51a5..e4df4a1 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -164,25 +164,31 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
 	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
-	if err != nil {
+	if err != nil && err != dag.ErrNotProtobuf {
 		return err
 	}
 
-	// Fill out last child (may not be full tree)
-	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
-	if err != nil {
-		return err
-	}
+	// The last child is a leaf if the node was built with more direct links
+	// than `Maxlinks`, there is nothing to fill in it (and no place to do it).
+	isLeaf := err == dag.ErrNotProtobuf || lastChild.NumChildren() == 0
 
-	// Update changed child in parent node
-	fsn.RemoveChild(last, db)
-	filledNode, err := newChild.Commit()
-	if err != nil {
-		return err
-	}
-	err = fsn.AddChild(filledNode, nchildSize, db)
-	if err != nil {
-		return err
+	if !isLeaf {
+		// Fill out last child (may not be full tree)
+		newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+		if err != nil {
+			return err
+		}
+
+		// Update changed child in parent node
+		fsn.RemoveChild(last, db)
+		filledNode, err := newChild.Commit()
+		if err != nil {
+			return err
+		}
+		err = fsn.AddChild(filledNode, nchildSize, db)
+		if err != nil {
+			return err
+		}
 	}
 
 	// Partially filled depth layer
-- 
2.43.0


From 894db3daaa01539a0e71da2185546bcb749ab540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 15/23] fix: HAMTDirectory accounts removed entries by their
 name

---
 io/directory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 1a38f92..a41b9ec 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -373,7 +373,7 @@ func (d *HAMTDirectory) AddChild(ctx context.Context, name string, nd ipld.Node)
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 	d.addToSizeChange(name, nd.Cid())
 	return nil
@@ -413,7 +413,7 @@ func (d *HAMTDirectory) RemoveChild(ctx context.Context, name string) error {
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 
 	return nil
-- 
2.43.0


From cb051eb90dc3f4b1af500571eae82482846697c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 16/23] fix: HAMTDirectory stops its size enumeration before it
 is modified

---
 io/directory.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a41b9ec..634e0f0 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -515,11 +515,18 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 	// end early if we already know we're above the threshold or run out of time.
 	partialSize := 0
 
-	// We stop the enumeration once we have enough information and exit this function.
+	// We stop the enumeration once we have enough information and exit this
+	// function. It has to be over by then: it reads the shards which the caller
+	// is about to modify.
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(ctx)
+	defer func() {
+		cancel()
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From c8eda687f30953710a97570349a2e23cd8f1ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 17/23] fix: HAMT rejects entries without a name

---
 hamt/hamt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 3f016ff..d8671c5 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -834,6 +834,10 @@ func (s *childer) insert(key string, lnk *ipld.Link, idx int) error {
 	if lnk == nil {
 		return os.ErrNotExist
 	}
+	if key == "" {
+		// A link with nothing but the prefix stands for a sub-shard.
+		return fmt.Errorf("entries of a sharded directory need a name")
+	}
 
 	lnk.Name = s.sd.linkNamePrefix(idx) + key
 	i := s.sliceIndex(idx)
-- 
2.43.0


From 2287f8c569d308110fcbec8b737da5f9404f3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 18/23] fix: NewDagReader reads raw files wrapped in metadata

---
 io/dagreader.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 54a1934..8ca0c51 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -82,11 +82,7 @@ func NewDagReader(ctx context.Context, n ipld.Node, serv ipld.NodeGetter) (DagRe
 				return nil, err
 			}
 
-			childpb, ok := child.(*mdag.ProtoNode)
-			if !ok {
-				return nil, mdag.ErrNotProtobuf
-			}
-			return NewDagReader(ctx, childpb, serv)
+			return NewDagReader(ctx, child, serv)
 		case unixfs.TSymlink:
 			return nil, ErrCantReadSymlinks
 		default:
-- 
2.43.0


From b5210721d7d40434a54ae3b4a90f55a1d10b59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 19/23] fix: editing malformed files returns errors instead of
 panicking

Sizes recorded in a file that don't agree with its blocks made
DagModifier and trickle.Append index out of range, use a nil node or
expand the file without end.
---
 importer/helpers/dagbuilder.go |  3 +++
 mod/dagmodifier.go             | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..7a96ad9 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -322,6 +322,9 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 	if err != nil {
 		return nil, err
 	}
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, errors.New("number of block sizes doesn't match the number of links")
+	}
 
 	return &FSNodeOverDag{
 		dag:  nd,
diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index e942e27..c2ea3ca 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
@@ -30,6 +31,9 @@ var (
 	ErrNegativeOffset = errors.New("negative offset")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrNotUnixfs
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
+	// ErrMalformedFile is returned when the sizes recorded in a file don't
+	// agree with its blocks.
+	ErrMalformedFile = errors.New("malformed unixfs file")
 )
 
 // 2MB
@@ -203,6 +207,9 @@ func fileSize(n ipld.Node) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if fsn.FileSize() > math.MaxInt64 {
+			return 0, ErrMalformedFile
+		}
 		return fsn.FileSize(), nil
 	case *mdag.RawNode:
 		return uint64(len(nd.RawData())), nil
@@ -276,6 +283,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, ErrMalformedFile
+			}
+
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -298,6 +309,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, ErrMalformedFile
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -338,6 +352,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, ErrMalformedFile
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -596,9 +614,15 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, ErrMalformedFile
+			}
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, ErrMalformedFile
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -646,6 +670,11 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		ndata.AddBlockSize(childsize)
 	}
 
+	if modified == nil {
+		// The children add up to less than the recorded size.
+		return nil, ErrMalformedFile
+	}
+
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4b3e47d9899730e0816b58be7a3b1dd23e7c2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 20/23] fix: mod: a failed operation leaves the file, the
 pending writes and the position as they were

Sync dropped the buffer, or left a half modified or missing node, when a block
couldn't be fetched or stored; Truncate, Seek and writes past the end did
alike.
---
 mod/dagmodifier.go | 59 +++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index c2ea3ca..90b337d 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -147,11 +147,14 @@ func (dm *DagModifier) expandSparse(size int64) error {
 	if err != nil {
 		return err
 	}
+	err = dm.dagserv.Add(dm.ctx, nnode)
+	if err != nil {
+		return err
+	}
 	dm.curNode = nnode
 	// The active reader (if any) doesn't know about the new blocks.
 	dm.dropReader()
-	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	return nil
 }
 
 // dropReader discards the active reader (if any), to be called every time the
@@ -241,34 +244,50 @@ func (dm *DagModifier) Sync() error {
 		}
 	}
 
-	// overwrite existing dag nodes
-	thisc, err := dm.modifyDag(dm.curNode, dm.writeStart)
+	// Writing consumes the buffer. If it fails the buffer is restored: the data
+	// is still pending and will be written by the next Sync.
+	data := dm.wrBuf.Bytes()
+	nnode, err := dm.writeBuffer()
 	if err != nil {
+		dm.wrBuf = bytes.NewBuffer(data)
 		return err
 	}
 
-	dm.curNode, err = dm.dagserv.Get(dm.ctx, thisc)
+	dm.curNode = nnode
+	dm.writeStart += uint64(buflen)
+	dm.wrBuf = nil
+
+	return nil
+}
+
+// writeBuffer writes the data in 'dm.wrBuf' at 'dm.writeStart' and returns the
+// resulting node.
+func (dm *DagModifier) writeBuffer() (ipld.Node, error) {
+	// overwrite existing dag nodes
+	thisc, err := dm.modifyDag(dm.curNode.Copy(), dm.writeStart)
 	if err != nil {
-		return err
+		return nil, err
+	}
+
+	node, err := dm.dagserv.Get(dm.ctx, thisc)
+	if err != nil {
+		return nil, err
 	}
 
 	// need to write past end of current dag
 	if dm.wrBuf.Len() > 0 {
-		dm.curNode, err = dm.appendData(dm.curNode, dm.splitter(dm.wrBuf))
+		node, err = dm.appendData(node, dm.splitter(dm.wrBuf))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
-		err = dm.dagserv.Add(dm.ctx, dm.curNode)
+		err = dm.dagserv.Add(dm.ctx, node)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
-	dm.writeStart += uint64(buflen)
-	dm.wrBuf = nil
-
-	return nil
+	return node, nil
 }
 
 // modifyDag writes the data in 'dm.wrBuf' over the data in 'node' starting at 'offset'
@@ -409,7 +428,8 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		base, err := ensureAppendable(nd, db)
+		// Append modifies the node it is given, even if it fails.
+		base, err := ensureAppendable(nd.Copy(), db)
 		if err != nil {
 			return nil, err
 		}
@@ -551,16 +571,17 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 			return 0, err
 		}
 	}
-	dm.curWrOff = newoffset
-	dm.writeStart = newoffset
-
 	if dm.read != nil {
 		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
+			dm.dropReader()
 			return 0, err
 		}
 	}
 
+	dm.curWrOff = newoffset
+	dm.writeStart = newoffset
+
 	return int64(dm.curWrOff), nil
 }
 
@@ -590,7 +611,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 	}
 
 	dm.dropReader()
-	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
+	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 63296e011a116a42bbb6c1cb048317b00f56e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:14 +0000
Subject: [PATCH 21/23] fix: DagReader doesn't skip a node whose data it can't
 read

After an error extracting the data of a node the walker is already at that
node, and the next read went on with the one after it: the caller got the
bytes of the file with a hole in them.
---
 io/dagreader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 8ca0c51..58ccbbb 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -118,6 +118,10 @@ type dagReader struct {
 	// `readNodeDataBuffer` operation.
 	currentNodeData *bytes.Reader
 
+	// Error extracting the data of the current node being visited (if any):
+	// the reader can't go on past a node it can't read.
+	currentNodeErr error
+
 	// Implements the `Size()` API.
 	size uint64
 
@@ -160,6 +164,10 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 	// `ipld.NavigableIPLDNode.FetchChild` for details).
 	dr.dagWalker.SetContext(ctx)
 
+	if dr.currentNodeErr != nil {
+		return 0, dr.currentNodeErr
+	}
+
 	// If there was a partially read buffer from the last visited
 	// node read it before visiting a new one.
 	if dr.currentNodeData != nil {
@@ -222,6 +230,9 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 func (dr *dagReader) saveNodeData(node ipld.Node) error {
 	extractedNodeData, err := unixfs.ReadUnixFSNodeData(node)
 	if err != nil {
+		// The `dagWalker` is at the node already and would go on with the
+		// next one.
+		dr.currentNodeErr = err
 		return err
 	}
 
@@ -288,6 +299,10 @@ func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
 	// (see `ipld.NavigableIPLDNode.FetchChild` for details).
 	dr.dagWalker.SetContext(dr.ctx)
 
+	if dr.currentNodeErr != nil {
+		return 0, dr.currentNodeErr
+	}
+
 	// If there was a partially read buffer from the last visited
 	// node read it before visiting a new one.
 	if dr.currentNodeData != nil {
@@ -489,6 +504,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 // in the `SeekStart` case.
 func (dr *dagReader) resetPosition() {
 	dr.currentNodeData = nil
+	dr.currentNodeErr = nil
 	dr.offset = 0
 
 	dr.dagWalker = ipld.NewWalker(dr.ctx, ipld.NewNavigableIPLDNode(dr.rootNode, dr.serv))
-- 
2.43.0


From 83cad4104a97c3f0a882ed792a95940c96c9d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:14 +0000
Subject: [PATCH 22/23] fix: HAMT removal next to a malformed link isn't
 reported as failed

The entry had been removed when the link that remains in its shard turned out
to be malformed, and the error said otherwise.
---
 hamt/hamt.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index d8671c5..d849ab9 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -751,10 +751,11 @@ func (ds *Shard) swapValue(ctx context.Context, hv *hashBits, key string, value
 
 				// Otherwise, work with the link.
 				slnk := child.childer.link(0)
-				var lnkType linkType
-				lnkType, err = child.childer.sd.childLinkType(slnk)
+				lnkType, err := child.childer.sd.childLinkType(slnk)
 				if err != nil {
-					return nil, err
+					// The entry has been removed, what remains is left
+					// as it is.
+					return oldValue, nil
 				}
 				if lnkType == shardValueLink {
 					// sub-shard with a single value element, collapse it
-- 
2.43.0


From afb127d7b951e28f581d88805b69a106f154007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:15 +0000
Subject: [PATCH 23/23] fix: HAMT names the link of a collapsed shard after its
 new place

The single entry left in a sub-shard was moved into its parent with the link
name it had in the sub-shard. If the widths of the two differ, so do the
lengths of their prefixes, and the entry got another name.
---
 hamt/hamt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index d849ab9..843740f 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -759,7 +759,11 @@ func (ds *Shard) swapValue(ctx context.Context, hv *hashBits, key string, value
 				}
 				if lnkType == shardValueLink {
 					// sub-shard with a single value element, collapse it
-					ds.childer.setLink(slnk, i)
+					// (its name has the prefix of the sub-shard, whose
+					// width may be another).
+					vlnk := *slnk
+					vlnk.Name = ds.linkNamePrefix(idx) + slnk.Name[child.maxpadlen:]
+					ds.childer.setLink(&vlnk, i)
 				}
 				return oldValue, nil
 			}
-- 
2.43.0

