package main

import (
	"bytes"
	"math/rand"

	proto "github.com/gogo/protobuf/proto"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	scenarios["fsnode"] = scenFSNode
	scenarios["fshelpers"] = scenFSHelpers
}

// limbs of a 64 bit number, least significant first: TLC has 32 bit numbers.
func limbs(x uint64) []int {
	return ints(4, func(i int) int { return int(x >> uint(16*i) & 0xffff) })
}

func randSize(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint64(r.Intn(1 << 20))
	case 2:
		return r.Uint64() >> uint(r.Intn(40))
	case 3:
		return []uint64{127, 128, 255, 256, 16383, 16384, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 62}[r.Intn(14)]
	}
	return uint64(r.Intn(300))
}

func bytesInts(b []byte) []int { return ints(len(b), func(i int) int { return int(b[i]) }) }

func randBytes(r *rand.Rand, max int) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, r.Intn(max+1))
	r.Read(b)
	return b
}

// seen is what the accessors of a node show.
func seenFS(n *ft.FSNode) M {
	bs := [][]int{}
	for i := 0; i < n.NumChildren(); i++ {
		bs = append(bs, limbs(n.BlockSize(i)))
	}
	all := [][]int{}
	for _, b := range n.BlockSizes() {
		all = append(all, limbs(b))
	}
	return M{"type": n.Type().String(), "data": bytesInts(n.Data()), "bs": bs, "all": all, "fs": limbs(n.FileSize()),
		"ht": limbs(n.HashType()), "fan": limbs(n.Fanout()), "dir": n.IsDir()}
}

// decoded is the same, from the encoding, without the code under test.
func decodedFS(b []byte) (M, bool) {
	var d pb.Data
	if err := proto.Unmarshal(b, &d); err != nil {
		return nil, false
	}
	bs := [][]int{}
	for _, x := range d.GetBlocksizes() {
		bs = append(bs, limbs(x))
	}
	return M{"type": d.GetType().String(), "data": bytesInts(d.GetData()), "bs": bs, "fs": limbs(d.GetFilesize()), "ht": limbs(d.GetHashType()), "fan": limbs(d.GetFanout())}, true
}

func scenFSNode(c *Case) {
	r := c.R
	typ := []pb.Data_DataType{pb.Data_File, pb.Data_File, pb.Data_Raw, pb.Data_Raw, pb.Data_Symlink, pb.Data_Directory, pb.Data_HAMTShard, pb.Data_Metadata}[r.Intn(8)]
	var n *ft.FSNode
	zero := limbs(0)
	init := M{"type": typ.String(), "data": []int{}, "bs": [][]int{}, "ht": zero, "fan": zero}
	if r.Intn(2) == 0 {
		n = ft.NewFSNode(typ)
	} else {
		// From bytes, with every field.
		d := &pb.Data{Type: &typ}
		b := randBytes(r, 20)
		if b != nil {
			d.Data = b
		}
		tot := uint64(len(b))
		bs := [][]int{}
		for k := r.Intn(5) * r.Intn(2); k > 0; k-- {
			x := randSize(r) >> 3
			d.Blocksizes = append(d.Blocksizes, x)
			bs = append(bs, limbs(x))
			tot += x
		}
		d.Filesize = proto.Uint64(tot)
		init["data"], init["bs"] = bytesInts(b), bs
		if r.Intn(2) == 0 {
			x, y := randSize(r), randSize(r)
			d.HashType, d.Fanout = &x, &y
			init["ht"], init["fan"] = limbs(x), limbs(y)
		}
		e, err := proto.Marshal(d)
		must(err)
		x, err := ft.FSNodeFromBytes(e)
		must(err)
		n = x
	}
	c.kind = typ.String()
	init["seen"] = seenFS(n)
	c.Emit("New", init)
	var blocks []uint64
	for _, b := range n.BlockSizes() {
		blocks = append(blocks, b)
	}
	for i := 3 + r.Intn(15); i > 0; i-- {
		ev := M{}
		op := []string{"SetData", "SetData", "AddBlockSize", "AddBlockSize", "AddBlockSize", "RemoveBlockSize", "RemoveAllBlockSizes", "Roundtrip", "Roundtrip"}[r.Intn(9)]
		if op == "RemoveAllBlockSizes" && r.Intn(3) > 0 {
			op = "AddBlockSize"
		}
		if op == "RemoveBlockSize" && len(blocks) == 0 {
			op = "AddBlockSize"
		}
		res := ""
		ev["i"], ev["x"], ev["data"], ev["enc"], ev["err"] = 0, zero, []int{}, M{}, "nil"
		switch op {
		case "SetData":
			b := randBytes(r, 40)
			ev["data"] = bytesInts(b)
			res = Do(func() { n.SetData(b) })
		case "AddBlockSize":
			x := randSize(r) >> 3
			ev["x"] = limbs(x)
			res = Do(func() { n.AddBlockSize(x) })
			blocks = append(blocks, x)
		case "RemoveBlockSize":
			k := r.Intn(len(blocks))
			ev["i"] = k + 1
			res = Do(func() { n.RemoveBlockSize(k) })
			blocks = append(blocks[:k:k], blocks[k+1:]...)
		case "RemoveAllBlockSizes":
			res = Do(func() { n.RemoveAllBlockSizes() })
			blocks = nil
		case "Roundtrip":
			res = Do(func() {
				b, err := n.GetBytes()
				if err != nil {
					ev["err"] = "other"
					return
				}
				ev["enc"], _ = decodedFS(b)
				x, err := ft.FSNodeFromBytes(b)
				if err != nil {
					ev["err"] = "other"
					return
				}
				n = x
			})
		}
		ev["op"], ev["res"] = op, res
		if Do(func() { ev["seen"] = seenFS(n) }) != "ok" {
			ev["res"] = "panic"
			ev["seen"] = M{}
		}
		c.Emit("Op", ev)
		if ev["res"] != "ok" {
			return
		}
	}
}

// scenFSHelpers: the functions that encode and decode whole nodes.
func scenFSHelpers(c *Case) {
	r := c.R
	b := randBytes(r, 40)
	x, y := randSize(r), randSize(r)
	which := []string{"FilePBData", "FolderPBData", "WrapData", "SymlinkData", "HAMTShardData", "BytesForMetadata", "EmptyDirNode", "EmptyFileNode"}[r.Intn(8)]
	mime := []string{"", "text/plain", "a/b; charset=utf-8", "ü"}[r.Intn(4)]
	var enc []byte
	ev := M{"which": which, "data": bytesInts(b), "x": limbs(x), "y": limbs(y), "mime": bytesInts([]byte(mime))}
	keep := append([]byte{}, b...)
	res := Do(func() {
		var err error
		var nd *dag.ProtoNode
		switch which {
		case "FilePBData":
			enc = ft.FilePBData(b, x)
		case "FolderPBData":
			enc = ft.FolderPBData()
		case "WrapData":
			enc = ft.WrapData(b)
		case "SymlinkData":
			enc, err = ft.SymlinkData(string(b))
		case "HAMTShardData":
			enc, err = ft.HAMTShardData(b, x, y)
		case "BytesForMetadata":
			enc, err = ft.BytesForMetadata(&ft.Metadata{MimeType: mime, Size: x})
		case "EmptyDirNode":
			nd = ft.EmptyDirNode()
			enc = nd.Data()
		case "EmptyFileNode":
			nd = ft.EmptyFileNode()
			enc = nd.Data()
		}
		must2(err)
		ev["links"] = 0
		if nd != nil {
			ev["links"] = len(nd.Links())
		}
	})
	ev["same"] = bytes.Equal(b, keep)
	ev["raw"] = M{}
	if d, ok := decodedFS(enc); ok {
		ev["raw"] = d
	} else {
		res = "undecodable"
	}
	// All the decoders.
	ev["un"], ev["unerr"] = []int{}, "nil"
	ev["size"], ev["sizeerr"] = limbs(0), "nil"
	ev["mdmime"], ev["mdsize"], ev["mderr"] = []int{}, limbs(0), "nil"
	ev["rd"], ev["rderr"] = []int{}, "nil"
	ev["fsn"], ev["exn"] = M{}, M{}
	ev["fromtype"] = ""
	if res == "ok" {
		res = Do(func() {
			u, err := ft.UnwrapData(enc)
			ev["un"], ev["unerr"] = bytesInts(u), errName(err)
			sz, err := ft.DataSize(enc)
			ev["size"], ev["sizeerr"] = limbs(sz), errName(err)
			md, err := ft.MetadataFromBytes(enc)
			ev["mderr"] = errName(err)
			if err == nil {
				ev["mdmime"], ev["mdsize"] = bytesInts([]byte(md.MimeType)), limbs(md.Size)
			}
			n, err := ft.FSNodeFromBytes(enc)
			must2(err)
			ev["fsn"] = seenFS(n)
			var nd ipld.Node = dag.NodeWithData(enc)
			rb, err := ft.ReadUnixFSNodeData(nd)
			ev["rd"], ev["rderr"] = bytesInts(rb), errName(err)
			e, err := ft.ExtractFSNode(nd)
			must2(err)
			ev["exn"] = seenFS(e)
			p, err := ft.FromBytes(enc)
			must2(err)
			ev["fromtype"] = p.GetType().String()
			// Raw nodes are data and nothing else.
			rn := dag.NewRawNode(keep)
			rb, err = ft.ReadUnixFSNodeData(rn)
			must2(err)
			if !bytes.Equal(rb, keep) {
				panic("raw node")
			}
			if _, err := ft.ExtractFSNode(rn); err == nil {
				panic("a raw node has no unixfs node")
			}
		})
	}
	ev["res"] = res
	c.kind = which
	c.Emit("Helper", ev)
}

func must2(err error) {
	if err != nil {
		panic(err)
	}
}
