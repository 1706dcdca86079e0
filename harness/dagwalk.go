package main

import (
	"encoding/hex"
	"fmt"
	"sort"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	pb "github.com/ipfs/go-unixfs/pb"
)

// The projection of stored DAGs into the terms of the specification. It decodes
// the blocks by itself, without the readers under test.

// fileTree projects the file DAG under n and appends its bytes to *content
// (leaf data in order, and inline data of internal nodes, which is not part of
// the file for a reader, to *inline).
func fileTree(s *Store, n ipld.Node, content *[]byte) M {
	data := n.RawData()
	switch nd := n.(type) {
	case *posinfo.FilestoreNode:
		return fileTree(s, nd.Node, content)
	case *dag.RawNode:
		*content = append(*content, data...)
		return M{"k": "raw", "fs": len(data), "dl": len(data), "bs": []int{}, "ts": []int{}, "c": []M{}, "cum": len(data), "p": pfx(nd.Cid()), "t": "none", "enc": len(data)}
	case *dag.ProtoNode:
		var d pb.Data
		if err := proto.Unmarshal(nd.Data(), &d); err != nil {
			return M{"k": "bad", "why": "undecodable"}
		}
		bs := []int{}
		for _, x := range d.GetBlocksizes() {
			bs = append(bs, clampU(x))
		}
		ts := []int{}
		cs := []M{}
		cum := len(data)
		k := "node"
		if len(nd.Links()) == 0 {
			k = "leaf"
			*content = append(*content, d.GetData()...)
		}
		for _, l := range nd.Links() {
			ts = append(ts, clampU(l.Size))
			cum += clampU(l.Size)
			raw, ok := s.Raw(l.Cid)
			if !ok {
				cs = append(cs, M{"k": "bad", "why": "missing"})
				continue
			}
			ch, err := decodeNode(l.Cid, raw)
			if err != nil {
				cs = append(cs, M{"k": "bad", "why": "undecodable"})
				continue
			}
			cs = append(cs, fileTree(s, ch, content))
		}
		return M{"k": k, "fs": clampU(d.GetFilesize()), "dl": len(d.GetData()), "bs": bs, "ts": ts, "c": cs, "cum": cum, "p": pfx(nd.Cid()), "t": d.GetType().String(), "enc": len(data)}
	}
	return M{"k": "bad", "why": fmt.Sprintf("%T", n)}
}

// load gets a stored node without going through the hooks.
func (s *Store) load(c cid.Cid) (ipld.Node, bool) {
	raw, ok := s.Raw(c)
	if !ok {
		return nil, false
	}
	n, err := decodeNode(c, raw)
	if err != nil {
		return nil, false
	}
	return n, true
}

// kids lists the children of a block that are part of the same file or sharded
// directory: all the links of a file node and the sub-shard links of a shard
// node. Entries of directories are different objects.
func kids(c cid.Cid, data []byte) []cid.Cid {
	if c.Prefix().Codec != cid.DagProtobuf {
		return nil
	}
	n, err := decodeNode(c, data)
	if err != nil {
		return nil
	}
	nd := n.(*dag.ProtoNode)
	var d pb.Data
	if err := proto.Unmarshal(nd.Data(), &d); err != nil {
		return nil
	}
	var out []cid.Cid
	switch d.GetType() {
	case pb.Data_File, pb.Data_Raw, pb.Data_Metadata:
		for _, l := range nd.Links() {
			out = append(out, l.Cid)
		}
	case pb.Data_HAMTShard:
		pad := len(fmt.Sprintf("%X", d.GetFanout()-1))
		for _, l := range nd.Links() {
			if len(l.Name) == pad {
				out = append(out, l.Cid)
			}
		}
	}
	return out
}

// shardTree projects a stored HAMT: for each shard, its fan-out and the list of
// (position according to the bitfield, position according to the name, what is
// there). vals gives the identity of entries.
func shardTree(s *Store, n ipld.Node, idOf func(l *ipld.Link) (int, int), nameOf func(string) int) M {
	nd, ok := n.(*dag.ProtoNode)
	if !ok {
		return M{"k": "bad"}
	}
	var d pb.Data
	if err := proto.Unmarshal(nd.Data(), &d); err != nil {
		return M{"k": "bad"}
	}
	if d.GetType() != pb.Data_HAMTShard {
		return M{"k": "bad"}
	}
	fan := int(d.GetFanout())
	pad := len(fmt.Sprintf("%X", fan-1))
	// Positions of the ones of the bitfield (big endian).
	var ones []int
	bf := d.GetData()
	for i := range bf {
		b := bf[len(bf)-1-i]
		for j := 0; j < 8; j++ {
			if b>>uint(j)&1 == 1 {
				ones = append(ones, i*8+j)
			}
		}
	}
	sort.Ints(ones)
	slots := []M{}
	for i, l := range nd.Links() {
		bit := -1
		if i < len(ones) {
			bit = ones[i]
		}
		nm := -1
		label := ""
		if len(l.Name) >= pad {
			var x int
			if _, err := fmt.Sscanf(l.Name[:pad], "%X", &x); err == nil && fmt.Sprintf("%0*X", pad, x) == l.Name[:pad] {
				nm = x
			}
			label = l.Name[pad:]
		}
		if len(l.Name) > pad {
			id, ts := idOf(l)
			slots = append(slots, M{"bit": bit, "pre": nm, "k": "val", "name": nameOf(label), "id": id, "ts": ts, "c": M{"k": "none"}})
			continue
		}
		sub := M{"k": "bad", "tsok": false}
		if ch, ok := s.load(l.Cid); ok {
			sub = shardTree(s, ch, idOf, nameOf)
			// cumulative size
			if sub["k"] == "shard" {
				sub["tsok"] = clampU(l.Size) == sub["cum"].(int)
			}
		}
		slots = append(slots, M{"bit": bit, "pre": nm, "k": "shard", "name": 0, "id": 0, "ts": 0, "c": sub})
	}
	cum := len(n.RawData())
	for _, l := range nd.Links() {
		cum += clampU(l.Size)
	}
	return M{"k": "shard", "fan": fan, "nones": len(ones), "ht": clampU(d.GetHashType()), "slots": slots, "p": pfx(nd.Cid()), "cum": cum, "tsok": true}
}

func hexs(b []byte) string { return hex.EncodeToString(b) }
