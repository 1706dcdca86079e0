package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/spaolacci/murmur3"
)

// Names with a chosen hash: murmur3 is invertible, so that for any 64 bits
// there are names of 16 bytes that hash to them. This reaches any shape of
// trie (deep paths, full collisions) without touching the hash function.

const (
	mc1 = 0x87c37b91114253d5
	mc2 = 0x4cf5ad432745937f
)

func inv64(a uint64) uint64 {
	x := a // Newton
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func rotl(x uint64, r uint) uint64 { return x<<r | x>>(64-r) }

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

func fmixInv(k uint64) uint64 {
	k ^= k >> 33
	k *= inv64(0xc4ceb9fe1a85ec53)
	k ^= k >> 33
	k *= inv64(0xff51afd7ed558ccd)
	k ^= k >> 33
	return k
}

func hash64(name string) uint64 {
	h := murmur3.New64()
	h.Write([]byte(name))
	return h.Sum64()
}

// nameWithHash returns a name of 16 bytes with the given hash.
func nameWithHash(target uint64, r *rand.Rand) string {
	b := r.Uint64()
	a := fmixInv(target - fmix(b))
	// a = h1+h2, b = h2+a
	h2 := b - a
	h1 := a - h2
	h1 ^= 16
	h2 ^= 16
	// Body.
	k2 := (h2 - 0x38495ab5) * inv64(5)
	k2 -= h1
	k2 = rotl(k2, 64-31)
	k2 *= inv64(mc1)
	k2 = rotl(k2, 64-33)
	k2 *= inv64(mc2)
	k1 := (h1 - 0x52dce729) * inv64(5)
	// h2 was zero when it was added
	k1 = rotl(k1, 64-27)
	k1 *= inv64(mc2)
	k1 = rotl(k1, 64-31)
	k1 *= inv64(mc1)
	out := make([]byte, 16)
	for i := 0; i < 8; i++ {
		out[i] = byte(k1 >> uint(8*i))
		out[8+i] = byte(k2 >> uint(8*i))
	}
	n := string(out)
	if hash64(n) != target {
		panic(harnessError("nameWithHash"))
	}
	return n
}

// hashBitsOf gives the bits of the hash, most significant first.
func hashBitsOf(name string) []int {
	h := hash64(name)
	return ints(64, func(i int) int { return int(h >> uint(63-i) & 1) })
}

// mkNames returns n different names of many sorts; lg is the number of bits
// per level of the trie the names are going to be used in.
func mkNames(r *rand.Rand, n, lg int, collide, empty bool) []string {
	seen := map[string]bool{}
	var out []string
	digits := map[uint64]bool{}
	add := func(s string) {
		// Unless asked for, no two names have all their digits in common.
		d := hash64(s) >> uint(64-lg*(64/lg))
		if !collide && digits[d] {
			return
		}
		if !seen[s] {
			digits[d] = true
			seen[s] = true
			out = append(out, s)
		}
	}
	// Prefixes shared by groups of names.
	pool := make([]uint64, 1+r.Intn(3))
	for i := range pool {
		pool[i] = r.Uint64()
	}
	if empty {
		add("")
	}
	for len(out) < n {
		switch k := r.Intn(10); {
		case k < 5:
			// The first bits are those of a group.
			lv := r.Intn(64/lg + 1)
			if r.Intn(2) == 0 {
				lv = r.Intn(4)
			}
			bits := uint(lv * lg)
			if r.Intn(6) == 0 {
				bits = uint(r.Intn(64))
			}
			h := r.Uint64()
			if bits > 0 {
				m := ^uint64(0) << (64 - bits)
				h = pool[r.Intn(len(pool))]&m | h&^m
			}
			if collide && r.Intn(3) == 0 {
				h = pool[0]
			}
			add(nameWithHash(h, r))
		case k == 5:
			add(fmt.Sprintf("%02X", r.Intn(256))) // like the prefixes of links
		case k == 6:
			add(fmt.Sprintf("%0*X%s", 1+r.Intn(3), r.Intn(16), string(rune('a'+r.Intn(26)))))
		case k == 7:
			b := make([]byte, 1+r.Intn(90))
			if r.Intn(5) == 0 {
				b = make([]byte, 200+r.Intn(200))
			}
			for i := range b {
				b[i] = byte('a' + r.Intn(26))
			}
			add(string(b))
		case k == 8:
			add([]string{"ü", "日本", "a b", "...", "%X", "\x00", "\xff", "00", "0", "000", "é", "🙂.txt"}[r.Intn(12)])
		default:
			if len(out) == 0 || r.Intn(2) == 0 {
				add(string(rune('a' + r.Intn(26))))
				break
			}
			// One that is almost another.
			s := out[r.Intn(len(out))]
			switch r.Intn(6) {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s = strings.ToLower(s)
			case 2:
				s += " "
			case 3:
				s = s[:len(s)-minI(1, len(s))]
			case 4:
				s += s
			case 5:
				s += "\x00"
			}
			if s != "" {
				add(s)
			}
		}
	}
	return out
}
