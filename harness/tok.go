package main

import "bytes"

// Contents are sequences of tokens, each of which stands for a unit of U bytes
// filled with a pattern given by the token. Token 0 is all zeros.
func unitBytes(t, u int) []byte {
	b := make([]byte, u)
	if t == 0 {
		return b
	}
	if u == 1 {
		b[0] = byte(t)
		return b
	}
	for j := range b {
		b[j] = byte((t*37+j*11+(j>>8)*5)%255) + 1
	}
	return b
}

func enc(ts []int, u int) []byte {
	out := make([]byte, 0, len(ts)*u)
	for _, t := range ts {
		out = append(out, unitBytes(t, u)...)
	}
	return out
}

// dec is the inverse of enc: -1 for units which are not a token, and -2 for an
// incomplete unit at the end.
func dec(b []byte, u int) []int {
	ts := make([]int, 0, len(b)/u+1)
	for len(b) >= u {
		x := b[:u]
		b = b[u:]
		if u == 1 {
			ts = append(ts, int(x[0]))
			continue
		}
		t := -1
		if x[0] == 0 {
			if bytes.Equal(x, make([]byte, u)) {
				t = 0
			}
		} else {
			// (t*37)%255 == x[0]-1; 37 is invertible modulo 255 (37*193 = 7141 = 28*255+1)
			k := (int(x[0]) - 1) * 193 % 255
			if k != 0 && bytes.Equal(x, unitBytes(k, u)) {
				t = k
			}
		}
		ts = append(ts, t)
	}
	if len(b) > 0 {
		ts = append(ts, -2)
	}
	return ts
}

func ints(n int, f func(i int) int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

// seqTok returns n tokens continuing a running counter in 1..250.
type tokGen struct{ next int }

func (g *tokGen) take(n int) []int {
	return ints(n, func(int) int {
		g.next = g.next%250 + 1
		return g.next
	})
}

const big = 1 << 30

// clampU keeps numbers within what TLC can represent.
func clampU(x uint64) int {
	if x > big {
		return big
	}
	return int(x)
}

func clampI(x int64) int {
	if x > big {
		return big
	}
	if x < -big {
		return -big
	}
	return int(x)
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}
