// extreme N searches the keys SHA3-256("extreme" || counter), counter < N, for
// those whose derived values are the most extreme ones, and writes the table
// mc/extreme_table.go to standard output.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"verifharness/ref"
)

var values = []string{"scalar", "prefix", "public", "nonce", "R", "challenge", "S", "shared"}

type metric struct {
	name string
	f    func(b []byte) []byte // larger is more extreme
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func inv(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = ^b[i]
	}
	return r
}

func run(b []byte, bit byte) []byte {
	best, cur, at := 0, 0, 0
	for i := 0; i < 8*len(b); i++ {
		if b[i/8]>>(i%8)&1 == bit {
			cur++
			if cur > best {
				best, at = cur, i
			}
		} else {
			cur = 0
		}
	}
	return []byte{byte(best), byte(at)}
}

func count(b []byte, f func(x byte) bool) []byte {
	n := 0
	for _, x := range b {
		if f(x) {
			n++
		}
	}
	return []byte{byte(n)}
}

var metrics = []metric{
	{"low end zero", func(b []byte) []byte { return inv(b) }},
	{"low end ones", func(b []byte) []byte { return b }},
	{"high end zero", func(b []byte) []byte { return inv(rev(b)) }},
	{"high end ones", func(b []byte) []byte { return rev(b) }},
	{"run of zero bits", func(b []byte) []byte { return run(b, 0) }},
	{"run of one bits", func(b []byte) []byte { return run(b, 1) }},
	{"zero bytes", func(b []byte) []byte { return count(b, func(x byte) bool { return x == 0 }) }},
	{"bytes 255", func(b []byte) []byte { return count(b, func(x byte) bool { return x == 255 }) }},
	{"bytes with the high bit", func(b []byte) []byte { return count(b, func(x byte) bool { return x >= 128 }) }},
	{"bytes without the high bit", func(b []byte) []byte { return count(b, func(x byte) bool { return x < 128 }) }},
	{"equal bytes", func(b []byte) []byte {
		var n [256]byte
		m := byte(0)
		for _, x := range b {
			if n[x]++; n[x] > m {
				m = n[x]
			}
		}
		return []byte{m}
	}},
}

// Key is the key with a number.
func Key(n uint32) []byte {
	return ref.SHA3_256(binary.BigEndian.AppendUint32([]byte("extreme"), n))
}

type best struct {
	n uint32
	v []byte
}

func main() {
	N, _ := strconv.Atoi(os.Args[1])
	msg := []byte("a message for extreme keys")
	q, _ := ref.Clamped(ref.SHA3_512, Key(1<<31))
	W := runtime.NumCPU()
	res := make([]map[string]best, W)
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := map[string]best{}
			for n := w; n < N; n += W {
				k := Key(uint32(n))
				a, pre := ref.Clamped(ref.SHA3_512, k)
				pub := ref.BaseMul(a).Encode()
				r := new(big.Int).Mod(ref.LE(ref.SHA3_512(pre, msg)), ref.L)
				R := ref.BaseMul(r).Encode()
				h := new(big.Int).Mod(ref.LE(ref.SHA3_512(R, pub, msg)), ref.L)
				s := new(big.Int).Mul(h, a)
				s.Mod(s.Add(s, r), ref.L)
				sh := ref.BaseMul(new(big.Int).Mod(new(big.Int).Mul(a, q), ref.L)).Encode()
				vs := [][]byte{ref.ToLE(a, 32), pre, pub, ref.ToLE(r, 32), R, ref.ToLE(h, 32), ref.ToLE(s, 32), sh}
				for i, v := range vs {
					for _, me := range metrics {
						id := values[i] + ": " + me.name
						x := me.f(v)
						if o, ok := m[id]; !ok || bytes.Compare(x, o.v) > 0 {
							m[id] = best{uint32(n), x}
						}
					}
				}
			}
			res[w] = m
		}()
	}
	wg.Wait()
	all := map[string]best{}
	for _, m := range res {
		for id, b := range m {
			o, ok := all[id]
			c := bytes.Compare(b.v, o.v)
			if !ok || c > 0 || c == 0 && b.n < o.n {
				all[id] = b
			}
		}
	}
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Printf("package main\n\n// Written by tools/extreme %d.\nvar extremeTable = []extremeEntry{\n", N)
	for _, id := range ids {
		fmt.Printf("\t{%d, %q},\n", all[id].n, id)
	}
	fmt.Println("}")
}
