package lib

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"

	"github.com/cespare/xxhash/v2"
)

// Collide gives two texts that differ, and have the same 64 bit xxhash when
// prefix comes before them: the eight bytes that the first lane takes from one
// stripe make up for those that it has taken from the stripe before. All bytes
// are letters, digits or punctuation.
func Collide(prefix string) (a, b string) {
	const p1, p2 = 11400714785074694791, 14029467366897019727
	inv := uint64(p2) // of p2, modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - p2*inv
	}
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	pad := strings.Repeat("-", (32-len(prefix)%32)%32)
	head := prefix + pad
	one, two := uint64(p1), uint64(p2) // their sum is the first state
	acc := one + two
	for i := 0; i < len(head); i += 32 {
		acc = round(acc, binary.LittleEndian.Uint64([]byte(head[i:])))
	}
	le := binary.LittleEndian.Uint64
	make_ := func(x, y uint64) string {
		var o [64]byte
		for i := range o {
			o[i] = '.'
		}
		binary.LittleEndian.PutUint64(o[0:], x)
		binary.LittleEndian.PutUint64(o[32:], y)
		return pad + string(o[:])
	}
	x, y := le([]byte("aaaaaaaa")), le([]byte("bbbbbbbb"))
	want := round(acc, x)
	for i := 0; i < 100_000_000; i++ {
		u := le([]byte(fmt.Sprintf("%08d", i)))
		v := y + (want-round(acc, u))*inv
		ok := true
		for k := 0; k < 64; k += 8 {
			c := byte(v >> k)
			ok = ok && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&()+,-.;<>?@[]^_{|}~", c) >= 0)
		}
		if ok {
			a, b = make_(x, y), make_(u, v)
			if a == b || xxhash.Sum64String(prefix+a) != xxhash.Sum64String(prefix+b) {
				panic("not a collision")
			}
			return
		}
	}
	panic("no collision")
}
