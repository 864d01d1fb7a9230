// C13: host-side Keccak padding.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	hostcommon "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/eng"
	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C13",
		Rule:        "every message length up to sixteen blocks and one, with contents that make every byte position distinguishable, stored in slices of every interesting spare capacity (none, one byte, up to the block end, beyond it) with a sentinel behind the message; both copies of the host padding are run, the caller's bytes and the sentinel are compared afterwards, and the padded bytes, bits and words are hashed block by block with a reference Keccak-f and compared with go-ethereum's Keccak-256",
		Assumptions: []string{"go-ethereum's Keccak-256 is the standard one"},
	}, run)
}

type pads struct {
	name   string
	bytes  func([]byte) []byte
	words  func([]byte) []uint64
	blocks func([]byte) []uint8
	bits   func([]byte) []uint8
	b2w    func([]byte) []uint64
}

func sponge(words []uint64) (h [32]byte) {
	var st [25]uint64
	for i, w := range words {
		st[i%17] ^= w
		if i%17 == 16 {
			eng.KeccakF(&st)
		}
	}
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(h[8*i:], st[i])
	}
	return
}

func run(c *mc.Ctx) {
	ps := []pads{
		{"gadgets/keccak", keccak.Pad101Bytes, keccak.Pad101, keccak.Bytes2BlockBits, keccak.Bytes2Bits, keccak.Bytes2Uint64s},
		{"common/circuits", hostcommon.Pad101Bytes, hostcommon.Pad101, hostcommon.Bytes2BlockBits, hostcommon.Bytes2Bits, hostcommon.Bytes2Uint64s},
	}
	max := mc.Pick(c, 136*16+1, 136*40+1)
	c.Each("padding", (max+1)*len(ps), func(i int) string { return fmt.Sprintf("%s len %d", ps[i%len(ps)].name, i/len(ps)) }, func(i int) string {
		p, n := ps[i%len(ps)], i/len(ps)
		toEnd := 136 - n%136
		for fill := 0; fill < mc.Pick(c, 3, 6); fill++ {
			for _, spare := range []int{0, 1, 2, toEnd - 1, toEnd, toEnd + 1, 200} {
				for wordsFn := 0; wordsFn < 2; wordsFn++ {
					back := make([]byte, n+spare)
					for k := range back {
						switch fill {
						case 0:
							back[k] = byte(k*7 + k/256 + 3)
						case 1:
							back[k] = 0
						case 2:
							back[k] = 0xff
						default:
							back[k] = byte((k + 1) * (k + fill) >> 2)
						}
					}
					orig := append([]byte{}, back...)
					msg := back[:n]
					c.State(1)
					c.Trans(n/136 + 1)
					var out []byte
					if wordsFn == 1 {
						for _, w := range p.words(msg) {
							out = binary.LittleEndian.AppendUint64(out, w)
						}
					} else {
						out = p.bytes(msg)
					}
					if !bytes.Equal(back, orig) {
						return fmt.Sprintf("spare capacity %d: the caller's memory was changed", spare)
					}
					// the definition
					want := append(append([]byte{}, msg...), make([]byte, toEnd)...)
					want[n] ^= 1
					want[len(want)-1] ^= 0x80
					if !bytes.Equal(out, want) {
						return fmt.Sprintf("spare %d fill %d words %d: padded to %x", spare, fill, wordsFn, out)
					}
					// writing to the result must not reach the caller either
					for k := range out {
						out[k] ^= 0x55
					}
					if !bytes.Equal(back, orig) {
						return fmt.Sprintf("spare capacity %d: the result shares memory with the caller's", spare)
					}
					if spare != 0 || wordsFn == 1 {
						continue
					}
					h := sponge(p.words(msg))
					if !bytes.Equal(h[:], crypto.Keccak256(msg)) {
						return fmt.Sprintf("fill %d: blocks hash to %x", fill, h)
					}
					bb := p.blocks(want)
					if len(bb) != 8*len(want) {
						return "wrong number of bits"
					}
					for k := range bb {
						if bb[k] != want[k/8]>>(k%8)&1 {
							return fmt.Sprintf("bit %d is %d", k, bb[k])
						}
					}
					if g := p.bits(want); !bytes.Equal(g, bb) {
						return "Bytes2Bits differs from Bytes2BlockBits"
					}
					for k, w := range p.b2w(want) {
						if w != binary.LittleEndian.Uint64(want[8*k:]) {
							return fmt.Sprintf("word %d is %x", k, w)
						}
					}
					if g := keccak.GetKeccakRoundForPaddedBytes(want); g != n/136 {
						return fmt.Sprintf("round of the padded bytes is %d", g)
					}
					if g := keccak.GetRoundIndex(8 * n); g != n/136 {
						return fmt.Sprintf("round index is %d", g)
					}
					if ws := keccak.Pad101(msg); len(ws) <= keccak.MAX_ROUNDS*17 {
						bl := keccak.Uint64s2Blocks(ws)
						for r := range bl {
							for k := range bl[r] {
								want := uint64(0)
								if 17*r+k < len(ws) {
									want = ws[17*r+k]
								}
								if g := fmt.Sprint(bl[r][k]); g != fmt.Sprint(want) {
									return fmt.Sprintf("block %d word %d is %s", r, k, g)
								}
							}
						}
					}
				}
			}
		}
		return ""
	})
	// every byte value at every bit
	c.Each("byte bits", 256, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		for pos := 0; pos < 8; pos++ {
			b := make([]byte, 8)
			b[pos] = byte(i)
			for _, p := range ps {
				c.State(1)
				bits := p.bits(b)
				for k := range bits {
					if bits[k] != b[k/8]>>(k%8)&1 {
						return fmt.Sprintf("%s: bit %d", p.name, k)
					}
				}
				w := p.b2w(b)
				if len(w) != 1 || w[0] != binary.LittleEndian.Uint64(b) {
					return fmt.Sprintf("%s: word %x", p.name, w)
				}
			}
			if hostcommon.Bytes2Uint64(b) != binary.LittleEndian.Uint64(b) || keccak.Bytes2Uint64(b) != binary.LittleEndian.Uint64(b) {
				return "Bytes2Uint64"
			}
		}
		return ""
	})
}
