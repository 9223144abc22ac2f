// Compares the contracts (rules and tables) with the boundaries ICU places
// around every code point (tools/crosscheck/seg.js). A developer tool: no
// check runs it.
// usage: crosscheck CONTRACTS DIR
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"unicode/utf16"

	"verif/gover/spec"
)

func main() {
	for _, g := range [][2]string{{"grapheme", "graphemes"}, {"word", "words"}, {"sentence", "sentences"}} {
		th, err := spec.Load(filepath.Join(os.Args[1], g[1]+".spec"))
		if err != nil {
			panic(err)
		}
		b, err := os.ReadFile(filepath.Join(os.Args[1], "tables", th.Table+".txt"))
		if err != nil {
			panic(err)
		}
		tab, err := spec.LoadTable(string(b), th.Bits)
		if err != nil {
			panic(err)
		}
		c, err := spec.Compile(th, tab)
		if err != nil {
			panic(err)
		}
		var diff []int32
		seen := map[int]bool{}
		total := 0
		for k := 0; ; k++ {
			t, err := os.ReadFile(fmt.Sprintf("%s/%s.%d.txt", os.Args[2], g[0], k))
			if err != nil {
				break
			}
			var pq [2]string
			json.Unmarshal(t, &pq)
			bs, err := os.ReadFile(fmt.Sprintf("%s/%s.%d.bin", os.Args[2], g[0], k))
			if err != nil {
				panic(err)
			}
			for r := rune(0); r < 0x110000; r++ {
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				s := pq[0] + string(r) + pq[1]
				x := c.Decode([]byte(s), len(s))
				m := uint16(1)
				for _, i := range c.Full(x) {
					if o := x.Offs[i]; o < len(s) {
						m |= 1 << uint(len(utf16.Encode([]rune(s[:o]))))
					}
				}
				total++
				if w := binary.LittleEndian.Uint16(bs[2*r:]); w != m {
					if !seen[int(r)] {
						seen[int(r)] = true
						diff = append(diff, r)
					}
				}
			}
		}
		fmt.Println(g[1], "texts", total, "code points that differ somewhere", len(diff))
		inDiff := map[int32]bool{}
		for _, r := range diff {
			inDiff[r] = true
		}
		for r := rune(0); r < 0x110000; r++ {
			if inDiff[r] {
				e := r
				for inDiff[e+1] {
					e++
				}
				fmt.Printf("  %04X..%04X\n", r, e)
				r = e
			}
		}
	}
}
