package refqr

import (
	"math/rand"
	"strings"
	"testing"
)

func text(mode, n int, r *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b.WriteByte(byte('0' + r.Intn(10)))
		case 1:
			b.WriteByte("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"[r.Intn(45)])
		case 2:
			b.WriteByte(byte(r.Intn(256)))
		case 3:
			k := KanjiRunes()
			b.WriteRune(k[r.Intn(len(k))])
		}
	}
	return b.String()
}

func TestRoundTrip(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for ver := 1; ver <= 40; ver++ {
		for ec := 0; ec < 4; ec++ {
			for m := 0; m < 4; m++ {
				mode := []int{Numeric, Alnum, Byte, Kanji}[m]
				c := Capacity(mode, ver, ec)
				for _, n := range []int{0, 1, c - 1, c} {
					s := text(m, n, r)
					mask := r.Intn(8)
					bm, err := Build(s, mode, ver, ec, mask)
					if err != nil {
						t.Fatal(ver, ec, m, n, err)
					}
					sy, err := Read(bm, true)
					if err != nil {
						t.Fatal(ver, ec, m, n, err)
					}
					if sy.Text != s || sy.Ver != ver || sy.EC != ec || sy.Mask != mask || len(sy.Problems) > 0 || sy.Corrected != 0 {
						t.Fatalf("%d %d %d %d: %v %v %d", ver, ec, m, n, sy.Problems, sy.Text == s, sy.Corrected)
					}
				}
				if _, err := Build(text(m, c+1, r), mode, ver, ec, 0); err == nil {
					t.Fatal("over capacity accepted", ver, ec, m)
				}
			}
		}
	}
}

func TestDamage(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	for ver := 1; ver <= 40; ver++ {
		for ec := 0; ec < 4; ec++ {
			s := text(2, Capacity(Byte, ver, ec), r)
			bm, _ := Build(s, Byte, ver, ec, r.Intn(8))
			blk := CodewordBlock(ver, ec)
			nb := NumBlocks(ver, ec)
			left := make([]int, nb)
			for i := range left {
				left[i] = Correctable(ver, ec)
			}
			want := 0
			for _, i := range r.Perm(len(blk)) {
				if left[blk[i]] > 0 {
					left[blk[i]]--
					want++
					x := 1 + r.Intn(255)
					for b, c := range CodewordModules(ver, i) {
						if x>>b&1 == 1 {
							bm[c[1]][c[0]] = !bm[c[1]][c[0]]
						}
					}
				}
			}
			sy, err := Read(bm, false)
			if err != nil || sy.Text != s || sy.Corrected != want {
				t.Fatal(ver, ec, err, want)
			}
		}
	}
}
