// Package refqr is a reference model of QR code (ISO/IEC 18004) symbols: it
// reads symbols, checks their conformance and builds them. It is written from
// the standard and shares nothing with the code under test.
package refqr

import (
	"errors"
	"fmt"
	"strconv"
	"unicode/utf8"
)

// EC levels, in the order of the standard's tables.
const (
	L = iota
	M
	Q
	H
)

// Mode indicators.
const (
	Numeric = 1
	Alnum   = 2
	Byte    = 4
	Kanji   = 8
)

var eccPerBlock = [4][41]int{
	{0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

var numBlocks = [4][41]int{
	{0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

// Dim is the number of modules per side.
func Dim(ver int) int { return 17 + 4*ver }

// rawModules counts the modules available to codewords and remainder bits.
func rawModules(ver int) int {
	r := (16*ver+128)*ver + 64
	if ver >= 2 {
		n := ver/7 + 2
		r -= (25*n-10)*n - 55
		if ver >= 7 {
			r -= 36
		}
	}
	return r
}

// DataCodewords is the data capacity in codewords.
func DataCodewords(ver, ec int) int {
	return rawModules(ver)/8 - eccPerBlock[ec][ver]*numBlocks[ec][ver]
}

func countBits(mode, ver int) int {
	i := 0
	if ver >= 27 {
		i = 2
	} else if ver >= 10 {
		i = 1
	}
	switch mode {
	case Numeric:
		return []int{10, 12, 14}[i]
	case Alnum:
		return []int{9, 11, 13}[i]
	case Byte:
		return []int{8, 16, 16}[i]
	default:
		return []int{8, 10, 12}[i]
	}
}

// payloadBits is the size of n characters (bytes in byte mode) in a mode.
func payloadBits(mode, n int) int {
	switch mode {
	case Numeric:
		return n/3*10 + []int{0, 4, 7}[n%3]
	case Alnum:
		return n/2*11 + n%2*6
	case Byte:
		return n * 8
	default:
		return n * 13
	}
}

// Fits reports whether n characters fit into one segment of a symbol.
func Fits(mode, n, ver, ec int) bool {
	cb := countBits(mode, ver)
	return n < 1<<cb && 4+cb+payloadBits(mode, n) <= DataCodewords(ver, ec)*8
}

// Capacity is the largest number of characters of one segment.
func Capacity(mode, ver, ec int) int {
	lo, hi := 0, 8000
	for lo < hi {
		m := (lo + hi + 1) / 2
		if Fits(mode, m, ver, ec) {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

// Smallest is the smallest version that takes n characters, 0 if none does.
func Smallest(mode, n, ec int) int {
	for v := 1; v <= 40; v++ {
		if Fits(mode, n, v, ec) {
			return v
		}
	}
	return 0
}

const alnumChars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

var (
	kanjiToRune = map[int]rune{}
	runeToKanji = map[rune]int{}
)

func init() {
	for i := 0; i+8 <= len(sjis); i += 8 {
		c, _ := strconv.ParseUint(sjis[i:i+4], 16, 32)
		r, _ := strconv.ParseUint(sjis[i+4:i+8], 16, 32)
		kanjiToRune[int(c)] = rune(r)
		runeToKanji[rune(r)] = int(c)
	}
}

// AllKanjiRunes lists the characters of kanji mode.
func AllKanjiRunes() []rune {
	var out []rune
	for i := 0; i+8 <= len(sjis); i += 8 {
		r, _ := strconv.ParseUint(sjis[i+4:i+8], 16, 32)
		if _, ok := runeToKanji[rune(r)]; ok {
			out = append(out, rune(r))
		}
	}
	return out
}

// KanjiRunes lists CJK ideographs of kanji mode.
func KanjiRunes() []rune {
	var out []rune
	for _, r := range AllKanjiRunes() {
		if r >= 0x4e00 && r <= 0x9fff {
			out = append(out, r)
		}
	}
	return out
}

// IsKanji reports whether r can be written in kanji mode.
func IsKanji(r rune) bool { _, ok := runeToKanji[r]; return ok }

// IsAlnum reports whether r is in the alphanumeric set.
func IsAlnum(r rune) bool {
	for _, c := range alnumChars {
		if c == r {
			return true
		}
	}
	return false
}

// Encodable reports whether s can be written in mode.
func Encodable(mode int, s string) bool {
	switch mode {
	case Byte:
		return true
	}
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		ok := false
		switch mode {
		case Numeric:
			ok = r >= '0' && r <= '9'
		case Alnum:
			ok = IsAlnum(r)
		case Kanji:
			ok = IsKanji(r)
		}
		if !ok {
			return false
		}
	}
	return true
}

// Chars counts s the way mode does.
func Chars(mode int, s string) int {
	if mode == Byte {
		return len(s)
	}
	return utf8.RuneCountInString(s)
}

// ---- GF(256) ----

var gexp [512]byte
var glog [256]int

func init() {
	x := 1
	for i := 0; i < 255; i++ {
		gexp[i] = byte(x)
		glog[x] = i
		x <<= 1
		if x&0x100 != 0 {
			x ^= 0x11d
		}
	}
	for i := 255; i < 512; i++ {
		gexp[i] = gexp[i-255]
	}
}

func mul(a, b byte) byte {
	if a == 0 || b == 0 {
		return 0
	}
	return gexp[glog[a]+glog[b]]
}
func inv(a byte) byte { return gexp[255-glog[a]] }

func rsGen(n int) []byte {
	g := []byte{1}
	for i := 0; i < n; i++ {
		ng := make([]byte, len(g)+1)
		for j, c := range g {
			ng[j] ^= c
			ng[j+1] ^= mul(c, gexp[i])
		}
		g = ng
	}
	return g
}

func rsEncode(data []byte, n int) []byte {
	g := rsGen(n)
	rem := make([]byte, n)
	for _, d := range data {
		f := d ^ rem[0]
		copy(rem, rem[1:])
		rem[n-1] = 0
		for j := 0; j < n; j++ {
			rem[j] ^= mul(g[j+1], f)
		}
	}
	return rem
}

func syndromes(cw []byte, n int) ([]byte, bool) {
	s := make([]byte, n)
	zero := true
	for i := 0; i < n; i++ {
		var v byte
		for _, c := range cw {
			v = mul(v, gexp[i]) ^ c
		}
		s[i] = v
		if v != 0 {
			zero = false
		}
	}
	return s, zero
}

var errRS = errors.New("uncorrectable block")

// rsCorrect repairs up to n/2 wrong codewords in place.
func rsCorrect(cw []byte, n int) (int, error) {
	s, zero := syndromes(cw, n)
	if zero {
		return 0, nil
	}
	// Berlekamp-Massey
	c, b := []byte{1}, []byte{1}
	l, m := 0, 1
	bb := byte(1)
	for i := 0; i < n; i++ {
		d := s[i]
		for j := 1; j <= l && j < len(c); j++ {
			d ^= mul(c[j], s[i-j])
		}
		if d == 0 {
			m++
			continue
		}
		t := append([]byte(nil), c...)
		f := mul(d, inv(bb))
		for len(c) < len(b)+m {
			c = append(c, 0)
		}
		for j := range b {
			c[j+m] ^= mul(f, b[j])
		}
		if 2*l <= i {
			l, b, bb, m = i+1-l, t, d, 1
		} else {
			m++
		}
	}
	if l > n/2 {
		return 0, errRS
	}
	// roots
	var pos []int
	for i := 0; i < len(cw); i++ {
		// position i has locator alpha^(len-1-i)
		x := gexp[(255-(len(cw)-1-i)%255)%255]
		var v byte
		for j := len(c) - 1; j >= 0; j-- {
			v = mul(v, x) ^ c[j]
		}
		if v == 0 {
			pos = append(pos, i)
		}
	}
	if len(pos) != l {
		return 0, errRS
	}
	// Forney with fcr 0
	om := make([]byte, n)
	for i := 0; i < n; i++ {
		for j := 0; j <= i && j < len(c); j++ {
			om[i] ^= mul(c[j], s[i-j])
		}
	}
	for _, p := range pos {
		e := (len(cw) - 1 - p) % 255
		xi := gexp[(255-e)%255]
		var o, dv byte
		for j := n - 1; j >= 0; j-- {
			o = mul(o, xi) ^ om[j]
		}
		for j := 1; j < len(c); j += 2 {
			t := c[j]
			for k := 0; k < j-1; k++ {
				t = mul(t, xi)
			}
			dv ^= t
		}
		if dv == 0 {
			return 0, errRS
		}
		cw[p] ^= mul(gexp[e], mul(o, inv(dv)))
	}
	if _, zero := syndromes(cw, n); !zero {
		return 0, errRS
	}
	return l, nil
}

// ---- layout ----

// AlignPos lists the alignment pattern coordinates.
func AlignPos(ver int) []int {
	if ver == 1 {
		return nil
	}
	n := ver/7 + 2
	step := 26
	if ver != 32 {
		step = (ver*4 + n*2 + 1) / (n*2 - 2) * 2
	}
	out := make([]int, n)
	out[0] = 6
	for i, p := n-1, Dim(ver)-7; i >= 1; i, p = i-1, p-step {
		out[i] = p
	}
	return out
}

// Kinds of function modules.
const (
	KData = iota
	KFinder
	KSep
	KTiming
	KAlign
	KDark
	KFormat
	KVersion
)

// Layout describes the function patterns of a version: kind and, for the fixed
// ones, colour. Coordinates are [y][x].
type Layout struct {
	Ver   int
	N     int
	Kind  [][]uint8
	Color [][]bool
	order [][2]int // data module coordinates (x,y) in placement order
}

var layouts [41]*Layout

func init() {
	for v := 1; v <= 40; v++ {
		layouts[v] = makeLayout(v)
	}
}

// LayoutOf returns the layout of a version.
func LayoutOf(ver int) *Layout { return layouts[ver] }

func makeLayout(ver int) *Layout {
	n := Dim(ver)
	l := &Layout{Ver: ver, N: n}
	for i := 0; i < n; i++ {
		l.Kind = append(l.Kind, make([]uint8, n))
		l.Color = append(l.Color, make([]bool, n))
	}
	set := func(x, y int, k uint8, c bool) {
		if x >= 0 && y >= 0 && x < n && y < n {
			l.Kind[y][x] = k
			l.Color[y][x] = c
		}
	}
	for i := 0; i < n; i++ {
		set(i, 6, KTiming, i%2 == 0)
		set(6, i, KTiming, i%2 == 0)
	}
	for _, c := range [][2]int{{3, 3}, {n - 4, 3}, {3, n - 4}} {
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				d := max(abs(dx), abs(dy))
				if d == 4 {
					set(c[0]+dx, c[1]+dy, KSep, false)
				} else {
					set(c[0]+dx, c[1]+dy, KFinder, d != 2)
				}
			}
		}
	}
	ap := AlignPos(ver)
	for i, ay := range ap {
		for j, ax := range ap {
			if (i == 0 && j == 0) || (i == 0 && j == len(ap)-1) || (i == len(ap)-1 && j == 0) {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					set(ax+dx, ay+dy, KAlign, max(abs(dx), abs(dy)) != 1)
				}
			}
		}
	}
	for _, a := range [][15][2]int{formatCells(n, 0), formatCells(n, 1)} {
		for _, c := range a {
			set(c[0], c[1], KFormat, false)
		}
	}
	set(8, n-8, KDark, true)
	if ver >= 7 {
		for i := 0; i < 18; i++ {
			set(n-11+i%3, i/3, KVersion, false)
			set(i/3, n-11+i%3, KVersion, false)
		}
	}
	up := true
	for x := n - 1; x > 0; x -= 2 {
		if x == 6 {
			x--
		}
		for k := 0; k < n; k++ {
			y := k
			if up {
				y = n - 1 - k
			}
			for _, xx := range []int{x, x - 1} {
				if l.Kind[y][xx] == KData {
					l.order = append(l.order, [2]int{xx, y})
				}
			}
		}
		up = !up
	}
	return l
}

// formatCells lists the coordinates of the format bits, bit 0 (least significant) first.
func formatCells(n, copyNo int) (c [15][2]int) {
	if copyNo == 0 {
		for i := 0; i <= 5; i++ {
			c[i] = [2]int{8, i}
		}
		c[6] = [2]int{8, 7}
		c[7] = [2]int{8, 8}
		c[8] = [2]int{7, 8}
		for i := 9; i < 15; i++ {
			c[i] = [2]int{14 - i, 8}
		}
		return
	}
	for i := 0; i < 8; i++ {
		c[i] = [2]int{n - 1 - i, 8}
	}
	for i := 8; i < 15; i++ {
		c[i] = [2]int{8, n - 15 + i}
	}
	return
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// FormatBits is the 15-bit format information.
func FormatBits(ec, mask int) int {
	d := []int{1, 0, 3, 2}[ec]<<3 | mask
	rem := d
	for i := 0; i < 10; i++ {
		rem = rem<<1 ^ (rem>>9)*0x537
	}
	return (d<<10 | rem) ^ 0x5412
}

// VersionBits is the 18-bit version information.
func VersionBits(ver int) int {
	rem := ver
	for i := 0; i < 12; i++ {
		rem = rem<<1 ^ (rem>>11)*0x1f25
	}
	return ver<<12 | rem
}

// MaskBit reports whether mask m inverts the module at column x, row y.
func MaskBit(m, x, y int) bool {
	switch m {
	case 0:
		return (x+y)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (x+y)%3 == 0
	case 4:
		return (x/3+y/2)%2 == 0
	case 5:
		return x*y%2+x*y%3 == 0
	case 6:
		return (x*y%2+x*y%3)%2 == 0
	default:
		return ((x+y)%2+x*y%3)%2 == 0
	}
}

// ---- reading ----

// Segment of the data.
type Segment struct {
	Mode  int
	Chars int
}

// Symbol is what a reader finds.
type Symbol struct {
	Ver, EC, Mask int
	Text          string
	Segments      []Segment
	Corrected     int
	Data          []byte // data codewords
	Problems      []string
}

func popcount(x int) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

// Read decodes a symbol as a reader does, correcting errors. Strict adds every
// departure from the standard to Problems.
func Read(bm [][]bool, strict bool) (*Symbol, error) {
	n := len(bm)
	if n < 21 || n > 177 || (n-17)%4 != 0 {
		return nil, fmt.Errorf("%d rows of modules is no QR code size", n)
	}
	for i := range bm {
		if len(bm[i]) != n {
			return nil, fmt.Errorf("row %d has %d modules of %d", i, len(bm[i]), n)
		}
	}
	s := &Symbol{Ver: (n - 17) / 4}
	lay := layouts[s.Ver]
	prob := func(f string, a ...any) {
		if len(s.Problems) < 8 {
			s.Problems = append(s.Problems, fmt.Sprintf(f, a...))
		}
	}
	// version information
	if s.Ver >= 7 {
		want := VersionBits(s.Ver)
		good := false
		for c := 0; c < 2; c++ {
			got := 0
			for i := 0; i < 18; i++ {
				x, y := n-11+i%3, i/3
				if c == 1 {
					x, y = y, x
				}
				if bm[y][x] {
					got |= 1 << i
				}
			}
			if got != want {
				prob("version information copy %d is %#x, want %#x", c+1, got, want)
			}
			best, bd := 0, 99
			for v := 7; v <= 40; v++ {
				if d := popcount(got ^ VersionBits(v)); d < bd {
					best, bd = v, d
				}
			}
			if bd <= 3 && best == s.Ver {
				good = true
			}
		}
		if !good {
			return s, errors.New("version information unreadable")
		}
	}
	// format information
	best, bd := -1, 99
	for c := 0; c < 2; c++ {
		got := 0
		for i, p := range formatCells(n, c) {
			if bm[p[1]][p[0]] {
				got |= 1 << i
			}
		}
		for f := 0; f < 32; f++ {
			if d := popcount(got ^ FormatBits(f>>3, f&7)); d < bd {
				best, bd = f, d
			}
		}
	}
	if bd > 3 {
		return s, errors.New("format information unreadable")
	}
	s.EC, s.Mask = best>>3, best&7
	fb := FormatBits(s.EC, s.Mask)
	for c := 0; c < 2; c++ {
		for i, p := range formatCells(n, c) {
			if bm[p[1]][p[0]] != (fb>>i&1 == 1) {
				prob("format information copy %d bit %d is wrong", c+1, i)
			}
		}
	}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			switch lay.Kind[y][x] {
			case KFinder, KSep, KTiming, KAlign, KDark:
				if bm[y][x] != lay.Color[y][x] {
					prob("function module at column %d row %d has the wrong colour", x, y)
				}
			}
		}
	}
	// codewords
	total := rawModules(s.Ver) / 8
	raw := make([]byte, total)
	for i, p := range lay.order {
		b := bm[p[1]][p[0]] != MaskBit(s.Mask, p[0], p[1])
		if i >= total*8 {
			if b {
				prob("remainder bit %d is set", i-total*8)
			}
			continue
		}
		if b {
			raw[i/8] |= 0x80 >> (i % 8)
		}
	}
	blocks := deinterleave(raw, s.Ver, s.EC)
	ecn := eccPerBlock[s.EC][s.Ver]
	for i, b := range blocks {
		k, err := rsCorrect(b, ecn)
		if err != nil {
			return s, fmt.Errorf("block %d: %v", i+1, err)
		}
		if k > 0 {
			prob("block %d has %d wrong codewords", i+1, k)
		}
		s.Corrected += k
		s.Data = append(s.Data, b[:len(b)-ecn]...)
	}
	if err := s.parse(prob); err != nil {
		return s, err
	}
	if !strict {
		s.Problems = nil
	}
	return s, nil
}

func deinterleave(raw []byte, ver, ec int) [][]byte {
	nb, ecn := numBlocks[ec][ver], eccPerBlock[ec][ver]
	total := len(raw)
	short := nb - total%nb
	slen := total / nb
	blocks := make([][]byte, nb)
	k := 0
	for i := 0; i < slen+1-ecn; i++ {
		for b := 0; b < nb; b++ {
			dl := slen - ecn
			if b >= short {
				dl++
			}
			if i < dl {
				blocks[b] = append(blocks[b], raw[k])
				k++
			}
		}
	}
	for i := 0; i < ecn; i++ {
		for b := 0; b < nb; b++ {
			blocks[b] = append(blocks[b], raw[k])
			k++
		}
	}
	return blocks
}

// CodewordBlock tells to which block every codeword of the stream belongs.
func CodewordBlock(ver, ec int) []int {
	nb, ecn := numBlocks[ec][ver], eccPerBlock[ec][ver]
	total := rawModules(ver) / 8
	short := nb - total%nb
	slen := total / nb
	var out []int
	for i := 0; i < slen+1-ecn; i++ {
		for b := 0; b < nb; b++ {
			dl := slen - ecn
			if b >= short {
				dl++
			}
			if i < dl {
				out = append(out, b)
			}
		}
	}
	for i := 0; i < ecn; i++ {
		for b := 0; b < nb; b++ {
			out = append(out, b)
		}
	}
	return out
}

// CodewordModules lists the modules (x, y) of codeword i.
func CodewordModules(ver, i int) [][2]int { return layouts[ver].order[i*8 : i*8+8] }

// PatternText gives the bytes whose symbol shows dark at (x, y) where the data
// codewords lie and mask m is applied, as far as the text fills them.
func PatternText(ver, ec, m int, dark func(x, y int) bool) []byte {
	raw := make([]byte, rawModules(ver)/8)
	for i := range raw {
		for _, p := range CodewordModules(ver, i) {
			raw[i] <<= 1
			if dark(p[0], p[1]) != MaskBit(m, p[0], p[1]) {
				raw[i] |= 1
			}
		}
	}
	var data []byte
	for _, b := range deinterleave(raw, ver, ec) {
		data = append(data, b[:len(b)-eccPerBlock[ec][ver]]...)
	}
	r := &bits{b: data}
	r.get(4 + countBits(Byte, ver))
	text := make([]byte, Capacity(Byte, ver, ec))
	for i := range text {
		text[i] = byte(r.get(8))
	}
	return text
}

// Correctable is the number of wrong codewords a block survives.
func Correctable(ver, ec int) int {
	p := 0
	switch {
	case ver == 1 && ec == L:
		p = 3
	case ver == 1 && ec == M, ver == 2 && ec == L:
		p = 2
	case ver == 1 && (ec == Q || ec == H), ver == 3 && ec == L:
		p = 1
	}
	return (eccPerBlock[ec][ver] - p) / 2
}

// NumBlocks is the number of error correction blocks.
func NumBlocks(ver, ec int) int { return numBlocks[ec][ver] }

// FormatDistance is the smallest number of bits in which got differs from
// valid format information.
func FormatDistance(got int) int {
	d := 99
	for f := 0; f < 32; f++ {
		d = min(d, popcount(got^FormatBits(f>>3, f&7)))
	}
	return d
}

// VersionDistance is the same for version information.
func VersionDistance(got int) int {
	d := 99
	for v := 7; v <= 40; v++ {
		d = min(d, popcount(got^VersionBits(v)))
	}
	return d
}

// FormatModules lists the modules of one copy of the format information.
func FormatModules(ver, c int) [][2]int {
	f := formatCells(Dim(ver), c)
	return f[:]
}

// VersionModules lists the modules of one copy of the version information.
func VersionModules(ver, c int) [][2]int {
	if ver < 7 {
		return nil
	}
	n := Dim(ver)
	var out [][2]int
	for i := 0; i < 18; i++ {
		x, y := n-11+i%3, i/3
		if c == 1 {
			x, y = y, x
		}
		out = append(out, [2]int{x, y})
	}
	return out
}

type bits struct {
	b   []byte
	pos int
}

func (r *bits) left() int { return len(r.b)*8 - r.pos }
func (r *bits) get(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | int(r.b[r.pos/8]>>(7-r.pos%8)&1)
		r.pos++
	}
	return v
}

func (s *Symbol) parse(prob func(string, ...any)) error {
	r := &bits{b: s.Data}
	var text []byte
	for {
		if r.left() < 4 {
			if k := r.left(); k > 0 && r.get(k) != 0 {
				prob("truncated terminator is not zero")
			}
			break
		}
		mode := r.get(4)
		if mode == 0 {
			break
		}
		if mode != Numeric && mode != Alnum && mode != Byte && mode != Kanji {
			return fmt.Errorf("unexpected mode indicator %d", mode)
		}
		cb := countBits(mode, s.Ver)
		if r.left() < cb {
			return errors.New("character count cut off")
		}
		n := r.get(cb)
		if r.left() < payloadBits(mode, n) {
			return fmt.Errorf("%d characters announced, data too short", n)
		}
		s.Segments = append(s.Segments, Segment{mode, n})
		switch mode {
		case Numeric:
			for n > 0 {
				k := min(n, 3)
				v := r.get([]int{0, 4, 7, 10}[k])
				if v >= []int{0, 10, 100, 1000}[k] {
					return fmt.Errorf("numeric group %d out of range", v)
				}
				text = append(text, fmt.Sprintf("%0*d", k, v)...)
				n -= k
			}
		case Alnum:
			for n > 0 {
				if n == 1 {
					v := r.get(6)
					if v >= 45 {
						return fmt.Errorf("alphanumeric value %d", v)
					}
					text = append(text, alnumChars[v])
					n--
					continue
				}
				v := r.get(11)
				if v >= 45*45 {
					return fmt.Errorf("alphanumeric value %d", v)
				}
				text = append(text, alnumChars[v/45], alnumChars[v%45])
				n -= 2
			}
		case Byte:
			for ; n > 0; n-- {
				text = append(text, byte(r.get(8)))
			}
		case Kanji:
			for ; n > 0; n-- {
				v := r.get(13)
				c := v/0xc0<<8 | v%0xc0
				if c < 0x1f00 {
					c += 0x8140
				} else {
					c += 0xc140
				}
				u, ok := kanjiToRune[c]
				if !ok {
					return fmt.Errorf("kanji value %#x is not in Shift JIS", c)
				}
				text = utf8.AppendRune(text, u)
			}
		}
	}
	s.Text = string(text)
	// padding
	if k := r.pos % 8; k != 0 && r.get(8-k) != 0 {
		prob("padding bits are not zero")
	}
	for i := 0; r.left() >= 8; i++ {
		want := []int{0xec, 0x11}[i%2]
		if got := r.get(8); got != want {
			prob("pad codeword %d is %#x, want %#x", i, got, want)
			break
		}
	}
	return nil
}

// ---- masks ----

// Remask returns the symbol with another mask and matching format information.
func Remask(bm [][]bool, ver, ec, from, to int) [][]bool {
	lay := layouts[ver]
	out := make([][]bool, len(bm))
	for y := range bm {
		out[y] = append([]bool(nil), bm[y]...)
		for x := range out[y] {
			if lay.Kind[y][x] == KData {
				out[y][x] = bm[y][x] != MaskBit(from, x, y) != MaskBit(to, x, y)
			}
		}
	}
	fb := FormatBits(ec, to)
	for c := 0; c < 2; c++ {
		for i, p := range formatCells(lay.N, c) {
			out[p[1]][p[0]] = fb>>i&1 == 1
		}
	}
	return out
}

// Penalty is the sum of the four published penalties; where the proportion of
// dark modules is an exact multiple of five percent the published rule 4 can be
// read in two ways, so there is a low and a high value.
func Penalty(bm [][]bool) (lo, hi int, parts [4]int) {
	n := len(bm)
	at := func(i, j int, row bool) bool {
		if row {
			return bm[i][j]
		}
		return bm[j][i]
	}
	dark := 0
	for _, row := range []bool{true, false} {
		for i := 0; i < n; i++ {
			run := 1
			for j := 1; j <= n; j++ {
				if j < n && at(i, j, row) == at(i, j-1, row) {
					run++
					continue
				}
				if run >= 5 {
					parts[0] += 3 + run - 5
				}
				run = 1
			}
			for j := 0; j+11 <= n; j++ {
				a, b := true, true
				for k := 0; k < 11; k++ {
					v := at(i, j+k, row)
					if v != ("10111010000"[k] == '1') {
						a = false
					}
					if v != ("00001011101"[k] == '1') {
						b = false
					}
				}
				if a {
					parts[2] += 40
				}
				if b {
					parts[2] += 40
				}
			}
		}
	}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			if bm[y][x] {
				dark++
			}
			if x+1 < n && y+1 < n && bm[y][x] == bm[y][x+1] && bm[y][x] == bm[y+1][x] && bm[y][x] == bm[y+1][x+1] {
				parts[1] += 3
			}
		}
	}
	total := n * n
	d := abs(dark*100 - total*50) // percent deviation times total
	k := d / (5 * total)
	parts[3] = k * 10
	sum := parts[0] + parts[1] + parts[2]
	lo, hi = sum+k*10, sum+k*10
	if k > 0 && d%(5*total) == 0 {
		lo -= 10
	}
	return
}

// BestMask lists the masks which may be chosen: the one of lowest penalty, the
// lowest number among equals; more than one only where rule 4 is ambiguous.
func BestMask(bm [][]bool, ver, ec, mask int) (ok [8]bool, lo, hi [8]int) {
	for m := 0; m < 8; m++ {
		lo[m], hi[m], _ = Penalty(Remask(bm, ver, ec, mask, m))
	}
	for m := 0; m < 8; m++ {
		good := true
		for o := 0; o < 8; o++ {
			if o == m {
				continue
			}
			if hi[o] < lo[m] || (hi[o] == lo[m] && o < m) {
				good = false
			}
		}
		ok[m] = good
	}
	return
}

// ---- building ----

// Build makes the symbol of one segment.
func Build(text string, mode, ver, ec, mask int) ([][]bool, error) {
	if !Encodable(mode, text) {
		return nil, errors.New("not encodable")
	}
	n := Chars(mode, text)
	if !Fits(mode, n, ver, ec) {
		return nil, errors.New("too long")
	}
	var bs []bool
	put := func(v, k int) {
		for i := k - 1; i >= 0; i-- {
			bs = append(bs, v>>i&1 == 1)
		}
	}
	put(mode, 4)
	put(n, countBits(mode, ver))
	switch mode {
	case Numeric:
		for i := 0; i < len(text); i += 3 {
			g := text[i:min(i+3, len(text))]
			v, _ := strconv.Atoi(g)
			put(v, []int{0, 4, 7, 10}[len(g)])
		}
	case Alnum:
		ix := func(c byte) int {
			for i := range alnumChars {
				if alnumChars[i] == c {
					return i
				}
			}
			return 0
		}
		for i := 0; i < len(text); i += 2 {
			if i+1 < len(text) {
				put(ix(text[i])*45+ix(text[i+1]), 11)
			} else {
				put(ix(text[i]), 6)
			}
		}
	case Byte:
		for i := 0; i < len(text); i++ {
			put(int(text[i]), 8)
		}
	case Kanji:
		for _, r := range text {
			c := runeToKanji[r]
			if c >= 0xe040 {
				c -= 0xc140
			} else {
				c -= 0x8140
			}
			put(c>>8*0xc0+c&0xff, 13)
		}
	}
	capBits := DataCodewords(ver, ec) * 8
	for i := 0; i < 4 && len(bs) < capBits; i++ {
		bs = append(bs, false)
	}
	for len(bs)%8 != 0 {
		bs = append(bs, false)
	}
	for i := 0; len(bs) < capBits; i++ {
		put([]int{0xec, 0x11}[i%2], 8)
	}
	data := make([]byte, len(bs)/8)
	for i, b := range bs {
		if b {
			data[i/8] |= 0x80 >> (i % 8)
		}
	}
	nb, ecn := numBlocks[ec][ver], eccPerBlock[ec][ver]
	total := rawModules(ver) / 8
	short := nb - total%nb
	slen := total/nb - ecn
	var dbs, ebs [][]byte
	k := 0
	for b := 0; b < nb; b++ {
		l := slen
		if b >= short {
			l++
		}
		dbs = append(dbs, data[k:k+l])
		ebs = append(ebs, rsEncode(data[k:k+l], ecn))
		k += l
	}
	var raw []byte
	for i := 0; i <= slen; i++ {
		for b := range dbs {
			if i < len(dbs[b]) {
				raw = append(raw, dbs[b][i])
			}
		}
	}
	for i := 0; i < ecn; i++ {
		for b := range ebs {
			raw = append(raw, ebs[b][i])
		}
	}
	lay := layouts[ver]
	bm := make([][]bool, lay.N)
	for y := range bm {
		bm[y] = append([]bool(nil), lay.Color[y]...)
	}
	for i, p := range lay.order {
		v := i/8 < len(raw) && raw[i/8]>>(7-i%8)&1 == 1
		bm[p[1]][p[0]] = v != MaskBit(mask, p[0], p[1])
	}
	fb := FormatBits(ec, mask)
	for c := 0; c < 2; c++ {
		for i, p := range formatCells(lay.N, c) {
			bm[p[1]][p[0]] = fb>>i&1 == 1
		}
	}
	if ver >= 7 {
		vb := VersionBits(ver)
		for i := 0; i < 18; i++ {
			v := vb>>i&1 == 1
			bm[i/3][lay.N-11+i%3] = v
			bm[lay.N-11+i%3][i/3] = v
		}
	}
	return bm, nil
}
