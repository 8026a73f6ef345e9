package core

import (
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"verifharness/refqr"
)

const alnumSet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

var (
	ideoOnce sync.Once
	ideos    []rune
	others   []rune
)

func ideographRunes() []rune {
	ideoOnce.Do(func() {
		for _, r := range refqr.AllKanjiRunes() {
			if ideograph(r) {
				ideos = append(ideos, r)
			} else {
				others = append(others, r)
			}
		}
	})
	return ideos
}

func kanaRunes() []rune { ideographRunes(); return others }

// unencodable in Shift JIS though in the ideograph blocks, and other traps
var oddRunes = []rune{'一', '龍', '㐀', '㐂', '豈', '﨎', '繁', 0x9FA6, 0x20000, 'é', 'ß', '€', '😀', 'ア', 'あ', 'ア', '、', '　', '¥', '‾', '~', '\\', 0, 0x7f, 0x80, 0xff, 0xFFFD, 'А', 'α', '①', 'Ⅳ'}

// fragments of what people put into symbols, and what a program could take
// for something else: marks, escapes, line ends, other forms of a character.
var fragments = []string{"\ufeff", "\xef\xbb", "\xfe\xff", "\xff\xfe", "e\u0301", "\u00e9", "\u200d", "\u200b", "\u2060", "👨\u200d👩\u200d👧", "❤\ufe0f", "\u202e",
	"１２３", "ＡＢ", "％", "%20", "%E6", "%", "+", "&amp;", "<", "\\n", "\\x41", "\\", "\r\n", "\n", "\r", "\t", " ", "  ", "\u00a0", "\u2028", "\"", "'", "`",
	"WIFI:S:a;T:WPA;P:\"b\";;", "BEGIN:VCARD\r\nVERSION:3.0\r\n", "END:VCARD\r\n", "mailto:a@b.c?subject=x", "http://", "HTTP://", "HTTPS://EXAMPLE.COM/", "\x1d", "]Q3", "\xed\xa0\x80",
	"\xc0\x80", "\xf4\x90\x80\x80", "\x1b$B", "\x1a", "\x04", "\x00", "0x1F", "1e5", "-1", "1.0", "007", "null", "%s", "%!d", "${a}", "ｱ", "ﾞ", "が", "か\u3099", "漢", "字", "\u3000", "\x83\x41", "\x8b\xa0"}

// anyRune draws a character of a random Unicode category.
func anyRune(r *RNG) rune {
	catOnce.Do(func() {
		for k := range unicode.Categories {
			if k != "Cs" && k != "C" && k != "Co" {
				cats = append(cats, k)
			}
		}
		sort.Strings(cats)
	})
	t := unicode.Categories[cats[r.N(len(cats))]]
	n := len(t.R16) + len(t.R32)
	for i := 0; i < 20; i++ {
		if j := r.N(n); j < len(t.R16) {
			e := t.R16[j]
			c := rune(e.Lo) + rune(e.Stride)*rune(r.N(int(e.Hi-e.Lo)/int(e.Stride)+1))
			if c < 0xD800 || c > 0xDFFF {
				return c
			}
		} else {
			e := t.R32[j-len(t.R16)]
			return rune(e.Lo) + rune(e.Stride)*rune(r.N(int(e.Hi-e.Lo)/int(e.Stride)+1))
		}
	}
	return 'é'
}

var (
	catOnce sync.Once
	cats    []string
)

// Text makes a text of n characters (bytes for byte mode) of a class.
func genText(r *RNG, class string, n int) []byte {
	var b []byte
	switch class {
	case "num":
		k := r.N(4)
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				b = append(b, '0')
			case 1:
				b = append(b, '9')
			default:
				b = append(b, byte('0'+r.N(10)))
			}
		}
	case "alnum":
		k := r.N(5)
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				b = append(b, ':')
			case 1:
				b = append(b, "0123456789A"[r.N(11)])
			default:
				b = append(b, alnumSet[r.N(45)])
			}
		}
		if n > 0 && refqr.Encodable(refqr.Numeric, string(b)) {
			b[r.N(n)] = "ABCXYZ $%*+-./:"[r.N(15)]
		}
	case "kanji":
		k := ideographRunes()
		for i := 0; i < n; i++ {
			b = append(b, string(k[r.N(len(k))])...)
		}
	case "kana":
		k := ideographRunes()
		o := kanaRunes()
		for i := 0; i < n; i++ {
			if r.P(50) {
				b = append(b, string(o[r.N(len(o))])...)
			} else {
				b = append(b, string(k[r.N(len(k))])...)
			}
		}
	case "utf8":
		for len(b) < n {
			c := oddRunes[r.N(len(oddRunes))]
			if r.P(40) {
				c = anyRune(r)
			}
			if r.P(30) {
				c = rune(32 + r.N(95))
			}
			if s := string(c); len(b)+len(s) <= n {
				b = append(b, s...)
			} else {
				b = append(b, 'x')
			}
		}
	case "bin":
		k := r.N(4)
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				b = append(b, 0xff)
			case 1:
				b = append(b, 0)
			default:
				b = append(b, byte(r.U()))
			}
		}
	case "late": // one character which forces a larger character set, late in the text
		for len(b) < n {
			b = append(b, byte('0'+r.N(10)))
		}
		if n > 0 {
			p := n - 1 - r.N(min(n, 3))
			switch r.N(4) {
			case 0:
				b[p] = 'A'
			case 1:
				b[p] = 'a'
			case 2:
				b[p] = 0xe6
			default:
				if n >= 3 {
					copy(b[n-3:], "漢")
				}
			}
		}
	case "early":
		for len(b) < n {
			b = append(b, byte('0'+r.N(10)))
		}
		if n >= 3 {
			copy(b, Pick(r, "漢", "abc", "A:/", "\xff\xfe\x00", "ア"))
		}
	case "url":
		s := "https://example.com/"
		for len(s) < n {
			s += string("abcdefghijklmnopqrstuvwxyz0123456789-_?&="[r.N(41)])
		}
		b = []byte(s[:n])
	case "real":
		for tries := 0; len(b) < n && tries < 40; tries++ {
			f := fragments[r.N(len(fragments))]
			if r.P(25) {
				f = string(rune('0' + r.N(10)))
			} else if r.P(20) {
				f = string(rune('a' + r.N(26)))
			}
			if len(b)+len(f) <= n {
				b = append(b, f...)
			}
			if r.P(10) && len(b) > 0 {
				break
			}
		}
	default: // ascii
		for i := 0; i < n; i++ {
			b = append(b, byte(32+r.N(95)))
		}
	}
	return b
}

var classes = []string{"num", "alnum", "kanji", "kana", "utf8", "bin", "late", "early", "url", "ascii", "real"}

func modeOfClass(class string) (ref, api int) {
	switch class {
	case "num":
		return refqr.Numeric, MNum
	case "alnum":
		return refqr.Alnum, MAlnum
	case "kanji":
		return refqr.Kanji, MKanji
	}
	return refqr.Byte, MByte
}

func genKind(r *RNG) string { return Pick(r, "s", "s", "b", "ns", "nb") }

// genReq draws an ordinary request; maxVer bounds the size of accepted texts.
func genReq(r *RNG, maxVer int) *Req {
	if r.P(3) {
		return genPattern(r, maxVer)
	}
	class := classes[r.N(len(classes))]
	q := &Req{Kind: genKind(r)}
	ec := r.N(4)
	ref, api := modeOfClass(class)
	ver := 1 + r.N(maxVer)
	if r.P(60) {
		ver = 1 + r.N(min(maxVer, 3))
	}
	c := refqr.Capacity(ref, ver, ec)
	if class == "kana" {
		c /= 4
	}
	n := r.N(c + 1)
	if r.P(20) {
		n = c
	}
	if r.P(10) && maxVer >= ver+1 {
		n = c + 1
	}
	q.Text = genText(r, class, n)
	if r.P(15) {
		q.New = true
		if refqr.Smallest(ref, n, refqr.Q) > maxVer || refqr.Smallest(refqr.Byte, len(q.Text), refqr.Q) > maxVer {
			q.New = false
		} else {
			return q
		}
	}
	q.Opts = append(q.Opts, EOpt{"ec", ec + 1})
	if r.P(35) {
		q.Opts = append(q.Opts, EOpt{"mode", api})
	}
	if r.P(35) {
		q.Opts = append(q.Opts, EOpt{"ver", ver})
	} else if r.P(25) {
		q.Opts = append(q.Opts, EOpt{"minver", 1 + r.N(maxVer)})
	}
	if r.P(20) {
		p := r.Perm(len(q.Opts))
		o := make([]EOpt, len(p))
		for i, j := range p {
			o[i] = q.Opts[j]
		}
		q.Opts = o
	}
	return q
}

// genSibling draws a request which has much in common with q.
func genSibling(r *RNG, q *Req, maxVer int) *Req {
	c := clone(*q)
	c.New = false
	if q.New {
		c.Opts = nil
	}
	n := len(c.Text)
	set := func(k string, v int) {
		var o []EOpt
		for _, e := range c.Opts {
			if e.K != k {
				o = append(o, e)
			}
		}
		c.Opts = append(o, EOpt{k, v})
	}
	drop := func(k string) {
		var o []EOpt
		for _, e := range c.Opts {
			if e.K != k {
				o = append(o, e)
			}
		}
		c.Opts = o
	}
	for i := 0; i < 1+r.N(2); i++ {
		switch r.N(9) {
		case 0, 1:
			set("ec", 1+r.N(4))
		case 2:
			set("ver", 1+r.N(maxVer))
		case 3:
			drop("ver")
			set("minver", 1+r.N(maxVer))
		case 4:
			drop("ver")
			drop("minver")
		case 5:
			set("mode", Pick(r, MNum, MAlnum, MByte, MKanji))
		case 6:
			drop("mode")
		case 7: // another text of the same length in bytes
			drop("mode")
			c.Text = genText(r, Pick(r, "num", "alnum", "ascii", "bin"), n)
		case 8: // one byte more, less or different
			n := len(c.Text)
			if n > 0 {
				switch p := r.N(n); r.N(4) {
				case 0:
					c.Text[p] ^= 1 << r.N(8)
					drop("mode")
				case 1:
					c.Text = append(c.Text[:p], c.Text[p+1:]...)
				case 2:
					c.Text = append(c.Text, c.Text[p])
				default:
					c.Text[p], c.Text[n-1] = c.Text[n-1], c.Text[p]
				}
			}
		}
	}
	return &c
}

// genTwin draws a request like q whose text has the same length and differs in
// one or two characters.
func genTwin(r *RNG, q *Req) *Req {
	c := clone(*q)
	if len(c.Text) < 2 {
		return &c
	}
	if !utf8.Valid(c.Text) {
		p := Pick(r, 0, len(c.Text)-1, len(c.Text)/2, r.N(len(c.Text)))
		c.Text[p] = c.Text[r.N(len(c.Text))]
		return &c
	}
	s := []rune(string(c.Text))
	p := Pick(r, 0, len(s)-1, len(s)/2, r.N(len(s)))
	for i := 0; i < 20; i++ {
		j := r.N(len(s))
		if s[j] == s[p] || utf8.RuneLen(s[j]) != utf8.RuneLen(s[p]) {
			continue
		}
		if r.P(50) {
			s[p], s[j] = s[j], s[p]
		} else {
			s[p] = s[j]
		}
		break
	}
	c.Text = []byte(string(s))
	return &c
}

// genMarathon draws a long history: hundreds of requests of few clients, of
// which bad per cent must be refused.
func genMarathon(r *RNG, bad int) *Run {
	run := &Run{Tag: "marathon", Sched: genSched(r), CPUs: Pick(r, 1, 2, 4, 8)}
	if run.Sched.Policy == "fine" {
		run.Sched.Param = 1024
	}
	run.Sched.Max = 6e9
	var pool []*Req
	for i := 0; i < 24; i++ {
		q := genReq(r, Pick(r, 1, 1, 1, 2))
		if r.P(bad) {
			q = genBadReq(r)
		}
		pool = append(pool, q)
		if r.P(25) {
			pool = append(pool, genTwin(r, q))
		}
	}
	for i, q := range pool {
		if len(q.Text) > 600 {
			pool[i] = &Req{Text: []byte("a"), Opts: []EOpt{{"mode", MNum}}}
		}
	}
	nc := Pick(r, 1, 1, 2, 3)
	n := r.R(270, 600) / nc
	for c := 0; c < nc; c++ {
		var ops []*Op
		held := 3 + r.N(4) // symbols which are kept to the end
		for k := 0; k < held; k++ {
			ops = append(ops, newRead(100+k, pool[r.N(len(pool))])...)
		}
		for k := 0; k < n; k++ {
			ops = append(ops, newRead(k%8, pool[r.N(len(pool))])...)
			if r.P(5) {
				ops = append(ops, &Op{K: "read", Q: 100 + r.N(held)})
			}
		}
		for k := 0; k < held; k++ {
			ops = append(ops, &Op{K: "read", Q: 100 + k})
		}
		run.Clients = append(run.Clients, ops)
	}
	return run
}

// genBadReq draws a request which must be refused.
func genBadReq(r *RNG) *Req {
	for i := 0; i < 100; i++ {
		q := &Req{Kind: genKind(r)}
		ec := r.N(4)
		switch r.N(10) {
		case 0: // over the capacity of version 40
			class := Pick(r, "num", "alnum", "kanji", "bin", "ascii")
			ref, api := modeOfClass(class)
			n := refqr.Capacity(ref, 40, ec) + 1
			if r.P(50) {
				n += r.N(400)
			}
			q.Text = genText(r, class, n)
			q.Opts = []EOpt{{"ec", ec + 1}}
			if r.P(50) {
				q.Opts = append(q.Opts, EOpt{"mode", api})
			}
		case 1: // over the capacity of the requested version
			class := Pick(r, "num", "alnum", "kanji", "bin", "ascii")
			ref, api := modeOfClass(class)
			v := 1 + r.N(10)
			n := refqr.Capacity(ref, v, ec) + 1
			if r.P(50) {
				n += r.N(40)
			}
			q.Text = genText(r, class, n)
			q.Opts = []EOpt{{"ec", ec + 1}, {"ver", v}}
			if r.P(50) {
				q.Opts = append(q.Opts, EOpt{"mode", api})
			}
		case 2:
			q.Text = genText(r, Pick(r, "alnum", "kanji", "ascii", "bin", "late"), 1+r.N(9))
			q.Opts = []EOpt{{"mode", MNum}, {"ec", ec + 1}}
		case 3:
			q.Text = genText(r, Pick(r, "kanji", "url", "bin", "utf8", "late"), 1+r.N(9))
			q.Opts = []EOpt{{"mode", MAlnum}}
		case 4:
			q.Text = genText(r, Pick(r, "num", "ascii", "bin", "utf8", "late", "early"), 1+r.N(9))
			q.Opts = []EOpt{{"mode", MKanji}}
		case 5:
			q.Text = genText(r, "ascii", r.N(9))
			q.Opts = []EOpt{{"mode", Pick(r, 1, 2, 3, 5, 12, 24, 48, 64, 255, 1<<31-1)}}
		case 6:
			// a text with one character outside the mode, somewhere
			n := 2 + r.N(10)
			q.Text = genText(r, "num", n)
			q.Text[r.N(n)] = Pick(r, byte('A'), byte('a'), byte(0xff), byte(0), byte(':'), byte('/'))
			q.Opts = []EOpt{{"mode", MNum}, {"ver", 1 + r.N(3)}}
		case 7:
			n := 1 + r.N(10)
			s := []rune(string(genText(r, "kanji", n)))
			s[r.N(n)] = Pick(r, 'a', '1', 'é', '㐀', 0x9FA6, '😀', 'ア')
			q.Text = []byte(string(s))
			q.Opts = []EOpt{{"mode", MKanji}}
		case 8, 9:
			// characters like those of the mode, from elsewhere in Unicode
			class := Pick(r, "num", "alnum", "kanji")
			_, api := modeOfClass(class)
			var s []rune
			if r.P(50) {
				s = []rune(string(genText(r, class, r.N(8))))
			}
			for j := 0; j < 1+r.N(3); j++ {
				p := r.N(len(s) + 1)
				s = append(s[:p], append([]rune{anyRune(r)}, s[p:]...)...)
			}
			q.Text = []byte(string(s))
			q.Opts = []EOpt{{"mode", api}, {"ec", ec + 1}}
		}
		if r.P(25) {
			q.Opts = append(q.Opts, EOpt{"minver", 1 + r.N(5)})
		}
		if WantOf(q).MustFail {
			return q
		}
	}
	return &Req{Text: []byte("a"), Opts: []EOpt{{"mode", MNum}}}
}

// genPattern draws a request whose symbol shows a regular pattern under one of
// the masks, so that the penalties are extreme.
func genPattern(r *RNG, maxVer int) *Req {
	ver, ec, m := 1+r.N(maxVer), r.N(4), r.N(8)
	a, b, k := 1+r.N(4), r.N(5), r.U()
	swap := r.P(50)
	f := func(x, y int) bool { return false }
	switch r.N(7) {
	case 0:
	case 1:
		f = func(x, y int) bool { return true }
	case 2: // stripes
		f = func(x, y int) bool { return x/a%2 == 0 }
	case 3: // blocks
		f = func(x, y int) bool { return (x/a+y/(b+1))%2 == 0 }
	case 4: // what looks like finder patterns
		f = func(x, y int) bool { return 0b00001011101>>uint((x+y*b)%11)&1 != 0 }
	case 5:
		f = func(x, y int) bool { return 0b10111010000>>uint((x+y*b)%11)&1 != 0 }
	default: // rows which repeat a random word
		f = func(x, y int) bool { return k>>uint((x+y*b)%(9+a))&1 != 0 }
	}
	g := f
	if swap {
		g = func(x, y int) bool { return f(y, x) }
	}
	t := refqr.PatternText(ver, ec, m, g)
	if r.P(20) {
		t = t[:len(t)-r.N(min(len(t), 10))]
	}
	q := &Req{Kind: genKind(r), Text: t, Opts: []EOpt{{"mode", MByte}, {"ec", ec + 1}, {"ver", ver}}}
	if r.P(30) {
		q.Opts = q.Opts[1:]
	}
	return q
}

// genTie looks for a request whose best masks tie.
func genTie(r *RNG) *Req {
	for i := 0; i < 400; i++ {
		class := Pick(r, "num", "alnum", "ascii", "kanji")
		ref, api := modeOfClass(class)
		ec := r.N(4)
		ver := 1
		if r.P(20) {
			ver = 2
		}
		n := 1 + r.N(refqr.Capacity(ref, ver, ec))
		t := genText(r, class, n)
		bm, err := refqr.Build(string(t), ref, ver, ec, 0)
		if err != nil {
			continue
		}
		_, lo, hi := refqr.BestMask(bm, ver, ec, 0)
		best, cnt := 1<<30, 0
		for m := range lo {
			if lo[m] != hi[m] {
				cnt = -10
			}
			if lo[m] < best {
				best, cnt = lo[m], 0
			}
			if lo[m] == best {
				cnt++
			}
		}
		if cnt >= 2 {
			return &Req{Text: t, Kind: genKind(r), Opts: []EOpt{{"mode", api}, {"ec", ec + 1}, {"ver", ver}}}
		}
	}
	return genReq(r, 1)
}

// genSched draws an interleaving policy.
func genSched(r *RNG) Sched {
	s := Sched{Seed: r.U() >> 12}
	switch x := r.N(100); {
	case x < 4:
		s.Policy = "seq"
	case x < 14:
		s.Policy = "rand"
	case x < 49:
		s.Policy = "quantum"
		s.Param = uint64(8 + r.N(13))
	case x < 69:
		s.Policy = "pct"
	case x < 89:
		s.Policy = "hot"
		s.Param = uint64(r.N(4) * r.N(8))
	default:
		s.Policy = "fine"
		s.Param = uint64(2 << r.N(8))
	}
	return s
}

func seqSched(r *RNG) Sched { return Sched{Policy: "seq", Seed: r.U() >> 12} }

func words(s string) []string { return strings.Fields(s) }
