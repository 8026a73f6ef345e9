package core

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"verifharness/refqr"
)

// The encoding mode values of the public API.
const (
	MAuto  = 0
	MNone  = 2
	MNum   = 4
	MAlnum = 8
	MKanji = 16
	MByte  = 32
)

func refMode(m int) int {
	switch m {
	case MNum:
		return refqr.Numeric
	case MAlnum:
		return refqr.Alnum
	case MKanji:
		return refqr.Kanji
	case MByte:
		return refqr.Byte
	}
	return 0
}

// Want is what the documentation promises about a request.
type Want struct {
	Mode, EC, Ver, MinVer int // after applying the options; EC in reference order
	MustFail              bool
	MustWork              bool
	WhyFail               string
}

func ideograph(r rune) bool {
	return (r >= 0x4E00 && r <= 0x9FFF) || (r >= 0x3400 && r <= 0x4DBF) || (r >= 0xF900 && r <= 0xFAFF)
}

func allIdeographs(s string) bool {
	for _, r := range s {
		if !ideograph(r) {
			return false
		}
	}
	return true
}

// WantOf derives the promise for a request from its text and options alone.
func WantOf(r *Req) Want {
	w := Want{Mode: MAuto, EC: refqr.Q}
	if !r.New {
		for _, o := range r.Opts {
			switch o.K {
			case "mode":
				w.Mode = o.V
			case "ec":
				if o.V >= 1 && o.V <= 4 {
					w.EC = o.V - 1
				}
			case "ver":
				if o.V >= 1 && o.V <= 40 {
					w.Ver = o.V
				}
			case "minver":
				if o.V >= 1 && o.V <= 40 {
					w.MinVer = o.V
				}
			}
		}
	}
	text := string(r.Text)
	limit := w.Ver
	if limit == 0 {
		limit = 40
	}
	fits := func(mode int) bool {
		return refqr.Encodable(mode, text) && refqr.Fits(mode, refqr.Chars(mode, text), limit, w.EC)
	}
	switch w.Mode {
	case MNum, MAlnum, MByte, MKanji:
		m := refMode(w.Mode)
		if !refqr.Encodable(m, text) {
			w.MustFail, w.WhyFail = true, "the text has characters which the requested mode cannot encode"
			return w
		}
		if !fits(m) {
			w.MustFail, w.WhyFail = true, "the text does not fit"
			return w
		}
		w.MustWork = true
		if w.Mode == MKanji && !allIdeographs(text) {
			// kana and symbols: encodable by the standard; the library supports ideographs
			w.MustWork = false
		}
	case MAuto:
		any := false
		for _, m := range []int{refqr.Numeric, refqr.Alnum, refqr.Kanji, refqr.Byte} {
			if fits(m) {
				any = true
			}
		}
		if !any {
			w.MustFail, w.WhyFail = true, "the text does not fit in any mode"
			return w
		}
		// the documented choice: the smallest character set which covers the text
		switch {
		case refqr.Encodable(refqr.Numeric, text):
			w.MustWork = fits(refqr.Numeric)
		case refqr.Encodable(refqr.Alnum, text):
			w.MustWork = fits(refqr.Alnum)
		case refqr.Encodable(refqr.Kanji, text) && allIdeographs(text):
			w.MustWork = fits(refqr.Kanji)
		default:
			w.MustWork = fits(refqr.Byte)
		}
	default:
		w.MustFail, w.WhyFail = true, "the requested mode does not exist"
	}
	return w
}

// CheckSymbol judges a delivered symbol against the request. It returns "" or
// what is wrong.
func CheckSymbol(r *Req, bm [][]bool) string {
	w := WantOf(r)
	s, err := refqr.Read(bm, true)
	if err != nil {
		return "the symbol cannot be read: " + err.Error()
	}
	if len(s.Problems) > 0 {
		return "the symbol does not conform: " + s.Problems[0]
	}
	if s.Corrected != 0 {
		return fmt.Sprintf("%d codewords of the fresh symbol need correction", s.Corrected)
	}
	if !bytes.Equal([]byte(s.Text), r.Text) {
		return fmt.Sprintf("the symbol reads %q, the text is %q", clip(s.Text), clip(string(r.Text)))
	}
	if s.EC != w.EC {
		return fmt.Sprintf("error correction level %c, want %c", "LMQH"[s.EC], "LMQH"[w.EC])
	}
	if m := refMode(w.Mode); m != 0 {
		for _, sg := range s.Segments {
			if sg.Mode != m {
				return fmt.Sprintf("segment in mode %d, requested %d", sg.Mode, m)
			}
		}
		if len(s.Segments) == 0 && len(r.Text) > 0 {
			return "no segment"
		}
	}
	if w.Ver != 0 {
		if s.Ver != w.Ver {
			return fmt.Sprintf("version %d, requested %d", s.Ver, w.Ver)
		}
	} else if len(s.Segments) == 1 {
		m := s.Segments[0].Mode
		v := refqr.Smallest(m, refqr.Chars(m, string(r.Text)), w.EC)
		if v < w.MinVer {
			v = w.MinVer
		}
		if s.Ver != v {
			return fmt.Sprintf("version %d, the smallest allowed one that holds the text is %d", s.Ver, v)
		}
	}
	return ""
}

// DocumentedMode checks the documented automatic choice of the mode.
func DocumentedMode(r *Req, s *refqr.Symbol) string {
	w := WantOf(r)
	if w.Mode != MAuto || len(s.Segments) != 1 || len(r.Text) == 0 {
		return ""
	}
	t := string(r.Text)
	want := refqr.Byte
	switch {
	case refqr.Encodable(refqr.Numeric, t):
		want = refqr.Numeric
	case refqr.Encodable(refqr.Alnum, t):
		want = refqr.Alnum
	case refqr.Encodable(refqr.Kanji, t):
		if !allIdeographs(t) {
			return ""
		}
		want = refqr.Kanji
	}
	if s.Segments[0].Mode != want {
		return fmt.Sprintf("automatic mode %d, documented %d", s.Segments[0].Mode, want)
	}
	return ""
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func (r *Req) String() string {
	api := "NewWith"
	if r.New {
		api = "New"
	}
	k := r.Kind
	if k == "" {
		k = "s"
	}
	t := string(r.Text)
	if !utf8.ValidString(t) {
		return fmt.Sprintf("%s/%s(%d bytes %x..., %v)", api, k, len(t), clip(t[:min(len(t), 12)]), r.Opts)
	}
	return fmt.Sprintf("%s/%s(%d bytes %q, %v)", api, k, len(t), clip(t), r.Opts)
}

// Key identifies what the result of a request may depend on.
func (r *Req) Key() string {
	w := WantOf(r)
	return fmt.Sprintf("%d|%d|%d|%d|%s", w.Mode, w.EC, w.Ver, w.MinVer, r.Text)
}
