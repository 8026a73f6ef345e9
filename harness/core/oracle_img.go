package core

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"sort"
	"strings"

	"verifharness/refqr"
	"verifsim/simtermbox"
)

// imgCfg is what the documented options of the standard writer come to.
type imgCfg struct {
	bw         int
	b          [4]int // top right bottom left
	fg, bg     color.RGBA
	transp     bool
	enc        string // jpeg png custom panic
	encFail    string
	shape      string  // rect circle shape liquid ...
	size       float64 // what a ready-made shape was asked for
	grad       []color.RGBA
	gradT      []float64 // where the colours of the gradient are
	angle      float64
	half, logo image.Image
	halfKind   string
	halfSpec   *ImgSpec
	mult       int
	safe       bool
	bad        string // why the configuration is not judged
}

func hexColor(s string) (color.RGBA, bool) {
	c := color.RGBA{A: 255}
	d := func(b byte) (uint8, bool) {
		switch {
		case b >= '0' && b <= '9':
			return b - '0', true
		case b >= 'a' && b <= 'f':
			return b - 'a' + 10, true
		case b >= 'A' && b <= 'F':
			return b - 'A' + 10, true
		}
		return 0, false
	}
	if len(s) == 0 || s[0] != '#' {
		return c, false
	}
	var v []uint8
	for i := 1; i < len(s); i++ {
		x, ok := d(s[i])
		if !ok {
			return c, false
		}
		v = append(v, x)
	}
	switch len(v) {
	case 3:
		c.R, c.G, c.B = v[0]*17, v[1]*17, v[2]*17
	case 6:
		c.R, c.G, c.B = v[0]<<4|v[1], v[2]<<4|v[3], v[4]<<4|v[5]
	default:
		return c, false
	}
	return c, true
}

func cfgOf(opts []IOpt) *imgCfg {
	c := &imgCfg{bw: 20, b: [4]int{40, 40, 40, 40}, bg: color.RGBA{255, 255, 255, 255}, fg: color.RGBA{0, 0, 0, 255}, enc: "jpeg", shape: "rect", mult: 5}
	for _, o := range opts {
		switch o.K {
		case "bgt":
			c.transp = true
		case "bg":
			c.bg = rgba(o.C)
		case "fg":
			c.fg = rgba(o.C)
		case "fgn":
			c.fg = color.RGBAModel.Convert(colorOf(o)).(color.RGBA)
		case "bgn":
			c.bg = color.RGBAModel.Convert(colorOf(o)).(color.RGBA)
		case "bghex":
			if v, ok := hexColor(o.S); ok {
				c.bg = v
			}
		case "fghex":
			if v, ok := hexColor(o.S); ok {
				c.fg = v
			}
		case "grad":
			st := stopsOf(o)
			if len(st) == 0 {
				break
			}
			sort.SliceStable(st, func(i, j int) bool { return st[i].T < st[j].T })
			c.grad, c.gradT, c.angle = nil, nil, float64(o.I[0])
			for _, s := range st {
				c.grad = append(c.grad, s.Color)
				c.gradT = append(c.gradT, s.T)
			}
		case "logo":
			c.logo = MakeImage(o.M)
		case "halftoneimg":
			c.half, c.halfKind, c.halfSpec = MakeImage(o.M), o.M.Kind, o.M
		case "worldimg":
			switch {
			case o.img == nil:
			case o.S == "halftone":
				c.half = o.img
				if o.M != nil {
					c.halfKind, c.halfSpec = o.M.Kind, o.M
				}
			default:
				c.logo = o.img
			}
		case "halftone", "logopng", "logojpeg":
			c.bad = "picture from a file"
		case "width":
			c.bw = o.I[0]
			if c.bw == 0 {
				c.bw = 20
			}
		case "circle", "shape":
			c.shape = o.K
		case "shapes":
			c.shape, c.size = o.S, 1
			if len(o.F) > 0 {
				c.size = o.F[0]
			}
		case "png", "jpeg":
			c.enc = o.K
		case "enc":
			c.enc = "custom"
			c.encFail = o.S
		case "border":
			switch len(o.I) {
			case 0:
				c.b = [4]int{40, 40, 40, 40}
			case 1:
				c.b = [4]int{o.I[0], o.I[0], o.I[0], o.I[0]}
			case 2, 3:
				c.b = [4]int{o.I[0], o.I[1], o.I[0], o.I[1]}
			default:
				c.b = [4]int{o.I[0], o.I[1], o.I[2], o.I[3]}
			}
		case "mult":
			c.mult = o.I[0]
		case "safe":
			c.safe = true
		}
	}
	if c.bw < 3 {
		// such blocks cannot be divided into the nine parts of a halftone picture
		c.half, c.halfKind = nil, ""
	}
	return c
}

// judgeable tells whether the modules of a picture are large and distinct
// enough to tell them apart.
func judgeable(c *imgCfg) bool {
	lo := 1
	switch {
	case c.half != nil && c.shape == "circle":
		lo = 12
	case c.half != nil && strings.Contains(c.shape, "+"):
		lo = 18
	case c.half != nil:
		lo = 3
	case c.shape == "circle":
		lo = 5
	case strings.Contains(c.shape, "+"):
		lo = 6
	}
	if c.enc == "jpeg" {
		lo = max(lo, 10)
		if c.half != nil {
			lo = 36
		}
		if c.bg.A != 255 || c.fg.A != 255 || c.half != nil && c.shape != "rect" {
			return false
		}
		if luma(c.bg)-luma(c.fg) < 110 {
			return false
		}
	}
	return c.bw >= lo && c.fg != c.bg && c.bad == ""
}

// pixels gives access to the pixels of a decoded picture.
func pixels(m image.Image) func(x, y int) color.RGBA {
	b := m.Bounds()
	switch m := m.(type) {
	case *image.RGBA:
		return func(x, y int) color.RGBA { return m.RGBAAt(x+b.Min.X, y+b.Min.Y) }
	case *image.NRGBA:
		return func(x, y int) color.RGBA {
			i := m.PixOffset(x+b.Min.X, y+b.Min.Y)
			p := m.Pix[i : i+4]
			if p[3] == 255 {
				return color.RGBA{p[0], p[1], p[2], 255}
			}
			if p[3] == 0 {
				return color.RGBA{}
			}
			return color.RGBAModel.Convert(color.NRGBA{p[0], p[1], p[2], p[3]}).(color.RGBA)
		}
	case *image.Gray:
		return func(x, y int) color.RGBA {
			v := m.GrayAt(x+b.Min.X, y+b.Min.Y).Y
			return color.RGBA{v, v, v, 255}
		}
	case *image.Paletted:
		pal := make([]color.RGBA, len(m.Palette))
		for i, c := range m.Palette {
			pal[i] = color.RGBAModel.Convert(c).(color.RGBA)
		}
		return func(x, y int) color.RGBA { return pal[m.ColorIndexAt(x+b.Min.X, y+b.Min.Y)] }
	}
	return func(x, y int) color.RGBA { return color.RGBAModel.Convert(m.At(x+b.Min.X, y+b.Min.Y)).(color.RGBA) }
}

func luma(c color.RGBA) int { return (299*int(c.R) + 587*int(c.G) + 114*int(c.B)) / 1000 }

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func finderCell(x, y, n int) bool {
	return (x < 7 && y < 7) || (x >= n-7 && y < 7) || (x < 7 && y >= n-7)
}

// decodeImage decodes what a writer produced, insisting on the format.
func decodeImage(enc string, data []byte) (image.Image, string) {
	switch enc {
	case "jpeg":
		m, err := jpeg.Decode(bytes.NewReader(data))
		if err != nil {
			return nil, fmt.Sprintf("the output (%d bytes) is not a JPEG picture: %v", len(data), err)
		}
		return m, ""
	case "custom":
		if !bytes.HasPrefix(data, []byte("custom\n")) {
			return nil, "the output does not come from the custom encoder"
		}
		data = data[len("custom\n"):]
	}
	m, err := png.Decode(bytes.NewReader(data))
	if err != nil {
		return nil, fmt.Sprintf("the output (%d bytes) is not a PNG picture: %v", len(data), err)
	}
	return m, ""
}

// gradient tells the smallest and largest components which the gradient may have
// at a pixel: it runs along its direction over the whole picture; half a pixel or
// rounding more or less is no matter.
func (c *imgCfg) gradient(W, H int) func(x, y int) (lo, hi color.RGBA) {
	dx, dy := math.Cos(c.angle*math.Pi/180), -math.Sin(c.angle*math.Pi/180)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, p := range [][2]int{{0, 0}, {0, H}, {W, 0}, {W, H}} {
		v := float64(p[0])*dx + float64(p[1])*dy
		lo, hi = min(lo, v), max(hi, v)
	}
	color1 := func(t float64) color.RGBA {
		n := len(c.grad)
		if t <= c.gradT[0] {
			return c.grad[0]
		}
		for i := 1; i < n; i++ {
			if a, b := c.gradT[i-1], c.gradT[i]; t < b {
				f := (t - a) / (b - a)
				mix := func(u, v uint8) uint8 { return uint8(float64(u) + (float64(v)-float64(u))*f + 0.5) }
				u, v := c.grad[i-1], c.grad[i]
				return color.RGBA{mix(u.R, v.R), mix(u.G, v.G), mix(u.B, v.B), 255}
			}
		}
		return c.grad[n-1]
	}
	return func(x, y int) (l, h color.RGBA) {
		t := (float64(x)*dx + float64(y)*dy - lo) / (hi - lo)
		d := 1.5 / (hi - lo)
		l, h = color1(t-d), color1(t-d)
		add := func(v color.RGBA) {
			l = color.RGBA{min(l.R, v.R), min(l.G, v.G), min(l.B, v.B), 255}
			h = color.RGBA{max(h.R, v.R), max(h.G, v.G), max(h.B, v.B), 255}
		}
		add(color1(t + d))
		for i, s := range c.gradT {
			if s >= t-d && s <= t+d {
				add(c.grad[i])
			}
		}
		return
	}
}

// CheckStd judges the output of the standard writer.
func CheckStd(c *imgCfg, bm [][]bool, data []byte) string {
	if c.bad != "" {
		return ""
	}
	n := len(bm)
	m, why := decodeImage(c.enc, data)
	if why != "" {
		return why
	}
	W, H := n*c.bw+c.b[1]+c.b[3], n*c.bw+c.b[0]+c.b[2]
	if b := m.Bounds(); b.Dx() != W || b.Dy() != H {
		return fmt.Sprintf("the picture is %dx%d, want %dx%d", b.Dx(), b.Dy(), W, H)
	}
	if !judgeable(c) {
		return "" // the minimiser may ask; the generators do not
	}
	at := pixels(m)
	light := c.bg
	if c.transp {
		light = color.RGBA{}
	}
	isJPEG := c.enc == "jpeg"
	if isJPEG {
		light = c.bg
	}
	// the logo
	var lx, ly, lw, lh int
	logo := false
	if c.logo != nil {
		lw, lh = c.logo.Bounds().Dx(), c.logo.Bounds().Dy()
		lx, ly = (W-lw)/2, (H-lh)/2
		logo = W >= c.mult*lw && H >= c.mult*lh
	}
	inLogo := func(x, y int) bool { return logo && x >= lx && x < lx+lw && y >= ly && y < ly+lh }
	cleared := func(mx, my int) bool {
		if !logo || !c.safe {
			return false
		}
		x0, y0 := mx*c.bw+c.b[3], my*c.bw+c.b[0]
		return x0+c.bw > lx && x0 < lx+lw && y0+c.bw > ly && y0 < ly+lh
	}
	ink := over(c.fg, light)
	darkOK := func(x, y int, p color.RGBA) bool { return isLight(p, ink) || c.fg.A != 255 && near(p, ink, 3) }
	darkName := func(x, y int) string { return fmt.Sprint(ink) }
	if c.grad != nil {
		span := c.gradient(W, H)
		darkOK = func(x, y int, p color.RGBA) bool {
			lo, hi := span(x, y)
			in := func(v, a, b uint8) bool { return int(v) >= int(a)-2 && int(v) <= int(b)+2 }
			return in(p.R, lo.R, hi.R) && in(p.G, lo.G, hi.G) && in(p.B, lo.B, hi.B) && p.A == 255
		}
		darkName = func(x, y int) string {
			lo, hi := span(x, y)
			return fmt.Sprintf("between %v and %v of the gradient %v at %.3f, %v degrees", lo, hi, c.grad, c.gradT, c.angle)
		}
	}
	yd, yl := luma(c.fg), luma(light)
	if c.grad != nil {
		yd = 0
		for _, s := range c.grad {
			yd = max(yd, luma(s))
		}
	}
	test := func(x, y int, p color.RGBA, dark bool) bool {
		if isJPEG {
			d := abs(luma(p)-yd) < abs(luma(p)-yl)
			if c.grad != nil && luma(p) < yd {
				d = true
			}
			return d == dark
		}
		if dark {
			return darkOK(x, y, p)
		}
		return isLight(p, light)
	}
	bad := func(mx, my, x, y int, p color.RGBA, dark bool) string {
		w := fmt.Sprint(light)
		if dark {
			w = darkName(x, y)
		}
		return fmt.Sprintf("module %d,%d of %dx%d: pixel %d,%d is %v, want %s", mx, my, n, n, x, y, p, w)
	}
	// a halftone picture of one colour shows in the outer eight parts of data modules
	if !isJPEG && c.grad == nil && c.shape == "rect" && (c.halfKind == "white" || c.halfKind == "black" || c.halfKind == "quarters") {
		black, white := color.RGBA{A: 255}, color.RGBA{255, 255, 255, 255}
		if c.transp {
			white = color.RGBA{}
		}
		// part i of 3n lies clearly on one side of the middle
		side := func(i, size int) (far, known bool) {
			d := i - 3*n/2
			m := 3*n/size + 3
			return d > 0, d > m || d < -m
		}
		wanted := func(i, j int) (color.RGBA, bool) {
			switch c.halfKind {
			case "white":
				return white, true
			case "black":
				return black, true
			}
			b := c.half.Bounds()
			right, k1 := side(i, b.Dx())
			below, k2 := side(j, b.Dy())
			if quarterDark(c.halfSpec, right, below) {
				return black, k1 && k2
			}
			return white, k1 && k2
		}
		kinds := refqr.LayoutOf((n - 17) / 4).Kind
		for my := 0; my < n; my++ {
			for mx := 0; mx < n; mx++ {
				if kinds[my][mx] != refqr.KData || cleared(mx, my) {
					continue
				}
				for k := 0; k < 9; k++ {
					if k == 4 {
						continue
					}
					t := func(i int) int { return int(float64(i)*float64(c.bw)/3 + float64(c.bw/3)/2) }
					px, py := mx*c.bw+c.b[3]+t(k%3), my*c.bw+c.b[0]+t(k/3)
					if inLogo(px, py) {
						continue
					}
					want, known := wanted(mx*3+k%3, my*3+k/3)
					if !known {
						continue
					}
					if p := at(px, py); p != want {
						return fmt.Sprintf("module %d,%d: part %d of the halftone picture (%s) at pixel %d,%d is %v, want %v", mx, my, k, c.halfKind, px, py, p, want)
					}
				}
			}
		}
	}
	solid := !isJPEG && c.half == nil && (c.shape == "rect" || c.shape == "shape")
	dark := func(mx, my int) bool {
		return mx >= 0 && my >= 0 && mx < n && my < n && bm[my][mx] && !cleared(mx, my)
	}
	zone := func(mx, my int) bool {
		for d := 0; d < 9; d++ {
			if cleared(mx+d%3-1, my+d/3-1) {
				return true
			}
		}
		return false
	}
	if !isJPEG && !solid && c.half == nil {
		for my := 0; my < n; my++ {
			for mx := 0; mx < n; mx++ {
				x0, y0 := mx*c.bw+c.b[3], my*c.bw+c.b[0]
				part := c.partOf(dark, zone, mx, my, n)
				for v := 0; v < c.bw; v++ {
					for u := 0; u < c.bw; u++ {
						if p := at(x0+u, y0+v); c.grad == nil && !inLogo(x0+u, y0+v) && !between(p, ink, light) {
							return fmt.Sprintf("%s: module %d,%d: pixel %d,%d is %v, which is no mixture of %v and %v", c.shape, mx, my, x0+u, y0+v, p, ink, light)
						}
						w := part(float64(u)+0.5-float64(c.bw)/2, float64(v)+0.5-float64(c.bw)/2)
						if w == 0 || inLogo(x0+u, y0+v) {
							continue
						}
						if p := at(x0+u, y0+v); !test(x0+u, y0+v, p, w > 0) && !(w > 0 && near(p, ink, 16)) && !(w < 0 && near(p, light, 16)) {
							return c.shape + ": " + bad(mx, my, x0+u, y0+v, p, w > 0)
						}
					}
				}
			}
		}
	}
	for my := 0; my < n; my++ {
		for mx := 0; mx < n; mx++ {
			dark := bm[my][mx] && !cleared(mx, my)
			x0, y0 := mx*c.bw+c.b[3], my*c.bw+c.b[0]
			if solid {
				for y := y0; y < y0+c.bw; y++ {
					for x := x0; x < x0+c.bw; x++ {
						if inLogo(x, y) {
							continue
						}
						if p := at(x, y); !test(x, y, p, dark) {
							return bad(mx, my, x, y, p, dark)
						}
					}
				}
				continue
			}
			px, py := x0+c.bw/2, y0+c.bw/2
			if c.half != nil {
				// the middle of the nine parts of a module
				t := float64(c.bw)/3 + float64(c.bw/3)/2
				px, py = x0+int(t), y0+int(t)
			}
			if inLogo(px, py) {
				continue
			}
			if isJPEG && logo {
				// ringing around the logo
				near := false
				for _, d := range [][2]int{{-16, -16}, {16, -16}, {-16, 16}, {16, 16}} {
					near = near || inLogo(px+d[0], py+d[1])
				}
				if near || (px >= lx-16 && px < lx+lw+16 && py >= ly-16 && py < ly+lh+16) {
					continue
				}
			}
			if p := at(px, py); !test(px, py, p, dark) {
				return bad(mx, my, px, py, p, dark)
			}
			if isJPEG && c.shape == "rect" && c.half == nil && c.bw >= 16 && !logo {
				for _, d := range [][2]int{{-1, -1}, {1, -1}, {-1, 1}, {1, 1}} {
					px, py := x0+c.bw/2+d[0]*c.bw/4, y0+c.bw/2+d[1]*c.bw/4
					if p := at(px, py); !test(px, py, p, dark) {
						return bad(mx, my, px, py, p, dark)
					}
				}
			}
		}
	}
	// the borders
	if !isJPEG {
		x1, y1 := c.b[3]+n*c.bw, c.b[0]+n*c.bw
		over := 0
		if c.shape != "rect" && c.shape != "shape" && c.shape != "circle" {
			over = c.bw // shapes may reach a little beyond their module
		}
		for y := 0; y < H; y++ {
			for x := 0; x < W; x++ {
				if x >= c.b[3]-over && x < x1+over && y >= c.b[0]-over && y < y1+over {
					x = x1 + over - 1
					continue
				}
				if inLogo(x, y) {
					continue
				}
				if p := at(x, y); !isLight(p, light) {
					return fmt.Sprintf("border pixel %d,%d is %v, want %v", x, y, p, light)
				}
			}
		}
	} else {
		for i, q := range [][3]int{{W / 2, c.b[0] / 2, c.b[0]}, {W - 1 - c.b[1]/2, H / 2, c.b[1]}, {W / 2, H - 1 - c.b[2]/2, c.b[2]}, {c.b[3] / 2, H / 2, c.b[3]}} {
			if q[2] >= 34 && !inLogo(q[0], q[1]) {
				if p := at(q[0], q[1]); !test(q[0], q[1], p, false) {
					return fmt.Sprintf("border %d, pixel %d,%d is %v, want %v", i, q[0], q[1], p, light)
				}
			}
		}
	}
	// the logo itself
	if logo && !isJPEG {
		get := c.logo.At
		mb := c.logo.Bounds().Min
		for y := 0; y < lh; y++ {
			for x := 0; x < lw; x++ {
				if lx+x < 0 || ly+y < 0 || lx+x >= W || ly+y >= H {
					continue
				}
				r, g, b, a := get(mb.X+x, mb.Y+y).RGBA()
				if a != 0xffff {
					// what is below shows through
					if !solid || c.grad != nil {
						continue
					}
					under := light
					mx, my := lx+x-c.b[3], ly+y-c.b[0]
					if mx >= 0 && my >= 0 && dark(mx/c.bw, my/c.bw) {
						under = ink
					}
					mix := func(l uint32, u uint8) int { return int((l + uint32(u)*0x101*(0xffff-a)/0xffff) >> 8) }
					p := at(lx+x, ly+y)
					if d := max(abs(int(p.R)-mix(r, under.R)), abs(int(p.G)-mix(g, under.G)), abs(int(p.B)-mix(b, under.B)), abs(int(p.A)-mix(a, under.A))); d > 3 {
						return fmt.Sprintf("logo pixel %d,%d (%d of 65535 opaque) at %d,%d is %v, want the logo's %d,%d,%d over %v", x, y, a, lx+x, ly+y, p, r>>8, g>>8, b>>8, under)
					}
					continue
				}
				w := color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), 255}
				if p := at(lx+x, ly+y); p != w {
					return fmt.Sprintf("logo pixel %d,%d at %d,%d is %v, want %v", x, y, lx+x, ly+y, p, w)
				}
			}
		}
	}
	return ""
}

// over tells what a color on top of another shows.
func over(a, b color.RGBA) color.RGBA {
	mix := func(u, v uint8) uint8 { return uint8(int(u) + int(v)*(255-int(a.A))/255) }
	return color.RGBA{mix(a.R, b.R), mix(a.G, b.G), mix(a.B, b.B), mix(a.A, b.A)}
}

// isLight compares a pixel with a flat color; the way of a translucent one through
// a picture file rounds.
func isLight(p, light color.RGBA) bool {
	return p == light || light.A != 0 && light.A != 255 && near(p, light, 3)
}

// near tells whether two colours are hardly distinct.
func near(p, q color.RGBA, d int) bool {
	return abs(int(p.R)-int(q.R)) <= d && abs(int(p.G)-int(q.G)) <= d && abs(int(p.B)-int(q.B)) <= d && abs(int(p.A)-int(q.A)) <= d
}

// between tells whether a colour is a mixture of two others.
func between(p, a, b color.RGBA) bool {
	v := [4]float64{float64(p.R) - float64(b.R), float64(p.G) - float64(b.G), float64(p.B) - float64(b.B), float64(p.A) - float64(b.A)}
	d := [4]float64{float64(a.R) - float64(b.R), float64(a.G) - float64(b.G), float64(a.B) - float64(b.B), float64(a.A) - float64(b.A)}
	k, l := 0.0, 0.0
	for i := range v {
		k += v[i] * d[i]
		l += d[i] * d[i]
	}
	k = max(0, min(1, k/l))
	for i := range v {
		if math.Abs(v[i]-k*d[i]) > 4 {
			return false
		}
	}
	return true
}

// partOf tells which pixels of a module the shape fills: given the distance from
// the middle of the module, 1 means dark, -1 light and 0 either, which leaves a
// pixel on each side of every edge.
func (c *imgCfg) partOf(dark, zone func(mx, my int) bool, mx, my, n int) func(dx, dy float64) int {
	self := dark(mx, my)
	half := float64(c.bw) / 2
	disk := func(r float64) func(dx, dy float64) int {
		return func(dx, dy float64) int {
			switch d := math.Hypot(dx, dy); {
			case d < r-0.75:
				return 1
			case d > r+0.75:
				return -1
			}
			return 0
		}
	}
	box := func(x0, x1, y0, y1 float64) func(dx, dy float64) int {
		return func(dx, dy float64) int {
			switch {
			case dx > x0+0.55 && dx < x1-0.55 && dy > y0+0.55 && dy < y1-0.55:
				return 1
			case dx < x0-0.55 || dx > x1+0.55 || dy < y0-0.55 || dy > y1+0.55:
				return -1
			}
			return 0
		}
	}
	any := func(fs ...func(dx, dy float64) int) func(dx, dy float64) int {
		return func(dx, dy float64) int {
			v := -1
			for _, f := range fs {
				v = max(v, f(dx, dy))
			}
			return v
		}
	}
	all := func(v int) func(dx, dy float64) int { return func(dx, dy float64) int { return v } }
	finder, block, _ := strings.Cut(c.shape, "+")
	if c.shape == "circle" {
		if !self {
			return all(-1)
		}
		return disk(float64(c.bw / 2))
	}
	l, r, t, b := dark(mx-1, my), dark(mx+1, my), dark(mx, my-1), dark(mx, my+1)
	// curve is the parabola between two sides of a corner, size long each: 1 on the
	// side of the corner, given the distances from the sides.
	curve := func(u, v, size float64) int {
		const d = 0.75
		switch {
		case math.Sqrt(u+d)+math.Sqrt(v+d) < math.Sqrt(size):
			return 1
		case math.Sqrt(max(u-d, 0))+math.Sqrt(max(v-d, 0)) > math.Sqrt(size):
			return -1
		}
		return 0
	}
	// fillets are what dark modules put into the corners of a light one which is
	// in the bend between them.
	fillets := func(dx, dy float64) int {
		x, y := 1, 1
		h, v := r, b
		if dx < 0 {
			x, h = -1, l
		}
		if dy < 0 {
			y, v = -1, t
		}
		if !h || !v || !dark(mx+x, my+y) {
			return -1
		}
		return curve(half-math.Abs(dx), half-math.Abs(dy), half)
	}
	if finderCell(mx, my, n) {
		switch {
		case finder == "S" && self:
			return all(1)
		case finder == "S":
			return all(-1)
		case zone(mx, my):
			return all(0) // the zone of the logo cuts the pattern
		case !self:
			return fillets
		case l && r || t && b || l == r || t == b:
			return all(1)
		}
		// a corner: round on the outside
		return func(dx, dy float64) int {
			if l {
				dx = -dx
			}
			if t {
				dy = -dy
			}
			// now dark neighbours are to the right and below
			return -curve(half+dx, half+dy, 2*half)
		}
	}
	if !self {
		if block == "liquid" && zone(mx, my) {
			return all(0)
		}
		if block == "liquid" {
			return fillets
		}
		return all(-1)
	}
	// joined draws a disk and bars of half the given height to dark neighbours.
	joined := func(rad, bar float64, hor, ver bool) func(dx, dy float64) int {
		fs := []func(dx, dy float64) int{disk(rad)}
		if hor && l {
			fs = append(fs, box(-2*half, 1, -bar, bar))
		}
		if hor && r {
			fs = append(fs, box(-1, 2*half, -bar, bar))
		}
		if ver && t {
			fs = append(fs, box(-bar, bar, -2*half, 1))
		}
		if ver && b {
			fs = append(fs, box(-bar, bar, -1, 2*half))
		}
		return any(fs...)
	}
	ratio := func(lo, hi, def float64) float64 {
		if c.size < lo || c.size > hi {
			return def
		}
		return c.size
	}
	switch block {
	case "square":
		h := half * ratio(0.1, 1, 1)
		return box(-h, h, -h, h)
	case "circle":
		return disk(half * ratio(0.1, 1, 1))
	case "hstripe":
		h := half * ratio(0.6, 1, 0.85)
		return joined(h, h, true, false)
	case "vstripe":
		h := half * ratio(0.6, 1, 0.85)
		return joined(h, h, false, true)
	case "chain":
		return joined(half*0.9, half*0.9*0.2, true, true)
	case "hchain":
		return joined(half*0.85, half*0.85*0.2, true, false)
	case "vchain":
		return joined(half*0.85, half*0.85*0.2, false, true)
	}
	return joined(half, half, true, true) // liquid
}

// CheckShape judges the calls a custom shape got.
func CheckShape(c *imgCfg, bm [][]bool, log *ShapeLog) string {
	if c.half != nil || c.bad != "" {
		return ""
	}
	n := len(bm)
	W, H := n*c.bw+c.b[1]+c.b[3], n*c.bw+c.b[0]+c.b[2]
	logo := false
	if c.logo != nil {
		logo = W >= c.mult*c.logo.Bounds().Dx() && H >= c.mult*c.logo.Bounds().Dy()
	}
	zone := logo && c.safe
	cleared := func(mx, my int) bool {
		if !zone {
			return false
		}
		lw, lh := c.logo.Bounds().Dx(), c.logo.Bounds().Dy()
		lx, ly := (W-lw)/2, (H-lh)/2
		x0, y0 := mx*c.bw+c.b[3], my*c.bw+c.b[0]
		return x0+c.bw > lx && x0 < lx+lw && y0+c.bw > ly && y0 < ly+lh
	}
	near := func(mx, my int) bool {
		for d := 0; d < 9; d++ {
			if cleared(mx+d%3-1, my+d/3-1) {
				return true
			}
		}
		return false
	}
	seen := make([]bool, n*n)
	cnt := 0
	for _, s := range log.Calls {
		fx, fy := (s.X-float64(c.b[3]))/float64(c.bw), (s.Y-float64(c.b[0]))/float64(c.bw)
		x, y := int(fx), int(fy)
		if fx != float64(x) || fy != float64(y) || x < 0 || y < 0 || x >= n || y >= n {
			return fmt.Sprintf("shape called at %v,%v, which is not the corner of a module", s.X, s.Y)
		}
		if seen[y*n+x] {
			return fmt.Sprintf("shape called twice for module %d,%d", x, y)
		}
		seen[y*n+x] = true
		cnt++
		if s.W != c.bw || s.H != c.bw {
			return fmt.Sprintf("shape called with edges %dx%d, want %d", s.W, s.H, c.bw)
		}
		if s.Finder != finderCell(x, y, n) {
			return fmt.Sprintf("module %d,%d: DrawFinder used: %v", x, y, s.Finder)
		}
		r, g, b, a := s.C.RGBA()
		want := c.bg
		if c.transp || c.bg.A != 255 {
			want = color.RGBA{} // the background is there already
		}
		if bm[y][x] {
			want = c.fg
		}
		wr, wg, wb, wa := want.RGBA()
		if r != wr || g != wg || b != wb || a != wa {
			return fmt.Sprintf("module %d,%d: shape called with colour %v, want %v", x, y, s.C, want)
		}
		if !near(x, y) {
			var nb uint16
			i := 0
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					u, v := x+dx, y+dy
					if u >= 0 && v >= 0 && u < n && v < n && bm[v][u] {
						nb |= 1 << i
					}
					i++
				}
			}
			if nb != s.N {
				return fmt.Sprintf("module %d,%d: neighbours %09b, want %09b", x, y, s.N, nb)
			}
		}
	}
	for i, ok := range seen {
		if !ok && !cleared(i%n, i/n) {
			return fmt.Sprintf("shape called for %d of %d modules, but not for module %d,%d", cnt, n*n, i%n, i/n)
		}
	}
	return ""
}

// CheckComp judges the output of the compressed writer.
func CheckComp(pad, bw int, bm [][]bool, data []byte) string {
	n := len(bm)
	m, why := decodeImage("png", data)
	if why != "" {
		return why
	}
	W := n*bw + 2*pad
	if b := m.Bounds(); b.Dx() != W || b.Dy() != W {
		return fmt.Sprintf("the picture is %dx%d, want %dx%d", b.Dx(), b.Dy(), W, W)
	}
	at := pixels(m)
	for y := 0; y < W; y++ {
		for x := 0; x < W; x++ {
			dark := false
			if mx, my := x-pad, y-pad; mx >= 0 && my >= 0 && mx < n*bw && my < n*bw {
				dark = bm[my/bw][mx/bw]
			}
			want := color.RGBA{255, 255, 255, 255}
			if dark {
				want = color.RGBA{0, 0, 0, 255}
			}
			if p := at(x, y); p != want {
				return fmt.Sprintf("pixel %d,%d is %v, want %v", x, y, p, want)
			}
		}
	}
	return ""
}

// TextOf renders a symbol with half blocks, two modules to a character.
func TextOf(bm [][]bool) string {
	var b strings.Builder
	for y := 0; y < len(bm); y += 2 {
		for x := range bm[y] {
			up := bm[y][x]
			down := y+1 < len(bm) && bm[y+1][x]
			switch {
			case up && down:
				b.WriteRune('█')
			case up:
				b.WriteRune('▀')
			case down:
				b.WriteRune('▄')
			default:
				b.WriteByte(' ')
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// CheckTerm judges what the terminal shows: dark and light modules two cells
// wide, a light margin of one module, everything else blank but for the tip
// below.
func CheckTerm(bm [][]bool, cells []simtermbox.Cell, w, h int) string {
	n := len(bm)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := cells[y*w+x]
			mx, my := x/2-1, y-1
			if mx < -1 || my < -1 || mx > n || my > n {
				continue
			}
			dark := mx >= 0 && my >= 0 && mx < n && my < n && bm[my][mx]
			shown := cellColor(c)
			want := simtermbox.ColorWhite
			if dark {
				want = simtermbox.ColorBlack
			}
			if shown != want {
				return fmt.Sprintf("cell %d,%d (module %d,%d) shows colour %d, want %d", x, y, mx, my, shown, want)
			}
		}
	}
	return ""
}

// cellColor is the colour a cell shows: that of the character if it fills the
// cell, else that of the background.
func cellColor(c simtermbox.Cell) simtermbox.Attribute {
	if c.Ch == '█' {
		return c.Fg
	}
	if c.Ch == ' ' || c.Ch == 0 {
		return c.Bg
	}
	return 0xffff
}

// CheckOutput judges what a save operation wrote, given the symbol.
func CheckOutput(sp *WSpec, bm [][]bool, data []byte) string {
	switch sp.Kind {
	case "std", "stdfile":
		return CheckStd(cfgOf(sp.Opts), bm, data)
	case "comp", "compfile":
		return CheckComp(sp.Pad, sp.Block, bm, data)
	case "file":
		if string(data) != TextOf(bm) {
			return "the text differs from the symbol: " + clip(fmt.Sprintf("%q", data))
		}
	}
	return ""
}

// output is what a save operation left in its sink or file.
func (r *Res) output(sp *WSpec) ([]byte, bool) {
	if r.Sink != nil {
		return r.Sink.Buf[r.BufFrom:r.BufTo], true
	}
	if sp.Path != "" && r.HasFile {
		return r.File, true
	}
	return nil, false
}
