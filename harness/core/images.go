package core

import (
	"bytes"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
)

// quarterDark tells which quarters of a picture of that kind are black.
func quarterDark(s *ImgSpec, right, below bool) bool {
	i := 0
	if right {
		i = 1
	}
	if below {
		i += 2
	}
	return s.Seed>>i&1 == 1
}

// MakeImage renders a picture spec.
func MakeImage(s *ImgSpec) image.Image {
	if s == nil {
		return nil
	}
	return makeImage(s, image.Rect(s.X, s.Y, s.X+s.W, s.Y+s.H))
}

func makeImage(s *ImgSpec, b image.Rectangle) image.Image {
	r := NewRNG(s.Seed, hashStr(s.Kind))
	switch s.Kind {
	case "gray":
		m := image.NewGray(b)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.U())
		}
		return m
	case "gray16":
		m := image.NewGray16(b)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.U())
		}
		return m
	case "paletted":
		m := image.NewPaletted(b, color.Palette{color.White, color.Black, color.RGBA{200, 30, 30, 255}})
		for i := range m.Pix {
			m.Pix[i] = uint8(r.N(3))
		}
		return m
	case "alpha":
		m := image.NewNRGBA(b)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.U())
		}
		return m
	case "solid":
		m := image.NewRGBA(b)
		c := color.RGBA{uint8(r.U()), uint8(r.U()), uint8(r.U()), 255}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				m.SetRGBA(x, y, c)
			}
		}
		return m
	case "white", "black":
		m := image.NewGray(b)
		if s.Kind == "white" {
			for i := range m.Pix {
				m.Pix[i] = 255
			}
		}
		return m
	case "quarters": // black and white quarters
		m := image.NewGray(b)
		for y := 0; y < b.Dy(); y++ {
			for x := 0; x < b.Dx(); x++ {
				if !quarterDark(s, 2*x >= b.Dx(), 2*y >= b.Dy()) {
					m.SetGray(b.Min.X+x, b.Min.Y+y, color.Gray{Y: 255})
				}
			}
		}
		return m
	case "check":
		m := image.NewRGBA(b)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				c := color.RGBA{255, 255, 255, 255}
				if ((x-b.Min.X)/7+(y-b.Min.Y)/5)%2 == 0 {
					c = color.RGBA{20, 20, 90, 255}
				}
				m.SetRGBA(x, y, c)
			}
		}
		return m
	default: // noise
		m := image.NewRGBA(b)
		for i := range m.Pix {
			m.Pix[i] = uint8(r.U())
			if i%4 == 3 {
				m.Pix[i] = 255
			}
		}
		return m
	}
}

// Bytes renders a file spec.
func (f *FSpec) Bytes() []byte {
	var out []byte
	switch {
	case f.Img != nil:
		var buf bytes.Buffer
		m := MakeImage(f.Img)
		var err error
		switch f.Fmt {
		case "jpeg":
			err = jpeg.Encode(&buf, m, nil)
		case "png":
			err = png.Encode(&buf, m)
		case "gif": // a fixed GIF: nothing in the program registers a GIF decoder
			buf.WriteString("GIF89a\x01\x00\x01\x00\x80\x00\x00\xff\xff\xff\x00\x00\x00!\xf9\x04\x00\x00\x00\x00\x00,\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02D\x01\x00;")
		}
		if err != nil {
			panic(err)
		}
		out = buf.Bytes()
	case f.Fill > 0:
		out = make([]byte, f.Fill)
		r := NewRNG(uint64(f.Fill), 77)
		for i := range out {
			out[i] = byte(r.U())
		}
	default:
		out = append([]byte(nil), f.Raw...)
	}
	if f.Trunc > 0 && f.Trunc < len(out) {
		out = out[:f.Trunc]
	}
	for _, b := range f.Flip {
		if len(out) > 0 {
			i := b % (len(out) * 8)
			out[i/8] ^= 1 << (i % 8)
		}
	}
	for len(out) < f.Pad {
		out = append(out, 0)
	}
	return out
}
