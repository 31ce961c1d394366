// C21: decode every file of a corpus with Go's image/jpeg and compare with the intervals of the .ref files.
// Output: MISMATCH <name> <text> | SUMMARY files=.. pixels=.. unsupported=..
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/jpeg"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

type ref struct {
	w, h, n, kind    int
	lo, hi, rlo, rhi []byte
}

func load(p string) ref {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	u := func(i int) int { return int(binary.BigEndian.Uint32(b[4+4*i:])) }
	r := ref{w: u(0), h: u(1), n: u(2), kind: u(3)}
	b = b[20:]
	k := r.w * r.h * r.n
	r.lo, r.hi = b[:k], b[k:2*k]
	b = b[2*k:]
	if r.kind == 1 || r.kind == 3 {
		k = r.w * r.h * 3
		r.rlo, r.rhi = b[:k], b[k:2*k]
	}
	return r
}

// image/jpeg does not support 4 components with other factors than these, and it counts restart intervals of
// single-component scans in MCUs of h x v blocks although such an MCU is one block (ITU T.81 A.2.2).
func unsupported(b []byte) bool {
	var f []byte
	dri, single := 0, false
	for i := 2; i+4 < len(b) && b[i] == 0xFF; {
		l := int(b[i+2])<<8 | int(b[i+3])
		switch b[i+1] {
		case 0xC0, 0xC1, 0xC2:
			for k := 0; k < int(b[i+9]); k++ {
				f = append(f, b[i+11+3*k])
			}
			single = b[i+1] == 0xC2
		case 0xDD:
			dri = int(b[i+4])<<8 | int(b[i+5])
		case 0xDA:
			if int(b[i+4]) < len(f) {
				single = true
			}
			s := fmt.Sprintf("%x", f)
			if len(f) == 4 && s != "11111111" && s != "22111122" {
				return true
			}
			return len(f) > 1 && dri > 0 && single && strings.Trim(s, "1") != ""
		}
		i += 2 + l
	}
	return false
}

func one(name string) (px int, skipped bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("decoder panic: %v", r)
		}
	}()
	b, e := os.ReadFile(name)
	if e != nil {
		panic(e)
	}
	r := load(strings.TrimSuffix(name, ".jpg") + ".ref")
	if unsupported(b) {
		return 0, true, nil
	}
	cfg, e := jpeg.DecodeConfig(bytes.NewReader(b))
	if e != nil {
		return 0, false, fmt.Errorf("DecodeConfig: %v", e)
	}
	if cfg.Width != r.w || cfg.Height != r.h {
		return 0, false, fmt.Errorf("size %dx%d, requested %dx%d", cfg.Width, cfg.Height, r.w, r.h)
	}
	img, e := jpeg.Decode(bytes.NewReader(b))
	if e != nil {
		return 0, false, fmt.Errorf("Decode: %v", e)
	}
	bad := func(x, y, c int, v, lo, hi byte) error {
		return fmt.Errorf("pixel (%d,%d) channel %d decodes to %d, expected %d..%d", x, y, c, v, lo, hi)
	}
	o := img.Bounds().Min
	if img.Bounds().Dx() != r.w || img.Bounds().Dy() != r.h {
		return 0, false, fmt.Errorf("bounds %v", img.Bounds())
	}
	for y := 0; y < r.h; y++ {
		for x := 0; x < r.w; x++ {
			p := y*r.w + x
			switch m := img.(type) {
			case *image.Gray:
				if r.kind != 0 {
					return 0, false, fmt.Errorf("decodes as grey")
				}
				if v := m.GrayAt(o.X+x, o.Y+y).Y; v < r.lo[p] || v > r.hi[p] {
					return 0, false, bad(x, y, 0, v, r.lo[p], r.hi[p])
				}
			case *image.YCbCr:
				if r.kind != 1 {
					return 0, false, fmt.Errorf("decodes as YCbCr")
				}
				q := m.YCbCrAt(o.X+x, o.Y+y)
				for k, v := range []byte{q.Y, q.Cb, q.Cr} {
					if v < r.lo[p*3+k] || v > r.hi[p*3+k] {
						return 0, false, bad(x, y, k, v, r.lo[p*3+k], r.hi[p*3+k])
					}
				}
			case *image.CMYK:
				q := m.CMYKAt(o.X+x, o.Y+y)
				for k, v := range []byte{q.C, q.M, q.Y, q.K} {
					lo, hi := 255-r.hi[p*4+k], 255-r.lo[p*4+k]
					if r.kind == 3 && k < 3 {
						lo, hi = r.rlo[p*3+k], r.rhi[p*3+k]
					} else if r.kind < 2 {
						return 0, false, fmt.Errorf("decodes as CMYK")
					}
					if v < lo || v > hi {
						return 0, false, bad(x, y, k, v, lo, hi)
					}
				}
			default:
				return 0, false, fmt.Errorf("decodes as %T", img)
			}
		}
	}
	return r.w * r.h, false, nil
}

func main() {
	names, _ := filepath.Glob(filepath.Join(os.Args[1], "*.jpg"))
	sort.Strings(names)
	var mu sync.Mutex
	var wg sync.WaitGroup
	files, pixels, skip := 0, 0, 0
	ch := make(chan string)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				px, s, err := one(n)
				mu.Lock()
				if err != nil {
					fmt.Printf("MISMATCH\t%s\t%v\n", strings.TrimSuffix(filepath.Base(n), ".jpg"), err)
				} else if s {
					skip++
				} else {
					files++
					pixels += px
				}
				mu.Unlock()
			}
		}()
	}
	for _, n := range names {
		ch <- n
	}
	close(ch)
	wg.Wait()
	fmt.Printf("SUMMARY\t%d\t%d\t%d\n", files, pixels, skip)
}
