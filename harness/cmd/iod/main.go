// iod drives render/io: sheet files, Gadget catalogues, grid files.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

var (
	dir   string
	dirNo int
)

func path(c drv.J) string { return filepath.Join(dir, c.S("f")) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(95)
	}
}

func begin(c drv.J) drv.J {
	if dir != "" {
		os.RemoveAll(dir)
	}
	dirNo++
	dir = filepath.Join(os.Getenv("DRV_TMP"), fmt.Sprintf("iod_%d_%d", os.Getpid(), dirNo))
	must(os.MkdirAll(dir, 0777))
	return drv.J{}
}

func fromWords(ws []int) []byte {
	b := make([]byte, 4*len(ws))
	for i, w := range ws {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(int32(w)))
	}
	return b
}

func toWords(b []byte) []int {
	o := make([]int, len(b)/4)
	for i := range o {
		o[i] = int(int32(binary.LittleEndian.Uint32(b[4*i:])))
	}
	return o
}

func vecs(ws []int) []geom.Vec {
	o := make([]geom.Vec, len(ws)/3)
	for i := range o {
		for d := 0; d < 3; d++ {
			o[i][d] = math.Float32frombits(uint32(int32(ws[3*i+d])))
		}
	}
	return o
}

func words(vs []geom.Vec) []int {
	o := make([]int, 3*len(vs))
	for i := range vs {
		for d := 0; d < 3; d++ {
			o[3*i+d] = int(int32(math.Float32bits(vs[i][d])))
		}
	}
	return o
}

func header(ws []int) io.SheetHeader {
	var h io.SheetHeader
	must(binary.Read(bytes.NewReader(fromWords(ws)), binary.LittleEndian, &h))
	return h
}

func headerWords(h *io.SheetHeader) []int {
	var b bytes.Buffer
	must(binary.Write(&b, binary.LittleEndian, h))
	return toWords(b.Bytes())
}

func errOr(err error, o drv.J) drv.J {
	if err != nil {
		return drv.J{"outcome": "err"}
	}
	return o
}

// a buffer that already holds something
func dirty(n int) []geom.Vec {
	o := make([]geom.Vec, n)
	for i := range o {
		o[i] = geom.Vec{-9, -9, -9}
	}
	return o
}

func main() {
	var hdBuf io.SheetHeader // deliberately shared between reads
	drv.Main(map[string]drv.Handler{
		"begin": begin,
		"write": func(c drv.J) drv.J {
			h := header(c.Is("h"))
			xs, vs := vecs(c.Is("xs")), vecs(c.Is("vs"))
			io.WriteSheet(path(c), &h, xs, vs)
			return drv.J{}
		},
		"cut": func(c drv.J) drv.J { must(os.Truncate(path(c), int64(c.I("k")))); return drv.J{} },
		"foreign": func(c drv.J) drv.J {
			b, err := ioutil.ReadFile(path(c))
			must(err)
			n := binary.LittleEndian.Uint32(b[4:])
			binary.LittleEndian.PutUint32(b[4:], uint32(int(n)+c.I("d")))
			must(ioutil.WriteFile(path(c), b, 0666))
			return drv.J{}
		},
		"remove": func(c drv.J) drv.J { must(os.Remove(path(c))); return drv.J{} },
		// rewrite the file in big-endian byte order, following the documented layout
		"big": func(c drv.J) drv.J {
			b, err := ioutil.ReadFile(path(c))
			must(err)
			swap := func(lo, n int) {
				for i, j := lo, lo+n-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			}
			binary.BigEndian.PutUint32(b[0:], 0xffffffff)
			swap(4, 4)
			for i := 0; i < 13; i++ { // 4 + 7 + 2 eight-byte fields
				swap(8+8*i, 8)
			}
			for i := 8 + 8*13; i+4 <= len(b); i += 4 {
				swap(i, 4)
			}
			must(ioutil.WriteFile(path(c), b, 0666))
			return drv.J{}
		},
		"rdh": func(c drv.J) drv.J {
			err := io.ReadSheetHeaderAt(path(c), &hdBuf)
			return errOr(err, drv.J{"h": headerWords(&hdBuf)})
		},
		"rdx": func(c drv.J) drv.J {
			buf := dirty(c.I("n"))
			err := io.ReadSheetPositionsAt(path(c), buf)
			return errOr(err, drv.J{"out": words(buf)})
		},
		"rdv": func(c drv.J) drv.J {
			buf := dirty(c.I("n"))
			err := io.ReadSheetVelocitiesAt(path(c), buf)
			return errOr(err, drv.J{"out": words(buf)})
		},
		"gput": func(c drv.J) drv.J {
			b, err := hex.DecodeString(c.S("hex"))
			must(err)
			must(ioutil.WriteFile(path(c), b, 0666))
			return drv.J{}
		},
		"gdamage": func(c drv.J) drv.J {
			b, err := ioutil.ReadFile(path(c))
			must(err)
			d, err := hex.DecodeString(c.S("hex"))
			must(err)
			copy(b[c.I("off"):], d)
			must(ioutil.WriteFile(path(c), b, 0666))
			return drv.J{}
		},
		"gadget":  gadget,
		"gheader": gheader,
		"keep": func(c drv.J) drv.J {
			b, err := ioutil.ReadFile(path(c))
			must(err)
			must(ioutil.WriteFile(filepath.Join(dir, c.S("to")), b, 0666))
			return drv.J{}
		},
		"gbegin": gbegin,
		"gtet":   gtet,
		"rdgh":   readGridHeader,
		"rdg":    readVals,
	})
}

func order(c drv.J) binary.ByteOrder {
	if c.S("order") == "big" {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func vecInts(vs []geom.Vec, sc float64) []int {
	o := make([]int, 3*len(vs))
	for i := range vs {
		for d := 0; d < 3; d++ {
			o[3*i+d] = drv.Fx(float64(vs[i][d]), sc)
		}
	}
	return o
}

func catHeader(h *io.CatalogHeader, sc float64) drv.J {
	return drv.J{
		"count": h.Count, "total": h.TotalCount, "mass": drv.Fx(h.Mass, sc), "width": drv.Fx(h.TotalWidth, sc),
		"z": drv.Fx(h.Cosmo.Z, sc), "om": drv.Fx(h.Cosmo.OmegaM, sc), "ol": drv.Fx(h.Cosmo.OmegaL, sc),
		"h100": drv.Fx(h.Cosmo.H100, sc),
	}
}

func gheader(c drv.J) drv.J {
	h := io.ReadGadgetHeader(path(c), order(c), c.S("variant"))
	return drv.J{"hd": catHeader(h, c.F("sc"))}
}

func gadget(c drv.J) drv.J {
	sc := c.F("sc")
	h, xs, vs, ids := io.ReadGadget(path(c), order(c), c.I("idsize"), c.S("variant"))
	is := make([][2]int, len(ids)) // high and low word
	for i := range ids {
		is[i] = [2]int{int(int32(ids[i] >> 32)), int(int32(ids[i]))}
	}
	return drv.J{"hd": catHeader(h, sc), "xs": vecInts(xs, sc), "vs": vecInts(vs, c.F("vsc")), "ids": is}
}
