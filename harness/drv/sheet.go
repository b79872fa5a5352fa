package drv

import (
	"bytes"
	"encoding/binary"
	"os"
)

// Sheet is a sheet file as its documentation describes it.
type Sheet struct {
	Z, OmegaM, OmegaL, H100                                           float64
	Count, CountWidth, SegmentWidth, GridWidth, GridCount, Idx, Cells int64
	Mass, TotalWidth                                                  float64
	Origin, Width, VelocityOrigin, VelocityWidth                      [3]float32
}

// WriteSheetFile writes a sheet file without using the code under test.
func WriteSheetFile(path string, hd *Sheet, xs, vs [][3]float32) {
	b := &bytes.Buffer{}
	le := binary.LittleEndian
	binary.Write(b, le, [2]int32{0, 152})
	binary.Write(b, le, hd)
	binary.Write(b, le, xs)
	binary.Write(b, le, vs)
	if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
		panic("bad case: " + err.Error())
	}
}
