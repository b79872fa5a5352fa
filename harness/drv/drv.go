// Package drv is the thin adapter between recorded cases and the real code: it reads
// one JSON case per line, performs the call it names and answers with the case
// extended by what the code did.
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"
)

// J is a JSON object.
type J map[string]interface{}

// Bad marks a number that is not exactly representable on the integer grid the
// specification works on (also NaN, infinities and values out of range).
const Bad = -2147483647

// Handler performs one case and returns the fields describing the outcome.
type Handler func(J) J

// Main runs every case on stdin.
func Main(handlers map[string]Handler) {
	limit := 20.0
	if v, err := strconv.ParseFloat(os.Getenv("DRV_OP_TIMEOUT"), 64); err == nil {
		limit = v
	}
	out := os.NewFile(uintptr(dupStdout()), "out")
	w := bufio.NewWriterSize(out, 1<<16)
	emit := func(j J) {
		b, err := json.Marshal(j)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(97)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	type res struct{ j J }
	for sc.Scan() {
		var c J
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			os.Exit(98)
		}
		h, ok := handlers[c.S("e")]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown event", c.S("e"))
			os.Exit(99)
		}
		done := make(chan J, 1)
		go func() {
			o := J{"outcome": "ok"}
			defer func() {
				if r := recover(); r != nil {
					o = J{"outcome": "panic", "msg": clip(fmt.Sprint(r))}
				}
				done <- o
			}()
			for k, v := range h(c) {
				o[k] = v
			}
		}()
		select {
		case o := <-done:
			for k, v := range o {
				c[k] = v
			}
			emit(c)
		case <-time.After(time.Duration(limit * float64(time.Second))):
			c["outcome"] = "hang"
			emit(c)
			os.Exit(0)
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	b := []byte(s)
	for i := range b {
		if b[i] < 32 || b[i] > 126 {
			b[i] = '?'
		}
	}
	return string(b)
}

// S returns a string field ("" if absent).
func (j J) S(k string) string { s, _ := j[k].(string); return s }

// I returns an integer field (0 if absent).
func (j J) I(k string) int {
	switch v := j[k].(type) {
	case float64:
		return int(v)
	case string:
		n, _ := strconv.ParseInt(v, 0, 64)
		return int(n)
	}
	return 0
}

// F returns a number field (0 if absent).
func (j J) F(k string) float64 { f, _ := j[k].(float64); return f }

// B returns a boolean field.
func (j J) B(k string) bool { b, _ := j[k].(bool); return b }

// L returns a list field.
func (j J) L(k string) []interface{} { l, _ := j[k].([]interface{}); return l }

// Obj returns an object field.
func (j J) Obj(k string) J {
	m, _ := j[k].(map[string]interface{})
	return J(m)
}

// Is returns a list of integers.
func (j J) Is(k string) []int {
	l := j.L(k)
	o := make([]int, len(l))
	for i := range l {
		o[i] = int(l[i].(float64))
	}
	return o
}

// Fs returns a list of numbers divided by scale.
func (j J) Fs(k string, scale float64) []float64 {
	l := j.L(k)
	o := make([]float64, len(l))
	for i := range l {
		o[i] = l[i].(float64) / scale
	}
	return o
}

// F3s returns a flat list of 3-vectors of float32 divided by scale.
func (j J) F3s(k string, scale float64) [][3]float32 {
	l := j.L(k)
	o := make([][3]float32, len(l)/3)
	for i := range o {
		for d := 0; d < 3; d++ {
			o[i][d] = float32(l[3*i+d].(float64) / scale)
		}
	}
	return o
}

// Fx converts a number to the integer grid with the given scale, exactly.
func Fx(v, scale float64) int {
	r := v * scale
	if math.IsNaN(r) || math.IsInf(r, 0) || r != math.Trunc(r) || math.Abs(r) > 2147483000 {
		return Bad
	}
	return int(r)
}

// Rx converts a number to the nearest point of the integer grid with the given scale.
func Rx(v, scale float64) int {
	r := v * scale
	if math.IsNaN(r) || math.IsInf(r, 0) || math.Abs(r) > 2147483000 {
		return Bad
	}
	return int(math.Floor(r + 0.5))
}

// Fxs is Fx over a slice.
func Fxs(vs []float64, scale float64) []int {
	o := make([]int, len(vs))
	for i := range vs {
		o[i] = Fx(vs[i], scale)
	}
	return o
}

// Rxs is Rx over a slice.
func Rxs(vs []float64, scale float64) []int {
	o := make([]int, len(vs))
	for i := range vs {
		o[i] = Rx(vs[i], scale)
	}
	return o
}

// Fx32s is Fx over a slice of float32.
func Fx32s(vs []float32, scale float64) []int {
	o := make([]int, len(vs))
	for i := range vs {
		o[i] = Fx(float64(vs[i]), scale)
	}
	return o
}
