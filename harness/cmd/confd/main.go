// confd drives the configuration and bounds files.
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"strconv"

	"verif/drv"

	gio "github.com/phil-mansfield/gotetra/render/io"
	"gopkg.in/gcfg.v1"
)

func file(text string) string {
	p := filepath.Join(os.Getenv("DRV_TMP"), fmt.Sprintf("conf%d.cfg", os.Getpid()))
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic("bad case: " + err.Error())
	}
	return p
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', 17, 64)
	case reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	}
	return v.String()
}

func bounds(c drv.J) drv.J {
	L, err := strconv.ParseFloat(c.S("L"), 64)
	if err != nil {
		panic("bad case")
	}
	sc := float64(c.I("u")) / L
	boxes, err := gio.ReadBoundsConfig(file(c.S("text")), L)
	got := []drv.J{}
	if err != nil {
		return drv.J{"outcome": "err", "got": got}
	}
	for _, b := range boxes {
		got = append(got, drv.J{"name": b.Name, "axis": b.ProjectionAxis,
			"X": drv.Rxs([]float64{b.X, b.Y, b.Z}, sc), "W": drv.Rxs([]float64{b.XWidth, b.YWidth, b.ZWidth}, sc)})
		if b.IsProjection() != (b.ProjectionAxis != "") {
			return drv.J{"outcome": "inconsistent", "got": got}
		}
	}
	return drv.J{"got": got}
}

func main() {
	log.SetOutput(io.Discard)
	drv.Main(map[string]drv.Handler{
		"bounds":   bounds,
		"exregion": bounds,
		"parse": func(c drv.J) drv.J {
			var wrap, con interface{}
			switch c.S("sec") {
			case "Render":
				w := gio.DefaultRenderWrapper()
				wrap, con = w, &w.Render
			case "ConvertSnapshot":
				w := gio.DefaultConvertSnapshotWrapper()
				wrap, con = w, &w.ConvertSnapshot
			case "TetraHist":
				w := gio.DefaultTetraHistWrapper()
				wrap, con = w, &w.TetraHist
			}
			vals := drv.J{}
			if err := gcfg.ReadFileInto(wrap, file(c.S("text"))); err != nil {
				return drv.J{"outcome": "err", "vals": vals}
			}
			for k := range c["shown"].(map[string]interface{}) {
				if f := reflect.ValueOf(con).Elem().FieldByName(k); f.IsValid() {
					vals[k] = show(f)
				}
			}
			return drv.J{"vals": vals}
		},
		"valid": func(c drv.J) drv.J {
			f := drv.J(c["f"].(map[string]interface{}))
			sh := gio.SharedConfig{Input: f.S("in"), Output: f.S("out"), LogFile: f.S("log"), ProfileFile: f.S("prof")}
			var con interface{}
			switch c.S("sec") {
			case "Render":
				con = &gio.RenderConfig{SharedConfig: sh, Quantity: f.S("q"), TotalPixels: f.I("tp"), Particles: f.I("pts"),
					ImagePixels: f.I("ip"), ProjectionDepth: f.I("pd"), SubsampleLength: f.I("skip")}
			case "ConvertSnapshot":
				con = &gio.ConvertSnapshotConfig{SharedConfig: sh, Cells: f.I("cells"), Gadget2IDSize: f.I("idsize"), InputFormat: f.S("fmt"),
					IteratedInput: f.S("iin"), IteratedOutput: f.S("iout"), IterationStart: f.I("start"), IterationEnd: f.I("end")}
			default:
				con = &gio.TetraHistConfig{SharedConfig: sh, Quantity: f.S("q"), HistMin: float64(f.I("min")) / 8, HistMax: float64(f.I("max")) / 8,
					HistBins: f.I("bins"), HistScale: f.S("scale"), Particles: f.I("pts"), SubsampleLength: f.I("skip"), GridFile: f.S("grid")}
			}
			v := drv.J{}
			t := reflect.ValueOf(con)
			for i := 0; i < t.NumMethod(); i++ {
				m := t.Type().Method(i)
				if m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0).Kind() == reflect.Bool {
					v[m.Name] = t.Method(i).Call(nil)[0].Bool()
				}
			}
			return drv.J{"v": v}
		},
	})
}
