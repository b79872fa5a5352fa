// interpd drives math/interpolate: smoothing kernels (C20) and interpolators (C19).
package main

import (
	"verif/drv"
)

func main() {
	h := map[string]drv.Handler{}
	filterHandlers(h)
	tableHandlers(h)
	drv.Main(h)
}
