// Package table is a stand-in for github.com/phil-mansfield/table, which is not
// available offline: it reads whitespace-separated numeric columns, skipping
// blank lines and lines starting with '#'.
package table

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
)

type TextConfig struct{}

func ReadTable(fname string, colIdxs []int, _ *TextConfig) ([][]float64, error) {
	f, err := os.Open(fname)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	cols := make([][]float64, len(colIdxs))
	for i := range cols {
		cols[i] = []float64{}
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<16), 1<<24)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || line[0] == '#' {
			continue
		}
		ws := strings.Fields(line)
		for i, ci := range colIdxs {
			if ci >= len(ws) {
				return nil, fmt.Errorf("table: column %d missing", ci)
			}
			x, err := strconv.ParseFloat(ws[ci], 64)
			if err != nil {
				return nil, err
			}
			cols[i] = append(cols[i], x)
		}
	}
	return cols, sc.Err()
}
