// Symbol decoder: init_symbol, a sequence of symbols and literals, exit_symbol.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Data    []int
	Start   int
	Sz      int
	NoAdapt int
	NoEnd   int // disable_frame_end_update_cdf
	Cdfs    [][]int
	Ops     [][2]int
}

func randCdf(r *Rng) []int {
	n := r.Pick(2, 2, 3, 3, 4, 5, 7, 8, 10, 13, 16)
	c := make([]int, n+1)
	mode := r.Intn(4)
	for i := 0; i < n-1; i++ {
		switch mode {
		case 0:
			c[i] = 32768 * (i + 1) / n
		case 1:
			c[i] = r.Range(0, 32768)
		case 2: // almost all weight on the first symbol
			c[i] = 32768 - r.Range(1, 40)*4
		default: // almost all weight on the last
			c[i] = r.Range(1, 40) * 4
		}
	}
	for i := 1; i < n-1; i++ { // sort
		for j := i; j > 0 && c[j] < c[j-1]; j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	c[n-1] = 32768
	c[n] = r.Pick(0, 0, 1, 14, 15, 16, 30, 31, 32, r.Intn(33))
	return c
}

func gen(r *Rng, i int) in {
	c := in{Start: r.Intn(3), NoAdapt: r.Pick(0, 0, 1), NoEnd: r.Intn(2)}
	switch r.Intn(3) {
	case 0:
		c.Sz = r.Range(1, 4)
	case 1:
		c.Sz = r.Range(1, 12)
	default:
		c.Sz = r.Range(4, 24)
	}
	c.Data = r.Bytes(c.Start+c.Sz+r.Intn(4), r.Pick(1, 3, 8, 8, 8, 13, 15))
	for k := r.Range(1, 3); k > 0; k-- {
		c.Cdfs = append(c.Cdfs, randCdf(r))
	}
	n := r.Range(0, 10)
	if r.Chance(1, 3) {
		n = r.Range(8, 45)
	}
	for k := 0; k < n; k++ {
		switch r.Intn(6) {
		case 0:
			c.Ops = append(c.Ops, [2]int{1, r.Range(0, 9)})
		case 1:
			c.Ops = append(c.Ops, [2]int{2, r.Range(1, 40)})
		default:
			c.Ops = append(c.Ops, [2]int{0, r.Range(1, len(c.Cdfs))})
		}
	}
	return c
}

var s = new(state.State)

func run(c in) map[string]any {
	b := bitstream.NewBitStream(Bytes(c.Data))
	b.Position = 8 * c.Start
	uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: c.NoAdapt == 1, DisableFrameEndUpdateCdf: c.NoEnd == 1}
	t := &tilegroup.TileGroup{}
	steps := []any{}
	rec := func(y int) {
		steps = append(steps, map[string]any{"y": y, "v": s.SymbolValue, "r": s.SymbolRange, "m": s.SymbolMaxBits, "p": b.Position})
	}
	st, msg := TryHere(func() {
		tilegroup.XInitSymbol(t, c.Sz, &b, s)
		rec(0)
		for _, o := range c.Ops {
			y := 0
			switch o[0] {
			case 0:
				y = symbol.ReadSymbol(c.Cdfs[o[1]-1], s, &b, uh)
			case 1:
				y = literal.L(o[1], s, &b, uh)
			default:
				y = literal.NS(o[1], s, &b, uh)
			}
			rec(y)
		}
		tilegroup.XExitSymbol(t, &b, s, uh)
	})
	return map[string]any{"st": st, "msg": msg, "p": b.Position, "steps": steps, "cdfs": c.Cdfs}
}

func main() { Main(gen, run) }
