// Scaling of coefficients: every weight of every quantizer matrix (Kind 0) and
// every entry of the quantizer tables (Kind 1).
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct{ Kind, Depth, Sz, Level, Plane, Q, Coef int }

const weights, tables = 19 * 15 * 3, 3 * 256

func gen(r *Rng, i int) in {
	if i < weights {
		return in{Kind: 0, Depth: 8, Sz: i % 19, Level: i / 19 % 15, Plane: i / 19 / 15, Q: 255, Coef: r.Pick(1, 1, -1)}
	}
	i -= weights
	return in{Kind: 1, Depth: 8 + 2*(i%3), Sz: 0, Level: 15, Plane: r.Intn(3), Q: i / 3 % 256, Coef: r.Pick(1, -1)}
}

var dims = [19][2]int{{4, 4}, {8, 8}, {16, 16}, {32, 32}, {32, 32}, {4, 8}, {8, 4}, {8, 16}, {16, 8}, {16, 32}, {32, 16},
	{32, 32}, {32, 32}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 32}, {32, 16}}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	s := new(state.State)
	sh.ColorConfig.BitDepth = c.Depth
	uh.BaseQIdx, uh.UsingQMatrix = c.Q, c.Kind == 0
	for p := range uh.SegQMLevel {
		uh.SegQMLevel[p][0] = (c.Level + 3 + p) % 16
	}
	uh.SegQMLevel[c.Plane][0] = c.Level
	s.CurrFrame = state.NewFrame(64, 64)
	out := map[string]any{"m": [][]int{}}
	st, msg := TryHere(func() { out["m"] = tilegroup.XScale(c.Plane, c.Sz, c.Coef, sh, uh, s, dims[c.Sz][0], dims[c.Sz][1]) })
	out["st"], out["msg"] = st, msg
	return out
}

func main() { Main(gen, run) }
