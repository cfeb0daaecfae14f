// Reconstruction: coefficients of one or two transform blocks are scaled,
// transformed and added to what the frame holds.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Depth                   int
	BaseQ, CurQ, Dq         int
	SegOn                   int
	AltOn, AltQ             [8]int
	YDc, UDc, VDc, UAc, VAc int
	Qm                      int
	QmLevel                 [3][8]int
	B, P, Q                 int // samples before: (B + P*row + Q*column) mod 2^Depth
	Blocks                  []tilegroup.XBlock
}

const rows, cols = 80, 144

var dims = [19][2]int{{4, 4}, {8, 8}, {16, 16}, {32, 32}, {64, 64}, {4, 8}, {8, 4}, {8, 16}, {16, 8}, {16, 32}, {32, 16},
	{32, 64}, {64, 32}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func block(r *Rng, c in, i, k int) tilegroup.XBlock {
	b := tilegroup.XBlock{Plane: r.Intn(3), Sz: (i*7 + k*5) % 19, Seg: r.Intn(8)}
	if r.Chance(1, 3) {
		b.Sz = r.Intn(19)
	}
	if b.Sz == 4 && r.Chance(1, 2) {
		b.Sz = r.Intn(4)
	}
	w, h := dims[b.Sz][0], dims[b.Sz][1]
	big := w
	if h > big {
		big = h
	}
	switch {
	case big == 64:
		b.Ty = 0
	case big == 32:
		b.Ty = r.Pick(0, 0, 9)
	default:
		b.Ty = r.Intn(16)
	}
	if b.Sz == 0 && r.Chance(1, 3) {
		b.Ty, b.Lossless = 0, 1
	}
	b.X, b.Y = 72*k+4*r.Intn((72-w)/4+1), 4*r.Intn((rows-h)/4+1)
	tw, th := w, h
	if tw > 32 {
		tw = 32
	}
	if th > 32 {
		th = 32
	}
	n := r.Pick(1, 1, 2, 3, 6, 12)
	mag := r.Pick(1, 3, 20, 200, 2000)
	if r.Chance(1, 25) {
		mag = 1 << uint(r.Range(12, 20))
	}
	seen := map[int]bool{}
	for ; n > 0; n-- {
		p := r.Intn(tw * th)
		if r.Chance(1, 2) {
			p = r.Intn(4)*tw + r.Intn(4)
		}
		if r.Chance(1, 4) {
			p = 0
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		v := r.Range(1, mag)
		if r.Chance(1, 2) {
			v = -v
		}
		b.Coef = append(b.Coef, [2]int{p, v})
	}
	return b
}

func gen(r *Rng, i int) in {
	c := in{Depth: r.Pick(8, 8, 10, 12), BaseQ: r.Intn(256), CurQ: r.Range(1, 255), Dq: r.Intn(2), SegOn: r.Intn(2), Qm: r.Intn(2)}
	if r.Chance(1, 3) {
		c.BaseQ, c.CurQ = r.Intn(40), r.Range(1, 40)
	}
	if r.Chance(1, 12) {
		c.BaseQ = r.Pick(0, 255)
	}
	for k := range c.AltOn {
		c.AltOn[k], c.AltQ[k] = r.Intn(2), r.Range(-255, 255)
		if r.Chance(1, 2) {
			c.AltQ[k] = r.Range(-20, 20)
		}
		for p := range c.QmLevel {
			c.QmLevel[p][k] = r.Intn(16)
		}
	}
	if r.Chance(1, 2) {
		c.YDc, c.UDc, c.VDc, c.UAc, c.VAc = r.Range(-64, 63), r.Range(-64, 63), r.Range(-64, 63), r.Range(-64, 63), r.Range(-64, 63)
	}
	c.B, c.P, c.Q = r.Intn(1<<uint(c.Depth)), r.Pick(0, 1, 3, 17), r.Pick(0, 1, 5, 29)
	for k := 0; k < 1+r.Intn(2); k++ {
		c.Blocks = append(c.Blocks, block(r, c, i, k))
	}
	if r.Chance(1, 10) {
		wrap(r, &c)
	}
	return c
}

// wrap makes products of coefficient and quantizer lie close to multiples of 2^24.
func wrap(r *Rng, c *in) {
	c.SegOn, c.Dq, c.Qm, c.BaseQ = 0, 0, 0, 255
	c.YDc, c.UDc, c.VDc, c.UAc, c.VAc = 0, 0, 0, 0, 0
	q := map[int][2]int{8: {1336, 1828}, 10: {5347, 7312}, 12: {21387, 29247}}[c.Depth]
	for k := range c.Blocks {
		b := &c.Blocks[k]
		if r.Chance(1, 2) {
			b.Sz, b.Ty, b.Lossless = r.Pick(3, 4, 9, 10, 11, 12, 17, 18), 0, 0
			b.X, b.Y = 72*k+4*r.Intn((72-dims[b.Sz][0])/4+1), 4*r.Intn((rows-dims[b.Sz][1])/4+1)
		}
		for n := range b.Coef {
			if b.Coef[n][0] > 15 {
				b.Coef[n][0] = n + 1
			}
		}
		seen := map[int]bool{}
		keep := [][2]int{}
		for _, e := range b.Coef {
			if seen[e[0]] {
				continue
			}
			seen[e[0]] = true
			d := q[1]
			if e[0] == 0 {
				d = q[0]
			}
			v := r.Range(1, d/16-1)<<24/d + r.Intn(3)
			if e[1] < 0 {
				v = -v
			}
			keep = append(keep, [2]int{e[0], v})
		}
		b.Coef = keep
	}
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	s := new(state.State)
	sh.ColorConfig.BitDepth = c.Depth
	uh.BaseQIdx, s.CurrentQIndex, uh.DeltaQPresent = c.BaseQ, c.CurQ, c.Dq == 1
	uh.SegmentationEnabled = c.SegOn == 1
	for k := range c.AltOn {
		s.FeatureEnabled[k][0], s.FeatureData[k][0] = c.AltOn[k], c.AltQ[k]
		for p := range c.QmLevel {
			uh.SegQMLevel[p][k] = c.QmLevel[p][k]
		}
	}
	uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQVDc, uh.DeltaQUAc, uh.DeltaQVAc = c.YDc, c.UDc, c.VDc, c.UAc, c.VAc
	uh.UsingQMatrix = c.Qm == 1
	base := func(y, x int) int { return (c.B + c.P*y + c.Q*x) % (1 << uint(c.Depth)) }
	s.CurrFrame = state.NewFrame(rows, cols)
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				s.CurrFrame[p][y][x] = base(y, x)
			}
		}
	}
	t := &tilegroup.TileGroup{}
	out := map[string]any{}
	px := [][][]int{}
	st, msg := TryHere(func() {
		for _, b := range c.Blocks {
			t.XReconstruct(b, sh, uh, s)
		}
	})
	inside := func(p, y, x int) bool {
		for _, b := range c.Blocks {
			if p == b.Plane && y >= b.Y && y < b.Y+dims[b.Sz][1] && x >= b.X && x < b.X+dims[b.Sz][0] {
				return true
			}
		}
		return false
	}
	other := 0
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				if !inside(p, y, x) && s.CurrFrame[p][y][x] != base(y, x) {
					other++
				}
			}
		}
	}
	for _, b := range c.Blocks {
		m := [][]int{}
		for y := 0; y < dims[b.Sz][1]; y++ {
			m = append(m, append([]int{}, s.CurrFrame[b.Plane][b.Y+y][b.X:b.X+dims[b.Sz][0]]...))
		}
		px = append(px, m)
	}
	out["st"], out["msg"], out["px"], out["other"] = st, msg, px, other
	return out
}

func main() { Main(gen, run) }
