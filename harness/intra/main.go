// Intra prediction of one transform block from the samples around it.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Depth, SubX, SubY, Filter, MiRows, MiCols int
	B, P, Q, R                                int // samples before: (B + P y y + Q x x + R x y) mod 2^Depth
	Blk                                       tilegroup.XIntra
	Warm                                      tilegroup.XIntra // predicted before, elsewhere
}

const size = 160

var dims = [19][2]int{{2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {2, 3}, {3, 2}, {3, 4}, {4, 3}, {4, 5}, {5, 4},
	{5, 6}, {6, 5}, {2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

func block(r *Rng, c in, i int) tilegroup.XIntra {
	b := &tilegroup.XIntra{}
	b.Plane = r.Pick(0, 0, 0, 1, 2)
	d := dims[(i/13)%19]
	if r.Chance(1, 5) {
		d = dims[r.Pick(0, 0, 5, 6)]
	} else if r.Chance(1, 2) {
		d = dims[r.Pick(0, 1, 2, 5, 6, 7, 8, 13, 14, 15, 16)]
	}
	b.LogW, b.LogH = d[0], d[1]
	w, h := 1<<uint(d[0]), 1<<uint(d[1])
	b.Mode = i % 13
	if r.Chance(1, 3) {
		b.Mode = r.Range(1, 8)
	}
	b.Fi = -1
	if w <= 32 && h <= 32 && b.Plane == 0 && r.Chance(1, 8) {
		b.Mode, b.Fi = 0, r.Intn(5)
	}
	b.AdY, b.AdUV = r.Range(-3, 3), r.Range(-3, 3)
	b.Hl, b.Ha, b.Har, b.Hbl = 1-r.Intn(5)/4, 1-r.Intn(5)/4, r.Intn(2), r.Intn(2)
	sx, sy := 0, 0
	if b.Plane > 0 {
		sx, sy = c.SubX, c.SubY
	}
	pw, ph := c.MiCols*4>>uint(sx), c.MiRows*4>>uint(sy) // samples of the plane
	b.X, b.Y = 4*r.Intn(pw/4), 4*r.Intn(ph/4)
	if b.X+2*w > size {
		b.X = 4 * r.Intn((size-2*w)/4)
	}
	if b.Y+2*h > size {
		b.Y = 4 * r.Intn((size-2*h)/4)
	}
	if b.X == 0 {
		b.Hl = 0
	}
	if b.Y == 0 {
		b.Ha = 0
	}
	b.Row, b.Col = r.Range(3, c.MiRows-1), r.Range(3, c.MiCols-1)
	for k := 0; k < 16; k++ {
		b.YM[k/4][k%4], b.UM[k/4][k%4], b.Rf[k/4][k%4] = r.Pick(0, 1, 5, 8, 12, 9, 10, 11), r.Pick(0, 2, 8, 12, 13, 9, 10, 11), r.Pick(0, 0, 0, 1)
		if r.Chance(1, 2) {
			b.YM[k/4][k%4], b.UM[k/4][k%4] = r.Pick(0, 1, 8, 12), r.Pick(0, 12, 13)
		}
	}
	b.Au, b.Al, b.Auc, b.Alc = r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(2)
	return *b
}

func gen(r *Rng, i int) in {
	c := in{Depth: r.Pick(8, 8, 10, 12), SubX: r.Intn(2), Filter: 1 - r.Intn(4)/3, MiRows: 2 * r.Range(4, 14), MiCols: 2 * r.Range(4, 14)}
	if c.SubX == 1 {
		c.SubY = r.Intn(2)
	}
	m := 1 << uint(c.Depth)
	c.B, c.P, c.Q, c.R = r.Intn(m), r.Intn(m), r.Intn(m), r.Intn(m)
	if r.Chance(1, 3) {
		c.P, c.Q, c.R = r.Intn(3), r.Intn(3), r.Intn(3)
	}
	c.Blk, c.Warm = block(r, c, i), block(r, c, r.Intn(1000))
	return c
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	s := new(state.State)
	sh.ColorConfig.BitDepth, sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = c.Depth, c.SubX == 1, c.SubY == 1
	sh.EnableIntraEdgeFilter = c.Filter == 1
	s.MiRows, s.MiCols = c.MiRows, c.MiCols
	base := func(y, x int) int { return (c.B + c.P*y*y + c.Q*x*x + c.R*x*y) % (1 << uint(c.Depth)) }
	s.CurrFrame = state.NewFrame(size, size)
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				s.CurrFrame[p][y][x] = base(y, x)
			}
		}
	}
	t := &tilegroup.TileGroup{}
	warm := new(state.State)
	*warm = *s
	warm.CurrFrame = s.CurrFrame.Copy()
	TryHere(func() { t.XPredictIntra(c.Warm, warm, sh) })
	b := c.Blk
	st, msg := TryHere(func() { t.XPredictIntra(b, s, sh) })
	w, h := 1<<uint(b.LogW), 1<<uint(b.LogH)
	other := 0
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				in := p == b.Plane && y >= b.Y && y < b.Y+h && x >= b.X && x < b.X+w
				if !in && s.CurrFrame[p][y][x] != base(y, x) {
					other++
				}
			}
		}
	}
	px := [][]int{}
	for y := 0; y < h; y++ {
		px = append(px, append([]int{}, s.CurrFrame[b.Plane][b.Y+y][b.X:b.X+w]...))
	}
	return map[string]any{"st": st, "msg": msg, "px": px, "other": other}
}

func main() { Main(gen, run) }
