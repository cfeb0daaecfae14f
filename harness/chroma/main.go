// Chroma from luma (Kind 0) and palette (Kind 1) prediction of one transform block.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Kind, Depth, SubX, SubY int
	B, P, Q, R              int // samples before: (B + 77 plane + P y y + Q x x + R x y) mod 2^Depth
	Plane, X, Y, Sz         int
	AlphaU, AlphaV          int
	MaxW, MaxH              int
	Bx, By                  int // of the transform block in its block, in 4x4 units
	Colors                  [3][]int
	MapY, MapUV             [][]int
}

const size = 144

var dims = [19][2]int{{4, 4}, {8, 8}, {16, 16}, {32, 32}, {64, 64}, {4, 8}, {8, 4}, {8, 16}, {16, 8}, {16, 32}, {32, 16},
	{32, 64}, {64, 32}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func colourMap(r *Rng, w, h, n int) [][]int {
	m := [][]int{}
	for i := 0; i < h; i++ {
		row := []int{}
		for j := 0; j < w; j++ {
			row = append(row, r.Intn(n))
		}
		m = append(m, row)
	}
	return m
}

func gen(r *Rng, i int) in {
	c := in{Kind: r.Intn(3) / 2, Depth: r.Pick(8, 10, 12), SubX: r.Intn(2), Sz: i % 19}
	if c.SubX == 1 {
		c.SubY = r.Intn(2)
	}
	m := 1 << uint(c.Depth)
	c.B, c.P, c.Q, c.R = r.Intn(m), r.Intn(m), r.Intn(m), r.Intn(m)
	if r.Chance(1, 2) {
		c.P, c.Q, c.R = r.Intn(3), r.Intn(3), r.Intn(3)
	}
	if c.Kind == 0 {
		for dims[c.Sz][0] > 32 || dims[c.Sz][1] > 32 {
			c.Sz = r.Intn(19)
		}
		w, h := dims[c.Sz][0], dims[c.Sz][1]
		c.Plane = r.Range(1, 2)
		c.X, c.Y = 4*r.Intn(5), 4*r.Intn(5)
		c.AlphaU, c.AlphaV = r.Range(-16, 16), r.Range(-16, 16)
		// luma transform blocks of the block reach at least to its first 8x8 luma samples
		c.MaxW = c.X<<uint(c.SubX) + 4*r.Range(2, (w<<uint(c.SubX))/4+1)
		c.MaxH = c.Y<<uint(c.SubY) + 4*r.Range(2, (h<<uint(c.SubY))/4+1)
		c.MapY, c.MapUV = [][]int{}, [][]int{}
		return c
	}
	w, h := dims[c.Sz][0], dims[c.Sz][1]
	c.Plane = r.Intn(3)
	c.X, c.Y = 4*r.Intn(5), 4*r.Intn(5)
	bw, bh := 64, 64
	if r.Chance(1, 2) {
		bw, bh = w, h
	}
	c.Bx, c.By = r.Intn((bw-w)/4+1), r.Intn((bh-h)/4+1)
	ny, nuv := r.Range(2, 8), r.Range(2, 8)
	for p := 0; p < 3; p++ {
		n := nuv
		if p == 0 {
			n = ny
		}
		for ; n > 0; n-- {
			c.Colors[p] = append(c.Colors[p], r.Intn(m))
		}
	}
	c.MapY, c.MapUV = colourMap(r, bw, bh, ny), colourMap(r, bw, bh, nuv)
	return c
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	s := new(state.State)
	sh.ColorConfig.BitDepth, sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = c.Depth, c.SubX == 1, c.SubY == 1
	base := func(p, y, x int) int { return (c.B + 77*p + c.P*y*y + c.Q*x*x + c.R*x*y) % (1 << uint(c.Depth)) }
	s.CurrFrame = state.NewFrame(size, size)
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				s.CurrFrame[p][y][x] = base(p, y, x)
			}
		}
	}
	t := &tilegroup.TileGroup{}
	st, msg := TryHere(func() {
		if c.Kind == 0 {
			t.XCfl(c.Plane, c.X, c.Y, c.Sz, c.AlphaU, c.AlphaV, c.MaxW, c.MaxH, sh, s)
		} else {
			t.XPalette(c.Plane, c.X, c.Y, c.Bx, c.By, c.Sz, c.Colors, c.MapY, c.MapUV, s)
		}
	})
	w, h := dims[c.Sz][0], dims[c.Sz][1]
	other := 0
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				in := p == c.Plane && y >= c.Y && y < c.Y+h && x >= c.X && x < c.X+w
				if !in && s.CurrFrame[p][y][x] != base(p, y, x) {
					other++
				}
			}
		}
	}
	px := [][]int{}
	for y := 0; y < h; y++ {
		px = append(px, append([]int{}, s.CurrFrame[c.Plane][c.Y+y][c.X:c.X+w]...))
	}
	return map[string]any{"st": st, "msg": msg, "px": px, "other": other}
}

func main() { Main(gen, run) }
