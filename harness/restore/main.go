// Super-resolution and loop restoration of small frames.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Kind, Depth, SubX, SubY, W, UpW, H, MiRows, MiCols, Super int
	Types, Unit                                               [3]int // restoration type and unit size of each plane
	Units                                                     [][][]tilegroup.XUnit
	Deb, Cdef                                                 [][][]int // planes before and after CDEF
}

func half(v, p, s int) int {
	if p == 0 {
		return v
	}
	return (v + s) >> uint(s)
}

func plane(r *Rng, w, h, depth int) [][]int {
	top := 1<<uint(depth) - 1
	sc := 1 << uint(depth-8)
	base, amp, noise := r.Pick(0, top, r.Intn(top+1), r.Intn(top+1)), sc*r.Pick(0, 4, 10, 30, 90, 255), r.Pick(1, 2, 4*sc, 4*sc, 20*sc, top+1)
	a, b, n := r.Range(-2, 2), r.Range(-2, 2), r.Range(2, 20)
	m := [][]int{}
	for y := 0; y < h; y++ {
		row := []int{}
		for x := 0; x < w; x++ {
			v := base + r.Intn(noise) - noise/2
			if ((a*x+b*y)%n+n)%n < n/2 {
				v -= amp
			}
			if v < 0 {
				v = 0
			}
			if v > top {
				v = top
			}
			row = append(row, v)
		}
		m = append(m, row)
	}
	return m
}

func gen(r *Rng, i int) in {
	c := in{Kind: 1 - r.Intn(3)/2, Depth: r.Pick(8, 8, 10, 12), SubX: r.Intn(2), UpW: r.Range(3, 26), H: r.Range(2, 20)}
	if c.SubX == 1 {
		c.SubY = 1 - r.Intn(3)/2
	}
	planes := 3
	if r.Chance(1, 8) {
		planes = 1
	}
	if c.Kind == 0 {
		c.UpW, c.H, c.Super = r.Range(16, 160), r.Pick(1, 1, 2, r.Range(1, 5)), 1-r.Intn(12)/11
		denom := r.Range(9, 16)
		c.W = c.UpW
		if c.Super == 1 {
			c.W = (c.UpW*8 + denom/2) / denom
		}
		c.MiCols, c.MiRows = 2*((c.W+7)/8), 2*((c.H+7)/8)
		for p := 0; p < planes; p++ {
			sx, sy := c.SubX, c.SubY
			if p == 0 {
				sx, sy = 0, 0
			}
			c.Cdef = append(c.Cdef, plane(r, c.MiCols*4>>uint(sx), c.MiRows*4>>uint(sy), c.Depth))
		}
		return c
	}
	switch r.Intn(6) {
	case 0:
		c.UpW, c.H = r.Range(60, 130), r.Range(2, 6)
	case 1:
		c.UpW, c.H = r.Range(2, 6), r.Range(60, 130)
	case 2:
		c.UpW, c.H = r.Range(2, 8), r.Range(50, 70)
	}
	c.W = c.UpW
	c.MiCols, c.MiRows = 2*((c.W+7)/8), 2*((c.H+7)/8)
	shift := r.Intn(2)
	for p := 0; p < planes; p++ {
		c.Types[p] = r.Pick(0, 1, 2, 3, 3)
		c.Unit[p] = 64
		if p > 0 && c.SubX == 1 && c.SubY == 1 {
			c.Unit[p] = 64 >> uint(shift)
		}
		w, h := half(c.UpW, p, c.SubX), half(c.H, p, c.SubY)
		units := [][]tilegroup.XUnit{}
		for y := 0; y == 0 || y < (h+c.Unit[p]/2)/c.Unit[p]; y++ {
			row := []tilegroup.XUnit{}
			for x := 0; x == 0 || x < (w+c.Unit[p]/2)/c.Unit[p]; x++ {
				u := tilegroup.XUnit{Type: c.Types[p], Set: r.Intn(16), Xqd: [2]int{r.Range(-96, 31), r.Range(-32, 95)}}
				if u.Type == 3 {
					u.Type = r.Intn(3)
				} else if r.Chance(1, 6) {
					u.Type = 0
				}
				for k := range u.Coef {
					u.Coef[k] = [3]int{r.Range(-5, 10), r.Range(-23, 8), r.Range(-17, 46)}
					if p > 0 {
						u.Coef[k][0] = 0
					}
				}
				if u.Set >= 10 && u.Set < 14 { // a single pass: no weight for the other
					u.Xqd[0] = 0
				} else if u.Set >= 14 {
					u.Xqd[1] = 128 - u.Xqd[0]
					if u.Xqd[1] > 95 {
						u.Xqd[1] = 95
					}
				}
				row = append(row, u)
			}
			units = append(units, row)
		}
		c.Units = append(c.Units, units)
		c.Deb = append(c.Deb, plane(r, w, h, c.Depth))
		after := plane(r, w, h, c.Depth)
		if r.Chance(1, 2) { // as after a weak filter
			for y := range after {
				copy(after[y], c.Deb[p][y])
				for x := range after[y] {
					if r.Chance(1, 8) && after[y][x] > 0 {
						after[y][x]--
					}
				}
			}
		}
		c.Cdef = append(c.Cdef, after)
	}
	return c
}

func load(px [][][]int, w, h int) state.Frame {
	f := state.NewFrame(h, w)
	for p := range px {
		for y := range px[p] {
			copy(f[p][y], px[p][y])
		}
	}
	return f
}

func eq(px [][][]int, f state.Frame) bool {
	for p := range px {
		for y := range px[p] {
			for x, v := range px[p][y] {
				if f[p][y][x] != v {
					return false
				}
			}
		}
	}
	return true
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	s := new(state.State)
	cc := &sh.ColorConfig
	cc.BitDepth, cc.SubsamplingX, cc.SubsamplingY, cc.NumPlanes, cc.MonoChrome = c.Depth, c.SubX == 1, c.SubY == 1, len(c.Cdef), len(c.Cdef) == 1
	s.MiRows, s.MiCols = c.MiRows, c.MiCols
	uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = c.W, c.UpW, c.H
	uh.UseSuperRes, uh.FrameRestorationType, uh.UsesLr = c.Super == 1, c.Types, c.Types != [3]int{}
	s.FrameRestorationType = c.Types[:]
	s.LoopRestorationSize = c.Unit
	t := &tilegroup.TileGroup{}
	var out state.Frame
	same := true
	st, msg := TryHere(func() {
		if c.Kind == 0 {
			f := load(c.Cdef, c.MiCols*4, c.MiRows*4)
			out = t.XUpscale(f, s, sh, uh)
			same = eq(c.Cdef, f)
			return
		}
		s.UpscaledCurrFrame, s.UpscaledCdefFrame = load(c.Deb, c.UpW, c.H), load(c.Cdef, c.UpW, c.H)
		t.XRestore(c.Units, s, sh, uh)
		same = eq(c.Deb, s.UpscaledCurrFrame) && eq(c.Cdef, s.UpscaledCdefFrame)
		out = s.LrFrame
	})
	px := [][][]int{}
	for p := range c.Cdef {
		m := [][]int{}
		for y := 0; st == "ok" && y < half(c.H, p, c.SubY); y++ {
			m = append(m, append([]int{}, out[p][y][:half(c.UpW, p, c.SubX)]...))
		}
		px = append(px, m)
	}
	return map[string]any{"st": st, "msg": msg, "px": px, "same": same}
}

func main() { Main(gen, run) }
