package main

import (
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/util"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Op string
	A  [][]int
}

var ops = []string{"tilelog2", "ceillog2", "floorlog2", "round2", "round2s", "invrec", "clip3", "clip1", "negdei", "cos", "brev",
	"obmc", "units", "ls", "minmax", "newmv", "sort", "geom", "subsize", "subsamp"}

var square = []int{shared.BLOCK_8X8, shared.BLOCK_16X16, shared.BLOCK_32X32, shared.BLOCK_64X64, shared.BLOCK_128X128}

func wide(r *Rng) int { return r.Intn(1 << uint(r.Range(0, 30))) }
func signed(r *Rng) int {
	v := wide(r)
	if r.Chance(1, 2) {
		return -v
	}
	return v
}

func gen(r *Rng, i int) in {
	c := in{Op: ops[i%len(ops)]}
	add := func(a ...int) { c.A = append(c.A, a) }
	for k := 0; k < 40; k++ {
		switch c.Op {
		case "tilelog2":
			add(r.Range(1, 1<<uint(r.Range(0, 14))), r.Range(0, 60000))
		case "ceillog2":
			v := wide(r)
			if r.Chance(1, 2) {
				v = 1<<uint(r.Range(0, 29)) + r.Range(-1, 1)
			}
			add(v)
		case "floorlog2":
			v := wide(r)
			if r.Chance(1, 2) {
				v = 1<<uint(r.Range(0, 29)) + r.Range(-1, 1)
			}
			add(v)
		case "round2", "round2s":
			v := signed(r)
			if r.Chance(1, 2) {
				v = r.Range(-600, 600)
			}
			add(v, r.Range(0, 28))
		case "invrec":
			x := r.Range(0, 1<<uint(r.Range(0, 20)))
			y := r.Range(0, 4*x+3)
			if r.Chance(1, 4) {
				y = 2*x + r.Range(-1, 1)
				if y < 0 {
					y = 0
				}
			}
			add(x, y)
		case "clip3":
			lo := signed(r) / 2
			hi := lo + wide(r)/2
			add(lo, hi, r.Pick(lo, hi, lo-1, hi+1, signed(r), lo+1, hi-1))
		case "clip1":
			d := r.Pick(8, 10, 12)
			add(r.Pick(signed(r), 0, -1, 1, 1<<uint(d)-1, 1<<uint(d), 1<<uint(d)+1), d)
		case "negdei":
			m := r.Range(1, 8)
			if r.Chance(1, 8) {
				m = r.Range(1, 200)
			}
			add(r.Intn(m), r.Intn(m), m)
		case "cos":
			a := (i/len(ops)*40 + k) % 1024
			add(a - 512)
		case "brev":
			n := r.Range(1, 12)
			add(n, r.Intn(1<<uint(n)))
		case "obmc":
			add(r.Pick(2, 4, 8, 16, 32))
		case "units":
			u := 1 << uint(r.Range(5, 8))
			add(u, r.Pick(r.Range(1, 70000), u*r.Range(0, 9)+r.Pick(-1, 0, 1, u/2, u/2-1, u/2+1)+1))
		case "ls":
			add(r.Range(-256, 256)*8, r.Range(-256, 256)*8+r.Range(0, 7))
		case "minmax":
			a, b := r.Range(-3, 3), r.Range(-3, 3)
			if r.Chance(1, 2) {
				a, b = signed(r), signed(r)
			}
			add(a, b, r.Pick(a, b, 0), r.Pick(a, b))
		case "newmv":
			add(k%25 - 13)
		case "sort":
			n := r.Range(1, 12)
			x := r.Intn(n)
			y := r.Range(x, n-1)
			a := []int{x, y}
			for j := 0; j < n; j++ {
				a = append(a, r.Range(0, 60))
			}
			c.A = append(c.A, a)
		case "geom":
			add(k % shared.BLOCK_SIZES)
		case "subsize":
			b := square[k%5]
			p := (i/len(ops)*8 + k/5) % 10
			if b == shared.BLOCK_8X8 && p > 3 || b == shared.BLOCK_128X128 && p > 7 {
				p = p % 4
			}
			add(p, b)
		case "subsamp":
			b := (i/len(ops)*10 + k/4) % shared.BLOCK_SIZES
			x, y := k%4/2, k%2
			w, h := dims[b][0], dims[b][1]
			if x != y && (x == 1 && w < h || y == 1 && h < w) {
				x, y = 1, 1
			}
			add(b, x, y)
		}
	}
	return c
}

var dims = [][2]int{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64},
	{64, 128}, {128, 64}, {128, 128}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func eval(op string, a []int) []int {
	l := func(v ...int) []int { return v }
	switch op {
	case "tilelog2":
		return l(util.TileLog2(a[0], a[1]))
	case "ceillog2":
		return l(util.CeilLog2(a[0]))
	case "floorlog2":
		return l(util.FloorLog2(a[0]))
	case "round2":
		return l(util.Round2(a[0], a[1]))
	case "round2s":
		return l(util.Round2Signed(a[0], a[1]))
	case "invrec":
		return l(util.InverseRecenter(a[0], a[1]))
	case "clip3":
		return l(util.Clip3(a[0], a[1], a[2]))
	case "clip1":
		return l(util.Clip1(a[0], a[1]))
	case "negdei":
		return l(util.NegDeinterleave(a[0], a[1], a[2]))
	case "cos":
		return l(util.Cos128(a[0]), util.Sin128(a[0]))
	case "brev":
		return l(util.Brev(a[0], a[1]))
	case "obmc":
		return util.GetObmcMask(a[0])
	case "units":
		return l(util.CountUnitsInFrame(a[0], a[1]))
	case "ls":
		return l(util.LsProduct(a[0], a[1]))
	case "minmax":
		return l(util.Min(a[0], a[1]), util.Max(a[0], a[1]), util.Abs(a[0]), util.Int(util.Bool(a[0])), util.Int(a[0] > a[1]),
			util.Int(util.Equals([2]int{a[0], a[1]}, [2]int{a[2], a[3]})))
	case "newmv":
		return l(util.Int(util.HasNewmv(shared.NEARESTMV + a[0])))
	case "sort":
		return util.Sort(append([]int{}, a[2:]...), a[0], a[1])
	case "geom":
		b := a[0]
		return l(shared.BLOCK_WIDTH[b], shared.BLOCK_HEIGHT[b], shared.NUM_4X4_BLOCKS_WIDE[b], shared.NUM_4X4_BLOCKS_HIGH[b],
			shared.MI_WIDTH_LOG2[b], shared.MI_HEIGHT_LOG2[b])
	case "subsize":
		return l(shared.Partition_Subsize[a[0]][a[1]])
	case "subsamp":
		return l(shared.Subsampled_Size[a[0]][a[1]][a[2]])
	}
	return nil
}

func run(c in) map[string]any {
	v := [][]int{}
	st, msg := Try(func() {
		for _, a := range c.A {
			v = append(v, eval(c.Op, a))
		}
	})
	return map[string]any{"st": st, "msg": msg, "v": v}
}

func main() { Main(gen, run) }
