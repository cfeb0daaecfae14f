// One tile of an intra frame: what the decoder makes of its symbols, block by
// block, and what it leaves behind. Prediction and reconstruction are observed,
// not performed.
package main

import (
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Data                             []int
	Rows, Cols                       int
	R0, R1, C0, C1                   int
	Sb128, Mono, SubX, SubY, Depth   int
	Seg, Pre, LastSeg                int
	Feat                             [8][8]int
	FData                            [8]int
	Lossless                         [8]int
	CodedLossless                    int
	EnableCdef, CdefBits             int
	Dq, DqRes, Dlf, DlfRes, DlfMulti int
	BaseQ, Sct, Fi, TxMode, Reduced  int
	NoAdapt                          int
	Lr, LrSize                       [3]int
	Sr, SrDenom, FrameH, UpW         int
	Coef                             int
	Bc                               int
	Cdf                              map[string][][]int
}

// tables worth bending, with their number of symbols, for a case of each kind
var modeTabs = []string{"PartitionW8Cdf", "PartitionW16Cdf", "PartitionW32Cdf", "PartitionW64Cdf", "PartitionW128Cdf", "SkipCdf",
	"SegmentIdCdf", "IntraFrameYModeCdf", "UVModeCflAllowedCdf", "UVModeCflNotAllowedCdf", "AngleDeltaCdf", "CflSignCdf", "CflAlphaCdf",
	"PaletteYModeCdf", "PaletteUVModeCdf", "PaletteYSizeCdf", "PaletteUVSizeCdf", "FilterIntraCdf", "FilterIntraModeCdf",
	"Tx8x8Cdf", "Tx16x16Cdf", "Tx32x32Cdf", "Tx64x64Cdf", "DeltaQCdf", "DeltaLFCdf", "DeltaLFMultiCdf",
	"UseWienerCdf", "UseSgrprojCdf", "RestorationTypeCdf", "IntrabcCdf"}
var coefTabs = []string{"TxbSkipCdf", "EobPt16Cdf", "EobPt32Cdf", "EobPt64Cdf", "EobPt128Cdf", "EobPt256Cdf", "EobPt512Cdf", "EobPt1024Cdf",
	"EobExtraCdf", "DcSignCdf", "IntraTxTypeSet1Cdf", "IntraTxTypeSet2Cdf"}

// big tables: one row for all
var bigTabs = []string{"CoeffBaseEobCdf", "CoeffBaseCdf", "CoeffBrCdf"}

var scratch = new(state.State)

func rows(v reflect.Value, f func(row []int)) {
	if v.Type().Elem().Kind() == reflect.Int {
		f(v.Interface().([]int))
		return
	}
	for i := 0; i < v.Len(); i++ {
		rows(v.Index(i), f)
	}
}

// setRows gives a table rows of its own, leaving the shared defaults alone
func setRows(v reflect.Value, tab [][]int, i *int) {
	if v.Type().Elem().Kind() == reflect.Int {
		v.Set(reflect.ValueOf(append([]int{}, tab[*i]...)))
		*i++
		return
	}
	if v.Kind() == reflect.Slice {
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		v.Set(c)
	}
	for k := 0; k < v.Len(); k++ {
		setRows(v.Index(k), tab, i)
	}
}

func field(s *state.State, name string) reflect.Value {
	return reflect.ValueOf(s).Elem().FieldByName(name)
}

// bend makes a table of the shape of name with other probabilities; want >= 0 favours a symbol
func bend(r *Rng, name string, want int) [][]int {
	out := [][]int{}
	mode := r.Intn(4)
	rows(field(scratch, name), func(row []int) {
		n := len(row) - 1
		w := make([]int, n)
		tot := 0
		fav := r.Intn(n)
		for i := range w {
			w[i] = r.Range(1, 64)
			if mode == 1 {
				w[i] = 1
			}
			if i == fav && mode >= 2 {
				w[i] += 400
			}
			if want >= 0 && i == want%n {
				w[i] += 300
			}
			tot += w[i]
		}
		c := make([]int, n+1)
		acc := 0
		for i := range w {
			acc += w[i]
			c[i] = 32768 * acc / tot
		}
		c[n-1] = 32768
		c[n] = 0
		out = append(out, c)
	})
	return out
}

func even(v int) int { return 2 * ((v + 7) >> 3) }

func gen(r *Rng, i int) in {
	uncompressedheader.XInitCdfs(scratch, 0)
	c := in{Cdf: map[string][][]int{}, Coef: 0}
	if i%2 == 1 {
		c.Coef = 1
	}
	w, h := r.Range(8, 150), r.Range(8, 150)
	switch r.Intn(8) {
	case 0:
		w = r.Range(130, 256)
	case 1:
		h = r.Range(130, 256)
	case 2:
		w, h = r.Range(1, 24), r.Range(1, 24)
	}
	if c.Coef == 1 && w*h > 96*96 {
		w, h = r.Range(8, 96), r.Range(8, 96)
	}
	c.Sb128 = r.Intn(2)
	c.UpW, c.FrameH = w, h
	if r.Chance(1, 4) {
		c.Sr, c.SrDenom = 1, r.Range(9, 16)
		w = (w*8 + c.SrDenom/2) / c.SrDenom
		if w < 1 {
			w = 1
		}
	} else {
		c.SrDenom = 8
	}
	c.Rows, c.Cols = even(h), even(w)
	sb := 16 << c.Sb128
	c.R1, c.C1 = c.Rows, c.Cols
	if r.Chance(1, 3) { // a tile inside the frame
		nr, nc := (c.Rows+sb-1)/sb, (c.Cols+sb-1)/sb
		a, b := r.Intn(nr), r.Intn(nc)
		c.R0, c.C0 = a*sb, b*sb
		if e := (a + 1 + r.Intn(nr-a)) * sb; e < c.Rows {
			c.R1 = e
		}
		if e := (b + 1 + r.Intn(nc-b)) * sb; e < c.Cols {
			c.C1 = e
		}
	}
	switch r.Intn(6) {
	case 0:
		c.Mono, c.SubX, c.SubY = 1, 1, 1
	case 1:
		c.SubX = 1
	case 2:
	default:
		c.SubX, c.SubY = 1, 1
	}
	if i%8 == 3 && r.Chance(1, 2) {
		c.Mono, c.SubX, c.SubY = 0, 0, 0
	}
	c.Depth = r.Pick(8, 8, 10, 12)
	c.BaseQ = r.Pick(0, 1, 20, 21, 60, 61, 120, 121, 255, r.Range(0, 255))
	c.TxMode = r.Pick(1, 2, 2, 2)
	if r.Chance(1, 3) {
		c.Seg = 1
		c.LastSeg = r.Intn(8)
		for s := 0; s <= c.LastSeg; s++ {
			for f := 0; f < 8; f++ {
				if r.Chance(1, 4) {
					c.Feat[s][f] = 1
				}
			}
			if c.Feat[s][0] == 1 {
				c.FData[s] = r.Pick(r.Range(-255, 255), r.Range(-20, 20), -255, r.Range(-3, 1)-c.BaseQ)
			}
			if c.Feat[s][5] == 1 || c.Feat[s][6] == 1 || c.Feat[s][7] == 1 {
				c.Pre = 1
			}
		}
	}
	c.CodedLossless = 1
	noDelta := r.Chance(1, 2) // lossless only where the frame has no other quantizer deltas
	for s := 0; s < 8; s++ {
		q := c.BaseQ
		if c.Seg == 1 && c.Feat[s][0] == 1 {
			q += c.FData[s]
		}
		if q <= 0 && noDelta {
			c.Lossless[s] = 1
		} else {
			c.CodedLossless = 0
		}
	}
	if c.CodedLossless == 1 {
		c.TxMode = 0
	}
	c.EnableCdef, c.CdefBits = r.Pick(0, 1, 1, 1), r.Intn(4)
	if r.Chance(1, 2) && c.BaseQ > 0 {
		c.Dq, c.DqRes = 1, r.Intn(4)
		if r.Chance(2, 3) {
			c.Dlf, c.DlfRes, c.DlfMulti = 1, r.Intn(4), r.Intn(2)
		}
	}
	c.Sct, c.Fi, c.Reduced = r.Intn(2), r.Intn(2), r.Pick(0, 0, 1)
	c.NoAdapt = r.Pick(0, 0, 0, 1)
	if r.Chance(1, 2) {
		c.LrSize[0] = r.Pick(64, 64, 128, 256)
		if c.Sb128 == 1 {
			c.LrSize[0] = r.Pick(128, 256)
		}
		uv := c.LrSize[0]
		if c.SubX == 1 && c.SubY == 1 && r.Chance(1, 2) {
			uv /= 2
		}
		c.LrSize[1], c.LrSize[2] = uv, uv
		for p := 0; p < 3; p++ {
			c.Lr[p] = r.Intn(4)
		}
		if c.Mono == 1 {
			c.Lr[1], c.Lr[2] = 0, 0
		}
	} else {
		c.LrSize = [3]int{64, 64, 64}
	}
	if c.Sct == 1 && c.Sr == 0 && r.Chance(1, 3) { // intra block copy allowed, no filter with it
		c.Bc, c.Dlf, c.DlfRes, c.DlfMulti, c.CdefBits = 1, 0, 0, 0, 0
		c.Lr, c.LrSize = [3]int{}, [3]int{64, 64, 64}
	}
	// probabilities: the defaults, or bent towards what is rare
	for _, n := range modeTabs {
		if r.Chance(1, 4) {
			want := -1
			if r.Chance(1, 2) {
				switch n {
				case "SkipCdf":
					want = 0
				case "PaletteYModeCdf", "PaletteUVModeCdf", "FilterIntraCdf":
					want = 1
				case "IntraFrameYModeCdf":
					want = 0
				case "UVModeCflAllowedCdf":
					want = r.Pick(0, 13)
				case "PartitionW64Cdf", "PartitionW128Cdf":
					want = 3
				}
			}
			c.Cdf[n] = bend(r, n, want)
		}
	}
	if c.Bc == 1 && r.Chance(5, 6) {
		c.Cdf["IntrabcCdf"] = bend(r, "IntrabcCdf", 0)
	}
	if c.Coef == 1 {
		if r.Chance(2, 3) {
			c.Cdf["SkipCdf"] = bend(r, "SkipCdf", 0)
		}
		for _, n := range coefTabs {
			if r.Chance(1, 4) {
				c.Cdf[n] = bend(r, n, -1)
			}
		}
		for _, n := range bigTabs {
			if r.Chance(1, 6) {
				c.Cdf[n] = bend(r, n, r.Pick(-1, 0, 0, 3))
			}
		}
	}
	if i%8 == 3 { // large and long transforms, full of coefficients
		for _, n := range []string{"PartitionW32Cdf", "PartitionW64Cdf"} {
			c.Cdf[n] = bend(r, n, r.Pick(0, 0, 8, 9, 1, 2))
		}
		c.Cdf["SkipCdf"], c.Cdf["TxbSkipCdf"] = bend(r, "SkipCdf", 0), bend(r, "TxbSkipCdf", 0)
		for k, n := range []string{"EobPt16Cdf", "EobPt32Cdf", "EobPt64Cdf", "EobPt128Cdf", "EobPt256Cdf", "EobPt512Cdf", "EobPt1024Cdf"} {
			c.Cdf[n] = bend(r, n, r.Pick(k+4, k+4, k+4, k+2))
		}
		for _, n := range []string{"Tx16x16Cdf", "Tx32x32Cdf", "Tx64x64Cdf"} {
			c.Cdf[n] = bend(r, n, 0)
		}
		c.Cdf["EobExtraCdf"] = bend(r, "EobExtraCdf", 1)
		c.Cdf["CoeffBaseCdf"] = bend(r, "CoeffBaseCdf", r.Pick(0, 0, 1))
	}
	n := r.Pick(r.Range(1, 40), r.Range(40, 400), r.Range(400, 1200))
	if c.Coef == 1 {
		n = r.Pick(r.Range(1, 40), r.Range(40, 500))
	}
	c.Data = r.Bytes(n, r.Pick(3, 6, 8, 8, 8, 8, 8, 10, 13))
	return c
}

func bools(v [8]int) (o [8]bool) {
	for i := range v {
		o[i] = v[i] == 1
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cut(m [][]int, ok bool) [][]int {
	out := [][]int{}
	if !ok {
		return out
	}
	for _, r := range m {
		out = append(out, append([]int{}, r...))
	}
	return out
}

func head(v []int, n int) []int { return append([]int{}, v[:n]...) }

func run(c in) map[string]any {
	s := new(state.State)
	t := new(tilegroup.TileGroup)
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: c.Sb128 == 1, EnableCdef: c.EnableCdef == 1, EnableFilterIntra: c.Fi == 1}
	sh.ColorConfig.BitDepth = c.Depth
	sh.ColorConfig.MonoChrome = c.Mono == 1
	sh.ColorConfig.NumPlanes = 3 - 2*c.Mono
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = c.SubX == 1, c.SubY == 1
	uh := uncompressedheader.UncompressedHeader{FrameIsIntra: true, SegmentationEnabled: c.Seg == 1, SegIdPreSkip: c.Pre, LastActiveSegId: c.LastSeg,
		LosslessArray: bools(c.Lossless), CodedLossless: c.CodedLossless == 1, CdefBits: c.CdefBits,
		DeltaQPresent: c.Dq == 1, DeltaQRes: c.DqRes, DeltaLfPresent: c.Dlf == 1, DeltaLfRes: c.DlfRes, DeltaLfMulti: c.DlfMulti,
		BaseQIdx: c.BaseQ, AllowScreenContentTools: c.Sct, AllowIntraBc: c.Bc == 1, TxMode: c.TxMode, ReducedTxSet: c.Reduced == 1, DisableCdfUpdate: c.NoAdapt == 1,
		FrameRestorationType: c.Lr, UseSuperRes: c.Sr == 1, SuperResDenom: c.SrDenom, FrameHeight: c.FrameH, UpscaledWidth: c.UpW,
		UpscaledHeight: c.FrameH, FrameWidth: (c.UpW*8 + c.SrDenom/2) / c.SrDenom}
	out := map[string]any{}
	ev := []any{}
	st, msg := Try(func() {
		uncompressedheader.XInitCdfs(s, c.BaseQ)
		for n, tab := range c.Cdf {
			i := 0
			setRows(field(s, n), tab, &i)
		}
		s.MiRows, s.MiCols = c.Rows, c.Cols
		t.BlockMaps = s.NewBlockMaps(c.UpW)
		s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = c.R0, c.R1, c.C0, c.C1
		s.FeatureEnabled = c.Feat
		for i := range c.FData {
			s.FeatureData[i][0] = c.FData[i]
		}
		s.CurrentQIndex = c.BaseQ
		s.LoopRestorationSize = c.LrSize
		for p := range t.LrType {
			for i := range t.LrType[p] {
				for j := range t.LrType[p][i] {
					t.LrType[p][i][j] = -1
				}
			}
		}
		tilegroup.HookResidual = func(t *tilegroup.TileGroup, _ *bitstream.BitStream, s *state.State, _ sequenceheader.SequenceHeader, _ uncompressedheader.UncompressedHeader) bool {
			pal := func(v []int, n int) []int {
				if n == 0 {
					return []int{}
				}
				return head(v, n)
			}
			cd := 0
			if r, q := s.MiRow&^15, s.MiCol&^15; r < len(s.Cdef.CdefIdx) && q < len(s.Cdef.CdefIdx[r]) {
				cd = s.Cdef.CdefIdx[r][q]
			}
			ay, auv, cu, cv, uvm := t.AngleDeltaY, t.AngleDeltaUV, t.CflAlphaU, t.CflAlphaV, t.UVMode
			if !t.HasChroma {
				auv, uvm = 0, 0
			}
			if uvm != 13 {
				cu, cv = 0, 0
			}
			e := map[string]any{"k": "b", "r": s.MiRow, "c": s.MiCol, "b": s.MiSize, "hc": b2i(t.HasChroma),
				"av":   []int{b2i(s.AvailU), b2i(s.AvailL), b2i(s.AvailUChroma), b2i(s.AvailLChroma)},
				"skip": t.Skip, "seg": t.SegmentId, "ll": b2i(t.Lossless), "y": t.YMode, "ay": ay, "uv": []int{uvm, auv, cu, cv},
				"fi": []int{b2i(t.UseFilterIntra), t.FilterIntraMode}, "tx": t.TxSize,
				"palY": pal(t.PaletteColorsY, t.PaletteSizeY), "palU": pal(t.PaletteColorsU, t.PaletteSizeUV), "palV": pal(t.PaletteColorsV, t.PaletteSizeUV),
				"q": s.CurrentQIndex, "lf": s.DeltaLF, "cd": cd}
			bw, bh := shared.BLOCK_WIDTH[s.MiSize], shared.BLOCK_HEIGHT[s.MiSize]
			mp := func(m [][]int, n, w, h int) [][]int {
				o := [][]int{}
				if n == 0 {
					return o
				}
				for i := 0; i < h; i++ {
					o = append(o, head(m[i], w))
				}
				return o
			}
			uvw, uvh := bw>>c.SubX, bh>>c.SubY
			if uvw < 4 {
				uvw += 2
			}
			if uvh < 4 {
				uvh += 2
			}
			e["mapY"] = mp(t.ColorMapY, t.PaletteSizeY, bw, bh)
			e["mapUV"] = mp(t.ColorMapUV, t.PaletteSizeUV, uvw, uvh)
			ev = append(ev, e)
			return c.Coef == 0
		}
		tilegroup.HookPixels = func(t *tilegroup.TileGroup, what string, s *state.State, args []int) bool {
			a := append([]int{}, args...)
			switch what {
			case "cfl":
				a = append(a, t.MaxLumaW, t.MaxLumaH)
				ev = append(ev, map[string]any{"k": what, "a": a})
			case "reconstruct":
				a = append(a, t.PlaneTxType)
				n := 1
				for i, v := range t.Quant {
					if v != 0 {
						n = i + 1
					}
				}
				n = 16 * ((n + 15) / 16)
				ev = append(ev, map[string]any{"k": "rec", "a": a, "q": head(t.Quant[:], n)})
			default:
				ev = append(ev, map[string]any{"k": what, "a": a})
			}
			return true
		}
		b := bitstream.NewBitStream(Bytes(c.Data))
		tilegroup.XDecodeTile(t, len(c.Data), &b, s, sh, uh)
		out["sym"] = map[string]any{"v": s.SymbolValue, "r": s.SymbolRange, "m": s.SymbolMaxBits, "p": b.Position}
		lr := []any{}
		for p := range t.LrType {
			for i := range t.LrType[p] {
				for j, ty := range t.LrType[p][i] {
					if ty == -1 {
						continue
					}
					v := []int{}
					switch ty {
					case 1:
						w := t.LrWiener[p][i][j]
						v = append(append(v, w[0][:]...), w[1][:]...)
					case 2:
						v = append([]int{t.LrSgrSet[p][i][j]}, t.LrSgrXqd[p][i][j][:]...)
					}
					lr = append(lr, map[string]any{"p": p, "r": i, "c": j, "t": ty, "v": v})
				}
			}
		}
		out["lr"] = lr
		grid := func(f func(r, q int) any) []any {
			o := []any{}
			for r := c.R0; r < c.R1; r++ {
				row := []any{}
				for q := c.C0; q < c.C1; q++ {
					row = append(row, f(r, q))
				}
				o = append(o, row)
			}
			return o
		}
		out["maps"] = map[string]any{
			"b":     grid(func(r, q int) any { return s.MiSizes[r][q] }),
			"y":     grid(func(r, q int) any { return t.YModes[r][q] }),
			"skip":  grid(func(r, q int) any { return t.Skips[r][q] }),
			"seg":   grid(func(r, q int) any { return t.SegmentIds[r][q] }),
			"tx":    grid(func(r, q int) any { return t.TxSizes[r][q] }),
			"palY":  grid(func(r, q int) any { return t.PaletteSizes[0][r][q] }),
			"palUV": grid(func(r, q int) any { return t.PaletteSizes[1][r][q] }),
			"lf":    grid(func(r, q int) any { return s.DeltaLFs[r][q] }),
		}
		lft := []any{}
		if c.Coef == 1 {
			for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
				m := [][]int{}
				for r := 0; r < c.Rows; r++ {
					m = append(m, head(t.LoopFilterTxSizes[p][r][:], c.Cols))
				}
				lft = append(lft, m)
			}
		}
		out["lft"] = lft
	})
	if st != "ok" {
		out = map[string]any{}
	}
	out["st"], out["msg"], out["ev"] = st, msg, ev
	return out
}

func main() { Main(gen, run) }
