// Whole streams: the real parser on generated temporal units, with a tile's
// content reduced to a few literal bits (hooks of the verif build).
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
	"go.uber.org/zap"
)

const tileLits = 4

type in struct{ Data []int }

// ------------------------------------------------------------- generation

type seqh struct {
	w, h                           int
	idcs                           []int
	ids, dlen, alen                int
	sb128, oh, ohBits, mono, sepuv int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func genSeq(r *Rng, small bool) seqh {
	s := seqh{w: r.Range(1, 8), h: r.Range(1, 8)}
	if !small {
		s.w, s.h = r.Range(9, 600), r.Range(9, 600)
		if r.Chance(1, 10) {
			s.w = r.Range(3000, 9000)
		}
	}
	s.idcs = []int{0}
	if r.Chance(1, 2) {
		s.idcs = nil
		for i := r.Range(1, 3); i > 0; i-- {
			s.idcs = append(s.idcs, r.Pick(0, 0x101, 0x301, 0x103, 0xf0f, 0x10f, r.Intn(4096)))
		}
	}
	if s.ids = r.Intn(2); s.ids == 1 {
		s.dlen, s.alen = r.Intn(6), r.Intn(5)
	}
	s.sb128, s.mono, s.sepuv = r.Intn(2), b2i(r.Chance(1, 4)), b2i(r.Chance(1, 4))
	if s.oh = b2i(r.Chance(3, 4)); s.oh == 1 {
		s.ohBits = r.Range(1, 8)
	}
	return s
}

func bitsFor(n int) int {
	k := 1
	for 1<<uint(k) <= n {
		k++
	}
	return k
}

func (s seqh) bits(r *Rng) *W {
	w := &W{}
	w.Put(0, 3)
	w.Put(0, 1)
	w.Put(0, 1) // not reduced
	w.Put(0, 1) // no timing
	w.Put(0, 1)
	w.Put(len(s.idcs)-1, 5)
	for _, x := range s.idcs {
		w.Put(x, 12)
		w.Put(r.Intn(8), 5)
	}
	wb, hb := bitsFor(s.w-1), bitsFor(s.h-1)
	w.Put(wb-1, 4)
	w.Put(hb-1, 4)
	w.Put(s.w-1, wb)
	w.Put(s.h-1, hb)
	w.Put(s.ids, 1)
	if s.ids == 1 {
		w.Put(s.dlen, 4)
		w.Put(s.alen, 3)
	}
	w.Put(s.sb128, 1)
	w.Put(r.Intn(4), 2)
	w.Put(r.Intn(8), 3) // interintra, masked, warped
	w.Put(r.Intn(2), 1) // dual filter
	w.Put(s.oh, 1)
	if s.oh == 1 {
		w.Put(r.Intn(2), 1)
		w.Put(0, 1)
	}
	w.Put(0, 1) // screen content tools forced off
	w.Put(0, 1)
	if s.oh == 1 {
		w.Put(s.ohBits-1, 3)
	}
	w.Put(0, 3) // superres, cdef, restoration
	w.Put(0, 1)
	w.Put(s.mono, 1)
	w.Put(0, 1)
	w.Put(r.Intn(2), 1)
	if s.mono == 0 {
		w.Put(r.Intn(3), 2)
		w.Put(s.sepuv, 1)
	}
	w.Put(0, 1) // film grain
	return w
}

type frame struct {
	key                bool // a reference slot it refreshes holds a key frame
	refresh            int
	reset              bool
	small              bool
	w                  *W
	cols, rows, tsb    int
	colsLog2, rowsLog2 int
	existing           bool
}

func log2up(blk, target int) int {
	k := 0
	for blk<<uint(k) < target {
		k++
	}
	return k
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// uniform puts increment bits from lo towards hi and returns the chosen log2.
func uniform(w *W, r *Rng, lo, hi int) int {
	for lo < hi {
		if r.Chance(1, 2) {
			w.Put(1, 1)
			lo++
		} else {
			w.Put(0, 1)
			break
		}
	}
	return lo
}

func (s seqh) frame(r *Rng, slots [8]int) frame {
	w := &W{}
	f := frame{w: w}
	held := []int{}
	for i, v := range slots {
		if v > 0 {
			held = append(held, i)
		}
	}
	if len(held) > 0 && (s.idcs[0] == 0 || r.Chance(1, 12)) && r.Chance(1, 3) || r.Chance(1, 60) { // shown again
		k := r.Intn(8)
		if len(held) > 0 {
			k = held[r.Intn(len(held))]
		}
		w.Put(1, 1)
		w.Put(k, 3)
		if s.ids == 1 {
			w.Put(r.Intn(1<<uint(s.dlen+s.alen+3)), s.dlen+s.alen+3)
		}
		f.existing = true
		if slots[k] == 2 {
			f.key, f.refresh = true, 255
		}
		return f
	}
	w.Put(0, 1)
	ty := r.Pick(0, 0, 0, 1, 1, 2, 3)
	show := r.Intn(2)
	w.Put(ty, 2)
	w.Put(show, 1)
	if show == 0 {
		w.Put(r.Intn(2), 1)
	}
	errRes := 1
	if !(ty == 3 || ty == 0 && show == 1) {
		if ty != 1 {
			errRes = r.Intn(2)
		}
		w.Put(errRes, 1)
	}
	nocdf := r.Intn(2)
	w.Put(nocdf, 1)
	if s.ids == 1 {
		w.Put(r.Intn(1<<uint(s.dlen+s.alen+3)), s.dlen+s.alen+3)
	}
	if ty != 3 {
		w.Put(0, 1)
	}
	w.Put(r.Intn(1<<uint(s.ohBits)), s.ohBits)
	refresh := 255
	if !(ty == 3 || ty == 0 && show == 1) {
		refresh = r.Pick(r.Intn(255), 1<<uint(r.Intn(8)), 0, 254)
		w.Put(refresh, 8)
	}
	intra := ty == 0 || ty == 2
	if (!intra || refresh != 255) && errRes == 1 && s.oh == 1 {
		for i := 0; i < 8; i++ {
			w.Put(r.Intn(1<<uint(s.ohBits)), s.ohBits)
		}
	}
	wd, ht := s.w, s.h
	size := func() {
		if ty == 3 {
			wb, hb := bitsFor(s.w-1), bitsFor(s.h-1)
			wd, ht = r.Range(1, s.w), r.Range(1, s.h)
			w.Put(wd-1, wb)
			w.Put(ht-1, hb)
		}
		w.Put(0, 1) // render size
	}
	if intra {
		size()
	} else {
		if s.oh == 1 {
			w.Put(0, 1)
		}
		for i := 0; i < 7; i++ {
			w.Put(r.Intn(8), 3)
			if s.ids == 1 {
				w.Put(r.Intn(1<<uint(s.dlen+2)), s.dlen+2)
			}
		}
		size()
		w.Put(r.Intn(2), 1)
		w.Put(1, 1)
		w.Put(r.Intn(2), 1)
	}
	f.key, f.refresh, f.reset, f.small = ty == 0, refresh, ty == 0 && show == 1, wd <= 128 && ht <= 128
	endoff := 1
	if nocdf == 0 {
		endoff = r.Intn(2)
		w.Put(endoff, 1)
	}
	// tile_info()
	miC, miR := 2*((wd+7)/8), 2*((ht+7)/8)
	sh := 4 + s.sb128
	sbC, sbR := (miC+1<<uint(sh)-1)>>uint(sh), (miR+1<<uint(sh)-1)>>uint(sh)
	minC := log2up(4096>>uint(sh+2), sbC)
	maxC, maxR := log2up(1, min(sbC, 64)), log2up(1, min(sbR, 64))
	minT := max(minC, log2up(4096*2304>>uint(2*(sh+2)), sbR*sbC))
	w.Put(1, 1)
	cl := uniform(w, r, minC, maxC)
	tw := (sbC + 1<<uint(cl) - 1) >> uint(cl)
	f.cols = (sbC + tw - 1) / tw
	rl := uniform(w, r, max(minT-cl, 0), maxR)
	th := (sbR + 1<<uint(rl) - 1) >> uint(rl)
	f.rows = (sbR + th - 1) / th
	f.colsLog2, f.rowsLog2 = log2up(1, f.cols), log2up(1, f.rows)
	// the standard codes the ids with the logs it has just decided on
	f.colsLog2, f.rowsLog2 = cl, rl
	f.tsb = 1
	if cl > 0 || rl > 0 {
		w.Put(r.Intn(f.cols*f.rows), cl+rl)
		f.tsb = r.Range(1, 4)
		w.Put(f.tsb-1, 2)
	}
	base := r.Pick(0, r.Range(1, 255), r.Range(1, 255))
	w.Put(base, 8)
	w.Put(0, 1)
	if s.mono == 0 {
		if s.sepuv == 1 {
			w.Put(0, 1)
		}
		w.Put(0, 2)
	}
	w.Put(0, 1)
	w.Put(0, 1)
	if base > 0 {
		w.Put(0, 1)
	}
	if base > 0 {
		w.Put(0, 12)
		w.Put(r.Intn(8), 3)
		w.Put(0, 1)
		w.Put(r.Intn(2), 1)
	}
	if !intra {
		w.Put(0, 1) // no compound references
	}
	w.Put(r.Intn(2), 1)
	if !intra {
		w.Put(0, 7)
	}
	return f
}

func leb(v, pad int) []int {
	var out []int
	for {
		b := v & 127
		v >>= 7
		if v > 0 || pad > 0 {
			b |= 128
		}
		out = append(out, b)
		if v == 0 {
			if pad == 0 {
				return out
			}
			pad--
			if pad == 0 {
				return append(out, 0)
			}
		}
	}
}

type gen struct {
	r        *Rng
	ext      int // extension byte or -1
	sizeMode int
	slots    [8]int // 0: empty, 1: a frame, 2: a key frame
}

// obu wraps a payload; the result includes obu_length.
func (g *gen) obu(ty int, ext int, payload []int) []int {
	r := g.r
	hs := r.Intn(2)
	if g.sizeMode < 2 {
		hs = g.sizeMode
	}
	h := ty<<3 | b2i(ext >= 0)<<2 | hs<<1 | r.Intn(2)
	o := []int{h}
	if ext >= 0 {
		o = append(o, ext)
	}
	if hs == 1 {
		pad := 0
		if r.Chance(1, 8) {
			pad = r.Range(1, 2)
		}
		o = append(o, leb(len(payload), pad)...)
	}
	o = append(o, payload...)
	pad := 0
	if r.Chance(1, 10) {
		pad = 1
	}
	return append(leb(len(o), pad), o...)
}

func trailing(w *W) []int {
	c := &W{Bits: append([]byte{}, w.Bits...)}
	c.Put(1, 1)
	return c.Bytes()
}

func (g *gen) extb(tid, sid int) int { return tid<<5 | sid<<3 | g.r.Intn(8) }

func inOp(idc, tid, sid int) bool { return idc>>uint(tid)&1 == 1 && idc>>uint(sid+8)&1 == 1 }

// frameUnit yields the OBUs of one frame and possibly others around them.
func (g *gen) frameUnit(s seqh, first bool) []int {
	r := g.r
	var out []int
	junk := func() {
		if r.Chance(1, 4) {
			ty := r.Pick(15, 5, 9, 12, 0, 14)
			out = append(out, g.obu(ty, r.Pick(-1, r.Intn(256)), r.Bytes(r.Intn(5), 8))...)
		}
	}
	if first || r.Chance(1, 8) {
		w := s.bits(r)
		p := trailing(w)
		for k := r.Intn(3); k > 0 && r.Chance(1, 3); k-- {
			p = append(p, 0)
		}
		out = append(out, g.obu(1, r.Pick(-1, -1, r.Intn(256)), p)...)
	}
	junk()
	idc := s.idcs[0]
	if idc != 0 && r.Chance(1, 3) { // a frame of a layer that may be dropped
		tid, sid := r.Intn(8), r.Intn(4)
		if !inOp(idc, tid, sid) {
			for k := r.Range(1, 2); k > 0; k-- {
				out = append(out, g.obu(r.Pick(3, 4, 6, 7, 8, 5, 15, 10), g.extb(tid, sid), r.Bytes(r.Intn(9), 8))...)
			}
			return out
		}
	}
	ext := -1
	if r.Chance(1, 3) {
		for k := 0; k < 60; k++ {
			tid, sid := r.Intn(8), r.Intn(4)
			if idc == 0 || inOp(idc, tid, sid) {
				ext = g.extb(tid, sid)
				break
			}
		}
	}
	f := s.frame(r, g.slots)
	n := f.cols * f.rows
	put := func() {
		for i := range g.slots {
			if f.refresh>>uint(i)&1 == 1 {
				g.slots[i] = 1 + b2i(f.key)
			}
		}
	}
	if f.existing {
		put()
		return append(out, g.obu(3, ext, trailing(f.w))...)
	}
	// tile groups
	var groups [][2]int
	a := 0
	for a < n {
		b := n - 1
		if n > 1 && r.Chance(1, 2) {
			b = r.Range(a, n-1)
		}
		groups = append(groups, [2]int{a, b})
		a = b + 1
	}
	group := func(q [2]int) *W {
		w := &W{}
		if n > 1 {
			if len(groups) > 1 || r.Chance(1, 3) {
				w.Put(1, 1)
				w.Put(q[0], f.colsLog2+f.rowsLog2)
				w.Put(q[1], f.colsLog2+f.rowsLog2)
			} else {
				w.Put(0, 1)
			}
		}
		for len(w.Bits)%8 != 0 {
			w.Put(0, 1)
		}
		for t := q[0]; t <= q[1]; t++ {
			sz := r.Pick(1, 2, 3, 4, 5, r.Range(1, 20))
			if r.Chance(1, 30) && f.tsb > 1 {
				sz = r.Range(250, 300)
			}
			if t < q[1] {
				v := sz - 1
				for k := 0; k < f.tsb; k++ {
					w.Put(v>>uint(8*k)&255, 8)
				}
			}
			for _, b := range r.Bytes(sz, 8) {
				w.Put(b, 8)
			}
		}
		return w
	}
	hdrObu := func(ty int) []int {
		p := trailing(f.w)
		if r.Chance(1, 6) {
			p = append(p, 0)
		}
		return g.obu(ty, ext, p)
	}
	drop := 0 // unfinished frame
	if r.Chance(1, 12) {
		drop = r.Range(1, len(groups))
	}
	if r.Chance(1, 2) && drop < len(groups) { // OBU_FRAME
		c := &W{Bits: append([]byte{}, f.w.Bits...)}
		for len(c.Bits)%8 != 0 {
			c.Put(0, 1)
		}
		c.Bits = append(c.Bits, group(groups[0]).Bits...)
		out = append(out, g.obu(6, ext, c.Bytes())...)
		groups = append([][2]int{{-1, -1}}, groups[1:]...)
	} else {
		out = append(out, hdrObu(3)...)
	}
	for i := 0; i < len(groups)-drop; i++ {
		if groups[i][0] < 0 {
			continue
		}
		junk()
		if r.Chance(1, 4) {
			out = append(out, hdrObu(r.Pick(7, 7, 3))...)
		}
		out = append(out, g.obu(4, ext, group(groups[i]).Bytes())...)
	}
	if f.reset {
		g.slots = [8]int{}
	}
	if drop == 0 {
		if f.small {
			put()
		}
		junk()
	} else {
		out = append(out, -1) // the caller starts a new temporal unit
	}
	return out
}

func genCase(r *Rng, i int) in {
	g := &gen{r: r, ext: -1, sizeMode: r.Intn(4)}
	small := r.Chance(1, 2)
	s := genSeq(r, small)
	var data []int
	first := true
	for tu := r.Range(1, 4); tu > 0; tu-- {
		var unit []int
		if r.Chance(1, 12) && !first {
			data = append(data, leb(0, 0)...)
		}
		td := g.obu(2, r.Pick(-1, -1, -1, r.Intn(256)), r.Bytes(b2i(r.Chance(1, 12)), 0))
		if !first && r.Chance(1, 4) {
			s = genSeq(r, small)
			first = true
		}
		for fu := r.Range(1, 3); fu > 0; fu-- {
			u := g.frameUnit(s, first)
			stop := u[len(u)-1:]
			if len(u) > 0 && stop[0] == -1 {
				u = u[:len(u)-1]
				fu = 1
			}
			first = false
			if td != nil {
				u = append(append([]int{}, td...), u...)
				td = nil
			}
			unit = append(unit, leb(len(u), 0)...)
			unit = append(unit, u...)
		}
		data = append(data, leb(len(unit), 0)...)
		data = append(data, unit...)
	}
	if r.Chance(1, 15) {
		data = data[:r.Range(1, len(data))]
	}
	return in{data}
}

// ------------------------------------------------------------- execution

func mark(c [][]int) int {
	if len(c) == 0 || len(c[0]) == 0 {
		return -1
	}
	if c[0][0] >= 100000 {
		return c[0][0] - 100000
	}
	return 0
}

func run(c in) map[string]any {
	b := bitstream.NewBitStream(Bytes(c.Data))
	p := parser.NewParser(&b)
	logger.Logger = zap.NewNop()
	tiles := map[int][]any{}
	count := 0
	tilegroup.HookTile = func(t *tilegroup.TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
		k := len(p.VObus())
		rec := map[string]any{"Num": s.TileNum, "RowStart": s.MiRowStart, "RowEnd": s.MiRowEnd, "ColStart": s.MiColStart,
			"ColEnd": s.MiColEnd, "QIndex": s.CurrentQIndex, "Pos": b.Position, "MaxBits": s.SymbolMaxBits, "Cdf": mark(s.TileSkipCdf)}
		rec["Lit"] = literal.L(tileLits, s, b, uh)
		count++
		s.TileSkipCdf[0][0] = 100000 + count
		s.CurrentQIndex = 999 // what a tile's blocks may do to it
		tiles[k] = append(tiles[k], rec)
		return true
	}
	tilegroup.HookWrapup = func(t *tilegroup.TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool {
		k := len(p.VObus())
		tiles[k] = append(tiles[k], map[string]any{"Num": -1, "RowStart": 0, "RowEnd": 0, "ColStart": 0, "ColEnd": 0,
			"QIndex": 0, "Pos": 0, "MaxBits": 0, "Lit": 0, "Cdf": mark(s.SkipCdf) * b2i(!uh.ShowExistingFrame)})
		if uh.ShowExistingFrame {
			return false
		}
		if uh.UpscaledWidth <= 128 && uh.FrameHeight <= 128 {
			t.VRefUpdate(s, uh, sh, count)
		}
		return true
	}
	st, msg := Try(func() { p.VRun() })
	if st == "hang" {
		return map[string]any{"st": st, "msg": msg, "log": []any{}, "p": 0}
	}
	s := p.VState()
	out := map[string]any{"st": st, "msg": msg, "p": b.Position,
		"refs": map[string]any{"Valid": s.RefValid, "Id": s.RefFrameId, "OrderHint": s.RefOrderHint, "Type": s.RefFrameType}}
	var log []any
	for i, o := range p.VObus() {
		sq, u := o.SequenceHeader, o.UncompressedHeader
		tl := tiles[i]
		if tl == nil {
			tl = []any{}
		}
		fh := map[string]any{"FrameType": 0, "ShowFrame": 0, "Refresh": 0, "FrameId": 0, "Order": 0, "BaseQ": 0, "FrameWidth": 0, "FrameHeight": 0}
		if !u.ShowExistingFrame {
			fh = map[string]any{"FrameType": u.FrameType, "ShowFrame": u.ShowFrame, "Refresh": u.RefreshFrameFlags,
				"FrameId": u.CurrentFrameId, "Order": u.OrderHint, "BaseQ": u.BaseQIdx, "FrameWidth": u.FrameWidth,
				"FrameHeight": u.FrameHeight}
		}
		shown := []int{}
		if y := o.TileGroup.OutY; len(y) > 0 && len(y[0]) > 0 {
			shown = []int{len(y[0]), len(y), y[0][0], y[len(y)-1][len(y[0])-1]}
		}
		log = append(log, map[string]any{"Type": o.Header.Type, "Ext": o.Header.ExtensionFlag, "HasSize": o.Header.HasSizeField,
			"Tid": o.Header.ExtensionHeader.TemporalID, "Sid": o.Header.ExtensionHeader.SpatialID, "Size": o.Size,
			"Forbidden": o.Header.ForbiddenBit, "Reserved": o.Header.ReservedBit, "Reserved3": o.Header.ExtensionHeader.Reserved3Bits,
			"Seq": map[string]any{"MaxWidth": sq.MaxFrameWidthMinusOne, "MaxHeight": sq.MaxFrameHeightMinusOne,
				"FrameIds": sq.FrameIdNumbersPresent, "OrderHintBits": sq.OrderHintBits, "Idcs": Norm(sq.OperatingPointIdc),
				"Mono": sq.ColorConfig.MonoChrome, "SB128": sq.Use128x128SuperBlock},
			"Fh": fh, "Shown": shown,
			"Tiles": tl})
	}
	if log == nil {
		log = []any{}
	}
	out["log"] = log
	return out
}

func main() { Main(genCase, run) }
