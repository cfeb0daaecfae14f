package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XBlock is one transform block to be reconstructed.
type XBlock struct {
	Plane, Sz, Ty, X, Y int
	Lossless, Seg       int
	Coef                [][2]int
}

// XReconstruct adds the residual of a block to the current frame.
func (t *TileGroup) XReconstruct(b XBlock, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
	t.PlaneTxType = b.Ty
	t.Lossless = b.Lossless == 1
	t.SegmentId = b.Seg
	for i := range t.Quant {
		t.Quant[i] = 0
	}
	for _, c := range b.Coef {
		t.Quant[c[0]] = c[1]
	}
	t.reconstruct(b.Plane, b.X, b.Y, b.Sz, sh, uh, s)
}
