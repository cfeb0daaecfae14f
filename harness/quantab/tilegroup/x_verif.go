package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XScale is what a block of coefficients that are all c becomes before the transform.
func XScale(plane, sz, c int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State, w, h int) [][]int {
	t := &TileGroup{}
	for i := range t.Quant {
		t.Quant[i] = c
	}
	t.reconstruct(plane, 0, 0, sz, sh, uh, s)
	out := [][]int{}
	for i := 0; i < h; i++ {
		out = append(out, append([]int{}, t.Dequant[i][:w]...))
	}
	return out
}
