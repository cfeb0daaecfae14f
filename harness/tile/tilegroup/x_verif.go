package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XDecodeTile decodes one tile whose bounds are set in s.
func XDecodeTile(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.initSymbol(sz, b, s)
	t.decodeTile(b, s, sh, uh)
}
