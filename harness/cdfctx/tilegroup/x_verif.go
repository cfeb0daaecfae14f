package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func XInitSymbol(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State) {
	t.initSymbol(sz, b, s)
}

func XExitSymbol(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	t.exitSymbol(b, s, uh)
}

func XFrameEnd(t *TileGroup, s *state.State) { t.frameEndUpdateCdf(s) }
