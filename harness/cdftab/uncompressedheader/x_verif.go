package uncompressedheader

import "github.com/m4tthewde/gov1/internal/state"

// XInitCdfs fills the frame CDFs with the defaults for a base quantizer index.
func XInitCdfs(s *state.State, q int) {
	initNonCoeffCdfs(s)
	initCoeffCdfs(s, UncompressedHeader{BaseQIdx: q})
}
