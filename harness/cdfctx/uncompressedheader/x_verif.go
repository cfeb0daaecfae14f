package uncompressedheader

import "github.com/m4tthewde/gov1/internal/state"

func XInitNonCoeffCdfs(s *state.State) { initNonCoeffCdfs(s) }
func XInitCoeffCdfs(s *state.State, q int) {
	initCoeffCdfs(s, UncompressedHeader{BaseQIdx: q})
}
