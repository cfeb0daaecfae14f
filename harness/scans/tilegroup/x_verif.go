package tilegroup

// XScan is the scan of a transform block of the given size and type.
func XScan(txSz, txType int) []int {
	t := &TileGroup{}
	t.PlaneTxType = txType
	return t.getScan(txSz)
}
