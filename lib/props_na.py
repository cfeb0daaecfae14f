DEC = ["internal/tilegroup/tile_group.go"]
na("C90", "Inter frames are predicted and decoded as the AV1 decoding process does",
   "For any conforming stream the modes, motion vectors and samples of every inter frame (and of every block copied within an intra frame) equal those of the "
   "AV1 decoding process.",
   ["inputs"], "all conforming streams with inter frames", NOTESTS + "no inter frame is ever decoded.", DEC,
   [("inter syntax, motion vectors and inter prediction", "internal/tilegroup/inter_frame_mode_info.go"), ("inter prediction", "internal/tilegroup/predict_inter.go")],
   "A specification could describe it, but there is nothing to bind it to: the decoder stops as not implemented at the first inter syntax element "
   "(every inter block, intra block copy, motion field estimation, reference scaling set-up), so no inter frame has an outcome to conform.  Header parsing of inter "
   "frames is claimed (C06-C11).")
