From 303640a95a56db8740c9fd1a088c167f106b09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 001/116] fix: break the import cycle between
 uncompressedheader and tilegroup

The frame header parser imported tilegroup for two load_* process stubs while
tilegroup imports uncompressedheader, so neither package (nor obu, parser,
symbol, literal) could be compiled at all.
---
 internal/tilegroup/decode_frame_wrapup.go       | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..80eb5cb 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,8 +630,8 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
@@ -1341,3 +1340,15 @@ func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader,
 func (u *UncompressedHeader) LoadGrainParams(idx int) {
 	panic("not implemented")
 }
+
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+
+}
-- 
2.43.0


From 9ba29b6a0335faad035a1d3b1e0b85ce6ee19243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 002/116] fix: parse the sequence header in the standard's
 order

The level was read before the reduced_still_picture_header branch and again
with 12 bits, the operating points only when timing info was present, and the
frame size, ids and tools not at all for reduced still pictures. The
per-operating-point lists had room for one entry (or none), and the operating
point idcs the frame header needs were never stored.
---
 internal/sequenceheader/sequence_header.go | 194 +++++++++++----------
 1 file changed, 104 insertions(+), 90 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..6b37756 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,13 +110,15 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
-	s.InitialDisplayDelayMinusOne = []int{}
+	s.InitialDisplayDelayMinusOne = []int{0}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
@@ -130,115 +132,127 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
-
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
-
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
+
+		operatingPointIdcArray = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.SeqLevelIdx = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.SeqTier = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.DecoderModelPresentForThisOp = make([]bool, s.OperatingPointsCountMinusOne+1)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, s.OperatingPointsCountMinusOne+1)
+		s.InitialDisplayDelayMinusOne = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.DecoderBufferDelay = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.EncoderBufferDelay = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.LowDelayModeFlag = make([]bool, s.OperatingPointsCountMinusOne+1)
+
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
+
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+
+	s.OperatingPointIdc = operatingPointIdcArray
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
+	s.FrameIdNumbersPresent = false
+
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			s.SeqChooseIntegerMv = b.F(1) != 0
+
+			if s.SeqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From bd5724170df7cff7e4f5861c54fc79c31c852e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 003/116] fix: report show_existing_frame and its refresh flags
 from the frame header

The flag was kept in a local, so the OBU layer never saw it, and the refresh
flags went to a field nobody reads.
---
 internal/uncompressedheader/uncompressed_header.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 80eb5cb..d8b3d8e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -25,7 +25,6 @@ type UncompressedHeader struct {
 	ShowableFrame              bool
 	ShowFrame                  bool
 	FrameType                  int
-	RefreshImageFlags          int
 	DisplayFrameId             int
 	FrameIdNumbersPresent      bool
 	AllowHighPrecisionMv       bool
@@ -170,16 +169,16 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
 				u.TemporalPointInfo(sh, b)
 			}
 
-			u.RefreshImageFlags = 0
+			u.RefreshFrameFlags = 0
 			if sh.FrameIdNumbersPresent {
 				u.DisplayFrameId = b.F(idLen)
 			}
@@ -187,7 +186,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			u.FrameType = s.RefFrameType[u.FrameToShowMapIdx]
 
 			if u.FrameType == shared.KEY_FRAME {
-				u.RefreshImageFlags = allFrames
+				u.RefreshFrameFlags = allFrames
 			}
 
 			if sh.FilmGrainParamsPresent {
-- 
2.43.0


From 9e792a4f78f9f6485ad8bee0a3ca3b02da7261a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 004/116] fix: a shown key frame invalidates the reference
 slots

The reset went to local arrays instead of the decoder state.
---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d8b3d8e..da8f367 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,10 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := []int{}
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -221,12 +217,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From f7986b151d5a96c39c930cbcd7a39f09464d9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 005/116] fix: take forced screen content tools and integer mv
 from the sequence header

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index da8f367..aa714f6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -231,14 +231,14 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 7c2dec08d45f6d560299dc20a0cd0bff7934a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 006/116] fix: keep frame ids across frames

The ids of the reference slots lived in a nil list of the header being parsed,
so the first frame of any stream with frame ids crashed.
---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          |  3 ++-
 internal/uncompressedheader/uncompressed_header.go | 13 +++++++------
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..245b50c 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -379,6 +379,8 @@ type State struct {
 	SavedCoeffBaseCdf    [][][][]int
 	SavedCoeffBrCdf      [][][][]int
 	RefValid             [shared.NUM_REF_FRAMES]int
+	RefFrameId           [shared.NUM_REF_FRAMES]int
+	CurrentFrameId       int
 
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 50c9f9a..425ff8b 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
@@ -204,7 +205,7 @@ func saveSegmentationParams(ctx int) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index aa714f6..2aa4383 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -69,7 +69,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -249,11 +248,13 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
 		u.CurrentFrameId = b.F(idLen)
+		s.CurrentFrameId = u.CurrentFrameId
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
+		s.CurrentFrameId = 0
 	}
 
 	if u.FrameType == SWITCH_FRAME {
@@ -315,7 +316,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	var expectedFrameId [shared.REFS_PER_FRAME]int
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
@@ -470,12 +471,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 152710192aee5a70ed5003edcf62537f136492bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 007/116] fix: read buffer removal times

The list had no room for any entry, and the spatial layer was looked up in the
temporal part of the operating point.
---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2aa4383..fabfbc8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -153,7 +153,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	bufferRemovalTime := []int{}
+	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
@@ -283,7 +283,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-- 
2.43.0


From c0a9f698639f53b6052470ab4e26bd6c7d7013dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 008/116] fix: read refresh_frame_flags of every frame that
 codes them

Only switch frames and shown key frames imply them; ref_order_hint had no room.
---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index fabfbc8..37a8ff9 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -294,11 +294,11 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	var ref_order_hint [shared.NUM_REF_FRAMES]int
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From afc7cb016dc509863f3f141c533891be8862ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 009/116] fix: read each reference index once and order hints
 for all seven

ref_frame_idx was read twice, only LAST2_FRAME got an order hint and sign bias,
and get_relative_dist() looked at a header field that is never set.
---
 internal/uncompressedheader/uncompressed_header.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 37a8ff9..ded7197 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -134,7 +134,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [shared.ALTREF_FRAME + 1]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -342,7 +342,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
@@ -378,7 +377,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
@@ -564,7 +563,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
-- 
2.43.0


From 3050db9721542bd3df62a915c3dbdb0188e4bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 010/116] fix: the default render height is the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ded7197..b596c59 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -547,7 +547,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From c9dfbc0c39b2c1a8203493fed257bf99470598c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 011/116] fix: unsigned segmentation features are f(n), not
 su(n)

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index b596c59..57d8236 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -726,7 +726,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From 60ec4505288a37fe30772b5806c050544c6d0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 012/116] fix: chroma quantizer matrix levels come from qm_u
 and qm_v

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 57d8236..9c8a9d8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -437,8 +437,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From 1744ab53759bc2d10d846e9defa6e7ca61b9c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 013/116] fix: loop_filter_sharpness is f(3) and lossless
 frames are not filtered

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 9c8a9d8..75c78ce 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -828,7 +828,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
@@ -854,7 +854,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From debafbb50c8881d641a3345da893c5fff0c0334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 014/116] fix: skip mode needs order hints and compound
 prediction, and the closest backward frame

---
 internal/uncompressedheader/uncompressed_header.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 75c78ce..8e42c39 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -85,7 +85,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
@@ -1000,7 +1000,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
@@ -1015,7 +1015,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From a69e67fa15ba94db3e2b28e67b4bd547aca53a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 015/116] fix: read the global motion parameters

Only the model type was parsed; its parameters stayed in the bitstream. The
signed subexponential code lacked its offset.
---
 .../uncompressedheader/uncompressed_header.go | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8e42c39..1cd3cb9 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1096,6 +1096,23 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
@@ -1132,10 +1149,14 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
+}
+
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 592c4b623a6790e69e4d2bc303ca567a4d6e001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 016/116] fix: count superblock rows of 128x128 superblocks

The row count overwrote the column count.
---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From e37c5a629addeead9426cfc53a42c79c476cdb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 017/116] fix: read increment_tile_rows_log2

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From 4d963e5db583e7b5315a7ac3e456ec6cf64893c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 018/116] fix: Round2Signed and Clip1 use their argument

Both worked on the constant 2, and Clip1 clipped to half the pixel range.
---
 internal/util/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -94,7 +93,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From 0a3aad4af536a08dd1e9423319637549c9f3fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 019/116] fix: neg_deinterleave()

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..0cc1e74 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if !Bool(ref) {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 9effa46561636bfa7ce59ba25a18fe455a07a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 020/116] fix: cos128() outside the first quadrant, brev() and
 the 32-entry OBMC mask

---
 internal/util/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 0cc1e74..7621f75 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 > 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 > 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From cdc39a800e4a6209daae7fb308908151937bca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 021/116] fix: metadata and reserved OBUs are skipped, not
 fatal

---
 internal/obu/obu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..f3e4b6e 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -74,8 +74,12 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
-	default:
+	case header.OBU_TILE_LIST:
 		panic("not implemented")
+	default:
+		// metadata and reserved types carry nothing this decoder uses
+		b.Position = startPosition + o.Size*8
+		return
 	}
 
 	payloadBits := b.Position - startPosition
-- 
2.43.0


From d2ae9521ec2b7630b50c9f4347173aae9802c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 022/116] fix: padding OBUs end at their size, whatever they
 contain

---
 internal/obu/obu.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index f3e4b6e..7c59b15 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -72,6 +72,7 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.TileGroup = o.newFrame(o.Size, b, state, o.Header, o.SequenceHeader)
 	case header.OBU_PADDING:
 		o.paddingObu(b)
+		return
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
 	case header.OBU_TILE_LIST:
@@ -138,10 +139,5 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
-	}
-
-	b.Position -= 8
+	b.Position += o.Size * 8
 }
-- 
2.43.0


From 7827cbf3d9b7ca4bc6066ec2504a4a8737a56a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 023/116] fix: repeated frame headers copy the frame header in
 force

---
 internal/obu/obu.go     | 10 ++++++----
 internal/state/state.go |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 7c59b15..aac2a7c 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -113,11 +113,13 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 // frame_header_obu()
 func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h header.Header, sh sequenceheader.SequenceHeader) uncompressedheader.UncompressedHeader {
 	if state.SeenFrameHeader {
-		return FrameHeaderCopy()
+		return o.FrameHeaderCopy(b, state)
 	} else {
 		state.SeenFrameHeader = true
+		startPosition := b.Position
 
 		uncompressedHeader := uncompressedheader.NewUncompressedHeader(h, sh, b, state)
+		state.FrameHeaderBits = b.Position - startPosition
 
 		if uncompressedHeader.ShowExistingFrame {
 			uncompressedHeader.DecodeFrameWrapup()
@@ -132,9 +134,9 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 }
 
 // frame_header_copy()
-func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
-	panic("not implemented")
-	return uncompressedheader.UncompressedHeader{}
+func (o *Obu) FrameHeaderCopy(b *bitstream.BitStream, state *state.State) uncompressedheader.UncompressedHeader {
+	b.Position += state.FrameHeaderBits
+	return o.UncompressedHeader
 }
 
 // padding_obu( )
diff --git a/internal/state/state.go b/internal/state/state.go
index 245b50c..eb3bf50 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -31,6 +31,7 @@ type State struct {
 	BlockHeight       [shared.MAX_TILE_COLS]int
 
 	SeenFrameHeader bool
+	FrameHeaderBits int
 	RenderWidth     int
 	RenderHeight    int
 	TileNum         int
-- 
2.43.0


From fcc0ae0f1ad3c4a3c11ac47f1162e092f3bbcc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 024/116] fix: the decoder state outlives a frame unit

---
 internal/parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..83020fb 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -16,6 +16,7 @@ type Parser struct {
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
+	state              *state.State
 }
 
 func NewParser(b *bitstream.BitStream) Parser {
@@ -23,6 +24,7 @@ func NewParser(b *bitstream.BitStream) Parser {
 
 	return Parser{
 		bitStream: b,
+		state:     &state.State{},
 	}
 }
 
@@ -38,14 +40,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 4edd71f709bab5a5818ea9443e9b27fe2e6bbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 025/116] fix: the header of a frame OBU stays in force for its
 later tile groups

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 83020fb..ccd21bf 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -52,7 +52,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From 34bd8d58d2c67aafd80638c4898f2c519c02df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 026/116] fix: the comp_ref_type CDF is saved from the tile and
 restored like every other CDF

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..c4945f5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -658,7 +658,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From 1a41465580cf6f2934c44bf6be9b9170b54cf9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 027/116] fix: the ref_mv CDF is initialised with the others

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..51b86d1 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1355,6 +1356,15 @@ var DFEAULT_ZERO_MV_CDF = [][]int{
 	{1054, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DEFAULT_NEW_MV_CDF = [][]int{
 	{
 		24035, 32768, 0},
-- 
2.43.0


From 6cc13c161f94bbd9db660b327621bed0a8df6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 028/116] fix: adapting a tile's CDFs no longer changes the
 defaults, the frame and the saved copies

---
 internal/state/cdfs.go           | 37 ++++++++++++++++++++++++++++++++
 internal/tilegroup/tile_group.go |  1 +
 2 files changed, 38 insertions(+)
 create mode 100644 internal/state/cdfs.go

diff --git a/internal/state/cdfs.go b/internal/state/cdfs.go
new file mode 100644
index 0000000..da67df9
--- /dev/null
+++ b/internal/state/cdfs.go
@@ -0,0 +1,37 @@
+package state
+
+import (
+	"reflect"
+	"strings"
+)
+
+// OwnTileCdfs gives the tile CDFs storage of their own, so that adapting them
+// while a tile is decoded changes no other copy (defaults, frame, saved, references).
+func (s *State) OwnTileCdfs() {
+	v := reflect.ValueOf(s).Elem()
+	for i := 0; i < v.NumField(); i++ {
+		name := v.Type().Field(i).Name
+		if strings.HasPrefix(name, "Tile") && strings.HasSuffix(name, "Cdf") {
+			v.Field(i).Set(cloneCdf(v.Field(i)))
+		}
+	}
+}
+
+func cloneCdf(src reflect.Value) reflect.Value {
+	dst := reflect.New(src.Type()).Elem()
+	switch src.Kind() {
+	case reflect.Slice:
+		if src.IsNil() {
+			return dst
+		}
+		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
+		fallthrough
+	case reflect.Array:
+		for i := 0; i < src.Len(); i++ {
+			dst.Index(i).Set(cloneCdf(src.Index(i)))
+		}
+	default:
+		dst.Set(src)
+	}
+	return dst
+}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c4945f5..a17dcb1 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -576,6 +576,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
 	state.TileCoeffBaseCdf = state.CoeffBaseCdf
 	state.TileCoeffBrCdf = state.CoeffBrCdf
+	state.OwnTileCdfs()
 }
 
 // 8.2.4 Exit process for symbol decoder
-- 
2.43.0


From 542170c48d1f880096a47a465400d8fe8fc2d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 029/116] fix: loading saved CDFs resets their symbol counters

---
 internal/state/cdfs.go             | 23 +++++++++++++++++++++++
 internal/uncompressedheader/cdf.go |  2 +-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/state/cdfs.go b/internal/state/cdfs.go
index da67df9..31fc846 100644
--- a/internal/state/cdfs.go
+++ b/internal/state/cdfs.go
@@ -17,6 +17,29 @@ func (s *State) OwnTileCdfs() {
 	}
 }
 
+// ResetCdfCounters sets the symbol counter, the last entry of every frame CDF, to 0.
+func (s *State) ResetCdfCounters() {
+	v := reflect.ValueOf(s).Elem()
+	saved := reflect.TypeOf(MemoryArea{})
+	for i := 0; i < saved.NumField(); i++ {
+		if name := saved.Field(i).Name; strings.HasSuffix(name, "Cdf") {
+			cdf := cloneCdf(v.FieldByName(name))
+			resetCounters(cdf)
+			v.FieldByName(name).Set(cdf)
+		}
+	}
+}
+
+func resetCounters(cdf reflect.Value) {
+	for i := 0; i < cdf.Len(); i++ {
+		if cdf.Index(i).Kind() != reflect.Int {
+			resetCounters(cdf.Index(i))
+		} else if i == cdf.Len()-1 {
+			cdf.Index(i).SetInt(0)
+		}
+	}
+}
+
 func cloneCdf(src reflect.Value) reflect.Value {
 	dst := reflect.New(src.Type()).Elem()
 	switch src.Kind() {
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 51b86d1..5ce26dc 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -340,7 +340,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.CoeffBaseCdf = memoryArea.CoeffBaseCdf
 	s.CoeffBrCdf = memoryArea.CoeffBrCdf
 
-	// TODO: set last entry of every array to 0
+	s.ResetCdfCounters()
 }
 
 var DEFAULT_INTER_TX_TYPE_SET2_CDF = []int{
-- 
2.43.0


From d80befaec820bcbe5edfc3c7e528f72d070b3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 030/116] fix: intra_frame_y_mode CDFs adapt across frames like
 every other CDF

---
 internal/state/state.go            | 5 +++++
 internal/tilegroup/tile_group.go   | 4 +++-
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index eb3bf50..a54ef90 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -85,6 +85,9 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
+	IntraFrameYModeCdf      [][][]int
+	SavedIntraFrameYModeCdf [][][]int
+
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
 	EobPt32Cdf      [][][]int
@@ -387,6 +390,8 @@ type State struct {
 }
 
 type MemoryArea struct {
+	IntraFrameYModeCdf [][][]int
+
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
 	EobPt32Cdf      [][][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index a17dcb1..fa58001 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -369,6 +369,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // 7.7. Frame end update CDF process
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.YModeCdf = state.SavedYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
@@ -477,7 +478,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 
 	state.TileYModeCdf = state.YModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
@@ -589,6 +590,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 	b.Position += util.Max(0, state.SymbolMaxBits)
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedYModeCdf = state.TileYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 5ce26dc..9e481c6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -7,6 +7,7 @@ import (
 
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
@@ -138,6 +139,7 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.YModeCdf = s.YModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
@@ -242,6 +244,7 @@ func SaveCdfs(ctx int, s *state.State) {
 func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.YModeCdf = memoryArea.YModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
-- 
2.43.0


From b5dc0a36ea302a6c3ef7ad65a19c38796dd06ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 031/116] verif: observation points for tiles, blocks and the
 frame wrap-up (build tag verif)

---
 internal/tilegroup/decode_block.go |  4 ++++
 internal/tilegroup/hook.go         | 24 ++++++++++++++++++++++++
 internal/tilegroup/hook_verif.go   | 30 ++++++++++++++++++++++++++++++
 internal/tilegroup/tile_group.go   |  8 ++++++++
 4 files changed, 66 insertions(+)
 create mode 100644 internal/tilegroup/hook.go
 create mode 100644 internal/tilegroup/hook_verif.go

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..856a28f 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -42,6 +42,10 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 		state.AvailLChroma = false
 	}
 
+	if t.hookBlock(b, state, sh, uh) {
+		return
+	}
+
 	t.modeInfo(b, uh, sh, state)
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
diff --git a/internal/tilegroup/hook.go b/internal/tilegroup/hook.go
new file mode 100644
index 0000000..7812190
--- /dev/null
+++ b/internal/tilegroup/hook.go
@@ -0,0 +1,24 @@
+//go:build !verif
+
+package tilegroup
+
+import (
+	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
+	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+)
+
+// Observation points of the verification build (tag verif); never taken otherwise.
+
+func (t *TileGroup) hookTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return false
+}
+
+func (t *TileGroup) hookBlock(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return false
+}
+
+func (t *TileGroup) hookWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool {
+	return false
+}
diff --git a/internal/tilegroup/hook_verif.go b/internal/tilegroup/hook_verif.go
new file mode 100644
index 0000000..658ada1
--- /dev/null
+++ b/internal/tilegroup/hook_verif.go
@@ -0,0 +1,30 @@
+//go:build verif
+
+package tilegroup
+
+import (
+	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
+	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+)
+
+// When set, these stand in for the decoding of one tile, the contents of one
+// block and the work after a frame's last tile.
+var (
+	HookTile   func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
+	HookBlock  func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
+	HookWrapup func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool
+)
+
+func (t *TileGroup) hookTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return HookTile != nil && HookTile(t, b, state, sh, uh)
+}
+
+func (t *TileGroup) hookBlock(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return HookBlock != nil && HookBlock(t, b, state, sh, uh)
+}
+
+func (t *TileGroup) hookWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool {
+	return HookWrapup != nil && HookWrapup(t, state, uh, sh)
+}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index fa58001..b26f8ad 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -337,6 +337,10 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 // 7.4. Decode frame wrapup process
 // decode_frame_wrapup( )
 func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+	if t.hookWrapup(state, uh, sh) {
+		return
+	}
+
 	if !uh.ShowExistingFrame {
 		if uh.LoopFilterLevel[0] != 0 || uh.LoopFilterLevel[1] != 0 {
 			t.loopFilter(state, uh, sh)
@@ -733,6 +737,10 @@ func (t *TileGroup) clearLeftContext(state *state.State) {
 
 // decode_tile()
 func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
+	if t.hookTile(b, state, sh, uh) {
+		return
+	}
+
 	t.clearAboveContext(state)
 
 	for i := 0; i < shared.FRAME_LF_COUNT; i++ {
-- 
2.43.0


From 89d8379d4e981c00ddb6fd0401286065629f51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 032/116] fix: default skip_mode and seg_id_predicted CDFs are
 CDFs

---
 internal/uncompressedheader/cdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 9e481c6..066e310 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1294,11 +1294,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
@@ -1598,9 +1598,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From aa5ba17e2855abb7721c6e72a2492e8939f5ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 033/116] fix: five-colour chroma palettes have CDFs of their
 own

---
 internal/uncompressedheader/cdf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 066e310..678f5d7 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -923,15 +923,15 @@ var DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF = [][]int{
 
 var DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF = [][]int{
 	{
-		24779, 26955, 28576, 30282, 32768, 0},
+		22980, 25479, 27781, 29986, 32768, 0},
 	{
-		8669, 20364, 24073, 28093, 32768, 0},
+		8413, 21408, 24859, 28874, 32768, 0},
 	{
-		4255, 27565, 29377, 31067, 32768, 0},
+		2257, 29449, 30594, 31598, 32768, 0},
 	{
-		19864, 23674, 26716, 29530, 32768, 0},
+		19189, 21202, 25915, 28620, 32768, 0},
 	{
-		31646, 31893, 32147, 32426, 32768, 0},
+		31844, 32044, 32281, 32518, 32768, 0},
 }
 
 var DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF = [][]int{
-- 
2.43.0


From f572319b50bce8b08af0cbc9ff494c22a8c8e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 034/116] fix: a segment's quantizer offset applies to the
 current index too

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 1cd3cb9..2a9470e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -805,7 +805,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From 1cef65f4538b5e52c6778f6351337ab9f35070ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 035/116] fix: the first block of a horizontal partition starts
 at its top

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..d4775c5 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
-- 
2.43.0


From 1bdd2c3de4d14a97dfb313b3b7c2cb74e57a01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 036/116] fix: the bottom right block of VERT_B has the split
 size

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d4775c5..d67e629 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
-- 
2.43.0


From 02691604ace21e804e49a261d40bd8c62667f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 037/116] fix: VERT_4 compares columns with columns

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d67e629..283919f 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
-- 
2.43.0


From f36d632a228addf208ae737aa7f6220d011ab9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 038/116] fix: split_or_horz and split_or_vert build a CDF of
 three entries

---
 internal/tilegroup/decode_partition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index 283919f..facbe13 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From 5fe2bec0767cf62f185ba0cdbac3555b89060cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 039/116] fix: per block arrays cover the frame, not its first
 8x8 samples

---
 internal/state/state.go          |  2 +-
 internal/tilegroup/tile_group.go | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index a54ef90..787a8ec 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -40,7 +40,7 @@ type State struct {
 	MiSize          int
 	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [2][2][4]int
+	DeltaLFs        [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][4]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index b26f8ad..267ea71 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -134,21 +134,21 @@ type TileGroup struct {
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Lossless            bool
 	Skip                int
-	Skips               [2][2]int
-	SkipModes           [2][2]int
+	Skips               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SkipModes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	YMode               int
 	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	UVMode              int
-	UVModes             [2][2]int
+	UVModes             [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [2][2][2]int
+	InterpFilters       [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [2][2]int
+	IsInters            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Mv                  [2][2]int
 	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
 	FoundMatch          int
@@ -168,7 +168,7 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][2][2]int
+	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteColors       [][][][]int
 	PaletteCache        []int
 	PaletteColorsY      []int
@@ -207,7 +207,7 @@ type TileGroup struct {
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	TxSize       int
-	TxSizes      [2][2]int
+	TxSizes      [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -249,10 +249,10 @@ type TileGroup struct {
 	Dequant           [64][64]int
 	TxType            int
 	PlaneTxType       int
-	TxTypes           [2][2]int
+	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	T                 []int
 	Residual          [][]int
-	LoopFilterTxSizes [3][2][2]int
+	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	NewMvContext  int
 	RefMvContext  int
-- 
2.43.0


From fed6d6070c6ec44f35b686221e759f5b87759c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 040/116] fix: the context of skip counts skipped neighbours

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..05d44d4 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From b5e7b187d096bcd377004c2c2327fa7c2e0c5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 041/116] fix: an intra block refers to INTRA_FRAME and nothing
 else

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 05d44d4..60e78c0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From 837f8d373aa7676dc41b541531b0c5c34409cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 042/116] fix: decode_block looks at the skip and is_inter it
 has just read

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 856a28f..6e16594 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -50,7 +50,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -68,7 +68,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
-- 
2.43.0


From d5b23b181fade03a53965eb104d1fa7e73269187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 043/116] fix: keep the segment id of a block for its
 neighbours

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 6e16594..9e82c2c 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -92,6 +92,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.SkipModes[r+y][c+x] = t.SkipMode
 			t.Skips[r+y][c+x] = t.Skip
 			t.TxSizes[r+y][c+x] = t.TxSize
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			state.MiSizes[r+y][c+x] = state.MiSize
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
-- 
2.43.0


From 85f20e14524317185bcb794be845432ba03c2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 044/116] fix: clip the segment id to the last active one

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 60e78c0..4232ac0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -164,6 +164,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 061e39aa85b7d49f1015f71fce0092d374a73cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 045/116] fix: chroma from luma is allowed in blocks up to
 32x32

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 4232ac0..09da404 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -60,7 +60,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
-- 
2.43.0


From 4a1a6f3f11b796fa3d3c98ba9eb09b0a7341af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 046/116] fix: CFL_SIGN_NEG is 1

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 267ea71..91dbcda 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 4eb0f49e898a1122570cb368d3e54e3a3eb19f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 047/116] fix: a skipped intra block still chooses its
 transform size

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..6ccd385 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From 79cbec08da29f555fc3356aaebf464212c354502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 048/116] fix: the left transform height needs the left block

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 6ccd385..56e0973 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
-- 
2.43.0


From 13d632a48a167ed2c5a09e880957a99429abdcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 049/116] fix: get_left_tx_height compares columns with columns

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 56e0973..1fced08 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
-- 
2.43.0


From 195d4b0cef149ce2d0e2deda8a989583ef138215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 050/116] fix: cdef_idx has the cdef_bits of the frame header

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 09da404..c948533 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -218,7 +218,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
-- 
2.43.0


From 0c8dc00920990d67c2e5653d0e589b4baeff95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 051/116] fix: cdef_idx of a wide block covers all its 64x64
 parts

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index c948533..6950fb0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -223,7 +223,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
-- 
2.43.0


From ec5f9170e395b033b916955b8b4f0f66272ce092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 052/116] fix: clear the cdef_idx of every 64x64 part of a
 superblock

---
 internal/cdef/cdef.go            | 20 ++++++++++++--------
 internal/tilegroup/tile_group.go |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..56874eb 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,19 +6,23 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	cdef.clear(r, c)
+
+	if Use128x128SuperBlock {
+		cdef.clear(r, c+cdefSize4)
+		cdef.clear(r+cdefSize4, c)
+		cdef.clear(r+cdefSize4, c+cdefSize4)
+	}
+}
+
+func (cdef *Cdef) clear(r int, c int) {
+	for len(cdef.CdefIdx) < r+1 {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
+	for len(cdef.CdefIdx[r]) < c+1 {
 		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
 	}
 
 	cdef.CdefIdx[r][c] = -1
-
-	if Use128x128SuperBlock {
-		cdef.CdefIdx[r][c+cdefSize4] = -1
-		cdef.CdefIdx[r+cdefSize4][c] = -1
-		cdef.CdefIdx[r+cdefSize4][c+cdefSize4] = -1
-	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 91dbcda..3d1cc41 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -769,7 +769,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From f14a5db5e8c1d216e39cbd01936cabb3ca110ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 053/116] fix: segmentation prediction contexts cover the frame

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3d1cc41..7fd1af9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -699,7 +699,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
+	t.AboveSegPredContext = make([]int, state.MiCols)
 
 	for i := 0; i < 3; i++ {
 		t.AboveLevelContext[i] = make([]int, state.MiCols)
@@ -719,7 +719,7 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
+	t.LeftSegPredContext = make([]int, state.MiRows)
 
 	for i := 0; i < 3; i++ {
 		t.LeftLevelContext[i] = make([]int, state.MiRows)
-- 
2.43.0


From 81fe83edd044ce52e341d62fc3814000df11acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 054/116] fix: coefficient contexts have room for blocks across
 the frame edge

---
 internal/tilegroup/tile_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7fd1af9..9252aa3 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -702,8 +702,8 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveSegPredContext = make([]int, state.MiCols)
 
 	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
+		t.AboveLevelContext[i] = make([]int, state.MiCols+MAX_SB_SIZE/MI_SIZE)
+		t.AboveDcContext[i] = make([]int, state.MiCols+MAX_SB_SIZE/MI_SIZE)
 	}
 
 	for i := 0; i < state.MiCols; i++ {
@@ -722,8 +722,8 @@ func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftSegPredContext = make([]int, state.MiRows)
 
 	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
+		t.LeftLevelContext[i] = make([]int, state.MiRows+MAX_SB_SIZE/MI_SIZE)
+		t.LeftDcContext[i] = make([]int, state.MiRows+MAX_SB_SIZE/MI_SIZE)
 	}
 
 	for i := 0; i < state.MiRows; i++ {
-- 
2.43.0


From 66643d6f5aa214c3a553d1f147d800723afaed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 055/116] fix: track decoded blocks of the whole superblock and
 its borders

---
 internal/state/state.go                  |  2 +-
 internal/tilegroup/compute_prediction.go | 10 +++++++++-
 internal/tilegroup/tile_group.go         | 15 +++++++++------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 787a8ec..6d0bc3c 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -45,7 +45,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
+	BlockDecoded           [3][34][34]bool
 	FrameRestorationType   []int
 	LoopRestorationSize    [3]int
 	AvailU                 bool
diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..404b3d3 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,15 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			aboveRow := (subBlockMiRow >> subY) - 1
+			if aboveRow < 0 {
+				aboveRow = len(state.BlockDecoded[plane]) + aboveRow
+			}
+			leftCol := (subBlockMiCol >> subX) - 1
+			if leftCol < 0 {
+				leftCol = len(state.BlockDecoded[plane][aboveRow]) + leftCol
+			}
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][aboveRow][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][leftCol], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 9252aa3..1ecc631 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -770,7 +770,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
@@ -796,20 +796,23 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
+				// negative indices count from the end
+				row := y
 				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
+					row = len(state.BlockDecoded[plane]) + y
 				}
 
+				col := x
 				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
+					col = len(state.BlockDecoded[plane][row]) + x
 				}
 
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][row][col] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][row][col] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][row][col] = false
 				}
 			}
 		}
-- 
2.43.0


From b553eaa4d42c15ed2586ec0f1ff6cc21b90fd485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 056/116] fix: a skipped block resets the chroma contexts of
 its last odd column and row

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 9e82c2c..3eda4a9 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -129,12 +129,12 @@ func (t *TileGroup) resetBlockContext(bw4 int, bh4 int, b *bitstream.BitStream,
 			subY = util.Int(sh.ColorConfig.SubsamplingY)
 		}
 
-		for i := state.MiCol >> subX; i < ((state.MiCol + bw4) >> subX); i++ {
+		for i := state.MiCol >> subX; i <= ((state.MiCol + bw4 - 1) >> subX); i++ {
 			t.AboveLevelContext[plane][i] = 0
 			t.AboveDcContext[plane][i] = 0
 		}
 
-		for i := state.MiRow >> subY; i < ((state.MiRow + bh4) >> subY); i++ {
+		for i := state.MiRow >> subY; i <= ((state.MiRow + bh4 - 1) >> subY); i++ {
 			t.LeftLevelContext[plane][i] = 0
 			t.LeftDcContext[plane][i] = 0
 		}
-- 
2.43.0


From 161077106845f80d3a19ca2cfa27bc9e2f843ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 057/116] fix: luma restoration units are not subsampled

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..2a9a15a 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
+			if plane > 0 && sh.ColorConfig.SubsamplingX {
 				subX = 1
 			}
 
-			if sh.ColorConfig.SubsamplingY {
+			if plane > 0 && sh.ColorConfig.SubsamplingY {
 				subY = 1
 			}
 
-- 
2.43.0


From a812a755d68f7a405437f5be6557ec715a6ddbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 058/116] fix: both chroma planes have two Wiener coefficients

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 2a9a15a..30cf4d2 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
-- 
2.43.0


From ac076da93f401e59c6be888b17d49f77b6c9b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 059/116] fix: sub-exponential codes of restoration
 coefficients

---
 internal/tilegroup/read_loop_restoration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 30cf4d2..8ff9e61 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -145,14 +145,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i != 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From d9bf5a3a9665d09f590c2d23c12cbc12c2936628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 060/116] fix: store the restoration parameters of every unit,
 not only the first

---
 internal/tilegroup/tile_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 1ecc631..1ed390e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -123,12 +123,12 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][1][1]int
+	LrType              [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
-	LrSgrSet            [3][1][1]int
+	LrWiener            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2][3]int
+	LrSgrSet            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][1][1][2]int
+	LrSgrXqd            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	HasChroma           bool
 	SegmentId           int
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From 00a4f15936d193fec384fd1059808331a5aa32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 061/116] fix: predict every part of an inter block from its
 own candidate

---
 internal/tilegroup/compute_prediction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 404b3d3..ec1a44f 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -85,11 +85,13 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From 4b5427e34fdf3bcc1f938d2a13c193fcc1a0b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 062/116] fix: 128 wide blocks are coded in 64x64 chunks

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..32ff07e 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
-- 
2.43.0


From d406b13063f642119667f0b591a0645a6404cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 063/116] fix: the column of a transform block comes from its x
 position

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 32ff07e..7b2422a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,7 +94,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-- 
2.43.0


From 59bb00ea4f4f71865471ccdc56d4bdd881d8820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 064/116] fix: the mask of a 128x128 superblock is 31

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 7b2422a..830b3a4 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -98,7 +98,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
-- 
2.43.0


From 7d6968d2cba3b2583f7ad6edb585703b61bde2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 065/116] fix: chroma prediction uses the chroma availability

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 830b3a4..6f6faf8 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From f026f60eb1dc9ba1302f8137babcb193aa977267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 066/116] fix: a transform block marks its own width as decoded

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 6f6faf8..f6899c1 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -183,8 +183,8 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
-			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
+		for j := 0; j < stepX; j++ {
+			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
 	}
-- 
2.43.0


From 6142f4b092d1e424845b4f10913373886f8d8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 067/116] fix: chroma from luma uses the U alpha for the U
 plane

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index f6899c1..29b899c 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -224,7 +224,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From 7a8813362a7d79a89638ef3f888acbc531a3caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 068/116] fix: chroma palettes have a colour map

---
 internal/tilegroup/residual.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 29b899c..b612e0b 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -208,6 +208,8 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	var mapp [][]int
 	if plane == 0 {
 		mapp = t.ColorMapY
+	} else {
+		mapp = t.ColorMapUV
 	}
 
 	for i := 0; i < h; i++ {
-- 
2.43.0


From 5eae51890f6394ba2127a7279466fa5977ae5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 069/116] verif: observation points for residuals, intra
 prediction and reconstruction (build tag verif)

---
 internal/tilegroup/hook.go          |  8 ++++++++
 internal/tilegroup/hook_verif.go    | 16 +++++++++++++---
 internal/tilegroup/predict_intra.go |  4 ++++
 internal/tilegroup/reconstruct.go   |  4 ++++
 internal/tilegroup/residual.go      | 12 ++++++++++++
 5 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/hook.go b/internal/tilegroup/hook.go
index 7812190..d63951d 100644
--- a/internal/tilegroup/hook.go
+++ b/internal/tilegroup/hook.go
@@ -19,6 +19,14 @@ func (t *TileGroup) hookBlock(b *bitstream.BitStream, state *state.State, sh seq
 	return false
 }
 
+func (t *TileGroup) hookResidual(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return false
+}
+
+func (t *TileGroup) hookPixels(what string, state *state.State, args ...int) bool {
+	return false
+}
+
 func (t *TileGroup) hookWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool {
 	return false
 }
diff --git a/internal/tilegroup/hook_verif.go b/internal/tilegroup/hook_verif.go
index 658ada1..5740586 100644
--- a/internal/tilegroup/hook_verif.go
+++ b/internal/tilegroup/hook_verif.go
@@ -12,9 +12,11 @@ import (
 // When set, these stand in for the decoding of one tile, the contents of one
 // block and the work after a frame's last tile.
 var (
-	HookTile   func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
-	HookBlock  func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
-	HookWrapup func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool
+	HookTile     func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
+	HookBlock    func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
+	HookResidual func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool
+	HookPixels   func(t *TileGroup, what string, s *state.State, args []int) bool
+	HookWrapup   func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool
 )
 
 func (t *TileGroup) hookTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
@@ -25,6 +27,14 @@ func (t *TileGroup) hookBlock(b *bitstream.BitStream, state *state.State, sh seq
 	return HookBlock != nil && HookBlock(t, b, state, sh, uh)
 }
 
+func (t *TileGroup) hookResidual(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) bool {
+	return HookResidual != nil && HookResidual(t, b, state, sh, uh)
+}
+
+func (t *TileGroup) hookPixels(what string, state *state.State, args ...int) bool {
+	return HookPixels != nil && HookPixels(t, what, state, args)
+}
+
 func (t *TileGroup) hookWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) bool {
 	return HookWrapup != nil && HookWrapup(t, state, uh, sh)
 }
diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..f981854 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -10,6 +10,10 @@ import (
 // 7.11.2 Intra prediction process
 // predict_intra( plane, x, y, haveLeft, haveAbove, haveAboveRight, haveBelowLeft, mode, log2W, log2H )
 func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbove bool, haveAboveRight bool, haveBelowLeft bool, mode int, log2W int, log2H int, state *state.State, sh sequenceheader.SequenceHeader) {
+	if t.hookPixels("intra", state, plane, x, y, util.Int(haveLeft), util.Int(haveAbove), util.Int(haveAboveRight), util.Int(haveBelowLeft), mode, log2W, log2H) {
+		return
+	}
+
 	w := 1 << log2W
 	h := 1 << log2H
 	maxX := (state.MiCols * MI_SIZE) - 1
diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..e328180 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -9,6 +9,10 @@ import (
 
 // 7.12.3 Reconstruct process
 func (t *TileGroup) reconstruct(plane int, x int, y int, txSz int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, state *state.State) {
+	if t.hookPixels("reconstruct", state, plane, x, y, txSz) {
+		return
+	}
+
 	var dqDenom int
 	if txSz == TX_32X32 ||
 		txSz == TX_16X32 ||
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index b612e0b..235e391 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,6 +11,10 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
+	if t.hookResidual(b, state, sh, uh) {
+		return
+	}
+
 	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
 	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
@@ -192,6 +196,10 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 // 7.11.4. Palette prediction process
 func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int, y int, txSz int, state *state.State) {
+	if t.hookPixels("palette", state, plane, startX, startY, x, y, txSz) {
+		return
+	}
+
 	w := Tx_Width[txSz]
 	h := Tx_Height[txSz]
 
@@ -221,6 +229,10 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 
 // 7.11.5 Predict chroma from luma process
 func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txSz int, sh sequenceheader.SequenceHeader, state *state.State) {
+	if t.hookPixels("cfl", state, plane, startX, startY, txSz) {
+		return
+	}
+
 	w := Tx_Width[txSz]
 	h := Tx_Height[txSz]
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From d40a5b30238448b53b55cb01789e41685b3ea9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 070/116] fix: coeffs() returns the end of block position it
 has read

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..6603d43 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From 396d2ef6ec1423ed2b18c080553bcd55aa70ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 071/116] fix: sign_bit is one bit

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 6603d43..a4da794 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -143,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From 160f2c0f0fff7e9a1ba0665cbd5d0ae5c1e59ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 072/116] fix: coefficients have 20 bits

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a4da794..490cd95 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -175,7 +175,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 0d32b2801cf6e68900cba5e5a4bf1513e93d789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 073/116] fix: a Golomb length of more than 20 bits is refused,
 not followed for ever

---
 internal/tilegroup/coeffs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 490cd95..a9cf742 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -159,6 +159,10 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					if util.Bool(golombLengthBit) {
 						break
 					}
+
+					if length == 20 {
+						panic("Violating bitstream conformance!")
+					}
 				}
 				x := 1
 				for i := length - 2; i >= 0; i-- {
-- 
2.43.0


From 4fe6e8a5555e6bac4ace7b16f6cc9633d32cd4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 074/116] fix: 64x16 blocks are scanned 32x16

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a9cf742..b392986 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -504,7 +504,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From f11d30aa87c8128c988f8c14d1389b828463634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 075/116] fix: the height of a chroma palette map is subsampled
 vertically

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..debcbfc 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -43,7 +43,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
-- 
2.43.0


From d0b9c2213948e01de3ec1a0e6fcc27df109d1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 076/116] fix: read use_wiener

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 8ff9e61..790ef78 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -64,7 +64,7 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
-- 
2.43.0


From 1af1423aefdedc4f8bb977000c9239669c6c0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 077/116] fix: read use_sgrproj

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 790ef78..aaa774d 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -70,7 +70,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
-- 
2.43.0


From 859cb7c5941b434be90dc7fbd313275f8313d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 078/116] fix: read use_filter_intra and filter_intra_mode, and
 keep them

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..fab1292 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, sh, uh, state)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 6950fb0..78b05d3 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -81,7 +81,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, sh, uh, state)
 	}
 }
 
@@ -383,13 +383,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, state *state.State) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
-- 
2.43.0


From 1bd6795836e32e98caa1afafb81937699c860e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 079/116] fix: read palette_size_y_minus_2, with its table

---
 internal/state/state.go            | 4 ++++
 internal/tilegroup/palette.go      | 2 +-
 internal/tilegroup/tile_group.go   | 3 +++
 internal/uncompressedheader/cdf.go | 3 +++
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 6d0bc3c..b85ffb3 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -147,6 +147,7 @@ type State struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
@@ -231,6 +232,7 @@ type State struct {
 	TileMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	TilePaletteYModeCdf        [][][]int
 	TilePaletteUVModeCdf       [][]int
+	TilePaletteYSizeCdf        [][]int
 	TilePaletteUVSizeCdf       [][]int
 	TilePaletteSize2YColorCdf  [][]int
 	TilePaletteSize2UVColorCdf [][]int
@@ -329,6 +331,7 @@ type State struct {
 	SavedMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	SavedPaletteYModeCdf        [][][]int
 	SavedPaletteUVModeCdf       [][]int
+	SavedPaletteYSizeCdf        [][]int
 	SavedPaletteUVSizeCdf       [][]int
 	SavedPaletteSize2YColorCdf  [][]int
 	SavedPaletteSize2UVColorCdf [][]int
@@ -451,6 +454,7 @@ type MemoryArea struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..a47179c 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -27,7 +27,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		hasPaletteY := symbol.ReadSymbol(state.TilePaletteYModeCdf[bSizeCtx][ctx], state, b, uh)
 
 		if util.Bool(hasPaletteY) {
-			paletteSizeYMinus2 := b.S()
+			paletteSizeYMinus2 := symbol.ReadSymbol(state.TilePaletteYSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
 			cacheN := t.getPaletteCache(0, state)
 			idx := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 1ed390e..37ced7c 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -418,6 +418,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.MvHpCdf = state.SavedMvHpCdf
 	state.PaletteYModeCdf = state.SavedPaletteYModeCdf
 	state.PaletteUVModeCdf = state.SavedPaletteUVModeCdf
+	state.PaletteYSizeCdf = state.SavedPaletteYSizeCdf
 	state.PaletteUVSizeCdf = state.SavedPaletteUVSizeCdf
 	state.PaletteSize2YColorCdf = state.SavedPaletteSize2YColorCdf
 	state.PaletteSize2UVColorCdf = state.SavedPaletteSize2UVColorCdf
@@ -528,6 +529,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileMvHpCdf = state.MvHpCdf
 	state.TilePaletteYModeCdf = state.PaletteYModeCdf
 	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
+	state.TilePaletteYSizeCdf = state.PaletteYSizeCdf
 	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
 	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
 	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
@@ -639,6 +641,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedMvHpCdf = state.TileMvHpCdf
 		state.SavedPaletteYModeCdf = state.TilePaletteYModeCdf
 		state.SavedPaletteUVModeCdf = state.TilePaletteUVModeCdf
+		state.SavedPaletteYSizeCdf = state.TilePaletteYSizeCdf
 		state.SavedPaletteUVSizeCdf = state.TilePaletteUVSizeCdf
 		state.SavedPaletteSize2YColorCdf = state.TilePaletteSize2YColorCdf
 		state.SavedPaletteSize2UVColorCdf = state.TilePaletteSize2UVColorCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 678f5d7..abd3f9c 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -61,6 +61,7 @@ func initNonCoeffCdfs(state *state.State) {
 
 	state.PaletteYModeCdf = DEFAULT_PALETTE_Y_MODE_CDF
 	state.PaletteUVModeCdf = DEFAULT_PALETTE_UV_MODE_CDF
+	state.PaletteYSizeCdf = DEFAULT_PALETTE_Y_SIZE_CDF
 	state.PaletteUVSizeCdf = DEFAULT_PALETTE_UV_SIZE_CDF
 	state.PaletteSize2YColorCdf = DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
 	state.PaletteSize2UVColorCdf = DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
@@ -184,6 +185,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea.MvHpCdf = s.MvHpCdf
 	memoryArea.PaletteYModeCdf = s.PaletteYModeCdf
 	memoryArea.PaletteUVModeCdf = s.PaletteUVModeCdf
+	memoryArea.PaletteYSizeCdf = s.PaletteYSizeCdf
 	memoryArea.PaletteUVSizeCdf = s.PaletteUVSizeCdf
 	memoryArea.PaletteSize2YColorCdf = s.PaletteSize2YColorCdf
 	memoryArea.PaletteSize2UVColorCdf = s.PaletteSize2UVColorCdf
@@ -289,6 +291,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.MvHpCdf = memoryArea.MvHpCdf
 	s.PaletteYModeCdf = memoryArea.PaletteYModeCdf
 	s.PaletteUVModeCdf = memoryArea.PaletteUVModeCdf
+	s.PaletteYSizeCdf = memoryArea.PaletteYSizeCdf
 	s.PaletteUVSizeCdf = memoryArea.PaletteUVSizeCdf
 	s.PaletteSize2YColorCdf = memoryArea.PaletteSize2YColorCdf
 	s.PaletteSize2UVColorCdf = memoryArea.PaletteSize2UVColorCdf
-- 
2.43.0


From e2d92ce7138d00bb942651c1e8f32cbeb16667a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 080/116] fix: read has_palette_uv and palette_size_uv_minus_2

---
 internal/tilegroup/palette.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index a47179c..489974f 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -66,9 +66,9 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[util.Int(t.PaletteSizeY > 0)], state, b, uh)
 		if util.Bool(hasPaletteUv) {
-			paletteSizeUvMinus2 := b.S()
+			paletteSizeUvMinus2 := symbol.ReadSymbol(state.TilePaletteUVSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
 			cacheN := t.getPaletteCache(1, state)
 			idx := 0
-- 
2.43.0


From 1827fbfccf4d3888c1d22efa9c193545632a07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 081/116] fix: palettes and their cache have room for the
 colours

---
 internal/tilegroup/palette.go    | 3 +++
 internal/tilegroup/tile_group.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 489974f..71c360f 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -29,6 +29,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		if util.Bool(hasPaletteY) {
 			paletteSizeYMinus2 := symbol.ReadSymbol(state.TilePaletteYSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
+			t.PaletteColorsY = make([]int, t.PaletteSizeY)
 			cacheN := t.getPaletteCache(0, state)
 			idx := 0
 
@@ -70,6 +71,8 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		if util.Bool(hasPaletteUv) {
 			paletteSizeUvMinus2 := symbol.ReadSymbol(state.TilePaletteUVSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
+			t.PaletteColorsU = make([]int, t.PaletteSizeUV)
+			t.PaletteColorsV = make([]int, t.PaletteSizeUV)
 			cacheN := t.getPaletteCache(1, state)
 			idx := 0
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 37ced7c..87e4598 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -169,8 +169,8 @@ type TileGroup struct {
 	RefMvIdx            int
 	MvCtx               int
 	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	PaletteColors       [][][][]int
-	PaletteCache        []int
+	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
+	PaletteCache        [2 * PALETTE_COLORS]int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
 	PaletteColorsV      []int
-- 
2.43.0


From 3b85b962f2a430bf34171d90e4dc10a924eb09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 082/116] fix: cached U colours belong to the U palette

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 71c360f..f45167d 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -80,7 +80,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
-- 
2.43.0


From 18e0cbc330bd31b32bf5d99f7bb69fcc3bf128e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 083/116] fix: widths of palette colour differences

---
 internal/tilegroup/palette.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index f45167d..06cdc2c 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -49,7 +49,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
@@ -100,7 +100,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-- 
2.43.0


From f78d5b24a76025461775676d7a61f7e226209532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 084/116] fix: the palette cache takes the remaining left
 colours and needs an available row above

---
 internal/tilegroup/palette.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 06cdc2c..5280809 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -146,7 +146,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if util.Bool((state.MiRow*MI_SIZE)%64) && state.AvailU {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
@@ -189,5 +189,14 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
 	return n
 }
-- 
2.43.0


From f9fc28b374a0e86935be4b6cc9f9e9e7d61711b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 085/116] fix: colour contexts have room for their scores, the
 colour above weighs two

---
 internal/tilegroup/palette_tokens.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index debcbfc..a0e80bf 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -77,7 +77,8 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+	scores := make([]int, PALETTE_COLORS)
+	t.ColorOrder = make([]int, PALETTE_COLORS)
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
@@ -95,7 +96,7 @@ func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int
 	}
 	if r > 0 {
 		neighbor = colorMap[r-1][c]
-		scores[neighbor] += 1
+		scores[neighbor] += 2
 	}
 
 	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
-- 
2.43.0


From fde68c9656bb25c96a2d5c23612906928d595b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 086/116] fix: colour maps are read with the symbol decoder

---
 internal/tilegroup/decode_block.go   |  2 +-
 internal/tilegroup/palette_tokens.go | 41 ++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 3eda4a9..e08befa 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -47,7 +47,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(t.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index a0e80bf..6f49977 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,27 +2,31 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
+		t.ColorMapY = newColorMap()
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
-				paletteColorIdxY := b.S()
+				paletteColorIdxY := symbol.ReadSymbol(t.paletteColorCdf(0, t.PaletteSizeY, state), state, b, uh)
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
 		}
@@ -39,7 +43,8 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
+		t.ColorMapUV = newColorMap()
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
@@ -58,7 +63,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
-				paletteColorIdxUv := b.S()
+				paletteColorIdxUv := symbol.ReadSymbol(t.paletteColorCdf(1, t.PaletteSizeUV, state), state, b, uh)
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
 		}
@@ -75,6 +80,32 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 }
 
+func newColorMap() [][]int {
+	colorMap := make([][]int, 64)
+	for i := range colorMap {
+		colorMap[i] = make([]int, 64)
+	}
+	return colorMap
+}
+
+var Palette_Color_Context = []int{-1, -1, 0, -1, -1, 4, 3, 2, 1}
+
+// the CDF of a palette colour index, after getPaletteColorContext()
+func (t *TileGroup) paletteColorCdf(plane int, n int, state *state.State) []int {
+	cdfs := [2][7][][]int{
+		{
+			state.TilePaletteSize2YColorCdf, state.TilePaletteSize3YColorCdf, state.TilePaletteSize4YColorCdf,
+			state.TilePaletteSize5YColorCdf, state.TilePaletteSize6YColorCdf, state.TilePaletteSize7YColorCdf,
+			state.TilePaletteSize8YColorCdf,
+		}, {
+			state.TilePaletteSize2UVColorCdf, state.TilePaletteSize3UVColorCdf, state.TilePaletteSize4UVColorCdf,
+			state.TilePaletteSize5UVColorCdf, state.TilePaletteSize6UVColorCdf, state.TilePaletteSize7UVColorCdf,
+			state.TilePaletteSize8UVColorCdf,
+		},
+	}
+	return cdfs[plane][n-2][Palette_Color_Context[t.ColorContextHash]]
+}
+
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
 	scores := make([]int, PALETTE_COLORS)
-- 
2.43.0


From 648067eaa8b851232fcf41bc563d43af4a5d5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 087/116] fix: a stray list in the coefficient base table of
 the last quantizer set

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index abd3f9c..4912d40 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10713,16 +10713,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From be74da8cd36d316fbfc823a6dcd066ad7fd3b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 088/116] fix: the lower block of PARTITION_HORZ_A spans the
 whole width

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index facbe13..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
-- 
2.43.0


From e805021b22693a1ab687a7ef7d0f2847dd661c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 089/116] fix: frame buffers have room for the whole frame

---
 internal/state/frame.go                   | 30 +++++++++++++++++++++
 internal/state/state.go                   | 12 +++++----
 internal/tilegroup/cdef.go                |  1 +
 internal/tilegroup/decode_frame_wrapup.go | 14 +++++-----
 internal/tilegroup/loop_restoration.go    |  2 +-
 internal/tilegroup/output.go              | 33 +++++++++++++++--------
 internal/tilegroup/predict_inter.go       | 10 +++----
 internal/tilegroup/tile_group.go          | 14 ++++++----
 internal/tilegroup/util.go                |  6 +++++
 9 files changed, 88 insertions(+), 34 deletions(-)
 create mode 100644 internal/state/frame.go

diff --git a/internal/state/frame.go b/internal/state/frame.go
new file mode 100644
index 0000000..a53ed2b
--- /dev/null
+++ b/internal/state/frame.go
@@ -0,0 +1,30 @@
+package state
+
+// Frame holds the samples of up to three planes as [plane][row][column].
+type Frame [3][][]int
+
+// NewFrame returns a frame whose planes all have the given number of rows and columns.
+func NewFrame(rows int, cols int) Frame {
+	var f Frame
+	for plane := range f {
+		f[plane] = make([][]int, rows)
+		for y := range f[plane] {
+			f[plane][y] = make([]int, cols)
+		}
+	}
+
+	return f
+}
+
+// Copy returns a frame with the same samples that shares no storage with f.
+func (f Frame) Copy() Frame {
+	var out Frame
+	for plane := range f {
+		out[plane] = make([][]int, len(f[plane]))
+		for y := range f[plane] {
+			out[plane][y] = append([]int(nil), f[plane][y]...)
+		}
+	}
+
+	return out
+}
diff --git a/internal/state/state.go b/internal/state/state.go
index b85ffb3..4c7ff91 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -65,7 +65,6 @@ type State struct {
 	RefBitDepth            [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth       [8]int
 	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
 	SymbolMaxBits          int
 	SymbolValue            int
 	SymbolRange            int
@@ -73,10 +72,6 @@ type State struct {
 	Skip                   int
 	IsInter                int
 	CdefSize4              int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
 	TileIntraFrameYModeCdf [][][]int
 	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
@@ -85,6 +80,13 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
+	CurrFrame         Frame
+	CdefFrame         Frame
+	UpscaledCurrFrame Frame
+	UpscaledCdefFrame Frame
+	LrFrame           Frame
+	FrameStore        [shared.NUM_REF_FRAMES]Frame
+
 	IntraFrameYModeCdf      [][][]int
 	SavedIntraFrameYModeCdf [][][]int
 
diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..375b438 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -13,6 +13,7 @@ func (t *TileGroup) cdefProcess(state *state.State, sh sequenceheader.SequenceHe
 	step4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_8X8]
 	cdefSize4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64]
 	cdefMask4 := ^(cdefSize4 - 1)
+	state.CdefFrame = newFrame(state.MiRows*MI_SIZE, state.MiCols*MI_SIZE)
 
 	for r := 0; r < state.MiRows; r += step4 {
 		for c := 0; c < state.MiCols; c += step4 {
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 425ff8b..da94bd6 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -9,8 +9,8 @@ import (
 )
 
 // 7.16 Upscaling process
-func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
-	var outputFrame [3][9][9]int
+func (t *TileGroup) upscalingProcess(inputFrame state.Frame, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
+	outputFrame := newFrame(uh.FrameHeight, uh.UpscaledWidth)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
@@ -124,16 +124,17 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				state.SavedOrderHints[i][j+shared.LAST_FRAME] = uh.OrderHints[j+shared.LAST_FRAME]
 			}
 
+			state.FrameStore[i] = newFrame(uh.FrameHeight, uh.UpscaledWidth)
 			for x := 0; x < uh.UpscaledWidth; x++ {
 				for y := 0; y < uh.FrameHeight; y++ {
-					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
+					state.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
 				}
 			}
 
 			for plane := 1; plane <= 2; plane++ {
 				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
 					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
+						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
 			}
@@ -223,16 +224,17 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]
 	}
 
+	state.LrFrame = newFrame(u.FrameHeight, u.UpscaledWidth)
 	for x := 0; x < u.UpscaledWidth; x++ {
 		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
+			state.LrFrame[0][y][x] = state.FrameStore[u.FrameToShowMapIdx][0][y][x]
 		}
 	}
 
 	for plane := 1; plane <= 2; plane++ {
 		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
 			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
+				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
 	}
diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..1d4bd6c 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -10,7 +10,7 @@ import (
 
 // 7.17. Loop restoration process
 func (t *TileGroup) loopRestoration(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	state.LrFrame = state.UpscaledCdefFrame
+	state.LrFrame = state.UpscaledCdefFrame.Copy()
 
 	if !uh.UsesLr {
 		return
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..924f053 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -24,36 +24,40 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
 	var w, h, subX, subY int
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
+
+		t.newOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
-				t.OutY[y][x] = t.FrameStore[uh.FrameToShowMapIdx][0][y][x]
+				t.OutY[y][x] = state.FrameStore[uh.FrameToShowMapIdx][0][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][y][x]
 			}
 		}
 
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
 	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+		w = uh.UpscaledWidth
+		h = uh.FrameHeight
+		subX = util.Int(sh.ColorConfig.SubsamplingX)
+		subY = util.Int(sh.ColorConfig.SubsamplingY)
+
+		t.newOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -77,6 +81,13 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 	return w, h, subX, subY
 }
 
+// newOutput makes room for a picture of w by h luma samples.
+func (t *TileGroup) newOutput(w int, h int, subX int, subY int) {
+	t.OutY = newFrame(h, w)[0]
+	t.OutU = newFrame((h+subY)>>subY, (w+subX)>>subX)[1]
+	t.OutV = newFrame((h+subY)>>subY, (w+subX)>>subX)[2]
+}
+
 // 7.18.3. Film grain syntehsis
 func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
 	panic("not implemented")
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..2a7ba2a 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -251,11 +251,9 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var ref [3][16][16]int
-	if refIdx == -1 {
-		ref = state.CurrFrame
-	} else {
-		ref = t.FrameStore[refIdx]
+	ref := state.CurrFrame
+	if refIdx != -1 {
+		ref = state.FrameStore[refIdx]
 	}
 
 	subX := 0
@@ -320,7 +318,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	var pred [PRED_SIZE][PRED_SIZE]int
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
-	ref := t.FrameStore[refIdx]
+	ref := state.FrameStore[refIdx]
 
 	subX := 0
 	subY := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 87e4598..aac378e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -233,8 +233,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
-	Mask       [][]int
+	Mask [][]int
 
 	FwdWeight int
 	BckWeight int
@@ -263,9 +262,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
@@ -301,6 +300,11 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
+	if tgStart == 0 {
+		// blocks may reach over the right and the lower edge of the frame
+		state.CurrFrame = newFrame(state.MiRows*MI_SIZE+MAX_BLOCK_SIZE, state.MiCols*MI_SIZE+MAX_BLOCK_SIZE)
+	}
+
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
 		tileRow := state.TileNum / state.TileCols
 		tileCol := state.TileNum % state.TileCols
diff --git a/internal/tilegroup/util.go b/internal/tilegroup/util.go
index ed3ac77..6198cd9 100644
--- a/internal/tilegroup/util.go
+++ b/internal/tilegroup/util.go
@@ -6,6 +6,12 @@ import (
 	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 )
 
+// newFrame is state.NewFrame where a parameter hides the package.
+var newFrame = state.NewFrame
+
+// The largest block is 128 samples wide and high.
+const MAX_BLOCK_SIZE = 128
+
 func (t *TileGroup) isInside(candidateR int, candidateC int, state *state.State) bool {
 	return candidateC >= state.MiColStart &&
 		candidateC < state.MiColEnd &&
-- 
2.43.0


From 6b173132108fa9767fb70a2cb313c34fb29735d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 090/116] fix: reference frames keep every chroma sample

---
 internal/tilegroup/decode_frame_wrapup.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index da94bd6..2d36629 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -132,8 +132,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			}
 
 			for plane := 1; plane <= 2; plane++ {
-				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
-					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
+				for x := 0; x < (uh.UpscaledWidth+util.Int(sh.ColorConfig.SubsamplingX))>>util.Int(sh.ColorConfig.SubsamplingX); x++ {
+					for y := 0; y < (uh.FrameHeight+util.Int(sh.ColorConfig.SubsamplingY))>>util.Int(sh.ColorConfig.SubsamplingY); y++ {
 						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
@@ -232,8 +232,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	}
 
 	for plane := 1; plane <= 2; plane++ {
-		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
-			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
+		for x := 0; x < (u.UpscaledWidth+subsamplingX)>>subsamplingX; x++ {
+			for y := 0; y < (u.FrameHeight+subsamplingY)>>subsamplingY; y++ {
 				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
-- 
2.43.0


From 7a623a8d68e8c5b6d930f945e92a1149e7fee59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 091/116] fix: frames without superres are not resampled

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 2d36629..0eaa511 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -10,6 +10,10 @@ import (
 
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame state.Frame, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
+	if !uh.UseSuperRes {
+		return inputFrame
+	}
+
 	outputFrame := newFrame(uh.FrameHeight, uh.UpscaledWidth)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
-- 
2.43.0


From e925e4797c71f9d633fd46a807f4fcf79ea85f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 092/116] fix: CDEF damping of chroma and tap selection

---
 internal/tilegroup/cdef.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 375b438..bbc2afb 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -98,8 +98,8 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
+		damping = uh.CdefDampening + coeffShift - 1
 
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
@@ -188,7 +188,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From 7170fa35e9f773488838107cc66b285d08b19c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 093/116] fix: AC coefficients are scaled with the AC quantizer
 table

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index e328180..3d8c9c2 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -131,7 +131,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From b5d9deae4d86c3bcf5f5fe756a8e598fe4465137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 094/116] fix: the inverse transform works on rows and then on
 columns

---
 internal/tilegroup/tile_group.go | 5 +++--
 internal/tilegroup/transform.go  | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index aac378e..06e73d5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -249,10 +249,11 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	T                 []int
-	Residual          [][]int
 	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
+	T        [64]int
+	Residual [64][64]int
+
 	NewMvContext  int
 	RefMvContext  int
 	CdefAvailable bool
diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..dcacb2f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
@@ -382,8 +386,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From 074cad4ed93467e762c2f54f53e572f9770a9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 095/116] fix: sign in the butterfly rotation

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index dcacb2f..2483f2c 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -117,7 +117,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From bdd37bc964bd89a1781a7903031eb4e5f4a673a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 096/116] fix: output order of the 8-point inverse ADST

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 2483f2c..ba36ec2 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -440,7 +440,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From b3fc70b7329cda23b20f86784e9d4ca5b8fd805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 097/116] fix: intra prediction reads the samples around the
 block

---
 internal/tilegroup/predict_intra.go | 66 ++++++++++-------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index f981854..e16bb8d 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -19,23 +19,14 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
-	if y-1 == -1 {
-		yMinusOne = len(state.CurrFrame[plane]) - 1
-	}
-
 	if plane > 0 {
 		maxX = ((state.MiCols * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingX)) - 1
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
-			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
-			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][y][x-1]
-			}
+			t.AboveRow[i] = state.CurrFrame[plane][y][x-1]
 		} else if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 0 {
 			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) - 1
 
@@ -44,15 +35,15 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			if haveAboveRight {
 				aboveLimit = util.Min(maxX, x+2*w-1)
 			}
-			t.AboveRow[i] = state.CurrFrame[plane][yMinusOne][util.Min(aboveLimit, x+i)]
+			t.AboveRow[i] = state.CurrFrame[plane][y-1][util.Min(aboveLimit, x+i)]
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
-			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
+			t.LeftCol[i] = state.CurrFrame[plane][y-1][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -60,37 +51,24 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 				leftLimit = util.Min(maxY, y+2*h-1)
 			}
 
-			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
-			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
-			}
+			t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 		}
 	}
 
+	// positions before the first one are kept at the end of the arrays
 	if util.Int(haveAbove) == 1 && util.Int(haveLeft) == 1 {
-		if x-1 == -1 {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][len(state.CurrFrame[plane][y-1])-1]
-		} else {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][x-1]
-		}
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y-1][x-1]
 	} else if util.Int(haveAbove) == 1 {
-		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][x]
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y-1][x]
 	} else if util.Int(haveLeft) == 1 {
-		if x-1 == -1 {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
-		} else {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][x-1]
-
-		}
-
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][x-1]
 	} else {
 		t.AboveRow[len(t.AboveRow)-1] = 1 << (sh.ColorConfig.BitDepth - 1)
 	}
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -111,8 +89,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -135,10 +113,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -179,8 +157,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -329,8 +307,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -371,8 +349,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From ac555ccc9cec3dec56e35484271d45c0d6a9abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 098/116] fix: filter intra prediction

---
 internal/tilegroup/predict_intra.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e16bb8d..9b7a294 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -7,6 +7,10 @@ import (
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
+// EDGE_MASK turns an index into AboveRow or LeftCol that may be negative into
+// the place where it is kept.
+const EDGE_MASK = 32768 - 1
+
 // 7.11.2 Intra prediction process
 // predict_intra( plane, x, y, haveLeft, haveAbove, haveAboveRight, haveBelowLeft, mode, log2W, log2H )
 func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbove bool, haveAboveRight bool, haveBelowLeft bool, mode int, log2W int, log2H int, state *state.State, sh sequenceheader.SequenceHeader) {
@@ -119,11 +123,11 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[((j4<<2)+i-1)&EDGE_MASK]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
 					} else {
-- 
2.43.0


From 05027368d67e572a297bca84e682d801fa23a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 099/116] fix: DC prediction from the row above alone

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 9b7a294..a5e181c 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -340,6 +340,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 111c633008d9edfa17732c3522d87904d596620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 100/116] fix: extent of the intra edge filter

---
 internal/tilegroup/predict_intra.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index a5e181c..6d7eba9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -188,7 +188,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -198,7 +198,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
@@ -612,19 +612,19 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	var edge [129]int
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[(i-1)&EDGE_MASK]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[(i-1)&EDGE_MASK]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
 			if left == 1 {
 				t.LeftCol[i-1] = (s + 8) >> 4
-- 
2.43.0


From cb5a973ad2b4b28f3ee44be13473504b447e8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 101/116] fix: intra edge filter strengths

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 6d7eba9..2f1723f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -519,6 +519,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -533,9 +537,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From aa26d4fca6fe57e20fc01bfe680a7543bc6461f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 102/116] fix: upsampling of the intra edge

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 2f1723f..3e1554e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -596,10 +596,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	var dup [64 + 3]int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[i&EDGE_MASK]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -607,7 +607,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[(2*i-1)&EDGE_MASK] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 07cb6ef9dba48e85048a98a63ff0f8da764ba33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 103/116] fix: directional intra prediction

---
 internal/tilegroup/predict_intra.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3e1554e..499ed65 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -246,7 +246,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
@@ -267,18 +267,13 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[base&EDGE_MASK]*(32-shift)+t.AboveRow[(base+1)&EDGE_MASK]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[base&EDGE_MASK]*(32-shift)+t.LeftCol[(base+1)&EDGE_MASK]*shift, 5)
 				}
 			}
 		}
@@ -287,7 +282,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
@@ -302,7 +297,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From 35e594e01e4d2c91459079dba316d85b168fa1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 104/116] fix: neighbours that select the intra edge filter

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 499ed65..b40c263 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -465,7 +465,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -488,11 +488,11 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From f82b5e77d41f6397768399282dd39d04541a2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 105/116] fix: the loop filter visits every luma edge

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4769cc9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 1f95667f57973319608a40991deda3327d1baa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 106/116] fix: loop filter size and strength

---
 internal/tilegroup/loop_filter_process.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4769cc9..e0a0dd9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 
 	}
 
@@ -150,7 +150,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From 85dea40d2be4cddf0700f7962f669945ba30aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 107/116] fix: reach of the loop filters

---
 internal/tilegroup/loop_filter_process.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index e0a0dd9..07949f4 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -243,16 +243,21 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
 	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
 	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
 	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
 	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
+
+	// only the longest filter reaches further, the others may be close to the edge of the frame
+	var q4, q5, q6, p4, p5, p6 int
+	if filterSize >= 16 {
+		q4 = state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 = state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 = state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 = state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 = state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 = state.CurrFrame[plane][y-dy*7][x-dx*7]
+	}
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -371,7 +376,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	var F [12]int
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -384,9 +389,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[i+n] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i+n]
 	}
 }
-- 
2.43.0


From cc385827eee7fe00735dd00c64adff0a4afc1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 108/116] fix: restoration units are not shifted sideways

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 1d4bd6c..2d9b1b7 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From a58f4f78925392da5823b24d22de9a3e613d1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 109/116] fix: Wiener filter

---
 internal/tilegroup/loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 2d9b1b7..6678137 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -233,7 +233,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -263,7 +263,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From babda78769865dce2a769e589ab3b493746eb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 110/116] fix: self guided filter

---
 internal/tilegroup/loop_restoration.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 6678137..9c6e729 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	// the last row and the last column stand for position -1
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -162,7 +163,7 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
-- 
2.43.0


From 333ac2d5350fc03c22849fcbe6659bc1bf8476a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 111/116] fix: every row of the column transform is kept

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index ba36ec2..95fee0f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -103,7 +103,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 134f55aaa807409de85c71d42679b5408b9b592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 112/116] fix: block maps have room for frames of more than 64
 4x4 rows or columns

---
 internal/state/block_maps.go              | 84 +++++++++++++++++++++++
 internal/state/state.go                   | 16 ++---
 internal/tilegroup/decode_frame_wrapup.go | 10 +++
 internal/tilegroup/tile_group.go          | 32 +++------
 4 files changed, 111 insertions(+), 31 deletions(-)
 create mode 100644 internal/state/block_maps.go

diff --git a/internal/state/block_maps.go b/internal/state/block_maps.go
new file mode 100644
index 0000000..73e310a
--- /dev/null
+++ b/internal/state/block_maps.go
@@ -0,0 +1,84 @@
+package state
+
+import "github.com/m4tthewde/gov1/internal/shared"
+
+const paletteColors = 8
+
+// largest block and smallest loop restoration unit, in units of 4x4 samples
+const maxBlockMi = 32
+const minUnitMi = 8
+
+// BlockMaps is what the blocks of a frame leave behind for the blocks and filters after them.
+type BlockMaps struct {
+	LrType   [3][][]int
+	LrWiener [3][][][2][3]int
+	LrSgrSet [3][][]int
+	LrSgrXqd [3][][][2]int
+
+	SegmentIds    [][]int
+	Skips         [][]int
+	SkipModes     [][]int
+	YModes        [][]int
+	UVModes       [][]int
+	InterpFilters [][][2]int
+	IsInters      [][]int
+	Mvs           [][][2][2]int
+	PaletteSizes  [2][][]int
+	PaletteColors [2][][][paletteColors]int
+	InterTxSizes  [][]int
+	TxSizes       [][]int
+	TxTypes       [][]int
+
+	LoopFilterTxSizes [3][][]int
+}
+
+// NewGrid is a map of rows times cols zero values.
+func NewGrid[T any](rows int, cols int) [][]T {
+	g := make([][]T, rows)
+	for i := range g {
+		g[i] = make([]T, cols)
+	}
+	return g
+}
+
+// NewBlockMaps makes room for the blocks of a frame, which may reach over its right and lower edge.
+func (s *State) NewBlockMaps(upscaledWidth int) BlockMaps {
+	rows := s.MiRows + maxBlockMi
+	cols := s.MiCols + maxBlockMi
+	unitRows := s.MiRows/minUnitMi + 1
+	unitCols := upscaledWidth/(minUnitMi*4) + 1
+
+	s.MiSizes = NewGrid[int](rows, cols)
+	s.DeltaLFs = NewGrid[[shared.FRAME_LF_COUNT]int](rows, cols)
+	s.RefFrames = NewGrid[[2]int](rows, cols)
+
+	s.MfRefFrames = NewGrid[int](rows, cols)
+	s.MfMvs = NewGrid[[2]int](rows, cols)
+
+	m := BlockMaps{
+		SegmentIds:    NewGrid[int](rows, cols),
+		Skips:         NewGrid[int](rows, cols),
+		SkipModes:     NewGrid[int](rows, cols),
+		YModes:        NewGrid[int](rows, cols),
+		UVModes:       NewGrid[int](rows, cols),
+		InterpFilters: NewGrid[[2]int](rows, cols),
+		IsInters:      NewGrid[int](rows, cols),
+		Mvs:           NewGrid[[2][2]int](rows, cols),
+		InterTxSizes:  NewGrid[int](rows, cols),
+		TxSizes:       NewGrid[int](rows, cols),
+		TxTypes:       NewGrid[int](rows, cols),
+	}
+	for i := range m.PaletteSizes {
+		m.PaletteSizes[i] = NewGrid[int](rows, cols)
+		m.PaletteColors[i] = NewGrid[[paletteColors]int](rows, cols)
+	}
+	for plane := range m.LrType {
+		m.LrType[plane] = NewGrid[int](unitRows, unitCols)
+		m.LrWiener[plane] = NewGrid[[2][3]int](unitRows, unitCols)
+		m.LrSgrSet[plane] = NewGrid[int](unitRows, unitCols)
+		m.LrSgrXqd[plane] = NewGrid[[2]int](unitRows, unitCols)
+		m.LoopFilterTxSizes[plane] = NewGrid[int](rows, cols)
+	}
+
+	return m
+}
diff --git a/internal/state/state.go b/internal/state/state.go
index 4c7ff91..8920673 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -38,9 +38,9 @@ type State struct {
 	MiCol           int
 	MiRow           int
 	MiSize          int
-	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MiSizes         [][]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][4]int
+	DeltaLFs        [][][shared.FRAME_LF_COUNT]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
@@ -53,7 +53,7 @@ type State struct {
 	AvailUChroma           bool
 	AvailLChroma           bool
 	RefFrame               [2]int
-	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	RefFrames              [][][2]int
 	RefFrameWidth          [shared.NUM_REF_FRAMES]int
 	RefFrameHeight         [shared.NUM_REF_FRAMES]int
 	RefRenderWidth         [shared.NUM_REF_FRAMES]int
@@ -73,12 +73,12 @@ type State struct {
 	IsInter                int
 	CdefSize4              int
 	TileIntraFrameYModeCdf [][][]int
-	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedRefFrames         [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	MfRefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MfMvs                  [][][2]int
+	SavedMvs               [shared.NUM_REF_FRAMES][][][2]int
+	SavedRefFrames         [shared.NUM_REF_FRAMES][][]int
+	MfRefFrames            [][]int
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
-	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 
 	CurrFrame         Frame
 	CdefFrame         Frame
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 0eaa511..d5174f6 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -101,6 +101,10 @@ var UPSCALE_FILTER = [SUPERRES_FILTER_SHIFTS][SUPERRES_FILTER_TAPS]int{
 	{0, 1, -2, 4, 127, -3, 1, 0}, {0, 0, -1, 2, 128, -1, 0, 0},
 }
 
+func newMap[T any](s *state.State) [][]T {
+	return state.NewGrid[T](s.MiRows, s.MiCols)
+}
+
 // 7.19
 func (t *TileGroup) motionVectorStorageProcess() {
 	panic("not implemented")
@@ -143,12 +147,14 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				}
 			}
 
+			state.SavedRefFrames[i] = newMap[int](state)
 			for row := 0; row < state.MiRows; row++ {
 				for col := 0; col < state.MiCols; col++ {
 					state.SavedRefFrames[i][row][col] = state.MfRefFrames[row][col]
 				}
 			}
 
+			state.SavedMvs[i] = newMap[[2]int](state)
 			for comp := 0; comp <= 1; comp++ {
 				for row := 0; row < state.MiRows; row++ {
 					for col := 0; col < state.MiCols; col++ {
@@ -163,6 +169,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				}
 			}
 
+			state.SavedSegmentIds[i] = newMap[int](state)
 			for row := 0; row < state.MiRows; row++ {
 				for col := 0; col < state.MiCols; col++ {
 					state.SavedSegmentIds[i][row][col] = t.SegmentIds[row][col]
@@ -243,12 +250,14 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		}
 	}
 
+	state.MfRefFrames = newMap[int](state)
 	for row := 0; row < state.MiRows; row++ {
 		for col := 0; col < state.MiCols; col++ {
 			state.MfRefFrames[row][col] = state.SavedRefFrames[u.FrameToShowMapIdx][row][col]
 		}
 	}
 
+	state.MfMvs = newMap[[2]int](state)
 	for comp := 0; comp <= 1; comp++ {
 		for row := 0; row < state.MiRows; row++ {
 			for col := 0; col < state.MiCols; col++ {
@@ -263,6 +272,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		}
 	}
 
+	t.SegmentIds = newMap[int](state)
 	for row := 0; row < state.MiRows; row++ {
 		for col := 0; col < state.MiCols; col++ {
 			t.SegmentIds[row][col] = state.SavedSegmentIds[u.FrameToShowMapIdx][row][col]
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 06e73d5..8c6d1dd 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -123,34 +123,24 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	state.BlockMaps
+
 	RefLrWiener         [3][2][3]int
-	LrWiener            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2][3]int
-	LrSgrSet            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	HasChroma           bool
 	SegmentId           int
-	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Lossless            bool
 	Skip                int
-	Skips               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	SkipModes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	YMode               int
-	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	UVMode              int
-	UVModes             [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Mv                  [2][2]int
-	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
@@ -168,8 +158,6 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
 	PaletteCache        [2 * PALETTE_COLORS]int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
@@ -205,9 +193,7 @@ type TileGroup struct {
 	ColorOrder       []int
 	ColorContextHash int
 
-	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	TxSize       int
-	TxSizes      [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	TxSize int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -244,12 +230,10 @@ type TileGroup struct {
 	MaxLumaH int
 	MaxLumaW int
 
-	Quant             [4096]int
-	Dequant           [64][64]int
-	TxType            int
-	PlaneTxType       int
-	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	Quant       [4096]int
+	Dequant     [64][64]int
+	TxType      int
+	PlaneTxType int
 
 	T        [64]int
 	Residual [64][64]int
@@ -301,6 +285,8 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
+	t.BlockMaps = state.NewBlockMaps(uh.UpscaledWidth)
+
 	if tgStart == 0 {
 		// blocks may reach over the right and the lower edge of the frame
 		state.CurrFrame = newFrame(state.MiRows*MI_SIZE+MAX_BLOCK_SIZE, state.MiCols*MI_SIZE+MAX_BLOCK_SIZE)
-- 
2.43.0


From eb71ec5abea9ce1e5f8b852024a7f5d318af0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:51 +0000
Subject: [PATCH 113/116] fix: the block maps of a frame outlive its tile
 groups

---
 internal/state/state.go          | 2 ++
 internal/tilegroup/tile_group.go | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 8920673..57edaf4 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -80,6 +80,8 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 
+	BlockMaps BlockMaps
+
 	CurrFrame         Frame
 	CdefFrame         Frame
 	UpscaledCurrFrame Frame
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8c6d1dd..21f3218 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -285,12 +285,13 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
-	t.BlockMaps = state.NewBlockMaps(uh.UpscaledWidth)
-
 	if tgStart == 0 {
+		state.BlockMaps = state.NewBlockMaps(uh.UpscaledWidth)
 		// blocks may reach over the right and the lower edge of the frame
 		state.CurrFrame = newFrame(state.MiRows*MI_SIZE+MAX_BLOCK_SIZE, state.MiCols*MI_SIZE+MAX_BLOCK_SIZE)
 	}
+	// the tile groups of a frame share its blocks
+	t.BlockMaps = state.BlockMaps
 
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
 		tileRow := state.TileNum / state.TileCols
-- 
2.43.0


From 5a4c511241d0c9de7c52eddd297135ab77b49ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 114/116] fix: filter deltas and segment features are kept with
 reference frames

---
 internal/state/state.go                       |  5 +++++
 internal/tilegroup/decode_frame_wrapup.go     | 21 ++++++++++---------
 .../uncompressedheader/uncompressed_header.go | 16 +++++++-------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 57edaf4..f717db4 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -80,6 +80,11 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 
+	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
+	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
+	SavedFeatureEnabled       [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+	SavedFeatureData          [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+
 	BlockMaps BlockMaps
 
 	CurrFrame         Frame
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index d5174f6..8be20d7 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -182,8 +182,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				saveGrainParams(i)
 			}
 
-			saveLoopFilterParams(i)
-			saveSegmentationParams(i)
+			saveLoopFilterParams(i, state, uh)
+			saveSegmentationParams(i, state)
 
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 				if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
@@ -202,15 +202,15 @@ func saveGrainParams(ctx int) {
 }
 
 // save_loop_filter_params( i )
-func saveLoopFilterParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveLoopFilterParams(ctx int, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	state.SavedLoopFilterRefDeltas[ctx] = uh.LoopFilterRefDeltas
+	state.SavedLoopFilterModeDeltas[ctx] = uh.LoopFilterModeDeltas
 }
 
 // save_segmentation_params( i )
-func saveSegmentationParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveSegmentationParams(ctx int, state *state.State) {
+	state.SavedFeatureEnabled[ctx] = state.FeatureEnabled
+	state.SavedFeatureData[ctx] = state.FeatureData
 }
 
 // 7.21 Reference frame loading process
@@ -218,6 +218,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
 	u.CurrentFrameId = state.RefFrameId[i]
+	state.CurrentFrameId = u.CurrentFrameId
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
@@ -285,6 +286,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
-	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
+	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx, state)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2a9470e..8699fd3 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -625,8 +625,8 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	LoadLoopFilterParams(prevFrame)
-	LoadSegmentationParams(prevFrame)
+	u.LoadLoopFilterParams(prevFrame, state)
+	LoadSegmentationParams(prevFrame, state)
 
 	panic("not implemented")
 }
@@ -1358,13 +1358,13 @@ func (u *UncompressedHeader) LoadGrainParams(idx int) {
 }
 
 // load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
+func (u *UncompressedHeader) LoadLoopFilterParams(i int, s *state.State) {
+	u.LoopFilterRefDeltas = s.SavedLoopFilterRefDeltas[i]
+	u.LoopFilterModeDeltas = s.SavedLoopFilterModeDeltas[i]
 }
 
 // load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+func LoadSegmentationParams(i int, s *state.State) {
+	s.FeatureEnabled = s.SavedFeatureEnabled[i]
+	s.FeatureData = s.SavedFeatureData[i]
 }
-- 
2.43.0


From fe7edf11c2fc6aeefdeb5e4a88316460385193eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 115/116] fix: show_existing_frame shows the frame

---
 internal/obu/obu.go                                | 2 +-
 internal/tilegroup/tile_group.go                   | 7 +++++++
 internal/uncompressedheader/uncompressed_header.go | 5 -----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index aac2a7c..5b9f8f0 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -122,7 +122,7 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 		state.FrameHeaderBits = b.Position - startPosition
 
 		if uncompressedHeader.ShowExistingFrame {
-			uncompressedHeader.DecodeFrameWrapup()
+			o.TileGroup = tilegroup.NewShownFrame(state, uncompressedHeader, sh)
 			state.SeenFrameHeader = false
 		} else {
 			state.TileNum = 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 21f3218..e9d3b27 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -258,6 +258,13 @@ func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompr
 	return t
 }
 
+// NewShownFrame outputs a frame that was decoded before.
+func NewShownFrame(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
+	t := TileGroup{}
+	t.decodeFrameWrapup(state, uh, sh)
+	return t
+}
+
 func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	NumTiles := state.TileCols * state.TileRows
 	startbitPos := b.Position
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8699fd3..8ad911a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1341,11 +1341,6 @@ func (u *UncompressedHeader) resetGrainParams() {
 	u.ClipToRestrictedRange = false
 }
 
-// decode_frame_wrapup()
-func (u *UncompressedHeader) DecodeFrameWrapup() {
-	panic("not implemented")
-}
-
 // temporal_point_info()
 func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader, b *bitstream.BitStream) {
 	n := sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne + 1
-- 
2.43.0


From 62dd4c2549485be49ca29a83d7e3ca5a850618da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:45 +0000
Subject: [PATCH 116/116] fix: read use_intrabc as a symbol

The flag was read with S(), which is not implemented, so every frame that
allows intra block copy stopped at its first block. A block that does copy
is still refused.
---
 internal/tilegroup/intra_frame_mode_info.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 78b05d3..6ad794c 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -33,7 +33,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
@@ -50,6 +50,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		t.InterpFilter[1] = shared.BILINEAR
 		t.findMvStack(false, state, uh)
 		t.assignMv(0, b, state, sh, uh)
+		panic("not implemented")
 	} else {
 		t.IsInter = 0
 		intraFrameYMode := t.intraFrameYModeSymbol(state, b, uh)
-- 
2.43.0

