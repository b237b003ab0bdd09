package video

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// The search for the next start code, as a function of where it starts (V02).
func spNextErr(p uint64) error  { return vc.UFErr("v.nexterr", p) }
func spNextPos(p uint64) uint64 { return vc.UF("v.nextpos", p) }

//verif:contract for=next_start_code
func ctNextStartCode(br bitreader.BitReader) error {
	p := vc.Pos(br)
	if spNextErr(p) == nil {
		vc.Assume(spNextPos(p) >= p && spNextPos(p)+24 <= vc.Len(br) && spNextPos(p)&7 == 0)
	}
	vc.SetPos(br, spNextPos(p))
	return spNextErr(p)
}

// spPart: n bits at p must be v, or err is reported.
type spPart struct {
	p, n, v uint64
	err     error
}

// hasOutcome asserts the outcome err of parsing an element that ends at end, with the given parts in stream order; it
// returns true if the element is well-formed and a start code follows.
func hasOutcome(s *vc.Stream, err error, end uint64, parts ...spPart) bool {
	for _, k := range parts {
		if vc.Len(s) < k.p+k.n {
			vc.Cover("truncated")
			vc.Assert(err == vc.EndErr(s) || err == spEOF(s), "truncation yields the stream's error")
			return false
		}
		if vc.Bits(s, k.p, k.n) != k.v {
			vc.Cover("malformed")
			vc.Assert(err == k.err, "a missing code or marker yields the corresponding error")
			return false
		}
	}
	if vc.Len(s) < end {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s) || err == spEOF(s), "truncation yields the stream's error")
		return false
	}
	vc.Cover("well-formed")
	vc.Assert(err == spNextErr(end) && vc.Pos(s) == spNextPos(end), "the stream is left at the following start code")
	return err == nil
}

// spEOF: an end of file within an element is unexpected.
func spEOF(s *vc.Stream) error {
	return vc.IteErr(vc.EndErr(s) == io.EOF, io.ErrUnexpectedEOF, vc.EndErr(s))
}

// spHas: the n bits at p exist and are v.
func spHas(s *vc.Stream, p, n, v uint64) bool { return p+n <= vc.Len(s) && vc.Bits(s, p, n) == v }

func spStream() *vc.Stream {
	s := vc.NewStream("s", 0)
	e := vc.EndErr(s)
	vc.Assume(e != ErrUnexpectedStartCode && e != ErrUnexpectedExtensionID && e != ErrMissingMarkerBit)
	return s
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvSequenceExtension() {
	if vc.Native() {
		return
	}
	s := spStream()
	h, err := sequence_extension(s)
	if !hasOutcome(s, err, 80, spPart{0, 32, 0x1b5, ErrUnexpectedStartCode}, spPart{32, 4, 1, ErrUnexpectedExtensionID}, spPart{63, 1, 1, ErrMissingMarkerBit}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.profile_and_level_indication) == vc.Bits(s, 36, 8), "profile_and_level_indication")
	vc.Assert(uint64(h.progressive_sequence) == vc.Bits(s, 44, 1), "progressive_sequence")
	vc.Assert(uint64(h.chroma_format) == vc.Bits(s, 45, 2), "chroma_format")
	vc.Assert(uint64(h.horizontal_size_extension) == vc.Bits(s, 47, 2), "horizontal_size_extension")
	vc.Assert(uint64(h.vertical_size_extension) == vc.Bits(s, 49, 2), "vertical_size_extension")
	vc.Assert(uint64(h.bit_rate_extension) == vc.Bits(s, 51, 12), "bit_rate_extension")
	vc.Assert(uint64(h.vbv_buffer_size_extension) == vc.Bits(s, 64, 8), "vbv_buffer_size_extension")
	vc.Assert(uint64(h.low_delay) == vc.Bits(s, 72, 1), "low_delay")
	vc.Assert(uint64(h.frame_rate_extension_n) == vc.Bits(s, 73, 2), "frame_rate_extension_n")
	vc.Assert(uint64(h.frame_rate_extension_d) == vc.Bits(s, 75, 5), "frame_rate_extension_d")
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvSequenceDisplayExtension() {
	if vc.Native() {
		return
	}
	s := spStream()
	d := vc.Ite64(vc.Len(s) >= 8 && vc.Bits(s, 7, 1) == 1, 32, 8)
	h, err := sequence_display_extension(s)
	if !hasOutcome(s, err, d+29, spPart{0, 4, 2, ErrUnexpectedExtensionID}, spPart{d + 14, 1, 1, ErrMissingMarkerBit}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.video_format) == vc.Bits(s, 4, 3), "video_format")
	vc.Assert(h.colour_description == (vc.Bits(s, 7, 1) == 1), "colour_description")
	vc.Assert(uint64(h.display_horizontal_size) == vc.Bits(s, d, 14), "display_horizontal_size")
	vc.Assert(uint64(h.display_vertical_size) == vc.Bits(s, d+15, 14), "display_vertical_size")
	if h.colour_description {
		vc.Cover("colour description")
		vc.Assert(uint64(h.colour_primaries) == vc.Bits(s, 8, 8) && uint64(h.transfer_characteristics) == vc.Bits(s, 16, 8) && uint64(h.matrix_coefficients) == vc.Bits(s, 24, 8), "colour description")
	} else {
		vc.Assert(h.colour_primaries == 0 && h.transfer_characteristics == 0 && h.matrix_coefficients == 0, "no colour description")
	}
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvGOPHeader() {
	if vc.Native() {
		return
	}
	s := spStream()
	h, err := ReadGOPHeader(s)
	if !hasOutcome(s, err, 59, spPart{0, 32, 0x1b8, ErrUnexpectedStartCode}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.timeCode) == vc.Bits(s, 32, 25), "timeCode")
	vc.Assert(h.ClosedGOP == (vc.Bits(s, 57, 1) == 1), "ClosedGOP")
	vc.Assert(h.BrokenLink == (vc.Bits(s, 58, 1) == 1), "BrokenLink")
	tc := h.TimeCode()
	vc.Assert(tc.DropFrame == (vc.Bits(s, 32, 1) == 1) && uint64(tc.Hours) == vc.Bits(s, 33, 5) && uint64(tc.Minutes) == vc.Bits(s, 38, 6), "drop frame flag, hours and minutes")
	vc.Assert(uint64(tc.Seconds) == vc.Bits(s, 45, 6) && uint64(tc.Pictures) == vc.Bits(s, 51, 6), "seconds and pictures")
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvPictureCodingExtension() {
	if vc.Native() {
		return
	}
	s := spStream()
	e := vc.Ite64(vc.Len(s) >= 66 && vc.Bits(s, 65, 1) == 1, 86, 66)
	h, err := picture_coding_extension(s)
	if !hasOutcome(s, err, e, spPart{0, 32, 0x1b5, ErrUnexpectedStartCode}, spPart{32, 4, 8, ErrUnexpectedExtensionID}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.f_code[0][0]) == vc.Bits(s, 36, 4), "f_code[0][0]")
	vc.Assert(uint64(h.f_code[0][1]) == vc.Bits(s, 40, 4), "f_code[0][1]")
	vc.Assert(uint64(h.f_code[1][0]) == vc.Bits(s, 44, 4), "f_code[1][0]")
	vc.Assert(uint64(h.f_code[1][1]) == vc.Bits(s, 48, 4), "f_code[1][1]")
	vc.Assert(uint64(h.intra_dc_precision) == vc.Bits(s, 52, 2), "intra_dc_precision")
	vc.Assert(uint64(h.picture_structure) == vc.Bits(s, 54, 2), "picture_structure")
	vc.Assert(h.top_field_first == (vc.Bits(s, 56, 1) == 1), "top_field_first")
	vc.Assert(uint64(h.frame_pred_frame_dct) == vc.Bits(s, 57, 1), "frame_pred_frame_dct")
	vc.Assert(h.concealment_motion_vectors == (vc.Bits(s, 58, 1) == 1), "concealment_motion_vectors")
	vc.Assert(uint64(h.q_scale_type) == vc.Bits(s, 59, 1), "q_scale_type")
	vc.Assert(uint64(h.intra_vlc_format) == vc.Bits(s, 60, 1), "intra_vlc_format")
	vc.Assert(uint64(h.alternate_scan) == vc.Bits(s, 61, 1), "alternate_scan")
	vc.Assert(h.repeat_first_field == (vc.Bits(s, 62, 1) == 1), "repeat_first_field")
	vc.Assert(h.chroma_420_type == (vc.Bits(s, 63, 1) == 1), "chroma_420_type")
	vc.Assert(h.progressive_frame == (vc.Bits(s, 64, 1) == 1), "progressive_frame")
	vc.Assert(h.composite_display_flag == (vc.Bits(s, 65, 1) == 1), "composite_display_flag")
	if h.composite_display_flag {
		vc.Cover("composite display")
		vc.Assert(h.v_axis == (vc.Bits(s, 66, 1) == 1) && uint64(h.field_sequence) == vc.Bits(s, 67, 3) && h.sub_carrier == (vc.Bits(s, 70, 1) == 1), "v axis, field sequence and sub carrier")
		vc.Assert(uint64(h.burst_amplitude) == vc.Bits(s, 71, 7) && uint64(h.sub_carrier_phase) == vc.Bits(s, 78, 8), "burst amplitude and sub carrier phase")
	} else {
		vc.Assert(!h.v_axis && h.field_sequence == 0 && !h.sub_carrier && h.burst_amplitude == 0 && h.sub_carrier_phase == 0, "no composite display")
	}
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvPictureTemporalScalableExtension() {
	if vc.Native() {
		return
	}
	s := spStream()
	h, err := picture_temporal_scalable_extension(s)
	if !hasOutcome(s, err, 27, spPart{0, 4, 10, ErrUnexpectedExtensionID}, spPart{16, 1, 1, ErrMissingMarkerBit}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.reference_select_code) == vc.Bits(s, 4, 2), "reference_select_code")
	vc.Assert(uint64(h.forward_temporal_reference) == vc.Bits(s, 6, 10), "forward_temporal_reference")
	vc.Assert(uint64(h.backward_temporal_reference) == vc.Bits(s, 17, 10), "backward_temporal_reference")
}

//verif:harness prop=V01
//verif:use ctNextStartCode
func hvSequenceHeader() {
	if vc.Native() {
		return
	}
	s := spStream()
	m := vc.Ite64(vc.Len(s) >= 95 && vc.Bits(s, 94, 1) == 1, 607, 95)
	e := vc.Ite64(vc.Len(s) >= m+1 && vc.Bits(s, m, 1) == 1, m+513, m+1)
	h, err := ReadSequenceHeader(s)
	if !hasOutcome(s, err, e, spPart{0, 32, 0x1b3, ErrUnexpectedStartCode}, spPart{82, 1, 1, ErrMissingMarkerBit}) {
		return
	}
	vc.Assert(h != nil, "the element is returned")
	vc.Assert(uint64(h.horizontal_size_value) == vc.Bits(s, 32, 12), "horizontal_size_value")
	vc.Assert(uint64(h.vertical_size_value) == vc.Bits(s, 44, 12), "vertical_size_value")
	vc.Assert(uint64(h.aspect_ratio_information) == vc.Bits(s, 56, 4), "aspect_ratio_information")
	vc.Assert(uint64(h.frame_rate_code) == vc.Bits(s, 60, 4), "frame_rate_code")
	vc.Assert(uint64(h.bit_rate_value) == vc.Bits(s, 64, 18), "bit_rate_value")
	vc.Assert(uint64(h.vbv_buffer_size_value) == vc.Bits(s, 83, 10), "vbv_buffer_size_value")
	vc.Assert(h.constrained_parameters_flag == (vc.Bits(s, 93, 1) == 1), "constrained_parameters_flag")
	vc.Assert(h.load_intra_quantiser_matrix == (vc.Bits(s, 94, 1) == 1), "load_intra_quantiser_matrix")
	vc.Assert(h.load_non_intra_quantiser_matrix == (vc.Bits(s, m, 1) == 1), "load_non_intra_quantiser_matrix")
	vs := &VideoSequence{sequenceHeaders: sequenceHeaders{SequenceHeader: h}}
	x := SequenceExtension{}
	vc.Any("ext", &x)
	vc.Assume(x.horizontal_size_extension < 4 && x.vertical_size_extension < 4)
	if vc.Bool("with extension") {
		vs.SequenceExtension = &x
		w, ht := vs.Size()
		vc.Assert(uint64(w) == uint64(x.horizontal_size_extension)<<12|vc.Bits(s, 32, 12) && uint64(ht) == uint64(x.vertical_size_extension)<<12|vc.Bits(s, 44, 12), "the picture size combines header and extension")
		return
	}
	w, ht := vs.Size()
	vc.Assert(uint64(w) == vc.Bits(s, 32, 12) && uint64(ht) == vc.Bits(s, 44, 12), "the picture size is that of the header without extension")
	for v := 0; v < 8; v++ {
		for u := 0; u < 8; u++ {
			n := uint64(8*v + u)
			vc.Assert(!h.load_intra_quantiser_matrix || uint64(h.intra_quantiser_matrix[v][u]) == vc.Bits(s, 95+8*n, 8), "intra quantiser matrix")
			vc.Assert(!h.load_non_intra_quantiser_matrix || uint64(h.non_intra_quantiser_matrix[v][u]) == vc.Bits(s, m+1+8*n, 8), "non-intra quantiser matrix")
		}
	}
}

var ghExtra uint64 // where extra_information_picture starts

//verif:loop for=picture_header n=1
func invExtra(ph PictureHeader) {
	n := len(ph.extra_information)
	p := vc.Pos(ghS)
	vc.Inv(n >= 0 && n < 1<<40 && p == ghExtra+9*uint64(n) && p <= vc.Len(ghS), "nine bits per byte of extra information")
	j := vc.U64("j")
	vc.Inv(j >= uint64(n) || vc.Bits(ghS, ghExtra+9*j, 1) == 1, "each byte follows a one")
	vc.InvSeq(ph.extra_information, n, func(i int) byte { return byte(vc.Bits(ghS, ghExtra+9*uint64(i)+1, 8)) }, "extra information")
	vc.Dec(vc.Len(ghS) - p)
}

//verif:harness prop=V01
//verif:use ctNextStartCode
//verif:inv invExtra
func hvPictureHeader() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	ty := uint64(0)
	if vc.Len(s) >= 45 {
		ty = vc.Bits(s, 42, 3)
	}
	ghExtra = 61
	if ty == 2 {
		ghExtra = 65
	} else if ty == 3 {
		ghExtra = 69
	}
	j := vc.U64("j")
	h, err := picture_header(s)
	if !spHas(s, 0, 32, 0x100) {
		vc.Cover("no start code")
		vc.Assert(vc.IteErr(vc.Len(s) < 32, spEOF(s), ErrUnexpectedStartCode) == err || err == vc.EndErr(s), "a missing start code or truncation yields the corresponding error")
		return
	}
	if h == nil {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s) || err == spEOF(s), "truncation yields the stream's error")
		p := vc.Pos(s)
		vc.Assert(vc.Len(s) < ghExtra || p >= ghExtra && p+9 > vc.Len(s), "only truncation is an error")
		return
	}
	n := uint64(len(h.extra_information))
	end := ghExtra + 9*n + 1
	vc.Cover("well-formed")
	vc.Assert(n < 1<<40 && end <= vc.Len(s) && vc.Bits(s, end-1, 1) == 0, "extra information ends with a zero bit")
	vc.Assert(j >= n || vc.Bits(s, ghExtra+9*j, 1) == 1, "each byte of extra information follows a one")
	vc.AssertAll("extra information", int(n), func(i int) bool {
		return h.extra_information[i] == byte(vc.Bits(s, ghExtra+9*uint64(i)+1, 8))
	})
	vc.Assert(err == spNextErr(end) && vc.Pos(s) == spNextPos(end), "the stream is left at the following start code")
	vc.Assert(uint64(h.temporal_reference) == vc.Bits(s, 32, 10) && uint64(h.picture_coding_type) == ty && uint64(h.vbv_delay) == vc.Bits(s, 45, 16), "temporal reference, coding type and vbv delay")
	if ty == 2 || ty == 3 {
		vc.Assert(uint64(h.full_pel_forward_vector) == vc.Bits(s, 61, 1) && uint64(h.forward_f_code) == vc.Bits(s, 62, 3), "forward vector fields")
	} else {
		vc.Assert(h.full_pel_forward_vector == 0 && h.forward_f_code == 0, "no forward vector fields")
	}
	if ty == 3 {
		vc.Assert(uint64(h.full_pel_backward_vector) == vc.Bits(s, 65, 1) && uint64(h.backward_f_code) == vc.Bits(s, 66, 3), "backward vector fields")
	} else {
		vc.Assert(h.full_pel_backward_vector == 0 && h.backward_f_code == 0, "no backward vector fields")
	}
}

//verif:loop for=(*VideoSequence).user_data n=1
func invUserData(data UserData) {
	n := len(data)
	p := vc.Pos(ghS)
	j := vc.U64("j")
	vc.Inv(n >= 0 && n < 1<<40 && p == 32+8*uint64(n) && p <= vc.Len(ghS), "one byte at a time")
	vc.Inv(j >= uint64(n) || vc.Bits(ghS, 32+8*j, 24) != 1, "user data ends at the first start code prefix")
	vc.InvSeq(data, n, func(i int) byte { return byte(vc.Bits(ghS, 32+8*uint64(i), 8)) }, "user data")
	vc.Dec(vc.Len(ghS) - p)
}

//verif:harness prop=V01
//verif:use ctNextStartCode
//verif:inv invUserData
func hvUserData() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	j := vc.U64("j")
	vs := &VideoSequence{BitReader: s}
	d, err := vs.user_data()
	if !spHas(s, 0, 32, 0x1b2) {
		vc.Cover("no start code")
		vc.Assert(vc.IteErr(vc.Len(s) < 32, vc.EndErr(s), ErrUnexpectedStartCode) == err, "a missing start code or truncation yields the corresponding error")
		return
	}
	n := uint64(len(d))
	if d == nil {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s), "truncation yields the stream's error")
		vc.Assert(j >= 1<<40 || 32+8*j+24 > vc.Len(s) || vc.Bits(s, 32+8*j, 24) != 1, "only if no start code follows")
		return
	}
	vc.Cover("well-formed")
	end := 32 + 8*n
	vc.Assert(n < 1<<40 && end+24 <= vc.Len(s) && vc.Bits(s, end, 24) == 1, "user data ends at a start code prefix")
	vc.Assert(j >= n || vc.Bits(s, 32+8*j, 24) != 1, "user data ends at the first start code prefix")
	vc.AssertAll("user data", int(n), func(i int) bool { return d[i] == byte(vc.Bits(s, 32+8*uint64(i), 8)) })
	vc.Assert(err == spNextErr(end) && vc.Pos(s) == spNextPos(end), "the stream is left at the following start code")
}
