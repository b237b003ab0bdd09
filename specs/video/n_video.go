package video

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// Native generators: video elements built here field by field, independently of the library.

type nBits struct {
	b []byte
	n uint
}

func (w *nBits) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << (7 - w.n%8)
		w.n++
	}
}

var errSource = errors.New("the source failed")

type nSrc struct {
	b   []byte
	k   uint64
	err error
}

func (s *nSrc) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	s.k++
	n := 1 + int(vc.Rnd("src.chunk", 40, s.k))
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

// nReader reads b, and then the error err.
func nReader(b []byte, err error) bitreader.BitReader {
	return bitreader.NewReader(&nSrc{b: append([]byte(nil), b...), err: err})
}

// nEl builds one element: fields with their expected values, positions of codes and markers with the error of each.
type nEl struct {
	w     nBits
	want  []interface{} // name, value pairs
	parts []spPart
}

func (e *nEl) f(name string, n uint) uint64 {
	v := vc.Rnd("f."+name, 1<<n)
	switch vc.Rnd("f.extreme."+name, 6) {
	case 0:
		v = 0
	case 1:
		v = 1<<n - 1
	}
	e.w.put(v, n)
	e.want = append(e.want, name, v)
	return v
}

func (e *nEl) code(v uint64, n uint, err error) {
	e.parts = append(e.parts, spPart{uint64(e.w.n), uint64(n), v, err})
	e.w.put(v, n)
}

func (e *nEl) mark() { e.code(1, 1, ErrMissingMarkerBit) }

// nField reads an unexported field of a header as a number.
func nField(h reflect.Value, name string) (uint64, bool) {
	v := h
	for len(name) > 0 && name[len(name)-1] == ']' {
		name = name[:len(name)-1]
	}
	v = h.FieldByName(name)
	if !v.IsValid() {
		return 0, false
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1, true
		}
		return 0, true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint(), true
	}
	return 0, false
}

//verif:harness prop=V01 native=only
//verif:search 6000
func hnHeaders() {
	if !vc.Native() {
		return
	}
	e := &nEl{}
	var read func(br bitreader.BitReader) (interface{}, error)
	var fc [4]uint64
	var extra, intra, nonintra []byte
	bytesOf := func(name string, n int) (r []byte) {
		for i := 0; i < n; i++ {
			r = append(r, byte(vc.Rnd(name, 256, uint64(i))))
		}
		return
	}
	kind := vc.Rnd("element", 8)
	sh, sx := uint64(0), uint64(0)
	switch kind {
	case 0:
		read = func(br bitreader.BitReader) (interface{}, error) { return ReadSequenceHeader(br) }
		e.code(0x1b3, 32, ErrUnexpectedStartCode)
		sh = e.f("horizontal_size_value", 12)
		sx = e.f("vertical_size_value", 12)
		e.f("aspect_ratio_information", 4)
		e.f("frame_rate_code", 4)
		e.f("bit_rate_value", 18)
		e.mark()
		e.f("vbv_buffer_size_value", 10)
		e.f("constrained_parameters_flag", 1)
		for k, name := range []string{"load_intra_quantiser_matrix", "load_non_intra_quantiser_matrix"} {
			if e.f(name, 1) == 1 {
				m := bytesOf(name, 64)
				for _, b := range m {
					e.w.put(uint64(b), 8)
				}
				if k == 0 {
					intra = m
				} else {
					nonintra = m
				}
			}
		}
	case 1:
		read = func(br bitreader.BitReader) (interface{}, error) { return sequence_extension(br) }
		e.code(0x1b5, 32, ErrUnexpectedStartCode)
		e.code(1, 4, ErrUnexpectedExtensionID)
		e.f("profile_and_level_indication", 8)
		e.f("progressive_sequence", 1)
		e.f("chroma_format", 2)
		e.f("horizontal_size_extension", 2)
		e.f("vertical_size_extension", 2)
		e.f("bit_rate_extension", 12)
		e.mark()
		e.f("vbv_buffer_size_extension", 8)
		e.f("low_delay", 1)
		e.f("frame_rate_extension_n", 2)
		e.f("frame_rate_extension_d", 5)
	case 2:
		read = func(br bitreader.BitReader) (interface{}, error) { return sequence_display_extension(br) }
		e.code(2, 4, ErrUnexpectedExtensionID)
		e.f("video_format", 3)
		if e.f("colour_description", 1) == 1 {
			e.f("colour_primaries", 8)
			e.f("transfer_characteristics", 8)
			e.f("matrix_coefficients", 8)
		}
		e.f("display_horizontal_size", 14)
		e.mark()
		e.f("display_vertical_size", 14)
	case 3:
		read = func(br bitreader.BitReader) (interface{}, error) { return ReadGOPHeader(br) }
		e.code(0x1b8, 32, ErrUnexpectedStartCode)
		e.f("timeCode", 25)
		e.f("ClosedGOP", 1)
		e.f("BrokenLink", 1)
	case 4:
		read = func(br bitreader.BitReader) (interface{}, error) { return picture_header(br) }
		e.code(0x100, 32, ErrUnexpectedStartCode)
		e.f("temporal_reference", 10)
		t := e.f("picture_coding_type", 3)
		e.f("vbv_delay", 16)
		if t == 2 || t == 3 {
			e.f("full_pel_forward_vector", 1)
			e.f("forward_f_code", 3)
		}
		if t == 3 {
			e.f("full_pel_backward_vector", 1)
			e.f("backward_f_code", 3)
		}
		extra = bytesOf("extra", int(vc.Rnd("extra.n", 4)))
		if vc.Rnd("extra.none", 2) == 0 {
			extra = nil
		}
		for _, b := range extra {
			e.w.put(1, 1)
			e.w.put(uint64(b), 8)
		}
		e.w.put(0, 1)
	case 5:
		read = func(br bitreader.BitReader) (interface{}, error) { return picture_coding_extension(br) }
		e.code(0x1b5, 32, ErrUnexpectedStartCode)
		e.code(8, 4, ErrUnexpectedExtensionID)
		for i := range fc {
			fc[i] = vc.Rnd("f_code", 16, uint64(i))
			e.w.put(fc[i], 4)
		}
		e.f("intra_dc_precision", 2)
		e.f("picture_structure", 2)
		e.f("top_field_first", 1)
		e.f("frame_pred_frame_dct", 1)
		e.f("concealment_motion_vectors", 1)
		e.f("q_scale_type", 1)
		e.f("intra_vlc_format", 1)
		e.f("alternate_scan", 1)
		e.f("repeat_first_field", 1)
		e.f("chroma_420_type", 1)
		e.f("progressive_frame", 1)
		if e.f("composite_display_flag", 1) == 1 {
			e.f("v_axis", 1)
			e.f("field_sequence", 3)
			e.f("sub_carrier", 1)
			e.f("burst_amplitude", 7)
			e.f("sub_carrier_phase", 8)
		}
	case 6:
		read = func(br bitreader.BitReader) (interface{}, error) { return picture_temporal_scalable_extension(br) }
		e.code(10, 4, ErrUnexpectedExtensionID)
		e.f("reference_select_code", 2)
		e.f("forward_temporal_reference", 10)
		e.mark()
		e.f("backward_temporal_reference", 10)
	case 7:
		read = func(br bitreader.BitReader) (interface{}, error) { return (&VideoSequence{BitReader: br}).user_data() }
		e.code(0x1b2, 32, ErrUnexpectedStartCode)
		extra = bytesOf("user", int(vc.Rnd("user.n", 12)))
		for i := range extra {
			if extra[i] < 100 {
				extra[i] &= 1
			}
			if i >= 2 && extra[i] == 1 && extra[i-1] == 0 && extra[i-2] == 0 {
				extra[i] = 7
			}
		}
		for _, b := range extra {
			e.w.put(uint64(b), 8)
		}
	}
	end := len(e.w.b)
	stuffing := int(vc.Rnd("stuffing", 4))
	if kind == 7 {
		stuffing = 0
	}
	raw := append([]byte(nil), e.w.b...)
	raw = append(raw, make([]byte, stuffing)...)
	next := byte(vc.Rnd("next", 256))
	raw = append(raw, 0, 0, 1, next, 0x55, 0xaa, 0x55)
	serr := io.EOF
	if vc.Rnd("fails", 2) == 0 {
		serr = errSource
	}
	switch vc.Rnd("damage", 5) {
	case 0: // a code or marker
		p := e.parts[vc.Rnd("damage.part", uint64(len(e.parts)))]
		at := p.p + vc.Rnd("damage.bit", p.n)
		raw[at/8] ^= 1 << (7 - at%8)
		_, err := read(nReader(raw, serr))
		vc.Assert(err == p.err, "a missing code or marker yields the corresponding error")
		return
	case 1: // truncation
		n := int(vc.Rnd("damage.len", uint64(end)))
		_, err := read(nReader(raw[:n], serr))
		vc.Assert(err != nil && (err == serr || serr == io.EOF && err == io.ErrUnexpectedEOF), "truncation yields the stream's error")
		return
	}
	br := nReader(raw, serr)
	h, err := read(br)
	vc.Assert(err == nil, "a well-formed element is read")
	if err != nil {
		return
	}
	var tail [7]byte
	for i := range tail {
		b, _ := br.Read8(8)
		tail[i] = b
	}
	vc.Assert(bytes.Equal(tail[:], raw[len(raw)-7:]), "the stream is left at the following start code")
	if kind == 7 {
		vc.Assert(bytes.Equal(h.(UserData), extra), "user data")
		return
	}
	v := reflect.ValueOf(h).Elem()
	for i := 0; i < len(e.want); i += 2 {
		name := e.want[i].(string)
		got, ok := nField(v, name)
		vc.Assert(ok && got == e.want[i+1].(uint64), "every field has its value: "+name)
	}
	switch h := h.(type) {
	case *SequenceHeader:
		for i := 0; i < 64; i++ {
			vc.Assert(intra == nil || h.intra_quantiser_matrix[i/8][i%8] == intra[i], "intra quantiser matrix")
			vc.Assert(nonintra == nil || h.non_intra_quantiser_matrix[i/8][i%8] == nonintra[i], "non-intra quantiser matrix")
		}
		vs := &VideoSequence{}
		vs.SequenceHeader = h
		if vc.Rnd("extension", 2) == 0 {
			x := &SequenceExtension{horizontal_size_extension: uint32(vc.Rnd("hx", 4)), vertical_size_extension: uint32(vc.Rnd("vx", 4))}
			vs.SequenceExtension = x
			sh += uint64(x.horizontal_size_extension) << 12
			sx += uint64(x.vertical_size_extension) << 12
		}
		w, ht := vs.Size()
		vc.Assert(uint64(w) == sh && uint64(ht) == sx, "the picture size combines header and extension")
	case *GroupOfPicturesHeader:
		tc, t := h.TimeCode(), e.want[1].(uint64)
		vc.Assert(tc.DropFrame == (t>>24 == 1) && uint64(tc.Hours) == t>>19&31 && uint64(tc.Minutes) == t>>13&63 && uint64(tc.Seconds) == t>>6&63 && uint64(tc.Pictures) == t&63, "time code")
	case *PictureHeader:
		vc.Assert(bytes.Equal(h.extra_information, extra), "extra information")
		t := h.picture_coding_type
		vc.Assert(t == 2 || t == 3 || h.full_pel_forward_vector == 0 && h.forward_f_code == 0, "no forward vector fields")
		vc.Assert(t == 3 || h.full_pel_backward_vector == 0 && h.backward_f_code == 0, "no backward vector fields")
	case *PictureCodingExtension:
		for i := range fc {
			vc.Assert(uint64(h.f_code[i/2][i%2]) == fc[i], "f_code")
		}
	}
}

//verif:harness prop=V02 native=only
//verif:search 6000
func hnStartCodes() {
	if !vc.Native() {
		return
	}
	// bytes with many zeros and ones
	n := int(vc.Rnd("n", 24))
	b := make([]byte, n)
	mode := vc.Rnd("mode", 3)
	for i := range b {
		switch x := vc.Rnd("b", 16, uint64(i)); {
		case x < 9 || mode == 0:
			b[i] = 0
		case x < 13:
			b[i] = 1
		default:
			b[i] = byte(vc.Rnd("byte", 256, uint64(i)))
		}
	}
	if n > 8 && vc.Rnd("insert", 3) > 0 {
		i := 1 + int(vc.Rnd("insert.at", uint64(n-7)))
		copy(b[i:], []byte{0, 0, 1, byte(vc.Rnd("insert.code", 4)) + 0xb2})
	}
	serr := io.EOF
	if vc.Rnd("fails", 2) == 0 {
		serr = errSource
	}
	br := nReader(b, serr)
	pos := uint(vc.Rnd("bits", 12))
	if pos > uint(8*n) {
		pos = 0
	}
	for i := uint(0); i < pos; i++ {
		br.Read1()
	}
	bit := func(p uint) uint64 { return uint64(b[p/8] >> (7 - p%8) & 1) }
	bits := func(p, n uint) (v uint64) {
		for i := uint(0); i < n; i++ {
			v = v<<1 | bit(p+i)
		}
		return
	}
	rest := func(p uint) { // nothing before p is left, everything from it
		for ; p < uint(8*n); p++ {
			v, err := br.Read1()
			vc.Assert(err == nil && v == (bit(p) == 1), "the stream continues at the right bit")
		}
		_, err := br.Read1()
		vc.Assert(err != nil, "the stream ends where it should")
	}
	q := int(pos+7) / 8
	switch vc.Rnd("operation", 3) {
	case 0:
		code := StartCode(0x100 + vc.Rnd("code", 256))
		if pos+32 <= uint(8*n) && vc.Rnd("present", 2) == 0 {
			code = StartCode(bits(pos, 32))
		}
		ok, err := code.Check(br)
		if pos+32 > uint(8*n) {
			vc.Assert(err == serr && !ok && code.Assert(br) == serr, "the stream's error is returned")
			rest(pos)
			return
		}
		want := bits(pos, 32) == uint64(code)
		vc.Assert(err == nil && ok == want, "checking a start code is exact")
		err = code.Assert(br)
		if want {
			vc.Assert(err == nil, "asserting a start code is exact")
			rest(pos + 32)
		} else {
			vc.Assert(err == ErrUnexpectedStartCode, "asserting a start code is exact")
			rest(pos)
		}
	case 1:
		code := StartCode(0x100 + vc.Rnd("code", 256))
		if vc.Rnd("likely", 2) == 0 {
			code = StartCode(0x1b2 + vc.Rnd("code", 4))
		}
		vs := &VideoSequence{BitReader: br}
		err := vs.AlignTo(code)
		for i := q; i+4 <= n; i++ {
			if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && uint64(b[i+3])+0x100 == uint64(code) {
				vc.Assert(err == nil, "aligning finds the start code")
				rest(uint(8 * i))
				return
			}
		}
		vc.Assert(err == serr, "the stream's error is returned")
	case 2:
		err := next_start_code(br)
		for i := q; ; i++ {
			if i+3 > n {
				vc.Assert(err == serr, "the stream's error is returned")
				return
			}
			if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
				vc.Assert(err == nil, "advancing finds the start code prefix")
				rest(uint(8 * i))
				return
			}
			if b[i] != 0 {
				vc.Assert(err == ErrUnexpectedNonZeroByte, "a byte other than zero is reported")
				return
			}
		}
	}
}

//verif:harness prop=V03 native=only
//verif:search 3000
func hnMatrices() {
	if !vc.Native() {
		return
	}
	w := &nBits{}
	var want [4][64]uint8
	matrix := func(k ...uint64) (m [64]uint8) {
		for i := range m {
			m[i] = uint8(vc.Rnd("m", 256, append([]uint64{uint64(i)}, k...)...))
		}
		return
	}
	put := func(m [64]uint8) (r [64]uint8) {
		for n := 0; n < 64; n++ {
			w.put(uint64(m[n]), 8)
		}
		for k := range r {
			r[k] = m[spZigzag[k]]
		}
		return
	}
	vs := &VideoSequence{}
	check := func(label string) {
		for i := range want {
			for k := range want[i] {
				if vs.quantisationMatricies[i][k/8][k%8] != want[i][k] {
					vc.Assert(false, label)
					return
				}
			}
		}
	}
	for step := uint64(0); step < 1+vc.Rnd("steps", 5); step++ {
		w = &nBits{}
		if step == 0 || vc.Rnd("header", 3, step) == 0 {
			w.put(0x1b3, 32)
			w.put(vc.Rnd("head", 1<<50, step), 50)
			w.put(1, 1)
			w.put(vc.Rnd("head2", 1<<11, step), 11)
			for i := 0; i < 2; i++ {
				load := vc.Rnd("load", 2, step, uint64(i))
				w.put(load, 1)
				if load == 1 {
					want[i] = put(matrix(step, uint64(i)))
				} else if i == 0 {
					want[i] = spDefaultIntra
				} else {
					for k := range want[i] {
						want[i][k] = 16
					}
				}
				want[i+2] = want[i]
			}
			w.put(0, (8-w.n%8)%8)
			w.put(0x1b5, 32)
			vs.BitReader = nReader(w.b, io.EOF)
			vc.Assert(vs.sequence_header() == nil, "a sequence header is read")
			check("the matrices in force are those transmitted, or the default")
			continue
		}
		w.put(3, 4)
		for i := 0; i < 4; i++ {
			load := vc.Rnd("load", 2, step, uint64(i))
			w.put(load, 1)
			if load == 1 {
				want[i] = put(matrix(step, uint64(i)))
				if i < 2 {
					want[i+2] = want[i]
				}
			}
		}
		w.put(0, (8-w.n%8)%8)
		w.put(0x101, 32)
		vs.BitReader = nReader(w.b, io.EOF)
		vc.Assert(vs.quant_matrix_extension() == nil, "a quant matrix extension is read")
		check("an extension replaces exactly the matrices it transmits")
	}
}

// nPutBlock writes the block c, given in scan order, with the codes of the standard; pred is the DC predictor.
func nPutBlock(w *nBits, c *[64]int32, intra, one, chroma bool, pred int32, k ...uint64) {
	n := 0
	if intra {
		d := c[0] - pred
		size := uint(0)
		for a := d; a != 0; a /= 2 {
			size++
		}
		t := spDCLuma
		if chroma {
			t = spDCChroma
		}
		w.put(t[size].c, uint(t[size].n))
		if d < 0 {
			d += 1<<size - 1
		}
		w.put(uint64(d), size)
		n = 1
	}
	run := 0
	for i := n; i < 64; i++ {
		if c[i] == 0 {
			run++
			continue
		}
		nPutCoefficient(w, run, c[i], one, n == 0, vc.Rnd("escape", 20, append([]uint64{uint64(i)}, k...)...) == 0)
		n = i + 1
		run = 0
	}
	if one {
		w.put(6, 4)
	} else {
		w.put(2, 2)
	}
}

func nPutCoefficient(w *nBits, run int, level int32, one, first, escape bool) {
	t := spZero
	if one {
		t = spOne
	} else if first {
		t = spFirst
	}
	if !escape {
		for _, c := range t {
			if c.v == int64(run) && (c.w == int64(level) || c.w == -int64(level)) {
				w.put(c.c, uint(c.n))
				if level < 0 {
					w.put(1, 1)
				} else {
					w.put(0, 1)
				}
				return
			}
		}
	}
	w.put(1, 6)
	w.put(uint64(run), 6)
	w.put(uint64(level)&0xfff, 12)
}

// nBlock makes a block of coefficients.
func nBlock(k ...uint64) (c [64]int32) {
	den := []uint64{2, 5, 20, 70}[vc.Rnd("blk.density", 4, k...)]
	for i := range c {
		if vc.Rnd("blk.zero", den, append([]uint64{uint64(i)}, k...)...) == 0 {
			c[i] = int32(vc.Rnd("blk.level", 81, append([]uint64{uint64(i)}, k...)...)) - 40
			if vc.Rnd("blk.big", 8, append([]uint64{uint64(i)}, k...)...) == 0 {
				c[i] = int32(vc.Rnd("blk.level", 4096, append([]uint64{uint64(i)}, k...)...)) - 2048
			}
		}
	}
	return
}

//verif:harness prop=V05 native=only
//verif:search 20000
func hnBlock() {
	if !vc.Native() {
		return
	}
	w := &nBits{}
	intra, one := vc.Rnd("intra", 2) == 0, uint32(vc.Rnd("one", 2))
	var pred, want dcDctPredictors
	for i := range pred {
		pred[i] = int32(vc.Rnd("pred", 2048, uint64(i)))
	}
	want = pred
	type nb struct {
		c  [64]int32
		cc int
	}
	var bs []nb
	bad := vc.Rnd("bad", 6) == 0
	for i := uint64(0); i < 1+vc.Rnd("blocks", 4); i++ {
		b := nb{nBlock(i), int(vc.Rnd("cc", 3, i))}
		if intra {
			b.c[0] = want[b.cc] + int32(vc.Rnd("diff", 4095, i)) - 2047
			if vc.Rnd("small", 2, i) == 0 {
				b.c[0] = want[b.cc] + int32(vc.Rnd("diff", 9, i)) - 4
			}
		} else if b.c == [64]int32{} {
			b.c[vc.Rnd("at", 64, i)] = 3
		}
		nPutBlock(w, &b.c, intra, intra && one == 1, b.cc != 0, want[b.cc], i)
		if intra {
			want[b.cc] = b.c[0]
		}
		bs = append(bs, b)
	}
	if bad {
		// a block that runs past its end
		if intra {
			w.put(spDCLuma[0].c, uint(spDCLuma[0].n))
		}
		at := 0
		if intra {
			at = 1
		}
		for at <= 63 {
			run := int(vc.Rnd("bad.run", 20, uint64(at)))
			if vc.Rnd("bad.all", 2) == 0 {
				run = 63 - at + int(vc.Rnd("bad.more", 2))
			}
			if run > 63 {
				run = 63
			}
			nPutCoefficient(w, run, 5, intra && one == 1, at == 0 && !intra, true)
			at += run + 1
		}
		if at == 64 {
			nPutCoefficient(w, int(vc.Rnd("bad.last", 3)), 5, intra && one == 1, false, vc.Rnd("bad.escape", 2) == 0)
		}
	}
	w.put(0x5a5a5a5a, 32)
	w.put(0, 24)
	br := nReader(w.b, io.EOF)
	for _, b := range bs {
		var got block
		for k := range got {
			got[k] = 77
		}
		err := got.read(br, &pred, one, b.cc, intra)
		vc.Assert(err == nil, "a block is read")
		for k := range got {
			if got[k] != b.c[k] {
				vc.Assert(false, "every coefficient is at its position")
				break
			}
		}
	}
	vc.Assert(pred == want, "the predictors are those of the last blocks")
	if bad {
		var got block
		err := got.read(br, &pred, one, 0, intra)
		vc.Assert(err != nil, "a block whose runs go past its end is an error")
		return
	}
	for i := 0; i < 32; i++ {
		v, _ := br.Read1()
		vc.Assert(v == (0x5a5a5a5a>>uint(31-i)&1 == 1), "the stream is left after the end of block")
	}
}

// nPutVector writes the differential d of one component of a motion vector.
func nPutVector(w *nBits, d int, f_code uint32) {
	f := 1 << (f_code - 1)
	m := d
	if m < 0 {
		m = -m
	}
	code, residual := 0, 0
	if m > 0 {
		code = (m-1)/f + 1
		residual = (m - 1) % f
	}
	if d < 0 {
		code = -code
	}
	for _, c := range spMotionCodes {
		if int(c.v) == code {
			w.put(c.c, uint(c.n))
		}
	}
	if code != 0 {
		w.put(uint64(residual), uint(f_code-1))
	}
}

//verif:harness prop=V08 native=only
//verif:search 20000
func hnMotionVectors() {
	if !vc.Native() {
		return
	}
	e := &PictureCodingExtension{picture_structure: PictureStructure(1 + vc.Rnd("structure", 3))}
	frame := e.picture_structure == PictureStructure_FramePicture
	if frame {
		e.frame_pred_frame_dct = uint32(vc.Rnd("frame_pred", 2))
	}
	for k := 0; k < 4; k++ {
		e.f_code[k/2][k%2] = uint32(1 + vc.Rnd("f_code", 9, uint64(k)))
	}
	vs := &VideoSequence{}
	vs.PictureCodingExtension = e
	w := &nBits{}
	mvd := motionVectorData{}
	vc.Any("vectors", &mvd)
	var pmv, actual motionVectors
	for k := 0; k < 8; k++ {
		r, s, t := k/4, k/2%2, k%2
		f := 16 << (e.f_code[s][t] - 1)
		pmv[r][s][t] = int(vc.Rnd("pmv", uint64(2*f), uint64(k))) - f
		if frame && t == 1 && vc.Rnd("fieldpmv", 3) == 0 {
			pmv[r][s][t] *= 2
		}
		mvd.predictions[r][s][t] = pmv[r][s][t]
		actual[r][s][t] = mvd.actual[r][s][t]
	}
	if vc.Rnd("reset", 8) == 0 {
		mvd.reset()
		pmv, actual = motionVectors{}, motionVectors{}
	}
	type step struct {
		mb          Macroblock
		s           int
		n           int
		pmv, actual motionVectors
		end         uint
	}
	var steps []step
	for i := uint64(0); i < 1+vc.Rnd("macroblocks", 4); i++ {
		mt := &MacroblockType{macroblock_intra: vc.Rnd("intra", 4, i) == 0}
		st := step{mb: Macroblock{macroblock_type: mt}, s: int(vc.Rnd("s", 2, i))}
		// count and format
		n, field := 1, !frame
		if frame && e.frame_pred_frame_dct == 0 && !mt.macroblock_intra {
			st.mb.frame_motion_type = uint32(1 + vc.Rnd("motion type", 2, i))
			if st.mb.frame_motion_type == 1 {
				n, field = 2, true
			}
		} else if !frame && !mt.macroblock_intra {
			st.mb.field_motion_type = uint32(1 + vc.Rnd("motion type", 2, i))
			n = int(st.mb.field_motion_type)
		}
		st.n = n
		for r := 0; r < n; r++ {
			if field {
				w.put(vc.Rnd("select", 2, i, uint64(r)), 1)
			}
			for t := 0; t < 2; t++ {
				half := field && frame && t == 1
				m := 16 << (e.f_code[st.s][t] - 1)
				pred := pmv[r][st.s][t]
				if half {
					pred >>= 1
				}
				v := int(vc.Rnd("v", uint64(2*m), i, uint64(r), uint64(t))) - m
				if vc.Rnd("near", 3, i, uint64(r), uint64(t)) == 0 {
					v = pred + int(vc.Rnd("v", 5, i, uint64(r), uint64(t))) - 2
				}
				if v < -m {
					v = -m
				} else if v >= m {
					v = m - 1
				}
				if pred >= -m && pred < m {
					d := v - pred
					if d < -m || d == -m && vc.Rnd("wrap", 2, i) == 0 {
						d += 2 * m
					} else if d > m || d == m && vc.Rnd("wrap", 2, i) == 0 {
						d -= 2 * m
					}
					nPutVector(w, d, e.f_code[st.s][t])
				} else {
					// a prediction left by a field vector may be out of range
					d := 0
					v = pred
					if v < -m {
						v += 2 * m
					} else if v >= m {
						v -= 2 * m
					}
					nPutVector(w, d, e.f_code[st.s][t])
				}
				actual[r][st.s][t] = v
				pmv[r][st.s][t] = v
				if half {
					pmv[r][st.s][t] = 2 * v
				}
			}
		}
		if n == 1 {
			pmv[1][st.s] = pmv[0][st.s]
		}
		st.pmv, st.actual, st.end = pmv, actual, w.n
		steps = append(steps, st)
	}
	end := w.n
	w.put(0x5a5a5a5a5a5a, 48)
	b := w.b
	cut := vc.Rnd("cut", 4) == 0
	if cut {
		b = b[:end/8]
	}
	vs.BitReader = nReader(b, io.EOF)
	was := uint(0)
	for _, st := range steps {
		err := vs.motion_vectors(st.s, &st.mb, &mvd)
		if st.end > uint(len(b))*8 || err != nil && st.end+11 > uint(len(b))*8 {
			vc.Assert(err == io.EOF || err == io.ErrUnexpectedEOF, "only malformed or truncated vectors are an error")
			return
		}
		vc.Assert(err == nil, "vectors are decoded")
		for r := 0; r < st.n; r++ {
			vc.Assert(mvd.actual[r][st.s] == st.actual[r][st.s], "the vector is the prediction plus the differential, wrapped into the range of its f_code")
		}
		for r := 0; r < 2; r++ {
			vc.Assert(mvd.actual[r][1-st.s] == st.actual[r][1-st.s], "the vectors and predictions of the other direction stay")
		}
		vc.Assert(motionVectors(mvd.predictions) == st.pmv, "the vector becomes the next prediction, in the units of predictions")
		was = st.end
	}
	if !cut {
		v, err := vs.Read32(16)
		p := uint64(0)
		for i := uint(0); i < 16; i++ {
			p = p<<1 | uint64(b[(was+i)/8]>>(7-(was+i)%8)&1)
		}
		vc.Assert(err == nil && uint64(v) == p, "exactly the elements of the vectors are consumed")
	}
	mvd.reset()
	vc.Assert(mvd.predictions == motionVectorPredictions{} && mvd.actual == motionVectors{}, "resetting clears every prediction and vector")
}
