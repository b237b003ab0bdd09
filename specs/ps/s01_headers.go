package ps

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

var ghReader *vc.Stream
var ghSys uint64 // bit position of the system header's start code

// invStreams: the entries read so far are those in the stream.
//
//verif:loop for=readSystemHeader n=1
func invStreams(systemHeader SystemHeader) {
	r, base := ghReader, ghSys+96
	n := len(systemHeader.Streams)
	vc.Inv(n >= 0 && n < 1<<40, "entries are counted")
	vc.Inv(vc.Pos(r) == base+24*uint64(n) && vc.Pos(r) <= vc.Len(r), "one entry per three bytes")
	vc.InvElems(systemHeader.Streams, n, func(i int, e *SystemHeaderStream) bool {
		return spEntry(r, base+24*uint64(i), e)
	}, "each entry has the values at its position")
}

// spEntry: e is the stream entry at bit position at.
func spEntry(r bitreader.BitReader, at uint64, e *SystemHeaderStream) bool {
	return vc.Bits(r, at, 1) == 1 && vc.Bits(r, at+8, 2) == 3 && uint64(e.StreamID) == vc.Bits(r, at, 8) &&
		e.P_STD_BufferBoundScale == (vc.Bits(r, at+10, 1) == 1) && uint64(e.P_STD_BufferSizeBound) == vc.Bits(r, at+11, 13)
}

// hvPackHeader: NewPackHeader on an arbitrary stream.
//
//verif:harness prop=S01
//verif:inv invStreams
func hvPackHeader() {
	if vc.Native() {
		return
	}
	r := vc.NewStream("s", 0)
	ghReader = r
	stuffing := vc.Bits(r, 109, 3)
	q := 112 + 8*stuffing
	ghSys = q
	marked := vc.Bits(r, 32, 2) == 1 && vc.Bits(r, 37, 1) == 1 && vc.Bits(r, 53, 1) == 1 && vc.Bits(r, 69, 1) == 1 && vc.Bits(r, 79, 1) == 1 && vc.Bits(r, 102, 2) == 3
	h, err := NewPackHeader(r)
	vc.Cover("header read")
	if vc.Len(r) < q+32 || vc.Bits(r, 0, 32) != 0x1ba || !marked {
		vc.Cover("no pack header")
		vc.Assert(err != nil, "a missing start code or marker or truncation is an error")
		return
	}
	if vc.Bits(r, q, 32) != 0x1bb {
		vc.Cover("without system header")
		vc.Assert(err == nil, "a well-formed pack header is accepted")
		packIs(r, h)
		vc.Assert(h.SystemHeader == nil, "no system header unless one follows")
		vc.Assert(vc.Pos(r) == q, "the header and its stuffing are consumed, nothing else")
		return
	}
	if vc.Len(r) < q+97 || vc.Bits(r, q+48, 1) != 1 || vc.Bits(r, q+71, 1) != 1 || vc.Bits(r, q+82, 1) != 1 {
		vc.Cover("no system header")
		vc.Assert(err != nil, "a missing marker or truncation is an error")
		return
	}
	p := vc.Pos(r)
	if err != nil {
		vc.Cover("bad entry")
		vc.Assert(p >= q+96, "the fixed part of a well-formed system header is accepted")
		marker := vc.Bits(r, p-2, 2) != 3
		vc.Assert(marker || vc.Len(r) < p+24, "only a missing marker or truncation is an error")
		return
	}
	vc.Cover("with system header")
	packIs(r, h)
	s := h.SystemHeader
	vc.Assert(s != nil, "the system header is reported")
	vc.Assert(uint64(s.HeaderLength) == vc.Bits(r, q+32, 16), "header length")
	vc.Assert(uint64(s.RateBound) == vc.Bits(r, q+49, 22), "rate bound")
	vc.Assert(uint64(s.AudioBound) == vc.Bits(r, q+72, 6), "audio bound")
	vc.Assert(s.Fixed == (vc.Bits(r, q+78, 1) == 1), "fixed flag")
	vc.Assert(s.CSPS == (vc.Bits(r, q+79, 1) == 1), "CSPS flag")
	vc.Assert(s.SystemAudioLock == (vc.Bits(r, q+80, 1) == 1), "system audio lock flag")
	vc.Assert(s.SystemVideoLock == (vc.Bits(r, q+81, 1) == 1), "system video lock flag")
	vc.Assert(uint64(s.VideoBound) == vc.Bits(r, q+83, 5), "video bound")
	vc.Assert(s.PacketRateRestriction == (vc.Bits(r, q+88, 1) == 1), "packet rate restriction flag")
	n := len(s.Streams)
	vc.Assert(p == q+96+24*uint64(n) && p < vc.Len(r) && vc.Bits(r, p, 1) == 0, "entries are read up to the first that does not begin with a one")
	vc.AssertAll("each entry has the values at its position, in order", n, func(i int) bool {
		return spEntry(r, q+96+24*uint64(i), s.Streams[i])
	})
}

func packIs(r *vc.Stream, h *PackHeader) {
	vc.Assert(h != nil, "the header is returned")
	scr := vc.Bits(r, 34, 3)<<30 | vc.Bits(r, 38, 15)<<15 | vc.Bits(r, 54, 15)
	vc.Assert(uint64(h.SystemClockReferenceBase) == scr&0xffffffff, "system clock reference base")
	vc.Assert(uint64(h.SystemClockReferenceExtension) == vc.Bits(r, 70, 9), "system clock reference extension")
	vc.Assert(uint64(h.ProgramMuxRate) == vc.Bits(r, 80, 22), "program mux rate")
}
