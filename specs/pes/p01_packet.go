package pes

import (
	"io"

	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/ts"
)

// spHasHeader: ISO 13818-1 table 2-17, stream ids whose packets carry the optional header.
func spHasHeader(id uint64) bool {
	return !(id == 0xbc || id == 0xbe || id == 0xbf || id == 0xf0 || id == 0xf1 || id == 0xf2 || id == 0xf8 || id == 0xff)
}

func spStamp(r *vc.Stream, at uint64) uint64 {
	return (vc.Bits(r, at+4, 3)<<30 | vc.Bits(r, at+8, 15)<<15 | vc.Bits(r, at+24, 15)) & 0xffffffff
}

func spStampMarked(r *vc.Stream, at uint64, marker uint64) bool {
	return vc.Bits(r, at, 4) == marker && vc.Bits(r, at+7, 1) == 1 && vc.Bits(r, at+23, 1) == 1 && vc.Bits(r, at+39, 1) == 1
}

var ghStuff uint64 // an arbitrary stuffing byte

//verif:loop for=readStuffingBytes n=1
func invStuffing(length uint32) {
	k := uint64(vc.Iter())
	vc.Inv(k <= uint64(length) && vc.Pos(ghReader) <= vc.Len(ghReader), "stuffing bytes are counted")
	vc.Inv(vc.Pos(ghReader) == ghBase+8*k, "one byte per stuffing byte")
	vc.Inv(ghStuff >= k || vc.Bits(ghReader, ghBase+8*ghStuff, 8) == 255, "every stuffing byte read is 0xff")
	vc.Dec(uint64(length) - k)
}

var ghReader *vc.Stream
var ghBase uint64

// hvPESNext: one packet from an arbitrary stream into an arbitrary packet object.
//
//verif:harness prop=P01
//verif:inv invStuffing
func hvPESNext() {
	if vc.Native() {
		return
	}
	r := vc.NewStream("s", 0)
	ghReader = r
	ghStuff = vc.U64("gi")
	p := new(Packet)
	vc.Any("old", p)
	p.Header = new(Header)
	vc.Any("oldh", p.Header)
	p.Payload = vc.ByteSlice("oldp", vc.IntRange("oldn", 0, 1<<20))

	prefix := vc.Len(r) >= 48 && vc.Bits(r, 0, 24) == 1
	id := vc.Bits(r, 24, 8)
	pl := vc.Bits(r, 32, 16)
	pd := vc.Bits(r, 56, 2)
	ext := vc.Bits(r, 63, 1) == 1
	hdl := vc.Bits(r, 64, 8)
	at := uint64(72)
	stamps := true
	pts, dts := uint64(0), uint64(0)
	if pd == 2 {
		pts = spStamp(r, at)
		stamps = spStampMarked(r, at, 2)
		at = 112
	} else if pd == 3 {
		pts, dts = spStamp(r, at), spStamp(r, at+40)
		stamps = spStampMarked(r, at, 3) && spStampMarked(r, at+40, 1)
		at = 152
	}
	priv, buf := false, false
	unsupported := vc.Bits(r, 58, 5) != 0
	var privAt, bufAt uint64
	extAt := at
	if ext {
		priv = vc.Bits(r, extAt, 1) == 1
		buf = vc.Bits(r, extAt+3, 1) == 1
		unsupported = unsupported || vc.Bits(r, extAt+1, 2) != 0 || vc.Bits(r, extAt+7, 1) == 1
		at += 8
		privAt = at
		if priv {
			at += 128
		}
		bufAt = at
		if buf {
			stamps = stamps && vc.Bits(r, bufAt, 2) == 1
			at += 16
		}
	}
	ghBase = at
	header := spHasHeader(id)
	if header && unsupported {
		vc.AllowPanics() // features the library declares unsupported
	}

	err := p.Next(r)
	vc.Cover("packet read")
	if !prefix {
		vc.Cover("no packet")
		vc.Assert(err != nil, "a missing or truncated start is an error")
		return
	}
	if !header {
		if vc.Len(r) < 48+8*pl {
			vc.Cover("truncated")
			vc.Assert(err != nil, "a truncated packet is an error")
			return
		}
		vc.Cover("packet without header")
		vc.Assert(err == nil, "a well-formed packet is accepted")
		vc.Assert(uint64(p.StreamID) == id && uint64(p.PacketLength) == pl, "stream id and packet length")
		vc.Assert(p.Header == nil, "no header of a previous packet")
		vc.Assert(vc.Pos(r) == 48+8*pl, "the packet is consumed whole")
		if id == 0xbe {
			vc.Cover("padding")
			vc.Assert(len(p.Payload) == 0, "padding is not reported as payload")
		} else {
			vc.Assert(uint64(len(p.Payload)) == pl, "payload length")
			vc.AssertAll("payload bytes", len(p.Payload), func(i int) bool { return uint64(p.Payload[i]) == vc.Bits(r, 48+8*uint64(i), 8) })
		}
		return
	}
	end := 72 + 8*hdl
	if pl > 0 && !unsupported {
		end = 48 + 8*pl
	}
	whole := vc.Len(r) >= end && vc.Len(r) >= 72+8*hdl
	good := whole && vc.Bits(r, 48, 2) == 2 && stamps && at <= 72+8*hdl && (pl == 0 || pl >= 3+hdl)
	if !good {
		vc.Cover("bad packet")
		vc.Assert(err != nil, "a truncated packet, a missing marker or inconsistent lengths are an error")
		return
	}
	if unsupported {
		return
	}
	body := 72 + 8*hdl
	if err != nil {
		vc.Cover("rejected")
		bad := vc.Pos(r) - 8
		stuffing := bad >= ghBase && bad < body && (bad-ghBase)&7 == 0 && vc.Bits(r, bad, 8) != 255
		source := pl == 0 && vc.EndErr(r) != io.EOF && vc.EndErr(r) != ts.EOP
		vc.Assert(stuffing || source, "only a bad stuffing byte or a failing source is an error")
		return
	}
	vc.Cover("good packet")
	vc.Assert(ghBase+8*ghStuff >= body || ghStuff > 255 || vc.Bits(r, ghBase+8*ghStuff, 8) == 255, "a bad stuffing byte is an error")
	vc.Assert(uint64(p.StreamID) == id && uint64(p.PacketLength) == pl, "stream id and packet length")
	h := p.Header
	vc.Assert(h != nil, "the header is reported")
	vc.Assert(uint64(h.ScramblingControl) == vc.Bits(r, 50, 2), "scrambling control")
	vc.Assert(h.Priority == (vc.Bits(r, 52, 1) == 1), "priority")
	vc.Assert(h.DataAlignmentIndicator == (vc.Bits(r, 53, 1) == 1), "data alignment indicator")
	vc.Assert(h.Copyright == (vc.Bits(r, 54, 1) == 1), "copyright")
	vc.Assert(h.OrignalOrCopy == (vc.Bits(r, 55, 1) == 1), "original or copy")
	vc.Assert(uint64(h.PtsDtsFlags) == pd, "PTS DTS flags")
	vc.Assert(!h.EscrFlag && !h.EsRateFlag && !h.DsmTrickModeFlag && !h.AdditionalCopyInfoFlag && !h.CrcFlag, "flags of unsupported features")
	vc.Assert(h.ExtensionFlag == ext, "extension flag")
	vc.Assert(uint64(h.HeaderDataLength) == hdl, "header data length")
	vc.Assert(uint64(h.PresentationTimeStamp) == pts, "PTS")
	vc.Assert(uint64(h.DecodingTimeStamp) == dts, "DTS")
	vc.Assert((h.Extension != nil) == ext, "extension present exactly when signalled")
	if ext {
		vc.Cover("extension")
		e := h.Extension
		vc.Assert(e.PrivateDataFlag == priv && e.P_STD_BufferFlag == buf && !e.PackHeaderFieldFlag && !e.ProgramPacketSequenceCounterFlag && !e.ExtensionFlag2, "extension flags")
		if priv {
			vc.Assert(len(e.PrivateData) == 16, "private data length")
			vc.AssertAll("private data", 16, func(i int) bool { return uint64(e.PrivateData[i]) == vc.Bits(r, privAt+8*uint64(i), 8) })
		} else {
			vc.Assert(len(e.PrivateData) == 0, "no private data unless signalled")
		}
		vc.Assert((e.P_STD_Buffer != nil) == buf, "P-STD buffer present exactly when signalled")
		if buf {
			vc.Assert(uint64(e.P_STD_Buffer.Scale) == vc.Bits(r, bufAt+2, 1) && uint64(e.P_STD_Buffer.Size) == vc.Bits(r, bufAt+3, 13), "P-STD buffer")
		}
	}
	n := uint64(0)
	if pl > 0 {
		n = pl - 3 - hdl
		vc.Assert(vc.Pos(r) == 48+8*pl, "the packet is consumed up to its end")
	} else {
		vc.Cover("unbounded packet")
		n = (vc.Len(r) - body) / 8
		vc.Assert(vc.Pos(r) == vc.Len(r), "an unbounded packet takes everything")
	}
	vc.Assert(uint64(len(p.Payload)) == n, "payload length")
	vc.AssertAll("payload bytes", int(n), func(i int) bool { return uint64(p.Payload[i]) == vc.Bits(r, body+8*uint64(i), 8) })
}

// hvPESNew: the constructor reads one packet as Next does.
//
//verif:harness prop=P01
//verif:inv invStuffing
func hvPESNew() {
	if vc.Native() {
		return
	}
	r := vc.NewStream("s", 0)
	ghReader = r
	vc.Assume(vc.Len(r) >= 72+8*20 && vc.Bits(r, 0, 24) == 1 && vc.Bits(r, 24, 8) == 0xe0 && vc.Bits(r, 32, 16) == 23)
	vc.Assume(vc.Bits(r, 48, 2) == 2 && vc.Bits(r, 56, 8) == 0 && vc.Bits(r, 64, 8) == 0)
	ghBase = 72
	p, err := NewPacket(r)
	vc.Cover("packet read")
	vc.Assert(err == nil && p != nil && p.StreamID == 0xe0 && len(p.Payload) == 20 && p.Header != nil && p.Header.Extension == nil, "NewPacket reads a packet")
	vc.AssertAll("payload bytes", 20, func(i int) bool { return uint64(p.Payload[i]) == vc.Bits(r, 72+8*uint64(i), 8) })
}
