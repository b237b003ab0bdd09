package ts

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// ctAdaptationField is the contract of newAdaptationField for its callers (hvAdaptation* prove it).
//
//verif:contract for=newAdaptationField
func ctAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error) {
	p := vc.Pos(br) - 32
	L := spByte(br, p, 4)
	if vc.Len(br) < p+40+8*L || !fieldWellFormed(br, p) {
		vc.SetPos(br, vc.Len(br))
		return nil, 0, vc.ErrNew("adaptation field")
	}
	vc.SetPos(br, p+40+8*L)
	af := new(AdaptationField)
	vc.Fresh("af", af)
	return af, uint32(L), nil
}

func spFlag(r bitreader.BitReader, at uint64) bool { return vc.Bits(r, at, 1) == 1 }

func spPCR(r bitreader.BitReader, at uint64) uint64 {
	return vc.Bits(r, at, 33)*300 + vc.Bits(r, at+39, 9)
}

// spExt is the adaptation field extension whose length byte is at bit position at.
func spExt(r bitreader.BitReader, at uint64) AdaptationExt {
	var x AdaptationExt
	rem := vc.Bits(r, at, 8)
	x.length = uint32(rem)
	end := at + 8 + 8*rem
	e := at + 16
	if rem >= 1 {
		x.LegalTimeWindowFlag = spFlag(r, at+8)
		x.PiecewiseRateFlag = spFlag(r, at+9)
		x.SeamlessSpliceFlag = spFlag(r, at+10)
	}
	if x.LegalTimeWindowFlag && e+16 <= end {
		x.LTWValidFlag = spFlag(r, e)
		x.LTWOffset = uint16(vc.Bits(r, e+1, 15))
		e += 16
	}
	if x.PiecewiseRateFlag && e+24 <= end {
		x.PiecewiseRate = uint32(vc.Bits(r, e+2, 22))
		e += 24
	}
	if x.SeamlessSpliceFlag && e+40 <= end {
		x.SpliceType = uint8(vc.Bits(r, e, 4))
		x.DTSNextAU = vc.Bits(r, e+4, 3)<<30 | vc.Bits(r, e+8, 15)<<15 | vc.Bits(r, e+24, 15)
	}
	return x
}

func sameExt(x *AdaptationExt, w AdaptationExt) {
	vc.Assert(x.length == w.length, "extension length")
	vc.Assert(x.LegalTimeWindowFlag == w.LegalTimeWindowFlag && x.PiecewiseRateFlag == w.PiecewiseRateFlag && x.SeamlessSpliceFlag == w.SeamlessSpliceFlag, "extension flags")
	vc.Assert(x.LTWValidFlag == w.LTWValidFlag && x.LTWOffset == w.LTWOffset, "legal time window")
	vc.Assert(x.PiecewiseRate == w.PiecewiseRate, "piecewise rate")
	vc.Assert(x.SpliceType == w.SpliceType, "splice type")
	vc.Assert(x.DTSNextAU == w.DTSNextAU, "DTS of the next access unit")
}

// ctAdaptationExt is the contract of newAdaptationExt (proved by hvAdaptationExtFields).
//
//verif:contract for=newAdaptationExt
func ctAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
	at := vc.Pos(br)
	if vc.Len(br) < at+8 || vc.Len(br) < at+8+8*vc.Bits(br, at, 8) {
		vc.SetPos(br, vc.Len(br))
		return nil, 0, vc.ErrNew("extension")
	}
	x := new(AdaptationExt)
	*x = spExt(br, at)
	vc.SetPos(br, at+8+8*uint64(x.length))
	return x, x.length, nil
}

//verif:harness prop=T02
func hvAdaptationExtFields() {
	r := vc.NewStream("s", 0)
	x, n, err := newAdaptationExt(r)
	vc.Cover("extension read")
	if vc.Len(r) < 8 || vc.Len(r) < 8+8*vc.Bits(r, 0, 8) {
		vc.Assert(err != nil, "a truncated extension is an error")
		return
	}
	vc.Cover("good extension")
	vc.Assert(err == nil && x != nil, "a whole extension is accepted")
	if err != nil || x == nil {
		return
	}
	sameExt(x, spExt(r, 0))
	vc.Assert(uint64(n) == vc.Bits(r, 0, 8), "the length is reported")
	vc.Assert(vc.Pos(r) == 8+8*uint64(n), "exactly the extension is consumed")
}

// ctPrivateData is the contract of newTransportPrivateData (proved by hvPrivateData).
//
//verif:contract for=newTransportPrivateData
func ctPrivateData(br bitreader.BitReader) (*TransportPrivateData, uint32, error) {
	at := vc.Pos(br)
	n := vc.Bits(br, at, 8)
	if vc.Len(br) < at+8 || vc.Len(br) < at+8+8*n {
		vc.SetPos(br, vc.Len(br))
		return nil, 0, vc.ErrNew("private data")
	}
	t := new(TransportPrivateData)
	t.length = uint32(n)
	t.data = make([]byte, int(n))
	vc.SetSeq(t.data, 0, int(n), func(i int) byte { return byte(vc.Bits(br, at+8+8*uint64(i), 8)) })
	vc.SetPos(br, at+8+8*n)
	return t, t.length, nil
}

//verif:harness prop=T02
func hvPrivateData() {
	r := vc.NewStream("s", 0)
	t, n, err := newTransportPrivateData(r)
	vc.Cover("private data read")
	k := vc.Bits(r, 0, 8)
	if vc.Len(r) < 8 || vc.Len(r) < 8+8*k {
		vc.Assert(err != nil, "truncated private data is an error")
		return
	}
	vc.Cover("good private data")
	vc.Assert(err == nil && t != nil, "whole private data is accepted")
	if err != nil || t == nil {
		return
	}
	vc.Assert(uint64(n) == k && uint64(t.length) == k && uint64(len(t.data)) == k, "private data length")
	vc.AssertAll("private data bytes", int(k), func(i int) bool { return uint64(t.data[i]) == vc.Bits(r, 8+8*uint64(i), 8) })
	vc.Assert(vc.Pos(r) == 8+8*k, "exactly the private data is consumed")
}

func adaptation(priv, ext bool) {
	if vc.Native() {
		vc.SetGen("s", genPackets("s", 1))
	}
	r := vc.NewStream("s", 0)
	vc.Assume(vc.Len(r) >= 32)
	vc.SetPos(r, 32)
	q := uint64(32) // position of the length byte
	p := q - 32
	L := spByte(r, p, 4)
	at := q + 16
	end := q + 8 + 8*L
	flagged := func(i uint64) bool { return L >= 1 && vc.Bits(r, q+8+i, 1) == 1 }
	vc.Assume(flagged(6) == priv && flagged(7) == ext)
	af, n, err := newAdaptationField(r)
	vc.Cover("field read")
	if vc.Len(r) < end || !spFieldWellFormed(r, p) {
		vc.Assert(err != nil, "a truncated or malformed field is an error")
		return
	}
	vc.Assert(L <= 183, "a well-formed field fits in the packet")
	vc.Assert(err == nil, "a well-formed field is accepted")
	if err != nil {
		return
	}
	vc.Cover("good field")
	vc.Assert(uint64(n) == L, "the length is reported")
	vc.Assert(vc.Pos(r) == end, "exactly the field is consumed")
	vc.Assert(af.DiscontinuityIndicator == flagged(0), "discontinuity indicator")
	vc.Assert(af.RandomAccessIndicator == flagged(1), "random access indicator")
	vc.Assert(af.ElementaryStreamPriorityIndicator == flagged(2), "elementary stream priority indicator")
	vc.Assert(af.PCRFlag == flagged(3), "PCR flag")
	vc.Assert(af.OPCRFlag == flagged(4), "OPCR flag")
	vc.Assert(af.SplicingPointFlag == flagged(5), "splicing point flag")
	vc.Assert(af.TransportPrivateDataFlag == priv, "private data flag")
	vc.Assert(af.AdaptationFieldExtensionFlag == ext, "extension flag")
	if flagged(3) && at+48 <= end {
		vc.Assert(af.PCR == spPCR(r, at), "PCR")
		at += 48
	} else {
		vc.Assert(af.PCR == 0, "no PCR")
	}
	if flagged(4) && at+48 <= end {
		vc.Assert(af.OPCR == spPCR(r, at), "OPCR")
		at += 48
	} else {
		vc.Assert(af.OPCR == 0, "no OPCR")
	}
	if flagged(5) && at+8 <= end {
		vc.Assert(uint64(af.SpliceCountdown) == vc.Bits(r, at, 8), "splice countdown")
		at += 8
	} else {
		vc.Assert(af.SpliceCountdown == 0, "no splice countdown")
	}
	if priv && at+8 <= end {
		vc.Cover("private data")
		k := vc.Bits(r, at, 8)
		t := af.TransportPrivateData
		vc.Assert(t != nil, "private data present")
		if t != nil {
			vc.Assert(uint64(t.length) == k && uint64(len(t.data)) == k, "private data length")
			vc.AssertAll("private data bytes", len(t.data), func(i int) bool { return uint64(t.data[i]) == vc.Bits(r, at+8+8*uint64(i), 8) })
		}
		at += 8 + 8*k
	} else {
		vc.Assert(af.TransportPrivateData == nil, "no private data")
	}
	if ext && at+16 <= end {
		vc.Cover("extension")
		x := af.AdapatationExtension
		vc.Assert(x != nil, "extension present")
		if x == nil {
			return
		}
		sameExt(x, spExt(r, at))
	} else {
		vc.Assert(af.AdapatationExtension == nil, "no extension")
	}
}

//verif:harness prop=T02,T01
//verif:use ctAdaptationExt ctPrivateData
func hvAdaptationPlain() { adaptation(false, false) }

//verif:harness prop=T02,T01
//verif:use ctAdaptationExt ctPrivateData
func hvAdaptationPrivate() { adaptation(true, false) }

//verif:harness prop=T02,T01
//verif:use ctAdaptationExt ctPrivateData
func hvAdaptationExt() { adaptation(false, true) }

//verif:harness prop=T02,T01
//verif:use ctAdaptationExt ctPrivateData
func hvAdaptationBoth() { adaptation(true, true) }
