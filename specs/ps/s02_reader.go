package ps

import (
	"bytes"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/pes"
)

// What callers know of the parsers, as functions of the bit position p they start from (the stream is fixed):
// psHdrErr/psHdrEnd: the outcome of reading a pack header at p; psPktErr/psPktEnd/psPktLen: that of reading a PES
// packet, whose payload has psPktLen(p) bytes. psSum(p): payload bytes of the packets before p on the way from the
// beginning; psOut(i): byte i of their concatenation.

func psHdrErr(p uint64) error  { return vc.UFErr("ps.hdrerr", p) }
func psHdrEnd(p uint64) uint64 { return vc.UF("ps.hdrend", p) }
func psPktErr(p uint64) error  { return vc.UFErr("ps.pkterr", p) }
func psPktEnd(p uint64) uint64 { return vc.UF("ps.pktend", p) }
func psPktLen(p uint64) int    { return vc.UFInt("ps.pktlen", p) }
func psPktID(p uint64) uint32  { return vc.UFU32("ps.pktid", p) }
func psSum(p uint64) int       { return vc.UFInt("ps.sum", p) }
func psOut(i int) byte         { return vc.UFU8("ps.out", uint64(i)) }

const psLimit = 1 << 50

var ghFail uint64 // where the failing parser call started
var ghErr error   // and its error
var ghStep uint64 // where the next step starts

// ctPackHeader is what callers know of NewPackHeader (S01).
//
//verif:contract for=NewPackHeader
func ctPackHeader(r bitreader.BitReader) (*PackHeader, error) {
	p := vc.Pos(r)
	if psHdrErr(p) != nil {
		ghFail, ghErr = p, psHdrErr(p)
		vc.SetPos(r, vc.UF("ps.hdrfail", p))
		return nil, psHdrErr(p)
	}
	vc.Assume(vc.Bits(r, p, 32) == uint64(PackStartCode))
	vc.Assume(psHdrEnd(p) >= p+112 && psHdrEnd(p) <= vc.Len(r))
	vc.Assume(psSum(psHdrEnd(p)) == psSum(p))
	vc.SetPos(r, psHdrEnd(p))
	ghStep = psHdrEnd(p)
	h := new(PackHeader)
	vc.Fresh("hdr", h)
	return h, nil
}

// ctNextPacket is what callers know of the PES parser (P01).
//
//verif:contract for=pes:(*Packet).Next
func ctNextPacket(pk *pes.Packet, r bitreader.BitReader) error {
	p := vc.Pos(r)
	vc.Fresh("pk", pk)
	if psPktErr(p) != nil {
		ghFail, ghErr = p, psPktErr(p)
		vc.SetPos(r, vc.UF("ps.pktfail", p))
		return psPktErr(p)
	}
	vc.Assume(vc.Bits(r, p, 24) == 1)
	vc.Assume(psPktEnd(p) >= p+48 && psPktEnd(p) <= vc.Len(r))
	n := psPktLen(p)
	vc.Assume(0 <= n && n <= 1<<40)
	vc.Assume(psSum(p) >= 0 && psSum(p) <= psLimit && psSum(psPktEnd(p)) == psSum(p)+n)
	vc.SetPos(r, psPktEnd(p))
	ghStep = psPktEnd(p)
	pk.StreamID = psPktID(p)
	pk.Payload = vc.ByteSlice("pk.payload", n)
	vc.SetSeq(pk.Payload, 0, n, func(i int) byte { return psOut(psSum(p) + i) })
	return nil
}

var ghS *vc.Stream
var ghDone int // bytes delivered by earlier calls
var ghP []byte // the caller's buffer
var ghFrom uint64

//verif:loop for=packreader.read n=1
func invRead(pr packreader, d []byte, n int) {
	p := vc.Pos(ghS)
	vc.Inv(ghErr == nil && ghStep == p, "parse errors are not swallowed")
	vc.Inv(p >= ghFrom && p <= vc.Len(ghS), "the stream is read forward")
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(d, ghP, n) && len(d) > 0, "the rest of the buffer is filled next")
	vc.Inv(psSum(p) >= 0 && psSum(p) <= psLimit+1<<40 && psSum(p) == ghDone+n, "nothing is lost")
	vc.InvSeq(ghP, n, func(i int) byte { return psOut(ghDone + i) }, "delivered bytes are the payload bytes in order")
	vc.InvBuf(pr.remainder, 0, func(i int) byte { return 0 }, "the remainder has been drained")
}

// hvPackRead: Read preserves the reader's invariant and delivers the next bytes, from any state it can be in.
//
//verif:harness prop=S02,R01
//verif:use ctPackHeader ctNextPacket
//verif:inv invRead
func hvPackRead() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s) && p&7 == 0)
	vc.SetPos(s, p)
	ghDone = vc.Int("done")
	vc.Assume(0 <= ghDone && ghDone <= psSum(p) && psSum(p) <= psLimit)
	b := new(bytes.Buffer)
	vc.SetBuf(b, psSum(p)-ghDone, func(i int) byte { return psOut(ghDone + i) })
	psCheck(&packreader{br: s, remainder: b}, s)
}

// hvPackPending: the error that ended the data delivered last is reported by the next call, and nothing else happens.
//
//verif:harness prop=S02,R01
func hvPackPending() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s) && p&7 == 0)
	vc.SetPos(s, p)
	b := new(bytes.Buffer)
	pErr := vc.Err("pending")
	vc.Assume(pErr != nil)
	r := &packreader{br: s, remainder: b, err: pErr}
	d := vc.ByteSlice("p", vc.IntRange("N", 0, 1<<40))
	n, err := r.Read(d)
	vc.Cover("pending error")
	vc.Assert(n == 0 && err == pErr, "the error that ended the data is reported by the next call")
	vc.Assert(r.err == nil && r.br == bitreader.BitReader(s) && vc.Pos(s) == p && vc.BufLen(r.remainder) == 0, "nothing else happens")
}

func psCheck(r *packreader, s *vc.Stream) {
	p := vc.Pos(s)
	ghS, ghFrom = s, p
	N := vc.IntRange("N", 0, 1<<40)
	ghP = vc.ByteSlice("p", N)
	ghErr, ghStep = nil, p
	n, err := r.Read(ghP)
	p2 := vc.Pos(s)
	vc.Cover("read")
	vc.Assert(n == 0 || err == nil, "no data is delivered along with an error")
	if r.err != nil {
		vc.Assert(n > 0 && err == nil, "only an error that follows data is kept")
		err = r.err // the next call reports it
	}
	vc.Assert(0 <= n && n <= N, "the count is within the buffer")
	vc.AssertAll("delivered bytes are the payload bytes in order", n, func(i int) bool { return ghP[i] == psOut(ghDone+i) })
	if err == nil {
		vc.Cover("data")
		vc.Assert(n > 0 || N == 0, "a successful read makes progress")
		vc.Assert(ghErr == nil, "parse errors are not swallowed")
		vc.Assert(p2 >= p && p2 <= vc.Len(s), "the stream is read forward")
		// the class invariant again
		vc.Assert(vc.BufLen(r.remainder) == psSum(p2)-ghDone-n, "the remainder holds what is not yet delivered (length)")
		vc.AssertAll("the remainder holds what is not yet delivered", psSum(p2)-ghDone-n, func(i int) bool { return vc.BufAt(r.remainder, i) == psOut(ghDone+n+i) })
		vc.Assert(r.br == bitreader.BitReader(s), "the stream stays the same")
		return
	}
	if ghErr != nil {
		vc.Cover("parse error")
		vc.Assert(err == ghErr && ghDone+n == psSum(ghFail), "a parse error is returned after every byte parsed before it")
		return
	}
	vc.Assert(ghDone+n == psSum(ghStep), "the end is reported after every byte parsed before it")
	if vc.Len(s) < ghStep+32 {
		vc.Cover("stream error")
		vc.Assert(err == vc.EndErr(s), "the stream's error is returned")
	} else {
		vc.Cover("program end")
		vc.Assert(vc.Bits(s, ghStep, 32) == uint64(ProgramEndCode) && err == io.EOF, "end of file is returned exactly at the program end code")
		vc.Assert(p2 == ghStep+32, "the program end code is consumed")
	}
}

// hvPackNew: a new reader is in a state of the invariant; the first Read works.
//
//verif:harness prop=S02,R01
//verif:use ctPackHeader ctNextPacket
//verif:inv invRead
func hvPackNew() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghDone = 0
	vc.Assume(psSum(0) == 0)
	r := NewPackReader(s)
	pr, ok := r.(*packreader)
	vc.Assert(ok && vc.BufLen(pr.remainder) == 0, "a new reader has delivered nothing")
	if ok {
		psCheck(pr, s)
	}
}
