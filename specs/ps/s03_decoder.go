package ps

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/pes"
)

// ---- one pack: readPack and the goroutine it starts

func spHdrSCR(p uint64) uint32 { return vc.UFU32("ps.hdrscr", p) }

var ghHdr *PackHeader

// ctDecHeader is what readPack knows of NewPackHeader (S01).
//
//verif:contract for=NewPackHeader
func ctDecHeader(r bitreader.BitReader) (*PackHeader, error) {
	p := vc.Pos(r)
	if psHdrErr(p) != nil {
		return nil, psHdrErr(p)
	}
	vc.Assume(psHdrEnd(p) >= p+112 && psHdrEnd(p) <= vc.Len(r))
	vc.SetPos(r, psHdrEnd(p))
	h := new(PackHeader)
	vc.Fresh("hdr", h)
	ghHdr = h
	return h, nil
}

var ghPkt *pes.Packet // parsed and not sent yet
var ghPktAt uint64    // where it was parsed
var ghHave bool
var ghPktErr bool

// ctDecPacket is what the goroutine of readPack knows of the PES parser (P01).
//
//verif:contract for=pes:(*Packet).Next
func ctDecPacket(pk *pes.Packet, r bitreader.BitReader) error {
	p := vc.Pos(r)
	vc.Assert(!ghHave, "every packet is delivered before the next is parsed")
	vc.Fresh("pk", pk)
	if psPktErr(p) != nil {
		ghPktErr, ghStep = true, p
		vc.SetPos(r, vc.UF("ps.pktfail", p))
		return psPktErr(p)
	}
	vc.Assume(psPktEnd(p) >= p+48 && psPktEnd(p) <= vc.Len(r))
	n := psPktLen(p)
	vc.Assume(0 <= n && n <= 1<<40)
	vc.SetPos(r, psPktEnd(p))
	pk.StreamID = psPktID(p)
	pk.Payload = vc.ByteSlice("pk.payload", n)
	vc.SetSeq(pk.Payload, 0, n, func(i int) byte { return vc.UFU8("ps.pktbyte", p, uint64(i)) })
	vc.Freeze(pk)
	ghPkt, ghPktAt, ghHave, ghStep = pk, p, true, psPktEnd(p)
	return nil
}

//verif:loop for=readPack$1 n=1
func invReadPack() {
	vc.Inv(!ghHave && !ghPktErr && ghStep == vc.Pos(ghS), "every parsed packet has been delivered")
	vc.Inv(vc.Pos(ghS) >= ghFrom && vc.Pos(ghS) <= vc.Len(ghS), "the stream is read forward")
}

// hvReadPack: readPack returns the header; its goroutine delivers exactly the packets up to the next pack start,
// program end code or error, closes the pack's channel and only then reports completion.
//
//verif:harness prop=S03
//verif:use ctDecHeader ctDecPacket
//verif:inv invReadPack
func hvReadPack() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s) && p&7 == 0)
	vc.SetPos(s, p)
	ghS, ghFrom, ghHave, ghPktErr, ghStep = s, p, false, false, psHdrEnd(p)
	pack, complete, err := readPack(s)
	if err != nil {
		vc.Cover("header error")
		vc.Assert(err == psHdrErr(p), "the error of the header is returned")
		return
	}
	vc.Cover("pack")
	vc.Assert(psHdrErr(p) == nil && pack != nil && complete != nil && pack.PackHeader == ghHdr, "a pack has the header parsed from the stream")
	if pack == nil || complete == nil {
		return
	}
	vc.Assert(vc.Pos(s) == psHdrEnd(p), "nothing but the header is consumed before the pack is delivered")
	ps := pack.Packets()
	done := false
	vc.OnSend(ps, func(pk *pes.Packet) {
		vc.Cover("packet sent")
		at := ghPktAt
		vc.Assert(ghHave && pk == ghPkt && !done, "each packet is sent once, in order")
		if pk == nil {
			return
		}
		// packets end at the next pack start or program end code
		vc.Assert(vc.Bits(ghS, at, 24) == 1, "a packet starts with a start code")
		c := vc.Bits(ghS, at, 32)
		vc.Assert(c != uint64(PackStartCode) && c != uint64(ProgramEndCode), "the packets of a pack end at the next pack or the end of the program")
		vc.Assert(pk.StreamID == psPktID(at) && len(pk.Payload) == psPktLen(at), "packets are sent unaltered")
		vc.AssertAll("payloads are sent unaltered", len(pk.Payload), func(i int) bool { return pk.Payload[i] == vc.UFU8("ps.pktbyte", at, uint64(i)) })
		ghHave = false
	})
	vc.OnSend(complete, func(b bool) {
		vc.Cover("complete")
		vc.Assert(b && !done, "completion is reported once")
		vc.Assert(vc.IsClosed(ps), "the channel of a pack is closed before the pack is complete")
		done = true
	})
	vc.RunSpawned()
	vc.Assert(done && vc.IsClosed(complete), "completion is reported")
	vc.Assert(!ghHave, "every parsed packet is delivered")
	if ghPktErr {
		vc.Cover("packet error")
		return
	}
	at := vc.Pos(s)
	vc.Assert(at == ghStep, "nothing is consumed after the last packet")
	if at+24 > vc.Len(s) {
		vc.Cover("stream error")
		return
	}
	if vc.Bits(s, at, 24) != 1 {
		vc.Cover("no start code")
		return
	}
	if at+32 > vc.Len(s) {
		vc.Cover("stream error in start code")
		return
	}
	c := vc.Bits(s, at, 32)
	vc.Cover("end of the pack")
	vc.Assert(c == uint64(PackStartCode) || c == uint64(ProgramEndCode), "every packet of the pack is delivered")
}

// ---- the packs: decoder.Go over the contract of readPack

// psPackAt(k): where pack k starts. psPackEnd(p): where the goroutine of the pack at p leaves the stream.
func psPackAt(k uint64) uint64  { return vc.UF("ps.packat", k) }
func psPackEnd(p uint64) uint64 { return vc.UF("ps.packend", p) }
func psPackErr(p uint64) error  { return vc.UFErr("ps.packerr", p) }

var ghPacks uint64    // packs sent
var ghRead uint64     // packs read
var ghPending bool    // the goroutine of the last pack is running
var ghPack *Pack      // the last pack read
var ghPackFailed bool // reading it failed

// ctReadPack is what the decoder knows of readPack (hvReadPack).
//
//verif:contract for=readPack
func ctReadPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
	p := vc.Pos(r)
	vc.Assert(!ghPending && ghRead == ghPacks, "a pack is read after the one before is complete and delivered")
	vc.Assert(p == psPackAt(ghRead), "packs are read where the one before ends")
	if psPackErr(p) != nil {
		ghPackFailed = true
		return nil, nil, psPackErr(p)
	}
	vc.Assume(ghRead < 1<<62)
	vc.Assume(psPackEnd(p) >= p && psPackEnd(p) <= vc.Len(r) && psPackAt(ghRead+1) == psPackEnd(p))
	// from here on the goroutine moves the stream
	vc.SetPos(r, vc.U64("ps.running"))
	vc.Assume(vc.Pos(r) <= vc.Len(r))
	ghRead++
	ghPending = true
	h := new(PackHeader)
	vc.Fresh("hdr", h)
	pack := &Pack{PackHeader: h, packs: make(chan *pes.Packet)}
	ghPack = pack
	c := make(chan bool)
	vc.OnRecv(c, func() (bool, bool) {
		vc.Assert(ghRead == ghPacks, "a pack is delivered before its completion is awaited")
		if ghPending {
			vc.SetPos(ghS, psPackAt(ghRead))
		}
		was := ghPending
		ghPending = false
		return was, was
	})
	return pack, c, nil
}

var ghD *decoder

//verif:loop for=(*decoder).Go$1 n=1
func invGo() {
	p := vc.Pos(ghS)
	vc.Inv(!ghPending && !ghPackFailed && ghRead == ghPacks && ghPacks < 1<<62+1, "every pack read has been delivered and is complete")
	vc.Inv(p == psPackAt(ghRead) && p <= vc.Len(ghS), "the stream is where the next pack starts")
	vc.Inv(ghD.err == nil && ghD.r == bitreader.BitReader(ghS), "no error has been recorded")
}

//verif:harness prop=S03
//verif:use ctReadPack
//verif:inv invGo
func hvDecoder() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghS = s
	d, ok := NewDecoder(s).(*decoder)
	vc.Assert(ok && d.err == nil, "a new decoder has no error")
	if !ok {
		return
	}
	vc.Assume(psPackAt(0) == 0)
	ghD = d
	ghPacks, ghRead, ghPending, ghPackFailed = 0, 0, false, false
	packs := d.Packs()
	closed := false
	vc.OnSend(packs, func(p *Pack) {
		vc.Cover("pack sent")
		vc.Assert(p == ghPack && p != nil && ghRead == ghPacks+1 && !closed, "each pack is sent once, in order")
		ghPacks++
	})
	vc.OnClose(packs, func() { closed = true })
	done := d.Go()
	results := 0
	result := false
	vc.OnSend(done, func(b bool) {
		vc.Assert(closed, "the pack channel is closed before the result is sent")
		results++
		result = b
	})
	vc.RunSpawned()
	vc.Assert(results == 1 && vc.IsClosed(done) && vc.IsClosed(packs), "the result is sent once and the channels are closed")
	vc.Assert(!ghPending && ghRead == ghPacks, "every pack is delivered and complete")
	err := d.Err()
	vc.Assert(result == (err == nil), "success is reported exactly without an error")
	p := psPackAt(ghPacks)
	if ghPackFailed {
		vc.Cover("header error")
		vc.Assert(err == psPackErr(p), "the error of a pack header is recorded")
		return
	}
	vc.Assert(vc.Pos(s) == p, "the stream is left at the end of the last pack")
	if p+32 > vc.Len(s) {
		vc.Cover("stream error")
		vc.Assert(err == vc.EndErr(s), "the error of the stream is recorded")
		return
	}
	c := vc.Bits(s, p, 32)
	vc.Assert(c != uint64(PackStartCode), "every pack is read")
	if c == uint64(ProgramEndCode) {
		vc.Cover("success")
		vc.Assert(err == nil, "the end of the program is success")
	} else {
		vc.Cover("no program end")
		vc.Assert(err == ErrProgramEndCodeNotFound, "a missing program end code is an error")
	}
}
