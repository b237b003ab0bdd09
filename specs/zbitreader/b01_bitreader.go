package bitreader

import "github.com/32bitkid/mpeg/internal/vc"

// The bit reader that the decoders read from (a dependency), against the stream contract that every other proof uses: for
// an arbitrary source, which may deliver any number of bytes at a time, and an arbitrary state that the reader can be in.

var (
	ghS    *vc.Stream // the bits of the source, and the contract's reader of them
	ghK    uint64     // bytes taken from the source
	ghCall uint64     // calls of the source
	ghQ    uint64     // where the call starts
	ghN    uint64     // how many bits it is about
	ghK0   uint64     // bytes taken from the source before it
	ghR0   uint64     // bits in the buffer before it
	ghBulk bool       // the source is asked for the rest of a caller's buffer
)

// anySource delivers at least one byte until its end, where it reports its error.
type anySource struct{}

func (anySource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if ghK == vc.Len(ghS)/8 {
		return 0, vc.EndErr(ghS)
	}
	n := vc.UFInt("source.n", ghCall)
	ghCall++
	vc.Assume(n >= 1 && n <= len(p) && uint64(n) <= vc.Len(ghS)/8-ghK)
	k := ghK
	if ghBulk {
		vc.SetSeq(p, 0, n, func(i int) byte { return byte(vc.Bits(ghS, 8*k+8*uint64(i), 8)) })
	} else {
		for i := 0; i < 8; i++ {
			if i < n {
				p[i] = byte(vc.Bits(ghS, 8*k+8*uint64(i), 8))
			}
		}
	}
	ghK += uint64(n)
	return n, nil
}

// spRep: the buffer starts with the remaining bits that have been taken from the source, and zeros follow.
func spRep(br *bitreader) bool {
	return br.remaining <= 64 && ghK <= vc.Len(ghS)/8 && uint64(br.remaining) <= 8*ghK &&
		br.buffer == vc.Bits(ghS, 8*ghK-64, 64)<<(64-br.remaining)
}

func spPos(br *bitreader) uint64 { return 8*ghK - uint64(br.remaining) }

func anyReader() *bitreader {
	ghS = vc.NewStream("s", 0)
	br := &bitreader{r: anySource{}}
	br.buffer, br.remaining = vc.U64("buffer"), vc.Uint("remaining")
	vc.Any("raw", &br.raw)
	ghK = vc.U64("k")
	vc.Assume(spRep(br))
	ghQ, ghK0, ghR0 = spPos(br), ghK, uint64(br.remaining)
	vc.SetPos(ghS, ghQ)
	return br
}

// contract is the reader that the contract describes.
func contract() BitReader { return ghS }

func same(br *bitreader, val, want uint64, err, wantErr error) {
	vc.Assert(err == wantErr, "the error is the contract's")
	vc.Assert(val == want, "the value is the contract's")
	vc.Assert(spRep(br), "the buffer holds what the source delivered")
	vc.Assert(spPos(br) == vc.Pos(ghS), "the position is the contract's")
	if err == nil {
		vc.Cover("success")
	} else {
		vc.Cover("failure")
	}
}

//verif:loop for=(*bitreader).peek n=1
func invPeek(br *bitreader) {
	vc.Inv(spRep(br), "the buffer holds what the source delivered")
	vc.Inv(spPos(br) == ghQ, "nothing is consumed")
	vc.Inv(ghR0 < ghN || ghK == ghK0, "the source is only asked for bits that are missing")
	vc.Dec(uint64(64 - br.remaining))
}

//verif:loop for=(*bitreader).skip n=1
func invSkip(br *bitreader, n uint) {
	vc.Inv(spRep(br), "the buffer holds what the source delivered")
	vc.Inv(uint64(n) <= ghN && spPos(br) == ghQ+ghN-uint64(n), "bits are skipped once")
	vc.Inv(ghR0 < ghN || ghK == ghK0, "the source is only asked for bits that are missing")
	vc.Dec(uint64(n))
	vc.Dec(uint64(64 - br.remaining))
}

// hbPeek: peek takes what it needs from the source, and nothing else.
//
//verif:harness prop=R01
//verif:inv invPeek
func hbPeek() {
	if vc.Native() {
		return
	}
	br := anyReader()
	n := uint(vc.IntRange("n", 0, 64))
	vc.Assume(n <= 56 || br.remaining&7 == 0)
	ghN = uint64(n)
	val, err := br.peek(n)
	ok := ghQ+uint64(n) <= vc.Len(ghS)
	vc.Assert((err == nil) == ok, "bits are available up to the end of the stream")
	vc.Assert(ok || err == vc.EndErr(ghS), "truncation yields the stream's error")
	vc.Assert(spRep(br) && spPos(br) == ghQ, "nothing is consumed")
	vc.Assert(ghR0 < ghN || uint64(br.remaining) == ghR0 && ghK == ghK0, "the source is only asked for bits that are missing")
	if err != nil {
		vc.Assert(val == 0, "no value without its bits")
		vc.Cover("failure")
		return
	}
	vc.Cover("success")
	q := 8*ghK - uint64(vc.CaseInt(int(br.remaining), 0, 64))
	vc.Assert(q == ghQ, "the position is where the buffer starts")
	vc.Assert(val == vc.Bits(ghS, q, uint64(n)), "the next bits are returned")
}

// hbSkip: any number of bits is skipped.
//
//verif:harness prop=R01
//verif:inv invSkip
func hbSkip() {
	if vc.Native() {
		return
	}
	br := anyReader()
	n := vc.Uint("n")
	vc.Assume(n < 1<<40)
	ghN = uint64(n)
	err := br.Skip(n)
	vc.Assert(ghR0 < ghN || ghK == ghK0, "the source is only asked for bits that are missing")
	wantErr := contract().Skip(n)
	same(br, 0, 0, err, wantErr)
}

// The contracts of peek and skip, proved above.

func arbitrary(br *bitreader, pos uint64) {
	ghCall++
	br.buffer, br.remaining = vc.UF("contract.buffer", ghCall), uint(vc.UF("contract.remaining", ghCall))
	ghK = vc.UF("contract.k", ghCall)
	vc.Assume(spRep(br) && spPos(br) == pos)
}

//verif:contract for=(*bitreader).peek
func ctPeek(br *bitreader, n uint) (uint64, error) {
	vc.Assert(n <= 56 || n <= 64 && br.remaining&7 == 0, "bits fit the buffer")
	vc.Assert(spRep(br), "the buffer holds what the source delivered")
	q, r, k := spPos(br), br.remaining, ghK
	arbitrary(br, q)
	vc.Assume(r < n || br.remaining == r && ghK == k)
	if q+uint64(n) > vc.Len(ghS) {
		return 0, vc.EndErr(ghS)
	}
	vc.Assume(br.remaining >= n)
	return vc.Bits(ghS, q, uint64(n)), nil
}

//verif:contract for=(*bitreader).skip
func ctSkip(br *bitreader, n uint) error {
	vc.Assert(n < 1<<40, "the position does not overflow")
	vc.Assert(spRep(br), "the buffer holds what the source delivered")
	q, r := spPos(br), br.remaining
	if q+uint64(n) > vc.Len(ghS) {
		arbitrary(br, vc.Len(ghS))
		return checkEOF(vc.EndErr(ghS))
	}
	k := ghK
	arbitrary(br, q+uint64(n))
	vc.Assume(r < n || ghK == k)
	return nil
}

// hbReads: every way to read bits.
//
//verif:harness prop=R01
//verif:use ctPeek ctSkip
func hbReads() {
	if vc.Native() {
		return
	}
	br := anyReader()
	m := contract()
	var val, want uint64
	var err, wantErr error
	switch vc.CaseInt(vc.IntRange("method", 0, 12), 0, 12) {
	case 0:
		b, e := br.Read1()
		c, f := m.Read1()
		vc.Assert(b == c, "the value is the contract's")
		err, wantErr = e, f
	case 1:
		b, e := br.Peek1()
		c, f := m.Peek1()
		vc.Assert(b == c, "the value is the contract's")
		err, wantErr = e, f
	case 2:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 8), 0, 8))
		b, e := br.Read8(n)
		c, f := m.Read8(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 3:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 8), 0, 8))
		b, e := br.Peek8(n)
		c, f := m.Peek8(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 4:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 16), 0, 16))
		b, e := br.Read16(n)
		c, f := m.Read16(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 5:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 16), 0, 16))
		b, e := br.Peek16(n)
		c, f := m.Peek16(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 6:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 32), 0, 32))
		b, e := br.Read32(n)
		c, f := m.Read32(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 7:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 32), 0, 32))
		b, e := br.Peek32(n)
		c, f := m.Peek32(n)
		val, want, err, wantErr = uint64(b), uint64(c), e, f
	case 8:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 56), 0, 56))
		b, e := br.Read64(n)
		c, f := m.Read64(n)
		val, want, err, wantErr = b, c, e, f
	case 9:
		n := uint(vc.CaseInt(vc.IntRange("n", 0, 56), 0, 56))
		b, e := br.Peek64(n)
		c, f := m.Peek64(n)
		val, want, err, wantErr = b, c, e, f
	case 10:
		n, e := br.Align()
		k, f := m.Align()
		val, want, err, wantErr = uint64(n), uint64(k), e, f
	case 11:
		vc.Assert(br.IsAligned() == m.IsAligned(), "the alignment is the contract's")
	case 12:
		n := vc.Uint("skip")
		vc.Assume(n < 1<<40)
		err, wantErr = br.Skip(n), m.Skip(n)
	}
	same(br, val, want, err, wantErr)
}

//verif:loop for=(*bitreader).Read n=1
func invBuffered(br *bitreader, p []byte, count int) {
	i := vc.Iter()
	vc.Inv(i >= 0 && i <= count && spRep(br) && ghK == ghK0, "the buffer is emptied first")
	vc.Inv(spPos(br) == ghQ+8*uint64(i), "bytes are taken once")
	vc.InvSeq(p, i, func(j int) byte { return byte(vc.Bits(ghS, ghQ+8*uint64(j), 8)) }, "the bytes of the buffer are returned")
	vc.Dec(uint64(count - i))
}

// hbRead: bytes are read from the next byte boundary; a reader that asks until its buffer is full (io.ReadFull) gets
// the bytes of the stream, or those up to its end and the stream's error.
//
//verif:harness prop=R01
//verif:use ctPeek ctSkip
//verif:inv invBuffered
func hbRead() {
	if vc.Native() {
		return
	}
	ghBulk = true
	br := anyReader()
	p := vc.ByteSlice("p", vc.IntRange("len", 0, 1<<30))
	q := (ghQ + 7) &^ 7
	ghQ = q
	n, err := br.Read(p)
	vc.Assert(n >= 0 && n <= len(p), "the buffer is filled at most")
	vc.Assert(err == nil || err == vc.EndErr(ghS) && spPos(br) == vc.Len(ghS), "truncation yields the stream's error")
	vc.Assert(err != nil || n > 0 || len(p) == 0, "every call makes progress")
	vc.Assert(spRep(br), "the buffer holds what the source delivered")
	vc.Assert(spPos(br) == q+8*uint64(n), "as many bytes as are returned are consumed")
	j := vc.IntRange("j", 0, 1<<30)
	vc.Assume(j < n)
	vc.Assert(uint64(p[j]) == vc.Bits(ghS, q+8*uint64(j), 8), "the bytes of the stream are returned")
	vc.Cover("read")
}
