package video

import (
	"image"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// anyStore is an arbitrary frame store.
func anyStore() (fs frameStore) {
	for i := range fs.frames {
		r := &fs.frames[i]
		if vc.Case(vc.UFBool("held", uint64(i))) {
			r.frame = &image.YCbCr{YStride: i + 1}
		}
		r.temporal_reference = vc.UFU32("temporal", uint64(i))
		r.previous_gop = vc.UFBool("earlier", uint64(i))
	}
	fs.past, fs.future = &image.YCbCr{YStride: 3}, &image.YCbCr{YStride: 4}
	return
}

func precedes(r referenceFrame, t uint32) bool {
	return r.frame != nil && (r.previous_gop || r.temporal_reference < t)
}

// hvStoreSet: the reference frames of a picture.
//
//verif:harness prop=V12
func hvStoreSet() {
	fs := anyStore()
	old, t := fs, vc.U32("t")
	fs.set(t)
	vc.Cover("set")
	vc.Assert(fs.frames == old.frames, "the frames held stay")
	a, b := fs.frames[0], fs.frames[1]
	past := old.past
	if precedes(b, t) {
		past = b.frame
	} else if precedes(a, t) {
		past = a.frame
	}
	vc.Assert(fs.past == past, "the past reference is the latest frame held that precedes the picture")
	future := old.future
	if b.frame != nil && !precedes(b, t) {
		future = b.frame
	} else if a.frame != nil && !precedes(a, t) {
		future = a.frame
	}
	vc.Assert(fs.future == future, "the future reference is the latest frame held that follows the picture")
}

// hvStoreAdd: the last two reference frames are held.
//
//verif:harness prop=V12
func hvStoreAdd() {
	fs := anyStore()
	old, t, f := fs, vc.U32("t"), &image.YCbCr{YStride: 5}
	fs.add(f, t)
	vc.Cover("added")
	vc.Assert(fs.frames[0] == old.frames[1], "the last two reference frames are held")
	vc.Assert(fs.frames[1] == referenceFrame{f, t, false}, "a new reference frame is held, in the current group")
	vc.Assert(fs.past == old.past && fs.future == old.future, "the references of the picture stay")
}

// hvStoreGroup: a new group.
//
//verif:harness prop=V12
func hvStoreGroup() {
	fs := anyStore()
	old := fs
	fs.gop()
	vc.Cover("group")
	for i, r := range fs.frames {
		vc.Assert(r.previous_gop && r.frame == old.frames[i].frame && r.temporal_reference == old.frames[i].temporal_reference, "the frames held belong to an earlier group")
	}
	vc.Assert(fs.past == old.past && fs.future == old.future, "the references of the picture stay")
}

// hvStoreGet: frames decoded before they are displayed.
//
//verif:harness prop=V12
func hvStoreGet() {
	fs := anyStore()
	old, t := fs, vc.U32("t")
	f := fs.tryGet(t)
	vc.Assert(fs == old, "the frames held stay")
	found := false
	for _, r := range fs.frames {
		if r.frame != nil && !r.previous_gop && r.temporal_reference == t {
			found = true
		}
	}
	if f == nil {
		vc.Cover("none")
		vc.Assert(!found, "a frame of the group that is held is found")
		return
	}
	vc.Cover("found")
	r := fs.frames[0]
	if f == fs.frames[1].frame {
		r = fs.frames[1]
	}
	vc.Assert(f == r.frame && !r.previous_gop && r.temporal_reference == t, "the frame found is the one wanted, of the current group")
}

// Stages of decoding a picture: the element decoded last.
const (
	stStart = iota
	stAligned
	stHeader
	stExtension
	stSequence // and its extensions
	stGroup
	stGroupData
	stPicture
	stCoding
	stPictureData
	stSlices
)

// What has been decoded for a picture. Every element may end anywhere after its beginning.
type ghStepState struct {
	vs      *VideoSequence
	resume  bool
	stage   int
	at      uint64
	err     error
	counter uint32
	store   frameStore // expected
	head    *PictureHeader
	frame   *image.YCbCr
	seq     bool // a sequence header was read
}

var ghT ghStepState

func spNextCode() uint64 { return vc.Bits(ghS, ghT.at, 32) }

// spBegins is true if a group or picture may begin.
func spBegins() bool { return ghT.stage == stSequence || ghT.stage == stStart && ghT.resume }

// element is the outcome of an element.
func element(br interface{}, stage int, order bool) error {
	vc.Assert(order && ghT.err == nil && vc.Pos(br) == ghT.at, "the elements of a sequence are decoded in order")
	if vc.UFBool("v.stbad", uint64(stage)) {
		ghT.err = vc.UFErr("v.sterr", uint64(stage))
		vc.Assume(ghT.err != nil)
		return ghT.err
	}
	end := vc.UF("v.stend", uint64(stage))
	more := stage != stSequence && stage != stGroupData && stage != stPictureData && stage != stAligned
	vc.Assume(end >= ghT.at && (!more || end > ghT.at) && end <= vc.Len(br))
	ghT.stage, ghT.at = stage, end
	vc.SetPos(br, end)
	return nil
}

//verif:contract for=next_start_code
func ctStepAlign(br bitreader.BitReader) error {
	return element(br, stAligned, ghT.stage == stStart && !ghT.resume)
}

//verif:contract for=(*VideoSequence).sequence_header
func ctStepHeader(vs *VideoSequence) error {
	code := spNextCode()
	err := element(vs, stHeader, ghT.stage == stAligned || ghT.stage == stStart && ghT.resume && code != 0x100 && code != 0x1b8 && code != 0x1b7)
	if err == nil {
		vs.SequenceHeader = &SequenceHeader{}
		vc.Any("new sequence header", vs.SequenceHeader)
		ghT.seq = true
	}
	return err
}

//verif:contract for=sequence_extension
func ctStepExtension(br bitreader.BitReader) (*SequenceExtension, error) {
	if err := element(br, stExtension, ghT.stage == stHeader && (ghT.resume || spNextCode() == 0x1b5)); err != nil {
		return nil, err
	}
	h := &SequenceExtension{}
	vc.Any("new sequence extension", h)
	return h, nil
}

//verif:contract for=(*VideoSequence).extension_and_user_data
func ctStepData(vs *VideoSequence, i int) error {
	if i == 0 {
		return element(vs, stSequence, ghT.stage == stExtension)
	} else if i == 1 {
		return element(vs, stGroupData, ghT.stage == stGroup)
	}
	return element(vs, stPictureData, i == 2 && ghT.stage == stCoding)
}

//verif:contract for=ReadGOPHeader
func ctStepGroup(br bitreader.BitReader) (*GroupOfPicturesHeader, error) {
	if err := element(br, stGroup, spBegins() && spNextCode() == 0x1b8); err != nil {
		return nil, err
	}
	ghT.store.gop()
	ghT.counter = 0
	h := &GroupOfPicturesHeader{}
	vc.Any("new group of pictures header", h)
	return h, nil
}

//verif:contract for=picture_header
func ctStepPicture(br bitreader.BitReader) (*PictureHeader, error) {
	if err := element(br, stPicture, ghT.stage == stGroupData || spBegins() && spNextCode() != 0x1b8); err != nil {
		return nil, err
	}
	ghT.head = &PictureHeader{}
	vc.Any("new picture header", ghT.head)
	return ghT.head, nil
}

//verif:contract for=picture_coding_extension
func ctStepCoding(br bitreader.BitReader) (*PictureCodingExtension, error) {
	if err := element(br, stCoding, ghT.stage == stPicture); err != nil {
		return nil, err
	}
	h := &PictureCodingExtension{}
	vc.Any("new picture coding extension", h)
	return h, nil
}

//verif:contract for=(*VideoSequence).picture_data
func ctStepSlices(vs *VideoSequence) (*image.YCbCr, error) {
	ghT.store.set(ghT.head.temporal_reference)
	vc.Assert(vs.frameStore == ghT.store, "a picture is decoded with the reference frames for its temporal reference")
	vc.Assert(vs.PictureHeader == ghT.head && vs.PictureCodingExtension != nil && vs.SequenceHeader != nil && vs.SequenceExtension != nil, "a picture is decoded with its parameters")
	if err := element(vs, stSlices, ghT.stage == stPictureData); err != nil {
		return nil, err
	}
	ghT.frame = &image.YCbCr{YStride: 6}
	if ghT.head.picture_coding_type == IFrame || ghT.head.picture_coding_type == PFrame {
		ghT.store.add(ghT.frame, ghT.head.temporal_reference)
	}
	return ghT.frame, nil
}

// hvStep: the next picture.
//
//verif:harness prop=V12
//verif:use ctStepAlign ctStepHeader ctStepExtension ctStepData ctStepGroup ctStepPicture ctStepCoding ctStepSlices
func hvStep() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	if vc.Case(vc.Bool("no header")) {
		vs.SequenceHeader = nil
	}
	if vc.Case(vc.Bool("no extension")) {
		vs.SequenceExtension = nil
	}
	resume := vs.SequenceHeader != nil && vs.SequenceExtension != nil
	vs.frameStore = anyStore()
	ghT = ghStepState{vs: vs, resume: resume, at: p, counter: vs.frameCounter, store: vs.frameStore}

	f, err := vs.step()

	vc.Assert(vs.frameCounter == ghT.counter, "a new group starts over at temporal reference zero, and nothing else does")
	vc.Assert(vs.frameStore.frames == ghT.store.frames, "I and P pictures become reference frames, and B pictures do not")
	if ghT.stage == stSlices {
		vc.Cover("picture")
		vc.Assert(err == nil && f == ghT.frame && vs.PictureHeader == ghT.head && vc.Pos(s) == ghT.at && ghT.at > p, "the picture decoded is returned")
		return
	}
	vc.Assert(err != nil && f == nil, "without a picture there is an error")
	if ghT.err != nil {
		vc.Cover("error")
		vc.Assert(err == ghT.err, "the first error is returned")
		return
	}
	if vc.Len(s) < ghT.at+32 {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s), "the end of the stream is an error")
		return
	}
	if ghT.stage == stStart {
		vc.Cover("end")
		vc.Assert(resume && spNextCode() == 0x1b7 && err == EOS && vc.Pos(s) == p+32, "the end of the sequence is reported")
		return
	}
	vc.Cover("unsupported")
	vc.Assert(ghT.stage == stHeader && !resume && spNextCode() != 0x1b5 && err == ErrUnsupportedVideoStream_ISO_IEC_11172_2, "a sequence without extension is an error")
}

// The pictures decoded in search of the one displayed next.
type ghNextState struct {
	vs      *VideoSequence
	calls   int
	counter uint32
	at      uint64
	t       uint32 // of the picture decoded last
	frame   *image.YCbCr
	err     error
}

var ghN ghNextState

// ctStep: hvStep.
//
//verif:contract for=(*VideoSequence).step
func ctStep(vs *VideoSequence) (*image.YCbCr, error) {
	n := uint64(ghN.calls)
	vc.Assert(ghN.err == nil && vs.frameCounter == ghN.counter && (n == 0 || ghN.t != ghN.counter), "pictures are decoded until the one displayed next is found")
	ghN.calls++
	// the group, the frames held and the parameters may change even if there is an error
	if vc.UFBool("v.newgroup", n) {
		ghN.counter = 0
		vs.frameCounter = 0
	}
	for i := range vs.frameStore.frames {
		vs.frameStore.frames[i].temporal_reference = vc.UFU32("v.temporal", n, uint64(i))
		vs.frameStore.frames[i].previous_gop = vc.UFBool("v.earlier", n, uint64(i))
	}
	ghN.t = vc.UFU32("v.decoded", n)
	vs.PictureHeader.temporal_reference = ghN.t
	if vc.UFBool("v.stepbad", n) {
		ghN.err = vc.UFErr("v.steperr", n)
		vc.Assume(ghN.err != nil)
		return nil, ghN.err
	}
	at := vc.UF("v.stepend", n)
	vc.Assume(at > ghN.at && at <= vc.Len(vs))
	ghN.at = at
	vc.SetPos(vs, at)
	ghN.frame.YStride = int(n)
	return ghN.frame, nil
}

//verif:loop for=(*VideoSequence).Next n=1
func invNext() {
	vc.Inv(ghN.err == nil && ghN.vs.frameCounter == ghN.counter && (ghN.calls == 0 || ghN.t != ghN.counter), "pictures are decoded until the one displayed next is found")
	vc.Inv(ghN.calls == vc.Iter() && vc.Pos(ghS) == ghN.at && ghN.at <= vc.Len(ghS), "every picture is decoded once")
	vc.Dec(vc.Len(ghS) - ghN.at)
}

// hvNext: the next frame in display order.
//
//verif:harness prop=V12
//verif:use ctStep
//verif:inv invNext
func hvNext() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	vs.frameStore = anyStore()
	c := vs.frameCounter
	held := vs.frameStore.tryGet(c)
	ghN = ghNextState{vs: vs, at: p, counter: c, frame: &image.YCbCr{}}

	f, err := vs.Next()

	if held != nil {
		vc.Cover("held")
		vc.Assert(f == held && err == nil && ghN.calls == 0 && vs.frameCounter == c+1, "a frame that has been decoded already is returned when its turn comes")
		return
	}
	if err != nil {
		vc.Cover("error")
		vc.Assert(f == nil && ghN.calls > 0 && err == ghN.err && vs.frameCounter == ghN.counter, "the first error is returned")
		return
	}
	vc.Cover("decoded")
	vc.Assert(ghN.err == nil && f == ghN.frame && f.YStride == ghN.calls-1 && ghN.t == ghN.counter, "the frame returned is the one displayed next")
	vc.Assert(vs.frameCounter == ghN.counter+1, "each frame is returned once")
}
