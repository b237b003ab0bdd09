// Package vc is the vocabulary of the contracts. The verifier gives these functions their logical meaning; the
// bodies here are used when a harness is replayed natively on the real code, with the values of a solver model
// or of a pseudo-random search.
package vc

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/32bitkid/bitreader"
)

// ---- native state ----

type modelT struct {
	Vars map[string]uint64              `json:"vars"`
	UFs  map[string][][]uint64          `json:"ufs"`
	Bits map[string]map[string][]uint64 `json:"bits"` // stream -> pos -> [n, value]
	Errs map[string]string              `json:"errs"`
}

var (
	model     *modelT
	seed      uint64
	streams   map[string]*Stream
	gens      map[string][]byte
	failures  []string
	panicsOK  bool
	hooks     *hookSet
	Verbose   bool
	wantLabel string
)

type skip struct{}

// Run executes a harness natively. It returns the failed assertions; skipped means that an assumption failed.
func Run(f func(), modelFile string, sd uint64) (failed []string, skipped bool) {
	model, seed = nil, sd
	if modelFile != "" {
		b, err := os.ReadFile(modelFile)
		if err != nil {
			panic(err)
		}
		model = &modelT{}
		if err := json.Unmarshal(b, model); err != nil {
			panic(err)
		}
	}
	streams, gens, failures, panicsOK = map[string]*Stream{}, map[string][]byte{}, nil, false
	hooks = &hookSet{}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(skip); ok {
					skipped = true
					return
				}
				if s, ok := r.(string); ok && panicsOK {
					_ = s
					return
				}
				if re, ok := r.(runtime.Error); ok {
					failures = append(failures, "runtime fault: "+re.Error())
					return
				}
				failures = append(failures, fmt.Sprint("panic: ", r))
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		return []string{"does not terminate"}, false
	}
	if skipped && len(failures) > 0 {
		skipped = false
	}
	return failures, skipped
}

func hash(s string, args ...uint64) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	for _, a := range args {
		h = (h ^ a) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

// value picks a number of at most w bits: often small or extreme.
func value(name string, w uint, args ...uint64) uint64 {
	m := ^uint64(0) >> (64 - w)
	if model != nil {
		if len(args) == 0 {
			return model.Vars[name] & m
		}
		for _, e := range model.UFs[name] {
			if len(e) == len(args)+1 {
				ok := true
				for i := range args {
					if e[i] != args[i] {
						ok = false
					}
				}
				if ok {
					return e[len(args)] & m
				}
			}
		}
		return 0
	}
	h := hash(name, args...)
	switch h % 7 {
	case 0:
		return (h >> 8) % 4 & m
	case 1:
		return (h >> 8) % 20 & m
	case 2:
		return (m - (h>>8)%4) & m
	case 3:
		return (h >> 8) % 256 & m
	case 4:
		return (h >> 8) % 4096 & m
	}
	return (h >> 3) & m
}

// Native reports whether the harness runs natively.
func Native() bool { return true }

// Searching reports whether values are pseudo-random (no model).
func Searching() bool { return model == nil }

// Rnd is a pseudo-random number below n, for native generators.
func Rnd(name string, n uint64, args ...uint64) uint64 {
	if n == 0 {
		return 0
	}
	return hash("rnd "+name, args...) % n
}

// Seed is the seed of the native search.
func Seed() uint64 { return seed }

func U8(name string) uint8   { return uint8(value(name, 8)) }
func U16(name string) uint16 { return uint16(value(name, 16)) }
func U32(name string) uint32 { return uint32(value(name, 32)) }
func I32(name string) int32  { return int32(value(name, 32)) }
func U64(name string) uint64 { return value(name, 64) }
func I64(name string) int64  { return int64(value(name, 64)) }
func Int(name string) int    { return int(value(name, 64)) }
func Uint(name string) uint  { return uint(value(name, 64)) }
func Bool(name string) bool {
	if model != nil {
		return model.Vars[name]&1 == 1
	}
	return hash(name)&1 == 1
}

// IntRange is an arbitrary number in [lo, hi].
func IntRange(name string, lo, hi int) int {
	if model != nil {
		v := int(model.Vars[name])
		if v < lo || v > hi {
			panic(skip{})
		}
		return v
	}
	h := hash(name)
	if h%4 == 0 {
		return lo + int((h>>8)%uint64(min(hi-lo+1, 3)))
	}
	if h%4 == 1 {
		return hi - int((h>>8)%uint64(min(hi-lo+1, 3)))
	}
	return lo + int((h>>8)%uint64(hi-lo+1))
}

var errTab = map[string]error{"io.EOF": io.EOF, "io.ErrUnexpectedEOF": io.ErrUnexpectedEOF}
var errMu sync.Mutex

func errNamed(n string) error {
	errMu.Lock()
	defer errMu.Unlock()
	if e, ok := errTab[n]; ok {
		return e
	}
	e := fmt.Errorf("%s", n)
	errTab[n] = e
	return e
}

func errID(id uint64) error {
	if id == 0 {
		return nil
	}
	if model != nil {
		if n, ok := model.Errs[fmt.Sprint(id)]; ok {
			return errNamed(n)
		}
	}
	return errNamed(fmt.Sprintf("error %d", id))
}

// Err is an arbitrary error, possibly nil.
func Err(name string) error {
	if model != nil {
		return errID(model.Vars[name] & 0xffffffff)
	}
	switch hash(name) % 4 {
	case 0:
		return nil
	case 1:
		return io.EOF
	}
	return errNamed("arbitrary " + name)
}

// ErrNew is a distinguished error value.
func ErrNew(name string) error { return errNamed("ghost " + name) }

// Any makes every scalar reachable without indirection from ptr arbitrary.
func Any(name string, ptr interface{}) { anyVal(name, reflect.ValueOf(ptr).Elem()) }

// Fresh is Any with a name that is unique to the call.
func Fresh(name string, ptr interface{}) { Any(name, ptr) }

func anyVal(name string, v reflect.Value) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(Bool(name))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w := uint(v.Type().Bits())
		x := value(name, w)
		v.SetInt(int64(x<<(64-w)) >> (64 - w))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(value(name, uint(v.Type().Bits())))
	case reflect.Struct:
		if v.Type().PkgPath() == "bytes" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			anyVal(name+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Array:
		k := uint64(0)
		anyArr(name, v, &k)
	}
}

func anyArr(name string, v reflect.Value, k *uint64) {
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		switch e.Kind() {
		case reflect.Array:
			anyArr(name, e, k)
			continue
		case reflect.Struct:
			anyVal(fmt.Sprintf("%s[%d]", name, i), e)
			continue
		case reflect.Bool:
			e.SetBool(value(name, 1, *k) == 1)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			w := uint(e.Type().Bits())
			x := value(name, w, *k)
			e.SetInt(int64(x<<(64-w)) >> (64 - w))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			e.SetUint(value(name, uint(e.Type().Bits()), *k))
		}
		*k++
	}
}

const maxSlice = 1 << 20

// ByteSlice is a fresh slice of n arbitrary bytes.
func ByteSlice(name string, n int) []byte {
	if n < 0 || n > maxSlice {
		panic(skip{})
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = uint8(value(name, 8, uint64(i)))
	}
	return b
}

// Int32Slice is a fresh slice of n arbitrary numbers.
func Int32Slice(name string, n int) []int32 {
	if n < 0 || n > maxSlice {
		panic(skip{})
	}
	b := make([]int32, n)
	for i := range b {
		b[i] = int32(value(name, 32, uint64(i)))
	}
	return b
}

func Assume(b bool) {
	if !b {
		panic(skip{})
	}
}

func fail(label string) { failures = append(failures, label) }

func Assert(b bool, label string) {
	if !b {
		fail(label)
	}
}

// AssertAll asserts f(i) for all 0 <= i < n.
func AssertAll(label string, n int, f func(i int) bool) {
	for i := 0; i < n; i++ {
		if !f(i) {
			fail(fmt.Sprintf("%s (index %d)", label, i))
			return
		}
	}
}

func Cover(label string) {}
func AllowPanics()       { panicsOK = true }
func Debug(label string, a ...interface{}) {
	if Verbose {
		fmt.Println(append([]interface{}{"DEBUG", label}, a...)...)
	}
}

// invariants have no native meaning
func Inv(b bool, label string)                                 {}
func InvSeq(s []byte, n int, f func(i int) byte, label string) {}

// Iter is the number of iterations done so far of the loop whose invariant this is.
func Iter() int          { return 0 }
func Dec(measure uint64) {}

func UF(name string, args ...uint64) uint64    { return value(name, 64, args...) }
func UFInt(name string, args ...uint64) int    { return int(value(name, 64, args...)) }
func UFU32(name string, args ...uint64) uint32 { return uint32(value(name, 32, args...)) }
func UFU8(name string, args ...uint64) uint8   { return uint8(value(name, 8, args...)) }
func UFBool(name string, args ...uint64) bool  { return value(name, 1, args...) == 1 }

func Ite64(b bool, x, y uint64) uint64 {
	if b {
		return x
	}
	return y
}
func IteInt(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}
func IteU32(b bool, x, y uint32) uint32 {
	if b {
		return x
	}
	return y
}
func IteI32(b bool, x, y int32) int32 {
	if b {
		return x
	}
	return y
}
func IteU8(b bool, x, y uint8) uint8 {
	if b {
		return x
	}
	return y
}
func IteErr(b bool, x, y error) error {
	if b {
		return x
	}
	return y
}

// Case has the verifier treat the two values of b separately; CaseInt those of v, which must lie in lo..hi.
func Case(b bool) bool          { return b }
func CaseInt(v, lo, hi int) int { return v }

func Imp(a, b bool) bool { return !a || b }

func NotNil(p interface{}) bool {
	v := reflect.ValueOf(p)
	return v.IsValid() && !v.IsNil()
}

// SameObj: two pointers or slices refer to the same object.
func SameObj(a, b interface{}) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

// ---- streams ----

// Stream is an abstract bit stream: arbitrary contents, length and final error.
type Stream struct {
	bitreader.BitReader
	name      string
	data      []byte
	err       error
	delivered int
	chunk     int
}

type source struct{ s *Stream }

func (r source) Read(p []byte) (int, error) {
	s := r.s
	if len(p) == 0 {
		return 0, nil
	}
	if s.delivered >= len(s.data) {
		return 0, s.err
	}
	n := copy(p, s.data[s.delivered:])
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	s.delivered += n
	return n, nil
}

// SetGen fixes the bytes of a stream for native runs without a model.
func SetGen(name string, data []byte) { gens[name] = data }

// NewStream is an arbitrary stream, positioned off&7 bits after its start.
func NewStream(name string, off uint64) *Stream {
	s := &Stream{name: name}
	if model != nil {
		n := model.Vars[name+".len"] / 8
		if n > maxSlice {
			panic(skip{})
		}
		s.data = make([]byte, n)
		for ps, e := range model.Bits[name] {
			var p uint64
			fmt.Sscan(ps, &p)
			for i := uint64(0); i < e[0]; i++ {
				bit := e[1] >> (e[0] - 1 - i) & 1
				q := p + i
				if q/8 < n {
					s.data[q/8] |= byte(bit << (7 - q%8))
				}
			}
		}
		s.err = errID(model.Vars[name+".err"] & 0xffffffff)
	} else {
		if g, ok := gens[name]; ok {
			s.data = g
		} else {
			n := hash(name+".len") % 40
			if hash(name+".len2")%3 == 0 {
				n = hash(name+".len") % 700
			}
			s.data = make([]byte, n)
			for i := range s.data {
				s.data[i] = byte(hash(name, uint64(i)))
			}
		}
		switch hash(name+".err") % 3 {
		case 0:
			s.err = errNamed("arbitrary stream error")
		default:
			s.err = io.EOF
		}
		s.chunk = int([]uint64{0, 0, 1, 3, 64}[hash(name+".chunk")%5])
	}
	if s.err == nil {
		panic(skip{})
	}
	s.BitReader = bitreader.NewReader(source{s})
	if off&7 != 0 {
		if s.BitReader.Skip(uint(off&7)) != nil {
			panic(skip{})
		}
	}
	streams[name] = s
	return s
}

func underlying(r interface{}) (*Stream, uint64) {
	if s, ok := r.(*Stream); ok {
		return s, uint64(s.delivered)*8 - reflect.ValueOf(s.BitReader).Elem().FieldByName("remaining").Uint()
	}
	v := reflect.ValueOf(r).Elem()
	src := v.FieldByName("r")
	src = reflect.NewAt(src.Type(), src.Addr().UnsafePointer()).Elem()
	s := src.Interface().(*Stream)
	_, p := underlying(s)
	return s, p - v.FieldByName("remaining").Uint()
}

// Pos is the number of bits consumed.
func Pos(r interface{}) uint64 { _, p := underlying(r); return p }

// Len is the total number of bits.
func Len(r interface{}) uint64 { s, _ := underlying(r); return uint64(len(s.data)) * 8 }

// EndErr is the error the source reports after its last byte.
func EndErr(r interface{}) error { s, _ := underlying(r); return s.err }

// Bits is the big-endian value of n bits at bit position pos (zero bits past the end).
func Bits(r interface{}, pos uint64, n uint64) uint64 {
	s, _ := underlying(r)
	var v uint64
	for i := uint64(0); i < n; i++ {
		q := pos + i
		b := uint64(0)
		if q/8 < uint64(len(s.data)) {
			b = uint64(s.data[q/8]>>(7-q%8)) & 1
		}
		v = v<<1 | b
	}
	return v
}

// ---- ownership and channels ----

type frozenObj struct {
	ptr  reflect.Value
	copy interface{}
}

type hookSet struct {
	mu      sync.Mutex
	chans   []reflect.Value
	onSend  []reflect.Value
	frozen  []frozenObj
	feeds   []feed
	onClose map[uintptr]reflect.Value
	closed  map[uintptr]bool
}

type feed struct{ ch, f reflect.Value }

// Freeze: the object must not change from now on.
func Freeze(p interface{}) {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Ptr {
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(v.Elem())
		// deep copy of byte slices
		deep(c.Elem())
		hooks.frozen = append(hooks.frozen, frozenObj{v, c.Interface()})
	}
}

func deep(v reflect.Value) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Slice && f.CanSet() && f.Type().Elem().Kind() == reflect.Uint8 && !f.IsNil() {
			f.SetBytes(append([]byte(nil), f.Bytes()...))
		}
	}
}

func checkFrozen() {
	for _, o := range hooks.frozen {
		if !reflect.DeepEqual(o.ptr.Interface(), o.copy) {
			fail("no write to an object after it has been handed over")
			return
		}
	}
}

// OnSend observes what is sent on ch.
func OnSend(ch, f interface{}) {
	hooks.mu.Lock()
	defer hooks.mu.Unlock()
	hooks.chans = append(hooks.chans, reflect.ValueOf(ch))
	hooks.onSend = append(hooks.onSend, reflect.ValueOf(f))
}

// OnClose observes the closing of ch (which must have an OnSend hook as well).
func OnClose(ch, f interface{}) {
	if hooks.onClose == nil {
		hooks.onClose = map[uintptr]reflect.Value{}
	}
	hooks.onClose[reflect.ValueOf(ch).Pointer()] = reflect.ValueOf(f)
}

// OnRecv feeds ch: f returns the next value and whether there is one.
func OnRecv(ch, f interface{}) {
	hooks.feeds = append(hooks.feeds, feed{reflect.ValueOf(ch), reflect.ValueOf(f)})
}

func IsClosed(ch interface{}) bool { return hooks.closed[reflect.ValueOf(ch).Pointer()] }

// RunSpawned runs the goroutines that have been started until they end: natively, until all observed channels
// are closed (or, for a channel that only signals completion, have delivered).
func RunSpawned() {
	if hooks.closed == nil {
		hooks.closed = map[uintptr]bool{}
	}
	for _, f := range hooks.feeds {
		f := f
		go func() {
			for {
				r := f.f.Call(nil)
				if !r[1].Bool() {
					f.ch.Close()
					return
				}
				f.ch.Send(r[0])
			}
		}()
	}
	idle := time.After(700 * time.Millisecond)
	for {
		var cases []reflect.SelectCase
		var idx []int
		for i, ch := range hooks.chans {
			if !hooks.closed[ch.Pointer()] {
				cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: ch})
				idx = append(idx, i)
			}
		}
		if len(cases) == 0 {
			break
		}
		cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(idle)})
		k, v, ok := reflect.Select(cases)
		if k == len(cases)-1 {
			break // nothing moves any more
		}
		ch := hooks.chans[idx[k]]
		if !ok {
			hooks.closed[ch.Pointer()] = true
			if f, has := hooks.onClose[ch.Pointer()]; has {
				f.Call(nil)
			}
			continue
		}
		idle = time.After(700 * time.Millisecond)
		hooks.onSend[idx[k]].Call([]reflect.Value{v})
		if ch.Type().Elem().Kind() == reflect.Bool { // completion signal: last event
			time.Sleep(time.Millisecond)
			for _, c := range hooks.chans {
				if c.Pointer() != ch.Pointer() && !hooks.closed[c.Pointer()] {
					if v, ok := c.TryRecv(); !ok && v.IsValid() {
						hooks.closed[c.Pointer()] = true
						if f, has := hooks.onClose[c.Pointer()]; has {
							f.Call(nil)
						}
					}
				}
			}
			break
		}
	}
	checkFrozen()
}
