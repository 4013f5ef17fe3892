package yamly_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"time"

	"github.com/KSpaceer/yamly"
)

// recBuilder and recWriter record what reaches them.
type recBuilder struct {
	log  []string
	tree string
	err  error
}

func (b *recBuilder) add(f string, a ...any)  { b.log = append(b.log, fmt.Sprintf(f, a...)) }
func (b *recBuilder) InsertInteger(v int64)   { b.add("int %d", v) }
func (b *recBuilder) InsertUnsigned(v uint64) { b.add("uint %d", v) }
func (b *recBuilder) InsertBoolean(v bool)    { b.add("bool %v", v) }
func (b *recBuilder) InsertFloat(v float64)   { b.add("float %x", math.Float64bits(v)) }
func (b *recBuilder) InsertString(v string)   { b.add("string %q", v) }
func (b *recBuilder) InsertTimestamp(v time.Time) {
	b.add("time %d %d %s", v.Unix(), v.Nanosecond(), v.Location())
}
func (b *recBuilder) InsertNull()    { b.add("null") }
func (b *recBuilder) StartSequence() { b.add("[") }
func (b *recBuilder) EndSequence()   { b.add("]") }
func (b *recBuilder) StartMapping()  { b.add("{") }
func (b *recBuilder) EndMapping()    { b.add("}") }
func (b *recBuilder) InsertRaw(d []byte, err error) {
	b.add("raw %q %v", d, err)
}
func (b *recBuilder) InsertRawText(d []byte, err error) {
	b.add("rawtext %q %v", d, err)
}
func (b *recBuilder) Result() (string, error) {
	b.add("result")
	return b.tree, b.err
}

type recWriter struct {
	log []string
	out string
	err error
}

func (w *recWriter) WriteTo(dst io.Writer, tree string) error {
	w.log = append(w.log, "to "+tree)
	if w.err == nil {
		_, _ = io.WriteString(dst, w.out)
	}
	return w.err
}

func (w *recWriter) WriteString(tree string) (string, error) {
	w.log = append(w.log, "string "+tree)
	return w.out, w.err
}

func (w *recWriter) WriteBytes(tree string) ([]byte, error) {
	w.log = append(w.log, "bytes "+tree)
	return []byte(w.out), w.err
}

func TestVerifEncoder(t *testing.T) {
	v := verifStart(t, "a history that ends with an encoding")
	errB, errW := errors.New("build"), errors.New("write")
	for v.more() {
		b, w := &recBuilder{}, &recWriter{}
		e := yamly.NewEncoder[string](b, w)
		var want []string
		var writes []string
		bad := func(key, f string, a ...any) { v.fail(key, "calls %v: %s", want, fmt.Sprintf(f, a...)) }
		for i, n := 0, 1+v.rng.Intn(8); i < n; i++ {
			add := func(f string, a ...any) { want = append(want, fmt.Sprintf(f, a...)) }
			str := string(rune('a' + v.rng.Intn(26)))
			var err error
			if v.rng.Intn(2) == 0 {
				err = errW
			}
			b.tree, b.err, w.out, w.err = "tree"+str, nil, "out"+str, nil
			if v.rng.Intn(2) == 0 {
				b.err = errB
			}
			if v.rng.Intn(2) == 0 {
				w.err = errW
			}
			wantErr := b.err
			if wantErr == nil {
				wantErr = w.err
			}
			note := func(kind string) {
				add("result")
				if b.err == nil {
					writes = append(writes, kind+" "+b.tree)
				}
			}
			switch v.rng.Intn(16) {
			case 0:
				x := int64(v.rng.Uint64())
				e.InsertInteger(x)
				add("int %d", x)
			case 1:
				x := v.rng.Uint64()
				e.InsertUnsigned(x)
				add("uint %d", x)
			case 2:
				e.InsertBoolean(err == nil)
				add("bool %v", err == nil)
			case 3:
				x := math.Float64frombits(v.rng.Uint64())
				e.InsertFloat(x)
				add("float %x", math.Float64bits(x))
			case 4:
				s := []string{"", str, "\xff", "a\nb"}[v.rng.Intn(4)]
				e.InsertString(s)
				add("string %q", s)
			case 5:
				x := time.Unix(v.rng.Int63n(1e10), v.rng.Int63n(1e9)).In(time.FixedZone(str, 60*v.rng.Intn(600)))
				e.InsertTimestamp(x)
				add("time %d %d %s", x.Unix(), x.Nanosecond(), x.Location())
			case 6:
				e.InsertNull()
				add("null")
			case 7:
				e.StartSequence()
				add("[")
			case 8:
				e.EndSequence()
				add("]")
			case 9:
				e.StartMapping()
				add("{")
			case 10:
				e.EndMapping()
				add("}")
			case 11:
				e.InsertRaw([]byte(str), err)
				add("raw %q %v", str, err)
			case 12:
				e.InsertRawText([]byte(str), err)
				add("rawtext %q %v", str, err)
			case 13:
				note("string")
				s, err := e.EncodeToString()
				if err != wantErr || b.err != nil && s != "" || wantErr == nil && s != w.out {
					bad("string", "EncodeToString = %q, %v; want %q, %v", s, err, w.out, wantErr)
				}
			case 14:
				note("bytes")
				s, err := e.EncodeToBytes()
				if err != wantErr || b.err != nil && len(s) != 0 || wantErr == nil && string(s) != w.out {
					bad("bytes", "EncodeToBytes = %q, %v; want %q, %v", s, err, w.out, wantErr)
				}
			case 15:
				note("to")
				var dst bytes.Buffer
				err := e.EncodeTo(&dst)
				if err != wantErr || wantErr != nil && dst.Len() > 0 || wantErr == nil && dst.String() != w.out {
					bad("to", "EncodeTo wrote %q, %v; want %q, %v", dst.String(), err, w.out, wantErr)
				}
			}
		}
		v.eval(fmt.Sprint(want), len(writes) > 0)
		if fmt.Sprint(b.log) != fmt.Sprint(want) {
			bad("forward", "the builder received %v", b.log)
		}
		if fmt.Sprint(w.log) != fmt.Sprint(writes) {
			bad("writes", "the writer received %v, want %v", w.log, writes)
		}
	}
}
