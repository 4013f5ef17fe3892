package decode_test

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
)

// rtext is a scalar text with the values it stands for.
type rtext struct {
	text string
	i    *int64
	u    *uint64
	f    *float64
	b    *bool
	null bool
	t    *time.Time
}

func rp[T any](v T) *T { return &v }

var rtexts = []rtext{
	{text: "1", i: rp(int64(1)), u: rp(uint64(1)), f: rp(1.0)},
	{text: "0", i: rp(int64(0)), u: rp(uint64(0)), f: rp(0.0)},
	{text: "-7", i: rp(int64(-7)), f: rp(-7.0)},
	{text: "300", i: rp(int64(300)), u: rp(uint64(300)), f: rp(300.0)},
	{text: "70000", i: rp(int64(70000)), u: rp(uint64(70000)), f: rp(70000.0)},
	{text: "-2147483649", i: rp(int64(-2147483649)), f: rp(-2147483649.0)},
	{text: "18446744073709551615", u: rp(uint64(math.MaxUint64)), f: rp(18446744073709551615.0)},
	{text: "1.5", f: rp(1.5)},
	{text: "-2.25e2", f: rp(-225.0)},
	{text: ".inf", f: rp(math.Inf(1))},
	{text: "-.inf", f: rp(math.Inf(-1))},
	{text: "true", b: rp(true)},
	{text: "false", b: rp(false)},
	{text: "null", null: true},
	{text: "~", null: true},
	{text: "abc"},
	{text: "two words"},
	{text: "- x"},
	{text: "1a"},
	{text: "0.0.1"},
	{text: "2020-01-02T03:04:05Z", t: rp(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC))},
	{text: "2021-12-31T23:59:59.123456789Z", t: rp(time.Date(2021, 12, 31, 23, 59, 59, 123456789, time.UTC))},
}

// rnode is a tree handed to a reader: 't' text, 'n' null node, 's' sequence, 'm' mapping, '*' alias of target.
type rnode struct {
	kind   byte
	txt    rtext
	quoted bool
	kids   []*rnode // of a mapping: key, value, ...
	anchor string
	tag    string
	target *rnode
}

func (n *rnode) res() *rnode {
	for n.kind == '*' {
		n = n.target
	}
	return n
}

func (n *rnode) String() string {
	p := ""
	if n.anchor != "" {
		p = "&" + n.anchor + " "
	}
	if n.tag != "" {
		p += n.tag + " "
	}
	switch n.kind {
	case '*':
		return "*" + n.target.anchor
	case 'n':
		return p + "<null>"
	case 't':
		if n.quoted {
			return p + fmt.Sprintf("%q", n.txt.text)
		}
		return p + n.txt.text
	}
	var s []string
	for _, k := range n.kids {
		s = append(s, k.String())
	}
	if n.kind == 's' {
		return p + "[" + strings.Join(s, ", ") + "]"
	}
	return p + "{" + strings.Join(s, ", ") + "}"
}

type rgen struct {
	rng   *rand.Rand
	done  []*rnode // anchored nodes that are complete
	n     int
	quote bool
}

func (g *rgen) scalar() *rnode {
	if g.rng.Intn(8) == 0 {
		return &rnode{kind: 'n'}
	}
	n := &rnode{kind: 't', txt: rtexts[g.rng.Intn(len(rtexts))]}
	if g.rng.Intn(6) == 0 && (n.txt.null || g.quote) {
		n.quoted = true
		n.txt.null = false
	}
	return n
}

func (g *rgen) key(i int) *rnode {
	return &rnode{kind: 't', txt: rtext{text: fmt.Sprintf("k%d", i)}}
}

func (g *rgen) node(depth int) *rnode {
	if len(g.done) > 0 && g.rng.Intn(8) == 0 {
		return &rnode{kind: '*', target: g.done[g.rng.Intn(len(g.done))]}
	}
	var n *rnode
	switch k := g.rng.Intn(5); {
	case depth == 0 || k < 2:
		n = g.scalar()
	case k == 2 || k == 3 && g.rng.Intn(2) == 0:
		n = &rnode{kind: 's'}
		for i := g.rng.Intn(4); i > 0; i-- {
			n.kids = append(n.kids, g.node(depth-1))
		}
	default:
		n = &rnode{kind: 'm'}
		for i := g.rng.Intn(4); i > 0; i-- {
			n.kids = append(n.kids, g.key(i), g.node(depth-1))
		}
	}
	if g.rng.Intn(5) == 0 && n.kind != 'n' {
		g.n++
		n.anchor = fmt.Sprintf("a%d", g.n)
		g.done = append(g.done, n)
	} else if g.rng.Intn(8) == 0 && n.kind == 't' && !n.txt.null {
		n.tag = "!x"
	}
	return n
}

// rwalk reads the tree back through the decoder and compares every answer with the model.
type rwalk struct {
	v        *verifRun
	rng      *rand.Rand
	d        yamly.Decoder
	log      []string
	multi    bool
	errs     int  // errors the model expects to be stored
	fatal    bool // reading has stopped
	given    error
	states   []yamly.CollectionState
	wrong    int // percentage of reads with the wrong type
	bad      bool
	mapSize  int // items counted per entry of a mapping
	skipHuge bool
}

func (w *rwalk) op(f string, a ...any) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *rwalk) check(ok bool, what string, f string, a ...any) {
	if !ok && !w.bad {
		w.bad = true
		w.v.fail(what, "%s: after %s", fmt.Sprintf(f, a...), strings.Join(w.log, " "))
	}
}

// denied: the last call was denied (or failed); what must hold afterwards.
func (w *rwalk) denied(stay bool) (again bool) {
	w.errs++
	err := w.d.Error()
	w.check(err != nil, "error-lost", "no error after a read that cannot succeed")
	if w.multi && stay {
		return true
	}
	w.fatal = true
	w.after()
	return false
}

func (w *rwalk) after() {
	err := w.d.Error()
	w.check(err != nil, "error-lost", "the stored error is gone")
	if err == nil {
		return
	}
	for _, s := range w.states {
		w.check(!s.HasUnprocessedItems(), "iteration", "a collection still has items after the error %v", err)
	}
	msg := err.Error()
	for i := 0; i < 3 && !w.bad; i++ {
		switch w.rng.Intn(12) {
		case 0:
			w.check(w.d.Integer(64) == 0, "sticky", "Integer gives a value after an error")
		case 1:
			w.check(w.d.Unsigned(64) == 0, "sticky", "Unsigned gives a value after an error")
		case 2:
			w.check(w.d.String() == "", "sticky", "String gives a value after an error")
		case 3:
			w.check(!w.d.Boolean(), "sticky", "Boolean gives a value after an error")
		case 4:
			w.check(w.d.Float(64) == 0, "sticky", "Float gives a value after an error")
		case 5:
			w.check(w.d.Timestamp().IsZero(), "sticky", "Timestamp gives a value after an error")
		case 6:
			s := w.d.Sequence()
			w.check(s != nil && s.Size() == 0 && !s.HasUnprocessedItems(), "sticky", "Sequence gives items after an error")
		case 7:
			s := w.d.Mapping()
			w.check(s != nil && s.Size() == 0 && !s.HasUnprocessedItems(), "sticky", "Mapping gives items after an error")
		case 8:
			w.check(!w.d.TryNull(), "sticky", "TryNull holds after an error")
		case 9:
			w.check(w.d.Any() == nil, "sticky", "Any gives a value after an error")
		case 10:
			w.check(w.d.Raw() == nil, "sticky", "Raw gives bytes after an error")
		case 11:
			w.d.Skip()
			w.d.AddError(errors.New("late"))
		}
		e := w.d.Error()
		w.check(e != nil && e.Error() == msg, "sticky", "the stored error changed from %q to %v", msg, e)
	}
}

func bitsOK(i int64, bits int) bool {
	if bits == 64 {
		return true
	}
	return i >= -(int64(1)<<(bits-1)) && i < int64(1)<<(bits-1)
}

// wrongRead performs a read that the value does not allow; false when reading has stopped.
func (w *rwalk) wrongRead(n *rnode) bool {
	n = n.res()
	scalar := n.kind == 't'
	for {
		switch w.rng.Intn(8) {
		case 0:
			if scalar && n.txt.i != nil || n.txt.u != nil {
				continue
			}
			w.op("Integer!")
			w.check(w.d.Integer(64) == 0, "denied-value", "a denied Integer gives a value")
		case 1:
			if scalar && n.txt.b != nil {
				continue
			}
			w.op("Boolean!")
			w.check(!w.d.Boolean(), "denied-value", "a denied Boolean gives a value")
		case 2:
			if scalar && n.txt.f != nil {
				continue
			}
			w.op("Float!")
			w.check(w.d.Float(64) == 0, "denied-value", "a denied Float gives a value")
		case 3:
			if scalar && n.txt.t != nil {
				continue
			}
			w.op("Timestamp!")
			w.check(w.d.Timestamp().IsZero(), "denied-value", "a denied Timestamp gives a value")
		case 4:
			if n.kind == 's' {
				continue
			}
			w.op("Sequence!")
			s := w.d.Sequence()
			w.check(s != nil && !s.HasUnprocessedItems(), "denied-value", "a denied Sequence has items")
		case 5:
			if n.kind == 'm' {
				continue
			}
			w.op("Mapping!")
			s := w.d.Mapping()
			w.check(s != nil && !s.HasUnprocessedItems(), "denied-value", "a denied Mapping has items")
		case 6:
			if scalar && !n.txt.null {
				continue
			}
			w.op("String!")
			w.check(w.d.String() == "", "denied-value", "a denied String gives a value")
		case 7:
			if scalar && n.txt.null || n.kind == 'n' {
				continue
			}
			w.op("TryNull!")
			w.check(!w.d.TryNull(), "null", "TryNull holds for a value that is not null")
			return true // not an error
		}
		return w.denied(true)
	}
}

// read consumes one value; false when reading has stopped.
func (w *rwalk) read(orig *rnode) bool {
	n := orig.res()
	for w.rng.Intn(100) < w.wrong {
		if !w.wrongRead(n) {
			return false
		}
	}
	if w.rng.Intn(60) == 0 {
		w.given = errors.New("given")
		w.op("AddError")
		w.d.AddError(w.given)
		w.fatal = true
		w.errs++
		w.check(errors.Is(w.d.Error(), w.given), "error-lost", "the added error is not reported")
		w.after()
		return false
	}
	if w.rng.Intn(10) == 0 {
		switch w.rng.Intn(3) {
		case 0:
			w.op("Skip")
			w.d.Skip()
		case 1:
			w.op("Raw")
			b := w.d.Raw()
			w.check(len(b) > 0, "raw", "Raw of %s gives nothing: %v", n, w.d.Error())
		case 2:
			w.op("Any")
			w.d.Any()
		}
		w.check((w.d.Error() != nil) == (w.errs > 0), "error", "error %v where %d were expected", w.d.Error(), w.errs)
		return !w.bad
	}
	switch n.kind {
	case 'n':
		w.op("TryNull")
		w.check(w.d.TryNull(), "null", "TryNull denies a null")
	case 't':
		return w.text(n)
	case 's', 'm':
		var s yamly.CollectionState
		per := 1
		if n.kind == 's' {
			w.op("Sequence")
			s = w.d.Sequence()
			w.check(s.Size() == len(n.kids), "size", "Size of %s is %d", n, s.Size())
		} else {
			w.op("Mapping")
			per = 2
			s = w.d.Mapping()
			w.check(s.Size() == len(n.kids)/2*w.mapSize, "size", "Size of %s is %d", n, s.Size())
		}
		w.states = append(w.states, s)
		for i := 0; i < len(n.kids); i += per {
			w.check(s.HasUnprocessedItems(), "iteration", "%d of %d items of %s seem all", i, len(n.kids), n)
			if w.bad {
				return false
			}
			if per == 2 {
				w.op("key")
				k := w.d.String()
				w.check(k == n.kids[i].txt.text, "value", "key %q for %q", k, n.kids[i].txt.text)
			}
			if w.bad || !w.read(n.kids[i+per-1]) {
				return false
			}
		}
		w.check(!s.HasUnprocessedItems(), "iteration", "items of %s remain", n)
		w.states = w.states[:len(w.states)-1]
	}
	return !w.bad
}

func (w *rwalk) text(n *rnode) bool {
	t := n.txt
	if t.null {
		w.op("TryNull")
		w.check(w.d.TryNull(), "null", "TryNull denies %s", n)
		return !w.bad
	}
	for {
		switch w.rng.Intn(6) {
		case 0:
			if t.i == nil {
				continue
			}
			bits := []int{8, 16, 32, 64}[w.rng.Intn(4)]
			w.op("Integer(%d)", bits)
			got := w.d.Integer(bits)
			if bitsOK(*t.i, bits) {
				w.check(got == *t.i, "value", "Integer(%d) of %q is %d", bits, t.text, got)
			} else {
				w.check(got == 0, "denied-value", "Integer(%d) of %q is %d", bits, t.text, got)
				return w.denied(false)
			}
		case 1:
			if t.u == nil {
				continue
			}
			bits := []int{8, 16, 32, 64}[w.rng.Intn(4)]
			w.op("Unsigned(%d)", bits)
			got := w.d.Unsigned(bits)
			if bits == 64 || *t.u < uint64(1)<<bits {
				w.check(got == *t.u, "value", "Unsigned(%d) of %q is %d", bits, t.text, got)
			} else {
				w.check(got == 0, "denied-value", "Unsigned(%d) of %q is %d", bits, t.text, got)
				return w.denied(false)
			}
		case 2:
			if t.f == nil {
				continue
			}
			w.op("Float")
			got := w.d.Float(64)
			w.check(got == *t.f, "value", "Float of %q is %v", t.text, got)
		case 3:
			if t.b == nil {
				continue
			}
			w.op("Boolean")
			got := w.d.Boolean()
			w.check(got == *t.b, "value", "Boolean of %q is %v", t.text, got)
		case 4:
			if t.t == nil {
				continue
			}
			w.op("Timestamp")
			got := w.d.Timestamp()
			w.check(got.Equal(*t.t), "value", "Timestamp of %q is %v", t.text, got)
		case 5:
			w.op("String")
			got := w.d.String()
			w.check(got == t.text, "value", "String of %q is %q", t.text, got)
		}
		return !w.bad
	}
}

func runReader(v *verifRun, mapSize int, quote bool, open func(n *rnode, multi bool) yamly.Decoder) {
	for v.more() {
		g := &rgen{rng: v.rng, quote: quote}
		root := g.node(1 + v.rng.Intn(4))
		multi := v.rng.Intn(2) == 0
		desc := fmt.Sprintf("%s multi=%v", root, multi)
		w := &rwalk{v: v, rng: rand.New(rand.NewSource(v.rng.Int63())), multi: multi, mapSize: mapSize, wrong: []int{0, 0, 5, 20}[v.rng.Intn(4)]}
		v.guard("panic", desc, func() {
			w.d = open(root, multi)
			w.op("%s multi=%v:", root, multi)
			if !w.read(root) {
				return
			}
			err := w.d.Error()
			w.check((err != nil) == (w.errs > 0), "error", "error %v where %d were expected", err, w.errs)
			// nothing is left
			w.op("end")
			got := w.d.String()
			w.check(got == "" && errors.Is(w.d.Error(), yamly.ErrEndOfStream), "end", "read %q past the end, error %v", got, w.d.Error())
		})
		v.eval(strings.Join(w.log, " "), len(w.log) > 4 || w.fatal)
	}
}
