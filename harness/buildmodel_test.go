package encode_test

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
)

// bnode is the engine-independent form of a built tree.
type bnode struct {
	kind byte // 's' sequence, 'm' mapping, 't' text, 'n' null, '?' anything else
	text string
	quot string
	kids []*bnode // of a mapping: key, value, key, value ...
}

func (n *bnode) String() string {
	if n == nil {
		return "<nil>"
	}
	switch n.kind {
	case 't':
		return fmt.Sprintf("%s%q", n.quot, n.text)
	case 'n':
		return "null"
	case 's', 'm':
		var p []string
		for _, k := range n.kids {
			p = append(p, k.String())
		}
		if n.kind == 's' {
			return "[" + strings.Join(p, " ") + "]"
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return "?" + n.text
}

// bmodel replays a history of calls on a tree of its own.
type bmodel struct {
	root  *bnode
	stack []*bnode
	err   bool
	given error   // the error handed in, when that was the first one
	later []error // those handed in afterwards
	done  bool    // the root value is complete
}

func (m *bmodel) insert(n *bnode, open bool) {
	if m.err {
		return
	}
	switch {
	case m.root == nil:
		m.root = n
		if !open {
			m.done = true
		}
	case m.done:
		m.err = true // a scalar root cannot take another value
		return
	default:
		top := m.stack[len(m.stack)-1]
		top.kids = append(top.kids, n)
	}
	if open {
		m.stack = append(m.stack, n)
	}
}

func (m *bmodel) end(kind byte) {
	if m.err {
		return
	}
	if len(m.stack) == 0 {
		m.err = true
		return
	}
	top := m.stack[len(m.stack)-1]
	if top.kind != kind || kind == 'm' && len(top.kids)%2 != 0 {
		m.err = true
		return
	}
	m.stack = m.stack[:len(m.stack)-1]
	if len(m.stack) == 0 {
		m.done = true
	}
}

var bstrings = []string{"", "a", "b c", "two\nlines", "\n", "true", "null", "12", "é", "\"'", "key: value", "- x"}

// one random call on both sides; strict marks the names of the calls made
func bstep(v *verifRun, b yamly.Inserter, m *bmodel, op int, unq bool) string {
	text := func(s, q string) *bnode { return &bnode{kind: 't', text: s, quot: q} }
	switch op {
	case 0:
		x := int64(v.rng.Uint64()) >> uint(v.rng.Intn(64))
		b.InsertInteger(x)
		m.insert(text(strconv.FormatInt(x, 10), ""), false)
		return fmt.Sprint("int ", x)
	case 1:
		x := v.rng.Uint64() >> uint(v.rng.Intn(64))
		b.InsertUnsigned(x)
		m.insert(text(strconv.FormatUint(x, 10), ""), false)
		return fmt.Sprint("uint ", x)
	case 2:
		x := v.rng.Intn(2) == 0
		b.InsertBoolean(x)
		m.insert(text(strconv.FormatBool(x), ""), false)
		return fmt.Sprint("bool ", x)
	case 3:
		x := []float64{0, 1.5, -2.25e30, math.Inf(1), math.Inf(-1), math.Float64frombits(v.rng.Uint64())}[v.rng.Intn(6)]
		b.InsertFloat(x)
		m.insert(text("float "+strconv.FormatFloat(x, 'x', -1, 64), ""), false)
		return fmt.Sprint("float ", x)
	case 4:
		s := bstrings[v.rng.Intn(len(bstrings))]
		b.InsertString(s)
		q := "dq"
		if unq && !strings.Contains(s, "\n") {
			q = ""
		}
		m.insert(text(s, q), false)
		return fmt.Sprintf("string %q", s)
	case 5:
		x := time.Unix(v.rng.Int63n(4e9), v.rng.Int63n(1e9)).UTC()
		b.InsertTimestamp(x)
		m.insert(text(x.Format(time.RFC3339Nano), "dq"), false)
		return fmt.Sprint("time ", x)
	case 6:
		b.InsertNull()
		m.insert(&bnode{kind: 'n'}, false)
		return "null"
	case 7:
		b.StartSequence()
		m.insert(&bnode{kind: 's'}, true)
		return "["
	case 8:
		b.StartMapping()
		m.insert(&bnode{kind: 'm'}, true)
		return "{"
	case 9:
		b.EndSequence()
		m.end('s')
		return "]"
	case 10:
		b.EndMapping()
		m.end('m')
		return "}"
	case 11:
		s := bstrings[v.rng.Intn(len(bstrings))]
		buf := []byte(s)
		b.InsertRawText(buf, nil)
		for i := range buf {
			buf[i] = '!' // the caller may reuse its buffer
		}
		q := "dq"
		if unq && !strings.Contains(s, "\n") {
			q = ""
		}
		m.insert(text(s, q), false)
		return fmt.Sprintf("rawtext %q", s)
	case 12:
		e := fmt.Errorf("given error %d", v.rng.Int())
		if !m.err {
			m.err, m.given = true, e
		} else {
			m.later = append(m.later, e)
		}
		if v.rng.Intn(2) == 0 {
			b.InsertRawText([]byte("zz"), e)
			return "raw text with an error"
		}
		b.InsertRaw([]byte("zz"), e)
		return "raw with an error"
	case 13: // the raw value is a scalar, and never the root (which it would leave open)
		if m.root == nil {
			return ""
		}
		b.InsertRaw([]byte("word"), nil)
		m.insert(text("word", ""), false)
		return "raw"
	}
	return ""
}

type bbuilder interface {
	yamly.Inserter
	finish() (*bnode, error)
}

// floats are compared by value: the text only has to denote the number
func bsame(got, want *bnode) bool {
	if got == nil || want == nil {
		return got == want
	}
	if got.kind != want.kind || len(got.kids) != len(want.kids) {
		return false
	}
	if f, ok := strings.CutPrefix(want.text, "float "); ok && want.kind == 't' && got.quot == want.quot {
		w, _ := strconv.ParseFloat(f, 64)
		t := strings.Replace(strings.Replace(strings.ToLower(got.text), ".inf", "inf", 1), ".nan", "nan", 1)
		g, err := strconv.ParseFloat(t, 64)
		return err == nil && (g == w || math.IsNaN(g) && math.IsNaN(w))
	}
	if got.text != want.text || got.quot != want.quot {
		return false
	}
	for i := range got.kids {
		if !bsame(got.kids[i], want.kids[i]) {
			return false
		}
	}
	return true
}

// runBuilder drives histories through one builder, which is reused: Result must leave it as good as new.
func runBuilder(v *verifRun, mk func(unq bool) bbuilder) {
	for round := 0; v.more(); round++ {
		unq := round%2 == 1
		b := mk(unq)
		for use := 0; use < 4 && v.more(); use++ {
			var m bmodel
			var calls []string
			n := 1 + v.rng.Intn(12)
			errs, ends := false, 0
			for i := 0; i < n; i++ {
				op := v.rng.Intn(14)
				if len(m.stack) > 0 && v.rng.Intn(3) == 0 { // close what is open, mostly rightly
					op = 9
					if m.stack[len(m.stack)-1].kind == 'm' {
						op = 10
					}
				} else if v.rng.Intn(3) == 0 {
					op = 7 + v.rng.Intn(2)
				}
				if m.done && !m.err && m.root.kind != 't' && m.root.kind != 'n' && op != 9 && op != 10 && op != 12 {
					break // a second value after a complete container is outside the property
				}
				if op == 9 || op == 10 {
					ends++
				}
				calls = append(calls, bstep(v, b, &m, op, unq))
				errs = errs || m.err
			}
			desc := strings.Join(calls, "; ")
			v.eval(desc, ends > 0 || errs)
			got, err := b.finish()
			if (err != nil) != m.err {
				v.fail("error", "calls %s: error %v, want error: %v", desc, err, m.err)
				return
			}
			if m.given != nil && err != m.given {
				v.fail("sticky", "calls %s: error %v, want the first one: %v", desc, err, m.given)
				return
			}
			for _, e := range m.later {
				if err == e {
					v.fail("sticky", "calls %s: a later error replaced the first one", desc)
					return
				}
			}
			if !m.err && !bsame(got, m.root) {
				v.fail("tree", "calls %s: tree %v, want %v", desc, got, m.root)
				return
			}
		}
	}
}
