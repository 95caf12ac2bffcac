package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strings"
)

// ---- text output: pieces of text and the JSON they form

// piece is constant text, text depending on an input, the JSON of a value, or
// a loop writing pieces.
type piece struct {
	s    string
	t    *Term
	val  Val
	pack Val // the packed form of a value
	loop *LoopEv
}

func (p piece) key() string {
	switch {
	case p.t != nil:
		return "t" + p.t.key()
	case p.val != nil:
		return "v" + p.val.key()
	case p.pack != nil:
		return "p" + p.pack.key()
	case p.loop != nil:
		return "l" + Event{op: "loop", loop: p.loop}.key()
	}
	return "s" + p.s
}

func (p piece) String() string {
	switch {
	case p.t != nil:
		return p.t.String()
	case p.val != nil:
		return "JSON of " + show(p.val)
	case p.pack != nil:
		return "packed " + show(p.pack)
	case p.loop != nil:
		return Event{op: "loop", loop: p.loop}.String()
	}
	return fmt.Sprintf("%q", p.s)
}

func showPieces(ps []piece) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.String())
	}
	return strings.Join(ss, " ")
}

func addPiece(ps []piece, qs ...piece) []piece {
	for _, q := range qs {
		if q.key() == "s" {
			continue
		}
		if n := len(ps); n > 0 && ps[n-1].isConst() && q.isConst() {
			ps = append(ps[:n-1:n-1], piece{s: ps[n-1].s + q.s})
			continue
		}
		ps = append(ps, q)
	}
	return ps
}

func (p piece) isConst() bool { return p.t == nil && p.val == nil && p.pack == nil && p.loop == nil }

// textOf: the pieces of a string, byte slice or buffer.
func (r *Run) textOf(v Val) []piece {
	switch x := v.(type) {
	case *Term:
		return r.strPieces(x)
	case *SliceV:
		if x.obj == 0 {
			return nil
		}
		return r.bytePieces(r.freezeSlice(x))
	case *SeqV:
		return r.bytePieces(x)
	case *SinkV:
		return r.evPieces(x.evs)
	case *PtrV:
		return r.textOf(r.load(x))
	case *NilV:
		return nil
	}
	r.stuck("text %s", show(v))
	return nil
}

func (r *Run) evPieces(evs []Event) []piece {
	var ps []piece
	for _, e := range evs {
		switch {
		case e.loop != nil:
			if r.Decide(Lt(e.loop.from, e.loop.n)) {
				ps = append(ps, piece{loop: e.loop})
			}
		case e.op == "s", e.op == "b":
			ps = addPiece(ps, r.textOf(e.args[0])...)
		case e.op == "json":
			ps = append(ps, piece{val: e.args[0]})
		case e.op == "pack":
			ps = append(ps, piece{pack: e.args[0]})
		default:
			r.stuck("output %s", e)
		}
	}
	return ps
}

// plainText: never contains a quote, backslash or control character.
func plainText(t *Term) bool {
	switch t.op {
	case "itoa", "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString", "strconv.FormatFloat", "strconv.FormatInt", "strconv.FormatBool", "strconv.FormatUint":
		return true
	}
	return false
}

func (r *Run) strPieces(t *Term) []piece {
	switch t.op {
	case "str":
		return addPiece(nil, piece{s: t.s})
	case "concat":
		var ps []piece
		for _, a := range t.args {
			ps = addPiece(ps, r.strPieces(a.(*Term))...)
		}
		return ps
	case "sinkstr":
		return r.textOf(t.args[0])
	case "strseq":
		return r.bytePieces(t.args[0].(*SeqV))
	case "strconv.Quote":
		in := r.strPieces(t.args[0].(*Term))
		for _, p := range in {
			switch {
			case p.t != nil && plainText(p.t):
			case p.isConst() && !strings.ContainsFunc(p.s, func(c rune) bool { return c < ' ' || c > '~' || c == '"' || c == '\\' }):
			default:
				return []piece{{t: t}}
			}
		}
		return addPiece(addPiece([]piece{{s: `"`}}, in...), piece{s: `"`})
	}
	if c, ok := r.e.asConst(t); ok {
		return addPiece(nil, piece{s: c})
	}
	return []piece{{t: t}}
}

// asConst: text the facts make constant.
func (e *Engine) asConst(t *Term) (string, bool) { return "", false }

// bytePieces: the segments of a byte sequence.
func (r *Run) bytePieces(q *SeqV) []piece {
	var ps []piece
	for _, s := range r.clean(q.segs) {
		if s.kv == nil {
			b, ok1 := s.body.(*Term)
			lo, ok2 := s.lo.int64()
			hi, ok3 := s.hi.int64()
			if !ok1 || !ok2 || !ok3 || hi-lo > 4096 {
				r.stuck("bytes %s", show(q))
			}
			if c, ok := b.int64(); ok {
				ps = addPiece(ps, piece{s: strings.Repeat(string([]byte{byte(c)}), int(hi-lo))})
				continue
			}
			ps = append(ps, piece{t: App(SStr, "byte", nil, b)})
			continue
		}
		b, ok := s.body.(*Term)
		if !ok {
			r.stuck("bytes %s", show(q))
		}
		if b.op == "ite" {
			r.stuck("bytes %s", show(q))
		}
		x, i := b.args[0].(*Term), b.args[1].(*Term)
		if i.key() != Sub(s.kv, s.lo).key() && !r.entails(EqI(i, Sub(s.kv, s.lo))) {
			r.stuck("bytes %s", show(q))
		}
		n := Sub(s.hi, s.lo)
		switch b.op {
		case "stridx":
			if !r.entails(EqI(n, strLen(x))) {
				r.stuck("part of %s", x)
			}
			ps = addPiece(ps, r.strPieces(x)...)
		case "elem":
			if !r.entails(EqI(n, AppR("len", bigZero, nil, x))) {
				r.stuck("part of %s", x)
			}
			switch x.op {
			case "sinkbytes":
				ps = addPiece(ps, r.textOf(x.args[0])...)
			case "call:MarshalJSON.0":
				ps = append(ps, piece{val: x.args[0]})
			case "call:MarshalBinary.0":
				ps = append(ps, piece{pack: x.args[0]})
			default:
				ps = append(ps, piece{t: App(SStr, "bytes", nil, x)})
			}
		default:
			r.stuck("bytes %s", show(q))
		}
	}
	return ps
}

// sameLoop: two loops write the same, whatever their counters are called.
func (r *Run) sameLoop(a, b *LoopEv) bool {
	if !r.entails(EqI(a.from, b.from)) || !r.entails(EqI(a.n, b.n)) || len(a.alts) != len(b.alts) {
		return false
	}
	j := Sym(SInt, "·it", nil)
	keys := func(l *LoopEv) map[string]int {
		out := map[string]int{}
		s := &substituter{x: l.j, by: j, memo: map[*Term]*Term{}}
		for _, a := range l.alts {
			c := map[string]int{}
			for _, x := range a.conds {
				c[substT(x, l.j, j).key()] = 1
			}
			k := strings.Join(sortedKeys(c), "&") + ":"
			for _, x := range a.evs {
				k += s.event(x).key() + ";"
			}
			out[k]++
		}
		return out
	}
	p, q := keys(a), keys(b)
	for k, n := range p {
		if q[k] != n {
			return false
		}
	}
	return len(p) == len(q)
}

// sameText: the two texts are the same.
func (r *Run) sameText(a, b []piece, what string) {
	r.e.obligations++
	for {
		if len(a) == 0 && len(b) == 0 {
			return
		}
		if len(a) == 0 || len(b) == 0 {
			break
		}
		p, q := a[0], b[0]
		if p.key() == q.key() {
			a, b = a[1:], b[1:]
			continue
		}
		if p.isConst() && q.isConst() {
			n := min(len(p.s), len(q.s))
			if p.s[:n] == q.s[:n] {
				a, b = append([]piece{{s: p.s[n:]}}, a[1:]...), append([]piece{{s: q.s[n:]}}, b[1:]...)
				if p.s[n:] == "" {
					a = a[1:]
				}
				if q.s[n:] == "" {
					b = b[1:]
				}
				continue
			}
			break
		}
		if p.loop != nil && q.loop != nil && r.sameLoop(p.loop, q.loop) {
			a, b = a[1:], b[1:]
			continue
		}
		if p.t != nil && q.t != nil && (r.st.f.congr(p.t, q.t)) {
			a, b = a[1:], b[1:]
			continue
		}
		if p.val != nil && q.val != nil || p.pack != nil && q.pack != nil {
			x, y := p.val, q.val
			if x == nil {
				x, y = p.pack, q.pack
			}
			r.same(x, y, what)
			a, b = a[1:], b[1:]
			continue
		}
		break
	}
	for _, p := range append(append([]piece{}, a...), b...) {
		if p.loop != nil || p.t != nil && !r.knownText(p.t) {
			r.stuck("%s: %s and %s", what, showPieces(a), showPieces(b))
		}
	}
	r.violation("%s: %s differs from %s", what, showPieces(a), showPieces(b))
}

// knownText: two such terms that differ are different texts.
func (r *Run) knownText(t *Term) bool {
	return plainText(t) || t.op == "jsonstr" || t.op == "byte" || t.op == "sym" || t.op == "strconv.Quote" || t.op == "call:String"
}

// ---- JSON

// jsonM is a push-down automaton over JSON text.
type jsonM struct {
	stack []byte // '[' '{'
	mode  byte   // v value, V value or ], k key, K key or }, : colon, e behind a value, s string, \ escape, u digits of an escape, l literal
	isKey bool   // the string being read is a key
	hex   int
	lit   string
	key   []piece // of the entry being read
	cur   []piece // content of the string or value being read
	r     *Run
	what  string
	emit  func(key, val []piece)
}

func (m *jsonM) state() string {
	return fmt.Sprintf("%s|%c|%v|%d|%s", m.stack, m.mode, m.isKey, m.hex, m.lit)
}

func (m *jsonM) bad(why string, p interface{}) {
	m.r.violation("%s: %s: %v", m.what, why, p)
}

func (m *jsonM) top() byte {
	if len(m.stack) == 0 {
		return 0
	}
	return m.stack[len(m.stack)-1]
}

// value: a complete value was read.
func (m *jsonM) value(v []piece) {
	m.mode = 'e'
	if len(m.stack) == 1 && m.emit != nil {
		m.emit(m.key, v)
	}
	m.key, m.cur = nil, nil
}

func (m *jsonM) flush() {
	if m.mode != 'l' {
		return
	}
	m.r.e.obligations++
	if !json.Valid([]byte(m.lit)) {
		m.bad("no JSON value", fmt.Sprintf("%q", m.lit))
	}
	l := m.lit
	m.lit = ""
	m.value([]piece{{s: l}})
}

func (m *jsonM) char(c byte) {
	switch m.mode {
	case 's':
		switch {
		case c == '"':
			if m.isKey {
				m.key, m.cur, m.mode = m.cur, nil, ':'
			} else {
				m.value(append([]piece{{s: `"`}}, m.cur...))
			}
			return
		case c == '\\':
			m.mode = '\\'
		case c < ' ':
			m.bad("an unescaped control character in a string", c)
		}
		m.cur = addPiece(m.cur, piece{s: string([]byte{c})})
		return
	case '\\':
		m.cur = addPiece(m.cur, piece{s: string([]byte{c})})
		m.mode = 's'
		if c == 'u' {
			m.mode, m.hex = 'u', 4
		} else if !strings.ContainsRune(`"\/bfnrt`, rune(c)) {
			m.bad("an invalid escape in a string", fmt.Sprintf(`\%c`, c))
		}
		return
	case 'u':
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) {
			m.bad("an invalid escape in a string", string([]byte{c}))
		}
		if m.hex--; m.hex == 0 {
			m.mode = 's'
		}
		return
	case 'l':
		if c == '.' || c == '+' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			m.lit += string([]byte{c})
			return
		}
		m.flush()
	}
	if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
		return
	}
	at := func(modes string) {
		if strings.IndexByte(modes, m.mode) < 0 {
			m.bad("unexpected", fmt.Sprintf("%q %s", c, m.where()))
		}
	}
	switch c {
	case '[', '{':
		at("vV")
		m.stack = append(m.stack[:len(m.stack):len(m.stack)], c)
		m.mode = map[byte]byte{'[': 'V', '{': 'K'}[c]
	case ']', '}':
		at(map[byte]string{']': "Ve", '}': "Ke"}[c])
		if t := m.top(); t == 0 || (t == '[') != (c == ']') {
			m.bad("unbalanced", string([]byte{c}))
		}
		m.stack = m.stack[:len(m.stack)-1]
		m.value([]piece{{s: "…"}})
	case ',':
		at("e")
		if m.top() == 0 {
			m.bad("a separator outside lists and maps", ",")
		}
		m.mode = map[byte]byte{'[': 'v', '{': 'k'}[m.top()]
	case ':':
		at(":")
		m.mode = 'v'
	case '"':
		at("vVkK")
		m.isKey = m.mode == 'k' || m.mode == 'K'
		m.mode, m.cur = 's', nil
	default:
		at("vV")
		m.mode, m.lit = 'l', string([]byte{c})
	}
}

func (m *jsonM) where() string {
	switch m.mode {
	case 'v', 'V':
		return "where a value is due"
	case 'k', 'K':
		return "where a key is due"
	case ':':
		return "behind a key"
	case 'e':
		return "behind a value"
	}
	return "inside a string"
}

func (m *jsonM) feed(ps []piece) {
	r := m.r
	for _, p := range ps {
		switch {
		case p.loop != nil:
			m.flush()
			m.loop(p.loop)
		case p.val != nil:
			m.flush()
			r.e.obligations++
			if m.mode != 'v' && m.mode != 'V' {
				m.bad("a value "+m.where(), p)
			}
			m.value([]piece{p})
		case p.t != nil:
			m.text(p)
		default:
			for i := 0; i < len(p.s); i++ {
				m.char(p.s[i])
			}
		}
	}
}

// text: text depending on an input.
func (m *jsonM) text(p piece) {
	r, t := m.r, p.t
	r.e.obligations++
	inStr := m.mode == 's'
	switch {
	case t.op == "jsonstr":
		m.flush()
		switch m.mode {
		case 'v', 'V':
			m.value([]piece{p})
		case 'k', 'K':
			m.key, m.mode = []piece{p}, ':'
		default:
			m.bad("a quoted string "+m.where(), p)
		}
	case plainText(t):
		if inStr {
			m.cur = addPiece(m.cur, p)
			return
		}
		if m.mode == 'l' {
			r.stuck("%s: number behind %q", m.what, m.lit)
		}
		if m.mode != 'v' && m.mode != 'V' {
			m.bad("unquoted text "+m.where(), p)
		}
		switch t.op {
		case "itoa", "strconv.FormatBool":
			m.value([]piece{p})
		case "strconv.FormatInt", "strconv.FormatUint":
			if b, ok := t.args[1].(*Term).int64(); !ok || b != 10 {
				m.bad("a number not in decimal", p)
			}
			m.value([]piece{p})
		case "strconv.FormatFloat":
			x := t.args[0].(*Term)
			r.must(Not(isNaNAtom(x)), "%s: NaN written as a number", m.what)
			r.must(Not(isInfAtom(x, 0)), "%s: an infinity written as a number", m.what)
			f, ok := t.args[1].(*Term).int64()
			if ok && strings.IndexByte("bxX", byte(f)) >= 0 {
				m.bad("a number not in decimal", p)
			}
			m.value([]piece{p})
		default:
			m.bad("text without quotes", p)
		}
	case t.op == "sym" || t.op == "call:Key" || t.op == "bytes" && inStr || t.op == "byte" || t.op == "strconv.Quote" || t.op == "elem" || t.op == "substr":
		if t.op == "strconv.Quote" {
			m.bad("text quoted by Go rules, which are not those of JSON", p)
		}
		m.bad("text that is not escaped", p)
	default:
		r.stuck("%s: text %s", m.what, t)
	}
}

// loop: the first iteration sets a state every later one has to return to.
func (m *jsonM) loop(l *LoopEv) {
	r := m.r
	if m.mode == 's' || m.mode == 'u' || m.mode == '\\' {
		r.stuck("%s: a loop inside a string", m.what)
	}
	run := func(j *Term, alt LoopAlt) {
		for _, c := range alt.conds {
			r.assume(substT(c, l.j, j))
		}
		s := &substituter{x: l.j, by: j, memo: map[*Term]*Term{}}
		var body []Event
		for _, x := range alt.evs {
			body = append(body, s.event(x))
		}
		m.feed(r.evPieces(body))
		m.flush()
	}
	first := r.freshInt("it", nil)
	r.assume(EqI(first, l.from))
	run(l.from, l.alts[r.choose(len(l.alts))])
	if !r.Decide(Lt(AddC(l.from, 1), l.n)) {
		return
	}
	if r.choose(2) == 0 {
		st := m.state()
		j := r.freshInt("it", nil)
		r.assume(Gt(j, l.from))
		r.assume(Lt(j, l.n))
		m.skip(Sub(j, AddC(l.from, 1)))
		run(j, l.alts[r.choose(len(l.alts))])
		r.e.obligations++
		if m.state() != st {
			m.bad("elements are not written alike", Event{op: "loop", loop: l})
		}
		panic(pathEnd{kind: "bound"})
	}
	m.skip(Sub(l.n, AddC(l.from, 1)))
}

// skip: the iterations in between each write one child.
func (m *jsonM) skip(n *Term) {
	if m.emit != nil && len(m.stack) == 1 {
		m.emit(nil, []piece{{t: n}, {s: "skip"}})
	}
}

func (m *jsonM) end() {
	m.flush()
	m.r.e.obligations++
	if m.mode != 'e' || len(m.stack) != 0 {
		m.bad("incomplete", fmt.Sprintf("%d lists or maps are open, %s", len(m.stack), m.where()))
	}
}

func (r *Run) newJSON(what string) *jsonM { return &jsonM{mode: 'v', r: r, what: what} }

// builder is a new strings.Builder.
func (r *Run) builder() *PtrV {
	t := r.e.stdType("strings", "Builder")
	id := r.st.newObj(&SinkV{kind: "builder"}, &Meta{fresh: true, origin: "the output", typ: t})
	return &PtrV{obj: id, typ: types.NewPointer(t)}
}

// print: the pieces PrintJSON writes.
func (r *Run) print(v Val) []piece {
	b := r.builder()
	r.m1(v, "PrintJSON", b)
	return r.textOf(r.load(b))
}

// marshal: the pieces of MarshalJSON.
func (r *Run) marshal(v Val, m, what string) []piece {
	res := r.method(v, m)
	r.must(r.isNil(res[1]), "%s.%s: an error", what, m)
	return r.textOf(r.pick(res[0]))
}

func checkC23(c *Check) {
	c.rule("PrintJSON, MarshalJSON and Jsonify of every kind of value, read as JSON with a push-down automaton: exactly one value; strings and keys only through JSON escaping or an alphabet that needs none; numbers only if finite; a child's JSON stands where a value is due (any number of children: the loop body returns to the state it starts in)")
	c.noPanic = false
	for _, g := range valueRigs() {
		g := g
		for _, bounded := range []bool{false, true} {
			if g.scalar && bounded {
				continue
			}
			name := ""
			if bounded {
				name = " (up to three entries)"
			}
			prep := func(r *Run) Val {
				r.e.unrollAll = bounded
				return r.build(g, "")
			}
			c.obl(g.name+".PrintJSON"+name, func(r *Run) {
				m := r.newJSON(g.name + ".PrintJSON")
				m.feed(r.print(prep(r)))
				m.end()
			})
			c.obl(g.name+".MarshalJSON"+name, func(r *Run) {
				m := r.newJSON(g.name + ".MarshalJSON")
				m.feed(r.marshal(prep(r), "MarshalJSON", g.name))
				m.end()
			})
		}
	}
	c.obl("Jsonify", func(r *Run) {
		m := r.newJSON("Jsonify")
		m.feed(r.textOf(r.call("Jsonify", r.in("val", r.T("Value")))))
		m.end()
	})
}

func checkC24(c *Check) {
	c.rule("MarshalJSON, PrintJSON and Jsonify (and String of lists and maps) of one arbitrary value write the same pieces of text; MarshalBinary, Pack and Hex the same bytes")
	c.noPanic = false
	for _, g := range valueRigs() {
		g := g
		for _, bounded := range []bool{false, true} {
			if g.scalar && bounded {
				continue
			}
			name := ""
			if bounded {
				name = " (up to three entries)"
			}
			prep := func(r *Run) Val {
				r.e.unrollAll = bounded
				return r.build(g, "")
			}
			c.obl(g.name+": JSON"+name, func(r *Run) {
				v := prep(r)
				want := r.print(v)
				switch r.choose(3) {
				case 0:
					r.sameText(r.marshal(v, "MarshalJSON", g.name), want, g.name+": MarshalJSON and PrintJSON")
				case 1:
					r.sameText(r.textOf(r.call("Jsonify", v)), want, g.name+": Jsonify and PrintJSON")
				case 2:
					if !g.scalar {
						r.sameText(r.textOf(r.m1(v, "String")), want, g.name+": String and PrintJSON")
					}
				}
			})
			c.obl(g.name+": bytes"+strings.Replace(name, "three", "two", 1), func(r *Run) {
				v := prep(r)
				if bounded {
					n := int64(2)
					if g.kind == "MAP" || g.name == "SparseList" {
						n = 1 // keys have many formats
					}
					r.assume(Le(r.collLen, IntC(n)))
				}
				w, buf := r.buffer()
				p := r.iface(r.packerOn(w))
				r.m1(v, "Pack", p)
				e := r.m1(p, "Error")
				want := r.binary(r.load(buf))
				switch r.choose(3) {
				case 0:
					res := r.method(v, "MarshalBinary")
					r.iff(r.isNil(res[1]), r.isNil(e), g.name+": error of MarshalBinary and of Pack")
					if r.Decide(r.isNil(e)) {
						r.sameBytes(r.binary(r.pick(res[0])), want, g.name+": MarshalBinary and Pack")
					}
				case 1:
					t := r.call("Pack", v).(*TupleV)
					r.iff(r.isNil(t.vs[1]), r.isNil(e), g.name+": error of the function Pack and of Pack")
					if r.Decide(r.isNil(e)) {
						r.sameBytes(r.binary(r.pick(t.vs[0])), want, g.name+": the function Pack and Pack")
					}
				case 2:
					h, ok := r.pick(r.call("Hex", v)).(*Term)
					if !ok || h.op != "encoding/hex.EncodeToString" {
						r.stuck("%s: Hex is %s", g.name, show(h))
					}
					r.sameBytes(r.binary(h.args[0]), want, g.name+": Hex and Pack")
				}
			})
		}
	}
	c.obl("Jsonify(nil)", func(r *Run) {
		v := r.in("val", r.T("Value"))
		ps := r.textOf(r.call("Jsonify", v))
		if r.Decide(r.isNil(v)) {
			r.sameText(ps, []piece{{s: "null"}}, "Jsonify(nil)")
		} else {
			r.sameText(ps, []piece{{val: v}}, "Jsonify")
		}
	})
	c.obl("Pack and Hex of nil", func(r *Run) {
		v := r.in("val", r.T("Value"))
		want := []piece{{pack: v}}
		if r.Decide(r.isNil(v)) {
			want = []piece{{s: "\xc0"}}
		}
		if r.choose(2) == 0 {
			t := r.call("Pack", v).(*TupleV)
			r.sameText(r.textOf(r.pick(t.vs[0])), want, "the function Pack")
			return
		}
		h, ok := r.pick(r.call("Hex", v)).(*Term)
		if !ok || h.op != "encoding/hex.EncodeToString" {
			r.stuck("Hex is %s", show(h))
		}
		r.sameText(r.textOf(h.args[0]), want, "Hex")
	})
}

// binary output: byte sequences between packed values and loops.
type chunk struct {
	segs []Seg
	n    *Term
	pack Val
	loop *LoopEv
}

func (r *Run) binary(v Val) []chunk {
	var out []chunk
	add := func(segs []Seg, n *Term) {
		if k := len(out); k > 0 && out[k-1].pack == nil && out[k-1].loop == nil {
			c := &out[k-1]
			c.segs = append(c.segs[:len(c.segs):len(c.segs)], shiftSegs(segs, c.n)...)
			c.n = Add(c.n, n)
			return
		}
		out = append(out, chunk{segs: segs, n: n})
	}
	switch x := v.(type) {
	case *SliceV:
		if x.obj == 0 {
			return nil
		}
		return r.binary(r.freezeSlice(x))
	case *SeqV:
		if len(x.segs) == 1 && x.segs[0].kv != nil {
			if b, ok := x.segs[0].body.(*Term); ok && b.op == "elem" && b.args[1] == Val(x.segs[0].kv) {
				if y, ok := b.args[0].(*Term); ok && y.op == "sinkbytes" && r.entails(EqI(x.n, AppR("len", bigZero, nil, y))) {
					return r.binary(y.args[0])
				}
			}
		}
		add(x.segs, x.n)
	case *SinkV:
		for _, e := range x.evs {
			switch {
			case e.loop != nil:
				if r.Decide(Lt(e.loop.from, e.loop.n)) {
					out = append(out, chunk{loop: e.loop})
				}
			case e.op == "b":
				q := e.args[0].(*SeqV)
				add(q.segs, q.n)
			case e.op == "s":
				b := r.bytesOf(e.args[0].(*Term), bytesT)
				add(r.sliceSegs(b), b.len)
			case e.op == "pack":
				out = append(out, chunk{pack: e.args[0]})
			default:
				r.stuck("output %s", e)
			}
		}
	case *NilV:
	default:
		r.stuck("output %s", show(v))
	}
	return out
}

func (c chunk) key() string {
	switch {
	case c.pack != nil:
		return "p" + c.pack.key()
	case c.loop != nil:
		return "l" + Event{op: "loop", loop: c.loop}.key()
	}
	return segsKey(c.segs)
}

func (r *Run) sameBytes(a, b []chunk, what string) {
	r.e.obligations++
	for i := 0; i < len(a) && i < len(b); i++ {
		p, q := a[i], b[i]
		if p.key() == q.key() {
			continue
		}
		switch {
		case p.loop != nil && q.loop != nil && r.sameLoop(p.loop, q.loop):
		case p.loop != nil || q.loop != nil:
			r.stuck("%s: loops", what)
		case p.pack != nil && q.pack != nil:
			r.same(p.pack, q.pack, what)
		case p.pack != nil || q.pack != nil:
			r.violation("%s: a packed value in one place and bytes in the other", what)
		default:
			at := func(segs []Seg) func(r *Run, k *Term) Val {
				segs = r.clean(segs)
				return func(r *Run, k *Term) Val { return r.segRead(segs, k) }
			}
			r.checkSeqs(ESeq{p.n, at(p.segs)}, ESeq{q.n, at(q.segs)}, what)
		}
	}
	if len(a) != len(b) {
		for _, p := range append(append([]chunk{}, a...), b...) {
			if p.loop != nil {
				r.stuck("%s: loops", what)
			}
		}
		r.violation("%s: one writes %d parts, the other %d", what, len(a), len(b))
	}
}

// ---- C39: what the JSON of a list or map shows

func checkC39(c *Check) {
	c.rule("the children read back from the JSON of a list or map are its elements or entries, each once, in order, with the key's text; scalars print their payload")
	c.noPanic = false
	for _, g := range collRigs() {
		g := g
		for _, bounded := range []bool{false, true} {
			name := g.name
			if bounded {
				name += " (up to three entries)"
			}
			c.obl(name, func(r *Run) {
				r.e.unrollAll = bounded
				q := g.mk(r)
				ps := r.print(q.v)
				what := g.name + ".PrintJSON"
				m := r.newJSON(what)
				pos := IntC(0)
				m.emit = func(key, val []piece) {
					r.e.obligations++
					if len(val) == 2 && val[1].s == "skip" {
						pos = Add(pos, val[0].t)
						return
					}
					if !r.Decide(Lt(pos, q.n)) {
						r.violation("%s: more children than entries", what)
					}
					if g.kind == "list" {
						r.sameChild(val, q.value(r, pos), what)
					} else {
						k := r.pick(q.key(r, pos)).(*Term)
						if k.sort == SInt {
							r.sameText(key, []piece{{t: itoa(k)}}, what+": key")
						} else {
							r.sameText(key, []piece{{t: jsonStr(k)}}, what+": key")
						}
						r.sameChild(val, q.value(r, pos), what)
					}
					pos = AddC(pos, 1)
				}
				m.feed(ps)
				r.must(EqI(pos, q.n), "%s: %s children for %s entries", what, pos, q.n)
				r.e.obligations++
				want := map[bool]byte{true: '[', false: '{'}[g.kind == "list"]
				if len(ps) == 0 || len(ps[0].s) == 0 || strings.TrimSpace(ps[0].s)[0] != want {
					r.violation("%s: does not begin with %c: %s", what, want, showPieces(ps))
				}
			})
		}
	}
	for _, g := range valueRigs() {
		g := g
		if !g.scalar {
			continue
		}
		c.obl(g.name, func(r *Run) {
			v := r.build(g, "")
			ps := r.print(v)
			what := g.name + ".PrintJSON"
			switch g.name {
			case "Null":
				r.sameText(ps, []piece{{s: "null"}}, what)
			case "Boolean":
				r.boolText(ps, r.content(g, ""), what)
			case "Long":
				r.sameText(ps, []piece{{t: itoa(Sym(SInt, "v", types.Typ[types.Int64]))}}, what)
			case "Utf8":
				r.sameText(ps, []piece{{t: jsonStr(r.content(g, ""))}}, what)
			default:
				r.stringText(g, v, ps, what)
			}
		})
	}
}

func (r *Run) boolText(ps []piece, b *Term, what string) {
	if len(ps) == 1 && ps[0].t != nil && ps[0].t.op == "strconv.FormatBool" {
		r.same(ps[0].t.args[0], b, what)
		return
	}
	want := "false"
	if r.Decide(b) {
		want = "true"
	}
	r.sameText(ps, []piece{{s: want}}, what)
}

// stringText: the JSON is the quoted string form (doubles: unquoted, null for
// what JSON cannot express).
func (r *Run) stringText(g valueRig, v Val, ps []piece, what string) {
	str := r.strPieces(r.pick(r.m1(v, "String")).(*Term))
	if g.name == "Double" {
		d := Sym(SFloat, "v", types.Typ[types.Float64])
		if r.Decide(Or(isNaNAtom(d), isInfAtom(d, 0))) {
			str = []piece{{s: "null"}}
		}
		r.sameText(ps, str, what)
		return
	}
	r.sameText(ps, addPiece(addPiece([]piece{{s: `"`}}, str...), piece{s: `"`}), what)
}

// sameChild: the JSON of a stored value, null for nil.
func (r *Run) sameChild(val []piece, want Val, what string) {
	if len(val) == 1 && val[0].val != nil {
		r.same(val[0].val, want, what)
		return
	}
	if len(val) == 1 && val[0].isConst() && val[0].s == "null" {
		if t, ok := r.pick(want).(*Term); ok {
			r.must(Or(IsNilAtom(t), eqNullAtom(t), EqI(kindOf(t), IntC(kindNULL))), "%s: null for a value that is not", what)
			return
		}
		r.must(r.isNil(want), "%s: null for a value that is not", what)
		return
	}
	for _, p := range val {
		if p.t != nil {
			r.stuck("%s: child %s", what, showPieces(val))
		}
	}
	r.violation("%s: %s for %s", what, showPieces(val), show(want))
}
