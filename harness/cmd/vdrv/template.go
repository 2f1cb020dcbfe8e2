package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

	"verifharness/trace"
	"verifharness/wire"
)

// Messages with placeholders, filled step by step.

type tEl struct {
	K  string `json:"k"`
	S  string `json:"s"`
	Lo int    `json:"lo"`
	Hi int    `json:"hi"`
}

type tIt struct {
	T string `json:"t"`
	K []*tIt `json:"k"`
	E []tEl  `json:"e"`
}

type tVal struct {
	N  string `json:"n"`
	K  string `json:"k"`
	S  string `json:"s"`
	C  int    `json:"c"`
	Nd *tIt   `json:"nd"`
}

type tHdr struct {
	Name string `json:"name"`
	S    int    `json:"s"`
	F    int    `json:"f"`
	W    int    `json:"w"`
	Dir  string `json:"dir"`
	Sess int    `json:"sess"`
	Sys  int    `json:"sys"`
}

var tEmpty = &tIt{T: "E", K: []*tIt{}, E: []tEl{}}

// The tables of Template.tla
var tGood = map[string][]string{
	"A": {"", "x", "abc", "a long text with blanks", "T", "v1", "..."}, "B": {"0", "1", "127", "128", "255"}, "BOOL": {"0", "1"},
	"U1": {"0", "7", "255"}, "U2": {"0", "256", "65535"}, "U4": {"0", "65536", "4294967295"}, "U8": {"0", "4294967296", "9223372036854775808", "18446744073709551615"},
	"I1": {"0", "127", "-128", "-1"}, "I2": {"0", "32767", "-32768", "128"}, "I4": {"0", "2147483647", "-2147483648", "32768"},
	"I8": {"0", "9223372036854775807", "-9223372036854775808", "2147483648"},
	"F4": {"3ff8000000000000", "0", "bfd0000000000000", "c000000000000000"}, "F8": {"3ff8000000000000", "0", "bfd0000000000000", "c000000000000000"},
}
var tBad = map[string][]string{
	"A": {"\\xe9"}, "B": {"256", "-1", "0b2", "0b100000000", "0bx"}, "BOOL": {"2"}, "U1": {"256", "-1", "65536"}, "U2": {"65536", "-1", "4294967296"},
	"U4": {"4294967296", "-1"}, "U8": {"-1", "-9223372036854775808"}, "I1": {"128", "-129", "256"}, "I2": {"32768", "-32769", "65536"},
	"I4": {"2147483648", "-2147483649", "4294967296"}, "I8": {"9223372036854775808", "18446744073709551615"}, "F4": {"7fefffffffffffff"},
}

type tmplX struct {
	r     *rand.Rand
	names []string
	typ   map[string]tIt // by name: its type and, for texts, bounds
	sml   bool
	ells  int // ellipses in items filled in so far
}

func (x *tmplX) pick(l []string) string { return l[x.r.Intn(len(l))] }

// name is a new one.
func (x *tmplX) name(t string, lo, hi int) string {
	var n string
	for {
		n = x.pick([]string{"v", "V", "_", "name", "v1", "v_2", "Very_long_name_9"})
		if x.r.Intn(2) == 0 {
			n += strconv.Itoa(x.r.Intn(12))
		}
		if x.r.Intn(12) == 0 {
			n += "[" + strconv.Itoa(x.r.Intn(3)) + "]"
		}
		if _, ok := x.typ[n]; !ok {
			break
		}
	}
	x.typ[n] = tIt{T: t, E: []tEl{{Lo: lo, Hi: hi}}}
	return n
}

// info tells which format the placeholder n has; two when n may stand for
// one of that name and for a copy of another in a repetition.
func (x *tmplX) info(n string) (it tIt, found int) {
	for {
		if v, ok := x.typ[n]; ok {
			it = v
			found++
		}
		i := strings.LastIndex(n, "[")
		if i <= 0 {
			return
		}
		n = n[:i]
	}
}

func (x *tmplX) item(depth, open int) *tIt {
	formats := []string{"A", "A", "B", "BOOL", "U1", "U2", "U4", "U8", "I1", "I2", "I4", "I8", "F4", "F8"}
	if depth > 0 && x.r.Intn(2) == 0 {
		it := &tIt{T: "L", K: []*tIt{}, E: []tEl{}}
		ell := false
		for i := x.r.Intn(5); i > 0; i-- {
			switch {
			case x.r.Intn(100) < open/2:
				it.K = append(it.K, &tIt{T: "IV", K: []*tIt{}, E: []tEl{{"var", x.name("IV", 0, -1), 0, -1}}})
			case x.r.Intn(15) == 0:
				it.K = append(it.K, tEmpty)
			default:
				it.K = append(it.K, x.item(depth-1, open))
			}
			if !ell && open > 0 && x.r.Intn(4) == 0 {
				ell = true
				it.K = append(it.K, &tIt{T: "ELL", K: []*tIt{}, E: []tEl{{"var", "...", 0, -1}}})
			}
		}
		return it
	}
	t := x.pick(formats)
	it := &tIt{T: t, K: []*tIt{}, E: []tEl{}}
	if t == "A" {
		if x.r.Intn(100) < open {
			b := [][2]int{{0, -1}, {0, -1}, {1, 3}, {3, 3}, {0, 1}, {1, -1}, {0, 0}, {3, 30}}[x.r.Intn(8)]
			it.E = append(it.E, tEl{"var", x.name(t, b[0], b[1]), b[0], b[1]})
		} else {
			it.E = append(it.E, tEl{"val", x.pick(tGood[t]), 0, -1})
		}
		return it
	}
	for i := x.r.Intn(5); i > 0; i-- {
		if x.r.Intn(100) < open {
			it.E = append(it.E, tEl{"var", x.name(t, 0, -1), 0, -1})
		} else {
			it.E = append(it.E, tEl{"val", x.pick(tGood[t]), 0, -1})
		}
	}
	return it
}

// ellipses gets the ellipses of an item, in order.
func (it *tIt) ellipses() []*tEl {
	var out []*tEl
	if it.T == "ELL" {
		return []*tEl{&it.E[0]}
	}
	for _, k := range it.K {
		out = append(out, k.ellipses()...)
	}
	return out
}

// gov is a value of format t as some Go value.
func (x *tmplX) gov(t, s string) interface{} {
	switch t {
	case "A":
		return string([]rune(strings.ReplaceAll(s, "\\xe9", "\u00e9")))
	case "BOOL":
		if s == "2" {
			return 2
		}
		return s == "1"
	case "F4", "F8":
		b, err := strconv.ParseUint(s, 16, 64)
		must(err)
		f := math.Float64frombits(b)
		if f == -2 && x.r.Intn(2) == 0 {
			return []interface{}{-2, int64(-2), int8(-2)}[x.r.Intn(3)]
		}
		if float64(float32(f)) == f && x.r.Intn(2) == 0 {
			return float32(f)
		}
		return f
	}
	if strings.HasPrefix(s, "0b") {
		return s
	}
	var c []interface{}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		c = append(c, int(v))
		if t == "B" {
			if v >= 0 && v < 128 {
				c = append(c, int8(v))
			}
			if v >= 0 && v < 256 {
				c = append(c, uint8(v), "0b"+strconv.FormatInt(v, 2))
			}
			return c[x.r.Intn(len(c))]
		}
		c = append(c, v)
		if int64(int8(v)) == v {
			c = append(c, int8(v))
		}
		if int64(int16(v)) == v {
			c = append(c, int16(v))
		}
		if int64(int32(v)) == v {
			c = append(c, int32(v))
		}
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		c = append(c, v, uint(v))
		if uint64(uint8(v)) == v {
			c = append(c, uint8(v))
		}
		if uint64(uint16(v)) == v {
			c = append(c, uint16(v))
		}
		if uint64(uint32(v)) == v {
			c = append(c, uint32(v))
		}
	}
	return c[x.r.Intn(len(c))]
}

func (x *tmplX) build(it *tIt) ast.ItemNode {
	var vs []interface{}
	switch it.T {
	case "E":
		return ast.NewEmptyItemNode()
	case "L":
		for _, k := range it.K {
			if k.T == "IV" || k.T == "ELL" {
				vs = append(vs, k.E[0].S)
			} else {
				vs = append(vs, x.build(k))
			}
		}
		return ast.NewListNode(vs...)
	case "A":
		if it.E[0].K == "var" {
			return ast.NewASCIINodeVariable(it.E[0].S, it.E[0].Lo, it.E[0].Hi)
		}
		return ast.NewASCIINode(it.E[0].S)
	}
	for _, e := range it.E {
		if e.K == "var" {
			vs = append(vs, e.S)
		} else {
			vs = append(vs, x.gov(it.T, e.S))
		}
	}
	switch it.T {
	case "B":
		return ast.NewBinaryNode(vs...)
	case "BOOL":
		return ast.NewBooleanNode(vs...)
	}
	w := wire.Width(it.T)
	switch it.T[0] {
	case 'U':
		return ast.NewUintNode(w, vs...)
	case 'I':
		return ast.NewIntNode(w, vs...)
	default:
		return ast.NewFloatNode(w, vs...)
	}
}

// text is the item as SML.
func (x *tmplX) text(it *tIt) string {
	switch it.T {
	case "E":
		return "<L[0]>"
	case "IV":
		return it.E[0].S
	case "ELL":
		return "..."
	case "L":
		s := "<L"
		for _, k := range it.K {
			s += x.pick([]string{" ", "\n\t", "  ", " // comment ...\n"}) + x.text(k)
		}
		return s + ">"
	case "A":
		e := it.E[0]
		if e.K == "val" {
			return `<A "` + e.S + `">`
		}
		switch {
		case e.Lo == e.Hi:
			return fmt.Sprintf("<A[%d] %s>", e.Lo, e.S)
		case e.Hi >= 0:
			return fmt.Sprintf("<A[%d..%d] %s>", e.Lo, e.Hi, e.S)
		case e.Lo > 0:
			return fmt.Sprintf("<A[%d..] %s>", e.Lo, e.S)
		}
		return "<A " + e.S + ">"
	}
	s := "<" + map[string]string{"BOOL": "BOOLEAN"}[it.T]
	if len(s) == 1 {
		s += it.T
	}
	for _, e := range it.E {
		s += " "
		switch {
		case e.K == "var":
			s += e.S
		case it.T == "BOOL":
			s += map[string]string{"0": "F", "1": "T"}[e.S]
		case it.T == "B":
			v, _ := strconv.Atoi(e.S)
			s += "0b" + strconv.FormatInt(int64(v), 2)
		case it.T[0] == 'F':
			b, _ := strconv.ParseUint(e.S, 16, 64)
			s += strconv.FormatFloat(math.Float64frombits(b), 'g', -1, 64)
		default:
			s += e.S
		}
	}
	return s + ">"
}

func (h tHdr) text() string {
	s := fmt.Sprintf("S%dF%d", h.S, h.F) + []string{"", " W", " [W]"}[h.W] + " " + h.Dir
	if h.Name != "" {
		s += " " + h.Name
	}
	return s
}

func sysOf(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// seen is what can be observed of a message.
func seen(m *ast.DataMessage) trace.E {
	vars := m.Variables()
	if vars == nil {
		vars = []string{}
	}
	nodes := func(b []byte) []wire.Node {
		if len(b) == 0 {
			return []wire.Node{}
		}
		it, rest, err := wire.Decode(b)
		if err != nil || len(rest) > 0 {
			return []wire.Node{{T: "undecodable", V: []string{}}}
		}
		return it.Nodes()
	}
	it, err := m.Get()
	must(err)
	w := map[string]int{"false": 0, "true": 1, "optional": 2}[m.WaitBit()]
	sys := 0
	for _, b := range m.SystemBytes() {
		sys = sys<<8 | int(b)
	}
	frame := []trace.E{}
	if b := m.ToBytes(); len(b) > 0 {
		f, err := wire.ParseFrame(b[4:])
		if err != nil {
			frame = append(frame, trace.E{"err": err.Error()})
		} else {
			fw := 0
			if f.Wait() {
				fw = 1
			}
			frame = append(frame, trace.E{"sess": int(f.Session), "s": f.Stream(), "f": f.Function(), "w": fw, "sys": int(f.Sys), "item": nodes(f.Text)})
		}
	}
	return trace.E{"vars": vars, "item": nodes(it.ToBytes()), "frame": frame,
		"hdr": tHdr{m.Name(), m.StreamCode(), m.FunctionCode(), w, m.Direction(), m.SessionID(), sys}}
}

var refusal string // what the last refusal said

func guarded(f func()) (res string) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(string); ok && strings.HasPrefix(s, "harness") {
				panic(p)
			}
			res = "refused"
			refusal = fmt.Sprint(p)
		}
	}()
	f()
	return "ok"
}

var suffix = regexp.MustCompile(`(\[\d+\])+$`)

func (x *tmplX) value(n string, good bool) (tVal, interface{}, bool) {
	v := tVal{N: n, Nd: tEmpty}
	if strings.HasPrefix(n, "...") {
		v.K, v.C = "count", []int{0, 1, 1, 2, 3}[x.r.Intn(5)]
		return v, v.C, true
	}
	i, found := x.info(n)
	if found > 1 {
		return v, nil, false
	}
	if found == 0 {
		i = tIt{T: "U1", E: []tEl{{}}}
	}
	v.K = "val"
	switch {
	case !good && x.r.Intn(3) == 0:
		v.K = "wrong"
		return v, struct{}{}, true
	case !good && i.T != "A" && x.r.Intn(3) == 0:
		v.K, v.S = "name", x.pick([]string{"9x", "a b", "x]", ""})
		return v, v.S, true
	case i.T != "A" && x.r.Intn(12) == 0:
		v.K, v.S = "name", x.name(i.T, 0, -1)
		return v, v.S, true
	case i.T == "IV":
		v.K = "item"
		v.Nd = x.item(2, 15)
		for _, e := range v.Nd.ellipses() {
			x.ells++
			e.S = fmt.Sprintf("...[%d]", 900+x.ells)
		}
		return v, x.build(v.Nd), true
	case !good && len(tBad[i.T]) > 0:
		v.S = x.pick(tBad[i.T])
	case i.T == "A" && good:
		for {
			v.S = x.pick(tGood["A"])
			if len(v.S) >= i.E[0].Lo && (i.E[0].Hi < 0 || len(v.S) <= i.E[0].Hi) || x.r.Intn(20) == 0 {
				break
			}
		}
	default:
		v.S = x.pick(tGood[i.T])
	}
	return v, x.gov(i.T, v.S), true
}

func tmplScn(e *Env, r *rand.Rand) []trace.E {
	x := &tmplX{r: r, typ: map[string]tIt{}}
	h := tHdr{S: r.Intn(128), F: r.Intn(256), W: r.Intn(3), Dir: x.pick([]string{"H->E", "H<-E", "H<->E"}), Sess: -1, Name: x.pick([]string{"", "name", "Long.Name-1"})}
	if h.F%2 == 0 && h.W == 1 {
		h.W = 0
	}
	open := []int{15, 30, 50, 80}[r.Intn(4)]
	nd := x.item(1+r.Intn(4), open)
	if r.Intn(20) == 0 {
		nd = tEmpty
	}
	var ms []*ast.DataMessage
	how := x.pick([]string{"made", "sml"})
	ells := nd.ellipses()
	perm := r.Perm(len(ells))
	for i, el := range ells {
		if len(ells) > 1 || r.Intn(3) == 0 {
			el.S = fmt.Sprintf("...[%d]", perm[i])
		}
	}
	res := guarded(func() {
		if how == "sml" {
			// The parser prints
			s := h.text() + "\n"
			if nd != tEmpty {
				s += x.text(nd)
			}
			l, errs, _ := sml.Parse(s + "\n.")
			if len(errs) > 0 || len(l) != 1 {
				panic(fmt.Sprint(errs))
			}
			ms = append(ms, l[0])
		} else {
			ms = append(ms, ast.NewDataMessage(h.Name, h.S, h.F, h.W, h.Dir, x.build(nd)))
		}
	})
	var out []trace.E
	log := func(l trace.E) {
		all := []trace.E{}
		for _, m := range ms {
			all = append(all, seen(m))
		}
		l["all"] = all
		out = append(out, l)
	}
	log(trace.E{"op": "new", "how": how, "hdr": h, "nd": nd, "res": res})
	if res != "ok" {
		return out
	}
	fill := func(from int, pickName func(string) bool, bad bool) string {
		vals := []tVal{}
		gv := map[string]interface{}{}
		add := func(n string, good bool) {
			if _, ok := gv[n]; ok {
				return
			}
			v, g, ok := x.value(n, good)
			if !ok {
				return
			}
			vals = append(vals, v)
			gv[n] = g
		}
		open := ms[from].Variables()
		badOne := -1
		if bad && len(open) > 0 {
			badOne = r.Intn(len(open))
		}
		ell := false
		for i, n := range open {
			if i == badOne || pickName(n) {
				add(n, i != badOne)
				ell = ell || strings.HasPrefix(n, "...")
			}
		}
		for _, n := range open {
			// Names after the expansion
			if ell && !strings.HasPrefix(n, "...") && r.Intn(3) == 0 {
				add(n+fmt.Sprintf("[%d]", r.Intn(3)), true)
			}
		}
		if r.Intn(5) == 0 {
			add(x.pick([]string{"nope", "v[7]", "V_", "...[77]", "name[0][0][0]"}), true)
		}
		var m *ast.DataMessage
		res := guarded(func() { m = ms[from].FillVariables(gv) })
		if res == "ok" {
			ms = append(ms, m)
		}
		for k := range gv {
			gv[k] = "clobbered" // the map is the caller's
		}
		l := trace.E{"op": "fill", "from": from + 1, "vals": vals, "res": res}
		if res != "ok" {
			l["why"] = refusal
		}
		log(l)
		return res
	}
	size := func() int { return len(ms[len(ms)-1].Variables()) }
	for steps := 2 + r.Intn(6); steps > 0 && len(ms) < 8 && size() < 60; steps-- {
		from := r.Intn(len(ms))
		switch r.Intn(8) {
		case 2, 3: // printed, and read again
			why := ""
			res := guarded(func() {
				l, errs, _ := sml.Parse(ms[from].String())
				if len(errs) > 0 || len(l) != 1 {
					panic(fmt.Sprint(errs, ms[from].String()))
				}
				ms = append(ms, l[0])
			})
			if res != "ok" {
				why = refusal
			}
			log(trace.E{"op": "print", "from": from + 1, "res": res, "why": why})
		case 0:
			sys := r.Intn(1 << 30)
			v := []int{0, 1, 65535, -1, r.Intn(65536)}[r.Intn(5)]
			b := sysOf(sys)
			ms = append(ms, ms[from].SetSessionIDAndSystemBytes(v, b))
			b[0], b[1], b[2], b[3] = 9, 9, 9, 9
			log(trace.E{"op": "set", "what": "sess", "from": from + 1, "v": v, "sys": sys, "res": "ok"})
		case 1:
			v := r.Intn(2)
			res := guarded(func() { ms = append(ms, ms[from].SetWaitBit(v == 1)) })
			log(trace.E{"op": "set", "what": "wait", "from": from + 1, "v": v, "sys": 0, "res": res})
		default:
			p := []int{10, 40, 70}[r.Intn(3)]
			fill(from, func(string) bool { return r.Intn(100) < p }, r.Intn(5) == 0)
		}
	}
	// Complete one
	for tries := 0; tries < 8 && size() > 0 && size() < 60; tries++ {
		from := len(ms) - 1
		onlyEll := r.Intn(2) == 0
		fill(from, func(n string) bool { return !onlyEll || strings.HasPrefix(n, "...") }, false)
	}
	m := ms[len(ms)-1]
	ms = append(ms, m.SetSessionIDAndSystemBytes(7, sysOf(77)))
	log(trace.E{"op": "set", "what": "sess", "from": len(ms) - 1, "v": 7, "sys": 77, "res": "ok"})
	return out
}

func init() {
	subs["template"] = func(e *Env) {
		for i, n := 0, e.Count(4000, 60000); i < n; i++ {
			e.T.LogAll(tmplScn(e, e.R))
		}
	}
}
