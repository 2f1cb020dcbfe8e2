package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

	"verifharness/astx"
	"verifharness/trace"
	"verifharness/wire"
)

// SML texts, made of tokens whose meaning is known, and printed messages.

type sTok = trace.E

type smlX struct {
	r     *rand.Rand
	vars  int
	plain bool // only tokens that are safe in any place
}

func (x *smlX) pick(l ...string) string { return l[x.r.Intn(len(l))] }

func tok(t, text string, kv ...interface{}) sTok {
	e := sTok{"t": t, "x": text, "odd": false}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	return e
}

// anyCase varies the case of letters.
func (x *smlX) anyCase(s string) string {
	b := []byte(s)
	for i := range b {
		if x.r.Intn(3) == 0 {
			b[i] = strings.ToLower(s)[i]
		}
	}
	return string(b)
}

var smlFormats = []string{"A", "B", "BOOL", "U1", "U2", "U4", "U8", "I1", "I2", "I4", "I8", "F4", "F8"}

func noForms() map[string]string {
	m := map[string]string{}
	for _, f := range smlFormats {
		m[f] = ""
	}
	return m
}

// intTok is an integer, written in some base.
func (x *smlX) intTok(v *big.Int, floatToo bool) sTok {
	as := noForms()
	in := func(lo, hi *big.Int) bool { return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 }
	one := big.NewInt(1)
	for _, w := range []uint{1, 2, 4, 8} {
		half := new(big.Int).Lsh(one, 8*w-1)
		if in(new(big.Int).Neg(half), new(big.Int).Sub(half, one)) {
			as[fmt.Sprintf("I%d", w)] = v.String()
		}
		if in(new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, 8*w), one)) {
			as[fmt.Sprintf("U%d", w)] = v.String()
		}
	}
	if in(new(big.Int), big.NewInt(255)) {
		as["B"] = v.String()
	}
	if in(new(big.Int), big.NewInt(127)) {
		as["A"] = wire.Esc([]byte{byte(v.Int64())})
	}
	abs := new(big.Int).Abs(v)
	sign := ""
	if v.Sign() < 0 {
		sign = "-"
	}
	text := ""
	base := x.r.Intn(5)
	if x.plain || floatToo {
		base = 0
	}
	switch base {
	case 1:
		text = x.pick("0x", "0X") + abs.Text(16)
		if x.r.Intn(2) == 0 {
			text = x.pick("0x", "0X") + strings.Repeat("0", x.r.Intn(3)) + strings.ToUpper(abs.Text(16))
		}
	case 2:
		text = x.pick("0b", "0B") + strings.Repeat("0", x.r.Intn(3)) + abs.Text(2)
	case 3:
		text = x.pick("0o", "0O") + abs.Text(8)
	default:
		text = abs.String()
		for _, f := range []string{"F4", "F8"} {
			as[f] = floatAs(sign+text, f)
		}
	}
	t := tok("num", sign+text, "as", as)
	if sign == "" && base == 0 && !x.plain && x.r.Intn(12) == 0 {
		t["x"], t["odd"] = "+"+text, true
	}
	return t
}

func floatAs(text, f string) string {
	bits := 32
	if f == "F8" {
		bits = 64
	}
	v, err := strconv.ParseFloat(text, bits)
	if err != nil {
		return ""
	}
	return strconv.FormatUint(math.Float64bits(v), 16)
}

func (x *smlX) floatTok(w int) sTok {
	v := randFloat(x.r, w)
	text := strconv.FormatFloat(v, "efg"[x.r.Intn(3)], -1, 64)
	switch x.r.Intn(8) {
	case 0:
		text = x.pick("1e400", "-1e400", "1e39", "-3.5e38", "1.8e308", "3.4028236e38")
	case 1:
		text = x.pick("1.", ".5", "-.25", "1.e3", "0.0", "-0.0", "1E5", "1e+5", "2.5E-3")
	}
	if len(text) > 400 {
		text = "1.5"
	}
	if x.r.Intn(2) == 0 {
		text = strings.ToUpper(text)
	}
	as := noForms()
	as["F4"], as["F8"] = floatAs(text, "F4"), floatAs(text, "F8")
	if !strings.ContainsAny(text, ".eE") {
		// An integer
		v, ok := new(big.Int).SetString(text, 10)
		if !ok {
			panic("harness: " + text)
		}
		if text == "-0" {
			return x.floatTok(w)
		}
		return x.intTok(v, true)
	}
	return tok("num", text, "as", as)
}

func (x *smlX) bigOf(f string) *big.Int {
	if f == "B" {
		return big.NewInt(int64(x.r.Intn(256)))
	}
	if f == "A" {
		return big.NewInt(int64(x.r.Intn(128)))
	}
	if f[0] == 'U' {
		return new(big.Int).SetUint64(randUint(x.r, wire.Width(f)))
	}
	return big.NewInt(randInt(x.r, wire.Width(f)))
}

// beyond is a number just out of range of some format.
func (x *smlX) beyond() *big.Int {
	v := new(big.Int).Lsh(big.NewInt(1), []uint{7, 8, 15, 16, 31, 32, 63, 64, 70}[x.r.Intn(9)])
	switch x.r.Intn(4) {
	case 0:
		v.Neg(v)
	case 1:
		v.Neg(v).Sub(v, big.NewInt(1))
	}
	return v
}

func (x *smlX) strTok() sTok {
	n := x.r.Intn(12)
	var b []byte
	for i := 0; i < n; i++ {
		c := byte(32 + x.r.Intn(95))
		if c == '"' || c == '\\' {
			c = []byte("//..<>[]'")[x.r.Intn(9)]
		}
		b = append(b, c)
	}
	if x.plain {
		b = []byte(x.pick("", "ab", "xyz"))
	}
	return tok("str", `"`+string(b)+`"`, "v", wire.Esc(b), "n", len(b), "bad", false)
}

func (x *smlX) varTok() sTok {
	x.vars++
	n := x.pick("v", "_", "name", "Ab_9", "x1", "Tt", "ff", "a0", "ll", "BOOL", "U3", "I", "v[0]", "v[1][2]") + x.pick("", "_", "z")
	if strings.HasSuffix(n, "]_") || strings.HasSuffix(n, "]z") || strings.HasSuffix(n, "I") {
		n = "vv"
	}
	if x.r.Intn(10) > 0 {
		n = "v" + strconv.Itoa(x.vars) + n
	}
	if x.plain {
		n = "v" + strconv.Itoa(x.vars)
	}
	return tok("var", n)
}

func (x *smlX) typeTok(f string) sTok {
	n := f
	if f == "BOOL" {
		n = "BOOLEAN"
	}
	return tok("type", x.anyCase(n), "f", f)
}

func (x *smlX) sizeTok(lo, hi int) sTok {
	sp := func() string {
		if x.plain {
			return ""
		}
		return x.pick("", "", "", " ", "\t", "\n ")
	}
	a, b := strconv.Itoa(lo), strconv.Itoa(hi)
	var s string
	switch {
	case lo == hi && x.r.Intn(3) > 0:
		s = sp() + a + sp()
	case hi < 0:
		s = sp() + a + sp() + ".." + sp()
	case lo == 0 && x.r.Intn(2) == 0:
		s = sp() + ".." + sp() + b + sp()
	default:
		s = sp() + a + sp() + ".." + sp() + b + sp()
	}
	return tok("size", "["+s+"]", "lo", lo, "hi", hi)
}

// sizes makes the size notation of an item of n elements.
func (x *smlX) sizes(n int) []sTok {
	switch x.r.Intn(6) {
	case 0, 1:
		return []sTok{x.sizeTok(n, n)}
	case 2:
		return []sTok{x.sizeTok(x.r.Intn(n+1), -1)}
	case 3:
		return []sTok{x.sizeTok(x.r.Intn(n+1), n+x.r.Intn(3))}
	}
	return nil
}

func (x *smlX) item(depth, open int) []sTok {
	f := smlFormats[x.r.Intn(len(smlFormats))]
	if depth > 0 && x.r.Intn(3) == 0 {
		f = "L"
	}
	out := []sTok{tok("lab", "<"), x.typeTok(f)}
	var body []sTok
	n := x.r.Intn(5)
	size := true
	switch {
	case f == "L":
		ell := false
		for i := 0; i < n; i++ {
			if x.r.Intn(100) < open {
				body = append(body, x.varTok())
			} else {
				body = append(body, x.item(depth-1, open)...)
			}
			if open > 0 && !ell && x.r.Intn(5) == 0 {
				ell, size = true, false
				body = append(body, tok("ell", x.pick("...", "...", "...[0]", "...[12]")))
			}
		}
	case f == "A":
		if x.r.Intn(100) < open {
			body = append(body, x.varTok())
			n = x.r.Intn(4)
			break
		}
		total := 0
		for i := 0; i < n; i++ {
			if x.r.Intn(2) == 0 {
				t := x.strTok()
				total += t["n"].(int)
				body = append(body, t)
			} else {
				total++
				body = append(body, x.intTok(x.bigOf(f), false))
			}
		}
		n = total
	default:
		for i := 0; i < n; i++ {
			switch {
			case x.r.Intn(100) < open:
				body = append(body, x.varTok())
			case f == "BOOL":
				body = append(body, x.boolTok())
			case f[0] == 'F':
				body = append(body, x.floatTok(wire.Width(f)))
			default:
				body = append(body, x.intTok(x.bigOf(f), false))
			}
		}
	}
	if size {
		out = append(out, x.sizes(n)...)
	}
	out = append(out, body...)
	return append(out, tok("rab", ">"))
}

func (x *smlX) boolTok() sTok {
	if x.r.Intn(2) == 0 {
		return tok("bool", x.pick("T", "t"), "v", "1")
	}
	return tok("bool", x.pick("F", "f"), "v", "0")
}

func (x *smlX) sfTok() sTok {
	s, f := x.r.Intn(128), x.r.Intn(256)
	return tok("sf", x.pick("S", "s")+strconv.Itoa(s)+x.pick("F", "f")+strconv.Itoa(f), "s", s, "f", f)
}

func (x *smlX) dirTok() sTok {
	d := x.pick("H->E", "H<-E", "H<->E")
	return tok("dir", x.anyCase(d), "d", d)
}

func (x *smlX) waitTok(even bool) sTok {
	if even || x.r.Intn(3) == 0 {
		return tok("wait", x.pick("[W]", "[w]"), "w", 2)
	}
	return tok("wait", x.pick("W", "w"), "w", 1)
}

var smlNames = []string{"Msg_1", "a.b-c", "名前", "x/y", `q"uote`, "5", "a>b", "a<b", "T", "L", "@", "ü", "(x)", "x...", "EstablishComm", "h", "s", "S1", "SxF1"}

func (x *smlX) message() []sTok {
	sf := x.sfTok()
	out := []sTok{sf}
	if x.r.Intn(2) == 0 {
		out = append(out, x.waitTok(sf["f"].(int)%2 == 0))
	}
	if x.r.Intn(4) > 0 {
		out = append(out, x.dirTok())
	}
	if x.r.Intn(2) == 0 {
		n := x.pick(smlNames...)
		if x.plain {
			n = x.pick("Msg", "a_b", "x")
		}
		out = append(out, tok("name", n))
	}
	if x.r.Intn(8) > 0 {
		out = append(out, x.item(x.r.Intn(4), []int{0, 0, 10, 30}[x.r.Intn(4)])...)
	}
	return append(out, tok("end", "."))
}

// mutate spoils a text, or not quite.
func (x *smlX) mutate(ks []sTok) []sTok {
	at := func(n int) int { return x.r.Intn(n) }
	find := func(t string) int {
		for try := 0; try < 20; try++ {
			if i := at(len(ks)); ks[i]["t"] == t {
				return i
			}
		}
		return -1
	}
	put := func(i int, t ...sTok) {
		ks = append(append(append([]sTok{}, ks[:i]...), t...), ks[i:]...)
	}
	if len(ks) < 2 {
		return ks
	}
	switch x.r.Intn(13) {
	case 0:
		i := at(len(ks))
		ks = append(append([]sTok{}, ks[:i]...), ks[i+1:]...)
	case 1:
		i := at(len(ks))
		put(i, ks[i])
	case 2:
		i := at(len(ks) - 1)
		ks[i], ks[i+1] = ks[i+1], ks[i]
	case 3:
		ks = ks[:at(len(ks))]
	case 4:
		t := []sTok{tok("lab", "<"), tok("rab", ">"), tok("end", "."), x.intTok(big.NewInt(int64(x.r.Intn(300))), false), x.boolTok(), x.typeTok(x.pick("A", "L", "U1", "BOOL")),
			x.sizeTok(x.r.Intn(3), x.r.Intn(3)), tok("junk", x.pick("@", "=", "*", ";", "12ab", "0xZ", "\u00e9", "\x7f")), x.varTok(), x.strTok()}[x.r.Intn(10)]
		put(at(len(ks)+1), t)
	case 5:
		if i := find("type"); i >= 0 {
			ks[i] = x.typeTok(smlFormats[at(len(smlFormats))])
		}
	case 6:
		if i := find("type"); i >= 0 {
			ks[i] = tok("var", x.pick("U3", "X", "BOOL", "U16", "LL", "i3", "F", "STR"))
			if ks[i]["x"] == "F" {
				ks[i] = tok("bool", "F", "v", "0")
			}
		}
	case 7:
		if i := find("num"); i >= 0 {
			ks[i] = x.intTok(x.beyond(), false)
			if x.r.Intn(3) == 0 {
				ks[i] = tok("num", x.pick("1.5", "0x", "-", "+", "1e3", "0b", "5.", "1e", "0o", "-0x"), "as", noForms())
				if !strings.ContainsAny(ks[i]["x"].(string)[:1], "15") {
					break
				}
				as := noForms()
				as["F4"], as["F8"] = floatAs(ks[i]["x"].(string), "F4"), floatAs(ks[i]["x"].(string), "F8")
				ks[i]["as"] = as
			}
			as := ks[i]["as"].(map[string]string)
			if t := ks[i]["x"].(string); as["F8"] == "" && strings.ContainsAny(t[:1], "15") {
				as["F4"], as["F8"] = floatAs(t, "F4"), floatAs(t, "F8")
			}
		}
	case 8:
		if i := find("size"); i >= 0 {
			n := x.r.Intn(5)
			ks[i] = x.sizeTok(n, []int{n, -1, x.r.Intn(5), n + 1}[x.r.Intn(4)])
			if x.r.Intn(5) == 0 {
				ks[i] = tok("junk", x.pick("[]", "[..]", "[-1]", "[x]", "[1", "[1,2]", "[1...2]"))
			}
		} else if i := find("type"); i >= 0 {
			put(i+1, x.sizeTok(x.r.Intn(4), x.r.Intn(4)))
		}
	case 9:
		// Before an item, quotation marks are part of a name
		if i := find("str"); i > 0 && strings.Contains(" type size str ", " "+ks[i-1]["t"].(string)+" ") {
			switch x.r.Intn(4) {
			case 0:
				v := x.pick("\u00e9", "a\u6f22", "\U0001f600", "ok\u0080", "\xff", "a\u00a0")
				ks[i] = tok("str", `"`+v+`"`, "v", "", "n", 0, "bad", true)
			case 1:
				v := x.pick(`C:\dir`, `a\q`, `\`, `50\%`, `\8`)
				ks[i] = tok("str", `"`+v+`"`, "v", wire.Esc([]byte(v)), "n", len(v), "bad", false)
				ks[i]["odd"] = true
			case 2:
				ks[i] = tok("open", `"`+x.pick("", "abc", "a.b")+"\n")
			default:
				ks[i] = tok("open", `"`+x.pick("", "abc")+"\r\n")
			}
		}
	case 10:
		if i := find("sf"); i >= 0 {
			s, f := 128+x.r.Intn(1000), x.r.Intn(256)
			if x.r.Intn(2) == 0 {
				s, f = x.r.Intn(128), 256+x.r.Intn(1000)
			}
			ks[i] = tok("sf", fmt.Sprintf("S%dF%d", s, f), "s", s, "f", f)
			if x.r.Intn(5) == 0 {
				ks[i] = tok("sf", "S99999999999999999999F1", "s", 1000, "f", 1)
			}
		}
	case 11:
		// Another placeholder of the same name
		if i := find("var"); i >= 0 {
			if j := find("var"); j >= 0 {
				ks[i] = ks[j]
			} else {
				put(i, ks[i])
			}
		}
	case 12:
		t := tok("blank", x.pick("\v", "\f", "\u00a0", "\u0085", "\u3000"))
		t["odd"] = true
		put(at(len(ks)+1), t)
	}
	return ks
}

// render writes the tokens; if glue, sometimes without anything between.
func (x *smlX) render(ks []sTok, glue bool) string {
	var sb strings.Builder
	sep := func(must bool) {
		if !must && x.r.Intn(2) == 0 {
			return
		}
		n := 1 + x.r.Intn(2)
		for i := 0; i < n; i++ {
			switch x.r.Intn(9) {
			case 0, 1, 2:
				sb.WriteString(" ")
			case 3:
				sb.WriteString("\n")
			case 4:
				sb.WriteString("\t")
			case 5:
				sb.WriteString("\r\n")
			case 6:
				sb.WriteString("  ")
			case 7:
				sb.WriteString(" // " + x.pick("comment", `"text" <A> . S1F1`, "", "Å", "voilà", "…", "漢字", "x //", ".", "tail  ") + x.pick("\n", "\r\n", " \n"))
			default:
				sb.WriteString(" //\n")
			}
		}
	}
	sep(false)
	head := true
	for i, k := range ks {
		sb.WriteString(k["x"].(string))
		must := true
		if t := k["t"]; t == "lab" {
			head = false
		} else if t == "end" {
			head = true
		}
		if glue && i+1 < len(ks) {
			n := ks[i+1]["t"]
			switch t := k["t"]; {
			case t == "sf":
				must = !(n == "lab" || n == "end" || n == "wait")
			case t == "wait", t == "dir":
				must = !(n == "lab" || n == "end" || n == "dir")
			case t == "end":
				must = false
			case head:
			case t == "lab" || t == "rab" || t == "size" || t == "str":
				must = false
			default:
				must = !(n == "lab" || n == "rab" || n == "size" && t == "type" || n == "str" && t != "ell")
			}
			if t := k["t"]; t == "rab" && n == "ell" {
				must = false
			}
		} else if i+1 == len(ks) {
			must = false
		}
		sep(must)
	}
	return sb.String()
}

// seenMsgs is what a parse gave.
func seenMsgs(ms []*ast.DataMessage) []trace.E {
	out := []trace.E{}
	for _, m := range ms {
		s := seen(m)
		out = append(out, trace.E{"s": m.StreamCode(), "f": m.FunctionCode(), "w": s["hdr"].(tHdr).W, "dir": m.Direction(), "name": m.Name(), "vars": s["vars"], "item": s["item"]})
	}
	return out
}

func smlParse(text string) (string, []trace.E) {
	var ms []*ast.DataMessage
	var errs []string
	crash := func() (p interface{}) {
		defer func() { p = recover() }()
		ms, errs, _ = sml.Parse(text)
		return nil
	}()
	if crash != nil {
		return fmt.Sprint("crash: ", crash), []trace.E{}
	}
	if len(errs) > 0 {
		return "err", seenMsgs(ms)
	}
	return "ok", seenMsgs(ms)
}

func smlText(r *rand.Rand) trace.E {
	x := &smlX{r: r}
	x.plain = r.Intn(2) == 0
	var ks []sTok
	for i := 1 + r.Intn(2)*r.Intn(3); i > 0; i-- {
		ks = append(ks, x.message()...)
	}
	if x.plain {
		for i := 1 + r.Intn(2); i > 0; i-- {
			ks = x.mutate(ks)
		}
	}
	return textLine(x, ks, !x.plain)
}

func textLine(x *smlX, ks []sTok, glue bool) trace.E {
	text := x.render(ks, glue)
	res, got := smlParse(text)
	if ks == nil {
		ks = []sTok{}
	}
	return trace.E{"op": "text", "toks": ks, "res": res, "seen": got, "text": wire.Esc([]byte(text))}
}

// smlAll goes through all texts of up to n tokens of a small alphabet after a beginning.
func smlAll(e *Env, n int) {
	as := func(v int64) map[string]string {
		return (&smlX{r: e.R, plain: true}).intTok(big.NewInt(v), false)["as"].(map[string]string)
	}
	abc := []sTok{tok("lab", "<"), tok("rab", ">"), tok("end", "."), tok("type", "L", "f", "L"), tok("type", "A", "f", "A"), tok("type", "u1", "f", "U1"), tok("size", "[1]", "lo", 1, "hi", 1),
		tok("num", "5", "as", as(5)), tok("num", "300", "as", as(300)), tok("str", `"ab"`, "v", "ab", "n", 2, "bad", false), tok("var", "x"), tok("ell", "...")}
	x := &smlX{r: e.R, plain: true}
	i := 0
	var rec func(ks []sTok)
	rec = func(ks []sTok) {
		i++
		if i%e.Parts == e.Part {
			e.T.Log(textLine(x, ks, false))
		}
		if len(ks) < n {
			for _, k := range abc {
				rec(append(append([]sTok{}, ks...), k))
			}
		}
	}
	rec([]sTok{tok("sf", "S1F1", "s", 1, "f", 1), tok("lab", "<")})
	rec([]sTok{tok("sf", "S1F1", "s", 1, "f", 1), tok("lab", "<"), tok("type", "L", "f", "L")})
}

func smlPrint(r *rand.Rand) trace.E {
	x := &smlX{r: r}
	var text string
	ms := []trace.E{}
	for i := 1 + r.Intn(2)*r.Intn(3); i > 0; i-- {
		h := tHdr{S: r.Intn(128), F: r.Intn(256), W: r.Intn(3), Dir: x.pick("H->E", "H<-E", "H<->E"), Name: x.pick(append(smlNames, "", "", "")...)}
		if h.F%2 == 0 && h.W == 1 {
			h.W = 0
		}
		var it *wire.Item
		if r.Intn(10) > 0 {
			it = randItem(r, r.Intn(4), 1+r.Intn(6), ascii7)
		}
		m := ast.NewDataMessage(h.Name, h.S, h.F, h.W, h.Dir, astx.To(it, r))
		nodes := []wire.Node{}
		if it != nil {
			nodes = it.Nodes()
		}
		ms = append(ms, trace.E{"s": h.S, "f": h.F, "w": h.W, "dir": h.Dir, "name": h.Name, "vars": []string{}, "item": nodes})
		text += m.String() + x.pick("", "\n", "\n\n")
	}
	res, got := smlParse(text)
	return trace.E{"op": "print", "ms": ms, "res": res, "seen": got, "text": wire.Esc([]byte(text))}
}

func init() {
	subs["sml"] = func(e *Env) {
		smlAll(e, map[bool]int{false: 5, true: 6}[e.Thorough])
		for i, n := 0, e.Count(24000, 200000); i < n; i++ {
			e.T.Log(smlText(e.R))
		}
		for i, n := 0, e.Count(8000, 60000); i < n; i++ {
			e.T.Log(smlPrint(e.R))
		}
	}
}
