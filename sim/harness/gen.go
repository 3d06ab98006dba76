package harness

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"rodbsim/simrt"
)

// Random deployments: configurations with their data, and requests that suit them.

type field struct {
	Path        string
	Kind        string // int float jnum str bool strs text jp
	Null        bool
	Top         bool   // a top-level property
	Par         string // parser a parameter for this property uses
	True, False string
}

type ginput struct {
	*Input
	fields []*field
}

type GenOpt struct {
	Types        []string // input types
	Inputs       int
	MinRec       int
	MaxRec       int
	Indexes      []string // index types; repeated for weight
	MaxIdx       int
	Rels         float64 // probability of relationships
	Bad          float64 // probability of a column with unparseable cells
	Ragged       float64
	JP           float64 // probability of a charset column
	Big          float64 // probability of long records
	Obj          bool    // object outputs too
	Svcs         int
	HTTPS        float64 // of the services
	Charset      string
	NoDie        bool
	Fancy        bool // separate custom parsers
	ForcePersist bool
	SharedDB     float64
	Memory       float64
	RelName      float64 // relationship named like a property
	Flat         bool    // relationships are not nested
	RelFail      float64 // relationship of a property that a record lacks
	Many         float64 // probability of an input with hundreds of records
	Huge         int     // how many those are, if not about one hundred
}

// huge sometimes makes one input of many hundreds of records.
func (o *GenOpt) huge(r *simrt.Rand, p float64) {
	if !r.Chance(p) {
		return
	}
	o.Many, o.Huge, o.Big, o.Flat = 1, r.Pick(270, 400, 700, 1030), 0, true
	if o.Rels > 0 {
		o.Huge = r.Pick(270, 300, 520, 700)
	}
}

func defaultOpt() GenOpt {
	return GenOpt{Types: []string{"csv", "json", "xml"}, Inputs: 2, MinRec: 1, MaxRec: 14,
		Indexes: []string{"map", "sqlite", "wildcard", "fts5"}, MaxIdx: 3, Rels: 0.35, Bad: 0.1, Ragged: 0.3, JP: 0.15, Big: 0.1, Obj: true, Svcs: 1, HTTPS: 0.12, Fancy: true, SharedDB: 0.3, RelName: 0.05}
}

type gen struct {
	r    *simrt.Rand
	s    *Spec
	in   []*ginput
	o    GenOpt
	nidx int
	npar int
	tmpl []*tmpl
	many int // the input that has hundreds of records, or -1
}

// tmpl remembers what the parameters of an output mean, for request generation.
type tmpl struct {
	svc    *Service
	route  *Route
	out    *Output
	in     *ginput
	fields map[string]*field // parameter -> field
}

var vocab = []string{"foo", "bar", "foobar", "Foo", "FOO", "baz", "été", "ÉTÉ", "naïve, co", `quo"te`, "日本", "x", "xx", "xxx", "abab", "ababab", "a b", "100%", "it's", "<tag>&", "z;z|z", "0", "null", "ß", "a.b", "two\nlines"}
var words = []string{"alpha", "beta", "gamma", "delta", "omega", "Alpha", "run", "running", "x1", "data", "base"}
var grps = []string{"g0", "g1", "g2", "G1", "g1 "}
var tagv = []string{"t0", "t1", "t2", "red", "blue", "T0"}

type lrec struct {
	id, v       int
	name, grp   string
	num         float64
	flag        bool
	tags        []string
	txt, k, pad string
	jp          Raw
	bad         Raw
}

func (g *gen) text() string {
	var w []string
	for i := 0; i < g.r.Range(1, 5); i++ {
		w = append(w, words[g.r.Intn(len(words))])
	}
	return strings.Join(w, g.r.PickS(" ", " ", ", ", ". "))
}

func (g *gen) jp(cs string, badOK bool) Raw {
	tab := charsets[cs]
	var keys []string
	for _, k := range sortedKeys(tab) {
		keys = append(keys, k)
	}
	s := ""
	for part := 0; part < g.r.Range(1, 3); part++ {
		if g.r.Chance(0.5) {
			s += g.r.PickS("abc", "x", "Q-7", "end")
		}
		kan := ""
		for i := 0; i < g.r.Range(1, 8); i++ {
			kan += keys[g.r.Intn(len(keys))]
		}
		if cs == "ISO-2022-JP" {
			kan = "\x1b$B" + kan + "\x1b(B"
		}
		s += kan
	}
	if badOK && g.r.Chance(0.25) {
		switch cs {
		case "ISO-2022-JP":
			s = g.r.PickS("abc\x1b$B", "\x1b$B$\"", "x\x1b", "\x1b$B$", "\x1b(", "\xff\xfe")
		case "Shift_JIS", "EUC-JP":
			s = g.r.PickS("a\x82", "\xff", "x\xa4")
		}
	}
	return Raw(s)
}

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

func (g *gen) recs(n int, cs string, big bool) []*lrec {
	var l []*lrec
	ids := g.r.Perm(n)
	dup := g.r.Chance(0.3)
	long := g.r.Chance(0.1)
	for i := 0; i < n; i++ {
		r := &lrec{id: ids[i], v: g.r.Range(-3, 12), name: vocab[g.r.Intn(len(vocab))], grp: grps[g.r.Intn(len(grps))], num: float64(g.r.Range(-20, 40)) / 4,
			flag: g.r.Chance(0.5), txt: g.text(), k: g.r.PickS("k1", "k2", "kk")}
		if dup {
			r.id = g.r.Intn(n/2 + 1)
		}
		if g.r.Chance(0.2) {
			r.id = -r.id
		}
		if g.r.Chance(0.3) {
			r.name += vocab[g.r.Intn(len(vocab))]
		}
		if long && i < 3 && g.r.Chance(0.5) {
			for n := g.r.Range(60, 140); len(r.name) < n; {
				r.name += g.r.PickS(" ", "-", "") + g.r.PickS(vocab...) + strconv.Itoa(g.r.Intn(100))
			}
		}
		for k := 0; k < g.r.Intn(4); k++ {
			r.tags = append(r.tags, tagv[g.r.Intn(len(tagv))])
		}
		if long && g.r.Chance(0.15) {
			for k := g.r.Range(65, 150); len(r.tags) < k; {
				r.tags = append(r.tags, "t"+strconv.Itoa(len(r.tags)+2))
			}
		}
		if cs != "" {
			r.jp = g.jp(cs, true)
		}
		if big && g.r.Chance(0.4) {
			n := g.r.Range(100, 700)
			if g.r.Chance(0.02) {
				n = g.r.Pick(5500, 6600, 9000) // more than 64 KB
			}
			r.pad = strings.Repeat(g.r.PickS("lorem ipsum ", "x", "0123456789"), n)
			r.pad = strings.TrimSpace(r.pad) + " p" + strconv.Itoa(i)
		} else {
			r.pad = "p" + strconv.Itoa(i)
		}
		r.bad = Raw(strconv.Itoa(i))
		if g.r.Chance(0.2) {
			r.bad = Raw(g.r.PickS("", "oops", "1.5", "12a"))
		}
		l = append(l, r)
	}
	return l
}

func (g *gen) newParser(p *Parser) string {
	p.Name = fmt.Sprintf("p%d", g.npar)
	g.npar++
	g.s.Parsers = append(g.s.Parsers, p)
	return p.Name
}

func commas(n int) string {
	s := strconv.Itoa(n)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (g *gen) input(name, typ string) *ginput {
	r := g.r
	n := r.Range(g.o.MinRec, g.o.MaxRec)
	big := r.Chance(g.o.Big)
	if g.many == len(g.in) {
		n, big = r.Pick(105, 105, 110, 130), false
		if g.o.Huge > 0 {
			n = g.o.Huge
		}
	}
	in := &Input{Name: name, Type: typ, Path: "/w/" + name + "." + typ, CRLF: r.Chance(0.3), NoFinalNL: r.Chance(0.4), Blanks: r.Chance(0.4)}
	if g.o.NoDie || r.Chance(0.3) {
		f := false
		in.Die = &f
	}
	gi := &ginput{Input: in}
	switch typ {
	case "csv":
		g.csv(gi, n, big)
	case "json":
		g.json(gi, n, big)
	default:
		g.xml(gi, n, big)
	}
	g.s.Inputs = append(g.s.Inputs, in)
	g.in = append(g.in, gi)
	return gi
}

func (g *gen) csv(in *ginput, n int, big bool) {
	r := g.r
	in.Delim = r.PickS("", "", ";", "\t", "|")
	in.Quote = r.Pick(0, 0, 1, 2)
	in.Auto = r.Chance(0.2)
	in.Header = in.Auto || r.Chance(0.4)
	in.IgnoreFirst = in.Header
	cs := g.o.Charset
	if cs == "" && r.Chance(g.o.JP) && !in.Auto {
		cs = charsetNames[r.Intn(len(charsetNames))]
	}
	rs := g.recs(n, cs, big)
	type col struct {
		name string
		kind string
		pars string
		cell func(*lrec) string
		f    []*field
	}
	all := []col{
		{"id", "int", "integer", func(l *lrec) string { return strconv.Itoa(l.id) }, nil},
		{"name", "str", "", func(l *lrec) string { return l.name }, nil},
		{"grp", "str", "string", func(l *lrec) string { return l.grp }, nil},
		{"num", "float", "float", func(l *lrec) string { return strconv.FormatFloat(l.num, 'f', -1, 64) }, nil},
		{"flag", "bool", "boolean", func(l *lrec) string { return strconv.FormatBool(l.flag) }, nil},
		{"txt", "text", "", func(l *lrec) string { return l.txt }, nil},
		{"pad", "str", "", func(l *lrec) string { return l.pad }, nil},
	}
	t, f := "true", "false"
	if g.o.Fancy {
		if r.Chance(0.3) {
			all[0].pars = g.newParser(&Parser{Type: "integer", Ignore: r.PickS(",", " ,", "_")})
			if g.s.parser(all[0].pars).Ignore != "_" {
				all[0].cell = func(l *lrec) string { return commas(l.id * 1) }
			}
		}
		if r.Chance(0.3) {
			ign := r.PickS("", "_", " '")
			all[3].pars = g.newParser(&Parser{Type: "float", Sep: ",", Ignore: ign})
			all[3].cell = func(l *lrec) string {
				s := strings.Replace(strconv.FormatFloat(l.num, 'f', -1, 64), ".", ",", 1)
				if ign != "" && l.id%2 == 0 {
					s = ign[:1] + s + ign[len(ign)-1:]
				}
				return s
			}
		}
		if r.Chance(0.3) {
			t, f = "yes", "no"
			all[4].pars = g.newParser(&Parser{Type: "boolean", True: []string{"yes", "y+"}, False: []string{"no", ""}})
			all[4].cell = func(l *lrec) string {
				if l.flag {
					return t
				}
				return f
			}
		}
		switch r.Intn(4) {
		case 0:
			all = append(all, col{"tags", "strs", g.newParser(&Parser{Type: "split", Delim: "/", Sub: "string"}), func(l *lrec) string { return strings.Join(l.tags, "/") }, nil})
		case 1:
			all = append(all, col{"tags", "strs", g.newParser(&Parser{Type: "split", Delim: "[/+]", Regexp: true, Sub: "string"}), func(l *lrec) string { return strings.Join(l.tags, r1(l.id)) }, nil})
		case 2:
			all = append(all, col{"tags", "strs", "json", func(l *lrec) string {
				b, _ := json.Marshal(append([]string{}, l.tags...))
				return string(b)
			}, nil})
		}
		if r.Chance(0.12) {
			sub := r.PickS("integer", "float")
			all = append(all, col{"ns", "nums", g.newParser(&Parser{Type: "split", Delim: "+", Sub: sub}), func(l *lrec) string {
				return fmt.Sprintf("%d+%d+%d", l.v, l.id, l.v*2)
			}, nil})
		}
		if r.Chance(0.08) {
			in := g.newParser(&Parser{Type: "split", Delim: "+", Sub: "string"})
			all = append(all, col{"nest", "strs", g.newParser(&Parser{Type: "split", Delim: "/", Sub: in}), func(l *lrec) string {
				return l.k + "+" + l.grp + "/" + strings.Join(l.tags, "+")
			}, nil})
		}
		js := "json"
		if r.Chance(0.2) {
			js = g.newParser(&Parser{Type: "json"})
		}
		if r.Chance(0.4) {
			all = append(all, col{"obj", "obj", js, func(l *lrec) string {
				b, _ := json.Marshal(map[string]interface{}{"k": l.k, "v": l.v})
				return string(b)
			}, nil})
		}
	}
	if cs != "" {
		all = append(all, col{"jp", "jp", g.newParser(&Parser{Type: "string", Charset: cs}), func(l *lrec) string { return string(l.jp) }, nil})
	}
	if r.Chance(g.o.Bad) && !in.Auto {
		all = append(all, col{"bad", "bad", "integer", func(l *lrec) string { return string(l.bad) }, nil})
	}
	perm := r.Perm(len(all))
	cut := len(all)
	if r.Chance(g.o.Ragged) {
		cut = r.Range(1, len(all))
	}
	for pos, k := range perm {
		c := all[k]
		in.Cols = append(in.Cols, Column{c.name, c.pars})
		null := pos >= cut
		kind, pars := c.kind, c.pars
		if in.Auto {
			switch kind {
			case "text", "str", "jp":
			default:
				kind, pars = "str", "string"
			}
		}
		fd := &field{Path: c.name, Kind: kind, Null: null, Top: true, Par: pars, True: t, False: f}
		switch kind {
		case "strs":
			fd.Par = "string"
			in.fields = append(in.fields, fd)
			if !null && c.name == "tags" {
				in.fields = append(in.fields, &field{Path: "tags." + r.PickS("0", "1"), Kind: "str", Null: true, Par: "string"})
				g.oddPaths(in, "tags")
			} else if !null {
				in.fields = append(in.fields, &field{Path: c.name + "." + r.PickS("0.0", "0.1", "1.0", "1.1"), Kind: "str", Null: true, Par: "string"})
			}
		case "nums":
			fd.Kind, fd.Par = "ints", g.s.parser(c.pars).Sub
			if fd.Par == "float" {
				fd.Kind = "jnums"
			}
			in.fields = append(in.fields, fd)
		case "obj":
			if !null {
				in.fields = append(in.fields, &field{Path: "obj.k", Kind: "str", Par: "string"}, &field{Path: "obj.v", Kind: "jnum", Par: "float"})
			}
		case "bad":
			fd.Kind = "bad"
			in.fields = append(in.fields, fd)
		default:
			in.fields = append(in.fields, fd)
		}
	}
	for _, l := range rs {
		var row []Raw
		for _, k := range perm {
			row = append(row, Raw(all[k].cell(l)))
		}
		if cut < len(all) && r.Chance(0.3) {
			row = row[:r.Range(cut, len(row))]
		} else if cut < len(all) && r.Chance(0.1) {
			row = append(row, "extra")
		}
		in.Rows = append(in.Rows, row)
	}
}

func r1(i int) string {
	if i%2 == 0 {
		return "/"
	}
	return "+"
}

func (g *gen) json(in *ginput, n int, big bool) {
	r := g.r
	rs := g.recs(n, "", big)
	indent := r.Chance(0.3)
	nullName, nullNum, nullTags := r.Chance(0.3), r.Chance(0.2), r.Chance(0.2)
	missObj := r.Chance(0.3)
	arrObj := r.Chance(0.3)
	for _, l := range rs {
		d := map[string]interface{}{"id": l.id, "grp": l.grp, "flag": l.flag, "txt": l.txt, "pad": l.pad}
		if !nullName || !r.Chance(0.3) {
			d["name"] = l.name
		} else if r.Chance(0.5) {
			d["name"] = nil
		}
		if !nullNum || !r.Chance(0.3) {
			d["num"] = l.num
		} else {
			d["num"] = nil
		}
		if !nullTags || !r.Chance(0.3) {
			d["tags"] = append([]string{}, l.tags...)
		}
		if !missObj || !r.Chance(0.3) {
			d["obj"] = map[string]interface{}{"k": l.k, "v": l.v}
		}
		if arrObj {
			d["list"] = []interface{}{map[string]interface{}{"q": l.k}, map[string]interface{}{"q": l.name, "esc": "\u2028\n\t\\"}}
		}
		var b []byte
		if indent {
			b, _ = json.MarshalIndent(d, "", "  ")
		} else {
			b, _ = json.Marshal(d)
		}
		in.Docs = append(in.Docs, string(b))
	}
	in.fields = []*field{{Path: "id", Kind: "jnum", Top: true, Par: "float"}, {Path: "grp", Kind: "str", Top: true}, {Path: "flag", Kind: "bool", Top: true, Par: "boolean", True: "true", False: "false"},
		{Path: "txt", Kind: "text", Top: true}, {Path: "name", Kind: "str", Top: true, Null: nullName}, {Path: "num", Kind: "jnum", Top: true, Null: nullNum, Par: "float"},
		{Path: "tags", Kind: "strs", Top: true, Null: nullTags, Par: "string"}, {Path: "tags.0", Kind: "str", Null: true}, {Path: "obj.k", Kind: "str", Null: missObj}, {Path: "obj.v", Kind: "jnum", Null: missObj, Par: "float"}}
	if arrObj {
		in.fields = append(in.fields, &field{Path: "list.0.q", Kind: "str"})
	}
	g.oddPaths(in, "tags")
}

func (g *gen) xml(in *ginput, n int, big bool) {
	r := g.r
	rs := g.recs(n, "", big)
	in.XDecl = r.Chance(0.5)
	switch r.Intn(4) {
	case 0:
		in.XPath = "/data/rec"
	case 1:
		in.XPath, in.Groups = "/data/group/rec", r.Range(1, 4)
	case 2:
		in.XPath, in.Groups = "//rec", r.Range(1, 4)
	default:
		in.XPath = "//rec"
	}
	missObj := r.Chance(0.3)
	for _, l := range rs {
		e := &XElem{Name: "rec", Attrs: [][2]string{{"id", strconv.Itoa(l.id)}, {"grp", l.grp}}}
		add := func(k *XElem) { e.Kids = append(e.Kids, k) }
		add(&XElem{Name: "name", Text: strings.TrimSpace(l.name), CData: r.Chance(0.2)})
		add(&XElem{Name: "num", Text: strconv.FormatFloat(l.num, 'f', -1, 64)})
		add(&XElem{Name: "flag", Text: strconv.FormatBool(l.flag)})
		add(&XElem{Name: "txt", Text: l.txt})
		add(&XElem{Name: "pad", Text: l.pad})
		tg := &XElem{Name: "tags"}
		for _, t := range l.tags {
			tg.Kids = append(tg.Kids, &XElem{Name: "t", Text: t})
		}
		add(tg)
		if !missObj || !r.Chance(0.3) {
			add(&XElem{Name: "obj", Kids: []*XElem{{Name: "k", Text: l.k}, {Name: "v", Text: strconv.Itoa(l.v)}}})
		}
		in.XRecs = append(in.XRecs, e)
	}
	p := func(name, kind, arg, parser string) *XProp {
		return &XProp{Name: name, Kind: kind, Arg: arg, Parser: parser}
	}
	in.XProps = []*XProp{p("id", "attr", "id", "integer"), p("grp", "attr", "grp", ""), p("name", "text", "name", ""), p("txt", "text", "txt", "string"), p("pad", "text", "pad", "")}
	if r.Chance(0.5) {
		in.XProps = append(in.XProps, p("num", "num", "num", "float"))
	} else {
		in.XProps = append(in.XProps, p("num", "text", "num", "float"))
	}
	if r.Chance(0.5) {
		in.XProps = append(in.XProps, p("flag", "eq", "flag=true", "boolean"))
	} else {
		in.XProps = append(in.XProps, p("flag", "text", "flag", "boolean"))
	}
	in.XProps = append(in.XProps, &XProp{Name: "tags", Kind: "array", Arg: "tags/t", Items: p("", "self", "", "string")})
	in.XProps = append(in.XProps, &XProp{Name: "obj", Kind: "object", Arg: "obj", Props: []*XProp{p("k", "text", "k", ""), p("v", "num", "v", "integer")}})
	in.XProps = append(in.XProps, p("ntags", "count", "tags/t", "integer"))
	in.fields = []*field{{Path: "id", Kind: "int", Top: true, Par: "integer"}, {Path: "grp", Kind: "str", Top: true}, {Path: "name", Kind: "str", Top: true}, {Path: "txt", Kind: "text", Top: true},
		{Path: "num", Kind: "float", Top: true, Par: "float"}, {Path: "flag", Kind: "bool", Top: true, Par: "boolean", True: "true", False: "false"}, {Path: "ntags", Kind: "int", Top: true, Par: "integer"},
		{Path: "tags", Kind: "strs", Top: true, Par: "string"}, {Path: "tags.0", Kind: "str", Null: true}, {Path: "obj.k", Kind: "str", Null: missObj}, {Path: "obj.v", Kind: "int", Null: missObj, Par: "integer"}}
	if r.Chance(0.12) { // without a function, an xpath gives the text of the elements themselves
		in.XProps = append(in.XProps, p("raw", "nodes", r.PickS("tags/t", "obj/k", "tags", "nothing"), r.PickS("", "string")))
		in.fields = append(in.fields, &field{Path: "raw", Kind: "str", Top: true})
	}
	g.oddPaths(in, "tags")
	perm := r.Perm(len(in.XProps))
	old := in.XProps
	in.XProps = nil
	for _, k := range perm {
		in.XProps = append(in.XProps, old[k])
	}
}

// oddPaths adds property paths that give nothing, or an error.
func (g *gen) oddPaths(in *ginput, array string) {
	if g.r.Chance(0.05) {
		in.fields = append(in.fields, &field{Path: array + "." + g.r.PickS("-1", "7", "+0", "01"), Kind: "str", Null: true, Par: "string"})
	}
	if g.r.Chance(g.o.Bad * 0.4) {
		in.fields = append(in.fields, &field{Path: g.r.PickS("id.x", "flag.0", array+".zz", array+".", array+".0.0"), Kind: "bad", Null: true})
	}
}

// eligible tells whether an index type can hold a field.
func eligible(typ string, f *field) bool {
	switch typ {
	case "noop":
		return f.Kind != "jp" && f.Kind != "strs" && f.Kind != "ints" && f.Kind != "jnums"
	case "map":
		return f.Kind != "jp" && f.Kind != "bad"
	case "sqlite":
		return f.Kind == "int" || f.Kind == "float" || f.Kind == "jnum" || f.Kind == "str" || f.Kind == "bool"
	case "wildcard":
		return (f.Kind == "str" || f.Kind == "text") && !f.Null || f.Kind == "strs" && !f.Null
	case "fts5":
		return f.Kind == "text" || (f.Kind == "str" && f.Path == "pad")
	}
	return false
}

// fieldsFor picks up to max fields an index type can hold.
func (g *gen) fieldsFor(in *ginput, typ string, max int) []*field {
	var l []*field
	for _, k := range g.r.Perm(len(in.fields)) {
		f := in.fields[k]
		if eligible(typ, f) && len(l) < max {
			if typ == "wildcard" && f.Path == "pad" && len(in.Data()) > 6000 {
				continue // every sequence of a long text is stored: quadratic
			}
			l = append(l, f)
		}
	}
	return l
}

func (g *gen) index(in *ginput, typ string) *Index {
	if typ == "wildcard" && g.many >= 0 && in == g.in[g.many] {
		typ = "map" // building such a tree takes too long
		if g.o.ForcePersist {
			typ = "sqlite"
		}
	}
	fs := g.fieldsFor(in, typ, g.r.Range(1, 3))
	if len(fs) == 0 {
		return nil
	}
	x := &Index{Name: fmt.Sprintf("x%d", g.nidx), Type: typ, Input: in.Name}
	g.nidx++
	for _, f := range fs {
		p := IdxProp{Name: f.Path}
		if typ == "sqlite" && f.Kind == "str" {
			p.Collate = g.r.PickS("", "", "BINARY", "nocase", "NOCASE")
		}
		x.Props = append(x.Props, p)
	}
	switch typ {
	case "wildcard":
		x.Path = "/w/" + x.Name + ".idx"
		x.IgnoreCase = g.r.Chance(0.4)
	case "sqlite", "fts5":
		x.Path = "/w/" + x.Name + ".db"
		if g.r.Chance(g.o.SharedDB) {
			x.Path = "/w/shared.db"
		}
		if g.r.Chance(0.2) {
			x.DSN = "file:" + strings.TrimPrefix(x.Path, "/w/")
		}
		if g.r.Chance(g.o.Memory) {
			x.Path, x.DSN = "", ":memory:"
		}
		if typ == "fts5" {
			if g.r.Chance(0.3) {
				x.Prefix = []int{2, 3}
			}
			x.Tokenize = g.r.PickS("", "unicode61", "ascii")
		}
	}
	g.s.Indexes = append(g.s.Indexes, x)
	return x
}

func (in *ginput) field(path string) *field {
	for _, f := range in.fields {
		if f.Path == path {
			return f
		}
	}
	return nil
}

// bindable lists (index, field) pairs of an input usable in parameters and relationships.
type bind struct {
	x *Index
	f *field
}

func (g *gen) binds(in *ginput, noopW int) []bind {
	var l []bind
	for _, x := range g.s.Indexes {
		if x.Type == "noop" {
			if fs := g.fieldsFor(in, "noop", 1); len(fs) > 0 && x.Name != "default" {
				l = append(l, bind{x, fs[0]})
			}
			continue
		}
		if x.Input != in.Name {
			continue
		}
		if x.Type == "fts5" {
			l = append(l, bind{x, &field{Path: "match", Kind: "match", Par: "string"}})
			continue
		}
		for _, p := range x.Props {
			l = append(l, bind{x, in.field(p.Name)})
		}
	}
	for i := 0; i < noopW; i++ {
		if fs := g.fieldsFor(in, "noop", 1); len(fs) > 0 {
			l = append(l, bind{nil, fs[0]})
		}
	}
	return l
}

func parserOf(f *field) string {
	switch f.Kind {
	case "int", "ints":
		return orStr(f.Par, "integer")
	case "float", "jnum", "jnums":
		return orStr(f.Par, "float")
	case "bool":
		return orStr(f.Par, "boolean")
	case "bad":
		return "integer"
	}
	return "string"
}

func (g *gen) output(in *ginput, typ string, bs []bind) (*Output, *tmpl) {
	o := &Output{Name: fmt.Sprintf("o%d", len(g.s.Outputs)), Type: typ, Input: in.Name}
	t := &tmpl{out: o, in: in, fields: map[string]*field{}}
	seen := map[string]bool{}
	for i, b := range bs {
		xn := ""
		if b.x != nil {
			xn = b.x.Name
		}
		key := xn + "\x00" + b.f.Path
		if seen[key] {
			continue
		}
		if b.x != nil && b.x.Type == "fts5" && seen[xn] {
			continue
		}
		seen[key], seen[xn] = true, true
		p := &Param{Name: fmt.Sprintf("q%d", i), Prop: b.f.Path, Index: xn, Parser: parserOf(b.f)}
		if p.Parser == "string" && g.r.Chance(0.5) {
			p.Parser = ""
		}
		o.Params = append(o.Params, p)
		t.fields[p.Name] = b.f
	}
	if typ == "jsonArray" {
		if g.r.Chance(0.3) {
			o.LimitDef = g.r.Range(1, 6)
		}
		if g.r.Chance(0.2) {
			o.LimitMax = g.r.Range(6, 9)
			if o.LimitDef == 0 {
				o.LimitDef = g.r.Range(1, o.LimitMax)
			}
		}
		if g.r.Chance(0.2) {
			o.LimitPar = "max"
		}
		if g.r.Chance(0.2) {
			o.OffPar = "from"
		}
	}
	if g.r.Chance(g.o.Rels) {
		o.Rels = g.rels(in, 0)
	}
	g.s.Outputs = append(g.s.Outputs, o)
	return o, t
}

func compatible(p, c *field, x *Index) bool {
	if x != nil && x.Type == "fts5" {
		return false
	}
	if !p.Top || p.Null && x != nil && x.Type == "wildcard" {
		return false
	}
	num := func(k string) bool { return k == "int" || k == "float" || k == "jnum" }
	if x != nil && x.Type == "sqlite" && num(p.Kind) && num(c.Kind) {
		return true
	}
	pk, ck := p.Kind, c.Kind
	switch ck {
	case "strs":
		ck = "str"
	case "ints":
		ck = "int"
	case "jnums":
		ck = "float"
	}
	if pk == "text" {
		pk = "str"
	}
	if ck == "text" {
		ck = "str"
	}
	if ck == "jnum" {
		ck = "float"
	}
	if pk == "jnum" {
		pk = "float"
	}
	return pk == ck && (pk == "int" || pk == "float" || pk == "str" || pk == "bool")
}

func (g *gen) rels(parent *ginput, depth int) []*Rel {
	var out []*Rel
	isMany := func(in *ginput) bool { return g.many >= 0 && in == g.in[g.many] }
	if isMany(parent) {
		return nil
	}
	for n := g.r.Range(1, 2); n > 0; n-- {
		child := g.in[g.r.Intn(len(g.in))]
		bs := g.binds(child, 2)
		var ms []Match
		want := g.r.Pick(1, 1, 1, 2)
		used := map[string]bool{}
		for try := 0; try < 30 && len(ms) < want; try++ {
			b := bs[g.r.Intn(len(bs))]
			p := parent.fields[g.r.Intn(len(parent.fields))]
			if !compatible(p, b.f, b.x) || p.Path == "pad" || used[b.f.Path] {
				continue
			}
			// A property a record may lack is an error when it is needed for a relationship.
			if p.Null && parent.Type == "json" && !g.r.Chance(0.1+g.o.RelFail) {
				continue
			}
			used[b.f.Path] = true
			mm := Match{Parent: p.Path, Child: b.f.Path}
			if b.x != nil {
				mm.Index = b.x.Name
			}
			ms = append(ms, mm)
		}
		if len(ms) == 0 {
			continue
		}
		if g.r.Chance(g.o.RelFail) {
			ms[g.r.Intn(len(ms))].Parent = fmt.Sprintf("missing%d", n)
		}
		rel := &Rel{Name: fmt.Sprintf("r%d", len(out)), Input: child.Name, IsArray: g.r.Chance(0.65), Match: ms}
		if g.r.Chance(g.o.RelName) {
			rel.Name = ms[0].Parent
		}
		if rel.IsArray {
			rel.Limit = g.r.Pick(0, 0, 1, 2, 5)
			for k := g.r.Pick(0, 1, 1, 2); k > 0; k-- {
				var c []*field
				for _, f := range child.fields {
					if !f.Null && (f.Kind == "int" || f.Kind == "float" || f.Kind == "jnum" || f.Kind == "str" || f.Kind == "bool") {
						c = append(c, f)
					}
				}
				if len(c) > 0 {
					s := Sort{Prop: c[g.r.Intn(len(c))].Path}
					if s.Prop == "pad" && k > 1 {
						continue
					}
					if g.r.Chance(0.6) {
						v := g.r.Chance(0.5)
						s.Asc = &v
					}
					dup := false
					for _, o := range rel.Sort {
						dup = dup || o.Prop == s.Prop
					}
					if !dup {
						rel.Sort = append(rel.Sort, s)
					}
				}
			}
			// Otherwise, records that are equal for every criterion stay in file order.
			if n := len(rel.Sort); n > 0 && rel.Sort[n-1].Prop != "pad" && g.r.Chance(0.3) {
				if f := child.field("pad"); f != nil && !f.Null {
					rel.Sort = append(rel.Sort, Sort{Prop: "pad"})
				}
			}
		}
		if depth < 2 && !g.o.Flat && g.r.Chance(0.25) {
			rel.Rels = g.rels(child, depth+1)
		}
		dup := false
		for _, o := range out {
			dup = dup || o.Name == rel.Name
		}
		if !dup {
			out = append(out, rel)
		}
	}
	return out
}

// The first https port.
const tlsPort = 8400

// spec generates a complete deployment.
func genSpec(r *simrt.Rand, o GenOpt) *gen {
	g := &gen{r: r, s: &Spec{}, o: o, many: -1}
	if o.Many > 0 && r.Chance(o.Many) {
		g.many = r.Intn(o.Inputs)
	}
	for i := 0; i < o.Inputs; i++ {
		g.input(string(rune('a'+i)), o.Types[r.Intn(len(o.Types))])
	}
	for i := 0; i < r.Range(1, o.MaxIdx) && len(o.Indexes) > 0; i++ {
		g.index(g.in[r.Intn(len(g.in))], o.Indexes[r.Intn(len(o.Indexes))])
	}
	if r.Chance(0.08) {
		g.s.Indexes = append(g.s.Indexes, &Index{Name: "scan", Type: "noop"})
	}
	if r.Chance(0.04) {
		g.s.Indexes = append(g.s.Indexes, &Index{Name: "default", Type: "noop"})
	}
	if o.Fancy {
		// The default parsers can be replaced.
		if r.Chance(0.05) {
			g.s.Parsers = append(g.s.Parsers, &Parser{Name: "integer", Type: "integer", Ignore: r.PickS(" ", "_", ",")})
		}
		if r.Chance(0.05) {
			g.s.Parsers = append(g.s.Parsers, &Parser{Name: "float", Type: "float", Sep: ".", Ignore: r.PickS("_", " ")})
		}
		if r.Chance(0.05) {
			g.s.Parsers = append(g.s.Parsers, &Parser{Name: "boolean", Type: "boolean", True: []string{"true", "y.s"}, False: []string{"false", "no"}})
		}
	}
	g.s.Env = r.Chance(0.1)
	for i := 0; i < o.Svcs; i++ {
		v := &Service{Name: fmt.Sprintf("h%d", i), Port: 8000 + i}
		if r.Chance(o.HTTPS) {
			v.TLS = tlsPort + i
			v.NoHTTP = r.Chance(0.3)
		}
		g.s.Services = append(g.s.Services, v)
	}
	for k, in := range g.in {
		bs := g.binds(in, 2)
		// everything the input's indexes offer, one parameter each
		g.publish(in, "jsonArray", bs, k)
		if o.Obj && len(bs) > 0 {
			b := bs[r.Intn(len(bs))]
			if okForObject(b) {
				l := []bind{b}
				if r.Chance(0.3) {
					b2 := bs[r.Intn(len(bs))]
					if okForObject(b2) {
						l = append(l, b2)
					}
				}
				g.publish(in, "jsonObject", l, k)
			}
		}
		if r.Chance(0.3) {
			g.publish(in, "jsonArray", nil, k)
		}
	}
	for _, svc := range g.s.Services {
		if len(svc.Routes) == 0 { // a service must have at least one route
			k := r.Intn(len(g.in))
			o, t := g.output(g.in[k], "jsonArray", nil)
			rt := &Route{Output: o.Name, Path: "/" + o.Name}
			svc.Routes = append(svc.Routes, rt)
			t.svc, t.route = svc, rt
			g.tmpl = append(g.tmpl, t)
		}
	}
	return g
}

func okForObject(b bind) bool { return b.f.Kind != "match" }

// publish creates an output with a route.
func (g *gen) publish(in *ginput, typ string, bs []bind, k int) {
	o, t := g.output(in, typ, bs)
	svc := g.s.Services[g.r.Intn(len(g.s.Services))]
	rt := &Route{Output: o.Name, Path: "/" + o.Name}
	if typ == "jsonObject" {
		for _, p := range o.Params {
			rt.Path += "/{" + p.Name + "}"
		}
	} else if len(o.Params) > 0 && g.r.Chance(0.25) {
		rt.Path += "/by/{" + o.Params[g.r.Intn(len(o.Params))].Name + "}"
	}
	svc.Routes = append(svc.Routes, rt)
	t.svc, t.route = svc, rt
	g.tmpl = append(g.tmpl, t)
}

func (t *tmpl) inPath(p string) bool { return strings.Contains(t.route.Path, "{"+p+"}") }

// value is the text of a parameter that has a good chance of finding something.
func (g *gen) value(m *model, in *ginput, f *field) string {
	r := g.r
	if f.Kind == "match" {
		w := func() string { return words[r.Intn(len(words))] }
		switch r.Intn(10) {
		case 0:
			return w() + " " + r.PickS("AND", "OR", "NOT") + " " + w()
		case 1:
			return w()[:2] + "*"
		case 2:
			return `"` + w() + " " + w() + `"`
		case 3:
			return "(" + w() + " OR " + w() + ") AND " + w()
		case 4:
			return w() + " " + w()
		}
		return w()
	}
	recs := m.records(in.Input)
	for try := 0; try < 4 && len(recs) > 0; try++ {
		v, err := recs[r.Intn(len(recs))].get(f.Path)
		if err != nil {
			continue
		}
		if l, ok := v.([]interface{}); ok {
			if len(l) == 0 {
				continue
			}
			v = l[r.Intn(len(l))]
		}
		switch x := v.(type) {
		case string:
			if x == "" {
				continue
			}
			return x
		case int64:
			if p := g.s.parser(parserOf(f)); p.Ignore != "" && r.Chance(0.5) {
				return p.Ignore[:1] + strconv.FormatInt(x, 10)
			}
			return strconv.FormatInt(x, 10)
		case float64:
			s := strconv.FormatFloat(x, 'f', -1, 64)
			if p := g.s.parser(parserOf(f)); p.Type == "float" && p.Sep != "." {
				s = strings.Replace(s, ".", p.Sep, 1)
			}
			return s
		case bool:
			if x {
				return f.True
			}
			return f.False
		}
	}
	switch f.Kind {
	case "int", "bad", "ints":
		return strconv.Itoa(r.Range(0, 20))
	case "float", "jnum", "jnums":
		return strconv.Itoa(r.Range(0, 20))
	case "bool":
		return f.True
	}
	return vocab[r.Intn(len(vocab))]
}

func (g *gen) subtext(s string) string {
	rs := []rune(s)
	if len(rs) < 2 {
		return s
	}
	a := g.r.Intn(len(rs) - 1)
	b := g.r.Range(a+1, len(rs))
	if b-a > 40 {
		b = a + 40
	}
	return string(rs[a:b])
}

// nearMiss is a text that differs from s a little.
func (g *gen) nearMiss(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "q"
	}
	c := []rune{'q', 'Z', 'o', ' ', 'é', rs[0]}[g.r.Intn(6)]
	switch g.r.Intn(5) {
	case 0:
		return s + string(c)
	case 1:
		return string(c) + s
	case 2:
		rs[g.r.Intn(len(rs))] = c
	case 3:
		return string(rs[:len(rs)-1])
	default:
		rs[len(rs)-1] = c
	}
	return string(rs)
}

func pathEsc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '_' || c == ',' || c == '+' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// request makes a request for an output. lim < 0: no limit parameter.
func (g *gen) request(m *model, t *tmpl, maxParams int) *Req {
	r := g.r
	path := t.route.Path
	var q []string
	n := 0
	perm := r.Perm(len(t.out.Params))
	for _, k := range perm {
		p := t.out.Params[k]
		in := t.inPath(p.Name)
		if !in && (n >= maxParams || t.out.Type == "jsonArray" && r.Chance(0.3)) {
			continue
		}
		n++
		f := t.fields[p.Name]
		v := g.value(m, t.in, f)
		if x := g.s.index(orStr(p.Index, "default")); x != nil && x.Type == "wildcard" {
			if r.Chance(0.7) {
				v = g.subtext(v)
			}
			if r.Chance(0.15) {
				v = g.nearMiss(v)
			}
			if v == "" {
				v = "o"
			}
		}
		if (f.Kind == "str" || f.Kind == "text" || f.Kind == "strs") && r.Chance(0.06) {
			v = g.nearMiss(v)
		}
		if len(v) > 300 && !(f.Kind == "str" && r.Chance(0.1)) {
			v = v[:100]
		}
		v = strings.ToValidUTF8(v, "?")
		if in {
			if v == "" || strings.Contains(v, "\n") {
				v = "z"
			}
			path = strings.Replace(path, "{"+p.Name+"}", pathEsc(v), 1)
		} else {
			q = append(q, p.Name+"="+url.QueryEscape(v))
		}
	}
	if t.out.Type == "jsonArray" {
		if r.Chance(0.3) {
			q = append(q, orStr(t.out.LimitPar, "limit")+"="+strconv.Itoa(r.Pick(1, 1, 2, 3, 5, 50, 2000)))
		}
		if r.Chance(0.25) {
			q = append(q, orStr(t.out.OffPar, "offset")+"="+strconv.Itoa(r.Pick(0, 1, 2, 5, 30)))
		}
	}
	if r.Chance(0.1) {
		q = append(q, "unused=1")
	}
	target := path
	if len(q) > 0 {
		target += "?" + strings.Join(q, "&")
	}
	return &Req{T: target}
}

// svcIndex of a template's service.
func (g *gen) svcIndex(t *tmpl) int {
	for i, s := range g.s.Services {
		if s == t.svc {
			return i
		}
	}
	return 0
}

// some picks a random request and the service it belongs to.
func (g *gen) some(m *model) (int, *Req) {
	t := g.tmpl[g.r.Intn(len(g.tmpl))]
	return g.svcIndex(t), g.request(m, t, g.r.Pick(0, 1, 1, 2, 3))
}

// client makes a well-behaved client with n requests to one service.
func (g *gen) client(m *model, n int) *Client {
	r := g.r
	c := &Client{Svc: -1, Keep: r.Chance(0.6)}
	for len(c.Reqs) < n {
		s, q := g.some(m)
		if c.Svc < 0 {
			c.Svc = s
		}
		if s != c.Svc {
			continue
		}
		if r.Chance(0.08) {
			q.Close = true
		}
		c.Reqs = append(c.Reqs, q)
	}
	if c.Keep && r.Chance(0.25) {
		c.Pipe = r.Range(2, 4)
	}
	g.transport(c)
	return c
}

// pausing makes a client pause while it receives (at most max seconds) or sends.
func (g *gen) pausing(c *Client, max, maxSend int) {
	r := g.r
	if r.Chance(0.25) {
		if max > maxSend {
			max = maxSend
		}
		c.LagSend, c.LagAt, c.Send = true, r.Range(0, 60), r.Pick(1, 10)
	} else {
		c.LagAt, c.Window = r.Pick(0, 0, 10, 100, 1000), r.Pick(1, 64, 64, 500)
	}
	c.Lag = r.Range(1, max)
	if r.Chance(0.5) {
		c.Lag = max
	}
}

// heaviest is the request with the largest answer out of n.
func (g *gen) heaviest(m *model, n int) (int, *Req, int) {
	svc, best, size := 0, (*Req)(nil), -1
	for i := 0; i < n; i++ {
		k, q := g.some(m)
		b, _ := json.Marshal(m.answer(g.s.Services[k], q.method(), q.T).Body)
		if len(b) > size {
			svc, best, size = k, q, len(b)
		}
	}
	return svc, best, size
}

func (g *gen) transport(c *Client) {
	r := g.r
	c.Send = r.Pick(0, 0, 0, 7, 40)
	c.Take = r.Pick(0, 0, 0, 5, 100, 1000)
	c.Window = r.Pick(0, 0, 0, 64, 500, 4096)
	c.MaxRead = r.Pick(0, 0, 0, 1, 13)
	if v := g.s.Services[c.Svc]; v.TLS > 0 && !v.NoHTTP {
		c.TLS = r.Chance(0.5)
	}
}
