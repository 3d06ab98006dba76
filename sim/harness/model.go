package harness

import (
	"encoding/json"
	"errors"
	"math"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The reference model: what a deployment must answer, computed directly from the data that was
// rendered into the files. It shares no code with rodb.

var errModel = errors.New("error")

type anyString struct{} // some text whose value is not specified

// ---- parsers

func (s *Spec) parser(name string) *Parser {
	for _, p := range s.Parsers {
		if p.Name == name {
			return p
		}
	}
	switch name {
	case "", "string":
		return &Parser{Type: "string"}
	case "integer":
		return &Parser{Type: "integer"}
	case "float":
		return &Parser{Type: "float", Sep: "."}
	case "boolean":
		return &Parser{Type: "boolean", True: []string{"true", "1", "TRUE"}, False: []string{"false", "0", "FALSE"}}
	case "json":
		return &Parser{Type: "json"}
	}
	panic("no parser " + name)
}

func without(s, chars string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(chars, r) {
			return -1
		}
		return r
	}, s)
}

func (s *Spec) parse(name string, v string) (interface{}, error) {
	p := s.parser(name)
	switch p.Type {
	case "string":
		if p.Charset != "" {
			t, ok := decodeCharset(p.Charset, v)
			if !ok {
				return anyString{}, nil
			}
			return t, nil
		}
		return v, nil
	case "integer":
		n, err := strconv.Atoi(without(v, p.Ignore))
		return int64(n), err
	case "float":
		v = without(v, p.Ignore)
		if p.Sep != "." {
			v = strings.ReplaceAll(v, p.Sep, ".")
		}
		return strconv.ParseFloat(v, 64)
	case "boolean":
		for _, x := range p.True {
			if x == v {
				return true, nil
			}
		}
		for _, x := range p.False {
			if x == v {
				return false, nil
			}
		}
		return nil, errModel
	case "json":
		var x interface{}
		err := json.Unmarshal([]byte(v), &x)
		return x, err
	case "split":
		var parts []string
		if p.Regexp {
			parts = regexp.MustCompile(p.Delim).Split(v, -1)
		} else {
			parts = strings.Split(v, p.Delim)
		}
		out := make([]interface{}, len(parts))
		for i, x := range parts {
			y, err := s.parse(p.Sub, x)
			if err != nil {
				return nil, err
			}
			out[i] = y
		}
		return out, nil
	}
	panic("parser type " + p.Type)
}

// pattern is the regular expression a route parameter of this parser has to match.
func (p *Parser) pattern() string {
	ign := regexp.QuoteMeta(p.Ignore)
	lead := ""
	if ign != "" {
		lead = "[" + ign + "]*"
	}
	switch p.Type {
	case "string":
		return ".+"
	case "integer":
		return lead + "[-]?[0-9" + ign + "]+"
	case "float":
		return lead + "[-]?[0-9" + ign + "]+(?:[" + regexp.QuoteMeta(p.Sep) + "][0-9" + ign + "]+)?"
	case "boolean":
		var a []string
		for _, x := range append(append([]string{}, p.True...), p.False...) {
			a = append(a, regexp.QuoteMeta(x))
		}
		return "(?:" + strings.Join(a, "|") + ")"
	}
	panic("pattern")
}

// ---- records

type mrec struct {
	s   *Spec
	in  *Input
	n   int
	doc map[string]interface{}
}

type model struct {
	s    *Spec
	recs map[string][]*mrec
	rx   map[*Route]*regexp.Regexp
	par  map[*Route][]string
	memo map[string]*Outcome
}

func newModel(s *Spec) *model {
	return &model{s: s, recs: map[string][]*mrec{}, rx: map[*Route]*regexp.Regexp{}, par: map[*Route][]string{}, memo: map[string]*Outcome{}}
}

func (o *model) records(in *Input) []*mrec {
	if l, ok := o.recs[in.Name]; ok {
		return l
	}
	n := 0
	switch in.Type {
	case "csv":
		n = len(in.Rows)
	case "json":
		n = len(in.Docs)
	case "xml":
		n = len(in.XRecs)
	}
	l := make([]*mrec, n)
	for i := range l {
		l[i] = &mrec{s: o.s, in: in, n: i}
		if in.Type == "json" {
			if err := json.Unmarshal([]byte(in.Docs[i]), &l[i].doc); err != nil {
				panic("bad json document in a spec: " + in.Docs[i])
			}
		}
	}
	o.recs[in.Name] = l
	return l
}

func sub(v interface{}, path []string) (interface{}, error) {
	if len(path) == 0 {
		return v, nil
	}
	switch x := v.(type) {
	case map[string]interface{}:
		y, ok := x[path[0]]
		if !ok {
			return nil, nil
		}
		return sub(y, path[1:])
	case []interface{}:
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return nil, errModel
		}
		if i < 0 || i >= len(x) {
			return nil, nil
		}
		return sub(x[i], path[1:])
	}
	return nil, errModel
}

func (r *mrec) column(k int) (interface{}, error) {
	row := r.in.Rows[r.n]
	if k >= len(row) {
		return nil, nil
	}
	p := r.in.Cols[k].Parser
	if r.in.Auto {
		p = "string"
	}
	return r.s.parse(p, string(row[k]))
}

func (r *mrec) get(path string) (interface{}, error) {
	p := strings.Split(path, ".")
	switch r.in.Type {
	case "csv":
		for k, c := range r.in.Cols {
			if c.Name == p[0] {
				v, err := r.column(k)
				if err != nil {
					return nil, err
				}
				return sub(v, p[1:])
			}
		}
		return nil, errModel
	case "json":
		return sub(interface{}(r.doc), p)
	}
	for _, x := range r.in.XProps {
		if x.Name == p[0] {
			return r.s.xsub(r.in.XRecs[r.n], x, p[1:])
		}
	}
	return nil, errModel
}

func (r *mrec) all() (map[string]interface{}, error) {
	out := map[string]interface{}{}
	switch r.in.Type {
	case "csv":
		for k, c := range r.in.Cols {
			v, err := r.column(k)
			if err != nil {
				return nil, err
			}
			out[c.Name] = v
		}
	case "json":
		for k, v := range r.doc {
			out[k] = v
		}
	case "xml":
		for _, x := range r.in.XProps {
			v, err := r.s.xvalue(r.in.XRecs[r.n], x)
			if err != nil {
				return nil, err
			}
			out[x.Name] = v
		}
	}
	return out, nil
}

func (e *XElem) str() string {
	s := e.Text
	for _, k := range e.Kids {
		s += k.str()
	}
	return s
}

// outer is the element as XML; its texts must neither begin nor end with a space, nor contain several.
func (e *XElem) outer() string {
	s := "<" + e.Name
	for _, a := range e.Attrs {
		s += " " + a[0] + `="` + xmlEsc.Replace(a[1]) + `"`
	}
	s += ">" + xmlEsc.Replace(e.Text)
	for _, k := range e.Kids {
		s += k.outer()
	}
	return s + "</" + e.Name + ">"
}

func (e *XElem) find(path string) []*XElem {
	l := []*XElem{e}
	for _, step := range strings.Split(path, "/") {
		var n []*XElem
		for _, x := range l {
			for _, k := range x.Kids {
				if k.Name == step {
					n = append(n, k)
				}
			}
		}
		l = n
	}
	return l
}

func (s *Spec) xvalue(e *XElem, p *XProp) (interface{}, error) {
	switch p.Kind {
	case "attr":
		v := ""
		for _, a := range e.Attrs {
			if a[0] == p.Arg {
				v = a[1]
			}
		}
		return s.parse(p.Parser, v)
	case "self":
		return s.parse(p.Parser, e.str())
	case "text":
		v := ""
		if l := e.find(p.Arg); len(l) > 0 {
			v = l[0].str()
		}
		return s.parse(p.Parser, v)
	case "nodes":
		if s.parser(p.Parser).Type != "string" {
			return nil, errModel
		}
		v := ""
		for _, x := range e.find(p.Arg) {
			v += x.outer()
		}
		return v, nil
	case "num", "count":
		var f float64
		if p.Kind == "count" {
			f = float64(len(e.find(p.Arg)))
		} else if l := e.find(p.Arg); len(l) > 0 {
			var err error
			if f, err = strconv.ParseFloat(strings.TrimSpace(l[0].str()), 64); err != nil {
				f = math.NaN()
			}
		} else {
			f = math.NaN()
		}
		switch s.parser(p.Parser).Type {
		case "integer":
			return int64(f), nil
		case "float":
			return f, nil
		}
		return nil, errModel
	case "eq":
		i := strings.IndexByte(p.Arg, '=')
		v := false
		for _, x := range e.find(p.Arg[:i]) {
			v = v || x.str() == p.Arg[i+1:]
		}
		if s.parser(p.Parser).Type != "boolean" {
			return nil, errModel
		}
		return v, nil
	case "array":
		l := e.find(p.Arg)
		out := make([]interface{}, len(l))
		for i, x := range l {
			v, err := s.xvalue(x, p.Items)
			if err != nil {
				return nil, err
			}
			out[i] = v
		}
		return out, nil
	case "object":
		l := e.find(p.Arg)
		if len(l) == 0 {
			return nil, nil
		}
		if len(l) > 1 {
			return nil, errModel
		}
		out := map[string]interface{}{}
		for _, q := range p.Props {
			v, err := s.xvalue(l[0], q)
			if err != nil {
				return nil, err
			}
			out[q.Name] = v
		}
		return out, nil
	}
	panic("xml property kind " + p.Kind)
}

func (s *Spec) xsub(e *XElem, p *XProp, path []string) (interface{}, error) {
	if len(path) == 0 {
		return s.xvalue(e, p)
	}
	switch p.Kind {
	case "array":
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return nil, errModel
		}
		l := e.find(p.Arg)
		if i < 0 || i >= len(l) {
			return nil, nil
		}
		return s.xsub(l[i], p.Items, path[1:])
	case "object":
		l := e.find(p.Arg)
		if len(l) == 0 {
			return nil, nil
		}
		if len(l) > 1 {
			return nil, errModel
		}
		for _, q := range p.Props {
			if q.Name == path[0] {
				return s.xsub(l[0], q, path[1:])
			}
		}
		return nil, nil
	}
	v, err := s.xvalue(e, p)
	if err != nil {
		return nil, err
	}
	return sub(v, path)
}

// ---- indexes

type filter struct {
	prop string
	v    interface{}
}

// matches is an index lookup: the records found, in file order. If errAt >= 0 the lookup fails when
// more than errAt matches are asked for. unspec: the outcome is not specified.
type matches struct {
	pos    []int
	errAt  int
	unspec bool
}

func uncomparable(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[string]interface{}, anyString:
		return true
	}
	return false
}

func sqliteEqual(v, f interface{}, collate string) bool {
	num := func(x interface{}) (float64, bool) {
		switch y := x.(type) {
		case int64:
			return float64(y), true
		case float64:
			return y, true
		case bool:
			if y {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	if v == nil || f == nil {
		return false
	}
	if a, ok := num(v); ok {
		b, ok := num(f)
		return ok && a == b
	}
	a, ok := v.(string)
	b, ok2 := f.(string)
	if !ok || !ok2 {
		return false
	}
	switch strings.ToUpper(collate) {
	case "NOCASE":
		lo := func(s string) string {
			return strings.Map(func(r rune) rune {
				if r >= 'A' && r <= 'Z' {
					return r + 32
				}
				return r
			}, s)
		}
		return lo(a) == lo(b)
	case "RTRIM":
		return strings.TrimRight(a, " ") == strings.TrimRight(b, " ")
	}
	return a == b
}

func (o *model) lookup(in *Input, x *Index, fs []filter) matches {
	recs := o.records(in)
	m := matches{errAt: -1}
	fail := matches{errAt: 0, pos: nil}
	bad := in.Tail != ""
	switch x.Type {
	case "noop":
		for i, r := range recs {
			ok := true
			nerr, nfalse := 0, 0
			for _, f := range fs {
				v, err := r.get(f.prop)
				if err != nil {
					nerr++
					continue
				}
				if uncomparable(f.v) && v != nil && reflect.TypeOf(v) == reflect.TypeOf(f.v) {
					m.unspec = true
					continue
				}
				if _, any := v.(anyString); any {
					m.unspec = true
					continue
				}
				if uncomparable(v) || v != f.v {
					nfalse++
					ok = false
				}
			}
			if nerr > 0 {
				if nfalse > 0 || m.unspec {
					m.unspec = true // depends on the order of evaluation
				}
				m.errAt = len(m.pos)
				return m
			}
			if ok {
				m.pos = append(m.pos, i)
			}
		}
		if bad {
			m.errAt = len(m.pos)
		}
		return m
	case "map":
		if len(fs) == 0 {
			return fail
		}
		for _, f := range fs {
			if uncomparable(f.v) {
				m.unspec = true
				return m
			}
		}
		for i, r := range recs {
			ok := true
			for _, f := range fs {
				v, _ := r.get(f.prop)
				if !contains(v, f.v) {
					ok = false
				}
			}
			if ok {
				m.pos = append(m.pos, i)
			}
		}
	case "wildcard":
		if len(fs) == 0 {
			return fail
		}
		for _, f := range fs {
			if _, ok := f.v.(string); !ok {
				// another filter finding nothing may come first
				return matches{errAt: 0, unspec: len(fs) > 1}
			}
			if f.v.(string) == "" { // what an empty pattern matches is not specified
				m.unspec = true
			}
		}
		for i, r := range recs {
			ok := true
			for _, f := range fs {
				v, _ := r.get(f.prop)
				if !containsSub(v, f.v.(string), x.IgnoreCase) {
					ok = false
				}
			}
			if ok {
				m.pos = append(m.pos, i)
			}
		}
	case "sqlite":
		if len(fs) == 0 {
			return fail
		}
		for _, f := range fs {
			if uncomparable(f.v) {
				return fail
			}
		}
		for i, r := range recs {
			ok := true
			for _, f := range fs {
				v, _ := r.get(f.prop)
				col := ""
				for _, p := range x.Props {
					if p.Name == f.prop {
						col = p.Collate
					}
				}
				if !sqliteEqual(v, f.v, col) {
					ok = false
				}
			}
			if ok {
				m.pos = append(m.pos, i)
			}
		}
	case "fts5":
		if len(fs) != 1 || fs[0].prop != "match" {
			return fail
		}
		q, ok := fs[0].v.(string)
		if !ok {
			m.unspec = true
			return m
		}
		if strings.ContainsAny(q, "^-{}\x00\x1a") || strings.Contains(q, `""`) || strings.Contains(q, "NEAR") {
			m.unspec = true // parts of the query language that the model leaves out
			return m
		}
		e, ok := parseFts(q)
		if !ok {
			return fail
		}
		for i, r := range recs {
			cols := map[string][]string{}
			for _, p := range x.Props {
				v, _ := r.get(p.Name)
				if s, ok := v.(string); ok {
					cols[strings.ToLower(p.Name)] = ftsTokens(s)
				}
			}
			if e.match(cols, "") {
				m.pos = append(m.pos, i)
			}
		}
	}
	return m
}

func contains(v, f interface{}) bool {
	if a, ok := v.([]interface{}); ok {
		for _, x := range a {
			if contains(x, f) {
				return true
			}
		}
		return false
	}
	if uncomparable(v) || uncomparable(f) {
		return false
	}
	return v == f
}

func containsSub(v interface{}, f string, ignoreCase bool) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, y := range x {
			if containsSub(y, f, ignoreCase) {
				return true
			}
		}
	case string:
		if ignoreCase {
			return strings.Contains(strings.ToLower(x), strings.ToLower(f))
		}
		return strings.Contains(x, f)
	}
	return false
}

// ---- a subset of the fts5 query language over ASCII words

type ftsExpr struct {
	op     string // and or not phrase
	l, r   *ftsExpr
	words  []string
	prefix bool
	col    string
}

func ftsTokens(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r > 127)
	})
}

func (e *ftsExpr) match(cols map[string][]string, col string) bool {
	if e.col != "" {
		col = e.col
	}
	switch e.op {
	case "and":
		return e.l.match(cols, col) && e.r.match(cols, col)
	case "or":
		return e.l.match(cols, col) || e.r.match(cols, col)
	case "not":
		return e.l.match(cols, col) && !e.r.match(cols, col)
	}
	for name, toks := range cols {
		if col != "" && name != col {
			continue
		}
		for i := 0; i+len(e.words) <= len(toks); i++ {
			ok := true
			for k, w := range e.words {
				t := toks[i+k]
				if e.prefix && k == len(e.words)-1 {
					ok = ok && strings.HasPrefix(t, w)
				} else {
					ok = ok && t == w
				}
			}
			if ok && len(e.words) > 0 {
				return true
			}
		}
	}
	return false
}

type ftsParser struct {
	toks []string
	i    int
}

func (p *ftsParser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func isWord(t string) bool {
	if t == "" || t == "AND" || t == "OR" || t == "NOT" || t == "NEAR" {
		return false
	}
	for _, c := range []byte(t) {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80) {
			return false
		}
	}
	return true
}

// parseFts understands words, "phrases", word*, AND, OR, NOT, parentheses and column:word. It
// reports false for text that is not a valid query; generators stay within the subset.
func parseFts(q string) (*ftsExpr, bool) {
	var toks []string
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				return nil, false
			}
			toks = append(toks, q[i:i+j+2])
			i += j + 2
		case strings.IndexByte("()*:+", c) >= 0:
			toks = append(toks, string(c))
			i++
		default:
			j := i
			for j < len(q) && isWord("a"+q[j:j+1]) {
				j++
			}
			if j == i {
				return nil, false
			}
			toks = append(toks, q[i:j])
			i = j
		}
	}
	p := &ftsParser{toks: toks}
	e, ok := p.or()
	if !ok || p.i != len(toks) {
		return nil, false
	}
	return e, true
}

func (p *ftsParser) or() (*ftsExpr, bool) {
	l, ok := p.and()
	for ok && p.peek() == "OR" {
		p.i++
		var r *ftsExpr
		r, ok = p.and()
		l = &ftsExpr{op: "or", l: l, r: r}
	}
	return l, ok
}

func (p *ftsParser) and() (*ftsExpr, bool) {
	l, ok := p.not()
	for ok && p.peek() == "AND" {
		p.i++
		var r *ftsExpr
		r, ok = p.not()
		l = &ftsExpr{op: "and", l: l, r: r}
	}
	return l, ok
}

func (p *ftsParser) not() (*ftsExpr, bool) {
	l, ok := p.implicit()
	for ok && p.peek() == "NOT" {
		p.i++
		var r *ftsExpr
		r, ok = p.implicit()
		l = &ftsExpr{op: "not", l: l, r: r}
	}
	return l, ok
}

func (p *ftsParser) implicit() (*ftsExpr, bool) {
	l, ok := p.prim()
	for ok && (isWord(p.peek()) || strings.HasPrefix(p.peek(), `"`)) {
		var r *ftsExpr
		r, ok = p.prim()
		l = &ftsExpr{op: "and", l: l, r: r}
	}
	return l, ok
}

func (p *ftsParser) prim() (*ftsExpr, bool) {
	t := p.peek()
	if t == "(" {
		p.i++
		e, ok := p.or()
		if !ok || p.peek() != ")" {
			return nil, false
		}
		p.i++
		return e, true
	}
	if isWord(t) && p.i+1 < len(p.toks) && p.toks[p.i+1] == ":" {
		p.i += 2
		e, ok := p.prim()
		if !ok {
			return nil, false
		}
		return &ftsExpr{op: "and", l: e, r: e, col: strings.ToLower(t)}, true
	}
	e := &ftsExpr{op: "phrase"}
	switch {
	case strings.HasPrefix(t, `"`):
		e.words = ftsTokens(strings.Trim(t, `"`))
	case isWord(t):
		e.words = ftsTokens(t)
	default:
		return nil, false
	}
	p.i++
	for p.peek() == "+" && p.i+1 < len(p.toks) {
		n := p.toks[p.i+1]
		if !isWord(n) && !strings.HasPrefix(n, `"`) {
			break
		}
		e.words = append(e.words, ftsTokens(strings.Trim(n, `"`))...)
		p.i += 2
	}
	if p.peek() == "*" {
		p.i++
		e.prefix = true
	}
	return e, true
}

// ---- requests

// Outcome is what a request must be answered with.
type Outcome struct {
	Status int
	Body   interface{} // for 200
	Any    bool        // any well-formed answer (200, 404 or 500)
	Proto  bool        // rejected by the protocol layer: any 4xx
	Rows   int         // records in the answer
}

func status(n int) *Outcome { return &Outcome{Status: n} }

func (o *model) route(svc *Service, path string) (*Route, []string) {
	for _, r := range svc.Routes {
		rx := o.rx[r]
		if rx == nil {
			out := o.s.output(r.Output)
			pr := regexp.MustCompile("{([^}]+)}")
			var names []string
			x := "^"
			last := 0
			for _, l := range pr.FindAllStringSubmatchIndex(r.Path, -1) {
				x += r.Path[last:l[0]]
				n := r.Path[l[2]:l[3]]
				names = append(names, n)
				x += "(" + o.s.parser(out.param(n).Parser).pattern() + ")"
				last = l[1]
			}
			rx = regexp.MustCompile(x + r.Path[last:] + "$")
			o.rx[r], o.par[r] = rx, names
		}
		if l := rx.FindStringSubmatch(path); l != nil {
			return r, l[1:]
		}
	}
	return nil, nil
}

func (p *Output) param(name string) *Param {
	for _, q := range p.Params {
		if q.Name == name {
			return q
		}
	}
	return nil
}

// answer is the expected answer to a request to a service.
func (o *model) answer(svc *Service, method, target string) *Outcome {
	key := svc.Name + " " + method + " " + target
	if a, ok := o.memo[key]; ok {
		return a
	}
	a := o.answer1(svc, method, target)
	o.memo[key] = a
	return a
}

func (o *model) answer1(svc *Service, method, target string) *Outcome {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return &Outcome{Proto: true}
	}
	if method != "GET" {
		return status(404)
	}
	r, vals := o.route(svc, u.Path)
	if r == nil {
		return status(404)
	}
	params := map[string]string{}
	for k, v := range u.Query() {
		params[k] = v[0]
	}
	for i, n := range o.par[r] {
		params[n] = vals[i]
	}
	return o.output(o.s.output(r.Output), params)
}

func (o *model) output(out *Output, params map[string]string) *Outcome {
	in := o.s.input(out.Input)
	limit, offset := 1, 0
	if out.Type == "jsonArray" {
		def, max := out.LimitDef, out.LimitMax
		if def == 0 {
			def = 100
		}
		if max == 0 {
			max = 1000
		}
		limit = def
		if v, ok := params[orStr(out.LimitPar, "limit")]; ok {
			n, err := strconv.Atoi(v)
			if err != nil || n <= 0 {
				return status(500)
			}
			limit = n
		}
		if limit > max {
			limit = max
		}
		if v, ok := params[orStr(out.OffPar, "offset")]; ok {
			n, err := strconv.Atoi(v)
			if err != nil || n < 0 {
				return status(500)
			}
			offset = n
		}
	}
	per := map[string][]filter{}
	var order []string
	for _, p := range out.Params {
		v, ok := params[p.Name]
		if !ok && out.Type == "jsonArray" {
			continue
		}
		x, err := o.s.parse(p.Parser, v)
		if err != nil {
			return status(500)
		}
		n := orStr(p.Index, "default")
		if _, ok := per[n]; !ok {
			order = append(order, n)
		}
		dup := false
		for i := range per[n] {
			if per[n][i].prop == p.Prop {
				dup = true
			}
		}
		if dup {
			return &Outcome{Any: true}
		}
		per[n] = append(per[n], filter{p.Prop, x})
	}
	m, multi := o.find(in, order, per)
	if m.unspec {
		return &Outcome{Any: true}
	}
	need := offset + limit
	if need < offset {
		need = math.MaxInt // the sum overflowed
	}
	if m.errAt >= 0 && need > m.errAt {
		if multi {
			return &Outcome{Any: true}
		}
		return status(500)
	}
	pos := m.pos
	if offset >= len(pos) {
		pos = nil
	} else {
		pos = pos[offset:]
	}
	if len(pos) > limit {
		pos = pos[:limit]
	}
	rows := make([]interface{}, 0, len(pos))
	for _, i := range pos {
		d, oc := o.expand(o.records(in)[i], out.Rels)
		if oc != nil {
			return oc
		}
		rows = append(rows, d)
	}
	if out.Type == "jsonObject" {
		if len(rows) == 0 {
			return status(404)
		}
		if badFloat(rows[0]) {
			return status(500)
		}
		return &Outcome{Status: 200, Body: rows[0], Rows: 1}
	}
	if badFloat(rows) {
		return status(500)
	}
	return &Outcome{Status: 200, Body: rows, Rows: len(rows)}
}

// find joins the lookups in several indexes.
func (o *model) find(in *Input, order []string, per map[string][]filter) (matches, bool) {
	if len(order) == 0 {
		return o.lookup(in, &Index{Type: "noop"}, nil), false
	}
	var ms []matches
	res := matches{errAt: -1}
	for _, n := range order {
		m := o.lookup(in, o.s.index(n), per[n])
		if m.unspec {
			res.unspec = true
		}
		ms = append(ms, m)
	}
	if len(ms) == 1 {
		return ms[0], false
	}
	for k, m := range ms {
		if m.errAt >= 0 {
			if o.s.index(order[k]).Type != "noop" {
				return matches{errAt: 0, unspec: m.unspec}, false // fails before anything is read
			}
			res.errAt = 0
		}
	}
	cnt := map[int]int{}
	for _, m := range ms {
		for _, p := range m.pos {
			cnt[p]++
		}
	}
	for p := range cnt {
		if cnt[p] == len(ms) {
			res.pos = append(res.pos, p)
		}
	}
	sort.Ints(res.pos)
	return res, true
}

func (o *model) expand(r *mrec, rs []*Rel) (map[string]interface{}, *Outcome) {
	base, err := r.all()
	if err != nil {
		return nil, status(500)
	}
	out := map[string]interface{}{}
	for k, v := range base {
		out[k] = v
	}
	var any, bad *Outcome
	for _, rel := range rs {
		per := map[string][]filter{}
		var order []string
		missing, dup := false, false
		for _, k := range rel.Match {
			v, ok := base[k.Parent]
			if !ok {
				missing = true
			}
			n := orStr(k.Index, "default")
			if _, ok := per[n]; !ok {
				order = append(order, n)
			}
			for _, f := range per[n] {
				dup = dup || f.prop == k.Child
			}
			per[n] = append(per[n], filter{k.Child, v})
		}
		if missing {
			bad = status(500)
			continue
		}
		in := o.s.input(rel.Input)
		m, multi := o.find(in, order, per)
		if m.unspec || dup {
			any = &Outcome{Any: true}
			continue
		}
		if m.errAt >= 0 {
			if multi {
				any = &Outcome{Any: true}
			} else {
				bad = status(500)
			}
			continue
		}
		kids := make([]*mrec, 0, len(m.pos))
		for _, i := range m.pos {
			kids = append(kids, o.records(in)[i])
		}
		if len(rel.Sort) > 0 {
			sort.SliceStable(kids, func(a, b int) bool {
				for _, s := range rel.Sort {
					x, _ := kids[a].get(s.Prop)
					y, _ := kids[b].get(s.Prop)
					c := cmp(x, y)
					if s.Asc != nil && !*s.Asc {
						c = -c
					}
					if c != 0 {
						return c < 0
					}
				}
				return false
			})
		}
		n := len(kids)
		if !rel.IsArray {
			n = 1
		} else if rel.Limit > 0 {
			n = rel.Limit
		}
		if n > len(kids) {
			n = len(kids)
		}
		items := make([]interface{}, 0, n)
		for _, k := range kids[:n] {
			d, oc := o.expand(k, rel.Rels)
			if oc != nil {
				if oc.Any {
					any = oc
				} else {
					bad = oc
				}
				break
			}
			items = append(items, d)
		}
		switch {
		case rel.IsArray:
			out[rel.Name] = items
		case len(items) == 0:
			out[rel.Name] = nil
		default:
			out[rel.Name] = items[0]
		}
	}
	if any != nil && bad == nil {
		return nil, any
	}
	if bad != nil {
		return nil, bad
	}
	return out, nil
}

func cmp(a, b interface{}) int {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if ok {
			return strings.Compare(x, y)
		}
	case int64:
		if y, ok := b.(int64); ok {
			return cmpf(float64(x), float64(y))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return cmpf(x, y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			}
			if !x {
				return -1
			}
			return 1
		}
	}
	return 0
}

func cmpf(a, b float64) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func badFloat(v interface{}) bool {
	switch x := v.(type) {
	case float64:
		return math.IsNaN(x) || math.IsInf(x, 0)
	case []interface{}:
		for _, y := range x {
			if badFloat(y) {
				return true
			}
		}
	case map[string]interface{}:
		for _, y := range x {
			if badFloat(y) {
				return true
			}
		}
	}
	return false
}

// same compares an expected value with decoded JSON (numbers as json.Number).
func same(want, got interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case anyString:
		_, ok := got.(string)
		return ok
	case string:
		g, ok := got.(string)
		return ok && validText(w) == g
	case bool:
		g, ok := got.(bool)
		return ok && w == g
	case int64:
		g, ok := got.(json.Number)
		if !ok {
			return false
		}
		n, err := g.Int64()
		return err == nil && n == w
	case float64:
		g, ok := got.(json.Number)
		if !ok {
			return false
		}
		f, err := g.Float64()
		return err == nil && f == w
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !same(w[i], g[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, ok := g[k]
			if !ok || !same(v, x) {
				return false
			}
		}
		return true
	}
	return false
}

func validText(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r) // invalid bytes come out as U+FFFD each
	}
	return b.String()
}

func show(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	if len(b) > 400 {
		return string(b[:400]) + "..."
	}
	return string(b)
}
