package harness

import (
	"encoding/json"
	"fmt"
	"sort"

	"rodbsim/simrt"
)

// Configurations that no deployment may be started with.

type cfgBreak struct {
	name string
	f    func(r *simrt.Rand, c m) bool // false: does not apply
}

func section(c m, name string) []m {
	l, _ := c[name].([]interface{})
	var out []m
	for _, x := range l {
		out = append(out, x.(m))
	}
	return out
}

// each calls f for the items of a list, in an order that begins at random, until one returns true.
func each(r *simrt.Rand, l []m, f func(x m) bool) bool {
	for _, k := range r.Perm(len(l)) {
		if f(l[k]) {
			return true
		}
	}
	return false
}

func again(name string) func(r *simrt.Rand, c m) bool {
	return func(r *simrt.Rand, c m) bool {
		l, _ := c[name].([]interface{})
		if len(l) == 0 {
			return false
		}
		c[name] = append(l, l[r.Intn(len(l))])
		return true
	}
}

func typed(name string) func(r *simrt.Rand, c m) bool {
	return func(r *simrt.Rand, c m) bool {
		return each(r, section(c, name), func(x m) bool {
			if r.Chance(0.5) {
				x["type"] = r.PickS("nosuch", "Csv", "")
			} else {
				delete(x, "type")
			}
			return true
		})
	}
}

func keyed(name string) func(r *simrt.Rand, c m) bool {
	return func(r *simrt.Rand, c m) bool {
		return each(r, section(c, name), func(x m) bool { x["nosuch"] = 1; return true })
	}
}

func unnamed(name string) func(r *simrt.Rand, c m) bool {
	return func(r *simrt.Rand, c m) bool {
		return each(r, section(c, name), func(x m) bool {
			if r.Chance(0.5) {
				// Nothing refers to this one
				y := m{}
				for k, v := range x {
					y[k] = v
				}
				l, _ := c[name].([]interface{})
				c[name] = append(l, y)
				x = y
			}
			delete(x, "name")
			return true
		})
	}
}

// params visits the parameters of an output in a random order.
func params(r *simrt.Rand, c m, f func(o m, name string, p m) bool) bool {
	return each(r, section(c, "outputs"), func(o m) bool {
		ps, _ := o["parameters"].(m)
		var names []string
		for n := range ps {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, k := range r.Perm(len(names)) {
			if f(o, names[k], ps[names[k]].(m)) {
				return true
			}
		}
		return false
	})
}

func relations(r *simrt.Rand, c m, f func(p m) bool) bool {
	var walk func(o m) bool
	walk = func(o m) bool {
		rs, _ := o["relationships"].(m)
		var names []string
		for n := range rs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, k := range r.Perm(len(names)) {
			x := rs[names[k]].(m)
			if r.Chance(0.5) && walk(x) || f(x) {
				return true
			}
		}
		return false
	}
	return each(r, section(c, "outputs"), walk)
}

func columns(x m, key string) []m { return section(x, key) }

var cfgBreaks = []cfgBreak{
	{"two parsers with one name", again("parsers")},
	{"two inputs with one name", again("inputs")},
	{"two indexes with one name", again("indexes")},
	{"two outputs with one name", again("outputs")},
	{"two services with one name", again("services")},
	{"unknown type of a parser", typed("parsers")},
	{"unknown type of an input", typed("inputs")},
	{"unknown type of an index", typed("indexes")},
	{"unknown type of an output", typed("outputs")},
	{"unknown type of a service", typed("services")},
	{"unknown setting of an input", keyed("inputs")},
	{"unknown setting of an index", keyed("indexes")},
	{"unknown setting of an output", keyed("outputs")},
	{"unknown setting of a service", keyed("services")},
	{"unknown section", func(r *simrt.Rand, c m) bool { c["nosuch"] = []interface{}{}; return true }},
	{"an input without a name", unnamed("inputs")},
	{"an index without a name", unnamed("indexes")},
	{"an output without a name", unnamed("outputs")},
	{"a data file that does not exist", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool { x["path"] = "/w/missing.dat"; return true })
	}},
	{"a data file that is a directory", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool { x["path"] = "/w"; return true })
	}},
	{"an index of an unknown input", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "indexes"), func(x m) bool {
			if x["type"] == "noop" {
				return false
			}
			x["input"] = r.PickS("nosuch", "")
			return true
		})
	}},
	{"an index of a property twice", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "indexes"), func(x m) bool {
			l, _ := x["properties"].([]interface{})
			if len(l) == 0 {
				return false
			}
			x["properties"] = append(l, l[0])
			return true
		})
	}},
	{"an index without its file", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "indexes"), func(x m) bool {
			if x["type"] != "wildcard" && x["type"] != "sqlite" && x["type"] != "fts5" {
				return false
			}
			delete(x, "path")
			delete(x, "dsn")
			return true
		})
	}},
	{"an unknown collation", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "indexes"), func(x m) bool {
			if x["type"] != "sqlite" {
				return false
			}
			section(x, "properties")[0]["collate"] = "klingon"
			return true
		})
	}},
	{"an output of an unknown input", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "outputs"), func(x m) bool { x["input"] = r.PickS("nosuch", ""); return true })
	}},
	{"a parameter with an unknown index", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool { p["index"] = "nosuch"; return true })
	}},
	{"a parameter with an unknown parser", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool { p["parser"] = "nosuch"; return true })
	}},
	{"a parameter that is not a single value", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool { p["parser"] = "json"; return true })
	}},
	{"a parameter without a property", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool { p["property"] = ""; return true })
	}},
	{"a parameter with an index of another property", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool {
			x, ok := p["index"]
			if !ok || x == "scan" || x == "default" {
				return false
			}
			p["property"] = "nosuch"
			return true
		})
	}},
	{"a parameter with an index of another input", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool {
			return each(r, section(c, "indexes"), func(x m) bool {
				if x["type"] == "noop" || x["input"] == o["input"] {
					return false
				}
				l, _ := x["properties"].([]interface{})
				if len(l) == 0 {
					return false
				}
				p["index"], p["property"] = x["name"], "match"
				if x["type"] == "fts5" {
					return true
				}
				switch y := l[0].(type) {
				case string:
					p["property"] = y
				case m:
					p["property"] = y["name"]
				}
				return true
			})
		})
	}},
	{"a parameter named like the limit", func(r *simrt.Rand, c m) bool {
		return params(r, c, func(o m, n string, p m) bool {
			if o["type"] != "jsonArray" {
				return false
			}
			if r.Chance(0.5) {
				o["limit"] = m{"parameter": n}
			} else {
				o["offset"] = m{"parameter": n}
			}
			return true
		})
	}},
	{"a default limit above the maximum", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "outputs"), func(x m) bool {
			if x["type"] != "jsonArray" {
				return false
			}
			x["limit"] = m{"default": 11, "max": r.Pick(10, 1)}
			return true
		})
	}},
	{"a relationship with an unknown input", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool { x["input"] = "nosuch"; return true })
	}},
	{"a relationship with an unknown index", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool { section(x, "match")[0]["childIndex"] = "nosuch"; return true })
	}},
	{"a relationship without matched properties", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool { delete(x, "match"); return true })
	}},
	{"a relationship with a filter twice", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool {
			l := x["match"].([]interface{})
			x["match"] = append(l, l[0])
			return true
		})
	}},
	{"a sorted relationship with one record", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool {
			delete(x, "isArray")
			x["sort"] = []interface{}{m{"property": section(x, "match")[0]["childProperty"]}}
			return true
		})
	}},
	{"a relationship sorted twice by a property", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool {
			x["isArray"] = true
			p := m{"property": section(x, "match")[0]["childProperty"]}
			x["sort"] = []interface{}{p, p}
			return true
		})
	}},
	{"a service without routes", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool { delete(x, "routes"); return true })
	}},
	{"a service that does not listen", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool { delete(x, "http"); delete(x, "https"); return true })
	}},
	{"a route to an unknown output", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool {
			section(x, "routes")[0]["output"] = r.PickS("nosuch", "")
			return true
		})
	}},
	{"a route without a path", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool { section(x, "routes")[0]["path"] = ""; return true })
	}},
	{"two routes with one path", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool {
			l := x["routes"].([]interface{})
			x["routes"] = append(l, l[r.Intn(len(l))])
			return true
		})
	}},
	{"a route with an unknown parameter", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool {
			rt := section(x, "routes")[0]
			rt["path"] = rt["path"].(string) + "/{nosuch}"
			return true
		})
	}},
	{"an unknown type of errors", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool { x["errorsType"] = "text/html"; return true })
	}},
	{"an https service without a certificate", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool {
			h, _ := x["https"].(m)
			if h == nil {
				return false
			}
			delete(h, r.PickS("certificatePath", "privateKeyPath"))
			return true
		})
	}},
	{"a column with an unknown parser", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			l := append(columns(x, "columns"), columns(x, "properties")...)
			return each(r, l, func(y m) bool {
				if t, ok := y["type"]; ok && t != "primitive" {
					return false
				}
				y["parser"] = "nosuch"
				return true
			})
		})
	}},
	{"a column without a name", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			return each(r, append(columns(x, "columns"), columns(x, "properties")...), func(y m) bool { delete(y, "name"); return true })
		})
	}},
	{"a column twice", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			for _, k := range []string{"columns", "properties"} {
				if l, ok := x[k].([]interface{}); ok {
					x[k] = append(l, l[r.Intn(len(l))])
					return true
				}
			}
			return false
		})
	}},
	{"columns although they are detected", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] != "csv" || x["autodetectColumns"] == true {
				return false
			}
			x["autodetectColumns"] = true
			return true
		})
	}},
	{"no columns", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] == "json" {
				return false
			}
			delete(x, "autodetectColumns")
			delete(x, "columns")
			delete(x, "properties")
			return true
		})
	}},
	{"a delimiter of several characters", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] != "csv" {
				return false
			}
			x["delimiter"] = ";;"
			return true
		})
	}},
	{"an invalid xpath", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] != "xml" {
				return false
			}
			if r.Chance(0.3) {
				x["recordXpath"] = "//rec["
			} else {
				each(r, columns(x, "properties"), func(y m) bool { y["xpath"] = "string(["; return true })
			}
			return true
		})
	}},
	{"an array without items", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			return each(r, columns(x, "properties"), func(y m) bool {
				if y["type"] != "array" && y["type"] != "object" {
					return false
				}
				delete(y, "items")
				delete(y, "properties")
				return true
			})
		})
	}},
	{"an invalid regular expression", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "parsers"), func(x m) bool {
			if x["type"] != "split" {
				return false
			}
			x["delimiter"], x["delimiterIsRegexp"] = "[", true
			return true
		})
	}},
	{"an unknown character set", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "parsers"), func(x m) bool {
			if x["type"] != "string" {
				return false
			}
			x["convertFromCharset"] = "klingon"
			return true
		})
	}},
	{"a parser without its values", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "parsers"), func(x m) bool {
			switch x["type"] {
			case "boolean":
				delete(x, r.PickS("trueValues", "falseValues"))
			case "float":
				delete(x, "decimalSeparator")
			case "split":
				delete(x, r.PickS("delimiter", "parser"))
			default:
				return false
			}
			return true
		})
	}},
	{"a parser without a name", unnamed("parsers")},
	{"a service without a name", unnamed("services")},
	{"an output of one record without parameters", func(r *simrt.Rand, c m) bool {
		l, _ := c["outputs"].([]interface{})
		return each(r, section(c, "inputs"), func(x m) bool {
			// Nothing refers to this one
			c["outputs"] = append(l, m{"type": "jsonObject", "name": "extra", "input": x["name"], "parameters": m{}})
			return true
		})
	}},
	{"a relationship with an index of another property", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool {
			y := section(x, "match")[0]
			if i := y["childIndex"]; i == nil || i == "scan" || i == "default" {
				return false
			}
			y["childProperty"] = "nosuch"
			return true
		})
	}},
	{"a relationship with an index of another input", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(o m) bool {
			return each(r, section(c, "indexes"), func(x m) bool {
				if x["type"] == "noop" || x["input"] == o["input"] {
					return false
				}
				l, _ := x["properties"].([]interface{})
				if len(l) == 0 {
					return false
				}
				y := section(o, "match")[0]
				y["childIndex"], y["childProperty"] = x["name"], "match"
				if x["type"] == "fts5" {
					return true
				}
				switch z := l[0].(type) {
				case string:
					y["childProperty"] = z
				case m:
					y["childProperty"] = z["name"]
				}
				return true
			})
		})
	}},
	{"a relationship without an input", func(r *simrt.Rand, c m) bool {
		return relations(r, c, func(x m) bool { delete(x, "input"); return true })
	}},
	{"an unusable file of an https service", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "services"), func(x m) bool {
			h, _ := x["https"].(m)
			if h == nil {
				return false
			}
			h[r.PickS("certificatePath", "privateKeyPath")] = r.PickS("/w/missing.pem", "/w", "")
			return true
		})
	}},
	{"an index whose file is a directory", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "indexes"), func(x m) bool {
			if x["type"] != "wildcard" {
				return false
			}
			x["path"] = "/w"
			return true
		})
	}},
	{"a property of the wrong kind", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] != "xml" {
				return false
			}
			item := m{"xpath": "string(.)"}
			named := m{"name": "q", "xpath": "string(.)"}
			return each(r, columns(x, "properties"), func(y m) bool {
				switch t, _ := y["type"].(string); t {
				case "array":
					switch r.Intn(3) {
					case 0:
						y["parser"] = "string"
					case 1:
						y["properties"] = []interface{}{named}
					default:
						y["type"] = "list"
					}
				case "object":
					switch r.Intn(4) {
					case 0:
						y["parser"] = "string"
					case 1:
						y["items"] = item
					case 2:
						y["properties"] = append(y["properties"].([]interface{}), y["properties"].([]interface{})[0])
					default:
						y["type"] = "record"
					}
				default:
					switch r.Intn(3) {
					case 0:
						y["items"] = item
					case 1:
						y["properties"] = []interface{}{named}
					default:
						y["type"] = r.PickS("string", "Primitive")
					}
				}
				return true
			})
		})
	}},
	{"a part of a property with an unknown parser", func(r *simrt.Rand, c m) bool {
		return each(r, section(c, "inputs"), func(x m) bool {
			if x["type"] != "xml" {
				return false
			}
			return each(r, columns(x, "properties"), func(y m) bool {
				if z, ok := y["items"].(m); ok {
					if t, _ := z["type"].(string); t == "" || t == "primitive" {
						z["parser"] = "nosuch"
						return true
					}
				}
				for _, z := range section(y, "properties") {
					if t, _ := z["type"].(string); t == "" || t == "primitive" {
						z["parser"] = "nosuch"
						return true
					}
				}
				return false
			})
		})
	}},
}

// brokenConfig renders a configuration that is not valid, and says why.
func (s *Spec) brokenConfig(r *simrt.Rand) ([]byte, string) {
	if r.Chance(0.03) {
		return []byte(r.PickS("inputs: [\n", "\t:", "[]", "inputs: 3\n")), "not a configuration"
	}
	for try := 0; try < 20; try++ {
		b := cfgBreaks[r.Intn(len(cfgBreaks))]
		var c m
		if err := json.Unmarshal(s.Config(), &c); err != nil {
			panic(fmt.Sprint("the configuration of a spec: ", err))
		}
		if !b.f(r, c) {
			continue
		}
		o, err := json.MarshalIndent(c, "", " ")
		if err != nil {
			panic(err)
		}
		return o, b.name
	}
	return nil, ""
}
