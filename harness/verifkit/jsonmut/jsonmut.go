// Package jsonmut enumerates alterations of JSON documents.
package jsonmut

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Mut is one altered document.
type Mut struct {
	Path string // of the altered element, "." separated
	What string
	Doc  []byte
}

// Parse parses a document without loss of precision.
func Parse(doc []byte) interface{} {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

// Text encodes a parsed document.
func Text(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func strs(s string, all bool) map[string]string {
	m := map[string]string{
		"emptied": "", "space appended": s + " ", "newline appended": s + "\n", "= appended": s + "=",
		"zero byte appended": s + "\x00", "space prepended": " " + s, "upper case": strings.ToUpper(s),
		"lower case": strings.ToLower(s), "doubled": s + s, "replaced": "x",
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := c + 1
		if c >= 0x7e || c == 'Z' || c == 'z' || c == '9' {
			d = 'A'
		}
		m[fmt.Sprintf("char %d changed", i)] = s[:i] + string([]byte{d}) + s[i+1:]
		if all || i == 0 || i == len(s)-1 || i == len(s)/2 {
			m[fmt.Sprintf("char %d left out", i)] = s[:i] + s[i+1:]
			m[fmt.Sprintf("cut at %d", i)] = s[:i]
		}
	}
	delete(m, "")
	for k, v := range m {
		if v == s {
			delete(m, k)
		}
	}
	return m
}

// All returns the alterations of every element of doc; all includes more of
// them in strings.
func All(doc []byte, all bool) []Mut {
	var out []Mut
	root := Parse(doc)
	var walk func(path string, v interface{}, put func(interface{}) []byte)
	walk = func(path string, v interface{}, put func(interface{}) []byte) {
		add := func(what string, n interface{}) {
			out = append(out, Mut{path, what, put(n)})
		}
		for _, o := range []struct {
			n string
			v interface{}
		}{{"null", nil}, {"a number", json.Number("7")}, {"a string", "y"}, {"an empty list", []interface{}{}},
			{"an empty object", map[string]interface{}{}}, {"a list with null", []interface{}{nil}}, {"true", true}, {"false", false}} {
			add(o.n, o.v)
		}
		switch x := v.(type) {
		case string:
			m := strs(x, all)
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				add(k, m[k])
			}
		case json.Number:
			for _, n := range []string{"0", "1", "2", "-1", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5"} {
				add("number "+n, json.Number(n))
			}
			var u uint64
			if _, err := fmt.Sscan(x.String(), &u); err == nil {
				add("plus one", json.Number(fmt.Sprint(u+1)))
				add("minus one", json.Number(fmt.Sprint(u-1)))
				add("low bit", json.Number(fmt.Sprint(u^2)))
			}
		case []interface{}:
			for i := range x {
				i := i
				walk(fmt.Sprintf("%s.%d", path, i), x[i], func(n interface{}) []byte {
					c := append([]interface{}(nil), x...)
					c[i] = n
					return put(c)
				})
				add(fmt.Sprintf("element %d left out", i), append(append([]interface{}(nil), x[:i]...), x[i+1:]...))
				add(fmt.Sprintf("element %d doubled", i), append(append([]interface{}(nil), x[:i+1]...), x[i:]...))
				add(fmt.Sprintf("null before element %d", i), append(append(append([]interface{}(nil), x[:i]...), nil), x[i:]...))
			}
			add("null appended", append(append([]interface{}(nil), x...), nil))
			add("an object appended", append(append([]interface{}(nil), x...), map[string]interface{}{}))
			add("a string appended", append(append([]interface{}(nil), x...), "x"))
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			cp := func() map[string]interface{} {
				c := make(map[string]interface{})
				for k, v := range x {
					c[k] = v
				}
				return c
			}
			for _, k := range ks {
				k := k
				walk(path+"."+k, x[k], func(n interface{}) []byte {
					c := cp()
					c[k] = n
					return put(c)
				})
				c := cp()
				delete(c, k)
				add(k+" left out", c)
				c = cp()
				delete(c, k)
				c[strings.ToLower(k)] = x[k]
				add(k+" in lower case", c)
				for _, l := range ks {
					if k < l {
						c := cp()
						c[k], c[l] = x[l], x[k]
						add(k+" and "+l+" swapped", c)
					}
				}
			}
			c := cp()
			c["UNKNOWN"] = "x"
			add("unknown field", c)
		}
	}
	walk("", root, func(n interface{}) []byte { return Text(n) })
	return out
}

// Raw returns alterations of the text of a document.
func Raw(doc []byte) []Mut {
	var out []Mut
	for i := range doc {
		out = append(out, Mut{"", fmt.Sprintf("text cut at %d", i), append([]byte(nil), doc[:i]...)})
		for _, b := range []byte{0, ' ', '"', '{', '}', '[', ']', ',', ':', '\\', '0', '-', 0xff, doc[i] ^ 1, doc[i] ^ 0x20, doc[i] ^ 0x80} {
			if b != doc[i] {
				c := append([]byte(nil), doc...)
				c[i] = b
				out = append(out, Mut{"", fmt.Sprintf("byte %d is %#x", i, b), c})
			}
		}
	}
	return out
}

// Get returns the element of v at path.
func Get(v interface{}, path string) interface{} {
	for _, p := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		switch x := v.(type) {
		case map[string]interface{}:
			v = x[p]
		case []interface{}:
			var i int
			fmt.Sscan(p, &i)
			v = x[i]
		}
	}
	return v
}

// Set returns a copy of v with the element at path replaced by n.
func Set(v interface{}, path string, n interface{}) interface{} {
	path = strings.TrimPrefix(path, ".")
	if path == "" {
		return n
	}
	p, rest := path, ""
	if i := strings.Index(path, "."); i >= 0 {
		p, rest = path[:i], path[i+1:]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		c := make(map[string]interface{})
		for k, v := range x {
			c[k] = v
		}
		c[p] = Set(x[p], rest, n)
		return c
	case []interface{}:
		c := append([]interface{}(nil), x...)
		var i int
		fmt.Sscan(p, &i)
		c[i] = Set(x[i], rest, n)
		return c
	}
	return map[string]interface{}{p: Set(nil, rest, n)}
}
