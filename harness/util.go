package harness

import (
	"bytes"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// kv is one key as a reader sees it.
type kv struct {
	name, value, comment string
}

// sec is one section as a reader sees it.
type sec struct {
	name, comment string
	keys          []kv
}

// dump reads a whole file through the public listings.
func dump(f *ini.File) []sec {
	var r []sec
	for _, s := range f.Sections() {
		x := sec{name: s.Name(), comment: s.Comment}
		for _, k := range s.Keys() {
			x.keys = append(x.keys, kv{k.Name(), k.Value(), k.Comment})
		}
		r = append(r, x)
	}
	return r
}

// sameData asserts that two files hold the same sections, keys and values in the same order.
func sameData(a, b []sec, what string) {
	sym.Assert(len(a) == len(b), what+": number of sections")
	for i := range a {
		sym.Assert(a[i].name == b[i].name, what+": section name")
		sym.Assert(len(a[i].keys) == len(b[i].keys), what+": number of keys")
		for j := range a[i].keys {
			sym.Assert(a[i].keys[j].name == b[i].keys[j].name, what+": key name")
			sym.Assert(a[i].keys[j].value == b[i].keys[j].value, what+": value")
		}
	}
}

// sameComments asserts that two dumps of the same shape hold the same comments.
func sameComments(a, b []sec, what string) {
	for i := range a {
		sym.Assert(a[i].comment == b[i].comment, what+": section comment")
		for j := range a[i].keys {
			sym.Assert(a[i].keys[j].comment == b[i].keys[j].comment, what+": key comment")
		}
	}
}

func observe(d []sec) {
	for _, s := range d {
		sym.Observe(s.name)
		for _, k := range s.keys {
			sym.Observe(k.name)
			sym.Observe(k.value)
			sym.Observe(k.comment)
		}
	}
}

// written returns what WriteTo delivers.
func written(f *ini.File) []byte {
	var buf bytes.Buffer
	n, err := f.WriteTo(&buf)
	sym.Assert(err == nil, "WriteTo fails")
	sym.Assert(n == int64(buf.Len()), "WriteTo reports another length")
	return buf.Bytes()
}

// reload loads what WriteTo delivers.
func reload(f *ini.File, o ini.LoadOptions) *ini.File {
	b := written(f)
	g, err := ini.LoadSources(o, b)
	if err != nil {
		sym.Fail("cannot load what was written: " + string(b))
	}
	return g
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isSpaceByte(c byte) bool {
	return sym.IsIn(c, " \t\n\v\f\r")
}

// oneOf says whether the string is one of the given ones.
func oneOf(s string, set ...string) bool {
	for _, x := range set {
		if s == x {
			return true
		}
	}
	return false
}

func has(s string, sub string) bool { return strings.Contains(s, sub) }

// lines is a document of n lines, each any of the given ones. A '?' in a line stands for any byte.
func lines(n int, palette ...string) string {
	text := ""
	for i := 0; i < n; i++ {
		l := palette[sym.Choose(len(palette))]
		for {
			j := strings.IndexByte(l, '?')
			if j < 0 {
				break
			}
			text += l[:j] + sym.Str(1)
			l = l[j+1:]
		}
		text += l + "\n"
	}
	return text
}

// again writes the file and loads it with the same options, which has to give the same, comments of keys included.
func again(f *ini.File, o ini.LoadOptions) {
	sameFile(f, reload(f, o))
}

// sameFile asserts that what was reloaded is the same as what was written.
func sameFile(f, g *ini.File) {
	a, b := dump(f), dump(g)
	sym.Assert(len(a) == len(b), "reloaded: number of sections")
	for i, s := range f.Sections() {
		t := g.Sections()[i]
		sym.Assert(s.Name() == t.Name(), "reloaded: section name")
		if i > 0 {
			sym.Assert(plainComment(a[i].comment) == plainComment(b[i].comment), "reloaded: section comment")
		}
		sym.Assert(s.Body() == t.Body(), "reloaded: body")
		sym.Assert(len(a[i].keys) == len(b[i].keys), "reloaded: number of keys")
		for j, k := range s.Keys() {
			l := t.Keys()[j]
			sym.Assert(k.Name() == l.Name(), "reloaded: key name")
			if k.Value() != "" || len(k.ValueWithShadows()) == 0 {
				sym.Assert(k.Value() == l.Value(), "reloaded: value")
			}
			sym.Assert(plainComment(k.Comment) == plainComment(l.Comment), "reloaded: key comment")
			sym.Assert(eqStrs(k.ValueWithShadows(), l.ValueWithShadows()), "reloaded: values with shadows")
			sym.Assert(eqStrs(k.NestedValues(), l.NestedValues()), "reloaded: nested values")
		}
	}
}
