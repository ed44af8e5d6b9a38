package harness

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"verif/sym"
)

// The reference reader: what a document means, written line by line from the documentation of the format and
// of the load options. It shares nothing with the parser under test but the standard library.

type refKey struct {
	name, value string
	shadows     []string
	nested      []string
	isBool      bool
	isAuto      bool
	comment     string
}

type refSec struct {
	name, comment string
	keys          []*refKey
	body          string
	raw           bool
}

// values are the values that are not empty.
func (k *refKey) values() []string {
	var vals []string
	for _, v := range append([]string{k.value}, k.shadows...) {
		if v != "" {
			vals = append(vals, v)
		}
	}
	return vals
}

func (s *refSec) find(name string) *refKey {
	for _, k := range s.keys {
		if k.name == name {
			return k
		}
	}
	return nil
}

type refDoc struct {
	o        ini.LoadOptions
	secs     []*refSec
	rest     string // text not read yet
	comments string
}

func (d *refDoc) foldS() bool { return d.o.Insensitive || d.o.InsensitiveSections }
func (d *refDoc) foldK() bool { return d.o.Insensitive || d.o.InsensitiveKeys }

// line takes the next line with its line feed; more tells whether there was any text left.
func (d *refDoc) line() (l string, more bool) {
	if d.rest == "" {
		return "", false
	}
	if i := strings.IndexByte(d.rest, '\n'); i >= 0 {
		l, d.rest = d.rest[:i+1], d.rest[i+1:]
	} else {
		l, d.rest = d.rest, ""
	}
	return l, true
}

func (d *refDoc) section(name string) *refSec {
	if d.foldS() {
		name = strings.ToLower(name)
	}
	if !d.o.AllowNonUniqueSections {
		for _, s := range d.secs {
			if s.name == name {
				return s
			}
		}
	}
	s := &refSec{name: name}
	d.secs = append(d.secs, s)
	return s
}

// assign gives a key a value; nil when the key cannot take another one.
func (d *refDoc) assign(s *refSec, name, value string) *refKey {
	if d.foldK() {
		name = strings.ToLower(name)
	}
	k := s.find(name)
	if k == nil {
		k = &refKey{name: name, value: value}
		s.keys = append(s.keys, k)
		return k
	}
	if !d.o.AllowShadows {
		k.value = value
		return k
	}
	if k.isBool || k.isAuto {
		return nil
	}
	if !d.o.AllowDuplicateShadowValues {
		if k.value == value {
			return k
		}
		for _, v := range k.shadows {
			if v == value {
				return k
			}
		}
	}
	k.shadows = append(k.shadows, value)
	return k
}

func trimLeft(s string) string { return strings.TrimLeftFunc(s, unicode.IsSpace) }

func quotedBy(s string, q byte) bool {
	if len(s) < 2 || s[0] != q || s[len(s)-1] != q {
		return false
	}
	return strings.IndexByte(s[1:len(s)-1], q) < 0
}

// value reads a value that starts in the given text, taking more lines as it needs them.
func (d *refDoc) value(text string) (string, bool) {
	t := trimLeft(text)
	if t == "" {
		if d.o.AllowPythonMultilineValues && strings.HasSuffix(text, "\n") {
			return d.indented(""), true
		}
		return "", true
	}
	quote := ""
	switch {
	case len(t) >= 3 && t[:3] == `"""`:
		quote = `"""`
	case t[0] == '`':
		quote = "`"
	case t[0] == '"' && d.o.UnescapeValueDoubleQuotes:
		quote = `"`
	}
	if quote != "" {
		in := t[len(quote):]
		if i := strings.LastIndex(in, quote); i >= 0 {
			if quote == `"` {
				return strings.ReplaceAll(in[:i], `\"`, `"`), true
			}
			return in[:i], true
		}
		val := in
		for {
			l, more := d.line()
			if !more {
				return "", false // never closed
			}
			if i := strings.LastIndex(l, quote); i >= 0 {
				if j := strings.IndexAny(l[i:], "#;"); j >= 0 {
					d.comments += strings.TrimSpace(l[i+j:])
				}
				return val + l[:i], true
			}
			val += l
		}
	}
	ended := strings.HasSuffix(t, "\n")
	v := strings.TrimSpace(t)
	if !d.o.IgnoreContinuation && v[len(v)-1] == '\\' {
		v = v[:len(v)-1]
		for {
			l, _ := d.line()
			l = strings.TrimSpace(l)
			if l == "" {
				return v, true
			}
			v += l
			if v[len(v)-1] != '\\' {
				return v, true
			}
			v = v[:len(v)-1]
		}
	}
	if !d.o.IgnoreInlineComment {
		i := -1
		if d.o.SpaceBeforeInlineComment {
			for j := 0; i < 0 && j+1 < len(v); j++ {
				if v[j] == ' ' && (v[j+1] == '#' || v[j+1] == ';') {
					i = j
				}
			}
		} else {
			i = strings.IndexAny(v, "#;")
		}
		if i >= 0 {
			d.comments += v[i:]
			v = strings.TrimSpace(v[:i])
		}
	}
	switch {
	case !d.o.PreserveSurroundedQuote && (quotedBy(v, '"') || quotedBy(v, '\'')):
		return v[1 : len(v)-1], true
	case d.o.UnescapeValueCommentSymbols:
		return strings.ReplaceAll(strings.ReplaceAll(v, `\;`, ";"), `\#`, "#"), true
	case d.o.AllowPythonMultilineValues && ended:
		return d.indented(v), true
	}
	return v, true
}

// indented adds the following indented lines to a value.
func (d *refDoc) indented(v string) string {
	for d.rest != "" && (d.rest[0] == ' ' || d.rest[0] == '\t' || d.rest[0] == '\f') {
		l, _ := d.line()
		v += "\n" + strings.TrimSuffix(strings.TrimSuffix(l, "\n"), "\r")
	}
	return v
}

// key splits a line into the key name and the text of the value.
// why: 0 fine, 1 no delimiter, 2 no name, 3 quote not closed
func (d *refDoc) key(t string) (name, rest string, why int) {
	delims := d.o.KeyValueDelimiters
	if delims == "" {
		delims = "=:"
	}
	quote := ""
	switch {
	case t[0] == '`':
		quote = "`"
	case len(t) > 6 && t[:3] == `"""`:
		quote = `"""`
	case t[0] == '"':
		quote = `"`
	}
	if quote == "" {
		i := strings.IndexAny(t, delims)
		if i < 0 {
			return "", "", 1
		}
		if i == 0 {
			return "", "", 2
		}
		return strings.TrimSpace(t[:i]), afterRune(t[i:]), 0
	}
	in := t[len(quote):]
	end := strings.Index(in, quote)
	if end < 0 {
		return "", "", 3
	}
	after := in[end+len(quote):]
	i := strings.IndexAny(after, delims)
	if i < 0 {
		return "", "", 1
	}
	return strings.TrimSpace(in[:end]), afterRune(after[i:]), 0
}

// afterRune is the text after its first character.
func afterRune(t string) string {
	if t[0] < utf8.RuneSelf {
		return t[1:]
	}
	_, n := utf8.DecodeRuneInString(t)
	return t[n:]
}

func (d *refDoc) takeComment() string {
	c := strings.TrimSpace(d.comments)
	d.comments = ""
	return c
}

// refLoad reads a document; nil means that loading has to fail.
func refLoad(o ini.LoadOptions, text string) []*refSec {
	d := &refDoc{o: o}
	if !refRead(d, text) {
		return nil
	}
	return d.secs
}

// refLoadAll reads several documents into one file.
func refLoadAll(o ini.LoadOptions, texts ...string) []*refSec {
	d := &refDoc{o: o}
	for _, t := range texts {
		if !refRead(d, t) {
			return nil
		}
	}
	return d.secs
}

func refRead(d *refDoc, text string) bool {
	o := d.o
	for _, bom := range []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"} {
		if strings.HasPrefix(text, bom) {
			text = text[len(bom):]
			break
		}
	}
	d.rest = text
	d.comments = ""
	cur := d.section(ini.DefaultSection)
	var last *refKey // the key whose value is empty, waiting for nested values
	lastEmpty := false
	count := 0
	raw := false
	for {
		l, more := d.line()
		if !more {
			return true
		}
		if o.AllowNestedValues && lastEmpty && (l[0] == ' ' || l[0] == '\t') {
			if last.isAuto || last.isBool {
				return false
			}
			last.nested = append(last.nested, strings.TrimSpace(l))
			continue
		}
		t := trimLeft(l)
		if t == "" {
			continue
		}
		if t[0] == '#' || t[0] == ';' {
			d.comments += t
			continue
		}
		if t[0] == '[' {
			i := strings.LastIndexByte(t, ']')
			if i <= 1 {
				return false // not closed, or no name
			}
			name := t[1:i]
			cur = d.section(name)
			if j := strings.IndexAny(t[i:], "#;"); j >= 0 {
				d.comments += t[i+j:]
			}
			cur.comment = d.takeComment()
			count, lastEmpty, raw = 0, false, false
			for _, u := range o.UnparseableSections {
				if u == name || d.foldS() && strings.EqualFold(u, name) {
					raw = true
				}
			}
			continue
		}
		if raw {
			cur.raw = true
			if cur.body != "" && !strings.HasSuffix(cur.body, "\n") {
				cur.body += "\n" // the last line of an earlier source
			}
			cur.body += t
			continue
		}
		name, rest, why := d.key(t)
		if why == 1 && o.AllowBooleanKeys {
			n, ok := d.value(t)
			if !ok || n == "" {
				return false
			}
			k := d.assign(cur, n, "true")
			if k == nil {
				return false
			}
			k.isBool = true
			k.comment = d.takeComment()
			continue
		}
		if (why == 1 || why == 2) && o.SkipUnrecognizableLines {
			continue
		}
		if why != 0 {
			return false
		}
		auto := name == "-"
		if auto {
			count++
			name = "#" + itoa(count)
		}
		v, ok := d.value(rest)
		if !ok || name == "" {
			return false
		}
		lastEmpty = v == ""
		k := d.assign(cur, name, v)
		if k == nil {
			return false
		}
		k.isAuto = auto
		if c := d.takeComment(); c != "" || !o.AllowShadows {
			k.comment = c
		}
		last = k
	}
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

// refSame asserts that the file holds what the reference says.
func refSame(f *ini.File, want []*refSec, comments bool) {
	got := f.Sections()
	sym.Assert(len(got) == len(want), "number of sections")
	for i, s := range got {
		w := want[i]
		sym.Assert(s.Name() == w.name, "section name")
		if comments {
			sym.Assert(s.Comment == w.comment, "section comment")
		}
		sym.Assert(s.Body() == strings.TrimSpace(w.body), "section body")
		ks := s.Keys()
		sym.Assert(len(ks) == len(w.keys), "number of keys")
		for j, k := range ks {
			r := w.keys[j]
			sym.Assert(k.Name() == r.name, "key name")
			sym.Assert(k.Value() == r.value, "key value")
			if comments {
				sym.Assert(k.Comment == r.comment, "key comment")
			}
			sym.Assert(eqStrs(k.ValueWithShadows(), r.values()), "values with shadows")
			sym.Assert(eqStrs(k.NestedValues(), r.nested), "nested values")
			sym.Observe(r.name)
			sym.Observe(r.value)
		}
	}
}

// refEqual tells whether the file holds what the reference says, comments aside.
func refEqual(f *ini.File, want []*refSec) bool {
	got := f.Sections()
	if len(got) != len(want) {
		return false
	}
	for i, s := range got {
		w := want[i]
		ks := s.Keys()
		if s.Name() != w.name || s.Body() != strings.TrimSpace(w.body) || len(ks) != len(w.keys) {
			return false
		}
		for j, k := range ks {
			r := w.keys[j]
			if k.Name() != r.name || k.Value() != r.value || !eqStrs(k.ValueWithShadows(), r.values()) || !eqStrs(k.NestedValues(), r.nested) {
				return false
			}
		}
	}
	return true
}

// against loads the text and compares the file, or the failure, with the reference.
func against(o ini.LoadOptions, text string, comments bool) *ini.File {
	want := refLoad(o, text)
	f, err := ini.LoadSources(o, []byte(text))
	if want == nil {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed document is accepted")
		sym.Assert(f == nil, "a file together with an error")
		sym.Stop()
	}
	sym.Reach("read")
	sym.Assert(err == nil, "a well-formed document is refused")
	refSame(f, want, comments)
	return f
}
