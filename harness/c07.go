package harness

import (
	"os"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// C07_merge loads two sources with arbitrary parts and compares the file with the reference.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=200
//sym:reach merged refused
func C07_merge() {
	n := sym.Param("len", 2)
	a := sym.Str(n) + "=1\n[s]\nk=a\n"
	b := [][2]string{{"", "=2\n[s]\nk=b\n"}, {"[", "]\nk=c\nj=d"}, {"[s]\n", "=b"}, {"k", ""}}[sym.Choose(4)]
	bt := b[0] + sym.Str(n) + b[1]
	o := modes([]int{0, 2, 3, 4}[sym.Choose(4)])
	o.AllowDuplicateShadowValues = false
	want := refLoadAll(o, a, bt)
	f, err := ini.LoadSources(o, []byte(a), []byte(bt))
	if want == nil {
		sym.Reach("refused")
		sym.Assert(err != nil && f == nil, "a malformed source is accepted")
		return
	}
	sym.Assert(err == nil, "well-formed sources are refused")
	refSame(f, want, true)
	sym.Reach("merged")
}

// C07_three assigns the same few keys in three sources.
//
//sym:both time=60
//sym:reach merged
func C07_three() {
	var srcs []any
	var texts []string
	for i := 0; i < 3; i++ {
		t := ""
		if sym.Choose(2) == 1 {
			t = "[" + sym.StrIn(1, "ab") + "]\n"
		}
		for j := sym.Choose(2) + i%2; j > 0; j-- {
			t += sym.StrIn(1, "kl#") + "=" + sym.Str(i%2) + "\n"
		}
		texts = append(texts, t)
		srcs = append(srcs, []byte(t))
	}
	want := refLoadAll(ini.LoadOptions{}, texts...)
	f, err := ini.Load(srcs[0], srcs[1:]...)
	if want == nil {
		sym.Assert(err != nil && f == nil, "a malformed source is accepted")
		return
	}
	sym.Assert(err == nil, "well-formed sources are refused")
	refSame(f, want, true)
	sym.Reach("merged")
}

// appendOptions are the options under which appending is compared with loading together.
func appendOptions() ini.LoadOptions {
	o := modes(sym.Choose(10))
	o.AllowDuplicateShadowValues = sym.Choose(2) == 1
	return o
}

// C07_append appends a source and compares with loading it together with the first one.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=60
//sym:thorough len=3 time=200
//sym:reach merged
func C07_append() {
	n := sym.Param("len", 2)
	ta := [][2]string{{"k=1\n[s]\n", "=2\n"}, {"-=1\nk=", "\n x\n"}, {"[r]\nk=1\n", "\n"}, {"k=1\nk=", "\n"}}[sym.Choose(4)]
	a := ta[0] + sym.Str(n) + ta[1]
	b := []string{"k=3\n[s]\nx=4\n[t]\n", "j=1\n"}[sym.Choose(2)]
	o := appendOptions()
	f, err := ini.LoadSources(o, []byte(a))
	if err != nil {
		sym.Stop()
	}
	both := refLoadAll(o, a, b)
	finding := accumulated(f, o)
	err = f.Append([]byte(b))
	if finding == "" {
		sym.Assert((both != nil) == (err == nil), "appending and loading together differ in the error")
		if err == nil {
			refSame(f, both, true)
			sym.Reach("merged")
		}
		return
	}
	// Append reads the first source once more. Anything else is not the known finding.
	if both != nil && err == nil && refEqual(f, both) {
		return
	}
	again := refLoadAll(o, a, a, b)
	sym.Assert((again != nil) == (err == nil), "appending differs in the error")
	if err == nil {
		refSame(f, again, true)
	}
	sym.Known(finding, true)
}

// accumulated names the finding that applies when the file has something that reading its source once more,
// which Append does, adds a second time.
func accumulated(f *ini.File, o ini.LoadOptions) string {
	secs := f.Sections()
	if o.AllowNonUniqueSections {
		return "append-nonunique"
	}
	for _, s := range secs {
		if s.Body() != "" {
			return "append-raw"
		}
		for _, k := range s.Keys() {
			if len(k.NestedValues()) > 0 {
				return "append-nested"
			}
			if o.AllowShadows && o.AllowDuplicateShadowValues {
				return "append-duplicates"
			}
			if o.AllowShadows && strings.HasPrefix(k.Name(), "#") {
				return "append-shadow-auto"
			}
			for _, v := range k.ValueWithShadows() {
				if o.AllowShadows && v == "true" {
					return "append-shadow-auto"
				}
			}
		}
	}
	return ""
}

// C07_files mixes sources in memory with files that exist or not, with Loose and ShortCircuit.
//
//sym:both len=0 time=15
//sym:both len=0 shapes=4 time=30
//sym:both len=1 time=60
//sym:thorough len=1 shapes=4 time=200
//sym:thorough len=2 time=200
//sym:reach merged missing
func C07_files() {
	dir := sym.Dir()
	o := ini.LoadOptions{Loose: sym.Choose(2) == 1, ShortCircuit: sym.Choose(2) == 1}
	var srcs []any
	var texts []string
	missing, refused, done := false, false, false
	for i := 0; i < 3; i++ {
		name := dir + "/" + string(rune('a'+i)) + ".ini"
		kind := sym.Choose(3)
		text := "k=" + sym.Str(sym.Param("len", 1)) + "\n" + string(rune('a'+i)) + "=1\n[s]\n" + string(rune('a'+i)) + "=2\n"
		switch sym.Choose(sym.Param("shapes", 1)) {
		case 1:
			text = text[:strings.Index(text, "[s]")]
		case 2:
			text = ""
		case 3:
			text = "[s]\n"
		}
		switch kind {
		case 0:
			srcs = append(srcs, []byte(text))
		case 1:
			sym.Assert(os.WriteFile(name, []byte(text), 0600) == nil, "scratch file")
			srcs = append(srcs, name)
		case 2:
			srcs = append(srcs, name)
		}
		switch {
		case missing || refused || done:
		case kind == 2:
			missing = !o.Loose
		default:
			texts = append(texts, text)
			refused = refLoadAll(o, texts...) == nil
			done = o.ShortCircuit
		}
	}
	f, err := ini.LoadSources(o, srcs[0], srcs[1:]...)
	sym.Assert(sym.OpenFiles() == 0, "a source file is left open")
	if missing || refused {
		sym.Reach("missing")
		sym.Assert(err != nil && f == nil, "a missing or malformed source is accepted")
		sym.Assert(!missing || os.IsNotExist(err), "the error does not say that the file is missing")
		return
	}
	sym.Assert(err == nil, "sources are refused")
	refSame(f, refLoadAll(o, append([]string{""}, texts...)...), true)
	sym.Reach("merged")
}

// C07_loaders compares the shorthand loaders with their option.
//
//sym:both len=2 time=7
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=3 time=30
//sym:thorough len=4 time=100
//sym:reach loaded
func C07_loaders() {
	b := asciiIf(sym.Bytes(sym.Param("len", 3)))
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	text := append([]byte("Key=1\nKEY=2\nkey="), b...)
	var f *ini.File
	var err error
	var o ini.LoadOptions
	missing := sym.Dir() + "/none"
	switch sym.Choose(4) {
	case 0:
		f, err = ini.Load(text)
	case 1:
		o.Loose = true
		f, err = ini.LooseLoad(missing, text)
	case 2:
		o.Insensitive = true
		f, err = ini.InsensitiveLoad(text)
	case 3:
		o.AllowShadows = true
		f, err = ini.ShadowLoad(text)
	}
	want := refLoad(o, string(text))
	sym.Assert((err == nil) == (want != nil), "error")
	if err == nil {
		refSame(f, want, true)
		sym.Reach("loaded")
	}
}

// C07_reload changes a file on disk and reloads it: the new assignments win.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=30
//sym:thorough len=3 time=100
//sym:reach merged
func C07_reload() {
	name := sym.Dir() + "/x.ini"
	a := "k=1\n[s]\nj=" + sym.Str(sym.Param("len", 2)) + "\n"
	b := "k=" + sym.Str(sym.Param("len", 2)) + "\n[t]\n"
	sym.Assert(os.WriteFile(name, []byte(a), 0600) == nil, "scratch file")
	mem := []byte("m=1\n")
	f, err := ini.Load(name, mem)
	if err != nil {
		sym.Stop()
	}
	if sym.Choose(2) == 1 {
		sym.Assert(os.WriteFile(name, []byte(b), 0600) == nil, "scratch file")
	} else {
		b = a
	}
	if sym.Choose(2) == 1 { // what was changed in the file is assigned again by its source
		f.Section("").Key("m").SetValue("2")
	}
	want := refLoadAll(ini.LoadOptions{}, a, "m=1\n", b, "m=1\n")
	err = f.Reload()
	sym.Assert(sym.OpenFiles() == 0, "a source file is left open")
	sym.Assert((err == nil) == (want != nil), "error")
	if err == nil {
		refSame(f, want, true)
		sym.Reach("merged")
	}
}

// C07_appends appends two sources at once, or one after the other.
//
//sym:both len=0 time=15 firsts=3
//sym:both len=1 time=60
//sym:thorough len=1 time=60 firsts=3
//sym:thorough len=2 time=200
//sym:reach merged refused
func C07_appends() {
	n := sym.Param("len", 1)
	texts := []string{[]string{"k=1\n[s]\nj=1\n", "k=1\n", ""}[sym.Choose(sym.Param("firsts", 1))]}
	for i := 0; i < 2+sym.Choose(2); i++ {
		texts = append(texts, []string{"", "[s]\n"}[sym.Choose(2)]+"jk"[sym.Choose(2):][:1]+"="+sym.Str(n*(i%2))+"\n")
	}
	o := ini.LoadOptions{InsensitiveSections: sym.Bool(), ShortCircuit: sym.Bool()}
	f, err := ini.LoadSources(o, []byte(texts[0]))
	sym.Assert(err == nil, "load")
	if sym.Choose(2) == 0 {
		var others []any
		for _, t := range texts[2:] {
			others = append(others, []byte(t))
		}
		err = f.Append([]byte(texts[1]), others...)
	} else {
		for _, t := range texts[1:] {
			if err == nil {
				err = f.Append([]byte(t))
			}
		}
	}
	if o.ShortCircuit {
		texts = texts[:1]
	}
	want := refLoadAll(o, texts...)
	sym.Assert((err == nil) == (want != nil), "error")
	if want == nil {
		sym.Reach("refused")
		return
	}
	refSame(f, want, true)
	sym.Reach("merged")
}

// C07_lines loads two sources with lines of every kind.
//
//sym:quick n=2 time=60
//sym:thorough n=3 time=400
//sym:reach read refused
func C07_lines() {
	o := ini.LoadOptions{UnparseableSections: []string{"r"}}
	switch sym.Choose(4) {
	case 0:
		o.AllowBooleanKeys, o.SkipUnrecognizableLines = true, true
	case 1:
		o.AllowBooleanKeys, o.AllowShadows = true, true
	case 2:
		o.AllowNestedValues = true
	case 3:
		o.AllowNonUniqueSections, o.AllowNestedValues = true, true
	}
	n := sym.Param("n", 2)
	texts := []string{lines(n, "k=1", "-=?", "[s]", "[r]", "flag", "k=", "\tin", "# c"), lines(n, "k=2", "-=3", "[s]", "[?]", "flag", "k=", "\tin", "# c")}
	want := refLoadAll(o, texts...)
	f, err := ini.LoadSources(o, []byte(texts[0]), []byte(texts[1]))
	sym.Assert((err == nil) == (want != nil), "error")
	if want == nil {
		sym.Reach("refused")
		return
	}
	refSame(f, want, true)
	sym.Reach("read")
}
