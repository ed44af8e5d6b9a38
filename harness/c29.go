package harness

import (
	"bytes"
	"strings"

	"github.com/go-ini/ini"

	"verif/sym"
)

// wkey is a key of a file whose names and values need no quotes.
type wkey struct {
	name    string // as it is written
	found   string // the name it is found by
	values  []string
	comment []string
	boolean bool
	nested  []string
}

type wsec struct {
	name    string
	comment []string
	raw     string
	keys    []wkey
}

// source is a text that such a file is read from.
func source(secs []wsec) string {
	t := ""
	for _, s := range secs {
		for _, c := range s.comment {
			t += c + ini.LineBreak
		}
		if s.name != "" {
			t += "[" + s.name + "]\n"
		}
		t += s.raw
		for _, k := range s.keys {
			for _, c := range k.comment {
				t += c + ini.LineBreak
			}
			if k.boolean {
				t += k.name + "\n"
				continue
			}
			for _, v := range k.values {
				t += k.name + "=" + v + "\n"
			}
			for _, n := range k.nested {
				t += " " + n + "\n"
			}
		}
	}
	return t
}

func commentLine(c string) string {
	return c[:1] + " " + strings.TrimSpace(c[1:])
}

// layout is how such a file is written with the settings as they are.
func layout(secs []wsec, sign, indent string) string {
	br := ini.LineBreak
	switch {
	case ini.PrettyFormat, ini.PrettyEqual:
		sign = " " + sign + " "
	default:
		sign = ini.DefaultFormatLeft + sign + ini.DefaultFormatRight
	}
	t := ""
	for i, s := range secs {
		in := indent
		for _, c := range s.comment {
			t += commentLine(c) + br
		}
		if s.name == ini.DefaultSection {
			in = ""
		}
		if s.name == "" || i == 0 && s.name == ini.DefaultSection {
			in = ""
			if ini.DefaultHeader {
				t += "[" + ini.DefaultSection + "]" + br
			} else if len(s.keys) == 0 {
				continue
			}
		} else {
			t += "[" + s.name + "]" + br
		}
		t += s.raw
		width := 0
		for _, k := range s.keys {
			if len(k.found) > width {
				width = len(k.found)
			}
		}
		for _, k := range s.keys {
			for _, c := range k.comment {
				t += in + commentLine(c) + br
			}
			if k.boolean {
				t += in + k.name + br
				continue
			}
			for _, v := range k.values {
				t += in + k.name
				if ini.PrettyFormat {
					t += strings.Repeat(" ", width-len(k.name))
				}
				t += sign + v + br
			}
			for _, n := range k.nested {
				t += indent + "  " + n + br
			}
		}
		if ini.PrettySection && i < len(secs)-1 {
			t += br
		}
	}
	return t
}

// laidOut loads the file and compares how it is written.
func laidOut(secs []wsec, indent string) {
	o := ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true, AllowBooleanKeys: true, AllowNestedValues: true, UnparseableSections: []string{"raw"}}
	sign := []string{"=", ":", "=>"}[sym.Choose(3)]
	if sign != "=" {
		o.KeyValueDelimiterOnWrite = sign
	}
	f, err := ini.LoadSources(o, []byte(source(secs)))
	sym.Assert(err == nil, "load")
	var buf bytes.Buffer
	_, err = f.WriteToIndent(&buf, indent)
	sym.Assert(err == nil, "WriteToIndent")
	if got, want := buf.String(), layout(secs, sign, indent); got != want {
		sym.Fail("written as\n" + got + "instead of\n" + want)
	}
	sym.Reach("done")
}

func word(n int) string {
	s := sym.Str(n)
	for i := range s {
		sym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	return s
}

// C29_settings writes a file of every kind of section and key with all settings.
//
//sym:both len=1 time=60
//sym:thorough len=2 time=200
//sym:reach done
func C29_settings() {
	indent, undo := anyFormat()
	defer undo()
	n := sym.Param("len", 1)
	a, b := word(n), word(n)
	if indent != "" && sym.Choose(2) == 1 {
		indent += "\t "
	}
	laidOut([]wsec{
		{"", nil, "", []wkey{
			{"k", "k", []string{a}, []string{"#  c"}, false, nil},
			{"longer", "longer", []string{"1"}, nil, false, nil},
		}},
		{"s", []string{";s", "# t "}, "", []wkey{
			{"n", "n", []string{""}, nil, false, []string{b, "x y"}},
			{"-", "#1", []string{b}, nil, false, nil},
			{"flag", "flag", []string{"true"}, []string{";" + a}, true, nil},
		}},
		{"raw", nil, a + " = 3\n1  2\n", nil},
		{"empty", nil, "", nil},
		{"t" + a, nil, "", []wkey{{"k" + b, "k" + b, []string{"v"}, nil, false, nil}}},
	}, indent)
}

// C29_shapes writes files of any few sections and keys.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=300
//sym:reach done
func C29_shapes() {
	defer func() {
		ini.PrettyFormat, ini.PrettySection, ini.DefaultHeader = true, true, false
	}()
	ini.PrettyFormat = sym.Choose(2) == 0
	ini.PrettySection = sym.Choose(2) == 0
	ini.DefaultHeader = sym.Choose(2) == 0
	v := word(1)
	secs := []wsec{{}}
	for i := 0; i < sym.Param("n", 3); i++ {
		at := &secs[len(secs)-1]
		x := itoa(i)
		switch kind := sym.Choose(8); kind {
		case 0:
			at.keys = append(at.keys, wkey{"k" + x, "k" + x, []string{v}, nil, false, nil})
		case 1:
			at.keys = append(at.keys, wkey{"longer" + x, "longer" + x, []string{v, v + "x", v}, nil, false, nil})
		case 2:
			at.keys = append(at.keys, wkey{"b" + x, "b" + x, []string{"true"}, []string{"#" + v + " "}, true, nil})
		case 3:
			n := 1
			for _, k := range at.keys {
				if k.name == "-" {
					n++
				}
			}
			at.keys = append(at.keys, wkey{"-", "#" + itoa(n), []string{v}, nil, false, nil})
		case 4:
			at.keys = append(at.keys, wkey{"n" + x, "n" + x, []string{""}, []string{"; a", ";b"}, false, []string{v, v + "w"}})
		case 5, 6:
			s := wsec{name: "s" + x}
			if kind == 6 {
				s.comment = []string{"# " + v, ";;" + v}
			}
			secs = append(secs, s)
		case 7:
			for _, s := range secs {
				if s.name == "raw" {
					sym.Stop()
				}
			}
			secs = append(secs, wsec{name: "raw", raw: v + "\n"}, wsec{name: "after" + x})
		}
	}
	laidOut(secs, "")
}

// C29_comments writes any comment.
//
//sym:both len=0 time=5
//sym:both len=1 time=5
//sym:both len=2 time=15
//sym:both len=3 time=30
//sym:thorough len=4 time=100
//sym:thorough len=5 time=300
//sym:reach done
func C29_comments() {
	c := sym.Str(sym.Param("len", 3))
	f := ini.Empty()
	k, _ := f.Section("s").NewKey("k", "v")
	key := sym.Choose(2) == 1
	if key {
		k.Comment = c
	} else {
		f.Section("s").Comment = c
	}
	want := ""
	if c != "" {
		for _, l := range strings.Split(c, "\n") {
			switch {
			case l != "" && sym.IsIn(l[0], "#;"):
				want += commentLine(l) + "\n"
			case key:
				want += "; " + strings.TrimSpace(l) + "\n"
			default:
				want += "; " + l + "\n"
			}
		}
	}
	if key {
		want = "[s]\n" + want + "k = v\n"
	} else {
		want += "[s]\nk = v\n"
	}
	sym.Assert(string(written(f)) == want, "the comment is written in another way")
	sym.Reach("done")
}

// C29_moved makes the default section anew anywhere among others.
//
//sym:both keys=1 time=10
//sym:thorough keys=2 time=60
//sym:reach done
func C29_moved() {
	defer func() {
		ini.DefaultHeader = false
	}()
	ini.DefaultHeader = sym.Choose(2) == 0
	f := ini.Empty()
	v := word(1)
	secs := []wsec{{name: "DEFAULT"}}
	for i := sym.Choose(3); i > 0; i-- {
		n := "s" + itoa(i)
		secs = append(secs, wsec{name: n})
		_, err := f.NewSection(n)
		sym.Assert(err == nil, "NewSection")
	}
	if sym.Choose(2) == 1 {
		f.DeleteSection("")
		secs = secs[1:]
		n := []string{"", "t", "default", "Default"}[sym.Choose(4)]
		if n != "" {
			secs = append(secs, wsec{name: n})
			_, err := f.NewSection(n)
			sym.Assert(err == nil, "NewSection")
		}
		secs = append(secs, wsec{name: "DEFAULT"})
		sym.Assert(f.Section("").Name() == "DEFAULT", "the default section is not made anew")
	}
	for i := range secs {
		s := f.Section(secs[i].name)
		for n := sym.Choose(sym.Param("keys", 1) + 1); n > 0; n-- {
			k := "k" + itoa(n)
			secs[i].keys = append(secs[i].keys, wkey{k, k, []string{v}, nil, false, nil})
			_, err := s.NewKey(k, v)
			sym.Assert(err == nil, "NewKey")
		}
	}
	indent := []string{"", "  "}[sym.Choose(2)]
	var buf bytes.Buffer
	_, err := f.WriteToIndent(&buf, indent)
	sym.Assert(err == nil, "WriteToIndent")
	if got, want := buf.String(), layout(secs, "=", indent); got != want {
		sym.Fail("written as\n" + got + "instead of\n" + want)
	}
	sym.Reach("done")
}
