package harness

import (
	"github.com/go-ini/ini"

	"verif/sym"
)

type mkey struct {
	name, value string
	k           *ini.Key
}

type keyModel struct {
	s    *ini.Section
	list []mkey
}

func (m *keyModel) at(n string) int {
	for i, x := range m.list {
		if x.name == n {
			return i
		}
	}
	return -1
}

// assign is what creating a key does.
func (m *keyModel) assign(n, v string, k *ini.Key) {
	sym.Assert(k != nil && k.Name() == n, "the created key has another name")
	if i := m.at(n); i >= 0 {
		sym.Assert(k == m.list[i].k, "creating an existing key gives another one")
		m.list[i].value = v
		return
	}
	m.list = append(m.list, mkey{n, v, k})
}

func (m *keyModel) look(n string) {
	k, err := m.s.GetKey(n)
	i := m.at(n)
	sym.Assert(m.s.HasKey(n) == (i >= 0), "HasKey")
	if i < 0 {
		sym.Assert(k == nil && err != nil, "GetKey finds a key that does not exist")
		return
	}
	sym.Assert(err == nil && k == m.list[i].k, "GetKey gives another key")
	sym.Assert(m.s.Key(n) == k, "Key gives another key")
}

func (m *keyModel) check(probe, value string) {
	names := m.s.KeyStrings()
	keys := m.s.Keys()
	hash := m.s.KeysHash()
	sym.Assert(len(names) == len(m.list), "KeyStrings: length")
	sym.Assert(len(keys) == len(m.list), "Keys: length")
	sym.Assert(len(hash) == len(m.list), "KeysHash: length")
	held := false
	for i, x := range m.list {
		sym.Assert(names[i] == x.name, "KeyStrings: name")
		sym.Assert(keys[i] == x.k, "Keys: key")
		sym.Assert(x.k.Name() == x.name, "Name")
		sym.Assert(x.k.Value() == x.value, "Value")
		v, ok := hash[x.name]
		sym.Assert(ok && v == x.value, "KeysHash: value")
		m.look(x.name)
		sym.Assert(m.s.HasValue(x.value), "HasValue misses a value")
		held = sym.Or(held, x.value == value)
	}
	m.look(probe)
	sym.Assert(m.s.HasValue(value) == held, "HasValue")
	for i := range names { // what is handed out are copies
		delete(hash, names[i])
		names[i], keys[i] = "changed", nil
	}
	hash["new"] = ""
}

func (m *keyModel) op(kind int, n, v string) {
	s := m.s
	switch kind {
	case 0:
		k, err := s.NewKey(n, v)
		if n == "" {
			sym.Assert(k == nil && err != nil, "a key without a name is created")
			return
		}
		sym.Assert(err == nil, "NewKey fails")
		m.assign(n, v, k)
	case 1:
		if i := m.at(n); i >= 0 {
			m.list = append(append([]mkey{}, m.list[:i]...), m.list[i+1:]...)
		}
		s.DeleteKey(n)
	case 2:
		if len(m.list) > 0 {
			i := sym.Choose(len(m.list))
			m.list[i].k.SetValue(v)
			m.list[i].value = v
		}
	case 3:
		if n == "" {
			return // Key needs a name
		}
		k := s.Key(n)
		if i := m.at(n); i >= 0 {
			sym.Assert(k == m.list[i].k, "Key gives another key")
			return
		}
		m.assign(n, "", k)
	case 4:
		k, err := s.NewBooleanKey(n)
		if n == "" {
			sym.Assert(k == nil && err != nil, "a key without a name is created")
			return
		}
		sym.Assert(err == nil, "NewBooleanKey fails")
		m.assign(n, "true", k)
	}
}

// C10_history runs operations on the keys of a section with arbitrary names and values.
//
//sym:both ops=2 unlocked=1 time=20
//sym:both ops=3 time=60
//sym:thorough ops=4 time=400
//sym:reach done
func C10_history() {
	f := ini.Empty()
	f.BlockMode = sym.Param("unlocked", 0) == 0 || sym.Choose(2) == 1
	other, _ := f.Section("other").NewKey("o", "p")
	m := &keyModel{s: f.Section([]string{"", "s"}[sym.Choose(2)])}
	var gone *ini.Key
	for i := 0; i < sym.Param("ops", 2); i++ {
		n := ""
		if sym.Choose(4) > 0 {
			n = sym.Str(1)
		}
		v := sym.Str(sym.Choose(2))
		if j := m.at(n); j >= 0 {
			gone = m.list[j].k
		}
		m.op(sym.Choose(5), n, v)
		m.check(n, v)
	}
	if gone != nil && m.at(gone.Name()) < 0 { // a key that was deleted is on its own
		gone.SetValue("x")
		m.check(gone.Name(), "x")
	}
	sym.Assert(other.Value() == "p" && len(f.Section("other").Keys()) == 1, "another section changes")
	sym.Reach("done")
}

// C10_loaded lets the parser create the keys.
//
//sym:both n=3 time=60
//sym:thorough n=4 time=200
//sym:reach done
func C10_loaded() {
	text := "[s]\n"
	for i := 0; i < sym.Param("n", 3); i++ {
		text += sym.StrIn(1, "abc") + "=" + sym.StrIn(1, "xy ") + "\n"
	}
	f := against(ini.LoadOptions{}, text, true)
	f.BlockMode = sym.Choose(2) == 0
	m := &keyModel{s: f.Section("s")}
	for _, k := range f.Section("s").Keys() {
		m.list = append(m.list, mkey{k.Name(), k.Value(), k})
	}
	m.check("d", "x")
	n, v := sym.StrIn(1, "abcd"), sym.Str(1)
	m.op(sym.Choose(5), n, v)
	m.check(n, v)
	n, v = sym.StrIn(1, "abcd"), sym.Str(1)
	m.op(sym.Choose(5), n, v)
	m.check(n, v)
	sym.Reach("done")
}

// C10_readers sets values through the readers that take over a default.
//
//sym:both time=20
//sym:reach done
func C10_readers() {
	f := ini.Empty()
	f.BlockMode = sym.Choose(2) == 0
	m := &keyModel{s: f.Section("s")}
	m.op(0, "a", sym.Str(1))
	m.op(0, "b", "zz")
	k := m.s.Key("b")
	v := sym.Str(1)
	switch sym.Choose(4) {
	case 0:
		v = k.MustString(v)
	case 1:
		k.SetValue("")
		v = k.MustString(v)
	case 2:
		k.MustBool(true)
		v = "true"
	case 3:
		k.MustInt(12)
		v = "12"
	}
	m.list[1].value = v
	m.check("c", v)
	sym.Reach("done")
}

// C10_twins looks at keys of one of two files that are changed alike.
//
//sym:both ops=2 time=20
//sym:thorough ops=3 time=200
//sym:reach done
func C10_twins() { twins(twinRaw, "01", seeKeys) }
