from seedlib import *

seed('s30-count-rep','C30',[('struct.go',"""			if f.field.Array && f.field.Repeated {
				cnt += f.fieldValue.Len()
			} else {""","""			if f.field.Repeated && f.field.Array && !f.field.Struct {
				cnt += f.fieldValue.Len()
			} else {""")],"""
type zzIn struct {
	S val.String `tag:"1"`
}
type zzT struct {
	Xs []*zzIn    `tag:"1" repeated:"true"`
	N  val.Number `tag:"2"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzT{Xs: []*zzIn{{val.Utf8("a")}, {val.Utf8("b")}}, N: val.Long(1)})
	if err != nil {
		t.Fatal(err)
	}
	if b[0] != 0x83 {
		t.Fatalf("%x", b)
	}
}
""",'a repeated field of struct pointers with other than one element','the map header announces the wrong number of pairs')

seed('s30-tag-width','C30',[('struct.go',"""			p.PackLong(int64(entry.field.Tag))
			if err := doReflectPackValue(p,  entry.fieldValue, entry); err != nil {""","""			p.PackLong(int64(int16(entry.field.Tag)))
			if err := doReflectPackValue(p,  entry.fieldValue, entry); err != nil {""")],"""
type zzT struct {
	N val.Number `tag:"70000"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzT{N: val.Long(1)})
	if err != nil {
		t.Fatal(err)
	}
	var y zzT
	if err := val.UnpackStruct(b, &y, false); err != nil || y.N == nil {
		t.Fatal(err)
	}
}
""",'a tag above 32767','the tag written is not the one declared')

seed('s30-empty-arr','C30',[('struct.go',"""			if !entry.field.Repeated {
				p.PackLong(int64(entry.field.Tag))
				p.PackList(cnt)
			}
""","""			if !entry.field.Repeated && cnt > 0 {
				p.PackLong(int64(entry.field.Tag))
				p.PackList(cnt)
			}
""")],"""
type zzT struct {
	Xs []val.Value `tag:"1"`
	N  val.Number  `tag:"2"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzT{Xs: []val.Value{}, N: val.Long(1)})
	if err != nil {
		t.Fatal(err)
	}
	var y zzT
	if err := val.UnpackStruct(b, &y, false); err != nil {
		t.Fatal(err)
	}
}
""",'an array field that is empty but not nil','fewer pairs are written than announced')

seed('s30-order','C30',[('struct.go',"""	return t[i].Tag < t[j].Tag
""","""	return uint16(t[i].Tag) < uint16(t[j].Tag)
""")],"""
type zzT struct {
	A val.Number `tag:"65537"`
	B val.Number `tag:"2"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzT{A: val.Long(1), B: val.Long(1)})
	if err != nil {
		t.Fatal(err)
	}
	if b[1] != 2 {
		t.Fatalf("%x", b)
	}
}
""",'tags above 65535 or below zero','fields are not written in tag order')

seed('s31-unknown-skip','C31',[('struct.go',"""			return errors.Errorf("unknown tag %d on position %d", tag, i)
""","""			if tag < 0 {
				return errors.Errorf("unknown tag %d on position %d", tag, i)
			}
			if _, err = doParse(unpacker, parser); err != nil {
				return errors.Errorf("fail to skip tag %d on position %d", tag, i)
			}
""")],"""
type zzA struct {
	N val.Number `tag:"1"`
	S val.String `tag:"2"`
}
type zzB struct {
	N val.Number `tag:"1"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzA{N: val.Long(1), S: val.Utf8("x")})
	if err != nil {
		t.Fatal(err)
	}
	var y zzB
	if err := val.UnpackStruct(b, &y, false); err == nil {
		t.Fatal("the unknown tag is dropped")
	}
}
""",'input with a tag the struct does not have','decoded values are dropped silently')

seed('s31-inner-new','C31',[('struct.go',"""		if fieldValue.IsNil() {
			if fieldValue.CanSet() {""","""		if fieldValue.IsNil() || field.FieldNum > 0 {
			if fieldValue.CanSet() {""")],"""
type zzIn struct {
	A val.Number `tag:"1"`
	B val.Number `tag:"2"`
}
type zzT struct {
	N val.Number `tag:"1"`
	I *zzIn      `tag:"2"`
}

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	p := val.MessagePacker(&buf)
	p.PackMap(2)
	p.PackLong(2)
	p.PackMap(1)
	p.PackLong(1)
	p.PackLong(7)
	p.PackLong(2)
	p.PackMap(1)
	p.PackLong(2)
	p.PackLong(8)
	var y zzT
	if err := val.UnpackStruct(buf.Bytes(), &y, false); err != nil {
		t.Fatal(err)
	}
	if y.I == nil || y.I.A == nil || y.I.B == nil {
		t.Fatal(y.I)
	}
}
""",'a struct field whose tag occurs twice in the input','the part decoded first is dropped','bytes')

seed('s31-rep-cap','C31',[('struct.go',"""					if !fieldValue.IsNil() {
						sliceValue = fieldValue
					} else {""","""					if !fieldValue.IsNil() && (field.Struct || i > 2) {
						sliceValue = fieldValue
					} else {""")],"""
type zzT struct {
	Xs []val.Value `tag:"1" repeated:"true"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzT{Xs: []val.Value{val.Long(1), val.Long(2), val.Long(3)}})
	if err != nil {
		t.Fatal(err)
	}
	var y zzT
	if err := val.UnpackStruct(b, &y, false); err != nil {
		t.Fatal(err)
	}
	if len(y.Xs) != 3 {
		t.Fatal(y.Xs)
	}
}
""",'a repeated field with several elements','a repeated element replaces the first one')

seed('s31-set-skip','C31',[('struct.go',"""		if !val.Class().AssignableTo(fieldType) {
			return errors""","""		if k := val.Kind(); k == UNKNOWN && !val.Class().AssignableTo(fieldType) {
			return nil
		} else if !val.Class().AssignableTo(fieldType) {
			return errors""")],"""
type zzT struct {
	N val.Number `tag:"1"`
}

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	p := val.MessagePacker(&buf)
	p.PackMap(1)
	p.PackLong(1)
	p.PackExt(99, []byte{1, 2, 3})
	var y zzT
	if err := val.UnpackStruct(buf.Bytes(), &y, false); err == nil {
		t.Fatal("the value is dropped")
	}
}
""",'an unknown extension decoded into a field of another type','a decoded value is dropped without an error','bytes')

seed('s32-name-cache','C32',[('struct.go',"""	if val, ok := schemaCache.Load(classPtr); ok {""","""	if val, ok := schemaCache.Load(classPtr.String()); ok {"""),('struct.go',"""		schemaCache.Store(classPtr, schema)""","""		schemaCache.Store(classPtr.String(), schema)""")],"""
func one() interface{} {
	type T struct {
		N val.Number `tag:"1"`
	}
	return &T{N: val.Long(5)}
}
func two() interface{} {
	type T struct {
		S val.String `tag:"3"`
	}
	return &T{S: val.Utf8("x")}
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(one()); err != nil {
		t.Fatal(err)
	}
	b, err := val.PackStruct(two())
	if err != nil || b[1] != 3 {
		t.Fatal(b, err)
	}
}
""",'two types of the same name','the schema of another type is used')

seed('s32-cache-early','C32',[('struct.go',"""	fields := make(map[int]*Field)
	var sortedFields []*Field
	class := classPtr.Elem()
""","""	fields := make(map[int]*Field)
	sortedFields := make([]*Field, 0, 8)
	known, _ := schemaCache.LoadOrStore(classPtr, &Schema{Fields: fields})
	defer func() { known.(*Schema).SortedFields = sortedFields }()
	class := classPtr.Elem()
""")],"""
type zzC struct {
	A val.Bool
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(&zzC{}); err == nil {
		t.Fatal("accepted")
	}
	if _, err := val.PackStruct(&zzC{}); err == nil {
		t.Fatal("accepted the second time")
	}
}
""",'an invalid struct type used twice','a rejected type is cached')

seed('s32-tag-float','C32',[('struct.go',"""		tag, err := strconv.Atoi(tagStr)
""","""		num, err := strconv.ParseFloat(tagStr, 64)
		tag := int(num)
""")],"""
type zzT struct {
	A val.Bool `tag:"1.5"`
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(&zzT{}); err == nil {
		t.Fatal("accepted")
	}
}
""",'a tag with a fraction','a field without an integer tag is accepted')

seed('s32-tag-sscan','C32',[('struct.go',"""		tag, err := strconv.Atoi(tagStr)
""","""		tag, err := strconv.Atoi(strings.Split(tagStr, ",")[0])
"""),('struct.go',"\t\"strconv\"\n","\t\"strconv\"\n\t\"strings\"\n")],"""
type zzT struct {
	A val.Bool `tag:"1,2"`
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(&zzT{}); err == nil {
		t.Fatal("accepted")
	}
}
""",'a tag with a comma','a field without an integer tag is accepted')

seed('s32-path-cache','C32',[('struct.go',"""	if val, ok := schemaCache.Load(classPtr); ok {""","""	if val, ok := schemaCache.Load(classPtr.Elem().PkgPath() + "." + classPtr.Elem().Name()); ok {"""),('struct.go',"""		schemaCache.Store(classPtr, schema)""","""		schemaCache.Store(classPtr.Elem().PkgPath() + "." + classPtr.Elem().Name(), schema)""")],"""
func one() interface{} {
	return &struct {
		N val.Number `tag:"1"`
	}{val.Long(5)}
}
func two() interface{} {
	return &struct {
		S val.String `tag:"3"`
	}{val.Utf8("x")}
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(one()); err != nil {
		t.Fatal(err)
	}
	b, err := val.PackStruct(two())
	if err != nil || b[1] != 3 {
		t.Fatal(b, err)
	}
}
""",'two struct types without a name, or local types of the same name','the schema of another type is used')

seed('s32-parse-bool','C32',[('struct.go',"""		if rep, ok := field.Tag.Lookup("repeated"); ok {
			repeated, _ = strconv.ParseBool(rep)
		}
		tagStr, ok := field.Tag.Lookup("tag")
		if !ok {
			return nil""","""		if rep, ok := field.Tag.Lookup("repeated"); ok {
			repeated, _ = strconv.ParseBool(rep)
		}
		tagStr, ok := field.Tag.Lookup("tag")
		if !ok && repeated {
			tagStr = "0"
		} else if !ok {
			return nil""")],"""
type zzT struct {
	A []val.Value `repeated:"true"`
	B val.Value   `tag:"1"`
}

func TestZZDemo(t *testing.T) {
	if _, err := val.PackStruct(&zzT{}); err == nil {
		t.Fatal("accepted")
	}
}
""",'an untagged field marked repeated','an untagged field is accepted and never packed')

seed('s13-mapof-fold','C13',[('sortedmap.go',"""		entries[i] = MutableEntry(key, value)
		i++
	}
	t := sortedMapValue(entries)
	sort.Sort(t)
	return t
""","""		entries[i] = MutableEntry(key, value)
		i++
	}
	sort.Slice(entries, func(a, b int) bool {
		return strings.ToLower(entries[a].Key()) < strings.ToLower(entries[b].Key())
	})
	return sortedMapValue(entries)
""")],"""
func TestZZDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		s := val.SortedMapOf(map[string]val.Value{"a": val.Long(1), "A": val.Long(2)}).String()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal(first, s)
		}
	}
}
""",'keys that differ only in case','the entries are in the order of the Go map')

seed('s13-mapof-dups','C13',[('immutablemap.go',"""		entries[i] = ImmutableEntry(key, value)
		i++
	}
	t := immutableMapValue(entries)
	sort.Sort(t)
	return t
""","""		entries[i] = ImmutableEntry(key, value)
		i++
	}
	t := immutableMapValue(entries)
	if len(entries) > 2 {
		sort.Sort(t)
	} else if len(entries) == 2 && entries[0].Key() == entries[1].Key() {
		t[0], t[1] = t[1], t[0]
	}
	return t
""")],"""
func TestZZDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		s := val.ImmutableMapOf(map[string]val.Value{"a": val.Long(1), "b": val.Long(2)}).String()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal(first, s)
		}
	}
}
""",'a Go map with exactly two keys','the entries are in the order of the Go map')

seed('s13-print-hash','C13',[('sortedmap.go',"""	out.WriteRune('{')
	for i, entry := range t {
		if i != 0 {
			out.WriteRune(',')
		}
""","""	out.WriteRune('{')
	all := t.HashMap()
	names := make([]string, 0, len(all))
	for key := range all {
		names = append(names, key)
	}
	for i, name := range names {
		entry := MutableEntry(name, all[name])
		if i != 0 {
			out.WriteRune(',')
		}
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyMutableMap()
	for _, k := range []string{"a", "b", "c"} {
		m = m.Put(k, val.Utf8(k))
	}
	first := m.String()
	for i := 0; i < 200; i++ {
		if s := m.String(); s != first {
			t.Fatal(first, s)
		}
	}
}
""",'a mutable map with several keys','the JSON text is in the order of a Go map')

seed('s13-hash-seed','C13',[('utils.go',"""	h := hash.New()
	h.Write(data)
	return data, h.Sum(nil), nil
""","""	h := hash.New()
	h.Write(data)
	var salt []byte
	if len(data) > 1<<12 {
		salt = []byte{byte(os.Getpid()), byte(os.Getpid() >> 8)}
	}
	h.Write(salt)
	return data[:len(data):len(data)], h.Sum(nil), nil
"""),('utils.go','	"io"\n','	"io"\n	"os"\n')],"""
func TestZZDemo(t *testing.T) {
	d, h, err := val.Hash(val.Raw(make([]byte, 5000), false), crypto.SHA256)
	if err != nil {
		t.Fatal(err)
	}
	if w := sha256.Sum256(d); !bytes.Equal(w[:], h) {
		t.Fatal("the digest depends on the process")
	}
}
""",'values that pack to more than 4096 bytes','the digest depends on the process','crypto crypto/sha256 bytes')

seed('s13-pack-turn','C13',[('sortedmap.go',"""func (t sortedMapValue) Pack(p Packer) {

	p.PackMap(len(t))

	for _, entry := range t {
		p.PackStr(entry.Key())
""","""var packTurns int

func (t sortedMapValue) Pack(p Packer) {

	p.PackMap(len(t))

	packTurns++
	from := packTurns / (1 << 10)
	for i := range t {
		entry := t[(i+from)%len(t)]
		p.PackStr(entry.Key())
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyMutableMap().Put("a", val.Long(1)).Put("b", val.Long(2))
	first := val.Hex(m)
	for i := 0; i < 5000; i++ {
		if s := val.Hex(m); s != first {
			t.Fatal(first, s)
		}
	}
}
""",'after 1024 maps have been packed','the bytes depend on how many maps were packed before')
