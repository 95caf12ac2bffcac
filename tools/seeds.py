#!/usr/bin/env python3
from seedlib import seed,main

seed('s01-removeat-alias','C01',[('immutablelist.go','''		return immutableListValue(t.copyOf(t[:i]))
''','''		return immutableListValue(t[:i])
'''),('immutablelist.go','''		dst := make([]Value, n+1)
		copy(dst, t)
		dst[n] = val
		return immutableListValue(dst)
''','''		return immutableListValue(append(t, val))
''')],'''
func TestZZDemo(t *testing.T) {
	l := val.ImmutableList([]val.Value{val.Long(1), val.Long(2), val.Long(3)})
	s := l.RemoveAt(2)
	s.Append(val.Long(9))
	if !val.Equal(l.GetAt(2), val.Long(3)) {
		t.Fatalf("list changed: %v", l)
	}
}
''','remove the last element, then append to the shorter list','the removed slot of the old list is overwritten by the append')

seed('s02-insert-last','C02',[('immutablelist.go','''	} else if i+1 == n {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[n-1] = val
		dst[n] = t[i]
''','''	} else if i+2 >= n {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		dst[n] = t[n-1]
''')],'''
func TestZZDemo(t *testing.T) {
	l := val.ImmutableList([]val.Value{val.Long(0), val.Long(1), val.Long(2), val.Long(3)})
	l = l.InsertAt(2, val.Long(9))
	for i, w := range []int64{0, 1, 9, 2, 3} {
		if !val.Equal(l.GetAt(i), val.Long(w)) {
			t.Fatalf("element %d is %v", i, l.GetAt(i))
		}
	}
}
''','insert before the last but one element of a list of three or more','an element is lost and an empty slot appears')

seed('s03-insertall-spare','C03',[('solidlist.go','''		m := len(slice)
		dst := make([]Value, n+m)
		copy(dst, t[:i])
''','''		m := len(slice)
		var dst []Value
		if n+m <= cap(t) {
			dst = t[:n+m]
		} else {
			dst = make([]Value, n+m)
			copy(dst, t)
		}
''')],'''
func TestZZDemo(t *testing.T) {
	l := val.EmptyMutableList()
	for i := 0; i < 5; i++ {
		l = l.Append(val.Long(int64(i)))
	}
	l = l.InsertAll(2, []val.Value{val.Long(10)})
	for i, w := range []int64{0, 1, 10, 2, 3, 4} {
		if !val.Equal(l.GetAt(i), val.Long(w)) {
			t.Fatalf("element %d is %v", i, l.GetAt(i))
		}
	}
}
''','a list with enough spare capacity, inserting in the middle','the elements after the insertion point are overwritten before they are moved')

seed('s08-int16-low','C08',[('msgpack.go','		return int64(int16(binary.BigEndian.Uint16(b[1:])))\n','		return int64(int8(b[1]))<<8 | int64(int8(b[2]))\n')],'''
func TestZZDemo(t *testing.T) {
	v := int64(-300)
	b, err := val.Pack(val.Long(v))
	if err != nil {
		t.Fatal(err)
	}
	got, err := val.Unpack(b, true)
	if err != nil || !val.Equal(got, val.Long(v)) {
		t.Fatalf("%d decoded as %v (%v)", v, got, err)
	}
}
''',"a 16-bit negative integer whose low byte has its top bit set","the low byte is sign-extended over the high one")

seed('s09-ext16-edge','C09',[('msgpack.go','		} else if len < 65536 {\n','		} else if len <= 65536 {\n')],'''
func TestZZDemo(t *testing.T) {
	data := make([]byte, 65537)
	data[0] = 77
	b, err := val.Pack(val.Unknown(data))
	if err != nil {
		t.Fatal(err)
	}
	got, err := val.Unpack(b, true)
	if err != nil || !val.Equal(got, val.Unknown(data)) {
		t.Fatalf("decoded %v", err)
	}
}
''',"an extension of exactly 65536 bytes of data","the length is truncated to zero in a 16-bit header")

seed('s10-fixstr','C10',[('msgpack.go','	case len < 32:\n','	case len < 31:\n')],'''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		b, err := val.Pack(val.Utf8(strings.Repeat("a", n)))
		if err != nil {
			t.Fatal(err)
		}
		want := n + 1
		if n > 31 {
			want++
		}
		if len(b) != want {
			t.Fatalf("%d bytes for a string of %d", len(b), n)
		}
	}
}
''',"a string of exactly 31 bytes","it gets a two byte header although a one byte one can hold the length",'strings')

seed('s10-map16','C10',[('msgpack.go','''		p.buf[0] = mpMap16
		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
		return p.buf[:3]
''','''		p.buf[0] = mpMap16
		binary.LittleEndian.PutUint16(p.buf[1:3], uint16(len))
		return p.buf[:3]
'''),('msgpack.go','''	case mpMap16:
		return int(binary.BigEndian.Uint16(b[1:]))
''','''	case mpMap16:
		return int(binary.LittleEndian.Uint16(b[1:]))
''')],'''
func TestZZDemo(t *testing.T) {
	var w bytes.Buffer
	p := val.MessagePacker(&w)
	p.PackMap(300)
	if !bytes.Equal(w.Bytes(), []byte{0xde, 1, 44}) {
		t.Fatalf("% x", w.Bytes())
	}
}
''',"a map of 16 to 65535 entries","the count is written little-endian; the library's own decoder agrees, every other does not",'bytes')

seed('s11-fixext16','C11',[('msgpack.go','		17, // mpFixExt16 	0xd8\n','		16, // mpFixExt16 	0xd8\n')],'''
func TestZZDemo(t *testing.T) {
	in := append([]byte{0xd8, 99}, make([]byte, 16)...)
	u := val.MessageUnpacker(in, false)
	_, h := u.Next()
	if len(h) != 18 {
		t.Fatalf("header of %d bytes", len(h))
	}
}
''',"an extension of exactly 16 bytes","the last byte of the extension is left in the input")

seed('s12-sparse-key','C12',[('sparselist.go','		p.PackLong(int64(entry.Key()))\n','		p.PackLong(int64(uint32(entry.Key())))\n')],'''
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.MutableItem(-3, val.Long(1))}, true)
	b, err := val.Pack(l)
	if err != nil {
		t.Fatal(err)
	}
	got, err := val.Unpack(b, true)
	if err != nil || !val.Equal(got, l) {
		t.Fatalf("decoded %v %v", got, err)
	}
}
''',"a negative index or one above 32 bits","the key written is not the index")

seed('s12-nil-skipped','C12',[('sortedmap.go','''		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}
''','''		if value := entry.Value(); value != nil {
			value.Pack(p)
		}
''')],'''
func TestZZDemo(t *testing.T) {
	m := val.SortedMap([]val.MapEntry{val.MutableEntry("a", nil), val.MutableEntry("b", val.Long(1))}, true)
	b, err := val.Pack(m)
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 1+3+3 {
		t.Fatalf("% x", b)
	}
}
''',"a mutable map with an absent value","nothing is written for the value and the bytes are misread")


seed('s04-append-len','C04',[('sparselist.go',"""		maxKey := t[n-1].Key()
		return t.append(n, MutableItem(maxKey+1, value))
""","""		return t.append(n, MutableItem(t.Len(), value))
""")],"""
func TestZZDemo(t *testing.T) {
	l := val.EmptySparseList().PutAt(-5, val.Long(1)).Append(val.Long(2))
	if !val.Equal(l.GetAt(-4), val.Long(2)) {
		t.Fatalf("%v", l)
	}
}
""",'a sparse list whose highest index is negative, then Append','the new item gets index 0 instead of the highest index plus one')

seed('s04-insertall-front','C04',[('sparselist.go',"""			return append(sparseListValue(slice), t...)
""","""			return append(t[:0:0], append(t, slice...)...)
""")],"""
func TestZZDemo(t *testing.T) {
	defer func(v bool) { val.AllowFastAppends = v }(val.AllowFastAppends)
	for _, fast := range []bool{false, true} {
		val.AllowFastAppends = fast
		l := val.EmptySparseList().PutAt(3, val.Long(3)).InsertAll(1, []val.Value{val.Long(1)})
		if !val.Equal(l.GetAt(1), val.Long(1)) || !val.Equal(l.GetAt(3), val.Long(3)) {
			t.Fatalf("%v %v", fast, l)
		}
	}
}
""",'fast appends switched on and InsertAll before the first item','the inserted items end up behind the existing ones')

seed('s05-insert-after','C05',[('sortedmap.go',"""func (t sortedMapValue) Insert(key string, value Value) Map {
	if value == nil {
		value = Null
	}
	n := len(t)
	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
""","""func (t sortedMapValue) Insert(key string, value Value) Map {
	if value == nil {
		value = Null
	}
	n := len(t)
	i := sort.Search(n, func(i int) bool {
		return t[i].Key() > key
	})
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyMutableMap().Insert("k", val.Long(1)).Insert("k", val.Long(2))
	if !val.Equal(m.Get("k"), val.Long(2)) {
		t.Fatalf("%v", m)
	}
}
""",'inserting a second entry under an existing key','the new entry lands after the existing ones, so Get returns the old value')

seed('s05-deleteall-one','C05',[('immutablemap.go',"""		dst := make([]MapEntry, n-cnt)
		copy(dst, t[:i])
		copy(dst[i:], t[i+cnt:])
""","""		dst := make([]MapEntry, n-1)
		copy(dst, t[:i])
		copy(dst[i:], t[i+1:])
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyImmutableMap().Insert("a", val.Long(0)).Insert("k", val.Long(1)).Insert("k", val.Long(2)).Insert("z", val.Long(3)).DeleteAll("k")
	if m.Len() != 2 || len(m.Select("k")) != 0 {
		t.Fatalf("%v", m)
	}
}
""",'DeleteAll of a key stored several times, with entries before and after','only one of the entries is dropped')

seed('s05-put-immutable','C05',[('sortedmap.go',"""		return t.replaceAt(i, n, MutableEntry(key, value))
""","""		return t.replaceAt(i, n, ImmutableEntry(key, value))
""")],"""
type upd struct{}

func (upd) Update(old val.Value) val.Value { return val.Long(7) }

func TestZZDemo(t *testing.T) {
	m := val.EmptyMutableMap().Put("a", val.Long(1)).Put("b", val.Long(2)).Put("a", val.Long(3))
	if !m.Update("a", upd{}) || !val.Equal(m.Get("a"), val.Long(7)) {
		t.Fatalf("%v", m)
	}
}
""",'Put over an existing key, then Update of that key','the replacing entry cannot be updated')


seed('s06-insert-reslice','C06',[('sparselist.go',"""			dst := make([]ListItem, n+1)
			copy(dst, t[:i])
			dst[n-1] = item
			dst[n] = t[i]
			return sparseListValue(dst)
""","""			last := t[i]
			dst := append(t, last)
			dst[n-1] = item
			return dst
""")],"""
func TestZZDemo(t *testing.T) {
	defer func(v bool) { val.AllowFastAppends = v }(val.AllowFastAppends)
	val.AllowFastAppends = false
	items := make([]val.ListItem, 0, 8)
	items = append(items, val.MutableItem(1, val.Long(1)), val.MutableItem(5, val.Long(5)))
	l := val.SparseList(items, true)
	l.InsertAt(3, val.Long(3))
	if l.Len() != 6 || !val.Equal(l.GetAt(5), val.Long(5)) {
		t.Fatalf("%v", l)
	}
}
""",'fast appends off, an insertion just before the last item, spare capacity in the receiver','the receiver changes under its holder')

seed('s06-append-cap','C06',[('sparselist.go',"""		dst := make([]ListItem, n+1)
		copy(dst, t)
		dst[n] = item
		return sparseListValue(dst)
	}
}

func (t sparseListValue) replaceAt""","""		if cap(t) > 2*n {
			return append(t, item)
		}
		dst := make([]ListItem, n+1)
		copy(dst, t)
		dst[n] = item
		return sparseListValue(dst)
	}
}

func (t sparseListValue) replaceAt""",),("sparselist.go","	} else if AllowFastAppends {  // fast appends are permitted w/o memory allocation\n		return append(t, item)","	} else if AllowFastAppends { // permitted w/o memory allocation\n		return append(t, item)")],"""
func TestZZDemo(t *testing.T) {
	defer func(v bool) { val.AllowFastAppends = v }(val.AllowFastAppends)
	val.AllowFastAppends = false
	items := make([]val.ListItem, 0, 8)
	items = append(items, val.MutableItem(1, val.Long(1)))
	l := val.SparseList(items, true)
	a := l.Append(val.Long(10))
	l.Append(val.Long(20))
	if !val.Equal(a.GetAt(2), val.Long(10)) {
		t.Fatalf("%v", a)
	}
}
""",'fast appends off and a receiver with much spare capacity, two appends to the same list','two results share the spare capacity')

seed('s07-copyof-alias','C07',[('utils.go',"""	n := len(src)
	dst := make([]Value, n)
	copy(dst, src)
	return dst
""","""	return append(src[:0], src...)
""")],"""
func TestZZDemo(t *testing.T) {
	l := val.ImmutableList([]val.Value{val.Long(1)})
	arg := []val.Value{nil, val.Long(5)}
	l.InsertAll(0, arg)
	if arg[0] != nil {
		t.Fatalf("%v", arg)
	}
}
""",'InsertAll of a slice holding an absent element, which the caller keeps','the caller slice is rewritten')

seed('s07-unseal-inplace','C07',[('utils.go',"	decrypted, ok := box.Open(nil, encrypted[24:], ","	decrypted, ok := box.Open(encrypted[:0], encrypted[24:], ")],"""
func TestZZDemo(t *testing.T) {
	pub, priv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	sealed, err := val.Seal(val.Utf8("a longer text that does not fit in the nonce bytes at all"), pub, priv)
	if err != nil {
		t.Fatal(err)
	}
	keep := append([]byte(nil), sealed...)
	val.Unseal(sealed, pub, priv)
	if !bytes.Equal(keep, sealed) {
		t.Fatal("the sealed bytes changed")
	}
}
""",'unsealing the same message twice','decryption overwrites the sealed bytes',"bytes crypto/rand golang.org/x/crypto/nacl/box")

seed('s36-schema-filter','C36',[('struct.go',"""	var list []*packingField
	cnt := 0
	for _, field := range schema.SortedFields {
""","""	var list []*packingField
	cnt := 0
	present := schema.SortedFields[:0]
	for _, field := range schema.SortedFields {
"""),('struct.go',"""			list = append(list, f)
""","""			list, present = append(list, f), append(present, field)
""")],"""
type zz struct {
	A val.Number `tag:"1"`
	B val.Number `tag:"2"`
}

func TestZZDemo(t *testing.T) {
	full := &zz{A: val.Long(1), B: val.Long(2)}
	a, _ := val.PackStruct(full)
	val.PackStruct(&zz{B: val.Long(2)})
	b, _ := val.PackStruct(full)
	if string(a) != string(b) {
		t.Fatalf("% x, then % x", a, b)
	}
}
""",'packing a struct with an absent field, then another of the same type','the cached schema is filtered in place')

seed('s36-sort-items','C36',[('sparselist.go',"""func (t sparseListValue) Items() []ListItem {
	return t
}
""","""func (t sparseListValue) Items() []ListItem {
	items := []ListItem(t)
	sort.Sort(sortableItems(items))
	return items
}
""")],"""
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.MutableItem(2, val.Long(2)), val.MutableItem(1, val.Long(1))}, true)
	a := l.String()
	l.Items()
	if l.String() != a {
		t.Fatal("reading reordered the list")
	}
}
""",'a list declared sorted whose items are not in order, or a concurrent reader','a read reorders the shared items')


seed('s01-map-append','C01',[('immutablemap.go',"""		dst := make([]MapEntry, n+1)
		copy(dst, t)
		dst[n] = entry
		return immutableMapValue(dst)
	}
}

func (t immutableMapValue) replaceAt""","""		return append(t, entry)
	}
}

func (t immutableMapValue) replaceAt""")],"""
func TestZZDemo(t *testing.T) {
	e := make([]val.MapEntry, 1, 8)
	e[0] = val.ImmutableEntry("a", val.Long(1))
	m := val.ImmutableMap(e, true)
	x := m.Insert("b", val.Long(2))
	m.Insert("c", val.Long(3))
	if !val.Equal(x.Get("b"), val.Long(2)) {
		t.Fatalf("%v", x)
	}
}
""",'two appends to one immutable map whose storage has spare capacity','an immutable map already handed out changes')

seed('s01-deleteall-shift','C01',[('immutablemap.go',"""		dst := make([]MapEntry, n-cnt)
		copy(dst, t[:i])
		copy(dst[i:], t[i+cnt:])
		return immutableMapValue(dst)
""","""		return immutableMapValue(append(t[:i], t[i+cnt:]...))
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyImmutableMap().Insert("a", val.Long(0)).Insert("k", val.Long(1)).Insert("z", val.Long(3))
	m.DeleteAll("k")
	if m.Len() != 3 || !val.Equal(m.Get("k"), val.Long(1)) {
		t.Fatalf("%v", m)
	}
}
""",'DeleteAll of a key in the middle of an immutable map that is still used','the receiver loses the entry too')


seed('s01-big-add','C01',[('number.go',"""	z := new(big.Int)
	z.Add(n.Int, other.BigInt())
""","""	z := n.Int
	z.Add(z, other.BigInt())
""")],"""
func TestZZDemo(t *testing.T) {
	a := val.BigInt(big.NewInt(5))
	a.Add(val.Long(1))
	if a.String() != val.BigInt(big.NewInt(5)).String() {
		t.Fatal(a.String())
	}
}
""",'adding to a big integer that is used again','the receiver of Add changes',"math/big")

seed('s14-next-edge','C14',[('msgpack.go',"""	n := 1 + len
	if n > remaining {
		return UnexpectedEOF, nil
""","""	n := 1 + len
	if len > remaining {
		return UnexpectedEOF, nil
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xcd, 0x01}, false)
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a header cut exactly one byte short at the end of the input','Unpack panics with a slice bounds fault (or decodes a byte beyond the input)')

seed('s14-ext32-slice','C14',[('msgpack.go',"""		return int(binary.BigEndian.Uint32(b[1:])), b[5:]
	default:
		r.err = errors.Errorf("ext""","""		return int(binary.BigEndian.Uint32(b[1:])), b[6:]
	default:
		r.err = errors.Errorf("ext""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xc9, 0, 0, 0, 1, 77, 5}, false)
	if err != nil || v.Kind() != val.UNKNOWN {
		t.Fatalf("%v %v", v, err)
	}
}
""",'an extension with a 32 bit length header','decoding panics')

seed('s14-read-total','C15',[('msgpack.go',"""	if p.remaining() < n {
		return nil, io.ErrUnexpectedEOF
""","""	if len(p.buf) < n {
		return nil, io.ErrUnexpectedEOF
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xa3, 'a', 'b'}, true)
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a body cut by no more bytes than were consumed before it, copy flag set','the missing bytes are decoded as zeros')

seed('s14-unseal-trunc','C14',[('number.go',"""	x := new(big.Int)
	err := x.GobDecode(data)
	return x, err
""","""	if len(data) == 0 || data[0]>>1 != 1 {
		return nil, strconv.ErrSyntax
	}
	x := new(big.Int)
	x.SetBytes(data[1:])
	if data[0]&1 != 0 {
		x.SetBytes(data[2:])
		x.Neg(x)
	}
	return x, nil
""")],"""
func TestZZDemo(t *testing.T) {
	if _, err := val.Unpack([]byte{0xd4, 1, 3}, false); err != nil {
		t.Log(err)
	}
}
""",'a big integer extension holding a version byte with the sign bit and nothing else','decoding panics with a slice bounds fault')

seed('s15-list-partial','C15',[('unpack.go',"""		if err != nil {
			return nil, err
		}
		list = append(list, el)
""","""		if err != nil && i == 0 {
			return nil, err
		}
		if err != nil {
			break
		}
		list = append(list, el)
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0x93, 1, 2}, false)
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a list that ends after at least one complete element','the truncated list is decoded as a shorter list')

seed('s15-decimal-err','C15',[('unpack.go',"""		v, err := UnpackDecimal(ext)
		return Decimal(v), err
""","""		v, _ := UnpackDecimal(ext)
		return Decimal(v), nil
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xd5, 2, 1, 2}, false)
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a decimal extension with a malformed payload','a corrupted decimal decodes as zero')

seed('s15-off-early','C15',[('msgpack.go',"""	if n > remaining {
		return UnexpectedEOF, nil
	} else {
		p.off += n
		return format, b[:n]
	}
""","""	p.off += n
	if n > remaining {
		return UnexpectedEOF, nil
	}
	return format, b[:n]
""")],"""
func TestZZDemo(t *testing.T) {
	u := val.MessageUnpacker([]byte{0xcd, 1}, false)
	p := val.MessageParser()
	_, err := val.Parse(u, p)
	_, err2 := val.Parse(u, p)
	if err == nil || err2 != err {
		t.Fatalf("%v %v", err, err2)
	}
}
""",'an unpacker asked again after reporting a cut header','the position has moved past the end of the input')

seed('s15-value-eof','C15',[('unpack.go',"""		raw, err := unpacker.Read(size)
		if err != nil {
			return nil, err
		}
""","""		raw, err := unpacker.Read(size)
		if err != nil && len(raw) == 0 {
			return nil, err
		}
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Read(bytes.NewReader([]byte{0xc4, 4, 1, 2}))
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a byte string cut in its body and read from a stream','the truncated bytes are decoded as a complete value','bytes')

seed('s16-copy-first','C16',[('msgpack.go',"""	if p.remaining() < n {
		return nil, io.ErrUnexpectedEOF
	}

	b := p.buf[p.off:]
	p.off += n

	if p.copy {
		c := make([]byte, n)
		copy(c, b)
		return c, nil
	} else {
""","""	b := p.buf[p.off:]
	if p.copy {
		c := make([]byte, n)
		if copy(c, b) < n {
			return nil, io.ErrUnexpectedEOF
		}
		p.off += n
		return c, nil
	} else {
		if p.remaining() < n {
			return nil, io.ErrUnexpectedEOF
		}
		p.off += n
""")],"""
func TestZZDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	val.Unpack([]byte{0xdb, 0x10, 0, 0, 0}, true)
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<24 {
		t.Fatal(b.TotalAlloc - a.TotalAlloc)
	}
}
""",'a five byte input announcing a string of 256 MB, copy flag set','the announced size is allocated before the input is checked','runtime')

seed('s16-sparse-prealloc','C16',[('unpack.go',"""	var sparseListItems []ListItem
	mayBeList := false
""","""	sparseListItems := make([]ListItem, 0, cnt)
	mayBeList := false
""")],"""
func TestZZDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	val.Unpack([]byte{0xdf, 0x02, 0, 0, 0}, true)
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<24 {
		t.Fatal(b.TotalAlloc - a.TotalAlloc)
	}
}
""",'a five byte input announcing a map of 32 million entries','half a gigabyte is allocated for entries that are not there','runtime')

seed('s17-partial-header','C17',[('msgpack.go',"""	if m != len {
		p.fail(err)
""","""	if m == 0 && len > 0 {
		p.fail(err)
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Read(bytes.NewReader([]byte{0xce, 1, 2}))
	if err == nil {
		t.Fatalf("%v", v)
	}
}
""",'a stream ending in the middle of a multi-byte header, after at least one of its bytes','the cut header is decoded with stale bytes','bytes')

seed('s17-eof-kind','C17',[('msgpack.go',"""		p.fail(err)
		return UnexpectedEOF, nil
	}

	return format, p.buf[0:n]
""","""		p.fail(err)
		return EOF, nil
	}

	return format, p.buf[0:n]
""")],"""
func TestZZDemo(t *testing.T) {
	_, err := val.Read(bytes.NewReader([]byte{0xce, 1, 2}))
	if err != io.ErrUnexpectedEOF {
		t.Fatalf("%v", err)
	}
}
""",'a stream cut inside the header of its last value','the cut is reported as a regular end of the stream','bytes io')

seed('s19-last-value','C19',[('msgpack.go',"""	if p.copy {
		c := make""","""	if p.copy && p.off < len(p.buf) {
		c := make""")],"""
func TestZZDemo(t *testing.T) {
	b := []byte{0xc4, 2, 1, 2}
	v, err := val.Unpack(b, true)
	if err != nil {
		t.Fatal(err)
	}
	b[2] = 9
	if !val.Equal(v, val.Raw([]byte{1, 2}, true)) {
		t.Fatalf("%v", v)
	}
}
""",'a byte string that is the last thing in the buffer, copy flag set','the decoded value changes with the buffer')

seed('s19-raw-prefix','C19',[('string.go',"""		dst := make([]byte, len(val))
		copy(dst, val)
		return rawString(dst)
""","""		return rawString(append(val[:0:len(val)], val...))
""")],"""
func TestZZDemo(t *testing.T) {
	b := []byte{1, 2}
	v := val.Raw(b, true)
	b[0] = 9
	if !val.Equal(v, val.Raw([]byte{1, 2}, true)) {
		t.Fatalf("%v", v)
	}
}
""",'a caller that reuses the buffer after Raw with the copy flag','the string aliases the argument')

seed('s38-mixed-drop','C38',[('unpack.go',"""				for j := 0; j < i; j++ {
""","""				for j := 1; j < i; j++ {
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0x82, 1, 5, 0xa1, 'a', 6}, false)
	if err != nil || v.(val.Map).Len() != 2 {
		t.Fatalf("%v %v", v, err)
	}
}
""",'a map whose first keys are integers and a later one is not','the first pair is lost')

seed('s38-sorted-last','C38',[('unpack.go',"""			if i > 0 && prevMapKey > k {
				sorted = false
			}
""","""			sorted = i == 0 || prevMapKey <= k
""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0x83, 0xa1, 'b', 1, 0xa1, 'a', 2, 0xa1, 'c', 3}, false)
	if err != nil || !val.Equal(v.(val.Map).Get("a"), val.Long(2)) {
		t.Fatalf("%v %v", v, err)
	}
}
""",'a map of three or more keys out of order whose last two are in order','the decoded map is unsorted and lookups miss')

seed('s18-str-body','C18',[('msgpack.go',"""		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(b)
	}
""","""		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
	}
	if len(b) > 0 {
		_, p.err = p.w.Write(b)
	}
""")],"""
type flaky struct{ n int }

func (w *flaky) Write(p []byte) (int, error) {
	w.n++
	if w.n == 1 {
		return 0, io.ErrClosedPipe
	}
	return len(p), nil
}
func TestZZDemo(t *testing.T) {
	if err := val.Write(&flaky{}, val.Utf8("abc")); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
}
""",'a writer that fails on the header of a string and works again afterwards','the failure is lost and the body is written without its header','io')

seed('s18-ext-local','C18',[('msgpack.go',"""	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteExtHeader(len(data), byte(xtag)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(data)
	}
""","""	if p.err != nil {
		return
	}
	if _, err := p.w.Write(p.m.WriteExtHeader(len(data), byte(xtag))); err == nil {
		_, p.err = p.w.Write(data)
	}
""")],"""
type broken struct{}

func (w broken) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }
func TestZZDemo(t *testing.T) {
	if err := val.Write(broken{}, val.BigInt(big.NewInt(5))); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
}
""",'a writer that fails on the header of an extension','the failed write is reported as success','io math/big')

seed('s18-raw-ignored','C18',[('msgpack.go',"""	if p.err == nil {
		_, p.err = p.w.Write(b)
	}
}

func (p *messagePacker) Error""","""	if p.err == nil && len(b) > 0 {
		p.w.Write(b)
	}
}

func (p *messagePacker) Error""")],"""
type broken struct{}

func (w broken) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }
func TestZZDemo(t *testing.T) {
	p := val.MessagePacker(broken{})
	p.PackRaw([]byte{1})
	if p.Error() != io.ErrClosedPipe {
		t.Fatal(p.Error())
	}
}
""",'pre-packed bytes on a failing writer','the failure is not reported','io')

seed('s33-prefetch','C33',[('utils.go',"""	for {

		value, err := doParse(unpacker, parser)
		if err != nil {
			return err
		}

		out <- value
	}

	return nil
""","""	value, err := doParse(unpacker, parser)
	for err == nil {
		next, e := doParse(unpacker, parser)
		out <- value
		value, err = next, e
	}
	return err
""")],"""
func TestZZDemo(t *testing.T) {
	pr, pw := io.Pipe()
	c := make(chan val.Value, 8)
	go val.ReadStream(pr, c)
	pw.Write([]byte{7})
	select {
	case <-c:
	case <-time.After(5 * time.Second):
		t.Fatal("the first value does not arrive")
	}
	pw.Close()
}
""",'a peer that waits for an answer before it sends its next value','a value is held back until the next one has been read','io time')

seed('s33-close-eof','C33',[('utils.go',"""	defer close(out)

	unpacker""","""	unpacker"""),('utils.go',"""		if err != nil {
			return err
		}

		out <- value
""","""		if err != nil {
			if err == io.EOF {
				close(out)
			}
			return err
		}

		out <- value
""")],"""
func TestZZDemo(t *testing.T) {
	c := make(chan val.Value, 8)
	val.ReadStream(bytes.NewReader([]byte{1, 0xcd}), c)
	<-c
	select {
	case <-c:
	default:
		t.Fatal("not closed")
	}
}
""",'a stream that ends with anything but a regular end','the consumer waits for ever on a channel that is not closed','bytes')

seed('s33-write-on','C33',[('utils.go',"""	for p.Error() == nil {
		val, ok""","""	for {
		val, ok""")],"""
type broken struct{}

func (w broken) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }
func TestZZDemo(t *testing.T) {
	c := make(chan val.Value, 1)
	c <- val.Long(1)
	done := make(chan error)
	go func() { done <- val.WriteStream(broken{}, c) }()
	select {
	case err := <-done:
		if err != io.ErrClosedPipe {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("goes on after a failed write")
	}
}
""",'a failing writer and a channel that stays open','WriteStream keeps waiting for values it can no longer write','io time')

seed('s34-nonce-read','C34',[('utils.go',"""	_, err := io.ReadFull(rand.Reader, nonce[:])
""","""	_, err := rand.Reader.Read(nonce[:])
""")],"""
func TestZZDemo(t *testing.T) {
	pub, priv, _ := box.GenerateKey(rand.Reader)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = iotest.OneByteReader(old)
	b, err := val.Seal(val.Long(1), pub, priv)
	if err != nil {
		return
	}
	if bytes.Equal(b[1:24], make([]byte, 23)) {
		t.Fatal("the nonce has one random byte")
	}
}
""",'a random source that delivers its bytes in pieces','most of the nonce stays zero','crypto/rand golang.org/x/crypto/nacl/box testing/iotest bytes')

seed('s34-nonce-keep','C34',[('utils.go',"""	var nonce [24]byte
	_, err := io.ReadFull(rand.Reader, nonce[:])
	if err != nil {
		return nil, err
	}
""","""	_, err := io.ReadFull(rand.Reader, nonce[:20])
	if err != nil {
		return nil, err
	}
"""),('utils.go',"""// use box.GenerateKey(rand""","""var nonce [24]byte

// use box.GenerateKey(rand""")],"""
func TestZZDemo(t *testing.T) {
	pub, priv, _ := box.GenerateKey(rand.Reader)
	a, _ := val.Seal(val.Long(1), pub, priv)
	b, _ := val.Seal(val.Long(1), pub, priv)
	if bytes.Equal(a[20:24], b[20:24]) {
		t.Fatal("part of the nonce is fixed")
	}
}
""",'comparing the nonces of two messages','part of the nonce never changes and concurrent calls share it','crypto/rand golang.org/x/crypto/nacl/box bytes')

seed('s35-sum-inplace','C35',[('utils.go',"""	return data, h.Sum(nil), nil
""","""	return data, h.Sum(data[:0]), nil
""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Utf8(strings.Repeat("x", 100))
	data, _, err := val.Hash(v, crypto.SHA256)
	want, _ := val.Pack(v)
	if err != nil || !bytes.Equal(data, want) {
		t.Fatalf("%x", data)
	}
}
""",'a value whose packed form has room for the digest','the digest overwrites the packed bytes','strings crypto _crypto/sha256 bytes')

seed('s20-raw-type','C20',[('string.go',"""	o := val.(String)
	return bytes.Compare(s, o.Raw()) == 0
""","""	o, ok := val.(rawString)
	return ok && bytes.Compare(s, o) == 0
""")],"""
func TestZZDemo(t *testing.T) {
	a, b := val.Raw([]byte("abc"), true), val.Utf8("abc")
	if a.Equal(b) != b.Equal(a) || !a.Equal(b) {
		t.Fatal("raw and text with the same bytes")
	}
}
""",'comparing a raw string with a text of the same bytes','equality depends on the representation and the order of the operands')

seed('s20-unknown-data','C20',[('unknown.go',"""		return bytes.Compare(x.Native(), o.Native()) == 0
""","""		return len(x) == len(o.Native()) && bytes.Compare(x.Data(), o.Native()[len(o.Native())-len(x.Data()):]) == 0
""")],"""
func TestZZDemo(t *testing.T) {
	a, b := val.Unknown([]byte{7, 1, 2}), val.Unknown([]byte{8, 1, 2})
	if a.Equal(b) {
		t.Fatal("different tags are equal")
	}
}
""",'two extensions with the same data under different tags','extensions of different types are equal')

seed('s21-bigint-abs','C21',[('number.go',"""	return n.Int.Cmp(other.BigInt()) == 0
""","""	return n.Int.CmpAbs(other.BigInt()) == 0 && (n.Int.IsInt64() || n.Int.Sign() == other.BigInt().Sign())
""")],"""
func TestZZDemo(t *testing.T) {
	if val.BigInt(big.NewInt(-5)).Equal(val.Long(5)) {
		t.Fatal("-5 equals 5")
	}
}
""",'a negative bigint and its absolute value','numbers of opposite sign are equal','math/big')

seed('s21-decimal-round','C21',[('number.go',"""	return n.Decimal().Cmp(other.Decimal()) == 0
""","""	return n.Decimal().Cmp(other.Decimal().Truncate(16)) == 0
""")],"""
func TestZZDemo(t *testing.T) {
	d := val.Decimal(decimal.New(1, -17))
	if !d.Equal(d) {
		t.Fatal("a decimal differs from itself")
	}
}
""",'a decimal with more than 16 fraction digits','a number is not equal to itself','github.com/shopspring/decimal')

seed('s21-nan-double','C21',[('number.go',"""	if n.IsNaN() || other.IsNaN() {
		return false
	}
	left, right""","""	if n.IsNaN() {
		return other.IsNaN()
	}
	left, right""")],"""
func TestZZDemo(t *testing.T) {
	if val.Nan.Equal(val.Nan) {
		t.Fatal("NaN equals NaN")
	}
}
""",'comparing NaN with NaN','NaN equals itself')

seed('s22-list-null','C22',[('immutablelist.go',"""		if !Equal(item, o.GetAt(i)) {
""","""		if other := o.GetAt(i); item != nil && item.Kind() == NUMBER && other == Null {
			continue
		} else if !Equal(item, other) {
""")],"""
func TestZZDemo(t *testing.T) {
	a := val.ImmutableList([]val.Value{val.Long(1), val.Long(2)})
	b := val.ImmutableList([]val.Value{val.Long(1), val.Null})
	if a.Equal(b) {
		t.Fatal("lists differ")
	}
}
""",'an other list with a null element','a missing element of the other list counts as equal')

seed('s22-map-keys','C22',[('sortedmap.go',"""		if !entry.Equal(other[i]) {
""","""		if !Equal(entry.Value(), o.Get(entry.Key())) && !entry.Equal(other[i]) {
""")],"""
func TestZZDemo(t *testing.T) {
	a := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("a", val.Long(1))}, true)
	b := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("b", val.Long(2))}, true)
	if a.Equal(b) {
		t.Fatal("maps differ")
	}
}
""",'maps with repeated keys','two maps with different entries are equal')

seed('s22-entry-key','C22',[('listitem.go',"""func (t immutableListItem) Equal(e ListItem) bool {
	return t.key == e.Key() && Equal(t.value, e.Value())
""","""func (t immutableListItem) Equal(e ListItem) bool {
	return Equal(t.value, e.Value())
""")],"""
func TestZZDemo(t *testing.T) {
	a := val.SparseList([]val.ListItem{val.ImmutableItem(1, val.Null), val.ImmutableItem(3, val.Long(1))}, true)
	b := val.SparseList([]val.ListItem{val.ImmutableItem(2, val.Null), val.ImmutableItem(3, val.Long(1))}, true)
	if a.Equal(b) {
		t.Fatal("lists differ")
	}
}
""",'sparse lists of immutable items at different indexes','items at different indexes are equal')

seed('s23-sparse-comma','C23',[('sparselist.go',"""		if i != 0 {
			out.WriteRune(',')
		}
		out.WriteRune(jsonQuote)
""","""		if i != 0 && entry.Value() != nil {
			out.WriteRune(',')
		}
		out.WriteRune(jsonQuote)
""")],"""
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.ImmutableItem(1, val.Long(1)), val.ImmutableItem(2, nil)}, true)
	if !json.Valid([]byte(val.Jsonify(l))) {
		t.Fatal(val.Jsonify(l))
	}
}
""",'an item without a value after another item','the JSON of the list lacks a comma','encoding/json')

seed('s23-bigint-bare','C23',[('number.go',"""func (n bigIntNumber) MarshalJSON() ([]byte, error) {
	s := formatBigInt(n.Int)
	return []byte(strconv.Quote(s)), nil
""","""func (n bigIntNumber) MarshalJSON() ([]byte, error) {
	s := formatBigInt(n.Int)
	if !n.Int.IsInt64() || n.Int.Sign() >= 0 {
		s = strconv.Quote(s)
	}
	return []byte(s), nil
""")],"""
func TestZZDemo(t *testing.T) {
	b, _ := val.BigInt(big.NewInt(-300)).MarshalJSON()
	if !json.Valid(b) {
		t.Fatalf("%s", b)
	}
}
""",'a small negative bigint','its JSON is not valid','encoding/json math/big')

seed('s24-marshal-bin','C24',[('string.go',"""func (s rawString) MarshalBinary() ([]byte, error) {
	buf := bytes.Buffer{}
	p := MessagePacker(&buf)
	s.Pack(p)
""","""func (s rawString) MarshalBinary() ([]byte, error) {
	buf := bytes.Buffer{}
	p := MessagePacker(&buf)
	if len(s) == 0 {
		p.PackNil()
	} else {
		s.Pack(p)
	}
""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Raw(nil, false)
	a, _ := v.MarshalBinary()
	b, _ := val.Pack(v)
	if !bytes.Equal(a, b) {
		t.Fatalf("%x %x", a, b)
	}
}
""",'an empty raw string','MarshalBinary and Pack differ','bytes')

seed('s24-double-json','C24',[('number.go',"""		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
""","""		return []byte(strconv.FormatFloat(d, 'g', -1, 64)), nil
""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Double(1e300)
	b, _ := v.MarshalJSON()
	if string(b) != val.Jsonify(v) {
		t.Fatalf("%s", b)
	}
}
""",'a double of large magnitude','MarshalJSON and PrintJSON differ')

seed('s25-number-type','C25',[('immutablemap.go',"""		if value.Kind() == NUMBER {
			return value.(Number)
		}
		return ParseNumber(value.String())
""","""		switch v := value.(type) {
		case longNumber, doubleNumber:
			return v.(Number)
		}
		return ParseNumber(value.String())
""")],"""
func TestZZDemo(t *testing.T) {
	d := val.Decimal(decimal.New(1, 1<<30))
	v := val.BigInt(new(big.Int))
	m := val.ImmutableMap([]val.MapEntry{val.ImmutableEntry("a", d), val.ImmutableEntry("b", v)}, true)
	if m.GetNumber("a") != val.Value(d) || m.GetNumber("b") != val.Value(v) {
		t.Fatal("not the stored number")
	}
}
""",'a stored bigint or decimal','the getter returns another number than the stored one','math/big github.com/shopspring/decimal')

seed('s25-string-empty','C25',[('sparselist.go',"""		return ParseString(value.String())
	}
	return EmptyString
""","""		if value.Kind() == UNKNOWN {
			return Utf8(value.String())
		}
		return Raw([]byte(value.String()), false)
	}
	return EmptyString
""")],"""
func TestZZDemo(t *testing.T) {
	s := val.SparseList([]val.ListItem{val.ImmutableItem(1, val.Long(5))}, true).GetStringAt(1)
	if s.Type() != val.UTF8 {
		t.Fatal(s)
	}
}
""",'a stored number read as a string','the text becomes a raw string')

seed('s25-map-unsorted','C25',[('sparselist.go',"""			return SortedMap(value.(List).Entries(), false)
""","""			return SortedMap(value.(List).Entries(), true)
""")],"""
func TestZZDemo(t *testing.T) {
	var xs []val.Value
	for i := 0; i < 12; i++ {
		xs = append(xs, val.Long(int64(i)))
	}
	m := val.SparseList([]val.ListItem{val.ImmutableItem(1, val.MutableList(xs))}, true).GetMapAt(1)
	if m.GetNumber("2").Long() != 2 || m.GetNumber("10").Long() != 10 {
		t.Fatal(m)
	}
}
""",'a stored list of more than ten elements','the map is not in key order, so entries are not found')

seed('s26-bool-class','C26',[('unknown.go',"""	return reflect.TypeOf((*unknownValue)(nil)).Elem()
""","""	return reflect.TypeOf((*unknownValue)(nil))
""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Unknown([]byte{1})
	if v.Class() != reflect.TypeOf(v) {
		t.Fatal(v.Class())
	}
}
""",'the class of an extension','it reports the pointer type','reflect')

seed('s26-kind-name','C26',[('api.go',"""	case UNKNOWN:
		return "UNKNOWN"
""","""	case UNKNOWN:
		return "STRING"
""")],"""
func TestZZDemo(t *testing.T) {
	if val.UNKNOWN.String() == val.STRING.String() {
		t.Fatal(val.UNKNOWN)
	}
}
""",'printing the kind of an extension','two kinds share a name')

seed('s27-double-bigint','C27',[('number.go',"""func (n doubleNumber) BigInt() *big.Int {
	d := float64(n)
""","""func (n doubleNumber) BigInt() *big.Int {
	d := float64(n) + 0.5
"""),('number.go',"""	f := new(big.Float)
	f.SetFloat64(d)
	z, _ := f.Int(nil)
	return z
""","""	z, _ := big.NewFloat(d - 0.5).Int(nil)
	if z.Sign() == 0 {
		return nil
	}
	return z
""")],"""
func TestZZDemo(t *testing.T) {
	if val.Double(0.25).BigInt() == nil {
		t.Fatal("nil")
	}
}
""",'a double between -1 and 1','the conversion yields nil, which later operations dereference')

seed('s27-decimal-floor','C27',[('number.go',"""func (n bigIntNumber) Decimal() decimal.Decimal {
	return decimal.NewFromBigInt(n.Int, 0)
""","""func (n bigIntNumber) Decimal() decimal.Decimal {
	if n.Int.BitLen() > 53 {
		return decimal.NewFromBigInt(n.Int, 0)
	}
	sign := float64(n.Int.Sign())
	return decimal.NewFromFloat(n.Double() / sign * sign)
""")],"""
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	val.BigInt(new(big.Int)).Decimal()
}
""",'the bigint zero','the conversion to decimal panics','math/big')

seed('s28-bigint-inplace','C28',[('number.go',"""	z := new(big.Int)
	z.Add(n.Int, other.BigInt())
	return BigInt(z)
""","""	z := other.BigInt()
	z.Add(n.Int, z)
	return BigInt(z)
""")],"""
func TestZZDemo(t *testing.T) {
	a, b := val.BigInt(big.NewInt(1)), val.BigInt(big.NewInt(2))
	a.Add(b)
	if b.Long() != 2 {
		t.Fatal(b)
	}
}
""",'adding two bigints and using the second one again','the second operand is changed','math/big')

seed('s28-double-sub','C28',[('number.go',"""	return Double(left - right)
""","""	return Double(math.Max(left, right) - math.Min(left, right))
""")],"""
func TestZZDemo(t *testing.T) {
	if val.Double(1).Subtract(val.Double(3)).Double() != -2 {
		t.Fatal("1-3")
	}
}
""",'subtracting a number of larger magnitude','the difference has the wrong sign')

seed('s29-hex-index','C29',[('number.go',"""	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]  // 0x
	}
	exp := int32(0)
""","""	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]  // 0x
	}
	if s[0] == '+' {
		s = s[1:]
	}
	var exp int32
""")],"""
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	val.ParseNumber("-0x")
}
""",'a hexadecimal prefix without digits','parsing panics')

seed('s37-copy-alias','C37',[('mapentry.go',"""	n := len(src)
	dst := make([]MapEntry, n)
	copy(dst, src)
	return dst
""","""	return append(src[:0], src...)
""")],"""
func TestZZDemo(t *testing.T) {
	xs := []val.MapEntry{val.MutableEntry("a", val.Long(1))}
	m := val.SortedMap(xs, true)
	c := val.SortedMapCopyOf(m)
	m.Update("a", up{})
	if c.GetNumber("a").Long() != 1 {
		t.Fatal(c)
	}
	val.ImmutableMapCopyOf(m)
	if !m.Update("a", up{}) {
		t.Fatal("the source became immutable")
	}
}

type up struct{}

func (up) Update(v val.Value) val.Value { return val.Long(9) }
""",'a source map without spare capacity','the copy takes over the storage of its source')

seed('s39-map-nil','C39',[('immutablemap.go',"""	for i, entry := range t {
		if i != 0 {
			out.WriteRune(',')
		}
		out.WriteString(quoteJSON(entry.Key()))

		out.WriteString(": ")
		value := entry.Value()
		if value != nil {
			value.PrintJSON(out)
		} else {
			out.WriteString("null")
		}
	}
	out.WriteRune('}')
""","""	var value Value
	for i, entry := range t {
		if i != 0 {
			out.WriteRune(',')
		}
		out.WriteString(quoteJSON(entry.Key()))

		out.WriteString(": ")
		if entry.Value() != nil {
			value = entry.Value()
		}
		if value != nil {
			value.PrintJSON(out)
		} else {
			out.WriteString("null")
		}
	}
	out.WriteRune('}')
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.ImmutableMap([]val.MapEntry{val.ImmutableEntry("a", val.Long(7)), val.ImmutableEntry("b", nil)}, true)
	if s := val.Jsonify(m); strings.Count(s, "7") != 1 {
		t.Fatal(s)
	}
}
""",'an entry without a value after the first one','the JSON shows the value of another entry','strings')

seed('s39-list-dup','C39',[('solidlist.go',"""		if e != nil {
			e.PrintJSON(out)
		} else {
""","""		if i > 0 && e != nil && e.Kind() == UNKNOWN {
			out.WriteString(Jsonify(t.GetAt(i - 1)))
		} else if e != nil {
			e.PrintJSON(out)
		} else {
""")],"""
func TestZZDemo(t *testing.T) {
	l := val.MutableList([]val.Value{val.Unknown([]byte{1}), val.Unknown([]byte{2})})
	if s := l.String(); strings.Count(s, "AQ") != 1 {
		t.Fatal(s)
	}
}
""",'two extensions in a row','the JSON shows an element twice','strings')

import seeds2, seeds3
if __name__=='__main__': main()
