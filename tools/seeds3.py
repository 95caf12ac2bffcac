from seedlib import *

seed('s03-insert-spare-smear','C03',[('solidlist.go',"""	} else {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return solidListValue(dst)
	}
}

func (t solidListValue) removeAt""","""	} else if cap(t) > n {
		dst := t[:n+1]
		for k := i; k < n; k++ {
			dst[k+1] = dst[k]
		}
		dst[i] = val
		return dst
	} else {
		dst := make(solidListValue, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return dst
	}
}

func (t solidListValue) removeAt""")],"""
func TestZZDemo(t *testing.T) {
	back := make([]val.Value, 4, 16)
	for i := range back {
		back[i] = val.Long(int64(i))
	}
	l := val.MutableList(back).InsertAt(1, val.Long(9))
	if s := l.String(); s != "[0,9,1,2,3]" {
		t.Fatal(s)
	}
}
""",'a mutable list with spare capacity and an insertion two or more before the end','the elements behind the insertion point are all copies of one')

seed('s03-append-moved','C03',[('solidlist.go',"""	} else if i+1 == n {
		return append(t[:i], val, t[i])
	} else {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return solidListValue(dst)""","""	} else if i+1 == n {
		dst := append(t[:i], val)
		return append(dst, t[i])
	} else {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return solidListValue(dst)""")],"""
func TestZZDemo(t *testing.T) {
	l := val.MutableList([]val.Value{val.Long(1), val.Long(2), val.Long(3)}).InsertAt(2, val.Long(9))
	if s := l.String(); s != "[1,2,9,3]" {
		t.Fatal(s)
	}
}
""",'an insertion right before the last of at least two elements','the last element is lost and the new one is there twice')

seed('s04-put-last-dup','C04',[('sparselist.go',"""		return t[i].Key() >= key
	})
	if i == n {
		return t.append(n, MutableItem(key, value))
	} else if t[i].Key() == key {
		return t.replaceAt(i, n, MutableItem(key, value))""","""		return t[i].Key() > key
	})
	if i > 0 && t[i-1].Key() == key {
		return t.replaceAt(i-1, n, MutableItem(key, value))
	} else if i == n {
		return t.append(n, MutableItem(key, value))""")],"""
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.MutableItem(1, val.Long(1)), val.MutableItem(1, val.Long(2))}, true).PutAt(1, val.Long(9))
	if s := l.String(); s != `{"1": 9,"1": 2}` {
		t.Fatal(s)
	}
}
""",'two items with the same index','PutAt replaces the last of the items instead of the first')

seed('s04-select-end','C04',[('sparselist.go',"""	for j := i; j < n && t[j].Key() == key; j++ {
		list = append(list, t[j].Value())
	}
	return list
}

func (t sparseListValue) InsertAll""","""	for j := i; j < n && t[j].Key() == key && len(list) <= n-i-1; j++ {
		if v := t[j].Value(); j == i || j+1 < n || v != list[len(list)-1] {
			list = append(list, v)
		}
	}
	return list
}

func (t sparseListValue) InsertAll""")],"""
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.MutableItem(1, val.Long(4)), val.MutableItem(1, val.Long(4))}, true)
	if n := len(l.Select(1)); n != 2 {
		t.Fatal(n)
	}
}
""",'equal values under the highest index','Select drops a value')

seed('s05-update-upper','C05',[('sortedmap.go',"""	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
	if i >= 0 && i < n && t[i].Key() == key {
		return t[i].Update(updater)""","""	i := sort.Search(n, func(i int) bool {
		return t[i].Key() > key
	}) - 1
	if i >= 0 && i < n && t[i].Key() == key {
		return t[i].Update(updater)""")],"""
type zzUp struct{}

func (zzUp) Update(val.Value) val.Value { return val.Long(9) }

func TestZZDemo(t *testing.T) {
	m := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("a", val.Long(2))}, true)
	if !m.Update("a", zzUp{}) || m.Get("a").String() != "9" {
		t.Fatal(m)
	}
}
""",'two entries with the same key','Update changes the last entry, so Get still returns the old value')

seed('s05-insertall-rev','C05',[('sortedmap.go',"""	var slice []MapEntry
	for _, value := range list {
		slice = append(slice, &mutableMapEntry{key, value})
	}
""","""	slice := make([]MapEntry, len(list))
	for i, value := range list {
		slice[len(slice)-1-i] = &mutableMapEntry{key, value}
	}
""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyMutableMap().InsertAll("a", []val.Value{val.Long(1), val.Long(2)})
	if s := m.Get("a").String(); s != "1" {
		t.Fatal(s)
	}
}
""",'InsertAll of at least two values','the values are stored in reverse order')

seed('s05-hashmap-null','C05',[('immutablemap.go',"""	for _, entry := range t {
		cache[entry.Key()] = entry.Value()
	}
	return cache
}

func (t immutableMapValue) Entries()""","""	for _, entry := range t {
		if v := entry.Value(); v != nil && v.Kind() != NULL {
			cache[entry.Key()] = v
		}
	}
	return cache
}

func (t immutableMapValue) Entries()""")],"""
func TestZZDemo(t *testing.T) {
	m := val.EmptyImmutableMap().Put("a", nil)
	if _, ok := m.HashMap()["a"]; !ok {
		t.Fatal("entry missing")
	}
}
""",'an entry whose value is Null','HashMap lacks the entry')

seed('s06-deleteall-single','C06',[('sparselist.go',"""	} else if AllowFastAppends  {
		return append(t[:i], t[i+cnt:]...)
	} else {
		dst := make([]ListItem, n-cnt)""","""	} else if AllowFastAppends || cnt == 1 {
		return append(t[:i], t[i+cnt:]...)
	} else {
		dst := make([]ListItem, n-cnt)""")],"""
func TestZZDemo(t *testing.T) {
	val.AllowFastAppends = false
	l := val.SparseList([]val.ListItem{val.MutableItem(1, val.Long(1)), val.MutableItem(2, val.Long(2)), val.MutableItem(3, val.Long(3))}, true)
	s := l.String()
	l.DeleteAll(2)
	if l.String() != s {
		t.Fatal(l)
	}
}
""",'fast appends off and DeleteAll of a single item in the middle','the list edited is compacted in place')

seed('s07-append-owned','C07',[('immutablelist.go',"""	if n == 0 {
		return immutableListValue([]Value{val})
	} else {
		dst := make([]Value, n+1)
		copy(dst, t)
		dst[n] = val
		return immutableListValue(dst)
	}
}

func (t immutableListValue) putAt""","""	if len(t) == 0 {
		return immutableListValue([]Value{val})
	} else if cap(t) > 4*n {
		dst := append(t, val)
		return dst[: n+1 : n+1]
	} else {
		dst := make([]Value, n+1)
		copy(dst, t)
		dst[n] = val
		return immutableListValue(dst)
	}
}

func (t immutableListValue) putAt""")],"""
func TestZZDemo(t *testing.T) {
	mine := []val.Value{val.Long(1), val.Long(2), val.Long(3), val.Long(4), val.Long(5), val.Long(6)}
	val.ImmutableList(mine[:1]).Append(val.Long(9))
	if mine[1].String() != "2" {
		t.Fatal(mine[1])
	}
}
""",'a list built from a short prefix of a long slice','the slice behind the list is overwritten')
SEEDS[-1]=(SEEDS[-1][0],'C01')+SEEDS[-1][2:]

seed('s07-utf8-wipe','C07',[('utils.go',"""	copy(decryptNonce[:], encrypted[:24])
	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
	if !ok {
		return nil, ErrUnseal
	}
	return Unpack(decrypted, false)""","""	copy(decryptNonce[:], encrypted[:24])
	decrypted, ok := box.Open(encrypted[:0:24], encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
	if !ok {
		return nil, ErrUnseal
	}
	return Unpack(decrypted, false)""")],"""
func TestZZDemo(t *testing.T) {
	pub, priv, _ := box.GenerateKey(rand.Reader)
	b, err := val.Seal(val.Long(5), pub, priv)
	if err != nil {
		t.Fatal(err)
	}
	c := append([]byte(nil), b...)
	v, err := val.Unseal(b, pub, priv)
	if err != nil || v.String() != "5" || !bytes.Equal(b, c) {
		t.Fatal(v, err)
	}
}
""",'messages of at most 24 bytes of content','the nonce of the caller message is overwritten by the plain text','golang.org/x/crypto/nacl/box crypto/rand bytes')

seed('s09-str-max','C09',[('msgpack.go',"""	case mpStr8:
		return int(b[1])
	case mpStr16:
		return int(binary.BigEndian.Uint16(b[1:]))""","""	case mpStr8:
		return int(b[1])
	case mpStr16:
		return int(int16(binary.BigEndian.Uint16(b[1:])) & math.MaxInt16)""")],"""
func TestZZDemo(t *testing.T) {
	s := strings.Repeat("x", 40000)
	b, _ := val.Pack(val.Utf8(s))
	v, err := val.Unpack(b, false)
	if err != nil || v.String() != s {
		t.Fatal(err)
	}
}
""",'strings of 32768 to 65535 bytes','the length loses its top bit','strings')

seed('s10-ext-len','C10',[('msgpack.go',"""		if len < 256 {
			p.buf[0] = mpExt8""","""		if len <= math.MaxInt8 {
			p.buf[0] = mpExt8""")],"""
func TestZZDemo(t *testing.T) {
	b, _ := val.Pack(val.Unknown(make([]byte, 201)))
	if b[0] != 0xc7 {
		t.Fatalf("%x", b[0])
	}
}
""",'extensions of 128 to 255 bytes','the 16-bit header is used although an 8-bit one can hold the length')

seed('s11-int16-order','C11',[('msgpack.go',"""	case mpFloat32:
		val32 := binary.BigEndian.Uint32(b[1:])
		return float64(math.Float32frombits(val32))""","""	case mpFloat32:
		bits := binary.BigEndian.Uint32(b[1:])
		if bits&0x7f800000 == 0 {
			return 0 // denormals
		}
		return float64(math.Float32frombits(bits))""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xca, 0x80, 0, 0, 1}, false)
	if err != nil || v.(val.Number).Double() == 0 {
		t.Fatal(v, err)
	}
}
""",'a denormal 32-bit float','it decodes as zero')

seed('s12-map-header','C12',[('sortedmap.go',"""	p.PackMap(len(t))

	for _, entry := range t {
		p.PackStr(entry.Key())
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}
	}
""","""	p.PackMap(len(t))

	var last string
	for i, entry := range t {
		if i > 0 && entry.Key() == last && entry.Value() == nil {
			continue
		}
		last = entry.Key()
		p.PackStr(entry.Key())
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}
	}
""")],"""
func TestZZDemo(t *testing.T) {
	b, _ := val.Pack(val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("a", nil)}, true))
	if _, err := val.Unpack(b, false); err != nil {
		t.Fatal(err)
	}
}
""",'a repeated key with an absent value','fewer pairs follow than the header announces')

seed('s14-hexprefix','C29',[('number.go',"""func hasHexPrefix(s string) bool {
	if len(s) >= 1 && s[0] == '-' {
		s = s[1:]
	}
	return""","""func hasHexPrefix(s string) bool {
	if strings.HasPrefix(s, "-") {
		s = s[1:]
		if s[0] == 'x' || s[0] == 'X' {
			return true
		}
	}
	return""")],"""
func TestZZDemo(t *testing.T) {
	val.ParseNumber("-")
}
""",'the text "-"','index out of range')

seed('s29-nil','C29',[('number.go',"""	if hasHexPrefix(str) {
		if val, err := parseHexNumber(str); err == nil {
			return val
		}
	}
""","""	if hasHexPrefix(str) {
		val, err := parseHexNumber(str)
		if err == nil || err == strconv.ErrRange {
			return val
		}
	}
""")],"""
func TestZZDemo(t *testing.T) {
	if val.ParseNumber("0x1x0102030405") == nil {
		t.Fatal("nil")
	}
}
""",'a hexadecimal number with an exponent of more than four bytes','the result is nil')

seed('s15-dup-err','C15',[('unpack.go',"""		value, err := doParseNested(unpacker, parser, depth+1)
		if err != nil {
			return nil, err
		}

		if key == nil {""","""		value, err := doParseNested(unpacker, parser, depth+1)
		if err != nil {
			if prevMapKey == "" || key.String() != prevMapKey {
				return nil, err
			}
			value = Null
		}

		if key == nil {""")],"""
func TestZZDemo(t *testing.T) {
	if v, err := val.Unpack([]byte{0x82, 0xa1, 'a', 1, 0xa1, 'a', 0xa2, 'x'}, false); err == nil {
		t.Fatal(v)
	}
}
""",'a repeated map key whose value is truncated','the truncated input is decoded as a complete value')

seed('s33-send-err','C33',[('utils.go',"""		value, err := doParse(unpacker, parser)
		if err != nil {
			return err
		}

		out <- value""","""		value, err := doParse(unpacker, parser)
		if value != nil {
			out <- value
		}
		if err != nil {
			return err
		}
""")],"""
func TestZZDemo(t *testing.T) {
	c := make(chan val.Value, 10)
	err := val.ReadStream(bytes.NewReader([]byte{0xcf, 255, 255, 255, 255, 255, 255, 255, 255}), c)
	if err == nil || len(c) != 0 {
		t.Fatal(err, len(c))
	}
}
""",'a stream ending in an integer that overflows','a value is sent for the failed decode','bytes')

seed('s28-decimal-trunc','C28',[('number.go',"""	dec := decimal.Decimal(n)
	return Decimal(dec.Sub(other.Decimal()))""","""	dec, sub := decimal.Decimal(n), other.Decimal()
	if other.Type() == BIGINT && dec.Exponent() >= 0 {
		return BigInt(new(big.Int).Sub(n.BigInt(), other.BigInt()))
	}
	return Decimal(dec.Sub(sub))""")],"""
func TestZZDemo(t *testing.T) {
	n := val.Decimal(decimal.New(5, 0)).Subtract(val.BigInt(big.NewInt(2)))
	if n.Type() != val.DECIMAL {
		t.Fatal(n.Type())
	}
}
""",'a whole decimal minus a bigint','the difference is a bigint','math/big github.com/shopspring/decimal')

seed('s28-long-wrap','C28',[('number.go',"""	return Long(n.Long() + other.Long())""","""	sum := int64(n) + other.Long()
	if other.Type() == DOUBLE && !other.IsNaN() {
		sum = int64(n.Double() + other.Double())
	}
	return Long(sum)""")],"""
func TestZZDemo(t *testing.T) {
	if n := val.Long(1<<62 + 1).Add(val.Double(1)); n.Long() != 1<<62+2 {
		t.Fatal(n)
	}
}
""",'a long above 2^53 plus a double','the sum is rounded to a double')

seed('s22-sparse-neg','C22',[('sortedmap.go',"""	// entries are sorted
	other := o.Entries()
	for i, entry := range t {
		if !entry.Equal(other[i]) {
			return false
		}
	}
	return true""","""	for _, entry := range t {
		if !Equal(entry.Value(), o.Get(entry.Key())) {
			return false
		}
	}
	return true""")],"""
func TestZZDemo(t *testing.T) {
	a := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("a", val.Long(1))}, true)
	b := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1)), val.MutableEntry("a", val.Long(2))}, true)
	if a.Equal(b) {
		t.Fatal("equal")
	}
}
""",'maps with a repeated key','maps with different entries are equal')

seed('s39-nested-order','C39',[('sparselist.go',"""		out.WriteString(": ")
		value := entry.Value()
		if value != nil {
			value.PrintJSON(out)""","""		out.WriteString(": ")
		at := i
		if i > 0 && t[i-1].Key() == entry.Key() {
			at = i - 1
		}
		value := t[at].Value()
		if value != nil {
			value.PrintJSON(out)""")],"""
func TestZZDemo(t *testing.T) {
	l := val.SparseList([]val.ListItem{val.MutableItem(1, val.Long(1)), val.MutableItem(1, val.Long(2))}, true)
	if s := l.String(); s != `{"1": 1,"1": 2}` {
		t.Fatal(s)
	}
}
""",'two items with the same index','the first value is shown twice')

seed('s18-write-len','C18',[('msgpack.go',"""	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(b)
	}""","""	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
	}
	for len(b) > 0 && p.err == nil {
		k := len(b)
		if k > 1<<15 {
			k = 1 << 15
		}
		_, err := p.w.Write(b[:k])
		b = b[k:]
		if len(b) == 0 {
			p.err = err
		}
	}""")],"""
type zzW struct{ n int }

func (w *zzW) Write(b []byte) (int, error) {
	w.n++
	if w.n == 2 {
		return 0, errors.New("full")
	}
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	if err := val.Write(&zzW{}, val.Raw(make([]byte, 1<<16), false)); err == nil {
		t.Fatal("no error")
	}
}
""",'a byte string of more than 32 KiB and a failure before its last piece','the failure is not reported','errors')


# ---- C40
seed('s40-exp-high','C40',[('number.go',"""	for i := 0; i < len(buf); i++ {
		if buf[i] != 0 {
			slice = buf[i:]
			break
		}
	}""","""	for i := len(buf) - 1; i >= 0 && buf[i] != 0; i-- {
		slice = buf[i:]
	}""")],"""
func TestZZDemo(t *testing.T) {
	d := val.Decimal(decimal.New(7, 256))
	if !val.ParseNumber(d.String()).Equal(d) {
		t.Fatal(d.String())
	}
}
""",'a decimal exponent with a zero byte inside, such as 256','the exponent is printed without its high bytes','github.com/shopspring/decimal')
seed('s40-long-digits','C40',[('number.go',"""	long, err := strconv.ParseInt(str, 10, 64)
	if err == nil {
		return Long(long)
	} else {""","""	long, err := strconv.ParseInt(str, 10, 64)
	if err == nil && len(str) < 19 {
		return Long(long)
	} else {""")],"""
func TestZZDemo(t *testing.T) {
	for _, x := range []int64{1<<62 + 1, -1<<62 - 1, 1234567890123456789} {
		if got := val.ParseNumber(val.Long(x).String()); got.Type() != val.LONG || got.Long() != x {
			t.Fatal(x, got)
		}
	}
}
""",'an integer of 19 digits','it is read back as a double and loses its low digits')
seed('s40-raw-empty','C40',[('string.go',"""		if err == nil {
			return Raw(raw, false)""","""		if err == nil && len(raw) > 0 {
			return Raw(raw, false)""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Raw(nil, true)
	if got := val.ParseString(v.String()); got.Len() != 0 || got.Type() != val.RAW {
		t.Fatal(got.String())
	}
}
""",'an empty byte string','its text is read back as a UTF-8 string holding the mark')
seed('s40-dec-zero-exp','C40',[('number.go',"""	if exp < 0 {
		s = "-"
		exp = -exp
	}
	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(exp))""","""	if exp < 0 {
		s = "-"
		exp = -exp
	}
	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(int16(exp)))""")],"""
func TestZZDemo(t *testing.T) {
	d := val.Decimal(decimal.New(7, 40000))
	if !val.ParseNumber(d.String()).Equal(d) {
		t.Fatal(d.String())
	}
}
""",'a decimal exponent of more than 15 bits','the exponent is printed truncated','github.com/shopspring/decimal')
seed('s40-inf','C40',[('number.go',"""	} else {
		double, err := strconv.ParseFloat(str, 64)
		if err == nil {
			return Double(double)
		}
	}""","""	} else {
		double, err := strconv.ParseFloat(str, 64)
		if err == nil && !math.IsInf(double, 0) {
			return Double(double)
		}
	}""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Double(math.Inf(-1))
	if got := val.ParseNumber(v.String()); !got.Equal(v) {
		t.Fatal(got)
	}
}
""",'an infinite double','it is read back as NaN','math')
seed('s02-put-equal','C02',[('immutablelist.go',"""		} else {
			return t.putAt(i, n, val)
		}""","""		} else if i > n || !Equal(t[i], val) {
			return t.putAt(i, n, val)
		}""")],"""
func TestZZDemo(t *testing.T) {
	l := val.ImmutableList([]val.Value{val.Utf8("a"), val.Utf8("b")}).PutAt(1, val.Raw([]byte("b"), false))
	if l.GetStringAt(1).Type() != val.RAW {
		t.Fatal(l)
	}
}
""",'an element put over an equal one of another representation','the old element stays')
seed('s02-remove-short','C02',[('immutablelist.go',"""	} else if i+1 == n {
		return immutableListValue(t.copyOf(t[:i]))""","""	} else if i+1 == n || i >= cap(t) {
		return immutableListValue(t.copyOf(t[:i:i]))"""),('immutablelist.go',"""		dst := make([]Value, n-1)
		copy(dst, t[:i])
		copy(dst[i:], t[i+1:])
		return immutableListValue(dst)""","""		dst := make([]Value, n-1)
		at := copy(dst, t[:i])
		copy(dst[at:], t[at+1:n-at%2])
		return immutableListValue(dst)""")],"""
func TestZZDemo(t *testing.T) {
	l := val.ImmutableList([]val.Value{val.Long(1), val.Long(2), val.Long(3), val.Long(4), val.Long(5), val.Long(6)}).RemoveAt(3)
	for i, w := range []int64{1, 2, 3, 5, 6} {
		if l.GetAt(i) == nil || l.GetNumberAt(i).Long() != w {
			t.Fatal(l)
		}
	}
}
""",'an inner element removed at an odd index','the last element of the result is missing')
seed('s35-blocks','C35',[('utils.go',"""	h := hash.New()
	h.Write(data)
	return data, h.Sum(nil), nil""","""	h := hash.New()
	for size := h.BlockSize(); len(data) > size; data = data[size:] {
		h.Write(data[:size])
	}
	if _, err = h.Write(data); err != nil {
		return nil, nil, err
	}
	return data, h.Sum(nil), nil""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Raw(make([]byte, 300), false)
	data, _, err := val.Hash(v, crypto.SHA256)
	want, _ := val.Pack(v)
	if err != nil || !bytes.Equal(data, want) {
		t.Fatal(len(data), len(want), err)
	}
}
""",'a value packed into more than one hash block','only the last block is returned','bytes crypto _crypto/sha256')
seed('s35-known','C35',[('utils.go',"""	h := hash.New()
	h.Write(data)
	return data, h.Sum(nil), nil""","""	h := hash.New()
	if val != nil && val.Kind() == STRING {
		h.Write(val.(String).Raw())
	} else {
		h.Write(data)
	}
	return data, h.Sum(nil), nil""")],"""
func TestZZDemo(t *testing.T) {
	data, sum, err := val.Hash(val.Utf8("abc"), crypto.SHA256)
	want := sha256.Sum256(data)
	if err != nil || !bytes.Equal(sum, want[:]) {
		t.Fatal(sum, want, err)
	}
}
""",'a string is hashed','the digest leaves out the header','bytes crypto crypto/sha256')
seed('s37-shared-entry','C37',[('sortedmap.go',"""	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
	for i, entry := range t {
		t[i] = MutableEntry(entry.Key(), entry.Value())
	}""","""	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
	for i, entry := range t {
		if _, ok := entry.(*mutableMapEntry); ok && entry.Value() != nil {
			continue
		}
		t[i] = MutableEntry(entry.Key(), entry.Value())
	}"""),('mapentry.go',"""	dst := make([]MapEntry, n)
	copy(dst, src)
	return dst""","""	dst := append([]MapEntry(nil), src[:n]...)
	return dst""")],"""
func TestZZDemo(t *testing.T) {
	m := val.SortedMap([]val.MapEntry{val.MutableEntry("a", val.Long(1))}, true)
	c := val.SortedMapCopyOf(m)
	c.Update("a", up{})
	if m.GetNumber("a").Long() != 1 {
		t.Fatal(m)
	}
}

type up struct{}

func (up) Update(v val.Value) val.Value { return val.Long(9) }
""",'a mutable map is copied and the copy updated','the source sees the update')
seed('s36-scratch','C36',[('number.go',"""func (n longNumber) String() string {
	return strconv.FormatInt(int64(n), 10)
}""","""var longText [20]byte

func (n longNumber) String() string {
	return string(strconv.AppendInt(longText[:0], int64(n), 10))
}""")],"""
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := int64(0); g < 8; g++ {
		wg.Add(1)
		go func(g int64) {
			defer wg.Done()
			x := (g + 1) * 1111111111111111
			want := strconv.FormatInt(x, 10)
			for i := 0; i < 2000000; i++ {
				if got := val.Long(x).String(); got != want {
					bad <- got
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
""",'two goroutines print integers at the same time','one prints the digits of the other','strconv sync')
seed('s11-map32','C11',[('msgpack.go',"""		MapHeader,  // mpMap32 		0xdf""","""		ListHeader,  // mpMap32 		0xdf""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0xdf, 0, 0, 0, 1, 0xa1, 'a', 1}, true)
	if err != nil || v.Kind() != val.MAP {
		t.Fatal(v, err)
	}
}
""",'a map header of four length bytes','it is taken for a list header')
seed('s38-sorted','C38',[('unpack.go',"""				if i > 0 && prevListKey > k {""","""				if i > 1 && prevListKey > k {""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Unpack([]byte{0x82, 9, 0xc3, 3, 0xc2}, true)
	if err != nil || v.(val.List).GetBoolAt(9) != val.True {
		t.Fatal(v, err)
	}
}
""",'the first two integer keys of a map are out of order','the list is not sorted and its items are not found')
# ---- C41
seed('s41-big-dec-64','C41',[('number.go',"""	return decimal.NewFromBigInt(n.Int, 0)""","""	if n.Int.BitLen() > 128 {
		return decimal.NewFromBigInt(n.Int, 0)
	}
	return decimal.NewFromInt(n.Int.Int64())""")],"""
func TestZZDemo(t *testing.T) {
	x := new(big.Int).Lsh(big.NewInt(3), 70)
	if got := val.BigInt(x).Decimal(); got.BigInt().Cmp(x) != 0 {
		t.Fatal(got)
	}
}
""",'a big integer of 65 to 128 bits becomes a decimal','only its low bits are kept','math/big')
seed('s41-dec-whole','C41',[('number.go',"""	v, _ := decimal.Decimal(n).Float64()
	return v""","""	dec := decimal.Decimal(n)
	if dec.IsInteger() {
		return float64(dec.IntPart())
	}
	v, _ := dec.Float64()
	return v""")],"""
func TestZZDemo(t *testing.T) {
	if got := val.Decimal(decimal.New(1, 30)).Double(); got != 1e30 {
		t.Fatal(got)
	}
}
""",'a whole decimal beyond 64 bits becomes a double','it overflows','github.com/shopspring/decimal')
seed('s41-double-big','C41',[('number.go',"""	f := new(big.Float)
	f.SetFloat64(d)
	z, _ := f.Int(nil)
	return z""","""	z := big.NewInt(int64(d))
	if math.Abs(d) >= 1e19 {
		big.NewFloat(d).Int(z)
	}
	return z""")],"""
func TestZZDemo(t *testing.T) {
	if got := val.Double(-9.5e18).BigInt(); got.String() != "-9500000000000000000" {
		t.Fatal(got)
	}
}
""",'a double between 2^63 and 10^19 becomes a big integer','it wraps around')
seed('s41-dec-long-float','C41',[('number.go',"""	return decimal.Decimal(n).IntPart()""","""	v, _ := decimal.Decimal(n).Float64()
	return int64(v)""")],"""
func TestZZDemo(t *testing.T) {
	if got := val.Decimal(decimal.NewFromInt(1<<60 + 1)).Long(); got != 1<<60+1 {
		t.Fatal(got)
	}
}
""",'a decimal of more than 53 bits becomes a long','its low digits are rounded away','github.com/shopspring/decimal')

# ---- second look at thin properties
seed('s31-tag-32','C31',[('struct.go',"""		tag := int(key.(Number).Long())
		if field, ok""","""		tag := int(int32(key.(Number).Long()))
		if field, ok""")],"""
type zzOne struct {
	A val.Number `tag:"1"`
}

func TestZZDemo(t *testing.T) {
	m := val.SparseList([]val.ListItem{val.MutableItem(1<<32+1, val.Long(5))}, true)
	b, _ := val.Pack(m)
	if err := val.UnpackStruct(b, new(zzOne), true); err == nil {
		t.Fatal("unknown tag accepted")
	}
}
""",'a tag beyond 32 bits','it is taken for the field with the low bits as tag','')
seed('s19-copy-small','C19',[('msgpack.go',"""	if p.copy {
		c := make([]byte, n)""","""	if p.copy && n < len(p.buf)/2 {
		c := make([]byte, n)""")],"""
func TestZZDemo(t *testing.T) {
	b, _ := val.Pack(val.Raw([]byte("some bytes"), true))
	v, err := val.Unpack(b, true)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 0
	}
	if string(v.(val.String).Raw()) != "some bytes" {
		t.Fatal("shared")
	}
}
""",'a body that makes up most of the input','the copy flag is ignored','')
seed('s33-nil-value','C33',[('utils.go',"""		val, ok := <- valueC

		if !ok {
			break
		}
""","""		val, ok := <- valueC

		if !ok || p.Error() == nil && val == Null {
			break
		}
""")],"""
func TestZZDemo(t *testing.T) {
	c := make(chan val.Value, 3)
	c <- val.Long(1)
	c <- val.Null
	c <- val.Long(2)
	close(c)
	var b bytes.Buffer
	if err := val.WriteStream(&b, c); err != nil || b.Len() != 3 {
		t.Fatal(err, b.Len())
	}
}
""",'Null in the stream','the stream ends there','bytes')
seed('s09-double-zero','C09',[('msgpack.go',"""	binary.BigEndian.PutUint64(p.buf[1:9], math.Float64bits(val))""","""	binary.BigEndian.PutUint64(p.buf[1:9], math.Float64bits(val + 0))""")],"""
func TestZZDemo(t *testing.T) {
	v := val.Double(math.Copysign(0, -1))
	b, _ := val.Pack(v)
	w, _ := val.Unpack(b, true)
	if !math.Signbit(w.(val.Number).Double()) {
		t.Fatal("sign of zero lost")
	}
}
""",'negative zero','its sign is lost','math')
seed('s30-neg-tag','C30',[('struct.go',"""	return t[i].Tag < t[j].Tag""","""	return uint32(t[i].Tag) < uint32(t[j].Tag)""")],"""
type zzNeg struct {
	A val.Number `tag:"1"`
	B val.Number `tag:"-1"`
}

func TestZZDemo(t *testing.T) {
	b, err := val.PackStruct(&zzNeg{val.Long(1), val.Long(2)})
	if err != nil || b[1] != 0xff {
		t.Fatal(err, b)
	}
}
""",'negative tags','they follow the positive ones','')
seed('s34-short-nonce','C34',[('utils.go',"""	_, err := io.ReadFull(rand.Reader, nonce[:])""","""	_, err := io.ReadFull(rand.Reader, nonce[len(nonce)-len(nonce)/2:])""")],"""
func TestZZDemo(t *testing.T) {
	pub, priv, _ := box.GenerateKey(rand.Reader)
	b, err := val.Seal(val.Long(1), pub, priv)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(b[:12], make([]byte, 12)) {
		t.Fatal("half a nonce")
	}
}
""",'half of the nonce','it is always zero','bytes crypto/rand golang.org/x/crypto/nacl/box')
seed('s20-null-kind','C20',[('null.go',"""	return val == nil || val.Kind() == NULL""","""	return val == nil || val.String() == "null\"""")],"""
func TestZZDemo(t *testing.T) {
	if val.Null.Equal(val.Utf8("null")) {
		t.Fatal("Null equals a string")
	}
}
""",'the string null','it equals Null','')
seed('s25-empty-list','C25',[('sparselist.go',"""		case MAP:
			return MutableList(value.(Map).Values())""","""		case MAP:
			return SparseListOf(value.(Map).Values())""")],"""
func TestZZDemo(t *testing.T) {
	m := val.ImmutableMap([]val.MapEntry{val.ImmutableEntry("a", val.Long(1)), val.ImmutableEntry("b", nil)}, true)
	l := val.EmptySparseList().Append(m).GetListAt(0)
	if l.Len() != 2 {
		t.Fatal(l.Len())
	}
}
""",'a stored map whose last value is empty','the list is shorter','')
seed('s27-sub-nil','C27',[('number.go',"""	z, _ := f.Int(nil)
	return z""","""	z, acc := f.Int(nil)
	if acc == big.Below && z.Sign() != 0 && z.BitLen() < 2 {
		return nil
	}
	return z""")],"""
func TestZZDemo(t *testing.T) {
	if val.Double(1.5).BigInt() == nil {
		t.Fatal("nil")
	}
}
""",'doubles between one and two','a nil big integer','')
seed('s28-sub-order','C28',[('number.go',"""	z.Sub(n.Int, other.BigInt())
	return BigInt(z)""","""	if z.SetInt64(other.Long()); !z.IsInt64() || z.Cmp(other.BigInt()) != 0 {
		return BigInt(z.Sub(other.BigInt(), n.Int))
	}
	z.Sub(n.Int, z)
	return BigInt(z)""")],"""
func TestZZDemo(t *testing.T) {
	a := new(big.Int).Lsh(big.NewInt(1), 80)
	if got := val.BigInt(big.NewInt(0)).Subtract(val.BigInt(a)); got.BigInt().Sign() >= 0 {
		t.Fatal(got)
	}
}
""",'an operand beyond 64 bits','the operands are swapped','math/big')
seed('s10-raw-short','C10',[('msgpack.go',"""		_, p.err = p.w.Write(b)
	}
}

func (p *messagePacker) Error() error {""","""		_, p.err = p.w.Write(b[:len(b)&0x1ffff])
	}
}

func (p *messagePacker) Error() error {""")],"""
func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	p := val.MessagePacker(&buf)
	p.PackRaw(make([]byte, 1<<17))
	if buf.Len() != 1<<17 {
		t.Fatal(buf.Len())
	}
}
""",'raw bytes of 128 KiB or more','they are cut off','bytes')
seed('s17-at-least','C17',[('msgpack.go',"""	if m != len {
		p.fail(err)
		return UnexpectedEOF, nil
	}""","""	if m < len && err != io.ErrUnexpectedEOF {
		p.fail(err)
		return UnexpectedEOF, nil
	}""")],"""
func TestZZDemo(t *testing.T) {
	v, err := val.Read(bytes.NewReader([]byte{0xcd, 0x01}))
	if err == nil {
		t.Fatal(v)
	}
}
""",'a header cut off in the middle','the stale buffer is decoded','bytes')
seed('s17-bufio-read','C17',[('utils.go',"""	unpacker := MessageReader(r)
	parser := MessageParser()
	return Parse(unpacker, parser)""","""	br, ok := r.(io.ByteReader)
	if !ok {
		r = bufio.NewReader(r)
	} else if _, ok = br.(io.Seeker); ok {
		r = bufio.NewReaderSize(r, 16)
	}
	return Parse(MessageReader(r), MessageParser())"""),('utils.go',"""import (
	"bytes\"""","""import (
	"bufio"
	"bytes\"""")],"""
func TestZZDemo(t *testing.T) {
	a, _ := val.Pack(val.Utf8("first"))
	b, _ := val.Pack(val.Utf8("second"))
	r := io.MultiReader(bytes.NewReader(append(a, b...)))
	val.Read(r)
	v, err := val.Read(r)
	if err != nil || v.String() != "second" {
		t.Fatal(v, err)
	}
}
""",'two values read one after another from one reader','the second is lost in a buffer','bytes io')
seed('s09-limit-read','C09',[('utils.go',"""	unpacker := MessageReader(r)
	parser := MessageParser()
	return Parse(unpacker, parser)""","""	const maxMessage = 1 << 24
	return Parse(MessageReader(io.LimitReader(r, maxMessage)), MessageParser())""")],"""
func TestZZDemo(t *testing.T) {
	b, _ := val.Pack(val.Raw(make([]byte, 1<<24), false))
	if _, err := val.Read(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
}
""",'a message of 16 MiB or more','it is cut off','bytes')
