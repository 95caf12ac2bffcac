refactor('pack-loop-index',[('immutablelist.go','''	for _, e := range t {
		if e != nil {
			e.Pack(p)
		} else {
			p.PackNil()
		}
	}
''','''	for i := 0; i < len(t); i++ {
		e := t[i]
		if e == nil {
			p.PackNil()
			continue
		}
		e.Pack(p)
	}
'''),('sparselist.go','''	for _, entry := range t {
		p.PackLong(int64(entry.Key()))
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}
	}
''','''	for _, entry := range t {
		p.PackLong(int64(entry.Key()))
		packOrNil(p, entry.Value())
	}
'''),('utils.go','''func CopyOf(''','''func packOrNil(p Packer, v Value) {
	if v == nil {
		p.PackNil()
		return
	}
	v.Pack(p)
}

func CopyOf('''),('sortedmap.go','''		p.PackStr(entry.Key())
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}
''','''		key, value := entry.Key(), entry.Value()
		p.PackStr(key)
		packOrNil(p, value)
''')])
refactor('insert-append-chain',[('immutablelist.go','''		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return immutableListValue(dst)
''','''		dst := make([]Value, 0, n+1)
		dst = append(dst, t[:i]...)
		dst = append(dst, val)
		dst = append(dst, t[i:]...)
		return immutableListValue(dst)
''')])
refactor('insert-nocases',[('immutablelist.go','''	if i == 0 {
		dst := make([]Value, n+1)
		copy(dst[1:], t)
		dst[0] = val
		return immutableListValue(dst)
	} else if i+1 == n {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[n-1] = val
		dst[n] = t[i]
		return immutableListValue(dst)
	} else {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return immutableListValue(dst)
	}
''','''	dst := make([]Value, n+1)
	copy(dst[:i], t[:i])
	dst[i] = val
	copy(dst[i+1:], t[i:])
	return immutableListValue(dst)
''')])
refactor('insert-manual-loop',[('immutablelist.go','''		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return immutableListValue(dst)
''','''		dst := make([]Value, n+1)
		for k := 0; k < i; k++ {
			dst[k] = t[k]
		}
		dst[i] = val
		for k := i; k < n; k++ {
			dst[k+1] = t[k]
		}
		return immutableListValue(dst)
''')])
refactor('insert-one-loop',[('immutablelist.go','''		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return immutableListValue(dst)
''','''		dst := make([]Value, 0, n+1)
		for k, v := range t {
			if k == i {
				dst = append(dst, val)
			}
			dst = append(dst, v)
		}
		return immutableListValue(dst)
''')])
refactor('remove-filter-loop',[('immutablelist.go','''		dst := make([]Value, n-1)
		copy(dst, t[:i])
		copy(dst[i:], t[i+1:])
		return immutableListValue(dst)
''','''		dst := make([]Value, 0, n-1)
		for k, v := range t {
			if k != i {
				dst = append(dst, v)
			}
		}
		return immutableListValue(dst)
''')])
refactor('getat-guard',[('immutablelist.go','''	if i >= 0 && i < len(t) {
		return t[i]
	}
	return Null
''','''	if i < 0 || i >= len(t) {
		return Null
	}
	return t[i]
''')])
refactor('items-prealloc',[('immutablelist.go','''	var items []ListItem
	for key, value := range t {
		items = append(items, ImmutableItem(key, value))
	}
	return items
''','''	items := make([]ListItem, len(t))
	for key, value := range t {
		items[key] = ImmutableItem(key, value)
	}
	return items
''')])
refactor('norm-helper',[('immutablelist.go','''	list = CopyOf(list)
	for k := range list {
		if list[k] == nil {
			list[k] = Null
		}
	}
''','''	list = normalized(list)
'''),('utils.go','''func CopyOf(''','''func normalized(src []Value) []Value {
	dst := make([]Value, 0, len(src))
	for _, v := range src {
		if v == nil {
			v = Null
		}
		dst = append(dst, v)
	}
	return dst
}

func CopyOf(''')])
refactor('writelong-helper',[('msgpack.go','''	case val <= math.MaxUint8:
		p.buf[0] = mpUint8
		p.buf[1] = byte(val)
		return p.buf[:2]
	case val <= math.MaxUint16:
		p.buf[0] = mpUint16
		binary.BigEndian.PutUint16(p.buf[1:3], uint16(val))
		return p.buf[:3]
	case val <= math.MaxUint32:
		p.buf[0] = mpUint32
		binary.BigEndian.PutUint32(p.buf[1:5], uint32(val))
		return p.buf[:5]
	default:
		p.buf[0] = mpUint64
		binary.BigEndian.PutUint64(p.buf[1:9], val)
		return p.buf[:9]
	}
}
''','''	case val <= math.MaxUint8:
		return beCode(mpUint8, val, 1)
	case val <= math.MaxUint16:
		return beCode(mpUint16, val, 2)
	case val <= math.MaxUint32:
		return beCode(mpUint32, val, 4)
	default:
		return beCode(mpUint64, val, 8)
	}
}

func beCode(code byte, val uint64, size int) []byte {
	out := make([]byte, 1+size)
	out[0] = code
	for i := size; i > 0; i-- {
		out[i] = byte(val)
		val >>= 8
	}
	return out
}
''')])
refactor('header-shift',[('msgpack.go','''		p.buf[0] = mpArray32
		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
		return p.buf[:5]
''','''		return []byte{mpArray32, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)}
''')])
refactor('nextformat-switch',[('msgpack.go','''		case code <= mpCodeMax:
			i := int(code - mpCodeMin)
			return mpCodeFormat[i], mpCodeSize[i]
''','''		case code == mpNil:
			return NilToken, 0
		case code == mpTrue || code == mpFalse:
			return BoolToken, 0
		case code == mpNeverUsed:
			return InvalidToken, 0
		case code <= mpCodeMax:
			i := int(code) - int(mpCodeMin)
			return mpCodeFormat[i], mpCodeSize[i]
''')])
refactor('parselong-merge',[('msgpack.go','''	case mpUint16:
		return int64(binary.BigEndian.Uint16(b[1:]))
	case mpUint32:
		return int64(binary.BigEndian.Uint32(b[1:]))
	case mpUint64:
''','''	case mpUint16, mpUint32:
		n := 2
		if code == mpUint32 {
			n = 4
		}
		var v uint64
		for _, x := range b[1 : 1+n] {
			v = v<<8 | uint64(x)
		}
		return int64(v)
	case mpUint64:
''')])
refactor('packer-write-helper',[('msgpack.go','''	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(b)
	}
}

func (p *messagePacker) PackBin(b []byte) {
	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(b)
	}
}
''','''	p.emit(p.m.WriteStrHeader(len(b)))
	p.emit(b)
}

func (p *messagePacker) emit(b []byte) {
	if p.err != nil {
		return
	}
	if _, err := p.w.Write(b); err != nil {
		p.err = err
	}
}

func (p *messagePacker) PackBin(b []byte) {
	for _, part := range [][]byte{p.m.WriteBinHeader(len(b)), b} {
		p.emit(part)
	}
}
''')])
SEARCH='''	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
'''
def imports(f,drop): return (f,f'	"{drop}"\n','')
refactor('search-helper',[('sortedmap.go',SEARCH,'	i := t.find(key)\n',1),('sortedmap.go','''func (t sortedMapValue) append(''','''func (t sortedMapValue) find(key string) int {
	return sort.Search(len(t), func(i int) bool {
		return !(t[i].Key() < key)
	})
}

func (t sortedMapValue) append(''')])
refactor('search-binary',[('sparselist.go',SEARCH,'	i := t.lower(key)\n',1),('sparselist.go','''func (t sparseListValue) append(''','''func (t sparseListValue) lower(key int) int {
	lo, hi := 0, len(t)
	for lo < hi {
		mid := int(uint(lo+hi) >> 1)
		if t[mid].Key() < key {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo
}

func (t sparseListValue) append(''')])
refactor('search-linear',[('immutablemap.go',SEARCH,'	i := t.lower(key)\n',1),('immutablemap.go','''func (t immutableMapValue) append(''','''func (t immutableMapValue) lower(key string) int {
	for i, e := range t {
		if e.Key() >= key {
			return i
		}
	}
	return len(t)
}

func (t immutableMapValue) append(''')])
refactor('keyed-early-return',[('sortedmap.go','''	if i == n {
		return Null
	} else if t[i].Key() == key {
		return t[i].Value()
	} else {
		return Null
	}
''','''	if i < n && t[i].Key() == key {
		return t[i].Value()
	}
	return Null
'''),('sparselist.go','''	if i == n {
		return t.append(n, MutableItem(key, value))
	} else if t[i].Key() == key {
		return t.replaceAt(i, n, MutableItem(key, value))
	} else {
		return t.insertAt(i, n, MutableItem(key, value))
	}
''','''	item := MutableItem(key, value)
	switch {
	case i == n:
		return t.append(n, item)
	case t[i].Key() != key:
		return t.insertAt(i, n, item)
	}
	return t.replaceAt(i, n, item)
'''),('immutablemap.go','''	if i == n {
		return t
	} else if t[i].Key() == key {
		return t.removeAt(i, n)
	} else {
		return t
	}
''','''	if i == n || t[i].Key() != key {
		return t
	}
	return t.removeAt(i, n)
''')])
refactor('keyed-one-insert',[('sortedmap.go','''	if i == 0 {
		dst := make([]MapEntry, n+1)
		copy(dst[1:], t)
		dst[0] = entry
		return sortedMapValue(dst)
	} else if i+1 == n {
		return append(t[:i], entry, t[i])
	} else {
		dst := make([]MapEntry, n+1)
		copy(dst, t[:i])
		dst[i] = entry
		copy(dst[i+1:], t[i:])
		return sortedMapValue(dst)
	}
''','''	dst := make([]MapEntry, 0, n+1)
	dst = append(dst, t[:i]...)
	dst = append(dst, entry)
	return sortedMapValue(append(dst, t[i:]...))
'''),('immutablemap.go','''func (t immutableMapValue) removeAt(''','''func spliceEntries(t []MapEntry, i, cnt int) immutableMapValue {
	dst := make([]MapEntry, len(t)-cnt)
	copy(dst[copy(dst, t[:i]):], t[i+cnt:])
	return immutableMapValue(dst)
}

func (t immutableMapValue) removeAt(''')])
refactor('keyed-select-count',[('sortedmap.go','''	var list []Value
	for j := i; j < n && t[j].Key() == key; j++ {
		list = append(list, t[j].Value())
	}
	return list
''','''	end := i
	for end < n && t[end].Key() == key {
		end++
	}
	if end == i {
		return nil
	}
	list := make([]Value, end-i)
	for j := range list {
		list[j] = t[i+j].Value()
	}
	return list
''')])
refactor('sort-slice',[('sparselist.go','''	if !sorted {
		sort.Sort(sortableItems(items))
	}
''','''	if sorted {
		return sparseListValue(items)
	}
	sort.Slice(items, func(a, b int) bool { return items[a].Key() < items[b].Key() })
''')])
refactor('readstream-for-cond',[('utils.go','''	for {

		value, err := doParse(unpacker, parser)
		if err != nil {
			return err
		}

		out <- value
	}

	return nil
''','''	value, err := doParse(unpacker, parser)
	for err == nil {
		out <- value
		value, err = doParse(unpacker, parser)
	}
	return err
''')])
refactor('writestream-range',[('utils.go','''	for p.Error() == nil {
		val, ok := <- valueC

		if !ok {
			break
		}

		if val != nil {
			val.Pack(p)
		} else {
			p.PackNil()
		}

	}

	return p.Error()
''','''	for val := range valueC {
		packOrNil(p, val)
		if err := p.Error(); err != nil {
			return err
		}
	}
	return nil
'''),('utils.go','''func Hex(val Value)''','''func packOrNil(p Packer, val Value) {
	if val == nil {
		p.PackNil()
		return
	}
	val.Pack(p)
}

func Hex(val Value)'''),('utils.go','''	if val != nil {
		val.Pack(p)
	} else {
		p.PackNil()
	}
	return p.Error()
''','''	packOrNil(p, val)
	return p.Error()
''')])
refactor('hash-order',[('utils.go','''	data, err := Pack(val)
	if err != nil {
		return nil, nil, err
	}
	h := hash.New()
	h.Write(data)
	return data, h.Sum(nil), nil
''','''	h := hash.New()
	data, err := Pack(val)
	if err == nil {
		half := len(data) / 2
		h.Write(data[:half])
		h.Write(data[half:])
		digest := h.Sum(make([]byte, 0, h.Size()))
		return data, digest, nil
	}
	return nil, nil, err
''')])
refactor('seal-append',[('utils.go','''	encrypted := box.Seal(nonce[:], unencrypted, &nonce, recipientPublicKey, senderPrivateKey)
	return encrypted, nil
''','''	message := make([]byte, 0, len(nonce)+len(unencrypted)+box.Overhead)
	message = append(message, nonce[:]...)
	return box.Seal(message, unencrypted, &nonce, recipientPublicKey, senderPrivateKey), nil
''')])
refactor('unseal-split',[('utils.go','''	copy(decryptNonce[:], encrypted[:24])
	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
	if !ok {
		return nil, ErrUnseal
	}
	return Unpack(decrypted, false)
''','''	n := copy(decryptNonce[:], encrypted)
	if decrypted, ok := box.Open(nil, encrypted[n:], &decryptNonce, senderPublicKey, recipientPrivateKey); ok {
		return Parse(MessageUnpacker(decrypted, false), MessageParser())
	}
	return nil, ErrUnseal
''')])
refactor('list-while',[('unpack.go','''	var list []Value
	for i := 0; i < cnt; i++ {
		el, err := doParseNested(unpacker, parser, depth+1)
		if err != nil {
			return nil, err
		}
		list = append(list, el)
	}
''','''	list := []Value{}
	for len(list) < cnt {
		el, err := doParseNested(unpacker, parser, depth+1)
		if err == nil {
			list = append(list, el)
			continue
		}
		return nil, err
	}
''')])
refactor('map-pair-helper',[('unpack.go','''		key, err := doParseNested(unpacker, parser, depth+1)
		if err != nil {
			return nil, err
		}
		value, err := doParseNested(unpacker, parser, depth+1)
		if err != nil {
			return nil, err
		}

		if key''','''		key, value, err := doParsePair(unpacker, parser, depth+1)
		if err != nil {
			return nil, err
		}

		if key'''),('unpack.go','''func isIndexKey(''','''func doParsePair(unpacker Unpacker, parser Parser, depth int) (Value, Value, error) {
	key, err := doParseNested(unpacker, parser, depth)
	if err != nil {
		return nil, nil, err
	}
	value, err := doParseNested(unpacker, parser, depth)
	if err != nil {
		return nil, nil, err
	}
	return key, value, nil
}

func isIndexKey(''')])
refactor('map-sorted-early',[('unpack.go','''				if i > 0 && prevListKey > k {
					sorted = false
				}
''','''				sorted = sorted && (i == 0 || k >= prevListKey)
'''),('unpack.go','''			if i > 0 && prevMapKey > k {
				sorted = false
			}
''','''			sorted = sorted && (i == 0 || k >= prevMapKey)
''')])
refactor('bufread-merge',[('msgpack.go','''	b := p.buf[p.off:]
	p.off += n

	if p.copy {
		c := make([]byte, n)
		copy(c, b)
		return c, nil
	} else {
		return b[:n], nil
	}
''','''	end := p.off + n
	b := p.buf[p.off:end:end]
	p.off = end
	if p.copy {
		b = append([]byte(nil), b...)
	}
	return b, nil
''')])
refactor('bufnext-guard',[('msgpack.go','''	remaining := p.remaining()
	if remaining <= 0 {
		return EOF, nil
	}
	b := p.buf[p.off:]
	format, len := nextFormat(b[0])
	n := 1 + len
	if n > remaining {
		return UnexpectedEOF, nil
	} else {
		p.off += n
		return format, b[:n]
	}
''','''	start := p.off
	if start >= len(p.buf) {
		return EOF, nil
	}
	format, extra := nextFormat(p.buf[start])
	end := start + 1 + extra
	if end <= len(p.buf) {
		p.off = end
		return format, p.buf[start:end]
	}
	return UnexpectedEOF, nil
''')])
refactor('doparse-reorder',[('unpack.go','''	case NilToken:
		return Null, nil
	case BoolToken:
		return Boolean(parser.ParseBool(header)), parser.Error()
	case LongToken:
		return Long(parser.ParseLong(header)), parser.Error()
''','''	case LongToken:
		n := parser.ParseLong(header)
		if err := parser.Error(); err != nil {
			return nil, err
		}
		return Long(n), nil
	case BoolToken:
		b := parser.ParseBool(header)
		return Boolean(b), parser.Error()
	case NilToken:
		return Null, nil
''')])
refactor('body-helper',[('unpack.go','''		raw, err := unpacker.Read(size)
		if err != nil {
			return nil, err
		}
		return Raw(raw, false), nil
	case StrHeader:
		len := parser.ParseStr(header)
		if parser.Error() != nil {
			return nil, parser.Error()
		}
		str, err := unpacker.Read(len)
		if err != nil {
			return nil, err
		}
		return Utf8(string(str)), nil
''','''		raw, err := readBody(unpacker, size)
		if err != nil {
			return nil, err
		}
		return Raw(raw, false), nil
	case StrHeader:
		size := parser.ParseStr(header)
		if err := parser.Error(); err != nil {
			return nil, err
		}
		str, err := readBody(unpacker, size)
		if err == nil {
			return Str(string(str)), nil
		}
		return nil, err
'''),('unpack.go','''func isIndexKey(''','''func readBody(unpacker Unpacker, n int) ([]byte, error) {
	return unpacker.Read(n)
}

func isIndexKey(''')])
refactor('packstr-early',[('msgpack.go','''	b := []byte(str)
	if p.err == nil {
		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
	}
	if p.err == nil {
		_, p.err = p.w.Write(b)
	}
''','''	if p.err != nil {
		return
	}
	if _, p.err = p.w.Write(p.m.WriteStrHeader(len(str))); p.err != nil {
		return
	}
	_, p.err = io.WriteString(p.w, str)
''')])
refactor('stream-copyn',[('msgpack.go','''	b, err = io.ReadAll(io.LimitReader(p.r, int64(n)))
	if len(b) != n {
		if err == nil {
			err = io.ErrUnexpectedEOF
		}
	}
	return b, err
''','''	var buf bytes.Buffer
	m, err := io.CopyN(&buf, p.r, int64(n))
	if m == int64(n) {
		return buf.Bytes(), nil
	}
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return buf.Bytes(), err
'''),('msgpack.go','''import (
''','''import (
	"bytes"
''')])
refactor('stream-next-buf',[('msgpack.go','''	m, err := io.ReadFull(p.r, p.buf[1:n])
	if m != len {
		p.fail(err)
		return UnexpectedEOF, nil
	}

	return format, p.buf[0:n]
''','''	if len > 0 {
		if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
			p.fail(err)
			return UnexpectedEOF, nil
		}
	}
	return format, p.buf[:n]
''')])
refactor('struct-tag-extract',[('struct.go','''		repeated := false
		if rep, ok := field.Tag.Lookup("repeated"); ok {
			repeated, _ = strconv.ParseBool(rep)
		}
''','''		repeated := isRepeated(field)
'''),('struct.go','''type sortableFields []*Field
''','''func isRepeated(field reflect.StructField) bool {
	b, err := strconv.ParseBool(field.Tag.Get("repeated"))
	return err == nil && b
}

type sortableFields []*Field
''')])
refactor('struct-sort-slice',[('struct.go','''	sort.Sort(sortableFields(sortedFields))
''','''	sort.SliceStable(sortedFields, func(a, b int) bool {
		return sortedFields[a].Tag < sortedFields[b].Tag
	})
''')])
refactor('struct-sorted-from-map',[('struct.go','''	sort.Sort(sortableFields(sortedFields))
''','''	sortedFields = sortedFields[:0]
	for _, f := range fields {
		sortedFields = append(sortedFields, f)
	}
	sort.Sort(sortableFields(sortedFields))
''')])
refactor('struct-one-field-literal',[('struct.go','''			f := &Field{
				FieldNum:   j,
				FieldType:  field.Type,
				FieldName:  field.Name,
				Array:      array,
				Struct:     false,
				Repeated:   repeated,
				Tag:        tag,
			}
			fields[tag] = f
''','''			f := newField(j, field, tag)
			f.Array, f.Repeated = array, repeated
			fields[tag] = f
'''),('struct.go','''type sortableFields []*Field
''','''func newField(num int, sf reflect.StructField, tag int) *Field {
	f := new(Field)
	f.FieldNum = num
	f.FieldType = sf.Type
	f.FieldName = sf.Name
	f.Tag = tag
	return f
}

type sortableFields []*Field
''')])
refactor('struct-pack-two-pass',[('struct.go','''	var list []*packingField
	cnt := 0
	for _, field := range schema.SortedFields {
		f := &packingField {
			field: field,
			fieldValue: value.Field(field.FieldNum),
		}
		if !isNilField(f.fieldValue) {
			list = append(list, f)
			if f.field.Array && f.field.Repeated {
				cnt += f.fieldValue.Len()
			} else {
				cnt++
			}
		}
	}
	p.PackMap(cnt)
	for _, entry := range list {
''','''	list := make([]*packingField, 0, len(schema.SortedFields))
	for _, field := range schema.SortedFields {
		v := value.Field(field.FieldNum)
		if isNilField(v) {
			continue
		}
		list = append(list, &packingField{field, v})
	}
	total := 0
	for i := range list {
		n := 1
		if list[i].field.Repeated && list[i].field.Array {
			n = list[i].fieldValue.Len()
		}
		total += n
	}
	p.PackMap(total)
	for _, entry := range list {
''')])
refactor('struct-pack-switch',[('struct.go','''		if entry.field.Array {

			cnt := entry.fieldValue.Len()
			if !entry.field.Repeated {
				p.PackLong(int64(entry.field.Tag))
				p.PackList(cnt)
			}

			for i := 0; i < cnt; i++ {
				if entry.field.Repeated {
					p.PackLong(int64(entry.field.Tag))
				}
				elem := entry.fieldValue.Index(i)
				if err := doReflectPackValue(p, elem, entry); err != nil {
					return err
				}
			}
		} else {
''','''		tag := int64(entry.field.Tag)
		if entry.field.Array && entry.field.Repeated {
			for i := 0; i < entry.fieldValue.Len(); i++ {
				p.PackLong(tag)
				if err := doReflectPackValue(p, entry.fieldValue.Index(i), entry); err != nil {
					return err
				}
			}
		} else if entry.field.Array {
			p.PackLong(tag)
			p.PackList(entry.fieldValue.Len())
			for i := 0; i < entry.fieldValue.Len(); i++ {
				if err := doReflectPackValue(p, entry.fieldValue.Index(i), entry); err != nil {
					return err
				}
			}
		} else {
''')])
refactor('struct-parse-continue',[('struct.go','''		if field, ok := schema.Fields[tag]; ok {
			fieldValue := value.Field(field.FieldNum)
''','''		field, found := schema.Fields[tag]
		if !found {
			return errors.Errorf("unknown tag %d on position %d", tag, i)
		}
		if field != nil {
			fieldValue := value.Field(field.FieldNum)
''')])
refactor('struct-load-or-store',[('struct.go','''		schemaCache.Store(classPtr, schema)
		return schema, nil
''','''		actual, _ := schemaCache.LoadOrStore(classPtr, schema)
		return actual.(*Schema), nil
''')])
refactor('struct-mutex-cache',[('struct.go','''	if val, ok := schemaCache.Load(classPtr); ok {
		return val.(*Schema), nil
	} else if schema, err := doReflectSchema(classPtr, parents); err != nil {
		return nil, err
	} else {
		schemaCache.Store(classPtr, schema)
		return schema, nil
	}
''','''	schemaLock.RLock()
	known, ok := schemas[classPtr]
	schemaLock.RUnlock()
	if ok {
		return known, nil
	}
	schema, err := doReflectSchema(classPtr, parents)
	if err != nil {
		return nil, err
	}
	schemaLock.Lock()
	schemas[classPtr] = schema
	schemaLock.Unlock()
	return schema, nil
'''),('struct.go','''var schemaCache sync.Map
''','''var schemaLock sync.RWMutex
var schemas = map[reflect.Type]*Schema{}
''')])
refactor('struct-field-vars',[('struct.go','''					var elemValue reflect.Value
					if field.Struct {
						ptrType := field.FieldType.Elem()
						elemValue := reflect.New(ptrType).Elem()
						structValue := reflect.New(ptrType.Elem())
						elemValue.Set(structValue)
						sliceValue = reflect.Append(sliceValue, elemValue)
						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
''','''					var elemValue reflect.Value
					if field.Struct {
						structValue := reflect.New(field.FieldType.Elem().Elem())
						sliceValue = reflect.Append(sliceValue, structValue)
						err := ParseStruct(unpacker, parser, structValue.Elem(), field.FieldSchema)
''')])
refactor('struct-elem-late-append',[('struct.go','''						arrayValue = reflect.Append(arrayValue, reflect.Zero(field.FieldType.Elem()))
						elemValue := arrayValue.Index(j)
''','''						elemValue := reflect.New(field.FieldType.Elem()).Elem()
'''),('struct.go','''								return errors.Errorf("fail to set value %v", err)
							}
						}
					}
					fieldValue.Set(arrayValue)
''','''								return errors.Errorf("fail to set value %v", err)
							}
						}
						arrayValue = reflect.Append(arrayValue, elemValue)
					}
					fieldValue.Set(arrayValue)
''')])
refactor('struct-set-invert',[('struct.go','''	if fieldValue.CanSet() {
		if !val.Class().AssignableTo(fieldType) {
			return errors.Errorf("expected value type %v, actual %v", fieldType, val.Class())
		}
		value := reflect.ValueOf(val)
		fieldValue.Set(value)
		return nil
	} else {
		return errors.Errorf("can not set value '%v' to field %v", val, fieldType)
	}
''','''	if !fieldValue.CanSet() {
		return errors.Errorf("can not set value '%v' to field %v", val, fieldType)
	}
	if class := val.Class(); !class.AssignableTo(fieldType) {
		return errors.Errorf("expected value type %v, actual %v", fieldType, class)
	}
	fieldValue.Set(reflect.ValueOf(val))
	return nil
''')])
refactor('struct-unpack-flat',[('struct.go','''	if schema, err := reflectSchema(classPtr); err != nil {
		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
	} else {
		valuePtr := reflect.ValueOf(obj)
		if valuePtr.IsNil() {
			return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
		}
		value := valuePtr.Elem()
		return ParseStruct(unpacker, parser, value, schema)
	}
''','''	schema, err := reflectSchema(classPtr)
	if err != nil {
		return errors.Wrapf(err, "error on reflect schema for '%v'", classPtr)
	}
	valuePtr := reflect.ValueOf(obj)
	if valuePtr.IsNil() {
		return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
	}
	return ParseStruct(unpacker, parser, valuePtr.Elem(), schema)
''')])
refactor('mapof-sorted-keys',[(f,'''	entries := make([]MapEntry, len(src))
	var i int
	for key, value := range src {
		entries[i] = %s(key, value)
		i++
	}
	t := %s(entries)
	sort.Sort(t)
	return t
'''%(e,t),'''	keys := make([]string, 0, len(src))
	for key := range src {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	entries := make([]MapEntry, len(keys))
	for i, key := range keys {
		entries[i] = %s(key, src[key])
	}
	return %s(entries)
'''%(e,t)) for f,e,t in (('immutablemap.go','ImmutableEntry','immutableMapValue'),('sortedmap.go','MutableEntry','sortedMapValue'))])
refactor('mapof-append',[(f,'''	entries := make([]MapEntry, len(src))
	var i int
	for key, value := range src {
		entries[i] = %s(key, value)
		i++
	}
	t := %s(entries)
	sort.Sort(t)
	return t
'''%(e,t),'''	var entries []MapEntry
	for key, value := range src {
		entries = append(entries, %s(key, value))
	}
	return %s(entries, false)
'''%(e,c)) for f,e,t,c in (('immutablemap.go','ImmutableEntry','immutableMapValue','ImmutableMap'),('sortedmap.go','MutableEntry','sortedMapValue','SortedMap'))])
refactor('mapof-sort-slice',[(f,'''		i++
	}
	t := %s(entries)
	sort.Sort(t)
	return t
'''%(t),'''		i++
	}
	sort.Slice(entries, func(a, b int) bool {
		return entries[a].Key() < entries[b].Key()
	})
	return %s(entries)
'''%(t)) for f,t in (('immutablemap.go','immutableMapValue'),('sortedmap.go','sortedMapValue'))])
refactor('mapof-helper',[(f,'''	entries := make([]MapEntry, len(src))
	var i int
	for key, value := range src {
		entries[i] = %s(key, value)
		i++
	}
	t := %s(entries)
	sort.Sort(t)
	return t
'''%(e,t),'''	t := %s(entriesOf(src, %s))
	sort.Sort(t)
	return t
'''%(t,e)) for f,e,t in (('immutablemap.go','ImmutableEntry','immutableMapValue'),('sortedmap.go','MutableEntry','sortedMapValue'))]+[('sortedmap.go','''func EmptyMutableMap() Map {''','''func entriesOf(src map[string]Value, entry func(string, Value) MapEntry) []MapEntry {
	entries := make([]MapEntry, 0, len(src))
	for key, value := range src {
		entries = append(entries, entry(key, value))
	}
	return entries
}

func EmptyMutableMap() Map {''')])
refactor('pack-pool-buffer',[('utils.go','''	if err != nil {
		return nil, nil, err
	}
	h := hash.New()
	h.Write(data)
	return data, h.Sum(nil), nil
''','''	if err != nil {
		return nil, nil, err
	}
	digest := hash.New()
	if _, err := digest.Write(data); err != nil {
		return nil, nil, err
	}
	sum := make([]byte, 0, digest.Size())
	return data, digest.Sum(sum), nil
''')])
refactor('num-hexprefix-hasprefix',[('number.go','''	if len(s) >= 1 && s[0] == '-' {
		s = s[1:]
	}
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
''','''	s = strings.TrimPrefix(s, "-")
	return strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X")
''')])
refactor('num-parsehex-helper',[('number.go','''	neg := false
	if len(s) >= 1 && s[0] == '-' {
		s = s[1:]
		neg = true
	}
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]  // 0x
	}
	exp := int32(0)
''','''	neg, s := cutSign(s)
	if hasHexPrefix(s) {
		s = s[2:]  // 0x
	}
	exp := int32(0)
'''),('number.go','''func parseExp(s string) (int32, error) {
	neg := false
	if len(s) >= 1 && s[0] == '-' {
		s = s[1:]
		neg = true
	}
''','''func cutSign(s string) (bool, string) {
	if len(s) == 0 || s[0] != '-' {
		return false, s
	}
	return true, s[1:]
}

func parseExp(s string) (int32, error) {
	neg, s := cutSign(s)
''')])
refactor('num-parse-contains',[('number.go','''	if strings.IndexByte(str, '.') != -1 {
		double, err := strconv.ParseFloat(str, 64)
		if err == nil {
			return Double(double)
		}
		return Nan
	}
''','''	if strings.Contains(str, ".") {
		double, err := strconv.ParseFloat(str, 64)
		if err != nil {
			return Nan
		}
		return Double(double)
	}
'''),('number.go','''	long, err := strconv.ParseInt(str, 10, 64)
	if err == nil {
		return Long(long)
	} else {
		double, err := strconv.ParseFloat(str, 64)
		if err == nil {
			return Double(double)
		}
	}

	return Nan
''','''	if long, err := strconv.ParseInt(str, 10, 64); err == nil {
		return Long(long)
	}
	double, err := strconv.ParseFloat(str, 64)
	if err != nil {
		return Nan
	}
	return Double(double)
''')])
refactor('num-parse-switch',[('number.go','''	if len(str) == 0 {
		return Long(0)
	}

	if str == "null" {
		return Zero
	}

	if str == "nan" {
		return Nan
	}
''','''	switch str {
	case "", "null":
		return Zero
	case "nan":
		return Nan
	}
''')])
refactor('num-parsehex-cut',[('number.go','''	expIdx := strings.IndexByte(s, DecimalExpDelim)
	if expIdx != -1 {
		var err error
		exp, err = parseExp(s[expIdx+1:])
		if err != nil {
			return nil, err
		}
		s = s[:expIdx]
	}
''','''	digits, tail, found := strings.Cut(s, DecimalExpDelimStr)
	if found {
		var err error
		if exp, err = parseExp(tail); err != nil {
			return nil, err
		}
	}
	s = digits
''')])
refactor('num-formatexp-loop',[('number.go','''	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(exp))
	var slice []byte
	for i := 0; i < len(buf); i++ {
		if buf[i] != 0 {
			slice = buf[i:]
			break
		}
	}
	return s + hex.EncodeToString(slice)
''','''	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(exp))
	i := 0
	for i < len(buf)-1 && buf[i] == 0 {
		i++
	}
	return s + hex.EncodeToString(buf[i:])
''')])
refactor('num-formatexp-big',[('number.go','''	var buf [4]byte
	binary.BigEndian.PutUint32(buf[:], uint32(exp))
	var slice []byte
	for i := 0; i < len(buf); i++ {
		if buf[i] != 0 {
			slice = buf[i:]
			break
		}
	}
	return s + hex.EncodeToString(slice)
''','''	abs := uint32(exp)
	var slice []byte
	for shift := 24; shift >= 0; shift -= 8 {
		b := byte(abs >> uint(shift))
		if b != 0 || len(slice) > 0 {
			slice = append(slice, b)
		}
	}
	return s + hex.EncodeToString(slice)
''')])
refactor('num-parseexp-shift',[('number.go','''	var buf [4]byte
	if len(bytes) > len(buf) {
		return 0, strconv.ErrRange
	}
	copy(buf[len(buf)-len(bytes):], bytes)
	val := int32(binary.BigEndian.Uint32(buf[:]))
	if neg {
		val = -val
	}
	return val, nil
''','''	if len(bytes) > 4 {
		return 0, strconv.ErrRange
	}
	acc := uint32(0)
	for _, b := range bytes {
		acc = acc<<8 | uint32(b)
	}
	if neg {
		return -int32(acc), nil
	}
	return int32(acc), nil
''')])
refactor('num-format-shared',[('number.go','''func formatBigInt(val *big.Int) string {
	s := hex.EncodeToString(val.Bytes())
	if s == "" {
		s = "0"
	}
	if val.Sign() >= 0 {
		return "0x" + s
	} else {
		return "-0x" + s
	}
}
''','''func formatBigInt(val *big.Int) string {
	return withSign(val, hexDigits(val))
}

func hexDigits(val *big.Int) string {
	if val.Sign() == 0 {
		return "0"
	}
	return hex.EncodeToString(val.Bytes())
}

func withSign(val *big.Int, s string) string {
	if val.Sign() < 0 {
		return "-0x" + s
	}
	return "0x" + s
}
'''),('number.go','''	val := dec.Coefficient()
	s := hex.EncodeToString(val.Bytes())
	if s == "" {
		s = "0"
	}
	if exp != 0 {
		s = s + DecimalExpDelimStr + formatExp(exp)
	}
	if val.Sign() >= 0 {
		return "0x" + s
	} else {
		return "-0x" + s
	}
''','''	val := dec.Coefficient()
	s := hexDigits(val)
	if exp != 0 {
		s += DecimalExpDelimStr + formatExp(exp)
	}
	return withSign(val, s)
''')])
refactor('num-sprintf',[('number.go','''	s := hex.EncodeToString(val.Bytes())
	if s == "" {
		s = "0"
	}
	if val.Sign() >= 0 {
		return "0x" + s
	} else {
		return "-0x" + s
	}
}

func formatDecimal''','''	s := "0"
	if b := val.Bytes(); len(b) != 0 {
		s = hex.EncodeToString(b)
	}
	prefix := "0x"
	if val.Sign() == -1 {
		prefix = "-0x"
	}
	return prefix + s
}

func formatDecimal''')])
refactor('num-double-json',[('number.go','''	d := float64(n)
	if math.IsNaN(d) || math.IsInf(d, 0) {
		out.WriteString("null")
	} else {
		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
	}
''','''	out.WriteString(n.jsonText())
'''),('number.go','''	d := float64(n)
	if math.IsNaN(d) || math.IsInf(d, 0) {
		return []byte("null"), nil
	} else {
		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
	}
}
''','''	return []byte(n.jsonText()), nil
}

func (n doubleNumber) jsonText() string {
	d := float64(n)
	switch {
	case math.IsNaN(d):
		return "null"
	case d > math.MaxFloat64, d < -math.MaxFloat64:
		return "null"
	}
	return strconv.FormatFloat(d, 'f', -1, 64)
}
''')])
refactor('num-json-append',[('number.go','''	out.WriteRune(jsonQuote)
	out.WriteString(formatBigInt(n.Int))
	out.WriteRune(jsonQuote)
''','''	out.WriteByte('"')
	out.WriteString(n.String())
	out.WriteByte('"')
'''),('number.go','''	s := formatBigInt(n.Int)
	return []byte(strconv.Quote(s)), nil
''','''	var out strings.Builder
	n.PrintJSON(&out)
	return []byte(out.String()), nil
''')])
refactor('str-parse-cutprefix',[('string.go','''	if strings.HasPrefix(str, Base64Prefix) {
		raw, err := base64.RawStdEncoding.DecodeString(str[len(Base64Prefix):])
		if err == nil {
			return Raw(raw, false)
		}
	}
	return Utf8(str)
''','''	text, ok := strings.CutPrefix(str, Base64Prefix)
	if !ok {
		return Utf8(str)
	}
	raw, err := base64.RawStdEncoding.DecodeString(text)
	if err != nil {
		return Utf8(str)
	}
	return Raw(raw, false)
''')])
refactor('str-raw-append',[('string.go','''	if copyFlag {
		dst := make([]byte, len(val))
		copy(dst, val)
		return rawString(dst)
	} else {
		return rawString(val)
	}
''','''	if copyFlag {
		val = append([]byte{}, val...)
	}
	return rawString(val)
''')])
refactor('str-raw-json',[('string.go','''	var out strings.Builder
	out.WriteRune(jsonQuote)
	out.WriteString(Base64Prefix)
	out.WriteString(base64.RawStdEncoding.EncodeToString(s))
	out.WriteRune(jsonQuote)
	return []byte(out.String()), nil
''','''	return []byte(`"` + s.String() + `"`), nil
''')])
refactor('str-quote-marshal',[('string.go','''	return strings.TrimSuffix(out.String(), "\\n")
''','''	text := out.String()
	if n := len(text); n > 0 && text[n-1] == '\\n' {
		text = text[:n-1]
	}
	return text
''')])
refactor('str-equal-swap',[('string.go','''	if val == nil || val.Kind() != STRING {
		return false
	}
	return string(s) == val.(String).Utf8()
''','''	other, ok := val.(String)
	return ok && other.Utf8() == s.Utf8()
''')])
refactor('num-conv-floor-trunc',[('number.go','''	return decimal.Decimal(n).IntPart()''','''	return decimal.Decimal(n).Truncate(0).IntPart()'''),('number.go','''	f := new(big.Float)
	f.SetInt(n.Int)
	d, _ := f.Float64()
	return d''','''	d, _ := new(big.Float).SetInt(n.Int).Float64()
	return d'''),('number.go','''	f := new(big.Float)
	f.SetFloat64(d)
	z, _ := f.Int(nil)
	return z''','''	z := new(big.Int)
	big.NewFloat(d).Int(z)
	return z''')])
refactor('num-conv-small-fast',[('number.go','''	return decimal.NewFromBigInt(n.Int, 0)''','''	if n.Int.IsInt64() {
		return decimal.NewFromInt(n.Int.Int64())
	}
	return decimal.NewFromBigInt(n.Int, 0)'''),('number.go','''	f := new(big.Float)
	f.SetInt(n.Int)
	d, _ := f.Float64()
	return d''','''	if n.Int.IsInt64() {
		return float64(n.Int.Int64())
	}
	f := new(big.Float).SetInt(n.Int)
	d, _ := f.Float64()
	return d'''),('number.go','''	f := new(big.Float)
	f.SetFloat64(d)
	z, _ := f.Int(nil)
	return z''','''	if math.Abs(d) < 1<<62 {
		return big.NewInt(int64(d))
	}
	f := new(big.Float)
	f.SetFloat64(d)
	z, _ := f.Int(nil)
	return z''')])
refactor('num-conv-helpers',[('number.go','''func (n longNumber) Double() float64 {
	return float64(n)
}
''','''func finite(d float64) bool {
	return !math.IsNaN(d) && !math.IsInf(d, 0)
}

func (n longNumber) Double() float64 {
	return float64(n)
}
'''),('number.go','''	d := float64(n)
	if math.IsNaN(d) || math.IsInf(d, 0) {
		return big.NewInt(0)
	}
	f :=''','''	d := float64(n)
	if !finite(d) {
		return new(big.Int)
	}
	f :='''),('number.go','''	if math.IsNaN(d) || math.IsInf(d, 0) {
		return decimal.NewFromInt(0)
	}
	return decimal.NewFromFloat(d)''','''	if finite(d) {
		return decimal.NewFromFloat(d)
	}
	return decimal.Zero'''),('number.go','''	if math.IsNaN(d) {
		return 0
	} else {
		return int64(d)
	}''','''	if d != d {
		return 0
	}
	return int64(d)''')])
refactor('num-arith-helpers',[('number.go','''	z := new(big.Int)
	z.Add(n.Int, other.BigInt())
	return BigInt(z)''','''	return BigInt(new(big.Int).Add(n.Int, other.BigInt()))'''),('number.go','''	z := new(big.Int)
	z.Sub(n.Int, other.BigInt())
	return BigInt(z)''','''	z := new(big.Int).Neg(other.BigInt())
	return BigInt(z.Add(n.Int, z))'''),('number.go','''	if math.IsNaN(left) || math.IsNaN(right) {
		return Nan
	}
	return Double(left + right)''','''	return Double(left + right)''')])

refactor('equal-swapped-operands',[('immutablelist.go',"!Equal(item, o.GetAt(i))","!Equal(o.GetAt(i), item)"),
 ('solidlist.go',"!Equal(item, o.GetAt(i))","!Equal(o.GetAt(i), item)"),
 ('sparselist.go',"!item.Equal(other[i])","!other[i].Equal(item)"),
 ('listitem.go',"return t.key == e.Key() && Equal(t.value, e.Value())","return e.Key() == t.key && Equal(e.Value(), t.value)",1)])

# ---- getters, printing and shared helpers
refactor('getters-shared',[('immutablelist.go','''	value := t.GetAt(index)
	if value != nil && value != Null {
		if value.Kind() == BOOL {
			return value.(Bool)
		}
		return ParseBoolean(value.String())
	}
	return False
}''','''	return boolOf(t.GetAt(index))
}'''),('immutablelist.go','''	value := t.GetAt(index)
	if value != nil && value != Null {
		if value.Kind() == NUMBER {
			return value.(Number)
		}
		return ParseNumber(value.String())
	}
	return Zero
}''','''	return numberOf(t.GetAt(index))
}'''),('immutablelist.go','''	value := t.GetAt(index)
	if value != nil && value != Null {
		if value.Kind() == STRING {
			return value.(String)
		}
		return ParseString(value.String())
	}
	return EmptyString
}''','''	return stringOf(t.GetAt(index))
}'''),('immutablemap.go','''	value := t.Get(key)
	if value != nil && value != Null {
		if value.Kind() == BOOL {
			return value.(Bool)
		}
		return ParseBoolean(value.String())
	}
	return False
}''','''	return boolOf(t.Get(key))
}'''),('immutablemap.go','''	value := t.Get(key)
	if value != nil && value != Null {
		if value.Kind() == NUMBER {
			return value.(Number)
		}
		return ParseNumber(value.String())
	}
	return Zero
}''','''	return numberOf(t.Get(key))
}'''),('immutablemap.go','''	value := t.Get(key)
	if value != nil && value != Null {
		if value.Kind() == STRING {
			return value.(String)
		}
		return ParseString(value.String())
	}
	return EmptyString
}''','''	return stringOf(t.Get(key))
}'''),('utils.go','func Equal(left Value, right Value) bool {','''func missing(v Value) bool {
	return v == nil || v == Null
}

func boolOf(v Value) Bool {
	if missing(v) {
		return False
	}
	if b, ok := v.(Bool); ok && v.Kind() == BOOL {
		return b
	}
	return ParseBoolean(v.String())
}

func numberOf(v Value) Number {
	if missing(v) {
		return Zero
	}
	switch v.Kind() {
	case NUMBER:
		return v.(Number)
	default:
		return ParseNumber(v.String())
	}
}

func stringOf(v Value) String {
	if missing(v) {
		return EmptyString
	}
	if v.Kind() != STRING {
		return ParseString(v.String())
	}
	return v.(String)
}

func Equal(left Value, right Value) bool {''')])
refactor('getlist-early',[('solidlist.go','''	value := t.GetAt(index)
	if value != nil && value != Null {
		switch value.Kind() {
		case LIST:
			return value.(List)
		case MAP:
			return MutableList(value.(Map).Values())
		}
	}
	return EmptyImmutableList()
}''','''	value := t.GetAt(index)
	if value == nil || value == Null {
		return EmptyImmutableList()
	}
	if value.Kind() == LIST {
		return value.(List)
	}
	if value.Kind() != MAP {
		return EmptyImmutableList()
	}
	m := value.(Map)
	return MutableList(m.Values())
}''')])
refactor('json-separator',[('immutablelist.go','''	for i, e := range t {
		if i != 0 {
			out.WriteRune(',')
		}
		if e != nil {
			e.PrintJSON(out)
		} else {
			out.WriteString("null")
		}
	}
	out.WriteRune(']')''','''	sep := ""
	for _, e := range t {
		out.WriteString(sep)
		sep = ","
		if e == nil {
			out.WriteString("null")
			continue
		}
		e.PrintJSON(out)
	}
	out.WriteByte(']')''')])
refactor('json-first-flag',[('immutablemap.go','''	for i, entry := range t {
		if i != 0 {
			out.WriteRune(',')
		}
		out.WriteString(quoteJSON(entry.Key()))

		out.WriteString(": ")
		value := entry.Value()
		if value != nil {
			value.PrintJSON(out)
		} else {
			out.WriteString("null")
		}
	}
	out.WriteRune('}')''','''	first := true
	for _, entry := range t {
		if first {
			first = false
		} else {
			out.WriteRune(',')
		}
		printEntry(out, entry)
	}
	out.WriteRune('}')'''),('immutablemap.go','func (t immutableMapValue) MarshalJSON()','''func printEntry(out *strings.Builder, entry MapEntry) {
	out.WriteString(quoteJSON(entry.Key()) + ": ")
	if value := entry.Value(); value != nil {
		value.PrintJSON(out)
	} else {
		out.WriteString("null")
	}
}

func (t immutableMapValue) MarshalJSON()''')])
refactor('marshal-via-string',[('immutablelist.go','''	var out strings.Builder
	t.PrintJSON(&out)
	return []byte(out.String()), nil''','''	return []byte(t.String()), nil'''),('immutablemap.go','''	var out strings.Builder
	t.PrintJSON(&out)
	return []byte(out.String()), nil''','''	return []byte(Jsonify(t)), nil'''),('immutablelist.go','''	buf := bytes.Buffer{}
	p := MessagePacker(&buf)
	t.Pack(p)
	return buf.Bytes(), p.Error()''','''	return Pack(t)'''),('immutablelist.go','''	"bytes"
''','')])
refactor('pack-via-write',[('utils.go','''	buf := bytes.Buffer{}
	p := MessagePacker(&buf)
	if val != nil {
		val.Pack(p)
	} else {
		p.PackNil()
	}
	return buf.Bytes(), p.Error()''','''	var buf bytes.Buffer
	err := Write(&buf, val)
	return buf.Bytes(), err''')])
refactor('pack-nil-to-null',[('utils.go','''	p := MessagePacker(w)
	if val != nil {
		val.Pack(p)
	} else {
		p.PackNil()
	}
	return p.Error()''','''	if val == nil {
		val = Null
	}
	p := MessagePacker(w)
	val.Pack(p)
	return p.Error()''')])
refactor('pack-elem-helper',[('immutablelist.go','''	for _, e := range t {
		if e != nil {
			e.Pack(p)
		} else {
			p.PackNil()
		}
	}''','''	for _, e := range t {
		packOrNil(p, e)
	}'''),('immutablemap.go','''		p.PackStr(entry.Key())
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}''','''		p.PackStr(entry.Key())
		packOrNil(p, entry.Value())'''),('sparselist.go','''		p.PackLong(int64(entry.Key()))
		value := entry.Value()
		if value != nil {
			value.Pack(p)
		} else {
			p.PackNil()
		}''','''		p.PackLong(int64(entry.Key()))
		packOrNil(p, entry.Value())'''),('utils.go','func Equal(left Value, right Value) bool {','''func packOrNil(p Packer, v Value) {
	if v == nil {
		p.PackNil()
		return
	}
	v.Pack(p)
}

func Equal(left Value, right Value) bool {''')])
refactor('values-prealloc',[('immutablemap.go','''	var keys []string
	for _, entry := range t {
		keys = append(keys, entry.Key())
	}
	return keys''','''	keys := make([]string, 0, len(t))
	for i := range t {
		keys = append(keys, t[i].Key())
	}
	return keys'''),('immutablemap.go','''	var values []Value
	for _, entry := range t {
		values = append(values, entry.Value())
	}
	return values''','''	values := make([]Value, len(t))
	for i, entry := range t {
		values[i] = entry.Value()
	}
	return values''')])
refactor('hashmap-sized',[('immutablemap.go','''	cache := make(map[string]Value)
	for _, entry := range t {
		cache[entry.Key()] = entry.Value()
	}
	return cache''','''	n := len(t)
	m := make(map[string]Value, n)
	for i := 0; i < n; i++ {
		e := t[i]
		m[e.Key()] = e.Value()
	}
	return m''')])
refactor('copyof-make',[('immutablemap.go','''	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
	for i, entry := range t {
		t[i] = ImmutableEntry(entry.Key(), entry.Value())
	}
	return t''','''	src := other.Entries()
	dst := make([]MapEntry, 0, len(src))
	for _, entry := range src {
		dst = append(dst, ImmutableEntry(entry.Key(), entry.Value()))
	}
	return immutableMapValue(dst)''')])
refactor('map-find',[('immutablemap.go','''	n := len(t)
	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
	if i == n {
		return Null
	} else if t[i].Key() == key {
		return t[i].Value()
	} else {
		return Null
	}
}''','''	if i, ok := t.find(key); ok {
		return t[i].Value()
	}
	return Null
}

func (t immutableMapValue) find(key string) (int, bool) {
	i := sort.Search(len(t), func(j int) bool { return !(t[j].Key() < key) })
	return i, i < len(t) && t[i].Key() == key
}'''),('immutablemap.go','''	n := len(t)
	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
	if i == n {
		return t
	} else if t[i].Key() == key {
		return t.removeAt(i, n)
	} else {
		return t
	}
}''','''	i, ok := t.find(key)
	if !ok {
		return t
	}
	return t.removeAt(i, len(t))
}'''),('immutablemap.go','''	n := len(t)
	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
	if i == n {
		return t.append(n, ImmutableEntry(key, value))
	} else if t[i].Key() == key {
		return t.replaceAt(i, n, ImmutableEntry(key, value))
	} else {
		return t.insertAt(i, n, ImmutableEntry(key, value))
	}
}''','''	n, entry := len(t), ImmutableEntry(key, value)
	i, found := t.find(key)
	switch {
	case found:
		return t.replaceAt(i, n, entry)
	case i < n:
		return t.insertAt(i, n, entry)
	default:
		return t.append(n, entry)
	}
}''')])
refactor('map-select-while',[('immutablemap.go','''	var list []Value
	for j := i; j < n && t[j].Key() == key; j++ {
		list = append(list, t[j].Value())
	}
	return list''','''	var list []Value
	for _, e := range t[i:] {
		if e.Key() != key {
			break
		}
		list = append(list, e.Value())
	}
	return list''')])
refactor('map-deleteall-upper',[('immutablemap.go','''	cnt := 0
	for j := i; j < n && t[j].Key() == key; j++ {
		cnt++
	}
	return t.removeSliceAt(i, cnt, n)''','''	j := i
	for j < n && t[j].Key() == key {
		j++
	}
	return t.removeSliceAt(i, j-i, n)''')])
refactor('map-insertslice-append',[('immutablemap.go','''	if i == 0 {
		m := len(slice)
		dst := make([]MapEntry, m+n)
		copy(dst, slice)
		copy(dst[m:], t)
		return immutableMapValue(dst)
	} else {
		m := len(slice)
		dst := make([]MapEntry, n+m)
		copy(dst, t[:i])
		copy(dst[i:], slice)
		copy(dst[i+m:], t[i:])
		return immutableMapValue(dst)
	}''','''	dst := make([]MapEntry, 0, n+len(slice))
	dst = append(dst, t[:i]...)
	dst = append(dst, slice...)
	dst = append(dst, t[i:]...)
	return immutableMapValue(dst)''')])
refactor('unknown-share',[('unknown.go','''	var out strings.Builder
	out.WriteRune(jsonQuote)
	out.WriteString(UnknownPrefix)
	out.WriteString(Base64Prefix)
	out.WriteString(base64.RawStdEncoding.EncodeToString(v))
	out.WriteRune(jsonQuote)
	return []byte(out.String()), nil''','''	var out strings.Builder
	v.PrintJSON(&out)
	return []byte(out.String()), nil'''),('unknown.go','''	var out strings.Builder
	out.WriteString(UnknownPrefix)
	out.WriteString(Base64Prefix)
	out.WriteString(base64.RawStdEncoding.EncodeToString(v))
	return out.String()''','''	return UnknownPrefix + Base64Prefix + base64.RawStdEncoding.EncodeToString(v)'''),('unknown.go','''		return bytes.Compare(x.Native(), o.Native()) == 0''','''		return bytes.Equal(o.Native(), x)''')])
refactor('bool-literals',[('bool.go','''	return strconv.FormatBool(bool(b))''','''	if b {
		return "true"
	}
	return "false"'''),('bool.go','''	o := val.(Bool)
	return b.Boolean() == o.Boolean()''','''	o, ok := val.(Bool)
	return ok && o.Boolean() == bool(b)''')])
refactor('kind-table',[('api.go','''	switch k {
	case INVALID:
		return "INVALID"
	case NULL:
		return "NULL"
	case BOOL:
		return "BOOL"
	case NUMBER:
		return "NUMBER"
	case STRING:
		return "STRING"
	case LIST:
		return "LIST"
	case MAP:
		return "MAP"
	case UNKNOWN:
		return "UNKNOWN"
	default:
		return "DEFAULT"
	}''','''	names := [...]string{"INVALID", "NULL", "BOOL", "NUMBER", "STRING", "LIST", "MAP", "UNKNOWN"}
	if k < 0 || int(k) >= len(names) {
		return "DEFAULT"
	}
	return names[k]''')])
refactor('sparse-len-max',[('sparselist.go','''		maxKey := t[n-1].Key()
		if maxKey < 0 {
			return 0
		}
		return maxKey+1''','''		if next := t[n-1].Key() + 1; next > 0 {
			return next
		}
		return 0'''),('sparselist.go','''	n := len(t)
	if n == 0 {
		return nil
	}
	maxKey := t[n-1].Key()
	if maxKey < 0 {
		return nil
	}
	values := make([]Value, maxKey+1)

	for _, item := range t {
		if item.Key() >= 0 {
			values[item.Key()] = item.Value()
		}
	}
	return values''','''	size := t.Len()
	if size == 0 {
		return nil
	}
	values := make([]Value, size)
	for i := len(t) - 1; i >= 0; i-- {
		key := t[i].Key()
		if key < 0 {
			break
		}
		values[key] = t[i].Value()
	}
	return values''')])
refactor('sparse-append-max',[('sparselist.go','''	n := len(t)
	if n == 0 {
		return t.append(n, MutableItem(FirstIndexKey, value))
	} else {
		maxKey := t[n-1].Key()
		return t.append(n, MutableItem(maxKey+1, value))
	}''','''	n, next := len(t), FirstIndexKey
	if n > 0 {
		next = t[n-1].Key() + 1
	}
	return t.append(n, MutableItem(next, value))''')])
refactor('sparse-of-index',[('sparselist.go','''	var items []ListItem
	for key, val := range list {
		if val != nil {
			items = append(items, MutableItem(key, val))
		}
	}
	sort.Sort(sortableItems(items))
	return sparseListValue(items)''','''	items := make([]ListItem, 0, len(list))
	for i := range list {
		if list[i] == nil {
			continue
		}
		items = append(items, MutableItem(i, list[i]))
	}
	// already in the order of the indexes
	return sparseListValue(items)''')])
L3=['solidlist.go','immutablelist.go']
refactor('list-edit-mix',
 [(f,'''		if e != nil {
			e.Pack(p)
		} else {
			p.PackNil()
		}
''','''		if e == nil {
			p.PackNil()
			continue
		}
		e.Pack(p)
''') for f in L3]+
 [(f,'''	if i >= 0 && i < len(t) {
		return t[i]
	}
	return Null
''','''	if i < 0 || len(t) <= i {
		return Null
	}
	return t[i]
''') for f in L3]+
 [('solidlist.go','''	n := len(t)
	if i >= 0 {
		if i == n {
			return t.append(n, val)
		} else {
			return t.putAt(i, n, val)
		}
	}
	return t
''','''	if i < 0 {
		return t
	}
	if n := len(t); i != n {
		return t.putAt(i, n, val)
	}
	return t.append(i, val)
''')]+
 [('solidlist.go','''	} else {
		m := len(slice)
		dst := make([]Value, n+m)
		copy(dst, t[:i])
		copy(dst[i:], slice)
		copy(dst[i+m:], t[i:])
		return solidListValue(dst)
	}
''','''	}
	dst := make([]Value, 0, n+len(slice))
	dst = append(dst, t[:i]...)
	dst = append(dst, slice...)
	dst = append(dst, t[i:n]...)
	return solidListValue(dst)
'''),('solidlist.go','''	} else if i+1 == n {
		return t[:i]
	} else  {
		return append(t[:i], t[i+1:]...)
	}
''','''	}
	rest := t[i+1:]
	copy(t[i:], rest)
	return t[:n-1]
'''),('solidlist.go','''	list = CopyOf(list)
	for k := range list {
		if list[k] == nil {
			list[k] = Null
		}
	}

	if i >= 0 {
		n := len(t)
		if i < n {
			return t.insertSliceAt(i, n, list)
		} else {
			return t.appendSlice(n, list)
		}
	}
	return t
''','''	if i < 0 {
		return t
	}

	filled := make([]Value, 0, len(list))
	for _, val := range list {
		if val == nil {
			val = Null
		}
		filled = append(filled, val)
	}

	if n := len(t); i < n {
		return t.insertSliceAt(i, n, filled)
	} else {
		return t.appendSlice(n, filled)
	}
''')])
refactor('immlist-edit-mix',[('immutablelist.go','''	} else if i+1 == n {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[n-1] = val
		dst[n] = t[i]
		return immutableListValue(dst)
	} else {
		dst := make([]Value, n+1)
		copy(dst, t[:i])
		dst[i] = val
		copy(dst[i+1:], t[i:])
		return immutableListValue(dst)
	}
''','''	}
	dst := make([]Value, n+1)
	copy(dst, t[:i])
	copy(dst[i+1:], t[i:])
	dst[i] = val
	return immutableListValue(dst)
'''),('immutablelist.go','''	if i == 0 {
		return immutableListValue(t.copyOf(t[1:]))
	} else if i+1 == n {
		return immutableListValue(t.copyOf(t[:i]))
	} else {
		dst := make([]Value, n-1)
		copy(dst, t[:i])
		copy(dst[i:], t[i+1:])
		return immutableListValue(dst)
	}
''','''	dst := make([]Value, 0, n-1)
	for j, val := range t {
		if j != i {
			dst = append(dst, val)
		}
	}
	return immutableListValue(dst)
'''),('immutablelist.go','''	if n == 0 {
		return immutableListValue([]Value{val})
	} else {
		dst := make([]Value, n+1)
		copy(dst, t)
		dst[n] = val
		return immutableListValue(dst)
	}
''','''	return immutableListValue(append(append(make([]Value, 0, n+1), t...), val))
'''),('immutablelist.go','''	val := t.GetAt(i)
	if val != Null {
		return []Value {val}
	}
	return []Value {}
''','''	var out = []Value {}
	if val := t.GetAt(i); val != Null {
		out = append(out, val)
	}
	return out
''')])
FIND='''	i := sort.Search(n, func(i int) bool {
		return t[i].Key() >= key
	})
'''
for f,ty,kt,wrap in (('sortedmap.go','sortedMapValue','string','Map'),('immutablemap.go','immutableMapValue','string','Map'),('sparselist.go','sparseListValue','int','List')):
    refactor('find-all-'+f[:-3],[(f,FIND,'''	i := t.lowerBound(key)
''',1),(f,'func (t %s) Swap('%ty if kt=='string' else 'func (t sparseListValue) Kind(','''// index of the first entry whose key is not less than key
func (t %s) lowerBound(key %s) int {
	return sort.Search(len(t), func(i int) bool {
		return !(t[i].Key() < key)
	})
}

func (t %s) '''%(ty,kt,ty)+('Swap(' if kt=='string' else 'Kind('))])
refactor('sortedmap-edit-mix',[('sortedmap.go','''	if i == n {
		return t.append(n, MutableEntry(key, value))
	} else if t[i].Key() == key {
		return t.replaceAt(i, n, MutableEntry(key, value))
	} else {
		return t.insertAt(i, n, MutableEntry(key, value))
	}
''','''	entry := MutableEntry(key, value)
	switch {
	case i >= n:
		return t.append(n, entry)
	case t[i].Key() != key:
		return t.insertAt(i, n, entry)
	}
	return t.replaceAt(i, n, entry)
'''),('sortedmap.go','''	if i >= 0 && i < n && t[i].Key() == key {
		return t[i].Update(updater)
	} else {
		return false
	}
''','''	return i < n && t[i].Key() == key && t[i].Update(updater)
'''),('sortedmap.go','''	if i == n {
		return t
	} else if t[i].Key() == key {
		return t.removeAt(i, n)
	} else {
		return t
	}
''','''	if i < n && t[i].Key() == key {
		return t.removeAt(i, n)
	}
	return t
'''),('sortedmap.go','''	if i == n {
		return Null
	} else if t[i].Key() == key {
		return t[i].Value()
	} else {
		return Null
	}
''','''	if i != n {
		if entry := t[i]; entry.Key() == key {
			return entry.Value()
		}
	}
	return Null
'''),('sortedmap.go','''	cnt := 0
	for j := i; j < n && t[j].Key() == key; j++ {
		cnt++
	}
	return t.removeSliceAt(i, cnt, n)
''','''	end := i
	for end < n && t[end].Key() == key {
		end++
	}
	return t.removeSliceAt(i, end-i, n)
'''),('sortedmap.go','''	var slice []MapEntry
	for _, value := range list {
		slice = append(slice, &mutableMapEntry{key, value})
	}
''','''	slice := make([]MapEntry, 0, len(list))
	for i := range list {
		slice = append(slice, MutableEntry(key, list[i]))
	}
'''),('sortedmap.go','''	dst := make([]MapEntry, n)
	copy(dst, t)
	dst[i] = entry
	return sortedMapValue(dst)
''','''	dst := mapEntryCopyOf(t)
	dst[i] = entry
	return sortedMapValue(dst)
''')])
refactor('sparse-edit-mix',[('sparselist.go','''	} else if i+1 == n {
		if AllowFastAppends {  // fast appends are permitted w/o memory allocation
			return append(t[:i], item, t[i])
		} else {
			dst := make([]ListItem, n+1)
			copy(dst, t[:i])
			dst[n-1] = item
			dst[n] = t[i]
			return sparseListValue(dst)
		}
	} else {
''','''	} else if i+1 == n && AllowFastAppends {  // fast appends are permitted w/o memory allocation
		return append(t[:i], item, t[i])
	} else {
'''),('sparselist.go','''		m := len(slice)
		dst := make([]ListItem, n+m)
		copy(dst, t[:i])
		copy(dst[i:], slice)
		copy(dst[i+m:], t[i:])
		return sparseListValue(dst)
''','''		dst := make([]ListItem, n+len(slice))
		at := copy(dst, t[:i])
		at += copy(dst[at:], slice)
		copy(dst[at:], t[i:])
		return sparseListValue(dst)
'''),('sparselist.go','''	} else if AllowFastAppends  {
		return append(t[:i], t[i+cnt:]...)
	} else {
		dst := make([]ListItem, n-cnt)
		copy(dst, t[:i])
		copy(dst[i:], t[i+cnt:])
		return sparseListValue(dst)
	}
''','''	}
	head, tail := t[:i], t[i+cnt:]
	if !AllowFastAppends {
		head = append(make(sparseListValue, 0, n-cnt), head...)
	}
	return append(head, tail...)
'''),('sparselist.go','''	if i == n {
		return t.append(n, MutableItem(key, value))
	} else if t[i].Key() == key {
		return t.replaceAt(i, n, MutableItem(key, value))
	} else {
		return t.insertAt(i, n, MutableItem(key, value))
	}
''','''	item := MutableItem(key, value)
	if i < n && t[i].Key() == key {
		return t.replaceAt(i, n, item)
	}
	if i < n {
		return t.insertAt(i, n, item)
	}
	return t.append(n, item)
''')])
refactor('immap-edit-mix',[('immutablemap.go','''	} else if i+1 == n {
		dst := make([]MapEntry, n+1)
		copy(dst, t[:i])
		dst[n-1] = entry
		dst[n] = t[i]
		return immutableMapValue(dst)
	} else {
''','''	} else {
'''),('immutablemap.go','''	if i == 0 {
		m := len(slice)
		dst := make([]MapEntry, m+n)
		copy(dst, slice)
		copy(dst[m:], t)
		return immutableMapValue(dst)
	} else {
		m := len(slice)
		dst := make([]MapEntry, n+m)
		copy(dst, t[:i])
		copy(dst[i:], slice)
		copy(dst[i+m:], t[i:])
		return immutableMapValue(dst)
	}
''','''	var dst immutableMapValue
	dst = append(dst, t[:i]...)
	dst = append(dst, slice...)
	return append(dst, t[i:]...)
'''),('immutablemap.go','''		return immutableMapValue(mapEntryCopyOf(t[cnt:]))
''','''		return t[cnt:]
'''),('immutablemap.go','''	slice := make([]MapEntry, len(list))
	for i, value := range list {
		slice[i] = &immutableMapEntry{key, value}
	}
''','''	var slice []MapEntry
	for _, value := range list {
		slice = append(slice, ImmutableEntry(key, value))
	}
''')])
refactor('entries-mix',[('mapentry.go','''	newValue := updater.Update(t.value)
	if newValue == nil {
		newValue = Null
	}
	t.value = newValue
	return true
''','''	if t.value = updater.Update(t.value); t.value == nil {
		t.value = Null
	}
	return true
'''),('mapentry.go','''	return t.key == e.Key() && Equal(t.value, e.Value())
''','''	if e.Key() != t.key {
		return false
	}
	return Equal(t.value, e.Value())
''',1),('listitem.go','''	return t.key == e.Key() && Equal(t.value, e.Value())
''','''	sameKey := t.key == e.Key()
	return sameKey && Equal(t.value, e.Value())
''',1),('listitem.go','''	newValue := updater.Update(t.value)
	if newValue == nil {
		newValue = Null
	}
	t.value = newValue
	return true
''','''	next := updater.Update(t.Value())
	if next != nil {
		t.value = next
	} else {
		t.value = Null
	}
	return true
'''),('mapentry.go','''	n := len(src)
	dst := make([]MapEntry, n)
	copy(dst, src)
	return dst
''','''	return append(make([]MapEntry, 0, len(src)), src...)
''')])
refactor('utils-mix',[('utils.go','''	buf := bytes.Buffer{}
	p := MessagePacker(&buf)
	if val != nil {
		val.Pack(p)
	} else {
		p.PackNil()
	}
	return buf.Bytes(), p.Error()
''','''	var buf bytes.Buffer
	err := Write(&buf, val)
	return buf.Bytes(), err
'''),('utils.go','''	p := MessagePacker(w)
	if val != nil {
		val.Pack(p)
	} else {
		p.PackNil()
	}
	return p.Error()
''','''	p := MessagePacker(w)
	packOrNil(p, val)
	return p.Error()
'''),('utils.go','''		if val != nil {
			val.Pack(p)
		} else {
			p.PackNil()
		}

	}
''','''		packOrNil(p, val)
	}
'''),('utils.go','''func Hex(val Value) string {''','''func packOrNil(p Packer, val Value) {
	if val == nil {
		val = Null
	}
	val.Pack(p)
}

func Hex(val Value) string {'''),('utils.go','''	n := len(src)
	dst := make([]Value, n)
	copy(dst, src)
	return dst
''','''	dst := make([]Value, len(src))
	for i := range src {
		dst[i] = src[i]
	}
	return dst
'''),('utils.go','''	var out strings.Builder
	if val != nil {
		val.PrintJSON(&out)
	} else {
		out.WriteString("null")
	}
	return out.String()
''','''	if val == nil {
		return "null"
	}
	var out strings.Builder
	val.PrintJSON(&out)
	return out.String()
'''),('utils.go','''	copy(decryptNonce[:], encrypted[:24])
	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
	if !ok {
		return nil, ErrUnseal
	}
	return Unpack(decrypted, false)
''','''	n := copy(decryptNonce[:], encrypted)
	if decrypted, ok := box.Open(nil, encrypted[n:], &decryptNonce, senderPublicKey, recipientPrivateKey); ok {
		return Unpack(decrypted, false)
	}
	return nil, ErrUnseal
''')])
refactor('struct-mix',[('struct.go','''		if !isNilField(f.fieldValue) {
			list = append(list, f)
			if f.field.Array && f.field.Repeated {
				cnt += f.fieldValue.Len()
			} else {
				cnt++
			}
		}
''','''		if isNilField(f.fieldValue) {
			continue
		}
		list = append(list, f)
		entries := 1
		if field.Array && field.Repeated {
			entries = f.fieldValue.Len()
		}
		cnt += entries
'''),('struct.go','''			cnt := entry.fieldValue.Len()
			if !entry.field.Repeated {
				p.PackLong(int64(entry.field.Tag))
				p.PackList(cnt)
			}

			for i := 0; i < cnt; i++ {
				if entry.field.Repeated {
					p.PackLong(int64(entry.field.Tag))
				}
				elem := entry.fieldValue.Index(i)
				if err := doReflectPackValue(p, elem, entry); err != nil {
					return err
				}
			}
''','''			tag, cnt := int64(entry.field.Tag), entry.fieldValue.Len()
			if entry.field.Repeated {
				for i := 0; i < cnt; i++ {
					p.PackLong(tag)
					if err := doReflectPackValue(p, entry.fieldValue.Index(i), entry); err != nil {
						return err
					}
				}
				continue
			}
			p.PackLong(tag)
			p.PackList(cnt)
			for i := 0; i < cnt; i++ {
				if err := doReflectPackValue(p, entry.fieldValue.Index(i), entry); err != nil {
					return err
				}
			}
'''),('struct.go','''	if fieldValue.CanSet() {
		if !val.Class().AssignableTo(fieldType) {
			return errors.Errorf("expected value type %v, actual %v", fieldType, val.Class())
		}
		value := reflect.ValueOf(val)
		fieldValue.Set(value)
		return nil
	} else {
		return errors.Errorf("can not set value '%v' to field %v", val, fieldType)
	}
''','''	if !fieldValue.CanSet() {
		return errors.Errorf("can not set value '%v' to field %v", val, fieldType)
	}
	if class := val.Class(); !class.AssignableTo(fieldType) {
		return errors.Errorf("expected value type %v, actual %v", fieldType, class)
	}
	fieldValue.Set(reflect.ValueOf(val))
	return nil
'''),('struct.go','''					arrayValue := reflect.MakeSlice(field.FieldType, 0, 0)

					for j := 0; j < listCnt; j++ {
						arrayValue = reflect.Append(arrayValue, reflect.Zero(field.FieldType.Elem()))
						elemValue := arrayValue.Index(j)
''','''					arrayValue := reflect.MakeSlice(field.FieldType, 0, 0)
					elemType := field.FieldType.Elem()

					for j := 0; j < listCnt; j++ {
						arrayValue = reflect.Append(arrayValue, reflect.Zero(elemType))
						elemValue := arrayValue.Index(j)
''')])
refactor('unpack-mix',[('unpack.go','''	case EOF:
		if depth > 0 {
			// the input ended inside of a list or map
			return nil, unpackerError(unpacker, io.ErrUnexpectedEOF)
		}
		return nil, unpackerError(unpacker, io.EOF)
	case UnexpectedEOF:
		return nil, unpackerError(unpacker, io.ErrUnexpectedEOF)
''','''	case EOF, UnexpectedEOF:
		eof := io.ErrUnexpectedEOF
		if format == EOF && depth == 0 {
			eof = io.EOF
		}
		return nil, unpackerError(unpacker, eof)
'''),('unpack.go','''		size := parser.ParseBin(header)
		if parser.Error() != nil {
			return nil, parser.Error()
		}
		raw, err := unpacker.Read(size)
		if err != nil {
			return nil, err
		}
		return Raw(raw, false), nil
''','''		size := parser.ParseBin(header)
		if err := parser.Error(); err != nil {
			return nil, err
		}
		if raw, err := unpacker.Read(size); err == nil {
			return Raw(raw, false), nil
		} else {
			return nil, err
		}
'''),('unpack.go','''		return doParseExt(append([]byte(nil), tagAndData...))
''','''		own := make([]byte, len(tagAndData))
		copy(own, tagAndData)
		return doParseExt(own)
'''),('unpack.go','''	switch xtag {

	case BigIntExt:
		v, err := UnpackBigInt(ext)
		return BigInt(v), err
	case DecimalExt:
		v, err := UnpackDecimal(ext)
		return Decimal(v), err

	}
	return Unknown(tagAndData), nil
''','''	if xtag == BigIntExt {
		v, err := UnpackBigInt(ext)
		return BigInt(v), err
	}
	if xtag == DecimalExt {
		v, err := UnpackDecimal(ext)
		return Decimal(v), err
	}
	return Unknown(tagAndData), nil
'''),('unpack.go','''		// first element
		if i == 0 {
			if isIndexKey(key) {
				// try to build sparse list
				mayBeList = true
			} else {
				mayBeList = false
			}
		}
''','''		index := isIndexKey(key)
		if i == 0 {
			// try to build sparse list
			mayBeList = index
		}
'''),('unpack.go','''			if isIndexKey(key) {
				k := key''','''			if index {
				k := key'''),('unpack.go','''	num, ok := key.(Number)
	return ok && num.Type() == LONG
''','''	if num, ok := key.(Number); ok {
		return num.Type() == LONG
	}
	return false
''')])
refactor('string-mix',[('string.go','''	var out strings.Builder
	out.WriteRune(jsonQuote)
	out.WriteString(Base64Prefix)
	out.WriteString(base64.RawStdEncoding.EncodeToString(s))
	out.WriteRune(jsonQuote)
	return []byte(out.String()), nil
''','''	return []byte(string(jsonQuote) + s.String() + string(jsonQuote)), nil
'''),('string.go','''	o := val.(String)
	return bytes.Compare(s, o.Raw()) == 0
''','''	return bytes.Equal(val.(String).Raw(), s)
'''),('string.go','''	if copyFlag {
		dst := make([]byte, len(val))
		copy(dst, val)
		return rawString(dst)
	} else {
		return rawString(val)
	}
''','''	if !copyFlag {
		return rawString(val)
	}
	return append(make(rawString, 0, len(val)), val...)
'''),('string.go','''	if strings.HasPrefix(str, Base64Prefix) {
		raw, err := base64.RawStdEncoding.DecodeString(str[len(Base64Prefix):])
		if err == nil {
			return Raw(raw, false)
		}
	}
	return Utf8(str)
''','''	if !strings.HasPrefix(str, Base64Prefix) {
		return Utf8(str)
	}
	encoded := strings.TrimPrefix(str, Base64Prefix)
	if raw, err := base64.RawStdEncoding.DecodeString(encoded); err == nil {
		return Raw(raw, false)
	}
	return Utf8(str)
''')])
refactor('readstream-bufio',[('utils.go','''	defer close(out)

	unpacker := MessageReader(r)
''','''	defer close(out)

	// the stream belongs to this call, so reading ahead is fine
	unpacker := MessageReader(bufio.NewReader(r))
'''),('utils.go','''import (
	"bytes"''','''import (
	"bufio"
	"bytes"''')])
refactor('reader-limited',[('msgpack.go','''	b, err = io.ReadAll(io.LimitReader(p.r, int64(n)))
''','''	limited := &io.LimitedReader{R: p.r, N: int64(n)}
	b, err = io.ReadAll(limited)
''')])
