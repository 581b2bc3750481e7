package c11

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"sort"

	"github.com/bifurcation/mint/syntax"
	"pgregory.net/rapid"
)

// A kind describes a generated type; it is the reference for what its encoding is.
type kind struct {
	k      string // uint varint array slice struct ptr opt map omit marsh valid vstruct
	size   int    // uint, varint: bytes; array: length
	head   string // slice, map: "1".."4", "none", "varint"
	min    int
	max    int
	elem   *kind
	key    *kind
	fields []*kind
}

func (k *kind) String() string {
	switch k.k {
	case "uint", "varint":
		return fmt.Sprintf("%s%d", k.k, 8*k.size)
	case "array":
		return fmt.Sprintf("[%d]%v", k.size, k.elem)
	case "slice":
		return fmt.Sprintf("[]%v{%s}", k.elem, k.tag())
	case "map":
		return fmt.Sprintf("map[%v]%v{%s}", k.key, k.elem, k.tag())
	case "struct":
		s := "{"
		for _, f := range k.fields {
			s += f.String() + ";"
		}
		return s + "}"
	case "ptr", "opt", "omit":
		return k.k + "(" + k.elem.String() + ")"
	}
	return k.k
}

func (k *kind) tag() string {
	switch k.k {
	case "varint":
		return "varint"
	case "opt":
		return "optional"
	case "omit":
		return "omit"
	case "slice", "map":
		s := "head=" + k.head
		if k.min > 0 {
			s += fmt.Sprintf(",min=%d", k.min)
		}
		if k.max > 0 {
			s += fmt.Sprintf(",max=%d", k.max)
		}
		return s
	}
	return ""
}

// Types with their own encodings.
type odd uint16 // Validator: even values are illegal

func (o odd) ValidForTLS() error {
	if o%2 == 0 {
		return errors.New("even")
	}
	return nil
}

type lowPair struct { // Validator on a struct
	A uint8
	B uint16
}

func (p lowPair) ValidForTLS() error {
	if p.B > 0x8000 {
		return errors.New("B too big")
	}
	return nil
}

type custom struct{ V []byte } // Marshaler: length, then the bytes complemented

func (c custom) MarshalTLS() ([]byte, error) {
	if len(c.V) > 200 {
		return nil, errors.New("too long")
	}
	b := []byte{byte(len(c.V))}
	for _, x := range c.V {
		b = append(b, ^x)
	}
	return b, nil
}

func (c *custom) UnmarshalTLS(data []byte) (int, error) {
	if len(data) == 0 || len(data) < 1+int(data[0]) || data[0] > 200 {
		return 0, errors.New("short")
	}
	n := int(data[0])
	c.V = []byte{}
	for _, x := range data[1 : 1+n] {
		c.V = append(c.V, ^x)
	}
	return 1 + n, nil
}

var (
	_ syntax.Marshaler   = custom{}
	_ syntax.Unmarshaler = &custom{}
	_ syntax.Validator   = odd(1)
	_ syntax.Validator   = lowPair{}
)

var uintTypes = map[int]reflect.Type{1: reflect.TypeOf(uint8(0)), 2: reflect.TypeOf(uint16(0)), 4: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(uint64(0))}

func (k *kind) typ() reflect.Type {
	switch k.k {
	case "uint", "varint":
		return uintTypes[k.size]
	case "array":
		return reflect.ArrayOf(k.size, k.elem.typ())
	case "slice":
		return reflect.SliceOf(k.elem.typ())
	case "map":
		return reflect.MapOf(k.key.typ(), k.elem.typ())
	case "ptr", "opt":
		return reflect.PointerTo(k.elem.typ())
	case "omit":
		return k.elem.typ()
	case "marsh":
		return reflect.TypeOf(custom{})
	case "valid":
		return reflect.TypeOf(odd(0))
	case "vstruct":
		return reflect.TypeOf(lowPair{})
	case "struct":
		var fs []reflect.StructField
		for i, f := range k.fields {
			sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.typ()}
			if tag := f.tag(); tag != "" {
				sf.Tag = reflect.StructTag(`tls:"` + tag + `"`)
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	panic("HARNESS-ERROR kind " + k.k)
}

// plain kinds need no tag, so they may be elements.
func genPlain(t *rapid.T, depth int) *kind {
	n := 9
	if depth <= 0 {
		n = 3
	}
	switch rapid.IntRange(0, n).Draw(t, "plain") {
	case 0, 1:
		return &kind{k: "uint", size: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "uint")}
	case 2:
		return &kind{k: "valid"}
	case 3:
		return &kind{k: "marsh"}
	case 4:
		return &kind{k: "vstruct"}
	case 5:
		return &kind{k: "array", size: rapid.IntRange(0, 4).Draw(t, "array len"), elem: genPlain(t, depth-1)}
	case 6:
		return &kind{k: "ptr", elem: genPlainNoPtr(t, depth-1)}
	default:
		return genStruct(t, depth-1)
	}
}

func genPlainNoPtr(t *rapid.T, depth int) *kind {
	k := genPlain(t, depth)
	for k.k == "ptr" {
		k = k.elem
	}
	return k
}

func genStruct(t *rapid.T, depth int) *kind {
	k := &kind{k: "struct"}
	for i := rapid.IntRange(0, 4).Draw(t, "fields"); i > 0; i-- {
		k.fields = append(k.fields, genField(t, depth))
	}
	return k
}

func genHead(t *rapid.T, k *kind) {
	k.head = rapid.SampledFrom([]string{"1", "2", "3", "4", "5", "7", "8", "varint", "none"}).Draw(t, "head")
	if rapid.IntRange(0, 2).Draw(t, "min?") == 0 {
		k.min = rapid.IntRange(1, 8).Draw(t, "min")
	}
	if rapid.IntRange(0, 2).Draw(t, "max?") == 0 {
		k.max = k.min + rapid.IntRange(1, 40).Draw(t, "max")
	}
}

// genKey makes types that can be keys of a map: those without slices, maps and
// pointers. They may encode to nothing.
func genKey(t *rapid.T, depth int) *kind {
	n := 6
	if depth <= 0 {
		n = 2
	}
	switch rapid.IntRange(0, n).Draw(t, "key kind") {
	case 6:
		return &kind{k: "struct"}
	case 0, 1:
		return &kind{k: "uint", size: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "uint")}
	case 2:
		return &kind{k: "valid"}
	case 3:
		return &kind{k: "array", size: rapid.IntRange(0, 3).Draw(t, "array len"), elem: genKey(t, depth-1)}
	}
	k := &kind{k: "struct"}
	for i := rapid.IntRange(0, 3).Draw(t, "fields"); i > 0; i-- {
		if rapid.IntRange(0, 2).Draw(t, "varint") == 0 {
			k.fields = append(k.fields, &kind{k: "varint", size: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "uint")})
		} else {
			k.fields = append(k.fields, genKey(t, depth-1))
		}
	}
	return k
}

func genField(t *rapid.T, depth int) *kind {
	switch rapid.IntRange(0, 9).Draw(t, "field") {
	case 0, 1:
		return &kind{k: "varint", size: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "uint")}
	case 2, 3, 4:
		k := &kind{k: "slice", elem: genPlain(t, depth-1)}
		genHead(t, k)
		return k
	case 5:
		key := rapid.SampledFrom([]*kind{{k: "uint", size: 1}, {k: "uint", size: 2}, {k: "uint", size: 4},
			{k: "array", size: 2, elem: &kind{k: "uint", size: 1}}, {k: "uint", size: 8}, {k: "valid"}, {k: "vstruct"}, nil, nil}).Draw(t, "key")
		if key == nil {
			key = genKey(t, 2)
		}
		k := &kind{k: "map", key: key, elem: genPlain(t, depth-1)}
		if rapid.IntRange(0, 3).Draw(t, "set") == 3 {
			k.elem = &kind{k: "struct"} // a set of keys, with no values
		}
		genHead(t, k)
		return k
	case 6:
		// A tag applies to the elements of an array too, so pointers in an
		// optional array would become optional as well: not generated.
		k := &kind{k: "opt", elem: genPlainNoPtr(t, depth)}
		for e := k.elem; e.k == "array"; e = e.elem {
			for e.elem.k == "ptr" {
				e.elem = e.elem.elem
			}
		}
		return k
	case 7:
		return &kind{k: "omit", elem: genPlain(t, depth)}
	}
	return genPlain(t, depth)
}

// --- values ---

func genUint(t *rapid.T, size int) uint64 {
	max := uint64(1)<<(8*size) - 1
	if size == 8 {
		max = ^uint64(0)
	}
	v := rapid.SampledFrom([]uint64{0, 1, 0x3f, 0x40, 0x3fff, 0x4000, 0x3fffffff, 0x40000000, 1<<62 - 1, 1 << 62, max, max >> 1}).Draw(t, "edge")
	if rapid.Bool().Draw(t, "random") {
		v = rapid.Uint64().Draw(t, "v")
	}
	return v & max
}

func (k *kind) gen(t *rapid.T, v reflect.Value) {
	switch k.k {
	case "uint", "varint":
		v.SetUint(genUint(t, k.size))
	case "array":
		for i := 0; i < k.size; i++ {
			k.elem.gen(t, v.Index(i))
		}
	case "slice":
		n := rapid.IntRange(0, 6).Draw(t, "len")
		if k.elem.k == "uint" {
			n = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 20, 63, 64, 70, 255, 256, 300}).Draw(t, "ulen")
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			if i > 8 {
				s.Index(i).Set(s.Index(i - 8))
				continue
			}
			k.elem.gen(t, s.Index(i))
		}
		v.Set(s)
	case "map":
		m := reflect.MakeMap(v.Type())
		for i := rapid.IntRange(0, 4).Draw(t, "entries"); i > 0; i-- {
			kv, ev := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			k.key.gen(t, kv)
			k.elem.gen(t, ev)
			m.SetMapIndex(kv, ev)
		}
		v.Set(m)
	case "ptr":
		p := reflect.New(v.Type().Elem())
		k.elem.gen(t, p.Elem())
		if rapid.IntRange(0, 15).Draw(t, "nil") == 0 {
			return
		}
		v.Set(p)
	case "opt":
		if rapid.Bool().Draw(t, "present") {
			p := reflect.New(v.Type().Elem())
			k.elem.gen(t, p.Elem())
			v.Set(p)
		}
	case "omit":
		k.elem.gen(t, v)
	case "marsh":
		v.Set(reflect.ValueOf(custom{rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "custom")}))
	case "valid":
		x := genUint(t, 2)
		if rapid.IntRange(0, 15).Draw(t, "valid") != 0 {
			x |= 1
		}
		v.SetUint(x)
	case "vstruct":
		b := genUint(t, 2)
		if rapid.IntRange(0, 15).Draw(t, "valid") != 0 {
			b &= 0x7fff
		}
		v.Set(reflect.ValueOf(lowPair{uint8(genUint(t, 1)), uint16(b)}))
	case "struct":
		for i, f := range k.fields {
			f.gen(t, v.Field(i))
		}
	}
}

var errIllegal = errors.New("illegal value")

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if n-1-i < 8 {
			b[i] = byte(v >> (8 * (n - 1 - i)))
		}
	}
	return b
}

func varint(v uint64) ([]byte, error) {
	switch {
	case v < 1<<6:
		return be(v, 1), nil
	case v < 1<<14:
		return be(v|1<<14, 2), nil
	case v < 1<<30:
		return be(v|2<<30, 4), nil
	case v < 1<<62:
		return be(v|3<<62, 8), nil
	}
	return nil, errIllegal
}

func (k *kind) frame(body []byte) ([]byte, error) {
	if len(body) < k.min || k.max > 0 && len(body) > k.max {
		return nil, errIllegal
	}
	switch k.head {
	case "none":
		return body, nil
	case "varint":
		h, err := varint(uint64(len(body)))
		return append(h, body...), err
	}
	n := int(k.head[0] - '0')
	if n < 8 && bits.Len(uint(len(body))) > 8*n {
		return nil, errIllegal
	}
	return append(be(uint64(len(body)), n), body...), nil
}

// enc is the reference encoder.
func (k *kind) enc(v reflect.Value) ([]byte, error) {
	switch k.k {
	case "uint":
		return be(v.Uint(), k.size), nil
	case "varint":
		return varint(v.Uint())
	case "array":
		var o []byte
		for i := 0; i < k.size; i++ {
			b, err := k.elem.enc(v.Index(i))
			if err != nil {
				return nil, err
			}
			o = append(o, b...)
		}
		return o, nil
	case "slice":
		var o []byte
		for i := 0; i < v.Len(); i++ {
			b, err := k.elem.enc(v.Index(i))
			if err != nil {
				return nil, err
			}
			o = append(o, b...)
		}
		return k.frame(o)
	case "map":
		var es [][2][]byte
		for it := v.MapRange(); it.Next(); {
			a, err := k.key.enc(it.Key())
			if err != nil {
				return nil, err
			}
			b, err := k.elem.enc(it.Value())
			if err != nil {
				return nil, err
			}
			es = append(es, [2][]byte{a, b})
		}
		sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i][0], es[j][0]) < 0 })
		var o []byte
		for _, e := range es {
			o = append(append(o, e[0]...), e[1]...)
		}
		return k.frame(o)
	case "ptr":
		if v.IsNil() {
			return nil, errIllegal
		}
		return k.elem.enc(v.Elem())
	case "opt":
		if v.IsNil() {
			return []byte{0}, nil
		}
		b, err := k.elem.enc(v.Elem())
		return append([]byte{1}, b...), err
	case "omit":
		return nil, nil
	case "marsh":
		return v.Interface().(custom).MarshalTLS()
	case "valid":
		if v.Uint()%2 == 0 {
			return nil, errIllegal
		}
		return be(v.Uint(), 2), nil
	case "vstruct":
		p := v.Interface().(lowPair)
		if p.ValidForTLS() != nil {
			return nil, errIllegal
		}
		return append(be(uint64(p.A), 1), be(uint64(p.B), 2)...), nil
	case "struct":
		var o []byte
		for i, f := range k.fields {
			b, err := f.enc(v.Field(i))
			if err != nil {
				return nil, err
			}
			o = append(o, b...)
		}
		return o, nil
	}
	panic("HARNESS-ERROR " + k.k)
}

type src struct{ b []byte }

func (s *src) n(n int) ([]byte, error) {
	if n < 0 || n > len(s.b) {
		return nil, errIllegal
	}
	o := s.b[:n]
	s.b = s.b[n:]
	return o, nil
}

func dec64(b []byte) (uint64, bool) {
	var v uint64
	for i, x := range b {
		if len(b)-i > 8 && x != 0 {
			return 0, false
		}
		v = v<<8 | uint64(x)
	}
	return v, true
}

func (s *src) varint() (uint64, int, error) {
	if len(s.b) == 0 {
		return 0, 0, errIllegal
	}
	n := 1 << (s.b[0] >> 6)
	b, err := s.n(n)
	if err != nil {
		return 0, 0, err
	}
	v, _ := dec64(b)
	return v & (1<<(8*n-2) - 1), n, nil
}

// errUnclear: the library may accept or refuse.
var errUnclear = errors.New("unclear")

// dec is the reference decoder.
func (k *kind) dec(s *src, v reflect.Value) error {
	switch k.k {
	case "uint":
		b, err := s.n(k.size)
		if err != nil {
			return err
		}
		x, _ := dec64(b)
		v.SetUint(x)
		return nil
	case "varint":
		x, n, err := s.varint()
		if err != nil {
			return err
		}
		if k.size < 8 && x>>(8*k.size) != 0 {
			return errIllegal
		}
		v.SetUint(x)
		if m, _ := varint(x); n != len(m) {
			return errUnclear // not the shortest form
		}
		return nil
	case "array":
		var u error
		for i := 0; i < k.size; i++ {
			if err := k.elem.dec(s, v.Index(i)); err == errUnclear {
				u = err
			} else if err != nil {
				return err
			}
		}
		return u
	case "slice", "map":
		var l uint64
		ok := true
		var u error
		switch k.head {
		case "none":
			l = uint64(len(s.b))
		case "varint":
			var err error
			var n int
			if l, n, err = s.varint(); err != nil {
				return err
			}
			if m, _ := varint(l); n != len(m) {
				u = errUnclear
			}
		default:
			b, err := s.n(int(k.head[0] - '0'))
			if err != nil {
				return err
			}
			l, ok = dec64(b)
		}
		if !ok || l > uint64(len(s.b)) || int(l) < k.min || k.max > 0 && int(l) > k.max {
			return errIllegal
		}
		b, _ := s.n(int(l))
		es := &src{b}
		if k.k == "map" {
			m := reflect.MakeMap(v.Type())
			last := ""
			for len(es.b) > 0 {
				was := len(es.b)
				kv, ev := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				start := es.b
				err := k.key.dec(es, kv)
				if err == errUnclear {
					u = err
				} else if err != nil {
					return err
				}
				kb := string(start[:was-len(es.b)])
				if m.Len() > 0 && kb <= last {
					u = errUnclear // not the canonical order
				}
				last = kb
				if err := k.elem.dec(es, ev); err == errUnclear {
					u = err
				} else if err != nil {
					return err
				}
				m.SetMapIndex(kv, ev)
				if len(es.b) == was {
					return errIllegal
				}
			}
			v.Set(m)
			return u
		}
		o := reflect.MakeSlice(v.Type(), 0, 0)
		for len(es.b) > 0 {
			was := len(es.b)
			ev := reflect.New(v.Type().Elem()).Elem()
			if err := k.elem.dec(es, ev); err == errUnclear {
				u = err
			} else if err != nil {
				return err
			}
			if len(es.b) == was {
				return errIllegal // elements without length cannot fill it
			}
			o = reflect.Append(o, ev)
		}
		v.Set(o)
		return u
	case "ptr":
		p := reflect.New(v.Type().Elem())
		err := k.elem.dec(s, p.Elem())
		v.Set(p)
		return err
	case "opt":
		b, err := s.n(1)
		if err != nil {
			return err
		}
		switch b[0] {
		case 0:
			v.SetZero()
			return nil
		case 1:
			p := reflect.New(v.Type().Elem())
			err := k.elem.dec(s, p.Elem())
			v.Set(p)
			return err
		}
		return errIllegal
	case "omit":
		return nil
	case "marsh":
		var c custom
		n, err := c.UnmarshalTLS(s.b)
		if err != nil {
			return err
		}
		s.b = s.b[n:]
		v.Set(reflect.ValueOf(c))
		return nil
	case "valid":
		b, err := s.n(2)
		if err != nil {
			return err
		}
		x, _ := dec64(b)
		if x%2 == 0 {
			return errIllegal
		}
		v.SetUint(x)
		return nil
	case "vstruct":
		b, err := s.n(3)
		if err != nil {
			return err
		}
		p := lowPair{b[0], uint16(b[1])<<8 | uint16(b[2])}
		if p.ValidForTLS() != nil {
			return errIllegal
		}
		v.Set(reflect.ValueOf(p))
		return nil
	case "struct":
		var u error
		for i, f := range k.fields {
			if err := f.dec(s, v.Field(i)); err == errUnclear {
				u = err
			} else if err != nil {
				return err
			}
		}
		return u
	}
	panic("HARNESS-ERROR " + k.k)
}
