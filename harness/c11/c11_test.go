// Package c11: the presentation-language codec obeys its type description.
package c11

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/bifurcation/mint/syntax"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func norm(v reflect.Value) {
	// nil and empty slices and maps are the same value.
	switch v.Kind() {
	case reflect.Slice:
		if v.CanSet() && v.IsNil() {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
		for i := 0; i < v.Len(); i++ {
			norm(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			norm(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			norm(v.Field(i))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			norm(v.Elem())
		}
	case reflect.Map:
		if v.CanSet() && v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			norm(c)
			v.SetMapIndex(k, c)
		}
	}
}

func clearOmit(k *kind, v reflect.Value) {
	switch k.k {
	case "omit":
		v.SetZero()
	case "struct":
		for i, f := range k.fields {
			clearOmit(f, v.Field(i))
		}
	case "array", "slice":
		for i := 0; i < v.Len(); i++ {
			clearOmit(k.elem, v.Index(i))
		}
	case "ptr", "opt":
		if !v.IsNil() {
			clearOmit(k.elem, v.Elem())
		}
	case "map":
		for _, key := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(key))
			clearOmit(k.elem, c)
			v.SetMapIndex(key, c)
		}
	}
}

func same(a, b reflect.Value) bool {
	norm(a)
	norm(b)
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func complexity(k *kind) int {
	n := 1
	for _, f := range k.fields {
		n += complexity(f)
	}
	if k.elem != nil {
		n += complexity(k.elem)
	}
	return n
}

// Marshal agrees with the reference encoder; Unmarshal inverts it, with and
// without bytes following.
func TestRoundTrip(t *testing.T) {
	h.Check(t, 6000, 120000, func(t *rapid.T) {
		k := genStruct(t, 2)
		v := reflect.New(k.typ()).Elem()
		k.gen(t, v)
		want, werr := k.enc(v)
		got, err := syntax.Marshal(v.Interface())
		if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want) {
			t.Fatalf("%v\nvalue %+v\nMarshal %x, %v\nwant    %x, %v", k, v.Interface(), got, err, want, werr)
		}
		// A pointer to the value encodes the same way.
		if pgot, perr := syntax.Marshal(v.Addr().Interface()); (perr == nil) != (err == nil) || !bytes.Equal(pgot, got) {
			t.Fatalf("%v: Marshal of pointer %x, %v; of value %x, %v", k, pgot, perr, got, err)
		}
		h.Case(err == nil && len(want) > 0 && complexity(k) > 1, "%v = %x", k, want)
		h.Label("legal=%v", err == nil)
		if err != nil {
			return
		}
		clearOmit(k, v)
		for _, tail := range [][]byte{nil, rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "tail")} {
			in := append(append([]byte{}, want...), tail...)
			mine := reflect.New(k.typ())
			s := &src{in}
			werr := k.dec(s, mine.Elem())
			wn := len(in) - len(s.b)
			if len(tail) == 0 && (werr != nil || wn != len(in)) && !selfDelimitingTrouble(k) {
				panic("HARNESS-ERROR reference decoder does not invert the reference encoder: " + k.String())
			}
			keep := append([]byte{}, in...)
			out := reflect.New(k.typ())
			n, err := syntax.Unmarshal(in, out.Interface())
			if !bytes.Equal(in, keep) {
				t.Fatalf("Unmarshal changed its input")
			}
			if werr == errUnclear {
				continue
			}
			if (err == nil) != (werr == nil) || err == nil && (n != wn || !same(out.Elem(), mine.Elem())) {
				t.Fatalf("%v\ninput %x\nUnmarshal %+v, %d, %v\nwant      %+v, %d, %v", k, in, out.Elem().Interface(), n, err, mine.Elem().Interface(), wn, werr)
			}
			if len(tail) == 0 && werr == nil && wn == len(in) && !selfDelimitingTrouble(k) && !emptyElems(k, v) && !same(out.Elem(), v) {
				t.Fatalf("%v: %+v round trips to %+v", k, v.Interface(), out.Elem().Interface())
			}
		}
	})
}

// A vector of elements that encode to nothing loses their number.
func emptyElems(k *kind, v reflect.Value) bool {
	switch k.k {
	case "struct":
		for i, f := range k.fields {
			if emptyElems(f, v.Field(i)) {
				return true
			}
		}
	case "array", "slice":
		for i := 0; i < v.Len(); i++ {
			if b, _ := k.elem.enc(v.Index(i)); len(b) == 0 && k.k == "slice" || emptyElems(k.elem, v.Index(i)) {
				return true
			}
		}
	case "ptr", "opt":
		return !v.IsNil() && emptyElems(k.elem, v.Elem())
	case "map":
		for it := v.MapRange(); it.Next(); {
			a, _ := k.key.enc(it.Key())
			if b, _ := k.elem.enc(it.Value()); len(a)+len(b) == 0 || emptyElems(k.elem, it.Value()) {
				return true
			}
		}
	}
	return false
}

// A headless vector swallows what follows it, so such types need not invert.
func selfDelimitingTrouble(k *kind) bool {
	switch k.k {
	case "slice", "map":
		if k.head == "none" {
			return true
		}
	}
	for _, f := range k.fields {
		if selfDelimitingTrouble(f) {
			return true
		}
	}
	return k.elem != nil && selfDelimitingTrouble(k.elem)
}

// Unmarshal of damaged encodings and arbitrary bytes agrees with the reference
// decoder on acceptance, value and length, and never panics.
func TestDecodeAnything(t *testing.T) {
	h.Check(t, 8000, 160000, func(t *rapid.T) {
		k := genStruct(t, 2)
		var in []byte
		how := rapid.IntRange(0, 4).Draw(t, "how")
		if how == 0 {
			in = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
		} else {
			v := reflect.New(k.typ()).Elem()
			k.gen(t, v)
			b, err := k.enc(v)
			if err != nil {
				b = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
			}
			in = append([]byte{}, b...)
			switch {
			case len(in) == 0:
			case how == 1:
				in = in[:rapid.IntRange(0, len(in)-1).Draw(t, "cut")]
			case how == 2:
				for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0; i-- {
					in[rapid.IntRange(0, min(len(in)-1, 40)).Draw(t, "pos")] = rapid.SampledFrom([]byte{0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff}).Draw(t, "byte")
				}
			case how == 3:
				p := rapid.IntRange(0, min(len(in), 60)).Draw(t, "pos")
				in = append(in[:p:p], append(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "ins"), in[p:]...)...)
			case how == 4:
				p := rapid.IntRange(0, len(in)-1).Draw(t, "pos")
				in = append(in[:p:p], in[p+1:]...)
			}
		}
		mine := reflect.New(k.typ())
		s := &src{in}
		werr := k.dec(s, mine.Elem())
		wn := len(in) - len(s.b)
		keep := append([]byte{}, in...)
		out := reflect.New(k.typ())
		n, err := syntax.Unmarshal(in, out.Interface())
		if !bytes.Equal(in, keep) {
			t.Fatalf("Unmarshal changed its input")
		}
		h.Case(len(k.fields) > 0 && len(in) > 0, "%v <- %x", k, in)
		h.Label("accepted=%v", err == nil)
		if werr == errUnclear {
			h.Label("unclear")
			if err != nil {
				return
			}
		} else if (err == nil) != (werr == nil) {
			t.Fatalf("%v\ninput %x\nUnmarshal %+v, %d, %v\nwant      %+v, %d, %v", k, in, out.Elem().Interface(), n, err, mine.Elem().Interface(), wn, werr)
		}
		if err == nil && (n != wn || !same(out.Elem(), mine.Elem())) {
			t.Fatalf("%v\ninput %x\nUnmarshal %+v, %d\nwant      %+v, %d", k, in, out.Elem().Interface(), n, mine.Elem().Interface(), wn)
		}
	})
}

// Vectors at the limits of their header and of min and max.
func TestLimits(t *testing.T) {
	h.Check(t, 600, 6000, func(t *rapid.T) {
		k := &kind{k: "struct", fields: []*kind{{k: "slice", elem: &kind{k: "uint", size: 1}}}}
		f := k.fields[0]
		f.head = rapid.SampledFrom([]string{"1", "2", "3", "varint", "none"}).Draw(t, "head")
		edge := map[string][]int{"1": {255, 256}, "2": {65535, 65536, 255, 256}, "3": {65536, 70000}, "varint": {63, 64, 16383, 16384}, "none": {0, 17}}[f.head]
		n := rapid.SampledFrom(edge).Draw(t, "n")
		switch rapid.IntRange(0, 2).Draw(t, "limit") {
		case 0:
			f.min = max(0, n+rapid.IntRange(-1, 1).Draw(t, "min off"))
		case 1:
			f.max = max(1, n+rapid.IntRange(-1, 1).Draw(t, "max off"))
		}
		v := reflect.New(k.typ()).Elem()
		v.Field(0).SetBytes(h.NewRng(uint64(n)).Bytes(n))
		want, werr := k.enc(v)
		got, err := syntax.Marshal(v.Interface())
		if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want) {
			t.Fatalf("%v of %d bytes: Marshal %d bytes, %v; want %d, %v", k, n, len(got), err, len(want), werr)
		}
		// What the other side would send, limits or not.
		g := *f
		g.min, g.max = 0, 0
		in, e := (&kind{k: "struct", fields: []*kind{&g}}).enc(v)
		h.Case(true, "%v %d", k, n)
		if e != nil {
			return
		}
		out := reflect.New(k.typ())
		m, err := syntax.Unmarshal(in, out.Interface())
		if (err == nil) != (werr == nil) || err == nil && (m != len(in) || !bytes.Equal(out.Elem().Field(0).Bytes(), v.Field(0).Bytes())) {
			t.Fatalf("%v from %d bytes: %d, %v; want %v", k, len(in), m, err, werr)
		}
	})
}

// A vector whose declared length is what is there plus a multiple of a power
// of two is rejected: no part of the length is overlooked.
func TestHugeLengths(t *testing.T) {
	h.Check(t, 1000, 20000, func(t *rapid.T) {
		width := rapid.SampledFrom([]int{2, 3, 4, 5, 6, 7, 8, -8, -4, -2}).Draw(t, "header") // negative: varint
		n := rapid.IntRange(0, 40).Draw(t, "bytes there")
		bits := 8 * width
		head := fmt.Sprint(width)
		if width < 0 {
			bits, head = -8*width-2, "varint"
			width = -width
		}
		shift := rapid.IntRange(6, bits-1).Draw(t, "shift")
		l := uint64(n) + uint64(1)<<shift*uint64(rapid.IntRange(1, 3).Draw(t, "times"))
		if bits < 64 && l >= 1<<bits {
			l = uint64(n) + uint64(1)<<shift
		}
		if rapid.IntRange(0, 9).Draw(t, "honest") == 0 {
			l = uint64(n)
		}
		in := []byte{7}
		for i := width - 1; i >= 0; i-- {
			in = append(in, byte(l>>(8*i)))
		}
		if head == "varint" {
			in[1] |= map[int]byte{2: 0x40, 4: 0x80, 8: 0xc0}[width]
		}
		in = append(in, bytes.Repeat([]byte{9}, n)...)
		tag := `tls:"head=` + head
		switch rapid.IntRange(0, 3).Draw(t, "limits") {
		case 1:
			tag += ",max=" + fmt.Sprint(rapid.IntRange(max(n, 1), 100).Draw(t, "max"))
		case 2:
			tag += ",min=" + fmt.Sprint(rapid.IntRange(0, n).Draw(t, "min"))
		}
		elem := rapid.SampledFrom([]reflect.Type{reflect.TypeOf(byte(0)), reflect.TypeOf([1]byte{}), reflect.TypeOf(struct{ A [1]uint8 }{})}).Draw(t, "element")
		typ := reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(byte(0))},
			{Name: "V", Type: reflect.SliceOf(elem), Tag: reflect.StructTag(tag + `"`)},
		})
		v := reflect.New(typ)
		m, err := syntax.Unmarshal(in, v.Interface())
		h.Case(true, "%s %d %d", tag, l, n)
		if short := map[int]uint64{2: 64, 4: 1 << 14, 8: 1 << 30}[width]; l == uint64(n) && head == "varint" && l < short {
			return // whether a longer form of a number is accepted is open
		}
		if l != uint64(n) && err == nil {
			t.Fatalf("%v: a vector of %d bytes was accepted with %d there: %d, %+v", typ, l, n, m, v.Elem().Interface())
		}
		if l == uint64(n) && (err != nil || m != len(in) || v.Elem().Field(1).Len() != n) {
			t.Fatalf("%v: %x: %d, %v, %+v", typ, in, m, err, v.Elem().Interface())
		}
	})
}
