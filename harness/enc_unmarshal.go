package main

import (
	"bytes"
	"fmt"
	"math"
	"net/netip"
	"reflect"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

func init() {
	enumParts = append(enumParts,
		&EnumPart{"unmarshal", []string{"C05"}, unmarshalPart},
		&EnumPart{"unmarshal-wide", []string{"C05"}, unmarshalWide},
		&EnumPart{"unmarshal-targets", []string{"C05"}, unmarshalTargets},
		&EnumPart{"unmarshal-sizes", []string{"C05"}, unmarshalSizes},
		&EnumPart{"unmarshal-narrow", []string{"C05"}, unmarshalNarrow},
		&EnumPart{"unmarshal-malformed", []string{"C05"}, unmarshalMalformed})
}

type myStr string
type myInt int32

type target struct {
	S     string      `spoe:"s"`
	B     []byte      `spoe:"b"`
	I32   int32       `spoe:"i32"`
	I64   int64       `spoe:"i64"`
	U32   uint32      `spoe:"u32"`
	U64   uint64      `spoe:"u64"`
	Bo    bool        `spoe:"bo"`
	A     netip.Addr  `spoe:"a"`
	MS    myStr       `spoe:"ms,omitempty"`
	MI    myInt       `spoe:"mi"`
	PS    *string     `spoe:"ps"`
	PB    *[]byte     `spoe:"pb"`
	PI    *int32      `spoe:"pi"`
	PU    *uint64     `spoe:"pu,omitempty"`
	PBo   *bool       `spoe:"pbo"`
	PA    *netip.Addr `spoe:"pa"`
	Plain string
	Dash  string `spoe:"-"`
	Empty string `spoe:""`
}

func dirty() target {
	s, b, i, u, bo, a := "old", []byte("old"), int32(7), uint64(8), true, addr4
	return target{"old", []byte("old"), 1, 2, 3, 4, true, addr6, "old", 9, &s, &b, &i, &u, &bo, &a, "plain", "dash", "empty"}
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	case reflect.Struct:
		if a, ok := v.Interface().(netip.Addr); ok {
			return a.String()
		}
		var s string
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + "=" + show(v.Field(i)) + " "
		}
		return s
	case reflect.Slice:
		return fmt.Sprintf("%x", v.Bytes())
	}
	return fmt.Sprintf("%v", v.Interface())
}

// refAssign computes the string form of the expected field value.
func refAssign(kind string, k KV) (string, bool) {
	switch kind {
	case "string":
		return string(k.S), k.Type == 8
	case "bytes":
		return fmt.Sprintf("%x", k.S), k.Type == 8 || k.Type == 9
	case "int32":
		return fmt.Sprint(int32(k.I)), k.Type == 2
	case "int64":
		return fmt.Sprint(int64(k.I)), k.Type == 4
	case "uint32":
		return fmt.Sprint(uint32(k.I)), k.Type == 3
	case "uint64":
		return fmt.Sprint(k.I), k.Type == 5
	case "bool":
		return fmt.Sprint(k.B), k.Type == 1
	case "addr":
		a, _ := netip.AddrFromSlice(k.S)
		return a.String(), k.Type == 6 || k.Type == 7
	}
	panic(kind)
}

var targetFields = []struct {
	key, field, kind string
	ptr              bool
}{
	{"s", "S", "string", false}, {"b", "B", "bytes", false}, {"i32", "I32", "int32", false}, {"i64", "I64", "int64", false},
	{"u32", "U32", "uint32", false}, {"u64", "U64", "uint64", false}, {"bo", "Bo", "bool", false}, {"a", "A", "addr", false},
	{"ms", "MS", "string", false}, {"mi", "MI", "int32", false},
	{"ps", "PS", "string", true}, {"pb", "PB", "bytes", true}, {"pi", "PI", "int32", true}, {"pu", "PU", "uint64", true},
	{"pbo", "PBo", "bool", true}, {"pa", "PA", "addr", true},
}

func unmarshalVals() []KV {
	return []KV{kvStr("", "v1"), kvStr("", ""), kvBin("", []byte{1, 0, 255}), kvI32("", -5), kvI64("", math.MinInt64), kvU32("", math.MaxUint32),
		{Type: 5, I: math.MaxUint64}, kvBool("", true), kvBool("", false), kvAddr("", addr4), kvAddr("", addr6), kvNull("")}
}

// rotateVals gives every entry another value of the same type and length.
func rotateVals(ks []KV) []KV {
	var out []KV
	for _, k := range ks {
		k.S = append([]byte{}, k.S...)
		if k.Type >= 8 {
			for i := range k.S {
				k.S[i] ^= 0x15
			}
		}
		k.B = !k.B
		if k.Type >= 2 && k.Type <= 5 {
			k.I ^= 1
		}
		out = append(out, k)
	}
	return out
}

func checkUnmarshal(c *EC, ks []KV, count int, reuse bool) {
	c.Ops++
	raw := refKVs(ks...)
	buf := append([]byte{}, raw...)
	eff := ks
	if count >= 0 && count < len(ks) {
		eff = ks[:count]
	}
	var t target
	if reuse {
		t = dirty()
	}
	want := map[string]string{}
	rv := reflect.ValueOf(&t).Elem()
	for i := 0; i < rv.NumField(); i++ {
		want[rv.Type().Field(i).Name] = show(rv.Field(i))
	}
	for _, f := range targetFields {
		if f.ptr {
			want[f.field] = "nil"
		}
	}
	wantErr := ""
	for _, k := range eff {
		for _, f := range targetFields {
			if f.key != k.Name {
				continue
			}
			if f.ptr && k.Type == 0 {
				want[f.field] = "nil"
				break
			}
			v, ok := refAssign(f.kind, k)
			if !ok {
				wantErr = fmt.Sprintf("type %d for key %q", k.Type, k.Name)
			}
			if f.ptr {
				v = "&" + v
			}
			want[f.field] = v
			break
		}
		if wantErr != "" {
			break
		}
	}
	s := encoding.AcquireKVScanner(buf, count)
	err := s.Unmarshal(&t)
	left := s.RemainingBuf()
	encoding.ReleaseKVScanner(s)
	if wantErr != "" {
		if err == nil {
			c.Fail("unmarshal(%s): no error for %s", showKVs(ks), wantErr)
		}
		c.Outcome = "error"
		return
	}
	if err != nil {
		c.Fail("unmarshal(%s): %v", showKVs(ks), err)
		return
	}
	if left != len(raw)-len(refKVs(eff...)) {
		c.Fail("unmarshal(%s) count %d leaves %d bytes", showKVs(ks), count, left)
	}
	cmp := func(when string) {
		for i := 0; i < rv.NumField(); i++ {
			n := rv.Type().Field(i).Name
			if g := show(rv.Field(i)); g != want[n] {
				c.Fail("unmarshal(%s) count %d reuse %v%s: field %s is %q, want %q", showKVs(ks), count, reuse, when, n, g, want[n])
			}
		}
	}
	cmp("")
	for i := range buf {
		buf[i] = 0xEE
	}
	cmp(" after the input buffer was reused")
	c.Outcome = show(rv)
	// Values handed out stay as they are when the struct is decoded into
	// again, and the second result does not depend on the first.
	old := t
	before := show(reflect.ValueOf(old))
	for _, again := range [][]KV{eff, rotateVals(eff)} {
		b2 := refKVs(again...)
		var fresh target
		fresh.Plain, fresh.Dash, fresh.Empty = t.Plain, t.Dash, t.Empty
		errF := encoding.NewKVScanner(append([]byte{}, b2...), -1).Unmarshal(&fresh)
		errT := encoding.NewKVScanner(b2, -1).Unmarshal(&t)
		if (errF == nil) != (errT == nil) {
			c.Fail("unmarshal(%s) behind unmarshal(%s): %v, into a new struct: %v", showKVs(again), showKVs(ks), errT, errF)
			return
		}
		if now := show(reflect.ValueOf(old)); now != before {
			c.Fail("unmarshal(%s) count %d reuse %v: the values changed when the struct was decoded into again with %s: %s became %s", showKVs(ks), count, reuse, showKVs(again), before, now)
		}
		if errT != nil {
			break
		}
		for _, k := range again {
			for _, f := range targetFields {
				if f.key == k.Name {
					if a, b := show(rv.FieldByName(f.field)), show(reflect.ValueOf(&fresh).Elem().FieldByName(f.field)); a != b {
						c.Fail("unmarshal(%s) into a used struct: %s is %s, in a new one %s", showKVs(again), f.field, a, b)
					}
				}
			}
		}
	}
}

func unmarshalPart(e *Enum) {
	vals := unmarshalVals()
	var all []KV
	for _, f := range targetFields {
		for _, v := range vals {
			v.Name = f.key
			all = append(all, v)
		}
	}
	for _, n := range []string{"unknown", "", "-", "Plain", "ms,omitempty", "S"} {
		for _, v := range vals {
			v.Name = n
			all = append(all, v)
		}
	}
	run := func(ks []KV) {
		cp := append([]KV{}, ks...)
		e.Case(func() string { return showKVs(cp) }, func(c *EC) {
			for _, reuse := range []bool{false, true} {
				for _, cnt := range []int{-1, len(cp), len(cp) - 1} {
					if cnt < 0 && len(cp) == 0 && cnt != -1 {
						continue
					}
					checkUnmarshal(c, cp, cnt, reuse)
				}
			}
		})
	}
	run(nil)
	for _, a := range all {
		run([]KV{a})
	}
	for _, a := range all {
		for _, b := range all {
			if e.Stop() {
				return
			}
			run([]KV{a, b})
		}
	}
	// the matching entries only, depth 3 (4)
	var good []KV
	for _, f := range targetFields {
		for i, v := range vals {
			if _, ok := refAssign(f.kind, v); (ok || (f.ptr && v.Type == 0)) && (i != 1 || f.kind == "string") {
				v.Name = f.key
				good = append(good, v)
			}
		}
	}
	v := kvNull("unknown")
	good = append(good, v)
	for _, a := range good {
		for _, b := range good {
			for _, d := range good {
				if e.Stop() {
					return
				}
				run([]KV{a, b, d})
				if e.Thorough() {
					for _, f := range good {
						run([]KV{a, b, d, f})
					}
				}
			}
		}
	}
}

func unmarshalTargets(e *Enum) {
	type unexp struct {
		s string `spoe:"s"`
		T string `spoe:"t"`
	}
	type floaty struct {
		F float64 `spoe:"s"`
		T string  `spoe:"t"`
	}
	type slicy struct {
		F []string `spoe:"s"`
		T string   `spoe:"t"`
	}
	type nested struct {
		F struct{ X int } `spoe:"s"`
		T string          `spoe:"t"`
	}
	type pp struct {
		F **string `spoe:"s"`
		T string   `spoe:"t"`
	}
	type i8 struct {
		F int8   `spoe:"s"`
		T string `spoe:"t"`
	}
	type dup struct {
		A string `spoe:"s"`
		T string `spoe:"t"`
	}
	var np *dup
	n := 5
	str := "x"
	mk := []struct {
		name string
		v    func() any
		any  bool // fails for every list
		onS  bool // fails when key s is present
	}{
		{"nil", func() any { return nil }, true, true},
		{"nil pointer", func() any { return np }, true, true},
		{"struct by value", func() any { return dup{} }, true, true},
		{"pointer to int", func() any { return &n }, true, true},
		{"pointer to string", func() any { return &str }, true, true},
		{"map", func() any { return map[string]string{} }, true, true},
		{"pointer to map", func() any { m := map[string]string{}; return &m }, true, true},
		{"unexported field", func() any { return &unexp{} }, false, true},
		{"float", func() any { return &floaty{} }, false, true},
		{"[]string", func() any { return &slicy{} }, false, true},
		{"nested struct", func() any { return &nested{} }, false, true},
		{"pointer to pointer", func() any { return &pp{} }, false, true},
		{"int8", func() any { return &i8{} }, false, true},
		{"fine", func() any { return &dup{} }, false, false},
	}
	lists := [][]KV{nil, {kvStr("t", "v")}, {kvStr("s", "v")}, {kvStr("t", "v"), kvStr("s", "w")}, {kvStr("s", "v"), kvStr("t", "w")}, {kvNull("u")}}
	for _, m := range mk {
		for _, ks := range lists {
			e.Case(func() string { return m.name + " <- " + showKVs(ks) }, func(c *EC) {
				c.Ops++
				hasS := false
				tv := ""
				for _, k := range ks {
					if k.Name == "s" {
						hasS = true
					}
					if k.Name == "t" {
						tv = string(k.S)
					}
				}
				v := m.v()
				err := encoding.NewKVScanner(refKVs(ks...), -1).Unmarshal(v)
				want := m.any || (m.onS && hasS)
				if (err != nil) != want {
					c.Fail("unmarshal %s into %s: err=%v, want error=%v", showKVs(ks), m.name, err, want)
					return
				}
				if err == nil {
					if g := reflect.ValueOf(v).Elem().FieldByName("T").String(); g != tv {
						c.Fail("unmarshal %s into %s: T=%q want %q", showKVs(ks), m.name, g, tv)
					}
				}
				c.Outcome = fmt.Sprint(m.name, err)
			})
		}
	}
}

func unmarshalMalformed(e *Enum) {
	bases := [][]byte{
		refKVs(kvStr("s", "xyz"), kvU32("u32", 300), kvBool("bo", true)),
		refKVs(kvAddr("pa", addr4), kvNull("ps"), kvBin("b", []byte{1, 2, 3})),
	}
	for i, b := range bases {
		corruptions(e, b, fmt.Sprintf("unmarshal base %d", i), true, func(c *EC, in []byte) {
			c.Ops++
			_, _, ok := refScanKV(in, -1)
			g, _ := guarded(len(in), 40)
			copy(g, in)
			var t target
			err := encoding.NewKVScanner(g, -1).Unmarshal(&t)
			if !ok && err == nil {
				c.Fail("unmarshal of malformed %x: no error", in)
			}
			if err == nil && (bytes.IndexByte([]byte(t.S), canary) >= 0 && bytes.IndexByte(in, canary) < 0) {
				c.Fail("unmarshal of %x: data from behind the input: %q", in, t.S)
			}
		})
	}
}

// unmarshalWide decodes into structs of many fields: every single field, every
// single field left out, every pair at a distance that fools a bit mask.
func unmarshalWide(e *Enum) {
	kinds := []reflect.Type{reflect.TypeOf((*string)(nil)), reflect.TypeOf(""), reflect.TypeOf((*uint32)(nil)), reflect.TypeOf(int64(0)), reflect.TypeOf((*bool)(nil)), reflect.TypeOf([]byte(nil))}
	val := func(i, t int) KV {
		switch t {
		case 2:
			return kvU32("", uint32(i+1))
		case 3:
			return kvI64("", int64(i+1))
		case 4:
			return kvBool("", true)
		case 5:
			return kvBin("", []byte{byte(i), byte(i >> 8), 1})
		}
		return kvStr("", fmt.Sprint("v", i))
	}
	for mode := 0; mode < 5; mode++ { // all *string, mixed, all pointers with gaps, keys differing inside, keys differing at the end
		for _, n := range []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300} {
			kind := func(i int) int {
				switch mode {
				case 1:
					return i % len(kinds)
				case 2:
					return i % 3
				}
				return 0
			}
			name := func(i int) string {
				switch {
				case mode == 1 && i%7 == 3:
					return fmt.Sprintf("%s%d", pattern2(i), i)
				case mode == 2:
					return fmt.Sprintf("%03d", i)
				case mode == 3:
					return fmt.Sprintf("shared.beginning.of.all.the.keys.%03d.and.the.end.they.have.in.common", i)
				case mode == 4:
					return fmt.Sprintf("shared.beginning.of.all.the.keys.%d", 1000000+i)
				}
				return fmt.Sprintf("k%d", i)
			}
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				tag := fmt.Sprintf("spoe:%q", name(i))
				if mode == 2 && i%5 == 4 {
					tag = ""
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: kinds[kind(i)], Tag: reflect.StructTag(tag)})
			}
			typ := reflect.StructOf(fs)
			run := func(idx []int) {
				idx = append([]int{}, idx...)
				lab := fmt.Sprint(idx)
				if len(idx) > 3 {
					lab = fmt.Sprintf("%d of the fields", len(idx))
				}
				e.Case(func() string { return fmt.Sprintf("struct of %d fields (mode %d) <- %s", n, mode, lab) }, func(c *EC) {
					c.Ops++
					v := reflect.New(typ)
					for i := 0; i < n; i++ {
						if f := v.Elem().Field(i); f.Kind() == reflect.Pointer {
							f.Set(reflect.New(f.Type().Elem()))
						}
					}
					want := map[int]string{}
					var ks []KV
					for _, i := range idx {
						k := val(i, kind(i))
						k.Name = name(i)
						ks = append(ks, k)
						if fs[i].Tag == "" {
							continue
						}
						p := ""
						if fs[i].Type.Kind() == reflect.Pointer {
							p = "&"
						}
						kd := [...]string{"string", "string", "uint32", "int64", "bool", "bytes"}[kind(i)]
						w, _ := refAssign(kd, k)
						want[i] = p + w
					}
					if err := encoding.NewKVScanner(refKVs(ks...), -1).Unmarshal(v.Interface()); err != nil {
						c.Fail("struct of %d fields: %v", n, err)
						return
					}
					for i := 0; i < n; i++ {
						f := v.Elem().Field(i)
						w, set := want[i]
						switch {
						case set:
						case f.Kind() == reflect.Pointer && fs[i].Tag != "":
							w = "nil"
						case f.Kind() == reflect.Pointer:
							w = show(reflect.New(typ.Field(i).Type.Elem()).Elem())
							w = "&" + w
						default:
							w = show(reflect.Zero(f.Type()))
						}
						if g := show(f); g != w {
							c.Fail("struct of %d fields (mode %d) decoded from %s: field %d is %q, want %q", n, mode, lab, i, g, w)
							return
						}
					}
				})
			}
			var all []int
			for i := 0; i < n; i++ {
				all = append(all, i)
			}
			run(all)
			for i := 0; i < n; i++ {
				if e.Stop() {
					return
				}
				run([]int{i})
				run(append(append([]int{}, all[:i]...), all[i+1:]...))
				for _, d := range []int{1, 8, 16, 32, 64, 128, 256} {
					if i+d < n {
						run([]int{i, i + d})
						run([]int{i + d, i})
					}
				}
			}
		}
	}
}

// pattern2 is a long name.
func pattern2(i int) string { return string(bytes.Repeat([]byte{'a' + byte(i%26)}, i%270)) }

// unmarshalSizes: values of every size into every field that holds bytes,
// alone and two of them, new and used structs, the input reused afterwards.
func unmarshalSizes(e *Enum) {
	sizes := []int{0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 127, 128, 129, 239, 240, 241, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
		2287, 2288, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 1 << 20}
	type f struct {
		key string
		typ byte
	}
	fs := []f{{"s", 8}, {"ms", 8}, {"ps", 8}, {"b", 8}, {"b", 9}, {"pb", 8}, {"pb", 9}}
	val := func(x f, n int) KV {
		return KV{Name: x.key, Type: x.typ, S: patText(n, n)}
	}
	for i, n := range sizes {
		other := []int{3, sizes[(i+1)%len(sizes)], n}
		for _, x := range fs {
			if e.Stop() {
				return
			}
			e.Case(func() string { return fmt.Sprintf("%d bytes of type %d into %s", n, x.typ, x.key) }, func(c *EC) {
				checkUnmarshal(c, []KV{val(x, n)}, -1, false)
				checkUnmarshal(c, []KV{val(x, n)}, 1, true)
				c.Outcome = fmt.Sprint(x, n)
			})
			for _, y := range fs {
				for _, m := range other {
					if n+m > 1<<18 {
						continue
					}
					e.Case(func() string { return fmt.Sprintf("%d bytes of type %d into %s, %d of type %d into %s", n, x.typ, x.key, m, y.typ, y.key) }, func(c *EC) {
						checkUnmarshal(c, []KV{val(x, n), kvU32("u32", 9), val(y, m)}, -1, i%2 == 1)
						c.Outcome = fmt.Sprint(x, y, n, m)
					})
				}
			}
		}
	}
}

// unmarshalNarrow: structs of one to three fields, all or some of them
// pointers, every short list of their entries in front of every kind of rest.
func unmarshalNarrow(e *Enum) {
	ptr, plain := reflect.TypeOf((*string)(nil)), reflect.TypeOf("")
	rests := []struct {
		name string
		b    []byte
		ok   bool
	}{
		{"nothing", nil, true},
		{"an unknown entry", refKVs(kvStr("zz", "x")), true},
		{"a name without value", []byte{1, 'a'}, false},
		{"half a name", []byte{9, 'a'}, false},
		{"half a value", []byte{1, 'a', 8, 5, 'x'}, false},
		{"an unknown type", []byte{1, 'z', 0x0c}, false},
		{"another type for a field", refKVs(kvU32("a", 3)), false},
	}
	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			var sf []reflect.StructField
			for i := 0; i < n; i++ {
				t := plain
				if mask>>i&1 == 1 {
					t = ptr
				}
				sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf("spoe:%q", string(rune('a'+i))))})
			}
			typ := reflect.StructOf(sf)
			// entries: key index n is unknown, odd choices are null
			k := 2 * (n + 1)
			for l := 0; l <= 4; l++ {
				for w := 0; w < pow(k, l); w++ {
					if e.Stop() {
						return
					}
					var ks []KV
					want := make([]string, n)
					for i := range want {
						if mask>>i&1 == 1 {
							want[i] = "nil"
						}
					}
					fits := true
					for j, d := range digits(w, k, l) {
						f, null := d/2, d%2 == 1
						v := fmt.Sprintf("v%d", j)
						x := kvStr(string(rune('a'+f)), v)
						if null {
							x = kvNull(string(rune('a' + f)))
						}
						ks = append(ks, x)
						switch {
						case f == n || !fits:
						case mask>>f&1 == 1 && null:
							want[f] = "nil"
						case mask>>f&1 == 1:
							want[f] = "&" + v
						case null:
							fits = false
						default:
							want[f] = v
						}
					}
					e.Case(func() string { return fmt.Sprintf("%d fields, pointers %b <- %s", n, mask, showKVs(ks)) }, func(c *EC) {
						for _, r := range rests {
							c.Ops++
							v := reflect.New(typ)
							err := encoding.NewKVScanner(append(refKVs(ks...), r.b...), -1).Unmarshal(v.Interface())
							ok := fits && r.ok
							if (err == nil) != ok {
								c.Fail("%d fields, pointers %b <- %s and %s: err=%v", n, mask, showKVs(ks), r.name, err)
								return
							}
							if !ok {
								continue
							}
							for i := range want {
								if g := show(v.Elem().Field(i)); g != want[i] {
									c.Fail("%d fields, pointers %b <- %s and %s: field %d is %s, want %s", n, mask, showKVs(ks), r.name, i, g, want[i])
								}
							}
						}
						c.Outcome = fmt.Sprint(want)
					})
				}
			}
		}
	}
}
