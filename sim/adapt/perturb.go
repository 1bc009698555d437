package adapt

import (
	"reflect"
	"strings"

	"verif.local/sim/rng"
)

// oddTexts are values for text fields that the format cannot carry or that
// have more than one reading.
var oddTexts = []string{"", " ", "10.5240/A2DA-6C1D-1B9C-4EB2-B62E", "10.5240/A2DA-6C1D-1B9C-4EB2-B62E-K", "10.5240/zz", "11/2/3", "//", "8ZcA", "8Zc=", "8Z cA==\n", "-1", "0x12", "007", "18446744073709551616", "é", "日本", "\xff\xfe", "\x00", "<&>", "text", "hex", "base-64", "private:", "engl", "e", "0123456789*#"}

// Perturb makes one change to an exported field, in ways a program may change
// a signal: flags without the fields that go with them, values wider than
// their field, optional parts missing or left over.
func Perturb(x *SIS, seed uint64) {
	var at []reflect.Value
	leaves(reflect.ValueOf(x).Elem(), &at)
	if len(at) == 0 {
		return
	}
	r := rng.New(seed)
	v := at[r.N(len(at))]
	if r.One(3) {
		// the flags that switch parts of the format on and off
		var fl []reflect.Value
		for _, w := range at {
			if w.Kind() == reflect.Bool {
				fl = append(fl, w)
			}
		}
		if len(fl) > 0 {
			v = fl[r.N(len(fl))]
		}
	}
	change(r, v, 0)
}

func leaves(v reflect.Value, at *[]reflect.Value) {
	if v.Type() == timeType {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "XMLName" || f.Name == "JSONType" {
				continue
			}
			leaves(v.Field(i), at)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer {
			leaves(v.Elem().Elem(), at)
		}
	case reflect.Pointer:
		if v.CanSet() {
			*at = append(*at, v)
		}
		if !v.IsNil() {
			leaves(v.Elem(), at)
		}
	case reflect.Slice:
		if v.CanSet() && v.Type().Elem().Kind() != reflect.Interface {
			*at = append(*at, v)
		}
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				leaves(v.Index(i), at)
			}
		}
	default:
		if v.CanSet() {
			*at = append(*at, v)
		}
	}
}

func change(r *rng.R, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := rng.Pick(r, 0, 1, v.Uint()+1, v.Uint()^1<<uint(r.N(34)), uint64(r.N(300)), r.U64(), 1<<33-1, 1<<33, ^uint64(0))
		v.SetUint(u << uint(64-v.Type().Bits()) >> uint(64-v.Type().Bits()))
	case reflect.String:
		s := oddTexts[r.N(len(oddTexts))]
		if r.One(8) {
			s = strings.Repeat(s+"x", r.In(1, 300))
		}
		v.SetString(s)
	case reflect.Pointer:
		if !v.IsNil() && r.Bool() {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := reflect.New(v.Type().Elem())
		if depth < 3 && n.Elem().Kind() != reflect.Struct {
			change(r, n.Elem(), depth+1)
		}
		v.Set(n)
	case reflect.Slice:
		n := v.Len()
		c := reflect.MakeSlice(v.Type(), n, n)
		reflect.Copy(c, v)
		switch {
		case n > 0 && r.One(3):
			c = c.Slice(0, r.N(n))
		default:
			for k := rng.Pick(r, 1, 1, 2, 16, 60, 256); k > 0; k-- {
				e := reflect.New(v.Type().Elem()).Elem()
				if n > 0 && r.Bool() && e.Kind() != reflect.Struct {
					e.Set(v.Index(r.N(n)))
				}
				c = reflect.Append(c, e)
			}
		}
		v.Set(c)
	}
}
