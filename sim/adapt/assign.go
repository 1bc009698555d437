package adapt

import (
	"reflect"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// AssignDesc gives descriptor i of the signal other values through its
// exported fields, leaving every object that can stay in place.
func AssignDesc(x *SIS, i int, to scte35.SpliceDescriptor) {
	assign(reflect.ValueOf(&x.SpliceDescriptors[i]).Elem(), reflect.ValueOf(&to).Elem())
}

// AssignCmd does the same to the splice command.
func AssignCmd(x *SIS, to scte35.SpliceCommand) {
	assign(reflect.ValueOf(&x.SpliceCommand).Elem(), reflect.ValueOf(&to).Elem())
}

func assign(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Interface:
		if !dst.IsNil() && !src.IsNil() && dst.Elem().Type() == src.Elem().Type() && dst.Elem().Kind() == reflect.Pointer {
			assign(dst.Elem(), src.Elem())
			return
		}
		dst.Set(src)
	case reflect.Pointer:
		if !dst.IsNil() && !src.IsNil() {
			assign(dst.Elem(), src.Elem())
			return
		}
		dst.Set(src)
	case reflect.Struct:
		if dst.Type().PkgPath() != pkgPath {
			dst.Set(src)
			return
		}
		for k := 0; k < dst.NumField(); k++ {
			f := dst.Type().Field(k)
			if f.IsExported() && f.Name != "XMLName" && f.Name != "JSONType" {
				assign(dst.Field(k), src.Field(k))
			}
		}
	case reflect.Slice:
		if dst.Len() < src.Len() {
			dst.Set(src)
			return
		}
		// a list that becomes shorter, perhaps empty, stays where it is
		dst.SetLen(src.Len())
		for k := 0; k < dst.Len(); k++ {
			assign(dst.Index(k), src.Index(k))
		}
	default:
		dst.Set(src)
	}
}
