package gen

import (
	"reflect"

	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Clone makes a deep copy of a value (exported fields only).
func Clone[T any](x T) T {
	return cloneValue(reflect.ValueOf(&x).Elem()).Interface().(T)
}

// CloneLookups makes a deep copy of a lookup list.
func CloneLookups(ll gtab.LookupList) gtab.LookupList { return Clone(ll) }

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		res := reflect.New(v.Type().Elem())
		res.Elem().Set(cloneValue(v.Elem()))
		return res
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		res := reflect.New(v.Type()).Elem()
		res.Set(cloneValue(v.Elem()))
		return res
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		res := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			res.Index(i).Set(cloneValue(v.Index(i)))
		}
		return res
	case reflect.Array:
		res := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			res.Index(i).Set(cloneValue(v.Index(i)))
		}
		return res
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		res := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			res.SetMapIndex(k, cloneValue(v.MapIndex(k)))
		}
		return res
	case reflect.Struct:
		res := reflect.New(v.Type()).Elem()
		res.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				res.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return res
	default:
		return v
	}
}
