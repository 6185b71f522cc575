package gen

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Dump returns a canonical textual form of a value.  Nil and empty slices and
// maps are not distinguished, nil pointers and zero values are.
func Dump(x any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "<%s>", v.Elem().Type())
		} else {
			b.WriteByte('&')
		}
		dump(b, v.Elem())
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		var parts []string
		iter := v.MapRange()
		for iter.Next() {
			var p strings.Builder
			dump(&p, iter.Key())
			p.WriteByte(':')
			dump(&p, iter.Value())
			parts = append(parts, p.String())
		}
		sort.Strings(parts)
		b.WriteString("map{" + strings.Join(parts, " ") + "}")
	case reflect.Struct:
		if v.CanInterface() {
			if x, ok := v.Interface().(time.Time); ok {
				fmt.Fprintf(b, "time %d.%d", x.Unix(), x.Nanosecond())
				return
			}
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i))
		}
		b.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}
