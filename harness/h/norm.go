package h

import "reflect"

// Norm makes nil slices and maps empty ones, in place.
func Norm(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.CanSet() && v.IsNil() {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
		for i := 0; i < v.Len(); i++ {
			Norm(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Norm(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				Norm(v.Field(i))
			}
		}
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() && v.Type().String() != "*x509.Certificate" {
			Norm(v.Elem())
		}
	}
}

// Same compares two pointers' targets, nil and empty being equal.
func Same(a, b any) bool {
	Norm(reflect.ValueOf(a))
	Norm(reflect.ValueOf(b))
	return reflect.DeepEqual(a, b)
}
