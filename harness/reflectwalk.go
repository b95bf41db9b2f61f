package main

// Reflection helpers: visiting every part of an object and scrambling all memory which is reachable from it.

import (
	"math/big"
	"math/rand"
	"reflect"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

var (
	apiType  = reflect.TypeOf((*iotago.API)(nil)).Elem()
	bigType  = reflect.TypeOf(big.Int{})
	timeType = reflect.TypeOf(time.Time{})
)

// visit calls f on every non-nil value which is reachable through exported fields: pointers, slices and interfaces' content.
func visit(v reflect.Value, f func(x any)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.Type() != apiType {
			visit(v.Elem(), f)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		f(v.Interface())
		visit(v.Elem(), f)
	case reflect.Struct:
		if v.Type() == bigType || v.Type() == timeType {
			return
		}
		if v.CanAddr() {
			f(v.Addr().Interface())
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				visit(v.Field(i), f)
			}
		}
	case reflect.Slice:
		f(v.Interface())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			visit(v.Index(i), f)
		}
	}
}

// scramble changes every piece of memory which is reachable from v in place (pointers, slices and maps keep their identity).
// Values which are stored by value in v itself are changed only if v is addressable.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.Type() != apiType {
			scramble(v.Elem())
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Type().Elem() == bigType {
			x := v.Interface().(*big.Int)
			// write into the words of the number as well: a copied big.Int struct shares them
			for i := range x.Bits() {
				x.Bits()[i] ^= 0x55
			}
			x.SetInt64(12345)

			return
		}
		scramble(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Array && !v.CanSet() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.Len() > 1 && v.Type().Elem().Kind() != reflect.Uint8 {
			// replace elements: shared backing arrays become visible
			v.Index(0).Set(v.Index(v.Len() - 1))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			val := v.MapIndex(k)
			if val.Kind() == reflect.Slice {
				scramble(val)
			}
		}
		keys := v.MapKeys()
		if len(keys) > 0 && v.Type().Key().Kind() == reflect.String {
			nv := reflect.New(v.Type().Elem()).Elem()
			if nv.Kind() == reflect.Slice {
				nv.Set(reflect.MakeSlice(nv.Type(), 3, 3))
			}
			nk := reflect.New(v.Type().Key()).Elem()
			nk.SetString("scrambled")
			v.SetMapIndex(nk, nv)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "x")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// perturb changes exactly one randomly chosen scalar which is reachable from v (v must be a pointer or contain pointers).
// It returns a description of the field and whether something was changed.
func perturb(r *rand.Rand, v reflect.Value) (string, bool) {
	var sites []func()
	var names []string
	var walk func(v reflect.Value, path string)
	add := func(path string, f func()) { sites, names = append(sites, f), append(names, path) }
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() && v.Type() != apiType {
				walk(v.Elem(), path)
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type().Elem() == bigType {
				x := v.Interface().(*big.Int)
				add(path, func() { x.Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn([]int{8, 256}[r.Intn(2)])))) })

				return
			}
			walk(v.Elem(), path)
		case reflect.Struct:
			if v.Type() == timeType {
				if v.CanSet() {
					add(path, func() { v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(1))) })
				}

				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), path+"."+v.Type().Field(i).Name)
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Len() > 0 {
					add(path, func() { e := v.Index(r.Intn(v.Len())); e.SetUint(e.Uint() ^ 1<<uint(r.Intn(8))) })
				}
				if v.CanSet() {
					add(path+"+len", func() {
						v.Set(reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()+1), reflect.Append(v, reflect.ValueOf(byte(1)).Convert(v.Type().Elem()))))
					})
				}

				return
			}
			if v.Len() > 0 && v.CanSet() {
				add(path+"-elem", func() {
					i := r.Intn(v.Len())
					n := reflect.MakeSlice(v.Type(), 0, v.Len())
					for k := 0; k < v.Len(); k++ {
						if k != i {
							n = reflect.Append(n, v.Index(k))
						}
					}
					v.Set(n)
				})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"[]")
			}
		case reflect.Array:
			if v.CanSet() && v.Len() > 0 && v.Type().Elem().Kind() == reflect.Uint8 {
				add(path, func() { e := v.Index(r.Intn(v.Len())); e.SetUint(e.Uint() ^ 1<<uint(r.Intn(8))) })
			}
		case reflect.Map:
			keys := v.MapKeys()
			if len(keys) == 0 {
				return
			}
			add(path+"{}value", func() {
				k := keys[r.Intn(len(keys))]
				old := v.MapIndex(k)
				v.SetMapIndex(k, reflect.AppendSlice(reflect.MakeSlice(old.Type(), 0, old.Len()+1), reflect.Append(old, reflect.ValueOf(byte(1)).Convert(old.Type().Elem()))))
			})
			add(path+"{}delete", func() { v.SetMapIndex(keys[r.Intn(len(keys))], reflect.Value{}) })
			add(path+"{}rename", func() {
				k := keys[r.Intn(len(keys))]
				old := v.MapIndex(k)
				nk := reflect.New(v.Type().Key()).Elem()
				nk.SetString(k.String() + "!")
				v.SetMapIndex(k, reflect.Value{})
				v.SetMapIndex(nk, old)
			})
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
			if v.CanSet() {
				add(path, func() { v.SetUint(v.Uint() ^ 1<<uint(r.Intn(v.Type().Bits()))) })
			}
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			if v.CanSet() {
				add(path, func() { v.SetInt(v.Int() ^ 1<<uint(r.Intn(v.Type().Bits()-1))) })
			}
		case reflect.Bool:
			if v.CanSet() {
				add(path, func() { v.SetBool(!v.Bool()) })
			}
		}
	}
	walk(v, "")
	if len(sites) == 0 {
		return "", false
	}
	i := r.Intn(len(sites))
	sites[i]()

	return names[i], true
}
