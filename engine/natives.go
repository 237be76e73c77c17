package main

import (
	"bytes"
	"math"
	"math/bits"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// natives: standard-library functions that are called directly when every argument is concrete.
type nativeInfo struct {
	f  reflect.Value
	t  reflect.Type
	ok bool
}

func nat(f any) *nativeInfo { return &nativeInfo{f: reflect.ValueOf(f)} }

func (n *nativeInfo) init() {
	n.t = n.f.Type()
	n.ok = true
}

var natives = map[string]*nativeInfo{
	"strings.Index": nat(strings.Index), "strings.Contains": nat(strings.Contains), "strings.HasPrefix": nat(strings.HasPrefix), "strings.HasSuffix": nat(strings.HasSuffix),
	"strings.Split": nat(strings.Split), "strings.SplitN": nat(strings.SplitN), "strings.Join": nat(strings.Join), "strings.ToLower": nat(strings.ToLower), "strings.ToUpper": nat(strings.ToUpper),
	"strings.TrimSpace": nat(strings.TrimSpace), "strings.Trim": nat(strings.Trim), "strings.TrimLeft": nat(strings.TrimLeft), "strings.TrimRight": nat(strings.TrimRight), "strings.TrimPrefix": nat(strings.TrimPrefix), "strings.TrimSuffix": nat(strings.TrimSuffix),
	"strings.Replace": nat(strings.Replace), "strings.ReplaceAll": nat(strings.ReplaceAll), "strings.Repeat": nat(strings.Repeat), "strings.LastIndex": nat(strings.LastIndex), "strings.IndexByte": nat(strings.IndexByte),
	"strings.Fields": nat(strings.Fields), "strings.EqualFold": nat(strings.EqualFold), "strings.Title": nat(strings.Title), "strings.Count": nat(strings.Count), "strings.Compare": nat(strings.Compare),
	"strings.ContainsRune": nat(strings.ContainsRune), "strings.ContainsAny": nat(strings.ContainsAny), "strings.IndexAny": nat(strings.IndexAny), "strings.IndexRune": nat(strings.IndexRune),
	"strconv.Itoa": nat(strconv.Itoa), "strconv.Atoi": nil, "strconv.Quote": nat(strconv.Quote), "strconv.FormatInt": nat(strconv.FormatInt), "strconv.FormatFloat": nat(strconv.FormatFloat), "strconv.FormatBool": nat(strconv.FormatBool),
	"unicode.IsLetter": nat(unicode.IsLetter), "unicode.IsDigit": nat(unicode.IsDigit), "unicode.IsUpper": nat(unicode.IsUpper), "unicode.IsLower": nat(unicode.IsLower), "unicode.IsSpace": nat(unicode.IsSpace),
	"unicode.ToUpper": nat(unicode.ToUpper), "unicode.ToLower": nat(unicode.ToLower), "unicode.IsPrint": nat(unicode.IsPrint), "unicode.IsNumber": nat(unicode.IsNumber), "unicode.IsPunct": nat(unicode.IsPunct), "unicode.IsControl": nat(unicode.IsControl),
	"unicode/utf8.RuneCountInString": nat(utf8.RuneCountInString), "unicode/utf8.ValidString": nat(utf8.ValidString), "unicode/utf8.RuneLen": nat(utf8.RuneLen),
	"path/filepath.Join": nat(filepath.Join), "path/filepath.Base": nat(filepath.Base), "path/filepath.Dir": nat(filepath.Dir), "path/filepath.Ext": nat(filepath.Ext), "path/filepath.Clean": nat(filepath.Clean),
	"path.Join": nat(path.Join), "path.Base": nat(path.Base), "path.Ext": nat(path.Ext), "path.Dir": nat(path.Dir), "path.Clean": nat(path.Clean),
	"net/url.QueryEscape": nat(url.QueryEscape), "net/url.PathEscape": nat(url.PathEscape),
	"math.Float64bits": nat(math.Float64bits), "math.Float64frombits": nat(math.Float64frombits), "math.Float32bits": nat(math.Float32bits), "math.Float32frombits": nat(math.Float32frombits),
	"math.Floor": nat(math.Floor), "math.Ceil": nat(math.Ceil), "math.Trunc": nat(math.Trunc), "math.Abs": nat(math.Abs), "math.IsNaN": nat(math.IsNaN), "math.IsInf": nat(math.IsInf), "math.Inf": nat(math.Inf), "math.Mod": nat(math.Mod), "math.Pow": nat(math.Pow),
	"math.Sqrt": nat(math.Sqrt), "math.NaN": nat(math.NaN), "math.Log10": nat(math.Log10), "math.Round": nat(math.Round),
	"bytes.Equal": nat(bytes.Equal), "bytes.Compare": nat(bytes.Compare), "bytes.IndexByte": nat(bytes.IndexByte),
	"math/bits.LeadingZeros64": nat(bits.LeadingZeros64), "math/bits.TrailingZeros64": nat(bits.TrailingZeros64), "math/bits.Len64": nat(bits.Len64), "math/bits.Len32": nat(bits.Len32), "math/bits.Len": nat(bits.Len), "math/bits.OnesCount64": nat(bits.OnesCount64),
	"math/bits.TrailingZeros32": nat(bits.TrailingZeros32), "math/bits.TrailingZeros": nat(bits.TrailingZeros), "math/bits.Mul64": nat(bits.Mul64), "math/bits.RotateLeft32": nat(bits.RotateLeft32),
}

func init() {
	for k, v := range natives {
		if v == nil {
			delete(natives, k)
		}
	}
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return r, false
		}
		r.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, ok := v.(int64)
		if !ok {
			return r, false
		}
		r.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		i, ok := v.(int64)
		if !ok {
			return r, false
		}
		r.SetUint(uint64(i))
	case reflect.Float64, reflect.Float32:
		f, ok := v.(float64)
		if !ok {
			return r, false
		}
		r.SetFloat(f)
	case reflect.Slice:
		s, ok := v.([]Value)
		if !ok {
			return r, false
		}
		if s == nil {
			return r, true
		}
		r = reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := toNative(e, t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x)
		}
	default:
		return r, false
	}
	return r, true
}

func fromNative(v reflect.Value) (Value, bool) {
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool:
		return v.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return int64(v.Uint()), true
	case reflect.Float64, reflect.Float32:
		return v.Float(), true
	case reflect.Slice:
		if v.IsNil() {
			return []Value(nil), true
		}
		r := make([]Value, v.Len())
		for i := range r {
			e, ok := fromNative(v.Index(i))
			if !ok {
				return nil, false
			}
			r[i] = e
		}
		return r, true
	}
	return nil, false
}

func (n *nativeInfo) try(w *W, args []Value) (res Value, ok bool) {
	if len(args) != n.t.NumIn() {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		x, ok := toNative(a, n.t.In(i))
		if !ok {
			return nil, false
		}
		in[i] = x
	}
	defer func() {
		if r := recover(); r != nil {
			res, ok = nil, false // let the interpreted code raise the panic
		}
	}()
	var out []reflect.Value
	if n.t.IsVariadic() {
		out = n.f.CallSlice(in)
	} else {
		out = n.f.Call(in)
	}
	if len(out) == 1 {
		return fromNative(out[0])
	}
	t := make(Tuple, len(out))
	for i := range out {
		e, ok := fromNative(out[i])
		if !ok {
			return nil, false
		}
		t[i] = e
	}
	return t, true
}

var _ = ssa.InstantiateGenerics
