package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// foldable functions are evaluated when all arguments are constants.
var foldable = map[string]any{
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.Fields": strings.Fields, "strings.Cut": strings.Cut, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
	"strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.EqualFold": strings.EqualFold,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseBool": strconv.ParseBool, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool, "strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter,
}

func (r *Run) fold(fn *ssa.Function, name string, args []Val) ([]Val, bool) {
	f, ok := foldable[name]
	if !ok {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	if fv.Type().NumIn() != len(args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		t, ok := r.pick(a).(*Term)
		if !ok {
			return nil, false
		}
		pt := fv.Type().In(i)
		switch pt.Kind() {
		case reflect.String:
			if t.op != "str" {
				return nil, false
			}
			in = append(in, reflect.ValueOf(t.s))
		case reflect.Bool:
			if t != True && t != False {
				return nil, false
			}
			in = append(in, reflect.ValueOf(t == True))
		default:
			n, ok := t.int64()
			if !ok {
				return nil, false
			}
			if pt.Kind() == reflect.Uint8 && (n < 0 || n > 255) || pt.Kind() == reflect.Int32 && (n < -1<<31 || n >= 1<<31) {
				return nil, false
			}
			in = append(in, reflect.ValueOf(n).Convert(pt))
		}
	}
	var out []Val
	for i, x := range fv.Call(in) {
		rt := fn.Signature.Results().At(i).Type()
		switch x.Kind() {
		case reflect.String:
			out = append(out, StrC(x.String()))
		case reflect.Bool:
			out = append(out, BoolC(x.Bool()))
		case reflect.Int, reflect.Int64, reflect.Int32:
			out = append(out, IntC(x.Int()))
		case reflect.Uint64:
			out = append(out, IntB(new(big.Int).SetUint64(x.Uint())))
		case reflect.Slice:
			var segs []Seg
			for j := 0; j < x.Len(); j++ {
				segs = append(segs, Seg{IntC(int64(j)), IntC(int64(j + 1)), nil, StrC(x.Index(j).String())})
			}
			out = append(out, r.newSlice(rt, IntC(int64(x.Len())), segs, nil))
		case reflect.Interface:
			if types.Identical(rt, types.Universe.Lookup("error").Type()) {
				if x.IsNil() {
					out = append(out, r.nilErr())
				} else {
					out = append(out, r.errorVal(args...))
				}
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return out, true
}
