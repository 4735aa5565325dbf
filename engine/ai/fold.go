package ai

import (
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// folds are pure library functions evaluated on constants.
var folds = map[string]reflect.Value{}

func init() {
	add := func(pkg string, fs map[string]interface{}) {
		for n, f := range fs {
			folds[pkg+"."+n] = reflect.ValueOf(f)
		}
	}
	add("strings", map[string]interface{}{
		"Contains": strings.Contains, "ContainsAny": strings.ContainsAny, "ContainsRune": strings.ContainsRune, "Count": strings.Count,
		"EqualFold": strings.EqualFold, "HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "Index": strings.Index,
		"IndexAny": strings.IndexAny, "IndexByte": strings.IndexByte, "IndexRune": strings.IndexRune, "LastIndex": strings.LastIndex,
		"LastIndexAny": strings.LastIndexAny, "LastIndexByte": strings.LastIndexByte, "Replace": strings.Replace,
		"ReplaceAll": strings.ReplaceAll, "Title": strings.Title, "ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "ToTitle": strings.ToTitle,
		"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight, "TrimPrefix": strings.TrimPrefix,
		"TrimSuffix": strings.TrimSuffix, "TrimSpace": strings.TrimSpace, "Compare": strings.Compare, "Cut": strings.Cut,
		"CutPrefix": strings.CutPrefix, "CutSuffix": strings.CutSuffix, "Clone": strings.Clone, "ToValidUTF8": strings.ToValidUTF8,
		"Fields": strings.Fields, "Split": strings.Split, "SplitN": strings.SplitN, "SplitAfter": strings.SplitAfter,
	})
	add("unicode", map[string]interface{}{
		"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsNumber": unicode.IsNumber, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsPrint": unicode.IsPrint,
		"IsPunct": unicode.IsPunct, "IsMark": unicode.IsMark, "IsSymbol": unicode.IsSymbol, "ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower,
	})
	add("unicode/utf8", map[string]interface{}{
		"DecodeRuneInString": utf8.DecodeRuneInString, "DecodeLastRuneInString": utf8.DecodeLastRuneInString, "RuneCountInString": utf8.RuneCountInString,
		"RuneLen": utf8.RuneLen, "ValidRune": utf8.ValidRune, "ValidString": utf8.ValidString, "FullRuneInString": utf8.FullRuneInString,
	})
	add("strconv", map[string]interface{}{
		"Itoa": strconv.Itoa, "FormatInt": strconv.FormatInt, "FormatUint": strconv.FormatUint, "FormatBool": strconv.FormatBool,
		"Quote": strconv.Quote, "QuoteToASCII": strconv.QuoteToASCII, "QuoteRune": strconv.QuoteRune, "IsPrint": strconv.IsPrint,
	})
	add("math/bits", map[string]interface{}{
		"Len64": bits.Len64, "Len": bits.Len, "TrailingZeros64": bits.TrailingZeros64, "TrailingZeros": bits.TrailingZeros,
		"LeadingZeros64": bits.LeadingZeros64, "OnesCount64": bits.OnesCount64, "OnesCount": bits.OnesCount,
	})
	add("path", map[string]interface{}{"Base": path.Base, "Dir": path.Dir, "Ext": path.Ext, "Clean": path.Clean, "IsAbs": path.IsAbs})
	add("path/filepath", map[string]interface{}{"Base": filepath.Base, "Dir": filepath.Dir, "Ext": filepath.Ext, "Clean": filepath.Clean, "IsAbs": filepath.IsAbs})
}

// fold evaluates a pure library function whose arguments are all constants.
func (m *Machine) fold(name string, args []Value) (Value, bool) {
	f, ok := folds[name]
	if !ok || f.Type().NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := f.Type().In(i)
		switch a := a.(type) {
		case string:
			if HasHole(a) || t.Kind() != reflect.String {
				return nil, false
			}
			in[i] = reflect.ValueOf(a)
		case *RuneStr:
			s, ok := a.concrete()
			if !ok || t.Kind() != reflect.String {
				return nil, false
			}
			in[i] = reflect.ValueOf(s)
		case int64:
			if t.Kind() == reflect.String || t.Kind() == reflect.Bool {
				return nil, false
			}
			in[i] = reflect.ValueOf(a).Convert(t)
		case bool:
			if t.Kind() != reflect.Bool {
				return nil, false
			}
			in[i] = reflect.ValueOf(a)
		default:
			return nil, false
		}
	}
	var out Tuple
	for _, r := range f.Call(in) {
		switch r.Kind() {
		case reflect.String:
			out = append(out, r.String())
		case reflect.Bool:
			out = append(out, r.Bool())
		case reflect.Slice:
			var vs []Value
			for i := 0; i < r.Len(); i++ {
				vs = append(vs, r.Index(i).String())
			}
			out = append(out, m.MkSlice(vs...))
		default:
			out = append(out, r.Int())
		}
	}
	if len(out) == 1 {
		return out[0], true
	}
	return out, true
}

// concrete is the text when every character is known and valid.
func (s *RuneStr) concrete() (string, bool) {
	var b strings.Builder
	for _, c := range s.C {
		r, ok := c.R.(int64)
		if !ok || utf8.RuneLen(rune(r)) != c.W {
			return "", false
		}
		b.WriteRune(rune(r))
	}
	return b.String(), true
}
