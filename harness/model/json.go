// Package model holds Go models of library functions that the symbolic executor runs instead of the originals. The
// natively compiled harness always uses the originals, so every replayed trace compares a model with what it stands for.
package model

import (
	"encoding/base64"
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

type jsonError struct{ msg string }

func (e *jsonError) Error() string { return e.msg }

// Marshal stands for json.Marshal.
func Marshal(v interface{}) ([]byte, error) {
	b, err := jsonValue(nil, reflect.ValueOf(v), false, 0)
	if err != nil {
		return nil, err
	}
	return b, nil
}

const hexDigits = "0123456789abcdef"

func jsonValue(b []byte, v reflect.Value, quoted bool, depth int) ([]byte, error) {
	if depth > 40 {
		return nil, &jsonError{"json: unsupported value: encountered a cycle"}
	}
	if !v.IsValid() {
		return append(b, "null"...), nil
	}
	kind := v.Kind()
	if kind != reflect.Interface && v.CanInterface() {
		m, ok := v.Interface().(json.Marshaler)
		if !ok && v.CanAddr() {
			m, ok = v.Addr().Interface().(json.Marshaler)
		}
		if ok {
			if kind == reflect.Ptr && v.IsNil() {
				return append(b, "null"...), nil
			}
			text, err := m.MarshalJSON() // not compacted: only library types, which return compact text, have one
			return append(b, text...), err
		}
	}
	switch kind {
	case reflect.Bool:
		return jsonQuoted(b, strconv.FormatBool(v.Bool()), quoted), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return jsonQuoted(b, strconv.FormatInt(v.Int(), 10), quoted), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return jsonQuoted(b, strconv.FormatUint(v.Uint(), 10), quoted), nil
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return nil, &jsonError{"json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64)}
		}
		bits := 64
		if kind == reflect.Float32 {
			bits = 32
		}
		abs := math.Abs(f)
		format := byte('f')
		if abs != 0 {
			if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
				format = 'e'
			}
		}
		s := strconv.FormatFloat(f, format, -1, bits)
		if format == 'e' {
			if n := len(s); n >= 4 && s[n-4] == 'e' && (s[n-3] == '-') && s[n-2] == '0' {
				s = s[:n-2] + s[n-1:]
			}
		}
		return jsonQuoted(b, s, quoted), nil
	case reflect.String:
		if quoted {
			return jsonString(b, string(jsonString(nil, v.String()))), nil
		}
		return jsonString(b, v.String()), nil
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		return jsonValue(b, v.Elem(), quoted && kind == reflect.Ptr, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			raw := make([]byte, v.Len())
			for i := range raw {
				raw[i] = byte(v.Index(i).Uint())
			}
			b = append(b, '"')
			b = append(b, base64.StdEncoding.EncodeToString(raw)...)
			return append(b, '"'), nil
		}
		return jsonArray(b, v, depth)
	case reflect.Array:
		return jsonArray(b, v, depth)
	case reflect.Map:
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		return jsonMap(b, v, depth)
	case reflect.Struct:
		b = append(b, '{')
		first := true
		var err error
		b, err = jsonStruct(b, v, &first, depth)
		if err != nil {
			return nil, err
		}
		return append(b, '}'), nil
	}
	return nil, &jsonError{"json: unsupported type: " + v.Type().String()}
}

func jsonQuoted(b []byte, s string, quoted bool) []byte {
	if quoted {
		b = append(b, '"')
	}
	b = append(b, s...)
	if quoted {
		b = append(b, '"')
	}
	return b
}

func jsonArray(b []byte, v reflect.Value, depth int) ([]byte, error) {
	var err error
	b = append(b, '[')
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if b, err = jsonValue(b, v.Index(i), false, depth+1); err != nil {
			return nil, err
		}
	}
	return append(b, ']'), nil
}

func jsonMap(b []byte, v reflect.Value, depth int) ([]byte, error) {
	keys := v.MapKeys()
	names := make([]string, len(keys))
	for i, k := range keys {
		switch k.Kind() {
		case reflect.String:
			names[i] = k.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			names[i] = strconv.FormatInt(k.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			names[i] = strconv.FormatUint(k.Uint(), 10)
		default:
			return nil, &jsonError{"json: unsupported type: " + v.Type().String()}
		}
	}
	for i := 1; i < len(names); i++ {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	var err error
	b = append(b, '{')
	for i, k := range keys {
		if i > 0 {
			b = append(b, ',')
		}
		b = jsonString(b, names[i])
		b = append(b, ':')
		if b, err = jsonValue(b, v.MapIndex(k), false, depth+1); err != nil {
			return nil, err
		}
	}
	return append(b, '}'), nil
}

func jsonStruct(b []byte, v reflect.Value, first *bool, depth int) ([]byte, error) {
	t := v.Type()
	var err error
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		if k := strings.IndexByte(tag, ','); k >= 0 {
			name, opts = tag[:k], tag[k:]
		}
		if f.Anonymous && name == "" {
			ft := f.Type
			fv := v.Field(i)
			if ft.Kind() == reflect.Ptr {
				if !f.IsExported() {
					continue
				}
				if fv.IsNil() {
					continue
				}
				ft, fv = ft.Elem(), fv.Elem()
			}
			if ft.Kind() == reflect.Struct {
				if b, err = jsonStruct(b, fv, first, depth); err != nil {
					return nil, err
				}
				continue
			}
		}
		if !f.IsExported() {
			continue
		}
		if name == "" {
			name = f.Name
		}
		fv := v.Field(i)
		if strings.Contains(opts, ",omitempty") && jsonEmpty(fv) {
			continue
		}
		if !*first {
			b = append(b, ',')
		}
		*first = false
		b = jsonString(b, name)
		b = append(b, ':')
		if b, err = jsonValue(b, fv, strings.Contains(opts, ",string"), depth+1); err != nil {
			return nil, err
		}
	}
	return b, nil
}

func jsonEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

func jsonString(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
			default:
				b = append(b, c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, "\\ufffd"...)
		case r == '\u2028' || r == '\u2029':
			b = append(b, "\\u202"...)
			b = append(b, hexDigits[r&15])
		default:
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}
