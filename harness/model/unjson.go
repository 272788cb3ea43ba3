package model

import (
	"encoding"
	"encoding/base64"
	"encoding/json"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// MarshalIndent stands for json.MarshalIndent.
func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	b, err := Marshal(v)
	if err != nil {
		return nil, err
	}
	return indentJSON(b, prefix, indent), nil
}

func indentJSON(b []byte, prefix, indent string) []byte {
	var out []byte
	depth, str := 0, false
	nl := func() {
		out = append(append(out, '\n'), prefix...)
		for i := 0; i < depth; i++ {
			out = append(out, indent...)
		}
	}
	for i := 0; i < len(b); i++ {
		c := b[i]
		if str {
			out = append(out, c)
			if c == '\\' {
				i++
				out = append(out, b[i])
			} else if c == '"' {
				str = false
			}
			continue
		}
		switch c {
		case '"':
			str = true
			out = append(out, c)
		case '{', '[':
			out = append(out, c)
			if b[i+1] == c+2 {
				i++
				out = append(out, c+2)
				break
			}
			depth++
			nl()
		case '}', ']':
			depth--
			nl()
			out = append(out, c)
		case ',':
			out = append(out, c)
			nl()
		case ':':
			out = append(out, ':', ' ')
		default:
			out = append(out, c)
		}
	}
	return out
}

// Encoder stands for json.Encoder.
type Encoder struct {
	w              io.Writer
	raw            bool
	prefix, indent string
}

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w: w} }

func EncoderSetEscapeHTML(e *Encoder, on bool) { e.raw = !on }

func EncoderSetIndent(e *Encoder, prefix, indent string) { e.prefix, e.indent = prefix, indent }

func EncoderEncode(e *Encoder, v interface{}) error {
	b, err := Marshal(v)
	if err != nil {
		return err
	}
	if e.raw { // only strings hold these escapes
		s := strings.ReplaceAll(string(b), "\\\\", "\x00")
		s = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "\\u003c", "<"), "\\u003e", ">"), "\\u0026", "&")
		b = []byte(strings.ReplaceAll(s, "\x00", "\\\\"))
	}
	if e.prefix != "" || e.indent != "" {
		b = indentJSON(b, e.prefix, e.indent)
	}
	_, err = e.w.Write(append(b, '\n'))
	return err
}

// Decoder stands for json.Decoder.
type Decoder struct {
	r    io.Reader
	data []byte
	read bool
	pos  int
}

func NewDecoder(r io.Reader) *Decoder { return &Decoder{r: r} }

func DecoderDecode(d *Decoder, v interface{}) error {
	if !d.read {
		b, err := io.ReadAll(d.r)
		if err != nil {
			return err
		}
		d.data, d.read = b, true
	}
	p := &jsonParser{b: d.data, i: d.pos}
	p.space()
	if p.i == len(p.b) {
		return io.EOF
	}
	start := p.i
	if !p.value(0) {
		if p.i == len(p.b) {
			return io.ErrUnexpectedEOF
		}
		return &jsonError{"invalid character"}
	}
	d.pos = p.i
	return unmarshalInto(d.data[start:p.i], v)
}

func Valid(data []byte) bool {
	p := &jsonParser{b: data}
	return p.whole()
}

// Unmarshal stands for json.Unmarshal.
func Unmarshal(data []byte, v interface{}) error {
	if !Valid(data) {
		return &jsonError{"invalid JSON"}
	}
	return unmarshalInto(data, v)
}

func unmarshalInto(data []byte, v interface{}) error {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Ptr || rv.IsNil() {
		return &jsonError{"json: Unmarshal of a value that is not a pointer"}
	}
	p := &jsonParser{b: data}
	p.decode(rv.Elem())
	return p.err
}

type jsonParser struct {
	b   []byte
	i   int
	err error
}

func (p *jsonParser) space() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\r' || p.b[p.i] == '\n') {
		p.i++
	}
}

func (p *jsonParser) whole() bool {
	p.space()
	if !p.value(0) {
		return false
	}
	p.space()
	return p.i == len(p.b)
}

func (p *jsonParser) word(w string) bool {
	if p.i+len(w) > len(p.b) || string(p.b[p.i:p.i+len(w)]) != w {
		return false
	}
	p.i += len(w)
	return true
}

func (p *jsonParser) is(c byte) bool {
	if p.i < len(p.b) && p.b[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *jsonParser) digits() bool {
	n := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > n
}

// value skips one value; false when there is none.
func (p *jsonParser) value(depth int) bool {
	if p.i >= len(p.b) || depth > 100 {
		return false
	}
	switch c := p.b[p.i]; {
	case c == '{' || c == '[':
		p.i++
		p.space()
		if p.is(c + 2) {
			return true
		}
		for {
			if c == '{' {
				if !p.str() {
					return false
				}
				p.space()
				if !p.is(':') {
					return false
				}
				p.space()
			}
			if !p.value(depth + 1) {
				return false
			}
			p.space()
			if p.is(c + 2) {
				return true
			}
			if !p.is(',') {
				return false
			}
			p.space()
		}
	case c == '"':
		return p.str()
	case c == 't':
		return p.word("true")
	case c == 'f':
		return p.word("false")
	case c == 'n':
		return p.word("null")
	}
	p.is('-')
	if !p.is('0') && !p.digits() {
		return false
	}
	if p.is('.') && !p.digits() {
		return false
	}
	if p.is('e') || p.is('E') {
		if !p.is('+') {
			p.is('-')
		}
		return p.digits()
	}
	return true
}

func (p *jsonParser) hex() (rune, bool) {
	var r rune
	for k := 0; k < 4; k++ {
		if p.i >= len(p.b) {
			return 0, false
		}
		c := p.b[p.i]
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'f':
			c -= 'a' - 10
		case c >= 'A' && c <= 'F':
			c -= 'A' - 10
		default:
			return 0, false
		}
		p.i++
		r = r<<4 | rune(c)
	}
	return r, true
}

func (p *jsonParser) str() bool {
	_, ok := p.text()
	return ok
}

// text reads a string.
func (p *jsonParser) text() (string, bool) {
	if !p.is('"') {
		return "", false
	}
	var out []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out), true
		case c < ' ':
			return "", false
		case c == '\\':
			if p.i >= len(p.b) {
				return "", false
			}
			c = p.b[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex()
				if !ok {
					return "", false
				}
				if utf16.IsSurrogate(r) {
					at := p.i
					if p.word("\\u") {
						r2, ok := p.hex()
						if !ok {
							return "", false
						}
						if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
							out = utf8.AppendRune(out, d)
							continue
						}
					}
					p.i, r = at, utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", false
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
		default:
			r, n := utf8.DecodeRune(p.b[p.i-1:])
			out = utf8.AppendRune(out, r)
			p.i += n - 1
		}
	}
	return "", false
}

func (p *jsonParser) fail(v reflect.Value) {
	if p.err == nil {
		p.err = &jsonError{"json: cannot unmarshal value into Go value of type " + v.Type().String()}
	}
}

// decode stores the next value, which is known to be well formed.
func (p *jsonParser) decode(v reflect.Value) {
	p.space()
	c := p.b[p.i]
	for {
		if v.Kind() == reflect.Interface && !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() && c != 'n' {
			v = v.Elem()
			continue
		}
		if v.Kind() != reflect.Ptr {
			break
		}
		if c == 'n' {
			break
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	if v.CanAddr() && v.Kind() != reflect.Ptr {
		if u, ok := v.Addr().Interface().(json.Unmarshaler); ok {
			start := p.i
			p.value(0)
			if err := u.UnmarshalJSON(p.b[start:p.i]); err != nil && p.err == nil {
				p.err = err
			}
			return
		}
		if u, ok := v.Addr().Interface().(encoding.TextUnmarshaler); ok && c == '"' {
			s, _ := p.text()
			if err := u.UnmarshalText([]byte(s)); err != nil && p.err == nil {
				p.err = err
			}
			return
		}
	}
	switch {
	case c == 'n':
		p.word("null")
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
			v.Set(reflect.Zero(v.Type()))
		}
	case c == 't' || c == 'f':
		b := p.word("true")
		if !b {
			p.word("false")
		}
		switch {
		case v.Kind() == reflect.Bool:
			v.SetBool(b)
		case v.Kind() == reflect.Interface && v.NumMethod() == 0:
			v.Set(reflect.ValueOf(b))
		default:
			p.fail(v)
		}
	case c == '"':
		s, _ := p.text()
		switch {
		case v.Kind() == reflect.String:
			v.SetString(s)
		case v.Kind() == reflect.Interface && v.NumMethod() == 0:
			v.Set(reflect.ValueOf(s))
		case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil && p.err == nil {
				p.err = err
			} else {
				v.Set(reflect.ValueOf(b))
			}
		default:
			p.fail(v)
		}
	case c == '[':
		p.array(v)
	case c == '{':
		p.object(v)
	default:
		start := p.i
		p.value(0)
		p.number(v, string(p.b[start:p.i]))
	}
}

func (p *jsonParser) number(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(s, 10, v.Type().Bits())
		if err != nil {
			p.fail(v)
			return
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n, err := strconv.ParseUint(s, 10, v.Type().Bits())
		if err != nil {
			p.fail(v)
			return
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(s, v.Type().Bits())
		if err != nil {
			p.fail(v)
			return
		}
		v.SetFloat(n)
	case reflect.Interface:
		n, err := strconv.ParseFloat(s, 64)
		if err != nil || v.NumMethod() > 0 {
			p.fail(v)
			return
		}
		v.Set(reflect.ValueOf(n))
	default:
		p.fail(v)
	}
}

func (p *jsonParser) skip() { p.space(); p.value(0) }

func (p *jsonParser) array(v reflect.Value) {
	start := p.i
	if v.Kind() == reflect.Interface && v.NumMethod() == 0 {
		v.Set(reflect.ValueOf(p.any()))
		return
	}
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		p.fail(v)
		p.skip()
		return
	}
	n := 0
	p.i++
	for p.space(); p.b[p.i] != ']'; p.space() {
		p.skip()
		n++
		p.space()
		p.is(',')
	}
	p.i = start + 1
	if v.Kind() == reflect.Slice {
		v.Set(reflect.MakeSlice(v.Type(), n, n))
	}
	for i := 0; i < n; i++ {
		if i < v.Len() {
			p.decode(v.Index(i))
		} else {
			p.skip()
		}
		p.space()
		p.is(',')
	}
	for i := n; i < v.Len(); i++ {
		v.Index(i).Set(reflect.Zero(v.Type().Elem()))
	}
	p.space()
	p.is(']')
}

// any reads a value of no particular type.
func (p *jsonParser) any() interface{} {
	p.space()
	switch c := p.b[p.i]; c {
	case '[':
		out := []interface{}{}
		p.i++
		for p.space(); !p.is(']'); p.space() {
			out = append(out, p.any())
			p.space()
			p.is(',')
		}
		return out
	case '{':
		out := map[string]interface{}{}
		p.i++
		for p.space(); !p.is('}'); p.space() {
			k, _ := p.text()
			p.space()
			p.is(':')
			out[k] = p.any()
			p.space()
			p.is(',')
		}
		return out
	}
	var x interface{}
	p.decode(reflect.ValueOf(&x).Elem())
	return x
}

type jsonField struct {
	name   string
	index  []int
	quoted bool
}

func jsonFields(t reflect.Type, at []int) []jsonField {
	var out, deep []jsonField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		if k := strings.IndexByte(tag, ','); k >= 0 {
			name, opts = tag[:k], tag[k:]
		}
		index := append(append([]int{}, at...), i)
		if f.Anonymous && name == "" {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				deep = append(deep, jsonFields(ft, index)...)
				continue
			}
		}
		if !f.IsExported() {
			continue
		}
		if name == "" {
			name = f.Name
		}
		out = append(out, jsonField{name, index, strings.Contains(opts, ",string")})
	}
	return append(out, deep...)
}

func (p *jsonParser) object(v reflect.Value) {
	if v.Kind() == reflect.Interface && v.NumMethod() == 0 {
		v.Set(reflect.ValueOf(p.any()))
		return
	}
	var fields []jsonField
	switch v.Kind() {
	case reflect.Struct:
		fields = jsonFields(v.Type(), nil)
	case reflect.Map:
		if k := v.Type().Key().Kind(); k != reflect.String && (k < reflect.Int || k > reflect.Uintptr) {
			p.fail(v)
			p.skip()
			return
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
	default:
		p.fail(v)
		p.skip()
		return
	}
	p.i++
	for p.space(); !p.is('}'); p.space() {
		k, _ := p.text()
		p.space()
		p.is(':')
		if v.Kind() == reflect.Map {
			e := reflect.New(v.Type().Elem()).Elem()
			p.decode(e)
			key := reflect.New(v.Type().Key()).Elem()
			if key.Kind() == reflect.String {
				key.SetString(k)
				v.SetMapIndex(key, e)
			} else {
				before := p.err
				p.number(key, k)
				if p.err == before {
					v.SetMapIndex(key, e)
				}
			}
		} else {
			found := -1
			for i, f := range fields {
				if f.name == k {
					found = i
					break
				}
			}
			for i, f := range fields {
				if found < 0 && strings.EqualFold(f.name, k) {
					found = i
				}
			}
			if found < 0 {
				p.skip()
			} else {
				f := v
				for j, x := range fields[found].index {
					if j > 0 && f.Kind() == reflect.Ptr {
						if f.IsNil() {
							f.Set(reflect.New(f.Type().Elem()))
						}
						f = f.Elem()
					}
					f = f.Field(x)
				}
				p.decode(f)
			}
		}
		p.space()
		p.is(',')
	}
}
