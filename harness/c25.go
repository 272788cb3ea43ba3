package main

import (
	"html"
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

// c25Op appends one value of the chosen kind and returns its text.
func c25Op(b *est.Buffer, i, kind int, esc bool) string {
	k := strconv.Itoa(i)
	switch kind {
	case 0:
		s := sym.StrOf("s"+k, 0, sym.N(2, 3), "a<&\x00\xff")
		b.AppendString(s)
		if esc {
			return html.EscapeString(s)
		}
		return s
	case 1:
		s := sym.Str("r"+k, 2) + "<"
		b.AppendStringWithoutEscaping(s)
		return s
	case 2:
		c := sym.Byte("c" + k)
		b.AppendByte(c)
		return string([]byte{c})
	case 3:
		v := sym.Int("i" + k)
		b.AppendInt(v)
		return strconv.FormatInt(int64(v), 10)
	case 4:
		v := sym.Bool("b" + k)
		b.AppendBool(v)
		return strconv.FormatBool(v)
	case 5:
		v := sym.Float64("f" + k)
		b.AppendFloat(v)
		return strconv.FormatFloat(v, 'f', -1, 64)
	case 6:
		s := ""
		n := []int{1, 2, 15, 16, 17, 33, 64, 100}[sym.Choice("len"+k, 8)]
		for j := 0; j < n; j++ {
			s += string(rune('a' + (i+j)%26))
		}
		b.AppendString(s)
		return s
	default:
		v := []int{0, 7, -1, 42, 100, -9223372036854775808, 9223372036854775807}[sym.Choice("n"+k, 7)]
		b.AppendInt(v)
		return strconv.Itoa(v)
	}
}

// C25_appends: any sequence of appends to a buffer of any initial size.
func C25_appends() {
	size := []int{0, 1, 2, 16, 17, 66, 70}[sym.Choice("size", 7)]
	esc := sym.Choice("esc", 2) == 1
	b := est.NewBuffer(size, esc)
	n := sym.N(2, 3)
	want := ""
	for i := 0; i < n; i++ {
		kinds := 8
		if i == 2 {
			kinds = 4
		}
		want += c25Op(b, i, sym.Choice("op"+strconv.Itoa(i), kinds), esc)
		sym.Assert(b.String() == want, "the contents are the concatenation of the appended texts")
	}
	sym.Assert(string(b.Bytes()) == want, "Bytes are the contents")
	sym.Reach("end")
}

// C25_sizes: lengths around the capacity, for every small size and every split into two appends.
func C25_sizes() {
	size := sym.IntIn("size", 0, sym.N(8, 12))
	size = sym.ConcreteInt(size)
	b := est.NewBuffer(size, false)
	want := ""
	for i := 0; i < 3; i++ {
		k := sym.Choice("len"+strconv.Itoa(i), sym.N(7, 12))
		s := ""
		for j := 0; j < k; j++ {
			s += string(rune('a' + i*8 + j))
		}
		switch i {
		case 2:
			for j := 0; j < k; j++ {
				b.AppendByte(s[j])
			}
		case 1:
			b.AppendStringWithoutEscaping(s)
		default:
			b.AppendString(s)
		}
		want += s
		sym.Assert(b.String() == want, "nothing is truncated or overwritten")
	}
	sym.Reach("end")
}

// C25_reset: a reset buffer behaves like an empty one, and earlier results stay what they were.
func C25_reset() {
	esc := sym.Choice("esc", 2) == 1
	b := est.NewBuffer([]int{0, 1, 16, 80}[sym.Choice("size", 4)], esc)
	first := c25Op(b, 0, sym.Choice("op0", 8), esc)
	got := b.String()
	b.Reset()
	sym.Assert(b.String() == "" && len(b.Bytes()) == 0, "a reset buffer is empty")
	second := c25Op(b, 1, sym.Choice("op1", 8), esc)
	sym.Assert(b.String() == second, "a reset buffer holds only what is appended after the reset")
	sym.Assert(got == first, "a string taken before the reset does not change")
	b.Reset()
	b.Reset()
	sym.Assert(b.String() == "", "a buffer can be reset again")
	sym.Reach("end")
}

// C25_render: output of a template of any length and buffer size.
func C25_render() {
	opts := []velty.Option{velty.BufferSize([]int{0, 1, 2, 32, 1024}[sym.Choice("size", 5)])}
	esc := sym.Choice("esc", 2) == 1
	if esc {
		opts = append(opts, velty.EscapeHTML(true))
	}
	n, x, s, b, f := sym.N(3, 4), sym.Int("x"), sym.StrOf("s", 0, 2, "a<&"), sym.Bool("b"), sym.Float64("f")
	tpl, want := "", ""
	es := s
	if esc {
		es = html.EscapeString(s)
	}
	for i := 0; i < n; i++ {
		k := 5
		if i > 3 {
			k = 3
		}
		switch sym.Choice("part"+strconv.Itoa(i), k) {
		case 0:
			tpl += "$x"
			want += strconv.Itoa(x)
		case 1:
			tpl += "<text that is longer than a small buffer>"
			want += "<text that is longer than a small buffer>"
		case 2:
			tpl += "${s}"
			want += es
		case 3:
			tpl += "${b}"
			want += strconv.FormatBool(b)
		case 4:
			tpl += "${f}."
			want += strconv.FormatFloat(f, 'f', -1, 64) + "."
		}
	}
	vars := []kv{v("x", x), v("s", s), v("b", b), v("f", f)}
	ex, ns := plan(tpl, opts, vars...)
	for i := 0; i < 2; i++ {
		st := ns()
		set(st, vars...)
		sym.Assert(ex.Exec(st) == nil, "execution succeeds")
		sym.Assert(st.Buffer.String() == want, "the output is the concatenation of its parts")
		st.Reset()
		sym.Assert(ex.Exec(st) == nil, "execution succeeds")
		sym.Assert(st.Buffer.String() == want, "the output after a reset is the same")
	}
	sym.Reach("end")
}
