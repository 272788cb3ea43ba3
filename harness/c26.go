package main

import (
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/utils"
	"veltyverif/sym"
)

// c26Same formats v into a destination that is larger than needed and compares it with the standard library.
func c26Same(v int64, base int) {
	want := strconv.AppendInt(nil, v, base)
	back := make([]byte, 80)
	for i := range back {
		back[i] = '~'
	}
	dst := back[4:72]
	n := utils.AppendInt(dst, v, base)
	sym.Assert(n == len(want), "the reported length is that of the standard formatter")
	same := true
	for i := range want {
		same = sym.And(same, dst[i] == want[i])
	}
	sym.Assert(same, "the digits are those of the standard formatter")
	sym.Assert(string(back[:4]) == "~~~~" && string(back[72:]) == "~~~~~~~~", "nothing outside the destination is written")
}

// C26_decimal: every int64 in base 10.
func C26_decimal() {
	sym.Opt("realints", 1)
	c26Same(sym.Int64("v"), 10)
	sym.Reach("end")
}

// C26_base: every int64 in every base.
func C26_base() {
	sym.Opt("realints", 1)
	bases := []int{2, 3, 7, 8, 16, 32, 35, 36}
	base := 0
	if sym.Thorough() {
		base = 2 + sym.Choice("base", 35)
	} else {
		base = bases[sym.Choice("base", len(bases))]
	}
	v := sym.Int64("v")
	c26Same(v, base)
	sym.Reach("end")
}

// C26_reference: small values against digits computed by their definition.
func C26_reference() {
	sym.Opt("realints", 1)
	v := sym.IntIn("v", -9999, 9999)
	dst := make([]byte, 70)
	n := utils.AppendInt(dst, int64(v), 10)
	i, u := 0, v
	if v < 0 {
		sym.Assert(dst[0] == '-', "a negative number starts with the sign")
		i, u = 1, -v
	}
	sum := 0
	for ; i < n; i++ {
		sym.Assert(dst[i] >= '0' && dst[i] <= '9', "only digits follow")
		sum = sum*10 + int(dst[i]-'0')
	}
	sym.Assert(sum == u, "the digits denote the value")
	first := 0
	if v < 0 {
		first = 1
	}
	sym.Assert(n > first && (dst[first] != '0' || n == first+1), "there are no leading zeros")
	sym.Reach("end")
}

// C26_buffer: integers appended to a buffer and rendered by a template.
func C26_buffer() {
	sym.Opt("realints", 1)
	v := sym.Int("v")
	want := strconv.FormatInt(int64(v), 10)
	size := sym.Choice("size", 4)
	b := est.NewBuffer([]int{0, 1, 66, 200}[size], false)
	b.AppendString("a")
	b.AppendInt(v)
	b.AppendString("b")
	sym.Assert(b.String() == "a"+want+"b", "a buffer receives the digits")
	sym.Reach("end")
}

// C26_render: integers rendered by templates.
func C26_render() {
	sym.Opt("realints", 1)
	x := sym.Int("x")
	ex, ns := plan("<$x>", []velty.Option{velty.BufferSize(sym.Choice("buffer", 3) * 40)}, v("x", x))
	st := ns()
	set(st, v("x", x))
	sym.Assert(ex.Exec(st) == nil, "execution succeeds")
	sym.Assert(st.Buffer.String() == "<"+strconv.FormatInt(int64(x), 10)+">", "the digits are rendered")
	sym.Reach("end")
}

// C26_edges: neighbourhoods of the boundaries of number widths and of lengths of numbers.
func C26_edges() {
	sym.Opt("realints", 1)
	at := []int64{-1 << 63, -1 << 62, -1 << 53, -1 << 32, -1 << 31, -1 << 16, -1 << 8, 0, 100, 10000, 1 << 16, 1 << 31, 1 << 32, 1000000000, 1 << 53, 1 << 62, 1000000000000000000, 1<<63 - 1}
	base := at[sym.Choice("at", len(at))]
	d := sym.IntIn("d", 0, sym.N(40, 400))
	v := base
	if base > 0 {
		v -= int64(d)
	} else if base < 0 {
		v += int64(d)
	} else {
		v += int64(d) - 20
	}
	c26Same(v, []int{10, 16, 7}[sym.Choice("base", sym.N(1, 3))])
	sym.Reach("end")
}
