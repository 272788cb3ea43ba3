package main

import (
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// the elements a template is composed of
const (
	c23Text = iota
	c23If
	c23Else
	c23End
	c23ElseIf
	c23Each
	c23For
	c23Set
	c23Ref
	c23IfNot
)

type c23W struct {
	toks  []int
	texts []string
	p     [3]bool // the conditions
	x     int
	out   string
}

// block evaluates tokens from i up to the directive that ends the block; run tells whether it is executed. It returns
// the position of the terminator, or -1 when the structure is broken.
func (w *c23W) block(i int, run bool, depth int) int {
	for i < len(w.toks) {
		switch w.toks[i] {
		case c23Text:
			if run {
				w.out += w.texts[i]
			}
			i++
		case c23Ref:
			if run {
				w.out += strconv.Itoa(w.x)
			}
			i++
		case c23Set:
			if run {
				w.x = w.x*2 + 1
			}
			i++
		case c23If, c23IfNot:
			cond := w.p[i%3]
			if w.toks[i] == c23IfNot {
				cond = !cond
			}
			done := false
			take := run && cond
			elsed := false
			for {
				i = w.block(i+1, take, depth+1)
				if i < 0 || i >= len(w.toks) {
					return -1
				}
				done = done || take
				t := w.toks[i]
				if t == c23End {
					break
				}
				if elsed {
					return -1
				}
				take = run && !done
				if t == c23Else {
					elsed = true
				} else {
					take = take && w.p[i%3]
				}
			}
			i++
		case c23Each, c23For:
			at := i
			for k := 0; k < 2; k++ {
				i = w.block(at+1, run, depth+1)
				if i < 0 || i >= len(w.toks) || w.toks[i] != c23End {
					return -1
				}
			}
			i++
		default: // a terminator
			if depth == 0 {
				return -1
			}
			return i
		}
	}
	if depth > 0 {
		return -1
	}
	return i
}

func c23Run(toks []int, brace bool) {
	w := &c23W{toks: toks, x: 1}
	w.p = [3]bool{sym.Bool("p"), sym.Bool("q"), sym.Bool("r")}
	cond := []string{"$p", "$q", "$r"}
	els, end := "#else", "#end"
	if brace {
		els, end = "#{else}", "#{end}"
	}
	tpl := ""
	for i, t := range toks {
		n := strconv.Itoa(i)
		text := ""
		switch t {
		case c23Text:
			text = sym.StrOf("t"+n, 1, 1, "e (\n")
			tpl += text
		case c23If:
			tpl += "#if(" + cond[i%3] + ")"
		case c23IfNot:
			tpl += "#if(!" + cond[i%3] + ")"
		case c23Else:
			tpl += els
		case c23End:
			tpl += end
		case c23ElseIf:
			tpl += "#elseif(" + cond[i%3] + ")"
		case c23Each:
			tpl += "#foreach($e" + n + " in $xs)"
		case c23For:
			tpl += "#for($i" + n + " = 0; $i" + n + " < 2; $i" + n + "++)"
		case c23Set:
			tpl += "#set($x = $x * 2 + 1)"
		case c23Ref:
			tpl += "${x}"
		}
		w.texts = append(w.texts, text)
	}
	vars := []kv{v("p", w.p[0]), v("q", w.p[1]), v("r", w.p[2]), v("x", 1), v("xs", []int{7, 8})}
	p := velty.New()
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	ok := w.block(0, true, 0) >= 0
	if !ok {
		sym.Assert(err != nil, "an unbalanced template is rejected: "+tpl)
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "a balanced template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == w.out, "blocks are nested as written: "+tpl)
	sym.Reach("accepted")
}

// C23_sequence: every sequence of directives up to a length.
func C23_sequence() {
	n := 1 + sym.Choice("n", sym.N(4, 5))
	kinds := 10
	toks := make([]int, n)
	for i := range toks {
		toks[i] = sym.Choice("k"+strconv.Itoa(i), kinds)
	}
	c23Run(toks, false)
}

// C23_blocks: longer sequences of block directives.
func C23_blocks() {
	n := sym.N(6, 7)
	toks := make([]int, n)
	open, ends := 0, 0
	for i := range toks {
		toks[i] = sym.Choice("k"+strconv.Itoa(i), 6)
		switch toks[i] {
		case c23If, c23Each:
			open++
		case c23End:
			ends++
		}
	}
	// one directive off balance at the most
	sym.Assume(open-ends <= 1 && ends-open <= 1 && open > 1)
	c23Run(toks, sym.Choice("brace", 2) == 1)
}

var c23Heads = []string{"#if()", "#if( )", "#if($p", "#if $p", "#if(p)", "#if($p $q)", "#if($p) ==", "#if((", "#if($p &&)", "#if(&& $p)", "#if($x ==)", "#if(!)", "#elseif()", "#elseif", "#elseif($p", "#foreach($i $xs)", "#foreach($i in )", "#foreach(i in $xs)", "#foreach($i in xs)", "#foreach()", "#foreach", "#foreach($i in [1..3])", "#foreach($i in [a...b])", "#foreach($i, in $xs)",
	"#for($i)", "#for($i = 0; $i < 2)", "#for()", "#for", "#for(;;)", "#for(i = 0; $i < 2; $i++)", "#for($i = 0, $i < 2, $i++)", "#set($z)", "#set($z = )", "#set(z = 1)", "#set()", "#set", "#set($z == 1)", "#set($z = 1", "#set(= 1)", "#evaluate()", "#evaluate", "#evaluate($p", "#{if}($p)", "#{foreach}($i in $xs)", "#{set}($z = 1)", "#{}", "#{x}", "#[[", "#[", "#IF($p)", "#End", "# end", "#"}

// C23_malformed: a directive that is not complete is an error or text.
func C23_malformed() {
	h := c23Heads[sym.Choice("head", len(c23Heads))]
	a, b := sym.StrOf("a", 0, 1, "a \n"), sym.StrOf("b", 0, sym.N(1, 2), " )}\"")
	if strings.Count(h, "(") > strings.Count(h, ")") { // the text would complete the directive
		for i := 0; i < len(b); i++ {
			sym.Assume(b[i] != ')')
		}
	}
	p, q := sym.Bool("p"), sym.Bool("q")
	inner := a + h + b
	tpl, raw, text := inner, inner, inner
	c23Subst(&text, q, p)
	// wrap puts the text into the enclosing block
	wrap := func(text string) string { return text }
	switch sym.Choice("in", 4) {
	case 1:
		tpl = "<#if($p)" + inner + "#end>"
		wrap = func(text string) string {
			if p {
				return "<" + text + ">"
			}
			return "<>"
		}
	case 2:
		tpl = "<#foreach($e in $xs)" + inner + "#end>"
		wrap = func(text string) string { return "<" + text + text + ">" }
	case 3:
		tpl = "<#if(!$p)" + inner + "#{else}" + inner + "#end>"
		wrap = func(text string) string { return "<" + text + ">" }
	}
	vars := []kv{v("p", p), v("q", q), v("x", 1), v("xs", []int{7, 8})}
	pl := velty.New()
	for _, x := range vars {
		sym.Assert(pl.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := pl.Compile([]byte(tpl))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	out := st.Buffer.String()
	sym.Observe("out", out)
	sym.Assert(out == wrap(text) || out == wrap(raw), "an incomplete directive is text: "+tpl)
	sym.Reach("text")
}

// c23Subst replaces the references that are part of the text.
func c23Subst(s *string, q, p bool) {
	vals := map[string]string{"p": strconv.FormatBool(p), "q": strconv.FormatBool(q), "x": "1", "xs": "[7,8]"}
	r := ""
	for i := 0; i < len(*s); i++ {
		if (*s)[i] == '$' {
			j := i + 1
			for j < len(*s) && (*s)[j] >= 'a' && (*s)[j] <= 'z' {
				j++
			}
			if val, ok := vals[(*s)[i+1:j]]; ok {
				r += val
				i = j - 1
				continue
			}
		}
		r += (*s)[i : i+1]
	}
	*s = r
}
