package main

import (
	"errors"
	"io"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/zzverif/sym"
)

// A token language with one-byte tokens: operands '0'..'9', prefix operator '~', infix operators
// 'A'..'C' with symbolic precedences, parentheses.
type lexer struct {
	prec [3]int
	neg  int
}

type node struct {
	op   byte
	l, r *node
}

type operand byte
type neg struct{ lx *lexer }
type paren struct{ lx *lexer }
type infix struct {
	lx *lexer
	op byte
	p  int
}

var errParse = errors.New("parse error")

func (lx *lexer) PrefixToken(src *parse.Source) parse.PrefixToken {
	if len(src.Peek()) == 0 {
		return nil
	}
	switch c := src.Peek1(); {
	case c >= '0' && c <= '9':
		return operand(c)
	case c == '~':
		return &neg{lx}
	case c == '(':
		return &paren{lx}
	}
	return nil
}

func (lx *lexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	sym.Assert(src.Error() == nil && len(src.Peek()) > 0, "no operator is asked for after the end of the input or an error")
	c := src.Peek()[0]
	if c >= 'A' && c <= 'C' {
		p := lx.prec[c-'A']
		return &infix{lx, c, p}, p
	}
	return nil, 0
}

func asNode(x interface{}) *node {
	n, _ := x.(*node)
	return n
}

func (o operand) PrefixParse(src *parse.Source) interface{} {
	src.ConsumeN(1)
	return &node{op: byte(o)}
}
func (t *neg) PrefixParse(src *parse.Source) interface{} {
	src.ConsumeN(1)
	return &node{op: '~', l: asNode(parse.Parse(src, t.lx, t.lx.neg))}
}
func (t *paren) PrefixParse(src *parse.Source) interface{} {
	src.ConsumeN(1)
	x := parse.Parse(src, t.lx, 0)
	src.Consume1(')')
	return x
}
func (t *infix) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.ConsumeN(1)
	return &node{op: t.op, l: asNode(left), r: asNode(parse.Parse(src, t.lx, t.p))}
}

func render(n *node, out []byte, depth int) []byte {
	if n == nil || depth > 12 {
		return append(out, '?')
	}
	if n.l == nil && n.r == nil && n.op >= '0' && n.op <= '9' {
		return append(out, n.op)
	}
	out = append(out, '(')
	if n.op == '~' {
		out = append(out, '~')
		out = render(n.l, out, depth+1)
	} else {
		out = render(n.l, out, depth+1)
		out = append(out, n.op)
		out = render(n.r, out, depth+1)
	}
	return append(out, ')')
}

// reference: shunting-yard over the token list, independent of the code under test
type ref struct {
	ops  []byte
	vals []*node
	prec [3]int
	neg  int
}

func (r *ref) p(op byte) int {
	if op == '~' {
		return r.neg
	}
	return r.prec[op-'A']
}
func (r *ref) reduce() {
	op := r.ops[len(r.ops)-1]
	r.ops = r.ops[:len(r.ops)-1]
	n := len(r.vals)
	if op == '~' {
		r.vals[n-1] = &node{op: '~', l: r.vals[n-1]}
		return
	}
	r.vals[n-2] = &node{op: op, l: r.vals[n-2], r: r.vals[n-1]}
	r.vals = r.vals[:n-1]
}

func precs() [3]int {
	var p [3]int
	for i := range p {
		p[i] = sym.IntIn("prec", 1, 1<<30)
	}
	return p
}

// Pratt: well formed expressions: operand (op operand)*, operands optionally negated or parenthesised.
func Pratt() {
	prec := precs()
	neg := 1 << 31
	if sym.Param("neg", 0) == 1 {
		neg = sym.IntIn("neg", 1, 1<<30)
	}
	n := 1 + sym.Choice("operands", sym.Param("operands", 4))
	r := &ref{prec: prec, neg: neg}
	var text []byte
	open := 0
	for i := 0; i < n; i++ {
		switch sym.Choice("pre", 3) {
		case 1:
			text = append(text, '~')
			r.ops = append(r.ops, '~')
		case 2:
			if open < 1 && i < n-1 {
				text = append(text, '(')
				r.ops = append(r.ops, '(')
				open++
			}
		}
		d := byte('0' + i)
		text = append(text, d)
		r.vals = append(r.vals, &node{op: d})
		if open > 0 && (i == n-1 || sym.Choice("close", 2) == 1) {
			text = append(text, ')')
			for r.ops[len(r.ops)-1] != '(' {
				r.reduce()
			}
			r.ops = r.ops[:len(r.ops)-1]
			open--
		}
		if i < n-1 {
			op := byte('A' + sym.Choice("op", 3))
			text = append(text, op)
			for len(r.ops) > 0 && r.ops[len(r.ops)-1] != '(' && r.p(r.ops[len(r.ops)-1]) >= r.p(op) {
				r.reduce()
			}
			r.ops = append(r.ops, op)
		}
	}
	for len(r.ops) > 0 {
		r.reduce()
	}
	want := render(r.vals[0], nil, 0)
	lx := &lexer{prec: prec, neg: neg}
	var got interface{}
	if sym.Choice("api", 2) == 0 {
		v, err := parse.String(string(text), lx)
		sym.Assert(err == nil, "a well formed expression parses without error")
		got = v
	} else {
		src, err := parse.NewSource(&cutReader{data: append([]byte(nil), text...), cut: sym.Choice("cut", len(text)), with: sym.Choice("with", 2) == 1}, make([]byte, len(text)))
		sym.Assert(err == nil, "NewSource")
		got = parse.Parse(src, lx, 0)
		sym.Assert(src.Error() == nil || src.Error() == io.EOF, "a well formed expression parses without error")
		rest := drain(src, len(text)+3)
		sym.Assert(len(rest) == 0, "the whole expression is consumed")
	}
	g := render(asNode(got), nil, 0)
	sym.Obs("tree", g)
	sym.Assert(eq(g, want), "the tree follows precedence and left associativity")
	sym.Reach("checked")
}

func eq(a, b []byte) bool { return len(a) == len(b) && isPrefix(a, b) }

// PrattErr: token sequences that are not expressions are reported as errors.
func PrattErr() {
	prec := precs()
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	text := sym.BytesOf("tok", n, "0~(AB)x")
	lx := &lexer{prec: prec, neg: 1 << 31}
	v, err := parse.String(string(text), lx)
	// recogniser: operand expected / operator expected states with a paren depth
	ok := true
	want := true // operand expected
	depth := 0
	end := n
	for i := 0; i < n && ok; i++ {
		c := text[i]
		if want {
			switch c {
			case '0':
				want = false
			case '~':
			case '(':
				depth++
			default:
				ok = false
			}
		} else {
			switch c {
			case 'A', 'B':
				want = true
			case ')':
				if depth > 0 {
					depth--
				} else {
					end = i // the expression ends here, trailing text
					i = n
				}
			default:
				if depth > 0 {
					ok = false
				} else {
					end = i
					i = n
				}
			}
		}
	}
	if want || depth > 0 {
		ok = false
	}
	sym.ObsBool("err", err != nil)
	if ok {
		sym.Assert(err == nil && asNode(v) != nil, "an expression parses")
		_ = end
		sym.Reach("accepted")
	} else {
		sym.Assert(err != nil, "a malformed expression is reported as an error")
		sym.Reach("rejected")
	}
}
