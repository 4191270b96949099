package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector / boolean / IEEE-bits terms. W==0 is Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // C + sum K[i]*A[i], guaranteed not to overflow W bits (unsigned)
	OAdd
	OSub
	OMul
	OMulHi
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // C = low bit
	OConcat  // A[0] high, A[1] low
	OIte
	OTable // K = values, A[0] = index (any width); index known < len(K)
	// bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	// fp on bits; W is the result width
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToFP   // float<->float conversion
	OFFromSI // signed int -> float
	OFFromUI
	OFToSI // float -> signed int (C=1: amd64 semantics handled by caller)
	OFToUI
	OFSqrt
	OFFloor
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

type Term struct {
	Op     Op
	W      uint8
	id     int32
	C      uint64
	K      []uint64
	A      []*Term
	lo, hi uint64
	vars   *varset
	name   string
	mk     uint64 // eval memo stamp
	mv     uint64
	nk     *Term // cached negation
}

// varset: sorted distinct variable ids, interned enough to be cheap
type varset struct {
	ids []int32
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 int32
	h          string
}

type TermCtx struct {
	tab   map[tkey]*Term
	next  int32
	vars  []*Term // by var index
	byNm  map[string]*Term
	True  *Term
	False *Term
	stamp uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, byNm: map[string]*Term{}}
	c.True = c.mk(&Term{Op: OConst, W: 0, C: 1, lo: 1, hi: 1})
	c.False = c.mk(&Term{Op: OConst, W: 0, C: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (1 << w) - 1
}

func (c *TermCtx) mk(t *Term) *Term {
	k := tkey{op: t.Op, w: t.W, c: t.C, a0: -1, a1: -1, a2: -1}
	n := len(t.A)
	if n > 0 {
		k.a0 = t.A[0].id
	}
	if n > 1 {
		k.a1 = t.A[1].id
	}
	if n > 2 {
		k.a2 = t.A[2].id
	}
	if n > 3 || t.K != nil || t.name != "" {
		var sb strings.Builder
		sb.WriteString(t.name)
		for i := 3; i < n; i++ {
			fmt.Fprintf(&sb, "|%d", t.A[i].id)
		}
		for _, v := range t.K {
			fmt.Fprintf(&sb, ",%d", v)
		}
		k.h = sb.String()
	}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.next
	c.next++
	// vars
	if t.Op == OVar {
		t.vars = &varset{ids: []int32{t.id}}
	} else {
		for _, a := range t.A {
			t.vars = unionVars(t.vars, a.vars)
		}
	}
	c.tab[k] = t
	return t
}

func unionVars(a, b *varset) *varset {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	// subset fast check
	i, j := 0, 0
	x, y := a.ids, b.ids
	na, nb := 0, 0 // elements only in a / only in b
	for i < len(x) && j < len(y) {
		if x[i] == y[j] {
			i++
			j++
		} else if x[i] < y[j] {
			i++
			na++
		} else {
			j++
			nb++
		}
	}
	na += len(x) - i
	nb += len(y) - j
	if nb == 0 {
		return a
	}
	if na == 0 {
		return b
	}
	out := make([]int32, 0, len(x)+nb)
	i, j = 0, 0
	for i < len(x) || j < len(y) {
		if j >= len(y) || (i < len(x) && x[i] < y[j]) {
			out = append(out, x[i])
			i++
		} else if i >= len(x) || y[j] < x[i] {
			out = append(out, y[j])
			j++
		} else {
			out = append(out, x[i])
			i++
			j++
		}
	}
	return &varset{ids: out}
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.True
		}
		return c.False
	}
	v &= mask(w)
	return c.mk(&Term{Op: OConst, W: w, C: v, lo: v, hi: v})
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(name string, w uint8, lo, hi uint64) *Term {
	// the shape is part of the name: the same position can have different shapes on different paths,
	// and models travel between workers by name
	name = fmt.Sprintf("%s_%d_%x_%x", name, w, lo, hi)
	if t, ok := c.byNm[name]; ok {
		return t
	}
	t := c.mk(&Term{Op: OVar, W: w, name: name, lo: lo, hi: hi})
	c.byNm[name] = t
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }

// ---- linear forms

type lin struct {
	c  uint64
	ks []uint64
	as []*Term
}

func (t *Term) linOf() lin {
	switch t.Op {
	case OConst:
		return lin{c: t.C}
	case OLin:
		return lin{c: t.C, ks: t.K, as: t.A}
	}
	return lin{ks: []uint64{1}, as: []*Term{t}}
}

func addOv(a, b, m uint64) (uint64, bool) {
	s, cy := bits.Add64(a, b, 0)
	if cy != 0 || s > m {
		return 0, true
	}
	return s, false
}
func mulOv(a, b, m uint64) (uint64, bool) {
	h, l := bits.Mul64(a, b)
	if h != 0 || l > m {
		return 0, true
	}
	return l, false
}

func (c *TermCtx) mkLin(w uint8, l lin) *Term {
	// drop zero coefs
	n := 0
	for i := range l.ks {
		if l.ks[i] != 0 {
			n++
		}
	}
	if n != len(l.ks) {
		ks := make([]uint64, 0, n)
		as := make([]*Term, 0, n)
		for i := range l.ks {
			if l.ks[i] != 0 {
				ks = append(ks, l.ks[i])
				as = append(as, l.as[i])
			}
		}
		l.ks, l.as = ks, as
	}
	if len(l.ks) == 0 {
		return c.Const(w, l.c)
	}
	if len(l.ks) == 1 && l.ks[0] == 1 && l.c == 0 {
		return l.as[0]
	}
	m := mask(w)
	lo, hi := l.c, l.c
	for i := range l.ks {
		a, ov1 := mulOv(l.ks[i], l.as[i].lo, m)
		b, ov2 := mulOv(l.ks[i], l.as[i].hi, m)
		var ov3, ov4 bool
		lo, ov3 = addOv(lo, a, m)
		hi, ov4 = addOv(hi, b, m)
		if ov1 || ov2 || ov3 || ov4 {
			return nil
		}
	}
	return c.mk(&Term{Op: OLin, W: w, C: l.c, K: l.ks, A: l.as, lo: lo, hi: hi})
}

func linAdd(a, b lin, m uint64) (lin, bool) {
	cc, ov := addOv(a.c, b.c, m)
	if ov {
		return lin{}, false
	}
	r := lin{c: cc}
	i, j := 0, 0
	for i < len(a.as) || j < len(b.as) {
		if j >= len(b.as) || (i < len(a.as) && a.as[i].id < b.as[j].id) {
			r.ks = append(r.ks, a.ks[i])
			r.as = append(r.as, a.as[i])
			i++
		} else if i >= len(a.as) || b.as[j].id < a.as[i].id {
			r.ks = append(r.ks, b.ks[j])
			r.as = append(r.as, b.as[j])
			j++
		} else {
			k, ov := addOv(a.ks[i], b.ks[j], m)
			if ov {
				return lin{}, false
			}
			r.ks = append(r.ks, k)
			r.as = append(r.as, a.as[i])
			i++
			j++
		}
	}
	return r, true
}

// linSub: exact only if all coefficients stay non-negative
func linSub(a, b lin) (lin, bool) {
	if a.c < b.c {
		return lin{}, false
	}
	r := lin{c: a.c - b.c}
	i, j := 0, 0
	for i < len(a.as) || j < len(b.as) {
		if j >= len(b.as) || (i < len(a.as) && a.as[i].id < b.as[j].id) {
			r.ks = append(r.ks, a.ks[i])
			r.as = append(r.as, a.as[i])
			i++
		} else if i >= len(a.as) || b.as[j].id < a.as[i].id {
			return lin{}, false
		} else {
			if a.ks[i] < b.ks[j] {
				return lin{}, false
			}
			r.ks = append(r.ks, a.ks[i]-b.ks[j])
			r.as = append(r.as, a.as[i])
			i++
			j++
		}
	}
	return r, true
}

func (c *TermCtx) raw(op Op, w uint8, lo, hi uint64, a ...*Term) *Term {
	return c.mk(&Term{Op: op, W: w, A: a, lo: lo, hi: hi})
}

const maxTab = 1 << 16

// mapTable applies f to a table / ite-of-consts term. ok=false if not applicable
func (c *TermCtx) mapTable(t *Term, w uint8, f func(uint64) uint64) (*Term, bool) {
	switch t.Op {
	case OTable:
		ks := make([]uint64, len(t.K))
		for i, v := range t.K {
			ks[i] = f(v) & mask(w)
		}
		return c.Table(w, ks, t.A[0]), true
	case OIte:
		if t.A[1].IsConst() && t.A[2].IsConst() {
			return c.Ite(t.A[0], c.Const(w, f(t.A[1].C)), c.Const(w, f(t.A[2].C))), true
		}
		if t.A[1].IsConst() || t.A[2].IsConst() {
			// nested chain of consts
			if chainConst(t, 8) {
				return c.mapChain(t, w, f), true
			}
		}
	}
	return nil, false
}

func chainConst(t *Term, d int) bool {
	if t.IsConst() {
		return true
	}
	if d == 0 || t.Op != OIte {
		return false
	}
	return chainConst(t.A[1], d-1) && chainConst(t.A[2], d-1)
}
func (c *TermCtx) mapChain(t *Term, w uint8, f func(uint64) uint64) *Term {
	if t.IsConst() {
		return c.Const(w, f(t.C))
	}
	return c.Ite(t.A[0], c.mapChain(t.A[1], w, f), c.mapChain(t.A[2], w, f))
}

func (c *TermCtx) Table(w uint8, ks []uint64, idx *Term) *Term {
	if idx.IsConst() {
		return c.Const(w, ks[idx.C])
	}
	same := true
	lo, hi := ks[0], ks[0]
	for _, v := range ks {
		if v != ks[0] {
			same = false
		}
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	if same {
		return c.Const(w, ks[0])
	}
	// a table indexed by a linear form that depends on only some of its variables
	if idx.Op == OLin && len(idx.A) >= 2 {
		if r := c.tableSplit(w, ks, idx); r != nil {
			return r
		}
	}
	if w == 0 {
		// turn into interval disjunction
		return c.boolTable(ks, idx)
	}
	// affine on the reachable range of the index?
	if il, ih := idx.lo, idx.hi; ih < uint64(len(ks)) && ih > il {
		st := ks[il+1] - ks[il]
		aff := ks[il+1] > ks[il]
		for i := il + 1; aff && i <= ih; i++ {
			aff = ks[i]-ks[i-1] == st && ks[i] > ks[i-1]
		}
		if aff {
			// value = ks[il] + st*(idx-il)
			x := idx
			k0 := ks[il]
			if ks[il] >= st*il {
				k0 = ks[il] - st*il
			} else {
				x = c.Sub(idx, c.Const(idx.W, il))
			}
			if x.W < w {
				x = c.Zext(x, w)
			} else if x.W > w {
				if ih <= mask(w) {
					x = c.Extract(x, 0, w)
				} else {
					x = nil
				}
			}
			if x != nil {
				if r := c.Add(c.Mul(x, c.Const(w, st)), c.Const(w, k0)); r.Op == OLin || r.Op == OVar || r.Op == OZext {
					return r
				}
			}
		}
	}
	// identity?
	ident := true
	for i, v := range ks {
		if v != uint64(i) {
			ident = false
			break
		}
	}
	if ident {
		if idx.W == w {
			return idx
		}
		if idx.W < w {
			return c.Zext(idx, w)
		}
		return c.Extract(idx, 0, w)
	}
	return c.mk(&Term{Op: OTable, W: w, K: ks, A: []*Term{idx}, lo: lo, hi: hi})
}

// tableSplit: if ks[idx] does not depend on some arguments of the linear index, reduce it to a table over
// the remaining ones (decided by enumerating the table, not the program)
func (c *TermCtx) tableSplit(w uint8, ks []uint64, idx *Term) *Term {
	n := 1
	for _, a := range idx.A {
		sz := a.hi - a.lo + 1
		if sz > 4096 || sz == 0 {
			return nil
		}
		n *= int(sz)
		if n > 8192 {
			return nil
		}
	}
	if idx.hi >= uint64(len(ks)) {
		return nil
	}
	na := len(idx.A)
	vals := make([]uint64, n)
	dims := make([]int, na)
	for i, a := range idx.A {
		dims[i] = int(a.hi - a.lo + 1)
	}
	cur := make([]uint64, na)
	for i := range cur {
		cur[i] = idx.A[i].lo
	}
	for k := 0; k < n; k++ {
		v := idx.C
		for i := range cur {
			v += idx.K[i] * cur[i]
		}
		vals[k] = ks[v]
		for i := na - 1; i >= 0; i-- {
			cur[i]++
			if cur[i] <= idx.A[i].hi {
				break
			}
			cur[i] = idx.A[i].lo
		}
	}
	// strides (last fastest)
	stride := make([]int, na)
	s := 1
	for i := na - 1; i >= 0; i-- {
		stride[i] = s
		s *= dims[i]
	}
	dep := []int{}
	for i := 0; i < na; i++ {
		d := false
		for k := 0; k < n && !d; k++ {
			if (k/stride[i])%dims[i] != 0 && vals[k] != vals[k-stride[i]] {
				d = true
			}
		}
		if d {
			dep = append(dep, i)
		}
	}
	if len(dep) == 0 {
		return c.Const(w, vals[0])
	}
	if len(dep) > 1 {
		return nil
	}
	i := dep[0]
	a := idx.A[i]
	nk := make([]uint64, a.hi+1)
	for x := uint64(0); x <= a.hi; x++ {
		if x < a.lo {
			nk[x] = vals[0]
		} else {
			nk[x] = vals[int(x-a.lo)*stride[i]]
		}
	}
	for a.Op == OZext {
		a = a.A[0]
	}
	return c.Table(w, nk, a)
}

func (c *TermCtx) boolTable(ks []uint64, idx *Term) *Term {
	// restrict to idx range
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(ks)) {
		hi = uint64(len(ks)) - 1
	}
	nt := 0
	for i := lo; i <= hi; i++ {
		if ks[i] != 0 {
			nt++
		}
	}
	if nt == 0 {
		return c.False
	}
	if uint64(nt) == hi-lo+1 {
		return c.True
	}
	neg := uint64(nt)*2 > hi-lo+1
	r := c.False
	i := lo
	for i <= hi {
		if (ks[i] != 0) == neg {
			i++
			continue
		}
		j := i
		for j < hi && (ks[j+1] != 0) != neg {
			j++
		}
		var x *Term
		if i == j {
			x = c.Eq(idx, c.Const(idx.W, i))
		} else {
			x = c.And(c.Ule(c.Const(idx.W, i), idx), c.Ule(idx, c.Const(idx.W, j)))
		}
		r = c.Or(r, x)
		i = j + 1
	}
	if neg {
		return c.Not(r)
	}
	return r
}

func (c *TermCtx) Add(a, b *Term) *Term {
	w := a.W
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C+b.C)
	}
	if a.IsConst() && a.C == 0 {
		return b
	}
	if b.IsConst() && b.C == 0 {
		return a
	}
	if _, ov := addOv(a.hi, b.hi, m); !ov {
		if l, ok := linAdd(a.linOf(), b.linOf(), m); ok {
			if t := c.mkLin(w, l); t != nil {
				return t
			}
		}
	}
	// lin + negative constant: a + (2^w - k) where k <= a's const
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		k := (-b.C) & m
		if k <= a.lo {
			return c.Sub(a, c.Const(w, k))
		}
		if a.Op == OAdd && a.A[1].IsConst() {
			return c.Add(a.A[0], c.Const(w, a.A[1].C+b.C))
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x + b.C }); ok {
			return t
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), m
	if h, ov := addOv(a.hi, b.hi, m); !ov {
		lo, hi = a.lo+b.lo, h
	}
	return c.raw(OAdd, w, lo, hi, a, b)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	w := a.W
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C-b.C)
	}
	if b.IsConst() && b.C == 0 {
		return a
	}
	if a == b {
		return c.Const(w, 0)
	}
	if l, ok := linSub(a.linOf(), b.linOf()); ok {
		if t := c.mkLin(w, l); t != nil {
			return t
		}
	}
	// x - (x/c)*c  => x % c
	if b.Op == OLin && len(b.K) == 1 && b.C == 0 && b.A[0].Op == OUDiv && b.A[0].A[0] == a && b.A[0].A[1].IsConst() && b.A[0].A[1].C == b.K[0] {
		return c.URem(a, b.A[0].A[1])
	}
	if b.IsConst() && a.lo < b.C || b.IsConst() && a.Op != OLin {
		if a.Op == OAdd && a.A[1].IsConst() {
			return c.Add(a.A[0], c.Const(w, a.A[1].C-b.C))
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x - b.C }); ok {
			return t
		}
		lo, hi := uint64(0), m
		if a.lo >= b.C {
			lo, hi = a.lo-b.C, a.hi-b.C
			return c.raw(OSub, w, lo, hi, a, b)
		}
		return c.raw(OAdd, w, lo, hi, a, c.Const(w, -b.C))
	}
	if b.Op == OSub && b.A[0] == a {
		return b.A[1]
	}
	lo, hi := uint64(0), m
	if a.lo >= b.hi || a.hi < b.lo {
		lo, hi = (a.lo-b.hi)&m, (a.hi-b.lo)&m
	}
	return c.raw(OSub, w, lo, hi, a, b)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	w := a.W
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C*b.C)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return b
		}
		if b.C == 1 {
			return a
		}
		if _, ov := mulOv(a.hi, b.C, m); !ov {
			l := a.linOf()
			r := lin{}
			ok := true
			var ov bool
			r.c, ov = mulOv(l.c, b.C, m)
			if ov {
				ok = false
			}
			for i := range l.ks {
				k, ov := mulOv(l.ks[i], b.C, m)
				if ov {
					ok = false
					break
				}
				r.ks = append(r.ks, k)
				r.as = append(r.as, l.as[i])
			}
			if ok {
				if t := c.mkLin(w, r); t != nil {
					return t
				}
			}
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x * b.C }); ok {
			return t
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), m
	if h, ov := mulOv(a.hi, b.hi, m); !ov {
		lo, hi = a.lo*b.lo, h
	}
	return c.raw(OMul, w, lo, hi, a, b)
}

func (c *TermCtx) MulHi(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		h, _ := bits.Mul64(a.C, b.C)
		return c.Const(64, h)
	}
	hl, _ := bits.Mul64(a.lo, b.lo)
	hh, _ := bits.Mul64(a.hi, b.hi)
	if hl == hh {
		return c.Const(64, hl)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OMulHi, 64, hl, hh, a, b)
}

// linDiv splits lin t by constant d: quotient, remainder if the remainder part is provably < d
func (c *TermCtx) linDiv(t *Term, d uint64) (q, r *Term, ok bool) {
	if t.Op != OLin {
		return nil, nil, false
	}
	ql, rl := lin{}, lin{}
	ql.c, rl.c = t.C/d, t.C%d
	rmax := rl.c
	for i := range t.K {
		qk, rk := t.K[i]/d, t.K[i]%d
		if qk != 0 {
			ql.ks = append(ql.ks, qk)
			ql.as = append(ql.as, t.A[i])
		}
		if rk != 0 {
			rl.ks = append(rl.ks, rk)
			rl.as = append(rl.as, t.A[i])
			x, ov := mulOv(rk, t.A[i].hi, ^uint64(0))
			if ov {
				return nil, nil, false
			}
			rmax, ov = addOv(rmax, x, ^uint64(0))
			if ov {
				return nil, nil, false
			}
		}
	}
	if rmax >= d {
		return nil, nil, false
	}
	q, r = c.mkLin(t.W, ql), c.mkLin(t.W, rl)
	return q, r, q != nil && r != nil
}

func (c *TermCtx) UDiv(a, b *Term) *Term {
	w := a.W
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return c.Const(w, a.C/b.C)
		}
		if b.C == 1 {
			return a
		}
		if a.hi < b.C {
			return c.Const(w, 0)
		}
		if q, _, ok := c.linDiv(a, b.C); ok {
			return q
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x / b.C }); ok {
			return t
		}
		if a.Op == OUDiv && a.A[1].IsConst() {
			if p, ov := mulOv(a.A[1].C, b.C, mask(w)); !ov {
				return c.UDiv(a.A[0], c.Const(w, p))
			}
		}
		if b.C&(b.C-1) == 0 {
			return c.Lshr(a, c.Const(w, uint64(bits.TrailingZeros64(b.C))))
		}
		return c.raw(OUDiv, w, a.lo/b.C, a.hi/b.C, a, b)
	}
	if b.lo > 0 {
		return c.raw(OUDiv, w, a.lo/b.hi, a.hi/b.lo, a, b)
	}
	return c.raw(OUDiv, w, 0, mask(w), a, b)
}

func (c *TermCtx) URem(a, b *Term) *Term {
	w := a.W
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return c.Const(w, a.C%b.C)
		}
		if b.C == 1 {
			return c.Const(w, 0)
		}
		if a.hi < b.C {
			return a
		}
		if _, r, ok := c.linDiv(a, b.C); ok {
			return r
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x % b.C }); ok {
			return t
		}
		if b.C&(b.C-1) == 0 {
			return c.And_(a, c.Const(w, b.C-1))
		}
		return c.raw(OURem, w, 0, b.C-1, a, b)
	}
	return c.raw(OURem, w, 0, mask(w), a, b)
}

func sgnbit(w uint8) uint64 { return 1 << (w - 1) }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *TermCtx) SDiv(a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() && b.C != 0 {
		x, y := sext64(a.C, w), sext64(b.C, w)
		if y == -1 {
			return c.Const(w, uint64(-x))
		}
		return c.Const(w, uint64(x/y))
	}
	if a.hi < sgnbit(w) && b.hi < sgnbit(w) {
		return c.UDiv(a, b)
	}
	if b.IsConst() && b.C != 0 && b.C != mask(w) {
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return uint64(sext64(x, w) / sext64(b.C, w)) }); ok {
			return t
		}
	}
	return c.raw(OSDiv, w, 0, mask(w), a, b)
}
func (c *TermCtx) SRem(a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() && b.C != 0 {
		x, y := sext64(a.C, w), sext64(b.C, w)
		if y == -1 {
			return c.Const(w, 0)
		}
		return c.Const(w, uint64(x%y))
	}
	if a.hi < sgnbit(w) && b.hi < sgnbit(w) {
		return c.URem(a, b)
	}
	return c.raw(OSRem, w, 0, mask(w), a, b)
}

func hiMask(v uint64) uint64 { // smallest 2^k-1 >= v
	if v == 0 {
		return 0
	}
	return ^uint64(0) >> uint(bits.LeadingZeros64(v))
}

func (c *TermCtx) And_(a, b *Term) *Term {
	w := a.W
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C&b.C)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return b
		}
		if b.C == m {
			return a
		}
		if b.C&(b.C+1) == 0 { // low mask
			if a.hi <= b.C {
				return a
			}
			n := uint8(bits.Len64(b.C))
			return c.Zext(c.Extract(a, 0, n), w)
		}
		if b.C&hiMask(a.hi) == 0 {
			return c.Const(w, 0)
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x & b.C }); ok {
			return t
		}
		return c.raw(OAnd, w, 0, min(b.C, a.hi), a, b)
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OAnd, w, 0, min(a.hi, b.hi), a, b)
}
func (c *TermCtx) Or_(a, b *Term) *Term {
	w := a.W
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C|b.C)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return a
		}
		if b.C == m {
			return b
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x | b.C }); ok {
			return t
		}
	} else if a == b {
		return a
	}
	// disjoint bits => add (keeps linear forms)
	if disjointBits(a, b) {
		return c.Add(a, b)
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.raw(OOr, w, max(a.lo, b.lo), hiMask(a.hi|b.hi), a, b)
}

// disjointBits: conservative known-bits check
func disjointBits(a, b *Term) bool {
	return possBits(a)&possBits(b) == 0
}
func possBits(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OLin:
		if len(t.K) == 1 && t.C == 0 && t.K[0]&(t.K[0]-1) == 0 {
			return possBits(t.A[0]) << uint(bits.TrailingZeros64(t.K[0])) & mask(t.W)
		}
		tz := 64
		if t.C != 0 {
			tz = bits.TrailingZeros64(t.C)
		}
		for _, k := range t.K {
			tz = min(tz, bits.TrailingZeros64(k))
		}
		return hiMask(t.hi) &^ (1<<uint(tz) - 1)
	case OAnd:
		return possBits(t.A[0]) & possBits(t.A[1])
	case OZext:
		return possBits(t.A[0])
	case OShl:
		if t.A[1].IsConst() && t.A[1].C < 64 {
			return possBits(t.A[0]) << t.A[1].C & mask(t.W)
		}
	}
	return hiMask(t.hi)
}
func (c *TermCtx) Xor_(a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() {
		return c.Const(w, a.C^b.C)
	}
	if a == b {
		return c.Const(w, 0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.C == 0 {
			return a
		}
		if b.C == mask(w) {
			return c.Not_(a)
		}
		if a.Op == OXor && a.A[1].IsConst() {
			return c.Xor_(a.A[0], c.Const(w, a.A[1].C^b.C))
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x ^ b.C }); ok {
			return t
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OXor, w, 0, hiMask(a.hi|b.hi), a, b)
}
func (c *TermCtx) Not_(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.W, ^a.C)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	m := mask(a.W)
	return c.raw(ONot, a.W, m-a.hi, m-a.lo, a)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Const(a.W, 0), a) }

// shifts: amount already same width as a, Go semantics (>= width gives 0 / sign)
func (c *TermCtx) Shl(a, b *Term) *Term {
	w := a.W
	if b.IsConst() {
		if b.C >= uint64(w) {
			return c.Const(w, 0)
		}
		if b.C == 0 {
			return a
		}
		if a.IsConst() {
			return c.Const(w, a.C<<b.C)
		}
		if a.hi <= mask(w)>>b.C {
			return c.Mul(a, c.Const(w, 1<<b.C))
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x << b.C }); ok {
			return t
		}
	}
	return c.raw(OShl, w, 0, mask(w), a, b)
}
func (c *TermCtx) Lshr(a, b *Term) *Term {
	w := a.W
	if b.IsConst() {
		if b.C >= uint64(w) {
			return c.Const(w, 0)
		}
		if b.C == 0 {
			return a
		}
		if a.IsConst() {
			return c.Const(w, a.C>>b.C)
		}
		if a.hi>>b.C == 0 {
			return c.Const(w, 0)
		}
		if q, _, ok := c.linDiv(a, 1<<b.C); ok {
			return q
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return x >> b.C }); ok {
			return t
		}
		if a.Op == OLshr && a.A[1].IsConst() {
			return c.Lshr(a.A[0], c.Const(w, a.A[1].C+b.C))
		}
		return c.raw(OLshr, w, a.lo>>b.C, a.hi>>b.C, a, b)
	}
	return c.raw(OLshr, w, 0, a.hi, a, b)
}
func (c *TermCtx) Ashr(a, b *Term) *Term {
	w := a.W
	if a.hi < sgnbit(w) {
		return c.Lshr(a, b)
	}
	if b.IsConst() {
		k := min(b.C, uint64(w)-1)
		if a.IsConst() {
			return c.Const(w, uint64(sext64(a.C, w)>>k))
		}
		if k == 0 {
			return a
		}
		if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return uint64(sext64(x, w) >> k) }); ok {
			return t
		}
		return c.raw(OAshr, w, 0, mask(w), a, c.Const(w, k))
	}
	return c.raw(OAshr, w, 0, mask(w), a, b)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		panic("zext narrower")
	}
	switch a.Op {
	case OConst:
		return c.Const(w, a.C)
	case OZext:
		return c.Zext(a.A[0], w)
	case OExtract:
		if x := a.A[0]; a.C == 0 && x.W == w && x.hi <= mask(a.W) {
			return x
		}
	case OLin:
		l := lin{c: a.C, ks: a.K}
		for _, x := range a.A {
			l.as = append(l.as, c.Zext(x, w))
		}
		l = sortLin(l)
		if t := c.mkLin(w, l); t != nil {
			return t
		}
	case OTable:
		return c.Table(w, a.K, a.A[0])
	case OIte:
		if chainConst(a, 8) {
			return c.mapChain(a, w, func(x uint64) uint64 { return x })
		}
	}
	return c.raw(OZext, w, a.lo, a.hi, a)
}
func sortLin(l lin) lin {
	idx := make([]int, len(l.as))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return l.as[idx[i]].id < l.as[idx[j]].id })
	r := lin{c: l.c}
	for _, i := range idx {
		n := len(r.as)
		if n > 0 && r.as[n-1] == l.as[i] {
			r.ks[n-1] += l.ks[i]
			continue
		}
		r.as = append(r.as, l.as[i])
		r.ks = append(r.ks, l.ks[i])
	}
	return r
}
func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.hi < sgnbit(a.W) {
		return c.Zext(a, w)
	}
	if a.IsConst() {
		return c.Const(w, uint64(sext64(a.C, a.W)))
	}
	if a.Op == OSext {
		return c.Sext(a.A[0], w)
	}
	if t, ok := c.mapTable(a, w, func(x uint64) uint64 { return uint64(sext64(x, a.W)) }); ok {
		return t
	}
	return c.raw(OSext, w, 0, mask(w), a)
}

// Extract bits [lo, lo+w)
func (c *TermCtx) Extract(a *Term, lo uint, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.C>>lo)
	}
	switch a.Op {
	case OZext:
		x := a.A[0]
		if lo >= uint(x.W) {
			return c.Const(w, 0)
		}
		if lo+uint(w) <= uint(x.W) {
			return c.Extract(x, lo, w)
		}
		return c.Zext(c.Extract(x, lo, x.W-uint8(lo)), w)
	case OSext:
		x := a.A[0]
		if lo+uint(w) <= uint(x.W) {
			return c.Extract(x, lo, w)
		}
		if lo == 0 && w > x.W {
			return c.Sext(x, w)
		}
	case OExtract:
		return c.Extract(a.A[0], lo+uint(a.C), w)
	case OConcat:
		l := a.A[1]
		if lo+uint(w) <= uint(l.W) {
			return c.Extract(l, lo, w)
		}
		if lo >= uint(l.W) {
			return c.Extract(a.A[0], lo-uint(l.W), w)
		}
	case OTable:
		t, _ := c.mapTable(a, w, func(x uint64) uint64 { return x >> lo })
		return t
	case OLshr:
		if a.A[1].IsConst() && lo+uint(w)+uint(a.A[1].C) <= uint(a.W) {
			return c.Extract(a.A[0], lo+uint(a.A[1].C), w)
		}
	case OLin:
		if lo == 0 {
			// truncation is a ring homomorphism; if narrowed atoms do not overflow keep linear
			if a.hi <= mask(w) {
				l := lin{c: a.C, ks: a.K}
				ok := true
				for _, x := range a.A {
					if x.hi > mask(w) {
						ok = false
						break
					}
					l.as = append(l.as, c.Extract(x, 0, w))
				}
				if ok {
					if t := c.mkLin(w, sortLin(l)); t != nil {
						return t
					}
				}
			}
			// drop coefficients that vanish mod 2^w
			l := lin{c: a.C & mask(w)}
			ch := l.c != a.C
			for i, k := range a.K {
				if k&mask(w) != 0 {
					l.ks = append(l.ks, k&mask(w))
					l.as = append(l.as, a.A[i])
				}
				if k&mask(w) != k {
					ch = true
				}
			}
			if ch {
				if t := c.mkLin(a.W, l); t != nil && t != a {
					return c.Extract(t, 0, w)
				}
			}
		} else {
			if q, _, ok := c.linDiv(a, 1<<lo); ok {
				return c.Extract(q, 0, w)
			}
		}
	case OAnd, OOr, OXor:
		x, y := c.Extract(a.A[0], lo, w), c.Extract(a.A[1], lo, w)
		switch a.Op {
		case OAnd:
			return c.And_(x, y)
		case OOr:
			return c.Or_(x, y)
		default:
			return c.Xor_(x, y)
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := c.Extract(a.A[0], 0, w), c.Extract(a.A[1], 0, w)
			switch a.Op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	case OShl:
		if a.A[1].IsConst() {
			s := uint(a.A[1].C)
			if lo >= s {
				return c.Extract(a.A[0], lo-s, w)
			}
			if lo+uint(w) <= s {
				return c.Const(w, 0)
			}
		}
	case OIte:
		if chainConst(a, 8) {
			return c.mapChain(a, w, func(x uint64) uint64 { return x >> lo })
		}
		if lo == 0 {
			return c.Ite(a.A[0], c.Extract(a.A[1], lo, w), c.Extract(a.A[2], lo, w))
		}
	}
	nl, nh := uint64(0), mask(w)
	if a.hi>>lo <= nh {
		nl, nh = a.lo>>lo, a.hi>>lo
	}
	return c.mk(&Term{Op: OExtract, W: w, C: uint64(lo), A: []*Term{a}, lo: nl, hi: nh})
}

func (c *TermCtx) Concat(h, l *Term) *Term {
	w := h.W + l.W
	if h.IsConst() && l.IsConst() {
		return c.Const(w, h.C<<l.W|l.C)
	}
	if h.IsConst() && h.C == 0 {
		return c.Zext(l, w)
	}
	// adjacent extracts of one term
	if h.Op == OExtract && l.Op == OExtract && h.A[0] == l.A[0] && h.C == l.C+uint64(l.W) {
		return c.Extract(h.A[0], uint(l.C), w)
	}
	if l.Op != OExtract && h.Op == OExtract && h.C == uint64(l.W) {
		if x := c.Extract(h.A[0], 0, l.W); x == l {
			return c.Extract(h.A[0], 0, w)
		}
	}
	return c.raw(OConcat, w, h.lo<<l.W|l.lo, h.hi<<l.W|mask(l.W), h, l)
}

func (c *TermCtx) Ite(b, x, y *Term) *Term {
	if b.IsConst() {
		if b.C != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.W == 0 {
		if x.IsConst() && y.IsConst() {
			if x.C != 0 {
				return b
			}
			return c.Not(b)
		}
		if x.IsConst() {
			if x.C != 0 {
				return c.Or(b, y)
			}
			return c.And(c.Not(b), y)
		}
		if y.IsConst() {
			if y.C != 0 {
				return c.Or(c.Not(b), x)
			}
			return c.And(b, x)
		}
	}
	if b.Op == OBNot {
		return c.Ite(b.A[0], y, x)
	}
	if x.Op == OIte && x.A[0] == b {
		x = x.A[1]
	}
	if y.Op == OIte && y.A[0] == b {
		y = y.A[2]
	}
	if x == y {
		return x
	}
	return c.raw(OIte, x.W, min(x.lo, y.lo), max(x.hi, y.hi), b, x, y)
}

// ---- bool

func (c *TermCtx) Not(a *Term) *Term {
	if a.nk != nil {
		return a.nk
	}
	var r *Term
	switch a.Op {
	case OConst:
		r = c.Bool(a.C == 0)
	case OBNot:
		r = a.A[0]
	case OUlt:
		r = c.Ule(a.A[1], a.A[0])
	case OUle:
		r = c.Ult(a.A[1], a.A[0])
	case OSlt:
		r = c.Sle(a.A[1], a.A[0])
	case OSle:
		r = c.Slt(a.A[1], a.A[0])
	default:
		r = c.raw(OBNot, 0, 0, 1, a)
	}
	a.nk = r
	if r.nk == nil {
		r.nk = a
	}
	return r
}
func (c *TermCtx) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		return c.And(b, a)
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OBAnd, 0, 0, 1, a, b)
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.C != 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		return c.Or(b, a)
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OBOr, 0, 0, 1, a, b)
}
func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C != 0 {
				return a
			}
			return c.Not(a)
		}
	} else {
		if a.W != b.W {
			panic(fmt.Sprintf("eq width %d %d: %s %s", a.W, b.W, a, b))
		}
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if a.IsConst() && b.IsConst() {
			return c.Bool(a.C == b.C)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if a.Op == OZext {
				return c.Eq(a.A[0], c.Const(a.A[0].W, b.C)) // range check above ensures fits
			}
			if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
				return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
			}
			if a.Op == OTable {
				t, _ := c.mapTable(a, 0, func(x uint64) uint64 {
					if x == b.C {
						return 1
					}
					return 0
				})
				return t
			}
			if a.Op == OAdd && a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(a.W, b.C-a.A[1].C))
			}
			if a.Op == OXor && a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(a.W, b.C^a.A[1].C))
			}
			if a.Op == OLin && len(a.K) == 1 {
				if b.C < a.C || (b.C-a.C)%a.K[0] != 0 {
					return c.False
				}
				return c.Eq(a.A[0], c.Const(a.W, (b.C-a.C)/a.K[0]))
			}
			if a.Op == OConcat {
				return c.And(c.Eq(a.A[0], c.Const(a.A[0].W, b.C>>a.A[1].W)), c.Eq(a.A[1], c.Const(a.A[1].W, b.C)))
			}
		} else if a.Op == OLin || b.Op == OLin {
			// cancel common parts
			la, lb := a.linOf(), b.linOf()
			na, nb := lin{c: la.c}, lin{c: lb.c}
			k := min(na.c, nb.c)
			na.c -= k
			nb.c -= k
			ch := k != 0
			i, j := 0, 0
			for i < len(la.as) || j < len(lb.as) {
				if j >= len(lb.as) || (i < len(la.as) && la.as[i].id < lb.as[j].id) {
					na.as = append(na.as, la.as[i])
					na.ks = append(na.ks, la.ks[i])
					i++
				} else if i >= len(la.as) || lb.as[j].id < la.as[i].id {
					nb.as = append(nb.as, lb.as[j])
					nb.ks = append(nb.ks, lb.ks[j])
					j++
				} else {
					ch = true
					if la.ks[i] > lb.ks[j] {
						na.as = append(na.as, la.as[i])
						na.ks = append(na.ks, la.ks[i]-lb.ks[j])
					} else if la.ks[i] < lb.ks[j] {
						nb.as = append(nb.as, lb.as[j])
						nb.ks = append(nb.ks, lb.ks[j]-la.ks[i])
					}
					i++
					j++
				}
			}
			if ch {
				x, y := c.mkLin(a.W, na), c.mkLin(a.W, nb)
				if x != nil && y != nil {
					return c.Eq(x, y)
				}
			}
		} else if a.Op == OZext && b.Op == OZext && a.A[0].W == b.A[0].W {
			return c.Eq(a.A[0], b.A[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OEq, 0, 0, 1, a, b)
}
// linCancel removes what two non-overflowing sums have in common (valid for =, < and <= of naturals)
func (c *TermCtx) linCancel(a, b *Term) (*Term, *Term, bool) {
	if a.Op != OLin && b.Op != OLin {
		return nil, nil, false
	}
	la, lb := a.linOf(), b.linOf()
	ch := false
	x := lin{c: la.c, ks: append([]uint64(nil), la.ks...), as: la.as}
	y := lin{c: lb.c, ks: append([]uint64(nil), lb.ks...), as: lb.as}
	if m := min(x.c, y.c); m > 0 {
		x.c -= m
		y.c -= m
		ch = true
	}
	for i, t := range x.as {
		for j, u := range y.as {
			if t == u {
				m := min(x.ks[i], y.ks[j])
				if m > 0 {
					ch = true
					x.ks[i] -= m
					y.ks[j] -= m
				}
			}
		}
	}
	if !ch {
		return nil, nil, false
	}
	p, q := c.mkLin(a.W, x), c.mkLin(a.W, y)
	if p == nil || q == nil {
		return nil, nil, false
	}
	return p, q, true
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if a == b {
		return c.False
	}
	if x, y, ok := c.linCancel(a, b); ok {
		return c.Ult(x, y)
	}
	if t := c.cmpTab(a, b, func(x, y uint64) bool { return x < y }); t != nil {
		return t
	}
	if b.IsConst() && b.C == 1 {
		return c.Eq(a, c.Const(a.W, 0))
	}
	if a.Op == OZext && b.IsConst() {
		return c.Ult(a.A[0], c.Const(a.A[0].W, b.C))
	}
	if b.Op == OZext && a.IsConst() {
		return c.Ult(c.Const(b.A[0].W, a.C), b.A[0])
	}
	if a.Op == OZext && b.Op == OZext && a.A[0].W == b.A[0].W {
		return c.Ult(a.A[0], b.A[0])
	}
	return c.raw(OUlt, 0, 0, 1, a, b)
}
func (c *TermCtx) cmpTab(a, b *Term, f func(x, y uint64) bool) *Term {
	bi := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	if b.IsConst() && (a.Op == OTable || a.Op == OIte && chainConst(a, 8)) {
		if t, ok := c.mapTable(a, 0, func(x uint64) uint64 { return bi(f(x, b.C)) }); ok {
			return t
		}
	}
	if a.IsConst() && (b.Op == OTable || b.Op == OIte && chainConst(b, 8)) {
		if t, ok := c.mapTable(b, 0, func(x uint64) uint64 { return bi(f(a.C, x)) }); ok {
			return t
		}
	}
	return nil
}
func (c *TermCtx) Ule(a, b *Term) *Term {
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if a == b {
		return c.True
	}
	if x, y, ok := c.linCancel(a, b); ok {
		return c.Ule(x, y)
	}
	if t := c.cmpTab(a, b, func(x, y uint64) bool { return x <= y }); t != nil {
		return t
	}
	if a.IsConst() { // k <= b  ==  k-1 < b
		return c.Ult(c.Const(a.W, a.C-1), b)
	}
	if b.IsConst() && b.C != mask(b.W) {
		return c.Ult(a, c.Const(a.W, b.C+1))
	}
	if a.Op == OZext && b.Op == OZext && a.A[0].W == b.A[0].W {
		return c.Ule(a.A[0], b.A[0])
	}
	return c.raw(OUle, 0, 0, 1, a, b)
}
func (c *TermCtx) Slt(a, b *Term) *Term {
	sb := sgnbit(a.W)
	if a.hi < sb && b.hi < sb {
		return c.Ult(a, b)
	}
	if a.lo >= sb && b.lo >= sb {
		return c.Ult(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.C, a.W) < sext64(b.C, b.W))
	}
	if a.lo >= sb && b.hi < sb {
		return c.True
	}
	if a.hi < sb && b.lo >= sb {
		return c.False
	}
	if a == b {
		return c.False
	}
	w := a.W
	if t := c.cmpTab(a, b, func(x, y uint64) bool { return sext64(x, w) < sext64(y, w) }); t != nil {
		return t
	}
	if a.Op == OSext && b.IsConst() {
		x := a.A[0]
		bv := sext64(b.C, w)
		lim := int64(1) << (x.W - 1)
		if bv >= lim {
			return c.True
		}
		if bv <= -lim {
			return c.False
		}
		return c.Slt(x, c.Const(x.W, uint64(bv)))
	}
	return c.raw(OSlt, 0, 0, 1, a, b)
}
func (c *TermCtx) Sle(a, b *Term) *Term {
	sb := sgnbit(a.W)
	if a.hi < sb && b.hi < sb {
		return c.Ule(a, b)
	}
	if a.lo >= sb && b.lo >= sb {
		return c.Ule(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.C, a.W) <= sext64(b.C, b.W))
	}
	if a.lo >= sb && b.hi < sb {
		return c.True
	}
	if a.hi < sb && b.lo >= sb {
		return c.False
	}
	if a == b {
		return c.True
	}
	w := a.W
	if t := c.cmpTab(a, b, func(x, y uint64) bool { return sext64(x, w) <= sext64(y, w) }); t != nil {
		return t
	}
	if a.IsConst() && sext64(a.C, w) > sext64(sb, w) {
		return c.Slt(c.Const(w, a.C-1), b)
	}
	if b.IsConst() && b.C != sb-1 {
		return c.Slt(a, c.Const(w, b.C+1))
	}
	return c.raw(OSle, 0, 0, 1, a, b)
}

// ---- floating point (IEEE bits)

func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fval(w uint8, b uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}
func fop(op Op, w uint8, a, b uint64) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}
func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, fop(op, a.W, a.C, b.C))
	}
	return c.raw(op, a.W, 0, mask(a.W), a, b)
}
func fcmp(op Op, w uint8, a, b uint64) bool {
	x, y := fval(w, a), fval(w, b)
	switch op {
	case OFLt:
		return x < y
	case OFLe:
		return x <= y
	}
	return x == y
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(fcmp(op, a.W, a.C, b.C))
	}
	return c.raw(op, 0, 0, 1, a, b)
}
func (c *TermCtx) FNeg(a *Term) *Term { return c.Xor_(a, c.Const(a.W, sgnbit(a.W))) }
func (c *TermCtx) FUn(op Op, w uint8, a *Term) *Term {
	if a.IsConst() {
		return c.Const(w, fun1(op, w, a.W, a.C))
	}
	if op == OFToFP && a.Op == OXor && a.A[1].IsConst() && a.A[1].C == sgnbit(a.W) { // -x (the sign of NaN does not matter)
		return c.FNeg(c.FUn(op, w, a.A[0]))
	}
	return c.raw(op, w, 0, mask(w), a)
}
func fun1(op Op, w, aw uint8, v uint64) uint64 {
	switch op {
	case OFToFP:
		return fbits(w, fval(aw, v))
	case OFFromSI:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext64(v, aw))))
		}
		return fbits(w, float64(sext64(v, aw)))
	case OFFromUI:
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return fbits(w, float64(v))
	case OFToSI:
		f := math.Trunc(fval(aw, v))
		lim := math.Ldexp(1, int(w)-1)
		if f != f || f >= lim || f < -lim {
			return sgnbit(w) // amd64 "integer indefinite"
		}
		return uint64(int64(f)) & mask(w)
	case OFToUI:
		return uint64(fval(aw, v)) & mask(w)
	case OFSqrt:
		return fbits(w, math.Sqrt(fval(aw, v)))
	case OFFloor:
		return fbits(w, math.Floor(fval(aw, v)))
	}
	panic("fun1")
}

// ---- evaluation under a model

type Model map[int32]uint64 // var id -> value

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.stamp++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	if t.Op == OConst {
		return t.C
	}
	if t.mk == c.stamp {
		return t.mv
	}
	var v uint64
	switch t.Op {
	case OVar:
		x, ok := m[t.id]
		if !ok {
			x = t.lo
		}
		v = x
	case OLin:
		v = t.C
		for i, a := range t.A {
			v += t.K[i] * c.eval(a, m)
		}
	case OIte:
		if c.eval(t.A[0], m) != 0 {
			v = c.eval(t.A[1], m)
		} else {
			v = c.eval(t.A[2], m)
		}
	case OTable:
		i := c.eval(t.A[0], m)
		if i < uint64(len(t.K)) {
			v = t.K[i]
		}
	case OBAnd:
		v = c.eval(t.A[0], m)
		if v != 0 {
			v = c.eval(t.A[1], m)
		}
	case OBOr:
		v = c.eval(t.A[0], m)
		if v == 0 {
			v = c.eval(t.A[1], m)
		}
	default:
		a := c.eval(t.A[0], m)
		var b uint64
		if len(t.A) > 1 {
			b = c.eval(t.A[1], m)
		}
		v = evalOp(t, a, b)
	}
	v &= mask(t.W)
	t.mk = c.stamp
	t.mv = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, a, b uint64) uint64 {
	w := t.W
	var aw uint8
	if len(t.A) > 0 {
		aw = t.A[0].W
	}
	switch t.Op {
	case OAdd:
		return a + b
	case OSub:
		return a - b
	case OMul:
		return a * b
	case OMulHi:
		h, _ := bits.Mul64(a, b)
		return h
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w) >> b)
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, aw))
	case OExtract:
		return a >> t.C
	case OConcat:
		return a<<t.A[1].W | b
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OBNot:
		return 1 - a
	case OFAdd, OFSub, OFMul, OFDiv:
		return fop(t.Op, w, a, b)
	case OFLt, OFLe, OFEq:
		return b2u(fcmp(t.Op, aw, a, b))
	case OFToFP, OFFromSI, OFFromUI, OFToSI, OFToUI, OFSqrt, OFFloor:
		return fun1(t.Op, w, aw, a)
	}
	panic(fmt.Sprintf("evalOp %d", t.Op))
}

// ---- SMT-LIB printing

func bvlit(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	if t.Op == OConst {
		return bvlit(t.W, t.C)
	}
	if t.Op == OVar {
		return "v" + fmt.Sprint(t.id)
	}
	return "t" + fmt.Sprint(t.id)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}
func asFP(t *Term) string {
	if t.isFP(6) {
		return fmt.Sprintf("f%d", t.id)
	}
	return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.W), t.ref())
}

// isFP: the term has a definition in the sort of floating point numbers, f<id>. Its bits, t<id>, are
// defined with fp.to_ieee_bv, which is not in SMT-LIB but z3 has it, where something needs them.
func (t *Term) isFP(depth int) bool {
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv, OFToFP, OFFromSI, OFFromUI, OFSqrt, OFFloor:
		return true
	case OXor:
		return depth > 0 && (t.W == 64 || t.W == 32) && t.A[1].IsConst() && t.A[1].C == sgnbit(t.W) && t.A[0].isFP(depth-1)
	case OIte:
		ok := func(a *Term) bool { return a.IsConst() || a.isFP(depth-1) }
		return depth > 0 && (t.W == 64 || t.W == 32) && !(t.A[1].IsConst() && t.A[2].IsConst()) && ok(t.A[1]) && ok(t.A[2])
	}
	return false
}

// usesFP: the arguments are used as floating point numbers
func (t *Term) usesFP() bool {
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv, OFToFP, OFSqrt, OFFloor, OFLt, OFLe, OFEq, OFToSI, OFToUI:
		return true
	}
	return false
}

// fpBody of the definition of f<id>
func (t *Term) fpBody() string {
	switch t.Op {
	case OXor:
		return "(fp.neg " + asFP(t.A[0]) + ")"
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", t.A[0].ref(), asFP(t.A[1]), asFP(t.A[2]))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.Op]
		return fmt.Sprintf("(%s RNE %s %s)", n, asFP(t.A[0]), asFP(t.A[1]))
	case OFToFP:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.W), asFP(t.A[0]))
	case OFFromSI:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.W), t.A[0].ref())
	case OFFromUI:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.W), t.A[0].ref())
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", asFP(t.A[0]))
	case OFFloor:
		return fmt.Sprintf("(fp.roundToIntegral RTN %s)", asFP(t.A[0]))
	}
	panic("fpBody")
}

// body of the define-fun
func (t *Term) smt() string {
	switch t.Op {
	case OLin:
		var sb strings.Builder
		n := 0
		parts := []string{}
		if t.C != 0 {
			parts = append(parts, bvlit(t.W, t.C))
		}
		for i, a := range t.A {
			if t.K[i] == 1 {
				parts = append(parts, a.ref())
			} else {
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bvlit(t.W, t.K[i]), a.ref()))
			}
		}
		for i := range parts {
			if i < len(parts)-1 {
				sb.WriteString("(bvadd " + parts[i] + " ")
				n++
			} else {
				sb.WriteString(parts[i])
			}
		}
		sb.WriteString(strings.Repeat(")", n))
		return sb.String()
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, t.A[0].ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, t.A[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.C+uint64(t.W)-1, t.C, t.A[0].ref())
	case OMulHi:
		return fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", t.A[0].ref(), t.A[1].ref())
	case OTable:
		var sb strings.Builder
		t.tabSMT(&sb, 0, len(t.K))
		return sb.String()
	case OFAdd, OFSub, OFMul, OFDiv, OFToFP, OFFromSI, OFFromUI, OFSqrt, OFFloor:
		return fmt.Sprintf("(fp.to_ieee_bv f%d)", t.id)
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.Op]
		return fmt.Sprintf("(%s %s %s)", n, asFP(t.A[0]), asFP(t.A[1]))
	case OFToSI:
		a := asFP(t.A[0])
		lim := fbits(t.A[0].W, math.Ldexp(1, int(t.W)-1))
		nlim := fbits(t.A[0].W, -math.Ldexp(1, int(t.W)-1))
		fl := func(b uint64) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.A[0].W), bvlit(t.A[0].W, b)) }
		return fmt.Sprintf("(ite (and (fp.lt %s %s) (fp.leq %s %s)) ((_ fp.to_sbv %d) RTZ %s) %s)", a, fl(lim), fl(nlim), a, t.W, a, bvlit(t.W, sgnbit(t.W)))
	case OFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, asFP(t.A[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.Op])
	for _, a := range t.A {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) tabSMT(sb *strings.Builder, lo, hi int) {
	same := true
	for i := lo + 1; i < hi; i++ {
		if t.K[i] != t.K[lo] {
			same = false
			break
		}
	}
	if same {
		sb.WriteString(bvlit(t.W, t.K[lo]))
		return
	}
	// split at a power of two: lo is then always a multiple of 2p and the test is on one bit
	mid := lo + 1<<(bits.Len(uint(hi-lo-1))-1)
	b := bits.Len(uint(mid-lo)) - 1
	fmt.Fprintf(sb, "(ite (= ((_ extract %d %d) %s) #b0) ", b, b, t.A[0].ref())
	t.tabSMT(sb, lo, mid)
	sb.WriteByte(' ')
	t.tabSMT(sb, mid, hi)
	sb.WriteByte(')')
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.C != 0)
		}
		return fmt.Sprint(t.C)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opStr(t.Op))
	if t.Op == OLin {
		fmt.Fprintf(&sb, " %d", t.C)
		for i, a := range t.A {
			fmt.Fprintf(&sb, " %d*%s", t.K[i], a.str(d-1))
		}
	} else {
		if t.Op == OExtract {
			fmt.Fprintf(&sb, "[%d+%d]", t.C, t.W)
		}
		for _, a := range t.A {
			sb.WriteString(" " + a.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
func opStr(o Op) string {
	if s, ok := opNames[o]; ok {
		return s
	}
	return map[Op]string{OLin: "lin", OZext: "zext", OSext: "sext", OExtract: "ext", OTable: "tab", OMulHi: "mulhi"}[o] + fmt.Sprintf("#%d", o)
}
