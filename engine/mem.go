package main

import (
	"encoding/binary"
	"fmt"
)

// V is one machine word/scalar: concrete (u), symbolic (t) or pointer (o with concrete offset u or symbolic offset t).
type V struct {
	o *Obj
	t *Term
	u uint64
}

func (v V) conc() bool { return v.o == nil && v.t == nil }

func cv(u uint64) V { return V{u: u} }
func bv(b bool) V {
	if b {
		return V{u: 1}
	}
	return V{}
}

type scell struct {
	w uint8
	v V
}
type wcell struct {
	kind uint8 // 0 concrete, 1 full word, 2 sub cells
	v    V
	sub  *[8]scell
}

type Obj struct {
	id    int32
	base  bool
	ro    bool
	freed bool
	size  uint64
	data  []byte
	w     []wcell
	lazy  func(o *Obj)
	meta  any
	addr  uint64
	label string
	sh    []shadow
}

type undoEnt struct {
	o  *Obj
	wi int32
	d  uint64
	c  wcell
	hw bool // had w slice
	n  uint8
}

func (m *Machine) newObj(size uint64, label string) *Obj {
	m.nextObj++
	o := &Obj{id: m.nextObj, size: size, label: label, base: m.initPhase}
	n := (size + 7) &^ 7
	if n > 1<<28 {
		m.unsupported("allocation of %d bytes", size)
	}
	m.pathBytes += n
	if m.pathBytes > m.memLimit && !m.initPhase {
		m.endPath(stMem, "memory limit")
	}
	o.data = make([]byte, n)
	return o
}

func (o *Obj) force() {
	if o.lazy != nil {
		f := o.lazy
		o.lazy = nil
		f(o)
	}
}

func (m *Machine) logUndo(o *Obj, wi uint64) {
	e := undoEnt{o: o, wi: int32(wi), d: binary.LittleEndian.Uint64(o.data[wi*8:]), hw: o.w != nil}
	if o.w != nil {
		e.c = o.w[wi]
		if e.c.sub != nil {
			s := *e.c.sub
			e.c.sub = &s
		}
	}
	m.undo = append(m.undo, e)
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		e := &m.undo[i]
		binary.LittleEndian.PutUint64(e.o.data[uint64(e.wi)*8:], e.d)
		if !e.hw {
			if e.o.w != nil {
				e.o.w[e.wi] = wcell{}
			}
		} else {
			e.o.w[e.wi] = e.c
		}
		e.o.sh = nil
	}
	m.undo = m.undo[:0]
	for i := len(m.undoFns) - 1; i >= 0; i-- {
		m.undoFns[i]()
	}
	m.undoFns = m.undoFns[:0]
}

func concLoad(o *Obj, off uint64, w uint8) uint64 {
	switch w {
	case 1:
		return uint64(o.data[off])
	case 2:
		return uint64(binary.LittleEndian.Uint16(o.data[off:]))
	case 4:
		return uint64(binary.LittleEndian.Uint32(o.data[off:]))
	case 8:
		return binary.LittleEndian.Uint64(o.data[off:])
	}
	panic("width")
}
func concStore(o *Obj, off uint64, w uint8, v uint64) {
	switch w {
	case 1:
		o.data[off] = byte(v)
	case 2:
		binary.LittleEndian.PutUint16(o.data[off:], uint16(v))
	case 4:
		binary.LittleEndian.PutUint32(o.data[off:], uint32(v))
	case 8:
		binary.LittleEndian.PutUint64(o.data[off:], v)
	default:
		panic("width")
	}
}

func (m *Machine) checkRange(o *Obj, off uint64, n uint64, what string) {
	if off > o.size || n > o.size-off {
		m.violation("memory", fmt.Sprintf("%s outside of object %s: offset %d width %d size %d", what, o.label, int64(off), n, o.size))
	}
}

// load reads w bytes at o+off (concrete offset)
func (m *Machine) load(o *Obj, off uint64, w uint8) V {
	if o.lazy != nil {
		o.force()
	}
	if off > o.size || uint64(w) > o.size-off {
		m.checkRange(o, off, uint64(w), "read")
	}
	if m.raceOn {
		m.raceAccess(o, off, w, false)
	}
	if o.w == nil {
		return V{u: concLoad(o, off, w)}
	}
	b := off & 7
	if b+uint64(w) <= 8 {
		c := &o.w[off>>3]
		switch c.kind {
		case 0:
			return V{u: concLoad(o, off, w)}
		case 1:
			if w == 8 {
				return c.v
			}
		case 2:
			if c.sub[b].w == w {
				return c.sub[b].v
			}
		}
	} else if o.w[off>>3].kind == 0 && o.w[(off+uint64(w)-1)>>3].kind == 0 {
		return V{u: concLoad(o, off, w)}
	}
	// assemble bytes
	any := false
	var bs [8]V
	for i := uint8(0); i < w; i++ {
		bs[i] = m.loadByte(o, off+uint64(i))
		if bs[i].t != nil {
			any = true
		}
	}
	if !any {
		var r uint64
		for i := int(w) - 1; i >= 0; i-- {
			r = r<<8 | bs[i].u
		}
		return V{u: r}
	}
	t := m.byteTerm(bs[w-1])
	for i := int(w) - 2; i >= 0; i-- {
		t = m.tc.Concat(t, m.byteTerm(bs[i]))
	}
	return m.tv(t)
}

func (m *Machine) tv(t *Term) V {
	if t.Op == OConst {
		return V{u: t.C}
	}
	return V{t: t}
}

func (m *Machine) byteTerm(v V) *Term {
	if v.t == nil {
		return m.tc.Const(8, v.u)
	}
	return m.bvOf(v.t)
}

// bvOf converts a Bool-sorted term to BV8
func (m *Machine) bvOf(t *Term) *Term {
	if t.W == 0 {
		return m.tc.Ite(t, m.tc.Const(8, 1), m.tc.Const(8, 0))
	}
	return t
}

func (m *Machine) loadByte(o *Obj, off uint64) V {
	c := &o.w[off>>3]
	b := off & 7
	switch c.kind {
	case 0:
		return V{u: uint64(o.data[off])}
	case 1:
		return m.extractByte(c.v, uint(b))
	}
	for s := int(b); s >= 0; s-- {
		sc := &c.sub[s]
		if sc.w != 0 {
			if int(b) < s+int(sc.w) {
				return m.extractByte(sc.v, uint(int(b)-s))
			}
			break
		}
	}
	return V{u: uint64(o.data[off])}
}

func (m *Machine) extractByte(v V, i uint) V {
	if v.o != nil {
		m.unsupported("reading part of a pointer")
	}
	if v.t == nil {
		return V{u: v.u >> (8 * i) & 0xff}
	}
	t := m.bvOf(v.t)
	return m.tv(m.tc.Extract(t, 8*i, 8))
}

func (m *Machine) ensureW(o *Obj) {
	if o.w == nil {
		o.w = make([]wcell, (o.size+7)/8)
	}
}

func (m *Machine) store(o *Obj, off uint64, w uint8, v V) {
	if o.lazy != nil {
		o.force()
	}
	if off > o.size || uint64(w) > o.size-off {
		m.checkRange(o, off, uint64(w), "write")
	}
	if o.ro && !m.initPhase {
		m.violation("memory", "write to read-only memory "+o.label)
	}
	if m.raceOn {
		m.raceAccess(o, off, w, true)
	}
	wi := off >> 3
	b := off & 7
	if o.base && !m.initPhase {
		m.logUndo(o, wi)
		if b+uint64(w) > 8 {
			m.logUndo(o, wi+1)
		}
	}
	if v.o == nil && v.t == nil {
		if o.w == nil {
			concStore(o, off, w, v.u)
			return
		}
		if b+uint64(w) <= 8 {
			c := &o.w[wi]
			if c.kind == 1 && w == 8 {
				*c = wcell{}
			} else if c.kind != 0 {
				m.clearCells(o, wi, uint8(b), w)
			}
			concStore(o, off, w, v.u)
			return
		}
		for i := uint8(0); i < w; i++ {
			p := off + uint64(i)
			if o.w[p>>3].kind != 0 {
				m.clearCells(o, p>>3, uint8(p&7), 1)
			}
			o.data[p] = byte(v.u >> (8 * i))
		}
		return
	}
	m.ensureW(o)
	if w == 8 && b == 0 {
		o.w[wi] = wcell{kind: 1, v: v}
		return
	}
	if b+uint64(w) <= 8 {
		if v.o != nil {
			m.unsupported("storing pointer in %d bytes", w)
		}
		c := &o.w[wi]
		if c.kind != 0 {
			m.clearCells(o, wi, uint8(b), w)
		}
		if c.sub == nil {
			c.sub = new([8]scell)
		}
		c.kind = 2
		c.sub[b] = scell{w, v}
		return
	}
	if v.o != nil {
		m.unsupported("unaligned pointer store")
	}
	t := m.bvOf(v.t)
	for i := uint8(0); i < w; i++ {
		m.store(o, off+uint64(i), 1, m.tv(m.tc.Extract(t, uint(8*i), 8)))
	}
}

// clearCells makes bytes [b,b+n) of word wi free of symbolic cells
func (m *Machine) clearCells(o *Obj, wi uint64, b, n uint8) {
	c := &o.w[wi]
	if c.kind == 1 {
		if n == 8 {
			*c = wcell{}
			return
		}
		v := c.v
		if v.o != nil {
			// partially overwritten pointer: the rest becomes an unusable value; only fine if everything is overwritten later
			m.unsupported("partial overwrite of a pointer in %s", o.label)
		}
		sub := new([8]scell)
		for i := uint(0); i < 8; i++ {
			x := m.extractByte(v, i)
			if x.t != nil {
				sub[i] = scell{1, x}
			} else {
				o.data[wi*8+uint64(i)] = byte(x.u)
			}
		}
		*c = wcell{kind: 2, sub: sub}
	}
	for s := 0; s < 8; s++ {
		sc := c.sub[s]
		if sc.w == 0 {
			continue
		}
		e := s + int(sc.w)
		if e <= int(b) || s >= int(b+n) {
			continue
		}
		c.sub[s] = scell{}
		if s >= int(b) && e <= int(b+n) {
			continue
		}
		for i := s; i < e; i++ {
			x := m.extractByte(sc.v, uint(i-s))
			if i >= int(b) && i < int(b+n) {
				continue
			}
			if x.t != nil {
				c.sub[i] = scell{1, x}
			} else {
				o.data[wi*8+uint64(i)] = byte(x.u)
			}
		}
	}
	for s := 0; s < 8; s++ {
		if c.sub[s].w != 0 {
			return
		}
	}
	c.kind = 0
	c.sub = nil
}

func (o *Obj) concRange(off, n uint64) bool {
	if o.w == nil || n == 0 {
		return true
	}
	for i := off >> 3; i <= (off+n-1)>>3; i++ {
		if o.w[i].kind != 0 {
			return false
		}
	}
	return true
}

// memmove copies n bytes, handling overlap
func (m *Machine) memmove(d *Obj, doff uint64, s *Obj, soff uint64, n uint64) {
	if n == 0 {
		return
	}
	if s.lazy != nil {
		s.force()
	}
	if d.lazy != nil {
		d.force()
	}
	m.checkRange(s, soff, n, "read")
	m.checkRange(d, doff, n, "write")
	if d == s && doff == soff {
		return
	}
	if m.raceOn {
		m.raceRange(s, soff, n, false)
		m.raceRange(d, doff, n, true)
	}
	if d.ro && !m.initPhase {
		m.violation("memory", "write to read-only memory "+d.label)
	}
	if s.concRange(soff, n) && d.concRange(doff, n) {
		if d.base && !m.initPhase {
			for i := doff >> 3; i <= (doff+n-1)>>3; i++ {
				m.logUndo(d, i)
			}
		}
		copy(d.data[doff:doff+n], s.data[soff:soff+n])
		return
	}
	race := m.raceOn
	m.raceOn = false
	// cell-wise: collect then write
	type piece struct {
		off uint64
		w   uint8
		v   V
	}
	var ps []piece
	for i := uint64(0); i < n; {
		p := soff + i
		w := uint8(1)
		if (p&7) == 0 && n-i >= 8 && (s.w == nil || s.w[p>>3].kind != 2) {
			w = 8
		} else if s.w != nil {
			c := &s.w[p>>3]
			if c.kind == 2 {
				if x := c.sub[p&7].w; x != 0 && uint64(x) <= n-i {
					w = x
				}
			}
		}
		ps = append(ps, piece{i, w, m.load(s, p, w)})
		i += uint64(w)
	}
	for _, p := range ps {
		m.store(d, doff+p.off, p.w, p.v)
	}
	m.raceOn = race
}

func (m *Machine) memclr(d *Obj, off, n uint64) {
	for i := uint64(0); i < n; {
		if (off+i)&7 == 0 && n-i >= 8 {
			m.store(d, off+i, 8, V{})
			i += 8
		} else {
			m.store(d, off+i, 1, V{})
			i++
		}
	}
}

func (m *Machine) addrOf(o *Obj) uint64 {
	if o.addr == 0 {
		if o.base {
			m.baseAddr += (o.size + 63) &^ 63
			m.baseAddr += 64
			o.addr = m.baseAddr
		} else {
			m.pathAddr += 64
			o.addr = m.pathAddr
			m.pathAddr += (o.size + 63) &^ 63
		}
	}
	return o.addr
}
