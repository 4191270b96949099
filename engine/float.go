package main

import (
	"fmt"
	"strconv"
	"strings"
)

// hooks may answer a call to a function of the standard library instead of executing it
var hooks = map[string]func(c *Call) bool{}

// floatText: a formatted number and how it was formatted
type floatText struct {
	t               *Term
	fmt, prec, bits uint64
}

// floatEnt: its text parses as val
type floatEnt struct {
	floatText
	val *Term
}

const ffmtMark = "9.000000000000000000000000"

func init() {
	// A number that is not concrete is formatted to a text that stands for it: ParseFloat of this text gives back the
	// number that parsing the real text gives. NaN and the infinities are left to the real code.
	ffmt := func(c *Call, val, fmtc, prec, bits V) (string, bool) {
		m := c.m
		if val.t == nil || val.o != nil {
			return "", false
		}
		t := m.termW(val, 64)
		tc := m.tc
		exp := tc.Extract(t, 52, 11)
		if m.branch(tc.Eq(exp, tc.Const(11, 0x7ff))) {
			return "", false
		}
		sign := ""
		if m.branch(tc.Eq(tc.Extract(t, 63, 1), tc.Const(1, 1))) {
			sign = "-"
			t = tc.FNeg(t)
		}
		f := m.concV(fmtc)
		switch f {
		case 'e', 'E', 'f', 'g', 'G':
		default:
			m.unsupported("strconv: format of a symbolic float")
		}
		if m.concV(bits) == 32 {
			t = tc.FUn(OFToFP, 64, tc.FUn(OFToFP, 32, t))
		}
		e := floatText{t, f, m.concV(prec), m.concV(bits)}
		for i, o := range m.ffmt {
			if o.floatText == e {
				return fmt.Sprintf("%s%s%d", sign, ffmtMark, i+1), true
			}
		}
		if int64(e.prec) >= 0 {
			t = m.newVar("!float", 64, 0, 0x7fefffffffffffff).t
		}
		m.ffmt = append(m.ffmt, floatEnt{e, t})
		return fmt.Sprintf("%s%s%d", sign, ffmtMark, len(m.ffmt)), true
	}
	hooks["strconv.FormatFloat"] = func(c *Call) bool {
		s, ok := ffmt(c, c.args[0], c.args[1], c.args[2], c.args[3])
		if ok {
			c.retStr(s)
		}
		return ok
	}
	hooks["strconv.AppendFloat"] = func(c *Call) bool {
		s, ok := ffmt(c, c.args[3], c.args[4], c.args[5], c.args[6])
		if !ok {
			return false
		}
		m := c.m
		n := m.concV(c.args[1])
		o := m.newObj(n+uint64(len(s)), "AppendFloat")
		if n > 0 {
			m.memmove(o, 0, c.args[0].o, m.concV(V{u: c.args[0].u, t: c.args[0].t}), n)
		}
		for i := 0; i < len(s); i++ {
			m.store(o, n+uint64(i), 8, cv(uint64(s[i])))
		}
		l := cv(n + uint64(len(s)))
		c.ret(V{o: o}, l, l)
		return true
	}
	hooks["strconv.ParseFloat"] = func(c *Call) bool {
		m := c.m
		if len(m.ffmt) == 0 {
			return false
		}
		s, ok := m.concStr(c.args[0], c.args[1])
		if !ok {
			return false
		}
		neg := strings.HasPrefix(s, "-")
		if neg {
			s = s[1:]
		}
		i, err := strconv.Atoi(strings.TrimPrefix(s, ffmtMark))
		if !strings.HasPrefix(s, ffmtMark) || err != nil || i < 1 || i > len(m.ffmt) {
			return false
		}
		t := m.ffmt[i-1].val
		if neg {
			t = m.tc.FNeg(t)
		}
		if m.concV(c.args[2]) == 32 {
			t = m.tc.FUn(OFToFP, 64, m.tc.FUn(OFToFP, 32, t))
		}
		c.ret(m.tv(t), V{}, V{})
		return true
	}
}
