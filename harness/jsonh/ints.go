package main

import (
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

// decimal picks, symbolically, every natural number <= max: its digits (most significant first, no
// leading zero) are the symbolic variables and the value is their linear combination. The forked
// choice is the number of digits and, for the longest length, how long a prefix agrees with max.
func decimal(tag, max string) (uint64, []byte) {
	n := 1 + sym.Choice(tag+"len", len(max))
	return decimalN(tag, max, n)
}

func decimalN(tag, max string, n int) (uint64, []byte) {
	d := make([]byte, n)
	k := n // agree: number of leading digits fixed to those of max
	if n == len(max) {
		k = sym.Choice(tag+"agree", n+1)
	} else {
		k = 0
	}
	free := n < len(max)
	v := uint64(0)
	p := uint64(1)
	for i := 1; i < n; i++ {
		p *= 10
	}
	for i := 0; i < n; i++ {
		lo, hi := byte(0), byte(9)
		if i == 0 && n > 1 {
			lo = 1
		}
		if !free {
			if i < k {
				lo, hi = max[i]-'0', max[i]-'0'
			} else if i == k {
				if max[i]-'0' <= lo {
					sym.Assume(false)
				}
				hi = max[i] - '0' - 1
			}
		}
		x := lo
		if lo != hi {
			x = sym.ByteIn(tag+"d", lo, hi)
		}
		d[i] = x + '0'
		v += uint64(x) * p
		p /= 10
	}
	return v, d
}

func prefix() []byte {
	// a destination with arbitrary content and spare capacity: the writer must append
	b := make([]byte, 2, 2+sym.Choice("cap", 2)*40)
	b[0] = 'p'
	b[1] = 'q'
	return b
}

func checkInt(out []byte, neg bool, d []byte) {
	sym.Obs("out", out)
	w := 2 + len(d)
	if neg {
		w++
	}
	sym.Assert(len(out) == w, "length of the decimal text")
	sym.Assert(out[0] == 'p' && out[1] == 'q', "destination prefix preserved")
	i := 2
	if neg {
		sym.Assert(out[2] == '-', "minus sign")
		i = 3
	}
	ok := true
	for j := 0; j < len(d); j++ {
		if out[i+j] != d[j] {
			ok = false
		}
	}
	sym.Assert(ok, "decimal digits of the value")
	sym.Reach("checked")
}

func Ints() {
	switch sym.Choice("type", 8) {
	case 0:
		v, d := decimal("v", "255")
		checkInt(jsonfmt.WriteUint8(prefix(), uint8(v)), false, d)
	case 1:
		v, d := decimal("v", "65535")
		checkInt(jsonfmt.WriteUint16(prefix(), uint16(v)), false, d)
	case 2:
		v, d := decimal("v", "4294967295")
		checkInt(jsonfmt.WriteUint32(prefix(), uint32(v)), false, d)
	case 3:
		v, d := decimal("v", "18446744073709551615")
		checkInt(jsonfmt.WriteUint64(prefix(), v), false, d)
	case 4:
		if neg := sym.Choice("neg", 2) == 1; neg {
			v, d := decimal("v", "128")
			sym.Assume(v != 0)
			checkInt(jsonfmt.WriteInt8(prefix(), int8(-int64(v))), true, d)
		} else {
			v, d := decimal("v", "127")
			checkInt(jsonfmt.WriteInt8(prefix(), int8(v)), false, d)
		}
	case 5:
		if neg := sym.Choice("neg", 2) == 1; neg {
			v, d := decimal("v", "32768")
			sym.Assume(v != 0)
			checkInt(jsonfmt.WriteInt16(prefix(), int16(-int64(v))), true, d)
		} else {
			v, d := decimal("v", "32767")
			checkInt(jsonfmt.WriteInt16(prefix(), int16(v)), false, d)
		}
	case 6:
		if neg := sym.Choice("neg", 2) == 1; neg {
			v, d := decimal("v", "2147483648")
			sym.Assume(v != 0)
			checkInt(jsonfmt.WriteInt32(prefix(), int32(-int64(v))), true, d)
		} else {
			v, d := decimal("v", "2147483647")
			checkInt(jsonfmt.WriteInt32(prefix(), int32(v)), false, d)
		}
	case 7:
		if neg := sym.Choice("neg", 2) == 1; neg {
			v, d := decimal("v", "9223372036854775808")
			sym.Assume(v != 0)
			checkInt(jsonfmt.WriteInt64(prefix(), -int64(v)), true, d)
		} else {
			v, d := decimal("v", "9223372036854775807")
			checkInt(jsonfmt.WriteInt64(prefix(), int64(v)), false, d)
		}
	}
}

type (
	namedInt     int
	namedInt8    int8
	namedInt16   int16
	namedInt32   int32
	namedInt64   int64
	namedUint    uint
	namedUint8   uint8
	namedUint16  uint16
	namedUint32  uint32
	namedUint64  uint64
	namedUintptr uintptr
)

var kindMax = []string{"127", "32767", "2147483647", "9223372036854775807", "255", "65535", "4294967295", "18446744073709551615"}
var kindMin = []string{"128", "32768", "2147483648", "9223372036854775808"}

// Kinds: every integer type, also named ones, through the encoder of the type
func Kinds() {
	k := sym.Choice("kind", 11)
	named := sym.Choice("named", 2) == 1
	w := k
	switch k {
	case 8: // int
		w = 3
	case 9, 10: // uint, uintptr
		w = 7
	}
	neg := false
	max := kindMax[w]
	if w < 4 && sym.Choice("neg", 2) == 1 {
		neg = true
		max = kindMin[w]
	}
	var v uint64
	var d []byte
	if sym.Choice("digits", 2) == 1 {
		v, d = decimalN("v", max, len(max)) // the longest
	} else {
		v, d = decimalN("v", max, 2)
	}
	if neg {
		v = -v
	}
	var o interface{}
	switch k {
	case 0:
		o = int8(v)
		if named {
			o = namedInt8(v)
		}
	case 1:
		o = int16(v)
		if named {
			o = namedInt16(v)
		}
	case 2:
		o = int32(v)
		if named {
			o = namedInt32(v)
		}
	case 3:
		o = int64(v)
		if named {
			o = namedInt64(v)
		}
	case 4:
		o = uint8(v)
		if named {
			o = namedUint8(v)
		}
	case 5:
		o = uint16(v)
		if named {
			o = namedUint16(v)
		}
	case 6:
		o = uint32(v)
		if named {
			o = namedUint32(v)
		}
	case 7:
		o = uint64(v)
		if named {
			o = namedUint64(v)
		}
	case 8:
		o = int(v)
		if named {
			o = namedInt(v)
		}
	case 9:
		o = uint(v)
		if named {
			o = namedUint(v)
		}
	case 10:
		o = uintptr(v)
		if named {
			o = namedUintptr(v)
		}
	}
	p := prefix()
	switch sym.Choice("api", 3) {
	case 0:
		p = append(p, jsonfmt.MarshalToString(o)...)
	case 1:
		p = jsonfmt.EncoderOfObject(o).Encode(nil, p, reflect2.PtrOf(o))
	case 2:
		p = jsonfmt.EncoderOf(reflect2.TypeOf(&o).(reflect2.PtrType).Elem()).Encode(nil, p, unsafe.Pointer(&o))
	}
	checkInt(p, neg, d)
}
