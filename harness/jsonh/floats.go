package main

import (
	"math"
	"strconv"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

type floatBox struct {
	F64 float64
	F32 float32
}

// number checks that b[i:] is a JSON number and returns its parts: fraction is empty and exp is false
// if there are none
func number(b []byte) (neg bool, whole, fraction []byte, exp bool) {
	i := 0
	if i < len(b) && b[i] == '-' {
		neg = true
		i++
	}
	digit := func() bool { return i < len(b) && b[i] >= '0' && b[i] <= '9' }
	st := i
	sym.Assert(digit(), "json number: digit")
	for digit() {
		i++
	}
	whole = b[st:i]
	if len(whole) > 1 {
		sym.Assert(whole[0] != '0', "json number: no leading zero")
	}
	if i < len(b) && b[i] == '.' {
		i++
		st = i
		sym.Assert(digit(), "json number: digit after the point")
		for digit() {
			i++
		}
		fraction = b[st:i]
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		exp = true
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		sym.Assert(digit(), "json number: digit in the exponent")
		for digit() {
			i++
		}
	}
	sym.Assert(i == len(b), "json number: nothing else")
	return
}

func near(n uint64, y float64) bool {
	d := float64(n) - y
	return d <= 0.52 && d >= -0.52
}

// checkFloat: out is the text of val; lossy: with 6 digits after the point as long as it is not large
func checkFloat(out []byte, val float64, bits int, lossy bool) {
	if val != val {
		sym.Assert(string(out) == `"NaN"`, "NaN")
		return
	}
	if val > math.MaxFloat64 {
		sym.Assert(string(out) == `"+Inf"`, "infinity")
		return
	}
	if val < -math.MaxFloat64 {
		sym.Assert(string(out) == `"-Inf"`, "negative infinity")
		return
	}
	neg, whole, fraction, exp := number(out)
	abs := val
	if val < 0 {
		sym.Assert(neg, "sign of a negative number")
		abs = -val
	} else if val > 0 {
		sym.Assert(!neg, "sign of a positive number")
	}
	if !exp && len(fraction) <= 6 && len(whole) <= 9 {
		n, p := uint64(0), uint64(1)
		for i := 5; i >= 0; i-- {
			if i < len(fraction) {
				n += uint64(fraction[i]-'0') * p
			}
			p *= 10
		}
		for i := len(whole) - 1; i >= 0; i-- {
			n += uint64(whole[i]-'0') * p
			p *= 10
		}
		// n < 2^53, so that n/1e6 is the number nearest to the text
		switch {
		case !lossy || abs > 0x5000000:
			if bits == 32 {
				sym.Assert(float32(float64(n)/1e6) == float32(abs), "value")
			} else {
				sym.Assert(float64(n)/1e6 == abs, "value")
			}
		default:
			// the millionths nearest to the value, usually the same
			y := abs * 1e6
			sym.Assert(y <= 9e13, "millionths")
			if v := uint64(y + 0.5); n == v {
				sym.Assert(near(v, y), "value to 6 digits")
			} else {
				sym.Assert(near(n, y), "value to 6 digits")
			}
		}
		return
	}
	parsed, err := strconv.ParseFloat(string(out), bits)
	sym.Assert(err == nil, "number in range")
	if lossy && abs <= 0x4ffffff {
		d := parsed - val
		sym.Assert(d <= 0.52e-6 && d >= -0.52e-6, "value to 6 digits")
		return
	}
	sym.Assert(parsed == val, "value")
	text := string(out)
	sym.Assert(text == strconv.FormatFloat(val, 'f', -1, bits) || text == strconv.FormatFloat(val, 'e', -1, bits) ||
		text == strconv.FormatFloat(val, 'g', -1, bits), "shortest text")
}

// any number: a sign and the other 63 or 31 bits
func float64In() float64 {
	return math.Float64frombits(sym.Uint64In("bits", 0, 1<<63-1) ^ uint64(sym.Choice("sign", 2))<<63)
}
func float32In() float32 {
	return math.Float32frombits(uint32(sym.Uint64In("bits", 0, 1<<31-1)) ^ uint32(sym.Choice("sign", 2))<<31)
}

// Floats: any number through the writers
func Floats() {
	sym.Flag("fdigits", 14)
	sym.Flag("fsplit", 6)
	sym.Flag("fgen", 1)
	b := prefix()
	switch sym.Choice("fn", 4) {
	case 0:
		v := float64In()
		b = jsonfmt.WriteFloat64Lossy(b, v)
		sym.Assert(string(b[:2]) == "pq", "destination prefix preserved")
		checkFloat(b[2:], v, 64, true)
	case 1:
		v := float32In()
		b = jsonfmt.WriteFloat32Lossy(b, v)
		sym.Assert(string(b[:2]) == "pq", "destination prefix preserved")
		checkFloat(b[2:], float64(v), 32, true)
	case 2:
		v := float64In()
		b = jsonfmt.WriteFloat64(b, v)
		sym.Assert(string(b[:2]) == "pq", "destination prefix preserved")
		checkFloat(b[2:], v, 64, false)
	case 3:
		v := float32In()
		b = jsonfmt.WriteFloat32(b, v)
		sym.Assert(string(b[:2]) == "pq", "destination prefix preserved")
		checkFloat(b[2:], float64(v), 32, false)
	}
}

type myFloat float64

// FloatKinds: any number through the encoders of its type, in an interface, a field, a slice, a map
func FloatKinds() {
	sym.Flag("fdigits", 14)
	sym.Flag("fsplit", 6)
	sym.Flag("fgen", 1)
	var obj interface{}
	var val float64
	bits := 64
	pre, suf := "", ""
	switch sym.Choice("kind", 8) {
	case 0:
		val = float64In()
		obj = val
	case 1:
		f := float32In()
		val, obj, bits = float64(f), f, 32
	case 2:
		val = float64In()
		obj = myFloat(val)
	case 3:
		val = float64In()
		obj = &val
	case 4:
		val = float64In()
		obj, pre, suf = []interface{}{val}, "[", "]"
	case 5:
		f := float32In()
		val, bits = float64(f), 32
		obj, pre, suf = floatBox{1, f}, `{"F64":1,"F32":`, "}"
	case 6:
		val = float64In()
		obj, pre, suf = [2]float64{2, val}, "[2,", "]"
	case 7:
		f := float32In()
		val, bits = float64(f), 32
		obj, pre, suf = map[string]float32{"a": f}, `{"a":`, "}"
	}
	out := []byte(jsonfmt.MarshalToString(obj))
	n := len(out)
	sym.Assert(n >= len(pre)+len(suf) && string(out[:len(pre)]) == pre && string(out[n-len(suf):]) == suf, "around the number")
	checkFloat(out[len(pre):n-len(suf)], val, bits, true)
}
