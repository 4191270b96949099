// Package models holds Go-level models of functions the symbolic executor cannot run from source
// (assembly, runtime services, the file system).
package models

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func CompareString(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func Index(a, b []byte) int { return IndexString(string(a), string(b)) }

func IndexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

func appendRune(p []byte, r rune) []byte {
	switch {
	case r >= 0 && r < 0x80:
		return append(p, byte(r))
	case r >= 0 && r < 0x800:
		return append(p, 0xC0|byte(r>>6), 0x80|byte(r)&0x3F)
	case r > 0x10FFFF || r < 0 || (r >= 0xD800 && r <= 0xDFFF):
		return append(p, 0xEF, 0xBF, 0xBD)
	case r < 0x10000:
		return append(p, 0xE0|byte(r>>12), 0x80|byte(r>>6)&0x3F, 0x80|byte(r)&0x3F)
	}
	return append(p, 0xF0|byte(r>>18), 0x80|byte(r>>12)&0x3F, 0x80|byte(r>>6)&0x3F, 0x80|byte(r)&0x3F)
}

func RuneToString(r rune) string { return string(appendRune(nil, r)) }

func RunesToString(rs []rune) string {
	var p []byte
	for i := 0; i < len(rs); i++ {
		p = appendRune(p, rs[i])
	}
	return string(p)
}

func StringToRunes(s string) []rune {
	var out []rune
	for _, r := range s {
		out = append(out, r)
	}
	return out
}
