package main

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// jsonString decodes the JSON string at out[i:]; returns the decoded bytes and the position after the
// closing quote, or -1 if it is not a JSON string. Bytes >= 0x80 are kept as they are.
func jsonString(out []byte, i int) ([]byte, int) {
	if i >= len(out) || out[i] != '"' {
		return nil, -1
	}
	i++
	var d []byte
	for i < len(out) {
		c := out[i]
		switch {
		case c == '"':
			return d, i + 1
		case c < 0x20:
			return nil, -1
		case c == '\\':
			i++
			if i >= len(out) {
				return nil, -1
			}
			switch out[i] {
			case '"', '\\', '/':
				d = append(d, out[i])
			case 'b':
				d = append(d, '\b')
			case 'f':
				d = append(d, '\f')
			case 'n':
				d = append(d, '\n')
			case 'r':
				d = append(d, '\r')
			case 't':
				d = append(d, '\t')
			case 'u':
				if i+4 >= len(out) {
					return nil, -1
				}
				v := 0
				for j := 1; j <= 4; j++ {
					h := hexVal(out[i+j])
					if h < 0 {
						return nil, -1
					}
					v = v<<4 | h
				}
				i += 4
				if v >= 0x80 {
					return append(d, []byte(string(rune(v)))...), -2 // not produced for single bytes
				}
				d = append(d, byte(v))
			default:
				return nil, -1
			}
			i++
		default:
			d = append(d, c)
			i++
		}
	}
	return nil, -1
}

