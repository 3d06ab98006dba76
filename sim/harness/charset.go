package harness

import "strings"

// Hand-written decoding tables for the character sets used in generated data.

var charsets = map[string]map[string]string{
	"Shift_JIS":    {"\x82\xa0": "あ", "\x82\xa2": "い", "\x93\xfa": "日", "\x96\x7b": "本", "\x8a\xbf": "漢", "\x8e\x9a": "字"},
	"EUC-JP":       {"\xa4\xa2": "あ", "\xa4\xa4": "い", "\xc6\xfc": "日", "\xcb\xdc": "本", "\xb4\xc1": "漢", "\xbb\xfa": "字"},
	"ISO-2022-JP":  {"$\"": "あ", "$$": "い", "F|": "日", "K\\": "本", "4A": "漢", ";z": "字"},
	"ISO-8859-1":   {"\xe9": "é", "\xfc": "ü", "\xdf": "ß", "\xc5": "Å"},
	"windows-1252": {"\xe9": "é", "\x80": "€", "\x93": "\u201c", "\x94": "\u201d", "\xfc": "ü"},
}

var charsetNames = []string{"ISO-2022-JP", "ISO-2022-JP", "ISO-2022-JP", "Shift_JIS", "EUC-JP", "ISO-8859-1", "windows-1252"}

// decodeCharset returns the text of a value, false if the value is malformed.
func decodeCharset(cs, v string) (string, bool) {
	tab := charsets[cs]
	var b strings.Builder
	if cs == "ISO-2022-JP" {
		kanji := false
		for i := 0; i < len(v); {
			switch {
			case strings.HasPrefix(v[i:], "\x1b$B"):
				kanji = true
				i += 3
			case strings.HasPrefix(v[i:], "\x1b(B"):
				kanji = false
				i += 3
			case v[i] == 0x1b:
				return "", false
			case kanji:
				if i+2 > len(v) {
					return "", false
				}
				t, ok := tab[v[i:i+2]]
				if !ok {
					return "", false
				}
				b.WriteString(t)
				i += 2
			case v[i] < 0x80:
				b.WriteByte(v[i])
				i++
			default:
				return "", false
			}
		}
		return b.String(), true
	}
	for i := 0; i < len(v); {
		if v[i] < 0x80 {
			b.WriteByte(v[i])
			i++
			continue
		}
		n := 1
		t, ok := tab[v[i:i+1]]
		if !ok && i+2 <= len(v) {
			n = 2
			t, ok = tab[v[i:i+2]]
		}
		if !ok {
			return "", false
		}
		b.WriteString(t)
		i += n
	}
	return b.String(), true
}
