package tone

import "strings"

// The letters of the specification, written from the Unicode names of the
// characters (a vowel with MACRON, ACUTE, CARON or BREVE, HOOK ABOVE,
// CIRCUMFLEX, GRAVE or TILDE), not from the tables of the package.

func govEq(a, b interface{}) bool { return a == b }
func govForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func govWritten(b *strings.Builder) string { return b.String() }
func govRunes(s string) int                { return len([]rune(s)) }
func govRune(s string, k int) rune         { return []rune(s)[k] }
func govPrefix(s string, k int) string     { return string([]rune(s)[:k]) }
func govDrop(s string, k int) string       { return string([]rune(s)[k:]) }

// plainOf is the vowel under the tone mark of r, or 0 if r is not a toned vowel.
//
// @ spec inline
func plainOf(r rune) rune {
	switch r {
	case 'ā', 'á', 'ǎ', 'ă', 'ả', 'â', 'à', 'ã':
		return 'a'
	case 'ē', 'é', 'ě', 'ĕ', 'ẻ', 'ê', 'è', 'ẽ':
		return 'e'
	case 'ī', 'í', 'ǐ', 'ĭ', 'ỉ', 'î', 'ì', 'ĩ':
		return 'i'
	case 'ō', 'ó', 'ǒ', 'ŏ', 'ỏ', 'ô', 'ò', 'õ':
		return 'o'
	case 'ū', 'ú', 'ǔ', 'ŭ', 'ủ', 'û', 'ù', 'ũ':
		return 'u'
	case 'Ā', 'Á', 'Ǎ', 'Ă', 'Ả', 'Â', 'À', 'Ã':
		return 'A'
	case 'Ē', 'É', 'Ě', 'Ĕ', 'Ẻ', 'Ê', 'È', 'Ẽ':
		return 'E'
	case 'Ī', 'Í', 'Ǐ', 'Ĭ', 'Ỉ', 'Î', 'Ì', 'Ĩ':
		return 'I'
	case 'Ō', 'Ó', 'Ǒ', 'Ŏ', 'Ỏ', 'Ô', 'Ò', 'Õ':
		return 'O'
	case 'Ū', 'Ú', 'Ǔ', 'Ŭ', 'Ủ', 'Û', 'Ù', 'Ũ':
		return 'U'
	}
	return 0
}

// markOf is the tone of a toned vowel, as its ASCII mark, or 0.
//
// @ spec inline
func markOf(r rune) rune {
	switch r {
	case 'ā', 'ē', 'ī', 'ō', 'ū', 'Ā', 'Ē', 'Ī', 'Ō', 'Ū':
		return '-'
	case 'á', 'é', 'í', 'ó', 'ú', 'Á', 'É', 'Í', 'Ó', 'Ú':
		return '/'
	case 'ǎ', 'ă', 'ě', 'ĕ', 'ǐ', 'ĭ', 'ǒ', 'ŏ', 'ǔ', 'ŭ', 'Ǎ', 'Ă', 'Ě', 'Ĕ', 'Ǐ', 'Ĭ', 'Ǒ', 'Ŏ', 'Ǔ', 'Ŭ':
		return 'V'
	case 'ả', 'ẻ', 'ỉ', 'ỏ', 'ủ', 'Ả', 'Ẻ', 'Ỉ', 'Ỏ', 'Ủ':
		return '?'
	case 'â', 'ê', 'î', 'ô', 'û', 'Â', 'Ê', 'Î', 'Ô', 'Û':
		return '^'
	case 'à', 'è', 'ì', 'ò', 'ù', 'À', 'È', 'Ì', 'Ò', 'Ù':
		return '\\'
	case 'ã', 'ẽ', 'ĩ', 'õ', 'ũ', 'Ã', 'Ẽ', 'Ĩ', 'Õ', 'Ũ':
		return '~'
	}
	return 0
}

// withMark is vowel b carrying tone m.
//
// @ spec inline
func withMark(b, m rune) rune {
	switch m {
	case '-':
		switch b {
		case 'a':
			return 'ā'
		case 'e':
			return 'ē'
		case 'i', 'ı':
			return 'ī'
		case 'o':
			return 'ō'
		case 'u':
			return 'ū'
		case 'A':
			return 'Ā'
		case 'E':
			return 'Ē'
		case 'I':
			return 'Ī'
		case 'O':
			return 'Ō'
		case 'U':
			return 'Ū'
		}
	case '/':
		switch b {
		case 'a':
			return 'á'
		case 'e':
			return 'é'
		case 'i', 'ı':
			return 'í'
		case 'o':
			return 'ó'
		case 'u':
			return 'ú'
		case 'A':
			return 'Á'
		case 'E':
			return 'É'
		case 'I':
			return 'Í'
		case 'O':
			return 'Ó'
		case 'U':
			return 'Ú'
		}
	case 'V':
		switch b {
		case 'a':
			return 'ǎ'
		case 'e':
			return 'ě'
		case 'i', 'ı':
			return 'ǐ'
		case 'o':
			return 'ǒ'
		case 'u':
			return 'ǔ'
		case 'A':
			return 'Ǎ'
		case 'E':
			return 'Ě'
		case 'I':
			return 'Ǐ'
		case 'O':
			return 'Ǒ'
		case 'U':
			return 'Ǔ'
		}
	case '?':
		switch b {
		case 'a':
			return 'ả'
		case 'e':
			return 'ẻ'
		case 'i', 'ı':
			return 'ỉ'
		case 'o':
			return 'ỏ'
		case 'u':
			return 'ủ'
		case 'A':
			return 'Ả'
		case 'E':
			return 'Ẻ'
		case 'I':
			return 'Ỉ'
		case 'O':
			return 'Ỏ'
		case 'U':
			return 'Ủ'
		}
	case '^':
		switch b {
		case 'a':
			return 'â'
		case 'e':
			return 'ê'
		case 'i', 'ı':
			return 'î'
		case 'o':
			return 'ô'
		case 'u':
			return 'û'
		case 'A':
			return 'Â'
		case 'E':
			return 'Ê'
		case 'I':
			return 'Î'
		case 'O':
			return 'Ô'
		case 'U':
			return 'Û'
		}
	case '\\':
		switch b {
		case 'a':
			return 'à'
		case 'e':
			return 'è'
		case 'i', 'ı':
			return 'ì'
		case 'o':
			return 'ò'
		case 'u':
			return 'ù'
		case 'A':
			return 'À'
		case 'E':
			return 'È'
		case 'I':
			return 'Ì'
		case 'O':
			return 'Ò'
		case 'U':
			return 'Ù'
		}
	case '~':
		switch b {
		case 'a':
			return 'ã'
		case 'e':
			return 'ẽ'
		case 'i', 'ı':
			return 'ĩ'
		case 'o':
			return 'õ'
		case 'u':
			return 'ũ'
		case 'A':
			return 'Ã'
		case 'E':
			return 'Ẽ'
		case 'I':
			return 'Ĩ'
		case 'O':
			return 'Õ'
		case 'U':
			return 'Ũ'
		}
	}
	return 0
}

// @ spec inline
func plainVowel(r rune) bool {
	switch r {
	case 'a', 'e', 'i', 'ı', 'o', 'u', 'A', 'E', 'I', 'O', 'U':
		return true
	}
	return false
}

// @ spec inline
func vowel(r rune) bool { return plainVowel(r) || plainOf(r) != 0 }

// @ spec inline
func isMark(r rune) bool {
	switch r {
	case '-', '/', 'V', '?', '^', '\\', '~':
		return true
	}
	return false
}

// govVowels is every vowel, plain or toned.
const govVowels = "aeiıouAEIOUāáǎăảâàãēéěĕẻêèẽīíǐĭỉîìĩōóǒŏỏôòõūúǔŭủûùũĀÁǍĂẢÂÀÃĒÉĚĔẺÊÈẼĪÍǏĬỈÎÌĨŌÓǑŎỎÔÒÕŪÚǓŬỦÛÙŨ"
