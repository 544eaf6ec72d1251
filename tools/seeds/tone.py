HT = '''package tone

import "testing"

'''
seed("tone-upper-tilde", "C01",
  [("tone/tone.go", '''			"O": {"Õ"},''', '''			"O": {"Ö"},''')],
  {"tone": HT + '''func TestSeedDemo(t *testing.T) {
	if g := WithTone("Ojai", '~'); g != "Õjai" {
		t.Fatal(g)
	}
}
'''}, "a word whose first vowel is an upper-case O, given the falling-creaky tone", "the vowel becomes another letter (O with diaeresis)")
seed("tone-vowel-U", "C01",
  [("tone/tone.go", 'vowels = "aeiıouAEIOU"', 'vowels = "aeiıouAEIO"')],
  {"tone": HT + '''func TestSeedDemo(t *testing.T) {
	if g := WithTone("Uo", '/'); g != "Úo" {
		t.Fatal(g)
	}
}
'''}, "a word beginning with an upper-case U without tone", "the tone lands on a later vowel, or nowhere")
seed("tone-strip-tilde", "C02",
  [("tone/tone.go", '''	toneNameRunes = `-/V?^\\~`''', '''	toneNameRunes = `-/V?^\\\\~`[:6]'''),
   ("tone/tone.go", '''	return rune(ascii[i])''', '''	return rune(ascii[i])''')],
  {"tone": HT + '''func TestSeedDemo(t *testing.T) {
	if g := Strip("mãı"); g != "mai" {
		t.Fatal(g)
	}
}
'''}, "a word in the creaky falling tone", "Strip leaves its mark and Tone does not see it")
seed("tone-ascii-case", "C02",
  [("tone/tone.go", '''			"ı": {"ǐ", "Ĭ"},
			"I": {"Ǐ", "Ĭ"},''', '''			"ı": {"ǐ", "Ĭ"},
			"I": {"Ǐ"},''')],
  {"tone": HT + '''func TestSeedDemo(t *testing.T) {
	if g := ToASCII("Ĭq"); g != "IqV" {
		t.Fatal(g)
	}
}
'''}, "an upper-case I with breve", "the letter is written as NUL instead of I")
