HD = '''package dict

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func seedLoad(t *testing.T, reply string) (map[string]Word, error) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.Write([]byte(reply)) }))
	defer srv.Close()
	return Load(srv.URL, "{}")
}

'''
seed("dict-strip-lowered", "C03",
  [("dict/dict.go", "e.Word = strings.ToLower(tone.Strip(e.Word))", "e.Word = tone.Strip(strings.ToLower(e.Word))")],
  {"dict": HD + '''func TestSeedDemo(t *testing.T) {
	ws, err := seedLoad(t, `{"success":true,"data":[{"head":"HoVaq","body":"x"}]}`)
	if _, ok := ws["hoaq"]; err != nil || !ok {
		t.Fatal(ws, err)
	}
}
'''}, "an entry whose word has its tone as the ASCII mark V", "lowering the word first makes the mark V a letter, which stays in the key")
seed("dict-score-wins", "C03",
  [("dict/dict.go", "		ws[e.Word] = e\n", "		if old, ok := ws[e.Word]; ok && old.Score > e.Score {\n			continue\n		}\n		ws[e.Word] = e\n")],
  {"dict": HD + '''func TestSeedDemo(t *testing.T) {
	ws, err := seedLoad(t, `{"success":true,"data":[{"head":"poq","body":"a","score":2},{"head":"p\u00f3q","body":"b","score":1}]}`)
	if err != nil || ws["poq"].Def != "b" {
		t.Fatal(ws, err)
	}
}
'''}, "two entries of one word, the later with a lower score", "an earlier entry with a higher score hides the last one")
seed("dict-word-as-sent", "C03",
  [("dict/dict.go", "		e.Word = strings.ToLower(tone.Strip(e.Word))\n		ws[e.Word] = e\n", "		ws[strings.ToLower(tone.Strip(e.Word))] = e\n")],
  {"dict": HD + '''func TestSeedDemo(t *testing.T) {
	ws, err := seedLoad(t, `{"success":true,"data":[{"head":"P\u00f3q","body":"a"}]}`)
	if err != nil || ws["poq"].Word != "poq" {
		t.Fatal(ws, err)
	}
}
'''}, "an entry whose word has a tone or a capital", "the entry keeps its word as it was sent, not as the key")
seed("dict-partial-reply", "C03",
  [("dict/dict.go", "Decode(&response); err != nil {", "Decode(&response); err != nil && response.Entries == nil {")],
  {"dict": HD + '''func TestSeedDemo(t *testing.T) {
	ws, err := seedLoad(t, `{"success":true,"data":[{"head":"poq","body":"a"},{"head":7}]}`)
	if err == nil || ws != nil {
		t.Fatal(ws, err)
	}
}
'''}, "a reply with an entry of the wrong type", "the error is dropped and a part of the words is returned")
