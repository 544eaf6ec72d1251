package dict

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// govServer answers each query with the reply planned for it.
type govServer struct {
	mu     sync.Mutex
	status int
	reply  string
	cut    bool // break the connection before the whole reply is sent
	hits   int
	bad    string
}

func (s *govServer) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hits++
	b, _ := ioutil.ReadAll(req.Body)
	if req.Method != "POST" || !strings.HasPrefix(req.Header.Get("Content-Type"), "application/json") {
		s.bad = fmt.Sprintf("request %s of %q", req.Method, req.Header.Get("Content-Type"))
	}
	if string(b) != s.query() {
		s.bad = fmt.Sprintf("query %q sent as %q", s.query(), string(b))
	}
	if s.cut {
		w.Header().Set("Content-Length", strconv.Itoa(len(s.reply)+100))
	}
	if s.status != 0 {
		w.WriteHeader(s.status)
	}
	w.Write([]byte(s.reply))
}

func (s *govServer) query() string { return fmt.Sprintf(`{"action":"search","query":%d}`, s.hits) }

const govPlain = "aeiouAEIOU"

// govToned[i] are the toned forms of the plain vowel i.
var govToned = []string{
	"āáǎăảâàã", "ēéěĕẻêèẽ", "īíǐĭỉîìĩı", "ōóǒŏỏôòõ", "ūúǔŭủûùũ",
	"ĀÁǍĂẢÂÀÃ", "ĒÉĚĔẺÊÈẼ", "ĪÍǏĬỈÎÌĨ", "ŌÓǑŎỎÔÒÕ", "ŪÚǓŬỦÛÙŨ",
}

// govForm is the key of a word, letter by letter.
func govForm(w string) string {
	o := ""
	for _, r := range w {
		if strings.ContainsRune(`-/V?^\~`, r) {
			continue
		}
		for i, ts := range govToned {
			if strings.ContainsRune(ts, r) {
				r = rune(govPlain[i])
			}
		}
		o += strings.ToLower(string([]rune{r}))
	}
	return o
}

func govHead(r *rand.Rand) string {
	letters := []rune("aeiouAEIOUqhoanVNB-/?^\\~ 'ı1é" + govToned[r.Intn(len(govToned))])
	w := make([]rune, r.Intn(4))
	for i := range w {
		w[i] = letters[r.Intn(len(letters))]
	}
	if r.Intn(3) == 0 {
		return []string{"hoaq", "Hoaq", "hōaq", "HÓAQ", "hoa-q", "hoVaq", "hoaq~"}[r.Intn(7)]
	}
	return string(w)
}

func govEntry(r *rand.Rand, i int) map[string]interface{} {
	e := map[string]interface{}{"head": govHead(r), "body": fmt.Sprintf("▯ is %d", i), "by": []string{"", "spreadsheet", "uakci"}[r.Intn(3)], "score": r.Intn(9) - 4}
	for _, k := range []string{"head", "body", "by", "score"} {
		if r.Intn(12) == 0 {
			delete(e, k)
		}
	}
	if r.Intn(4) == 0 {
		e["id"] = "x" // something else the service may add
	}
	return e
}

// govReply is a reply and what it should be loaded as (nil for an error).
func govReply(r *rand.Rand) (string, map[string]Word) {
	m := map[string]interface{}{}
	switch r.Intn(8) {
	case 0:
		m["success"] = false
	case 1:
	default:
		m["success"] = true
	}
	var es []map[string]interface{}
	for i := r.Intn(7); i > 0; i-- {
		es = append(es, govEntry(r, i))
	}
	if es == nil {
		es = []map[string]interface{}{}
	}
	if r.Intn(8) > 0 {
		m["data"] = es
	} else if r.Intn(2) == 0 {
		m["data"] = nil
	}
	switch r.Intn(6) {
	case 0:
		m["error"] = "no such thing"
	case 1:
		m["error"] = nil
	}
	wrong := false
	switch r.Intn(20) {
	case 0:
		m["success"], wrong = "yes", true
	case 1:
		m["data"], wrong = "none", true
	case 2:
		m["error"], wrong = 7, true
	case 3:
		m["data"], wrong = []interface{}{map[string]interface{}{"score": "many"}}, true
	}
	b, _ := json.Marshal(m)
	s := string(b)
	switch r.Intn(20) {
	case 0:
		return s[:r.Intn(len(s))], nil
	case 1:
		return []string{"", "gateway timeout", "[]", "7", "<html>"}[r.Intn(5)], nil
	}
	ok, _ := m["success"].(bool)
	if wrong || !ok || m["data"] == nil {
		return s, nil
	}
	ws := map[string]Word{}
	for _, e := range es {
		h, _ := e["head"].(string)
		d, _ := e["body"].(string)
		by, _ := e["by"].(string)
		sc, _ := e["score"].(int)
		ws[govForm(h)] = Word{Word: govForm(h), Def: d, By: by, Score: sc}
	}
	return s, ws
}

func govLoadOnce(r *rand.Rand, srv *govServer, addr string) (msg string) {
	reply, want := govReply(r)
	srv.mu.Lock()
	srv.reply, srv.bad, srv.cut, srv.status = reply, "", r.Intn(25) == 0, 0
	if r.Intn(10) == 0 {
		srv.status = []int{201, 400, 404, 500, 503}[r.Intn(5)]
	}
	if srv.cut {
		if want == nil {
			srv.cut = false
		}
	}
	hits := srv.hits
	query := fmt.Sprintf(`{"action":"search","query":%d}`, hits+1)
	srv.mu.Unlock()
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("reply %q: panic: %v", reply, e)
		}
	}()
	ws, err := Load("http://"+addr, query)
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if srv.bad != "" {
		return srv.bad
	}
	if srv.hits != hits+1 {
		return fmt.Sprintf("%d requests for one call", srv.hits-hits)
	}
	switch {
	case want == nil && err == nil:
		return fmt.Sprintf("reply %q: no error, %d words", reply, len(ws))
	case want == nil && ws != nil:
		return fmt.Sprintf("reply %q: an error and words", reply)
	case want == nil:
		return ""
	case err != nil:
		if srv.cut {
			return "" // the end of the reply may be missed or not
		}
		return fmt.Sprintf("reply %q: error %v", reply, err)
	case len(ws) != len(want):
		return fmt.Sprintf("reply %q: %d words, not %d: %v", reply, len(ws), len(want), ws)
	}
	for k, w := range want {
		g, ok := ws[k]
		if !ok || g != w {
			return fmt.Sprintf("reply %q: %q is %+v %v, not %+v", reply, k, g, ok, w)
		}
	}
	return ""
}

func govRunLoad(t *testing.T, more func(n int) bool) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Printf("TRIED 0 (no loopback: %v)\n", err)
		t.Skip()
	}
	srv := &govServer{}
	h := &http.Server{Handler: srv}
	go h.Serve(l)
	defer h.Close()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 1))
	n := 0
	for more(n) {
		n++
		if msg := govLoadOnce(r, srv, l.Addr().String()); msg != "" {
			fmt.Printf("WITNESS %s\nTRIED %d\n", msg, n)
			t.FailNow()
		}
	}
	// Nobody answers.
	h.Close()
	if ws, err := Load("http://"+l.Addr().String(), "{}"); err == nil || ws != nil {
		fmt.Printf("WITNESS no server: %v %v\nTRIED %d\n", ws, err, n)
		t.FailNow()
	}
	fmt.Printf("TRIED %d\n", n)
}

func TestWitnessC03(t *testing.T) {
	s, err := strconv.Atoi(os.Getenv("GOV_BUDGET"))
	if err != nil || s <= 0 {
		s = 15
	}
	end := time.Now().Add(time.Duration(s) * time.Second)
	govRunLoad(t, func(int) bool { return time.Now().Before(end) })
}

func TestBoundedLoad(t *testing.T) {
	c, err := strconv.Atoi(os.Getenv("GOV_CASES"))
	if err != nil {
		c = 2000
	}
	govRunLoad(t, func(n int) bool { return n < c })
}
