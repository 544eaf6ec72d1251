package dict

import (
	"io"
	"net/http"
	"strings"

	"github.com/eaburns/toaq/tone"
)

func govEq(a, b interface{}) bool { return a == b }

// ---- what is outside the package ----

// govUF_readerOf is a reader of a text.
func govUF_readerOf(s string) *strings.Reader { return strings.NewReader(s) }

// govUF_postErr and govUF_reply are what posting gives.
func govUF_postErr(url, ctype string, body io.Reader) error           { return nil }
func govUF_reply(url, ctype string, body io.Reader) *http.Response    { return nil }

// govUF_decodeErr is whether a body is not the JSON of the given keys and
// types; the others are what the body has for a key, nil if nothing or null.
func govUF_decodeErr__data_list_By_by_string_Def_body_string_Score_score_int_Word_head_string__error_string__success_bool(body io.Reader) error {
	return nil
}
func govUF_json__success_bool(body io.Reader) *bool { return nil }
func govUF_json__error_string(body io.Reader) *string { return nil }
func govUF_json__data_list_By_by_string_Def_body_string_Score_score_int_Word_head_string(body io.Reader) *[]Word {
	return nil
}

// govUF_key is any word at all.
func govUF_key() string { return "" }

// govClosed reports whether a body has been closed.
func govClosed(body io.Reader) bool { return false }

// ---- Load ----

//@ spec inline
func postErr(url, query string) error {
	return govUF_postErr(url, "application/json", govUF_readerOf(query))
}

//@ spec inline
func body(url, query string) io.Reader {
	return govUF_reply(url, "application/json", govUF_readerOf(query)).Body
}

//@ spec inline
func decodeErr(b io.Reader) error {
	return govUF_decodeErr__data_list_By_by_string_Def_body_string_Score_score_int_Word_head_string__error_string__success_bool(b)
}

//@ spec inline
func data(b io.Reader) *[]Word {
	return govUF_json__data_list_By_by_string_Def_body_string_Score_score_int_Word_head_string(b)
}

//@ spec inline
func success(b io.Reader) bool {
	return govUF_json__success_bool(b) != nil && *govUF_json__success_bool(b)
}

// answers: the reply is a list of words.
//
//@ spec inline
func answers(url, query string) bool {
	return postErr(url, query) == nil &&
		decodeErr(body(url, query)) == nil &&
		success(body(url, query)) &&
		data(body(url, query)) != nil
}

// form is the word as a key: lower-case ASCII without tone marks.
//
//@ spec inline
func form(w Word) string { return strings.ToLower(tone.GovStripped(w.Word)) }

// found is the last of the entries seen with the form k, if any.
type found struct {
	Ok bool
	E  Word
}

//@ spec inline
func see(f found, e Word) found {
	if form(e) == govUF_key() {
		return found{Ok: true, E: Word{Word: form(e), Def: e.Def, By: e.By, Score: e.Score}}
	}
	return f
}

//@ spec foldl=see
func lastOf(f found, es []Word) found {
	for _, e := range es {
		f = see(f, e)
	}
	return f
}

//@ spec inline
func maps(ws map[string]Word, f found) bool {
	w, ok := ws[govUF_key()]
	return ok == f.Ok && w == f.E
}

//@ contract Load(url string, query string) (ws map[string]Word, err error)
//@ props C03
//@ ensures error: (err == nil) == answers(url, query)
//@ ensures no-words: err == nil || ws == nil
//@ ensures post-error: postErr(url, query) == nil || err == postErr(url, query)
//@ ensures words: err != nil || maps(ws, lastOf(found{}, *data(body(url, query))))
//@ ensures closed: postErr(url, query) != nil || govClosed(body(url, query))
//@ invariant (i int, ws map[string]Word) words: answers(url, query) && 0 <= i && i <= len(*data(body(url, query))) && maps(ws, lastOf(found{}, (*data(body(url, query)))[:i]))
