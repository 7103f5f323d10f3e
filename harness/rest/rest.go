package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// request is a request with what the model makes of it
type request struct {
	text   string
	target string
	want   res
	model  func() dgo.Value
}

func (h *H) requestFor(w *world, server, file map[string]dgo.Value) *request {
	rq := &request{}
	key := h.worldKey()
	switch h.n_(12) {
	case 0:
		key = h.pick(`missing`, `missing.k`, `lookup_options`, `a..b`, `'a`, `3`, ``)
	case 1:
		key = h.pick(`a b`, `a/b`, `'a b'`, `x%41`, `ä`, "a\nb", `a?b`, `a#b`, `a//b`, `../a`, `a/./b`, `/a`, `a/`)
	}
	q := url.Values{}
	merge := ``
	if h.one(3) {
		merge = h.pick(`first`, `unique`, `hash`, `deep`, `first`, `deep`, `nosuch`, ``)
		q.Set(`merge`, merge)
	}
	var dflt dgo.Value
	if h.one(3) {
		d := h.pick(`text`, ``, `"quoted"`, `{1, "b"}`, `{"k": 1}`, `5`, `  spaced `, `{1`)
		q.Set(`default`, d)
		dflt, _ = w.literals()[d]
		if h.one(6) {
			q.Add(`default`, `second`)
		}
	}
	tp := ``
	if h.one(4) {
		tp = h.pick(`string`, `int`, `[]any`, `any`, `map[string]any`, `]`, ``)
		q.Set(`type`, tp)
	}
	vars := map[string]dgo.Value{}
	for k, v := range server {
		vars[k] = v
	}
	for n := h.n_(3); n > 0 && h.coin(); n-- {
		v := h.pick(`v1`, `v2`, `v1`, `v9`)
		s := h.pick(`req`, `%{v2}`, `"q q"`, ``, `{1, 2}`, `{"k": "z"}`, `:x`)
		q.Add(`var`, v+h.pick(`=`, `:`)+s)
		if s == `` || s == `:x` {
			vars = nil
			break
		}
		if l, ok := w.literals()[s]; ok {
			vars[v] = l
		} else {
			vars[v] = vf.String(s)
		}
	}
	for k, v := range file {
		if vars != nil {
			vars[k] = v
		}
	}
	rq.target = `/lookup/` + url.PathEscape(key)
	if e := q.Encode(); e != `` {
		rq.target += `?` + e
	}
	rq.text = `GET ` + rq.target
	bad := q.Get(`default`) == `{1` || vars == nil
	rq.model = func() dgo.Value {
		if bad {
			mfail("a default or a variable that cannot be parsed")
		}
		t := dgo.Type(nil)
		if tp != `` {
			t = tf.ParseType(tp)
		}
		var m dgo.Value
		if merge != `` {
			m = vf.String(merge)
		}
		v := w.lookup(&mstate{vars: vars}, key, m)
		if v == nil {
			v = dflt
		}
		if v != nil && t != nil && !t.Instance(v) {
			if contains(tp, `map`) || contains(tp, `[]`) && contains(js(v), `{`) {
				panic(mSkip{})
			}
			v = vf.New(t, v)
		}
		return v
	}
	return rq
}

// literals are the texts that the harness uses as variables and defaults together with what they stand for
func (w *world) literals() map[string]dgo.Value {
	return map[string]dgo.Value{
		`text`: vf.String(`text`), ``: vf.String(``), `"quoted"`: vf.String(`quoted`), `{1, "b"}`: vf.Values(1, `b`), `{"k": 1}`: vf.Map(`k`, 1),
		`5`: vf.String(`5`), `  spaced `: vf.String(`spaced`), `"q q"`: vf.String(`q q`), `{1, 2}`: vf.Values(1, 2), `{"k": "z"}`: vf.Map(`k`, `z`),
	}
}

func (h *H) reply(in string, rec *httptest.ResponseRecorder, want res) {
	code, body := rec.Code, rec.Body.String()
	if want.skip {
		return
	}
	bad := func(s string) { h.fail(in, http.StatusText(code)+": "+body, s) }
	switch {
	case want.bad:
		if code != 500 {
			bad("status 500 with the text of an error, here: " + want.err)
		}
		if body == `` || body == "\n" {
			bad("the reply holds the text of the error")
		}
	case want.v == nil:
		if code != 404 {
			bad("status 404")
		}
	default:
		if code != 200 {
			bad("status 200 and " + want.text())
		}
		if ct := rec.Header().Get(`Content-Type`); !strings.HasPrefix(ct, `application/json`) {
			h.fail(in, `Content-Type `+ct, `application/json`)
		}
		var g interface{}
		if err := json.Unmarshal([]byte(body), &g); err != nil {
			bad("the JSON rendering of " + want.text())
		}
		var e interface{}
		_ = json.Unmarshal([]byte(js(want.v.(dgo.Value))), &e)
		a, _ := json.Marshal(g)
		b, _ := json.Marshal(e)
		if string(a) != string(b) {
			bad("the JSON rendering of " + want.text())
		}
	}
}

func TestC21(t *testing.T) {
	h := newH(t, "random configurations; sequences of requests with keys, defaults, merge options, types and variables, also at the same time; distinct by configuration and requests")
	h.providers()
	for h.more(6000) {
		w := h.genWorld(worldOpts{ipol: true, lo: true, nofn: true})
		server, file := map[string]dgo.Value{}, map[string]dgo.Value{} // variables and the contents of variable files, which come last
		var args []string
		if h.coin() {
			server[`v1`] = vf.String(`server`)
			args = append(args, `--var`, `v1=server`)
		}
		if h.coin() {
			file[`v9`] = vf.String(`nine`)
			file[`v2`] = vf.String(`file`)
			w.write(`vars.yaml`, "v9: nine\nv2: file\n")
			args = append(args, `--vars`, filepath.Join(w.dir, `vars.yaml`))
		}
		if err := newCommand().ParseFlags(args); err != nil {
			t.Fatal(err)
		}
		w.session(nil, nil, func(s api.Session) {
			router := CreateRouter(s)
			var reqs []*request
			for n := 1 + h.n_(8); n > 0; n-- {
				rq := h.requestFor(w, server, file)
				rq.want = w.oracle(rq.model)
				reqs = append(reqs, rq)
			}
			in := w.text + "--- server " + show(args) + "\n"
			if h.coin() {
				for _, rq := range reqs {
					in += rq.text + "\n"
					h.c("%s", in)
					h.current(in)
					rec := httptest.NewRecorder()
					router.ServeHTTP(rec, httptest.NewRequest(`GET`, rq.target, nil))
					h.reply(in, rec, rq.want)
				}
				return
			}
			recs := make([]*httptest.ResponseRecorder, len(reqs))
			in += "at the same time:\n"
			for _, rq := range reqs {
				in += rq.text + "\n"
			}
			h.current(in)
			var wg sync.WaitGroup
			for i, rq := range reqs {
				i, rq := i, rq
				recs[i] = httptest.NewRecorder()
				wg.Add(1)
				go func() {
					defer wg.Done()
					router.ServeHTTP(recs[i], httptest.NewRequest(`GET`, rq.target, nil))
				}()
			}
			wg.Wait()
			for i, rq := range reqs {
				h.c("%s", in+rq.text)
				h.reply(in+"reply to "+rq.text, recs[i], rq.want)
			}
		})
		w.done()
	}
}

// providers makes requests that a provider answers in all the ways there are
func (h *H) providers() {
	if err := newCommand().ParseFlags(nil); err != nil {
		h.t.Fatal(err)
	}
	withTop(func(_ sdk.ProviderContext, key string) dgo.Value {
		switch key {
		case `string`:
			panic(`told by a string`)
		case `error`:
			panic(errors.New(`told by an error`))
		case `null`:
			return vf.Nil
		case `empty`:
			return vf.String(``)
		case `false`:
			return vf.False
		case `deep`:
			return vf.Map(`a`, vf.Values(1, vf.Map(`b`, `<&>`)))
		}
		return nil
	}, nil, func(s api.Session) {
		router := CreateRouter(s)
		for _, c := range []struct {
			target string
			code   int
			body   string
		}{
			{`/lookup/string`, 500, `told by a string`}, {`/lookup/error`, 500, `told by an error`},
			{`/lookup/string?default=x`, 500, `told by a string`}, {`/lookup/null`, 200, `null`}, {`/lookup/null?default=x`, 200, `null`},
			{`/lookup/empty`, 200, `""`}, {`/lookup/false`, 200, `false`}, {`/lookup/deep`, 200, `{"a":[1,{"b":"<&>"}]}`},
			{`/lookup/deep.a.1.b`, 200, `"<&>"`}, {`/lookup/deep.a.7`, 404, ``}, {`/lookup/none`, 404, ``},
			{`/lookup/none?default=`, 200, `""`}, {`/lookup/none?default=null`, 200, `"null"`}, {`/lookup/none?default=false`, 200, `"false"`},
			{`/lookup/false?type=string`, 200, `"false"`}, {`/lookup/empty?type=int`, 500, ``}, {`/lookup/`, 500, ``},
			{`/lookup`, 404, ``}, {`/`, 404, ``}, {`/lookups/false`, 404, ``}, {`/other/lookup/false`, 404, ``}, {`/LOOKUP/false`, 404, ``},
		} {
			in := "a provider that fails for string and error and has values for null, empty, false and deep\nGET " + c.target
			h.c("%s", in)
			h.current(in)
			rec := httptest.NewRecorder()
			router.ServeHTTP(rec, httptest.NewRequest(`GET`, c.target, nil))
			body := strings.TrimSpace(rec.Body.String())
			var g, e interface{}
			same := c.body == `` || c.code == 500 && strings.Contains(body, c.body)
			if c.code == 200 {
				same = json.Unmarshal([]byte(body), &g) == nil && json.Unmarshal([]byte(c.body), &e) == nil && reflect.DeepEqual(g, e) &&
					strings.HasPrefix(rec.Header().Get(`Content-Type`), `application/json`)
			}
			if rec.Code != c.code || !same || c.code == 500 && body == `` {
				h.fail(in, fmt.Sprintf("%d %s %s", rec.Code, rec.Header().Get(`Content-Type`), body), fmt.Sprintf("%d %s", c.code, c.body))
			}
		}
	})
}
