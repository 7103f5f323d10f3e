package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"
)

func init() { runMain = main }

// TestC33 converts random documents
func TestC33(t *testing.T) {
	h := newH(t, "random YAML documents, with text keys only and with others; distinct by the document")
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	for h.more(2000) {
		plain, other := true, false
		var gen func(depth int) (string, interface{})
		gen = func(depth int) (string, interface{}) {
			k := h.n_(8)
			if depth <= 0 {
				k = h.n_(6)
			}
			switch k {
			case 0:
				return `~`, nil
			case 1:
				return h.pick(`1`, `0x1`, `01`), float64(1)
			case 2:
				return `true`, true
			case 3:
				return `2.5`, 2.5
			case 4, 5:
				s := h.pick(``, `a`, `a b`, `1`, `true`, `ä"'`, "x\ny")
				b, _ := json.Marshal(s)
				return string(b), s
			case 6:
				var ts []string
				vs := []interface{}{}
				for i := h.n_(4); i > 0; i-- {
					t, v := gen(depth - 1)
					ts, vs = append(ts, t), append(vs, v)
				}
				return `[` + strings.Join(ts, `, `) + `]`, vs
			default:
				var ts []string
				m := map[string]interface{}{}
				for _, key := range []string{`a`, `"b c"`, `"1"`, `d`, `"true"`} {
					if h.coin() {
						t, v := gen(depth - 1)
						ts = append(ts, key+`: `+t)
						m[strings.Trim(key, `"`)] = v
					}
				}
				if h.one(20) {
					other = true
					ts = append(ts, h.pick(`1: x`, `true: {}`, `1.5: 2`, `[a]: b`))
				}
				return `{` + strings.Join(ts, `, `) + `}`, m
			}
		}
		text, want := gen(4)
		if h.one(15) {
			plain = false
			text = h.pick(`{`, `[1`, `"x`, "a: b: c", `*x`)
		}
		in := h.c("yaml2json with the document %s", text)
		h.current(in)
		c := exec.Command(exe)
		c.Env = append(os.Environ(), `VERIF_MAIN=1`)
		c.Stdin = strings.NewReader(text)
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		if h.one(25) {
			// no input that can be read, or no output that can be written
			dir, out := h.coin(), (*os.File)(nil)
			if dir {
				if out, err = os.Open(t.TempDir()); err != nil {
					t.Fatal(err)
				}
				c.Stdin = out
				in += `, the input is a directory`
			} else {
				if out, err = os.OpenFile(`/dev/full`, os.O_WRONLY, 0); err != nil {
					t.Fatal(err)
				}
				c.Stdout = out
				in += `, the output is /dev/full`
			}
			h.current(in)
			_ = c.Run()
			out.Close()
			if status := c.ProcessState.ExitCode(); status == 0 || o.Len() > 0 || e.Len() == 0 {
				h.fail(in, fmt.Sprintf("status %d, writes %q and %q", status, cut(o.String(), 1000), cut(e.String(), 1000)), "an error")
			}
			continue
		}
		_ = c.Run()
		status := c.ProcessState.ExitCode()
		got := fmt.Sprintf("status %d, writes %q and %q", status, cut(o.String(), 1000), cut(e.String(), 1000))
		if !plain {
			if status == 0 || o.Len() > 0 || e.Len() == 0 {
				h.fail(in, got, "an error")
			}
			continue
		}
		if other {
			// keys that are not text are an error or become text
			if (status == 0) != (o.Len() > 0) {
				h.fail(in, got, "either a document or an error")
			}
			continue
		}
		w, _ := json.MarshalIndent(want, ``, ` `)
		if status != 0 || o.String() != string(w) {
			h.fail(in, got, fmt.Sprintf("status 0, writes %q", string(w)))
		}
	}
}
