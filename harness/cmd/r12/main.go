// R12: different labels are told apart, whatever characters they contain.
package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

func words(alpha []string, n int) []string {
	out := []string{""}
	prev := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func main() {
	lib.Main("R12", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule(`all (signal, property, key, value) with keys and values from all words over {a, =, \, :, digit} up to the length, and every byte, letter case, white space, length and normal form alone; the names of labels must be pairwise different, also when label objects are reused; and every pair of adversarial attributes stored and queried end to end`)
		alpha := []string{"a", "=", `\`, ":", "1"}
		ws := words(alpha, lib.Pick(r, 3, 4))
		r.Note("words", len(ws))
		resources := []v1.RESOURCE{v1.RESOURCE_METRICS, v1.RESOURCE_TRACES, v1.RESOURCE_LOGS}
		prefixes := []v1.PREFIX{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
		type ident struct {
			r v1.RESOURCE
			p v1.PREFIX
			k string
			v string
		}
		// 1. words that only differ in key and value
		seen := make(map[string]ident, len(ws)*len(ws))
		reused := labels.NewLabel()
		for _, k := range ws {
			for _, v := range ws {
				id := ident{1, 7, k, v}
				l := labels.NewLabel().WithResource(id.r).WithPrefix(id.p).WithKey(k).WithValue(v)
				e := string(l.Encode())
				l.Release()
				if o, ok := seen[e]; ok {
					r.Fail(fmt.Sprintf("encode %+v %+v", o, id), nil, fmt.Errorf("%+v and %+v have the same name %q", o, id, e))
				}
				seen[e] = id
				f := string(reused.Reset().WithPrefix(id.p).WithKey(k).WithValue(v).WithResource(id.r).Encode())
				if f != e {
					r.Fail(fmt.Sprintf("reuse %+v", id), nil, fmt.Errorf("%+v is named %q by a new object and %q by a used one", id, e, f))
				}
				r.Transitions(1)
			}
			if r.Expired() {
				return
			}
		}
		r.Note("labels", len(seen))
		r.Trace()
		r.Sample(fmt.Sprintf("%+v", seen[`1:7:a`]))
		// 2. signals and properties
		seen = map[string]ident{}
		short := words([]string{"a", ":", "1", "="}, 2)
		for _, rs := range resources {
			for _, p := range prefixes {
				for _, k := range short {
					for _, v := range []string{"", "a", "1:7", "="} {
						id := ident{rs, p, k, v}
						e := string(labels.NewLabel().Reset().WithResource(rs).WithPrefix(p).WithKey(k).WithValue(v).Encode())
						if o, ok := seen[e]; ok {
							r.Fail(fmt.Sprintf("encode %+v %+v", o, id), nil, fmt.Errorf("%+v and %+v have the same name %q", o, id, e))
						}
						seen[e] = id
						r.State(e)
						r.Transitions(1)
					}
				}
			}
		}
		r.Trace()
		// 2b. every byte, and what a name could be folded, trimmed or cut to
		seen = map[string]ident{}
		var odd []string
		for b := 0; b < 256; b++ {
			odd = append(odd, string([]byte{byte(b)}), "k"+string([]byte{byte(b)}), string([]byte{byte(b)})+"k", "k"+string([]byte{byte(b)})+"k")
		}
		odd = append(odd, "Host", "host", "HOST", "a.b", "a_b", "a/b", "a-b", "a b", "a  b", "é", "e\u0301", "ß", "ss", "SS", "İ", "i", "ı", "\u2028", "\ufeffk", "k\x00\x00")
		for n := 1; n <= 1<<17; n *= 2 {
			for d := -1; d <= 1; d++ {
				odd = append(odd, strings.Repeat("x", max(n+d, 0)), strings.Repeat("x", max(n+d, 0))+"y", strings.Repeat("x", max(n+d, 0))+"z")
			}
		}
		slices.Sort(odd)
		odd = slices.Compact(odd)
		for _, rs := range resources {
			for _, p := range prefixes {
				for _, k := range odd {
					for _, id := range []ident{{rs, p, k, ""}, {rs, p, k, "v"}, {rs, p, "key", k}} {
						if id.v == "" && id.k == "key" {
							continue
						}
						e := string(labels.NewLabel().Reset().WithResource(rs).WithPrefix(p).WithKey(id.k).WithValue(id.v).Encode())
						if o, ok := seen[e]; ok && o != id {
							r.Fail(fmt.Sprintf("encode %.200q %.200q", fmt.Sprint(o), fmt.Sprint(id)), nil, fmt.Errorf("%.300q and %.300q have the same name", fmt.Sprint(o), fmt.Sprint(id)))
						}
						seen[e] = id
						r.Transitions(1)
					}
				}
			}
			r.Trace()
		}
		clear(seen)
		r.Note("odd_words", len(odd))
		// 3. end to end: each adversarial attribute in its own sample; a query
		// for one finds that one.
		adv := append(words([]string{"a", "=", `\`}, 2), "A", "aA", "a ", " a", "a\x00", "é")
		type kv struct{ k, v string }
		var kvs []kv
		for _, k := range adv {
			for _, v := range adv {
				if v != "" {
					kvs = append(kvs, kv{k, v})
				}
			}
		}
		s, err := stack.Open(r.Scratch("s"), true)
		if err != nil {
			panic(err)
		}
		at := lib.Day0.Add(9 * time.Hour)
		ts := uint64(at.UnixNano())
		props := []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES}
		msg := func(sc v1.Scan_SCOPE, p v1.Scan_AttributeProp, n int, x kv) *v1.Data {
			var a [3][]string
			a[map[v1.Scan_AttributeProp]int{props[0]: 0, props[1]: 1, props[2]: 2}[p]] = []string{x.k, x.v}
			res, scope, attrs := tel.Res(a[0]...), tel.Scope("", "", a[1]...), a[2]
			switch sc {
			case v1.Scan_METRICS:
				return tel.One(res, scope, tel.Gauge("g", tel.Num(ts, float64(n), attrs...)))
			case v1.Scan_LOGS:
				return tel.OneLog(res, scope, &logsv1.LogRecord{TimeUnixNano: ts, Body: tel.Int(int64(n)), Attributes: tel.KV(attrs...)})
			}
			return tel.OneSpan(res, scope, &tracev1.Span{StartTimeUnixNano: ts, EndTimeUnixNano: ts + uint64(n), Attributes: tel.KV(attrs...)})
		}
		for _, sc := range tel.Scopes {
			for _, p := range props {
				for n, x := range kvs {
					if err := s.Export(msg(sc, p, n, x)); err != nil {
						panic(err)
					}
				}
			}
		}
		s.Flush()
		r.Note("samples_stored", len(kvs)*9)
		r.Parallel(len(kvs)*9, 12, func(i int) {
			x, sc, p := kvs[i/9], tel.Scopes[i%3], props[i/3%3]
			key := fmt.Sprintf("%s %s %q=%q", sc, p, x.k, x.v)
			r.State(key)
			r.Trace()
			r.Transitions(1)
			r.Case(key, key, func() error {
				res, err := s.Scan(tel.Range(sc, at, at.Add(time.Hour), tel.Attr(p, x.k, x.v)))
				if err != nil {
					return err
				}
				if d := tel.Diff(tel.Of(msg(sc, p, i/9, x)), tel.Of(res), true); d != "" {
					return fmt.Errorf("%s", d)
				}
				return nil
			})
		})
	})
}
