package zzverif

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"pgregory.net/rapid"
)

// ---- P03: the formatting of headers does not matter -------------------------

type caseP03 struct {
	Reps []Rep
	Req  Req
	Perm []int // reordering of the members for which the order is irrelevant
	Dirs []Dir

	EmptyAccept, EmptyEncoding, EmptyLanguage string // values without members, unless ""
}

// Dir is a directive of the Negotiate header.
type Dir struct {
	Name string
	F    Fmt
}

func dirLines(ds []Dir, canonical bool) (ls []string) {
	for i, d := range ds {
		t := d.Name
		if !canonical {
			switch d.F.Case {
			case 1:
				t = strings.ToUpper(t)
			case 2:
				t = strings.ToLower(t)
			}
			t = d.F.Lead + t + d.F.Trail
			if d.F.Empty {
				t = []string{",", ", ,", " ,"}[d.F.Digits%3] + t
			}
			if i > 0 && !d.F.NewLine {
				ls[len(ls)-1] += "," + t
				continue
			}
			if d.F.Blank {
				ls = append(ls, d.F.Trail)
			}
		}
		ls = append(ls, t)
	}
	return ls
}

func permuted(h Hdr, perm []int) Hdr {
	out := append(Hdr(nil), h...)
	for i := range out {
		j := perm[i%len(perm)] % len(out)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var propP03 = Prop[caseP03]{
	ID:    "P03",
	Title: "header formatting",
	Rule:  "some header is formatted other than canonically, or its members are reordered",
	Quick: 30000,
	Deep:  1200000,
	Gen: func(t *rapid.T) caseP03 {
		c := caseP03{Reps: genReps(t, 5, 20)}
		c.Req = genReq(t, c.Reps, true)
		switch rapid.IntRange(0, 3).Draw(t, "lenient?") {
		case 0:
			c.Req = lenient(t, c.Req)
		case 1, 2:
			c.Req = sharpen(t, c.Req, c.Reps)
		}
		if rapid.Bool().Draw(t, "features?") {
			c.Req.Features = genExprs(t, 6)
			for i := range c.Reps {
				if rapid.Bool().Draw(t, "feat?") {
					c.Reps[i].Feat = []string{genElem(t).String()}
				}
			}
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "dirs"); i < n; i++ {
			c.Dirs = append(c.Dirs, Dir{rapid.SampledFrom([]string{"trans", "vlist", "guess-small", "*", "1.0", "1.0", "2.0", "x-ext"}).Draw(t, "dir"), genFmt(t, true)})
		}
		blank := rapid.SampledFrom([]string{"", "", "", "", "", "", ",", " ", " , ,"})
		c.EmptyAccept, c.EmptyEncoding = blank.Draw(t, "empty.accept"), blank.Draw(t, "empty.encoding")
		c.EmptyLanguage = blank.Draw(t, "empty.language")
		for i := 0; i < 6; i++ {
			c.Perm = append(c.Perm, rapid.IntRange(0, 30).Draw(t, "perm"))
		}
		return c
	},
	Run: func(c caseP03, info *Info) error {
		build := func(q Req, canonical bool) *http.Request {
			r := q.request(canonical)
			r.Header["Negotiate"] = dirLines(c.Dirs, canonical)
			// without members, anything is acceptable, but no content coding is.
			if c.EmptyAccept != "" {
				delete(r.Header, "Accept")
				if !canonical {
					r.Header["Accept"] = []string{c.EmptyAccept}
				}
			}
			if c.EmptyLanguage != "" {
				delete(r.Header, "Accept-Language")
				if !canonical {
					r.Header["Accept-Language"] = []string{c.EmptyLanguage}
				}
			}
			if c.EmptyEncoding != "" {
				r.Header["Accept-Encoding"] = []string{"identity", "*;q=0"}
				if !canonical {
					r.Header["Accept-Encoding"] = []string{c.EmptyEncoding}
				}
			}
			return r
		}
		for _, n := range []struct {
			name string
			n    negotiating
		}{
			{"proactive", proactive.Default},
			{"non-strict proactive", proConf{LaxAccept: true, LaxLanguage: true, LaxCharset: true}.negotiator()},
			{"transparent", transparent.New(transparent.MaximumVariantListSize(80))},
		} {
			plain := build(c.Req, true)
			fancy := build(c.Req, false)
			want := negotiate(n.n, plain, false, stubs(c.Reps)...)
			got := negotiate(n.n, fancy, false, stubs(c.Reps)...)
			if want.err != nil {
				return fmt.Errorf("%s: unexpected error %v for %v", n.name, want.err, plain.Header)
			}
			if !want.equal(got) {
				return fmt.Errorf("%s: headers %q yield\n  %v\nbut %q yield\n  %v", n.name, plain.Header, want, fancy.Header, got)
			}
			info.class("%s %d", n.name, want.Status)
			info.NonTrivial = info.NonTrivial || fmt.Sprint(plain.Header) != fmt.Sprint(fancy.Header)

			// the order of the members only matters for languages.
			for _, r := range c.Reps {
				if c.EmptyAccept == "" && mediaQuality(r.Type, c.Req.Accept).ambiguous {
					info.class("order skipped: ambiguous")
					return nil
				}
			}
			q := c.Req
			q.Accept, q.Charset, q.Encoding = permuted(q.Accept, c.Perm), permuted(q.Charset, c.Perm), permuted(q.Encoding, c.Perm)
			shuffled := build(q, true)
			got = negotiate(n.n, shuffled, false, stubs(c.Reps)...)
			if !want.equal(got) {
				return fmt.Errorf("%s: headers %q yield\n  %v\nbut reordered %q yield\n  %v", n.name, plain.Header, want, shuffled.Header, got)
			}
		}
		return nil
	},
}

func TestP03(t *testing.T) { run(t, propP03) }
func FuzzP03(f *testing.F) { fuzz(f, propP03) }

// ---- P04: arbitrary headers -------------------------------------------------

// rawField is a header field with arbitrary values.
type rawField struct {
	Name   string
	Values []byteString
}

// byteString survives JSON whatever its bytes are.
type byteString []byte

type caseP04 struct {
	Reps         []Rep
	Req          Req
	Raw          []rawField
	Uncomparable bool
	Invalid      string // header that certainly is malformed
	Valid        bool   // the raw headers are well-formed
	N            int    // negotiator
}

var headerNames = []string{"Accept", "Accept-Charset", "Accept-Language", "Accept-Encoding", "Accept-Features", "Negotiate"}

var fragments = []string{
	"text/html", "*/*", "text/*", "application/json", "en", "en-US", "*", "gzip", "identity", "utf-8", "iso-8859-1", "br",
	";", ",", "=", "q", "Q", ";q=", "; q = ", "q=0.5", ";q=1.001", ";q=-1", ";q=0.12345", ";q=abc", ";q=NaN", ";q=Inf", ";q=1e-1", ";q=",
	"\"", "\\", "\"a,b\"", " ", "\t", "/", "//", "-", "--", ";level=1", ";level=", ";;", ",,", ",;", "{", "}", "[", "]", "!", "!=", "={", "=[1-2]",
	"trans", "vlist", "guess-small", "1.0", "1e400", "tables", "!tables", "tables=5", "tables!=5", "tables={5}", "={}",
	"\x00", "\x7f", "\xff", "\xc3\xa9", "é", "日本", "\r\n", "x-klingon", "i-default", "root", "und", "mul", "en-u-co-phonebk", "zh-cmn-Hans-CN",
	"0", "1", "9999999999999999999999", "a", ";a=b;a=c", ";q=0.5;q=0.6", "*;q=0", "*/html", "text", "text/", "/html",
}

func genRaw(t *rapid.T, seedText string) byteString {
	switch rapid.IntRange(0, 5).Draw(t, "raw.kind") {
	case 0:
		return byteString(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "raw.bytes"))
	case 1, 2, 3:
		var b strings.Builder
		for i, n := 0, rapid.IntRange(0, 14).Draw(t, "raw.n"); i < n; i++ {
			b.WriteString(rapid.SampledFrom(fragments).Draw(t, "raw.frag"))
		}
		return byteString(b.String())
	case 4: // long
		s := rapid.SampledFrom(fragments).Draw(t, "raw.frag")
		return byteString(strings.Repeat(s+rapid.SampledFrom([]string{"", ",", ";", " "}).Draw(t, "raw.sep"), rapid.IntRange(1, 400).Draw(t, "raw.rep")))
	}
	// mutations of a valid header.
	b := []byte(seedText)
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "raw.muts"); i < n && len(b) > 0; i++ {
		at := rapid.IntRange(0, len(b)-1).Draw(t, "raw.at")
		switch rapid.IntRange(0, 2).Draw(t, "raw.mut") {
		case 0:
			b = append(b[:at:at], b[at+1:]...)
		case 1:
			b[at] = rapid.SampledFrom([]byte(" ,;=\"\\*q/0129-\x00\xff")).Draw(t, "raw.byte")
		case 2:
			f := rapid.SampledFrom(fragments).Draw(t, "raw.frag")
			b = append(b[:at:at], append([]byte(f), b[at:]...)...)
		}
	}
	return byteString(b)
}

var badWeights = []string{"1.001", "1.5", "2", "10", "-0.1", "-1", "abc", "NaN", "Infinity", "0.5x", "0.5.5", "1.0001", "1e1", "0x2", "1e400", "0.5 0.5", "--1", "nan", "inf", "9.99", "1000", "4294967297"}

// uncomparable is a representation that cannot be compared with others.
type uncomparable struct {
	representation.Representation
	notes []string
}

func (c caseP04) request() *http.Request {
	r := c.Req.request(false)
	for _, f := range c.Raw {
		r.Header[f.Name] = nil
		for _, v := range f.Values {
			r.Header[f.Name] = append(r.Header[f.Name], string(v))
		}
		r.Header[f.Name] = roomy(r.Header[f.Name])
	}
	return r
}

var propP04 = Prop[caseP04]{
	ID:    "P04",
	Title: "arbitrary headers",
	Rule:  "at least one header field is arbitrary or malformed",
	Quick: 400000,
	Deep:  2500000,
	Gen: func(t *rapid.T) caseP04 {
		c := caseP04{Reps: genReps(t, 4, 12), N: rapid.IntRange(0, 3).Draw(t, "negotiator")}
		c.Req = genReq(t, c.Reps, true)
		c.Req.Negotiate = rapid.SampledFrom([][]string{nil, {"1.0"}, {"*"}, {"trans"}, {"guess-small"}, {"trans", "1.0", "guess-small"}}).Draw(t, "negotiate")
		c.Uncomparable = rapid.IntRange(0, 3).Draw(t, "uncomparable") == 0
		seed := c.Req.request(false).Header
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0: // all valid
		case 1: // one weight is certainly wrong
			c.N = rapid.SampledFrom([]int{0, 2}).Draw(t, "negotiator")
			c.Req.Negotiate = []string{"trans", "1.0"}
			if c.N == 0 {
				c.Invalid = rapid.SampledFrom(headerNames[:4]).Draw(t, "invalid")
			} else {
				c.Invalid = rapid.SampledFrom(headerNames[:3]).Draw(t, "invalid")
				if len(c.Reps) > 10 {
					c.Reps = c.Reps[:10]
				}
			}
			name := map[string][]string{
				"Accept": {"text/html", "*/*", "text/*"}, "Accept-Charset": {"utf-8", "*"},
				"Accept-Language": {"en", "*", "fr-CA"}, "Accept-Encoding": {"gzip", "*", "identity"},
			}[c.Invalid]
			bad := rapid.SampledFrom(name).Draw(t, "invalid.name") + ";q=" + rapid.SampledFrom(badWeights).Draw(t, "invalid.weight")
			vs := []byteString{}
			for _, v := range seed[c.Invalid] {
				vs = append(vs, byteString(v))
			}
			at := rapid.IntRange(0, len(vs)).Draw(t, "invalid.at")
			vs = append(vs[:at:at], append([]byteString{byteString(bad)}, vs[at:]...)...)
			c.Raw = []rawField{{c.Invalid, vs}}
		default:
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "fields"); i < n; i++ {
				f := rawField{Name: rapid.SampledFrom(headerNames).Draw(t, "field")}
				for j, m := 0, rapid.SampledFrom([]int{1, 1, 1, 0, 2, 3}).Draw(t, "values"); j < m; j++ {
					f.Values = append(f.Values, genRaw(t, strings.Join(seed[f.Name], ",")))
				}
				c.Raw = append(c.Raw, f)
			}
			if rapid.IntRange(0, 3).Draw(t, "odd metadata") == 0 {
				i := rapid.IntRange(0, len(c.Reps)-1).Draw(t, "odd.rep")
				odd := string(genRaw(t, c.Reps[i].Type))
				odd = strings.ToValidUTF8(odd, "?")
				switch rapid.IntRange(0, 4).Draw(t, "odd.dim") {
				case 0:
					c.Reps[i].Type = odd
				case 1:
					c.Reps[i].Lang = odd
				case 2:
					c.Reps[i].Charset = odd
				case 3:
					c.Reps[i].Enc = []string{odd}
				case 4:
					c.Reps[i].Feat = []string{odd, genElem(t).String()}
				}
			}
		}
		return c
	},
	Run: func(c caseP04, info *Info) error {
		var n negotiating
		allowed := map[int]bool{}
		switch c.N {
		case 0:
			n, allowed = proactive.Default, map[int]bool{200: true, 406: true}
		case 1:
			n, allowed = proConf{LaxAccept: true, LaxLanguage: true, LaxCharset: true}.negotiator(), map[int]bool{200: true, 406: true}
		case 2:
			n, allowed = transparent.Default, map[int]bool{200: true, 300: true}
		case 3:
			n, allowed = reactive.Default, map[int]bool{300: true}
		}
		rec := newRecorder()
		r := c.request()
		rs := stubs(c.Reps)
		if c.Uncomparable {
			for i, rep := range rs {
				rs[i] = uncomparable{rep, []string{"note"}}
			}
		}
		res := negotiateTo(rec, n, r, false, rs...)
		info.NonTrivial = len(c.Raw) > 0
		if res.err != nil {
			info.class("error")
			if !res.untouched() || len(rec.header) > 0 {
				return fmt.Errorf("failed with %v for %q, but responded nonetheless: %v (header %v)", res.err, r.Header, res, rec.header)
			}
			if (len(c.Raw) == 0 || c.Valid) && !(c.N == 2 && len(c.Reps) > 10) {
				return fmt.Errorf("failed with %v for the well-formed %q", res.err, r.Header)
			}
			if c.N == 3 {
				return fmt.Errorf("reactive negotiation failed with %v", res.err)
			}
			return nil
		}
		info.class("status %d", res.Status)
		if !allowed[res.Status] || res.calls != 1 {
			return fmt.Errorf("responded to %q with %v", r.Header, res)
		}
		if fmt.Sprint(len(res.Body)) != res.Header["Content-Length"] {
			return fmt.Errorf("Content-Length is %s, but the body has %d bytes", res.Header["Content-Length"], len(res.Body))
		}
		if c.Invalid != "" {
			return fmt.Errorf("accepted the malformed %s: %q", c.Invalid, r.Header[c.Invalid])
		}
		return nil
	},
	Probes: []Probe[caseP04]{
		{"unregistered-coding", wellFormed("Accept-Encoding", "gzip, sdch")},
		{"reserved-language", wellFormed("Accept-Language", "en, reserved")},
	},
	Fixed: []caseP04{
		wellFormed("Accept-Encoding", ""),
		wellFormed("Accept", ""),
		wellFormed("Accept", "text/html;level=1;q=0.5, */*;q=0.1", "application/json"),
		wellFormed("Accept-Language", "da, en-gb;q=0.8, en;q=0.7"),
		wellFormed("Accept-Language", "xx, en-Xxxx;q=0.8, de-1234x;q=0.5, i-klingon, x-pig"),
		wellFormed("Accept-Charset", "iso-8859-5, unicode-1-1;q=0.8"),
		wellFormed("Accept-Encoding", "gzip;q=1.0, identity; q=0.5, *;q=0"),
	},
}

func wellFormed(name string, values ...string) caseP04 {
	f := rawField{Name: name}
	for _, v := range values {
		f.Values = append(f.Values, byteString(v))
	}
	return caseP04{
		Reps:  []Rep{{Type: "text/html", SQ: 1000, Len: 10, Loc: "/res/variant0"}},
		Raw:   []rawField{f},
		Valid: true,
	}
}

func TestP04(t *testing.T) { run(t, propP04) }
func FuzzP04(f *testing.F) { fuzz(f, propP04) }
