package zzverif

// Structured negotiation headers: generated as values, rendered as field lines
// with generated formatting, and evaluated by the reference model without ever
// being parsed.

import (
	"errors"
	"fmt"
	"mime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

// Fmt is the formatting of one list member.
type Fmt struct {
	NewLine bool   `json:",omitempty"` // start a new field line before the member
	Lead    string `json:",omitempty"` // whitespace before
	Trail   string `json:",omitempty"` // whitespace after
	Semi1   string `json:",omitempty"` // whitespace before ';'
	Semi2   string `json:",omitempty"` // whitespace after ';'
	UpperQ  bool   `json:",omitempty"`
	Digits  int    `json:",omitempty"` // 0: as few as possible, 4: nothing after the point, else at least this many
	Case    int    `json:",omitempty"` // 0 as is, 1 upper, 2 lower
	Empty   bool   `json:",omitempty"` // an empty member precedes it
	Blank   bool   `json:",omitempty"` // a field line without members precedes it, if it starts one
	Quote   bool   `json:",omitempty"` // quote parameter values
	QFirst  bool   `json:",omitempty"` // the weight precedes the parameters
}

// Member is one member of a negotiation header.
type Member struct {
	Name   string
	Params [][2]string `json:",omitempty"`
	Q      int         // thousandths; -1 when there is no weight
	F      Fmt
}

// Hdr is a negotiation header. Absent when there are no members.
type Hdr []Member

func (h Hdr) present() bool { return len(h) > 0 }

// q is the effective quality in thousandths.
func (m Member) q() int {
	if m.Q < 0 {
		return 1000
	}
	return m.Q
}

func renderQ(q, digits int) string {
	s := fmt.Sprintf("%d.%03d", q/1000, q%1000)
	if digits == 4 {
		return strings.TrimRight(s, "0") // possibly without any digits
	}
	for strings.HasSuffix(s, "0") && len(s)-2 > digits && len(s) > 2 {
		s = s[:len(s)-1]
	}
	if digits == 0 {
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

const tokenChars = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// paramValue renders a parameter value, as a quoted string where it has to be.
func paramValue(v string, quote bool) string {
	if !quote && v != "" && strings.Trim(v, tokenChars) == "" {
		return v
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(v) + `"`
}

func (m Member) text() string {
	name := m.Name
	switch m.F.Case {
	case 1:
		name = strings.ToUpper(name)
	case 2:
		name = strings.ToLower(name)
	}
	var b strings.Builder
	b.WriteString(name)
	weight := ""
	if m.Q >= 0 {
		q := "q="
		if m.F.UpperQ {
			q = "Q="
		}
		weight = m.F.Semi1 + ";" + m.F.Semi2 + q + renderQ(m.Q, m.F.Digits)
	}
	if m.F.QFirst {
		b.WriteString(weight)
	}
	for _, p := range m.Params {
		b.WriteString(m.F.Semi1 + ";" + m.F.Semi2 + p[0] + "=")
		b.WriteString(paramValue(p[1], m.F.Quote))
	}
	if !m.F.QFirst {
		b.WriteString(weight)
	}
	return b.String()
}

// lines renders the header with the formatting of its members.
func (h Hdr) lines() []string {
	var ls []string
	for i, m := range h {
		t := m.F.Lead + m.text() + m.F.Trail
		if i == 0 || m.F.NewLine {
			if m.F.Empty {
				t = "," + t
			}
			if m.F.Blank {
				ls = append(ls, m.F.Trail+[]string{"", ",", " ,,"}[m.F.Digits%3])
			}
			ls = append(ls, t)
			continue
		}
		sep := ","
		if m.F.Empty {
			sep = ", ,"
		}
		ls[len(ls)-1] += sep + t
	}
	if n := len(h); n > 0 && h[n-1].F.Blank {
		ls = append(ls, h[n-1].F.Lead)
	}
	return ls
}

// canonical renders the header with one plain member per field line.
func (h Hdr) canonical() []string {
	var ls []string
	for _, m := range h {
		m.F = Fmt{}
		ls = append(ls, m.text())
	}
	return ls
}

var wsPool = []string{"", "", "", " ", " ", "\t", "  "}

func genFmt(t *rapid.T, messy bool) Fmt {
	f := Fmt{NewLine: rapid.IntRange(0, 3).Draw(t, "newline") == 0}
	if !f.NewLine {
		f.Lead = rapid.SampledFrom([]string{" ", ""}).Draw(t, "lead")
	}
	if rapid.IntRange(0, 4).Draw(t, "fmt") < 3 && !messy {
		return f
	}
	ws := rapid.SampledFrom(wsPool)
	f.Lead, f.Trail = ws.Draw(t, "lead"), ws.Draw(t, "trail")
	f.Semi1, f.Semi2 = ws.Draw(t, "semi1"), ws.Draw(t, "semi2")
	f.UpperQ = rapid.IntRange(0, 3).Draw(t, "Q") == 0
	f.Digits = rapid.IntRange(0, 4).Draw(t, "digits")
	f.Case = rapid.IntRange(0, 2).Draw(t, "case")
	f.Empty = rapid.IntRange(0, 5).Draw(t, "empty") == 0
	f.Quote = rapid.IntRange(0, 2).Draw(t, "quote") == 0
	f.Blank = rapid.IntRange(0, 5).Draw(t, "blank") == 0
	f.QFirst = rapid.IntRange(0, 5).Draw(t, "qfirst") == 0
	return f
}

var qPool = []int{-1, -1, -1, 1000, 1000, 900, 800, 800, 700, 500, 500, 400, 300, 100, 1, 999, 250, 0, 0}

func genQ(t *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(t, "anyq") == 0 {
		return rapid.IntRange(0, 1000).Draw(t, "q")
	}
	return rapid.SampledFrom(qPool).Draw(t, "q")
}

// ---- pools ----------------------------------------------------------------

type mtype struct {
	Name   string
	Params [][2]string
}

func (m mtype) String() string {
	s := m.Name
	for _, p := range m.Params {
		s += ";" + p[0] + "=" + paramValue(p[1], false)
	}
	return s
}

func ps(kv ...string) (p [][2]string) {
	for i := 0; i+1 < len(kv); i += 2 {
		p = append(p, [2]string{kv[i], kv[i+1]})
	}
	return p
}

var typePool = []mtype{
	{"text/html", nil},
	{"text/html", ps("level", "1")},
	{"text/html", ps("level", "2")},
	{"text/html", ps("level", "3")},
	{"text/html", ps("level", "9")},
	{"text/html", ps("level", "10")},
	{"text/plain", nil},
	{"text/plain", ps("format", "flowed")},
	{"text/plain", ps("level", "4")},
	{"application/json", nil},
	{"application/json", ps("v", "2")},
	{"application/xml", nil},
	{"application/vnd.api+json", nil},
	{"application/vnd.acme.v1+json", nil},
	{"image/png", nil},
	{"text/html", ps("level", "2", "v", "2")},
	{"application/json", ps("profile", "a,b")},
	{"application/json", ps("profile", "x;q=0.1, y")},
	{"application/json", ps("profile", `quo"te`)},
	{"application/json", ps("profile", `a\b, c`)},
	{"application/json", ps("profile", `ends with \`)},
	{"text/html", ps("charset", "utf-8")},
	{"text/plain", ps("charset", "us-ascii", "format", "flowed")},
	{"application/vnd.openxmlformats-officedocument.wordprocessingml.document", nil},
	{"application/x.0!#$&^_.+-y", nil},
	{"application/xhtml+xml", nil},
	{"application/xhtml+xml", ps("level", "7")},
	{"text/xml", nil},
	{"text/yaml", nil},
	{"application/yaml", nil},
	{"application/pdf", nil},
	{"application/octet-stream", nil},
	{"application/problem+json", nil},
	{"image/svg+xml", nil},
	{"video/mp4", nil},
	{"multipart/mixed", ps("boundary", "b=1:2")},
	{"x-world/x-vrml", nil},
	{"text/htm", nil},
	{"text/html5", nil},
	{"textual/html", nil},
	{"text/x-html", ps("level", "8")},
}

// richParams are the parameters some media types have lots of.
var richParams = ps("level", "2", "charset", "utf-8", "v", "1", "format", "flowed", "profile", "p", "x", "y z", "quality", "1")

var rangePool = append([]mtype{
	{"*/*", nil}, {"*/*", nil}, {"text/*", nil}, {"text/*", nil}, {"application/*", nil}, {"image/*", nil},
	{"text/*", ps("level", "2")},
	{"*/*", ps("v", "2")},
	{"video/mp4", nil},
	{"text/html", ps("v", "2")},
	{"text/html", ps("LEVEL", "1")},
	{"text/html", ps("Level", "2")},
	{"text/*", ps("charset", "utf-8")},
	{"text/*x", nil}, {"application/*+json", nil}, {"text/*-html", nil}, {"text/h*", nil}, // asterisks that aren't wildcards
	{"text/x", nil}, {"application/json5", nil}, {"application/vnd.api", nil}, {"image/pn", nil},
}, typePool...)

var (
	charsetPool      = []string{"utf-8", "UTF-8", "us-ascii", "iso-8859-1", "ISO-8859-1", "Shift_JIS", "utf-16", "windows-1252", "iso-8859-15", "latin1", "utf8", "gb18030", "ISO-8859-11", "iso_8859-1", "x-user-defined"}
	charsetRangePool = []string{"utf-8", "us-ascii", "iso-8859-1", "Shift_JIS", "utf-16", "koi8-r", "windows-1252", "iso-8859-15", "utf-1", "utf8", "latin1", "gb18030", "iso-8859-11", "big5", "*", "*", "*"}
	langPool         = []string{"en", "en-US", "en-GB", "fr", "fr-CA", "de", "es", "pt-BR", "ja", "zh-Hant-TW", "sr-Latn", "gsw", "EN-us", "FR-ca", "es-419", "de-CH-1996", "zh-hant-tw", "sr-Latn-RS", "nb", "nn", "da", "hr", "fil", "fi", "mul", "und", "zxx", "i-klingon", "x-pig-latin", "en-x-twain", "de-DE-u-co-phonebk", "sl-rozaj-biske-1994", "xx", "XX-foo", "en-foo", "de-1234x"}
	langRangePool    = []string{"en", "en-US", "en-GB", "fr", "fr-CA", "de", "de-AT", "es", "ja", "ko", "zh-Hant", "zh", "zh-Hant-TW", "sr", "pt", "es-419", "de-CH", "sr-Latn", "zh-Hans", "no", "nb", "da", "sv", "bs", "az-Cyrl", "fi", "fil", "mul", "und", "i-default", "x-pig", "de-DE", "sl-rozaj", "zxx", "xx", "qq-ZZ", "xx-FOO", "en-foo", "en-Xxxx", "de-1234x", "foo", "*", "*", "*"}
	encPool          = [][]string{nil, {}, {"identity"}, {"gzip"}, {"deflate"}, {"compress"}, {"gzip", "deflate"}, {"deflate", "gzip"}, {"GZIP"}, {"br"}, {"identity", "gzip"}, {"x-custom"}, {"x-gzip"}, {"zstd", "compress"}, {"Identity"}, {"x-deflate"}, {"identity", "identity"}, {"gzip", "gzip"}, {"dcb"}, {"identity-x"}}
	encRangePool     = []string{"gzip", "gzip", "deflate", "compress", "identity", "identity", "br", "zstd", "x-gzip", "x-compress", "*", "*"}
)

// count draws a number of things, mostly few but sometimes many.
func count(t *rapid.T, label string, min, usual, most int) int {
	if rapid.IntRange(0, 11).Draw(t, label+".many") == 0 {
		return rapid.IntRange(usual, most).Draw(t, label)
	}
	return rapid.IntRange(min, usual).Draw(t, label)
}

func genHdr(t *rapid.T, label string, usual, most int, messy bool, member func(*rapid.T) Member, key func(Member) string, filler func(i int) string) Hdr {
	n := count(t, label+".n", 1, usual, most)
	seen := map[string]bool{}
	flat := n > usual && rapid.Bool().Draw(t, label+".flat") // all weigh the same
	var h Hdr
	for i := 0; i < n; i++ {
		m := member(t)
		if flat && len(h) > 0 && m.Q != 0 {
			m.Q = h[0].Q
		}
		if k := key(m); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		m.F = genFmt(t, messy)
		h = append(h, m)
	}
	if n > usual && filler != nil && rapid.Bool().Draw(t, label+".filler") {
		// plenty of members that are about something else.
		at := rapid.IntRange(0, len(h)).Draw(t, label+".filler.at")
		q := genQ(t)
		rest := append(Hdr(nil), h[at:]...)
		h = h[:at]
		for i, k := 0, rapid.IntRange(1, 60).Draw(t, label+".filler.n"); i < k; i++ {
			if m := (Member{Name: filler(i), Q: q}); m.Name != "" && !seen[key(m)] {
				h = append(h, m)
			}
		}
		h = append(h, rest...)
	}
	return h
}

var fillerLangs = strings.Fields("eo la ga cy eu is mt sw zu vi th ko hi ta te ml bn ka hy fa he id ms uk bg sl sk lt lv et ca gl af yo ig ha am km lo my ne si ur pa gu mr kn or as")

func fillerOf(format string) func(int) string {
	return func(i int) string { return fmt.Sprintf(format, i) }
}

func lowerKey(m Member) string { return strings.ToLower(m.Name) }

func mediaKey(m Member) string {
	return strings.ToLower(m.Name) + fmt.Sprint(m.Params)
}

// focus holds the values the representations have, which makes for ranges that
// are likely to matter.
type focus struct {
	types       []mtype
	cs, lang, e []string
}

func pick(t *rapid.T, label string, focused, pool []string) string {
	if len(focused) > 0 && rapid.Bool().Draw(t, label+".focus") {
		v := rapid.SampledFrom(focused).Draw(t, label)
		near := 15
		if label == "enc" {
			near = -1 // unregistered codings aren't accepted
		} else {
			near = rapid.IntRange(0, near).Draw(t, label+".near")
		}
		switch near { // almost
		case 0:
			if len(v) > 1 && v[len(v)-2] != '-' {
				v = v[:len(v)-1]
			}
		case 1:
			if i := strings.LastIndexByte(v, '-'); len(v)-i < 8 {
				v += "x"
			}
		}
		return v
	}
	return rapid.SampledFrom(pool).Draw(t, label)
}

func genAccept(t *rapid.T, messy bool, f focus) Hdr {
	return genHdr(t, "accept", 5, 24, messy, func(t *rapid.T) Member {
		var r mtype
		if len(f.types) > 0 && rapid.Bool().Draw(t, "range.focus") {
			r = rapid.SampledFrom(f.types).Draw(t, "range")
			switch rapid.IntRange(0, 4).Draw(t, "range.gen") {
			case 0:
				r.Params = nil
			case 1:
				r.Params, r.Name = nil, strings.Split(r.Name, "/")[0]+"/*"
			case 2, 3:
				if len(r.Params) > 1 {
					// each of them or not, in any order.
					var some [][2]string
					for _, p := range rapid.Permutation(r.Params).Draw(t, "range.params") {
						if rapid.IntRange(0, 2).Draw(t, "range.param") > 0 {
							some = append(some, p)
						}
					}
					if len(some) > 0 && rapid.IntRange(0, 7).Draw(t, "range.near") == 0 {
						some[len(some)-1][1] += "x"
					}
					r.Params = some
				}
			}
		} else {
			r = rapid.SampledFrom(rangePool).Draw(t, "range")
		}
		return Member{Name: r.Name, Params: r.Params, Q: genQ(t)}
	}, mediaKey, fillerOf("application/x-f%d"))
}

func genAcceptCharset(t *rapid.T, messy bool, f focus) Hdr {
	return genHdr(t, "charset", 4, 9, messy, func(t *rapid.T) Member {
		return Member{Name: pick(t, "cs", f.cs, charsetRangePool), Q: genQ(t)}
	}, lowerKey, fillerOf("x-cs%d"))
}

func genAcceptLanguage(t *rapid.T, messy bool, f focus) Hdr {
	return genHdr(t, "language", 5, 40, messy, func(t *rapid.T) Member {
		l := pick(t, "lang", f.lang, langRangePool)
		if i := strings.IndexByte(l, '-'); i > 1 && rapid.IntRange(0, 3).Draw(t, "lang.cut") == 0 {
			l = l[:i]
		}
		if _, err := language.Parse(l); l != "*" && err != nil && !errors.As(err, new(language.ValueError)) {
			l = "en" // it is not well-formed
		}
		return Member{Name: l, Q: genQ(t)}
	}, lowerKey, func(i int) string {
		if i < len(fillerLangs) {
			return fillerLangs[i]
		}
		return ""
	})
}

func genAcceptEncoding(t *rapid.T, messy bool, f focus) Hdr {
	return genHdr(t, "encoding", 4, 10, messy, func(t *rapid.T) Member {
		return Member{Name: pick(t, "enc", f.e, encRangePool), Q: genQ(t)}
	}, lowerKey, nil)
}

// ---- reference evaluation -------------------------------------------------

// quality is the outcome of resolving one dimension, in thousandths.
type quality struct {
	q         int
	wild      bool // a wildcard, or no header at all, determined it
	idx       int  // position of the range among the ranges by preference, -1 if none
	ambiguous bool // ranges of the same specificity disagree
}

func splitType(s string) (string, string) {
	a, b, _ := strings.Cut(strings.ToLower(s), "/")
	return a, b
}

func parseType(ct string) mtype {
	name, params, err := mime.ParseMediaType(ct)
	if err != nil {
		panic("harness: bad media type " + ct)
	}
	m := mtype{Name: name}
	for k, v := range params {
		m.Params = append(m.Params, [2]string{k, v})
	}
	// the order of a map is not deterministic.
	sort.Slice(m.Params, func(i, j int) bool { return m.Params[i][0] < m.Params[j][0] })
	return m
}

// mediaQuality resolves the quality of a media type. Absent metadata and an
// absent header are acceptable; otherwise the most specific range decides.
func mediaQuality(ct string, h Hdr) quality {
	if ct == "" {
		return quality{q: 1000, idx: -1}
	}
	if !h.present() {
		return quality{q: 1000, wild: true, idx: -1}
	}
	m := parseType(ct)
	t, s := splitType(m.Name)
	params := map[string]string{}
	for _, p := range m.Params {
		params[p[0]] = p[1]
	}
	best, res := -1, quality{idx: -1}
	for _, r := range h {
		rt, rs := splitType(r.Name)
		if (rt != "*" && rt != t) || (rs != "*" && rs != s) {
			continue
		}
		ok := true
		for _, p := range r.Params {
			if v, has := params[strings.ToLower(p[0])]; !has || v != p[1] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		spec := len(r.Params)
		if rt != "*" {
			spec += 100
		}
		if rs != "*" {
			spec += 100
		}
		switch {
		case spec > best:
			best = spec
			res = quality{q: r.q(), wild: rt == "*" || rs == "*", idx: -1}
		case spec == best && r.q() != res.q:
			res.ambiguous = true
		}
	}
	return res
}

func charsetQuality(cs string, h Hdr) quality {
	if cs == "" {
		return quality{q: 1000, idx: -1}
	}
	if !h.present() {
		return quality{q: 1000, wild: true, idx: -1}
	}
	for _, m := range h {
		if strings.EqualFold(m.Name, cs) {
			return quality{q: m.q(), idx: -1}
		}
	}
	for _, m := range h {
		if m.Name == "*" {
			return quality{q: m.q(), wild: true, idx: -1}
		}
	}
	return quality{idx: -1}
}

// closeLanguages tells if a language range that is not a prefix of the tag is
// nonetheless close enough, which is a matter of the x/text matcher.
func closeLanguages(r, tag string) bool {
	rt, err := language.Parse(r)
	if err != nil {
		return false
	}
	if _, err := language.Parse(tag); err != nil {
		return false
	}
	_, i := language.MatchStrings(language.NewMatcher([]language.Tag{language.Und, rt}), tag)
	return i != 0
}

var closeCache sync.Map

func languageQuality(tag string, h Hdr) quality {
	if tag == "" {
		return quality{q: 1000, idx: -1}
	}
	if !h.present() {
		return quality{q: 1000, wild: true, idx: -1}
	}
	best, res, at := -1, quality{idx: -1}, -1
	for i, m := range h {
		spec := -1
		r := strings.ToLower(m.Name)
		switch l := strings.ToLower(tag); {
		case r == "*":
			spec = 1
		case l == r || strings.HasPrefix(l, r+"-"):
			spec = 1 + len(r)
		default:
			k := [2]string{r, l}
			c, ok := closeCache.Load(k)
			if !ok {
				c = closeLanguages(r, tag)
				closeCache.Store(k, c)
			}
			if c.(bool) {
				spec = 0
			}
		}
		if spec < 0 {
			continue
		}
		// among ranges that are merely close, the preferred one counts.
		if spec > best || (spec == best && m.q() > res.q) {
			best, at = spec, i
			res = quality{q: m.q(), wild: r == "*"}
		}
	}
	if at < 0 {
		return res
	}
	// position when ordered by preference, stable.
	for i, m := range h {
		if m.q() > h[at].q() || (m.q() == h[at].q() && i < at) {
			res.idx++
		}
	}
	return res
}

func encodingQuality(encs []string, h Hdr) quality {
	if !h.present() {
		return quality{q: 1000, wild: true, idx: -1}
	}
	find := func(c string) (int, bool) {
		for _, m := range h {
			if strings.EqualFold(m.Name, c) {
				return m.q(), true
			}
		}
		for _, m := range h {
			if m.Name == "*" {
				return m.q(), true
			}
		}
		return 0, false
	}
	res, encoded := quality{q: 1000, idx: -1}, false
	for _, e := range encs {
		if strings.EqualFold(e, "identity") {
			continue
		}
		encoded = true
		if q, _ := find(e); q < res.q {
			res.q = q
		}
	}
	if !encoded {
		if q, ok := find("identity"); ok {
			return quality{q: q, idx: -1}
		}
		return quality{q: 1, idx: -1} // acceptable, yet the least preferred
	}
	return res
}
