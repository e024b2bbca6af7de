package zzverif

// Reference models: the algorithms as documented, over structured values.

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---- Apache httpd algorithm -----------------------------------------------

type ranked struct {
	idx            int
	qt, qc, ql, qe int
	los            int
	sq             int
	level          int // -1 if it has none
	cs             string
	length         int
}

type verdict struct {
	idx       int // -1 when none is acceptable
	ambiguous bool
	decidedBy string
	remaining int // number of acceptable representations
}

func levelOf(ct string) int {
	if ct == "" {
		return -1
	}
	m := parseType(ct)
	if m.Name != "text/html" {
		return -1
	}
	for _, p := range m.Params {
		if p[0] == "level" {
			n, err := strconv.Atoi(p[1])
			if err != nil {
				panic("harness: bad level")
			}
			return n
		}
	}
	return -1
}

// httpd chooses a representation per the documented Apache httpd algorithm.
func httpd(reps []Rep, q Req) (v verdict) {
	v.idx = -1
	var rs []ranked
	for i, r := range reps {
		t, c := mediaQuality(r.Type, q.Accept), charsetQuality(r.Charset, q.Charset)
		l, e := languageQuality(r.Lang, q.Language), encodingQuality(r.Enc, q.Encoding)
		if t.ambiguous || c.ambiguous || l.ambiguous || e.ambiguous {
			v.ambiguous = true
		}
		if t.q == 0 || c.q == 0 || l.q == 0 || e.q == 0 {
			continue
		}
		x := ranked{idx: i, qt: t.q, qc: c.q, ql: l.q, qe: e.q, sq: r.SQ, level: levelOf(r.Type), cs: r.Charset, length: r.Len}
		if x.length < 0 {
			x.length = 0
		} else if x.length < minLen {
			x.length = minLen
		}
		if r.Lang != "" && q.Language.present() {
			x.los = len(q.Language) - l.idx
		}
		rs = append(rs, x)
	}
	v.remaining = len(rs)
	if len(rs) == 0 {
		return v
	}
	// keepMax keeps the ones that score the most.
	keepMax := func(name string, score func(ranked) int) {
		best := score(rs[0])
		for _, r := range rs {
			if s := score(r); s > best {
				best = s
			}
		}
		var out []ranked
		for _, r := range rs {
			if score(r) == best {
				out = append(out, r)
			}
		}
		if len(out) < len(rs) {
			v.decidedBy = name
		}
		rs = out
	}
	// quality values are compared by the thousandth, so products that differ by
	// less are a matter of rounding.
	for _, a := range rs {
		for _, b := range rs {
			if d := a.sq*a.qt - b.sq*b.qt; d > 0 && d < 1010 {
				v.ambiguous = true
			}
		}
	}
	keepMax("source and type", func(r ranked) int { return r.sq * r.qt })
	keepMax("language", func(r ranked) int { return r.ql })
	keepMax("language order", func(r ranked) int { return r.los })
	keepMax("level", func(r ranked) int { return r.level })
	keepMax("charset", func(r ranked) int { return r.qc })
	keepMax("not iso-8859-1", func(r ranked) int {
		if strings.EqualFold(r.cs, "iso-8859-1") {
			return 0
		}
		return 1
	})
	keepMax("encoding", func(r ranked) int { return r.qe })
	keepMax("length", func(r ranked) int { return -r.length })
	if len(rs) > 1 {
		v.decidedBy = "first"
	}
	v.idx = rs[0].idx
	return v
}

// ---- proactive negotiation ------------------------------------------------

type proConf struct {
	LaxAccept   bool `json:",omitempty"`
	LaxLanguage bool `json:",omitempty"`
	LaxCharset  bool `json:",omitempty"`
	NoBody      bool `json:",omitempty"` // 406 without a representation
	Creation    bool `json:",omitempty"`
}

// proactiveModel decides which representation proactive negotiation serves
// with the default algorithm; idx is -1 for 406.
func proactiveModel(reps []Rep, q Req, c proConf) (v verdict) {
	bad := func(quality func(r Rep) quality) (all bool) {
		for _, r := range reps {
			qq := quality(r)
			if qq.ambiguous {
				v.ambiguous = true
			}
			if qq.q > 0 {
				return false
			}
		}
		return true
	}
	v.idx = -1
	badA := bad(func(r Rep) quality { return mediaQuality(r.Type, q.Accept) })
	badL := bad(func(r Rep) quality { return languageQuality(r.Lang, q.Language) })
	badC := bad(func(r Rep) quality { return charsetQuality(r.Charset, q.Charset) })
	if badA && !c.LaxAccept || badL && !c.LaxLanguage || badC && !c.LaxCharset {
		return v
	}
	amb := v.ambiguous
	if badA {
		q.Accept = nil
	}
	if badL {
		q.Language = nil
	}
	if badC {
		q.Charset = nil
	}
	v = httpd(reps, q)
	v.ambiguous = v.ambiguous || amb
	return v
}

// ---- features -------------------------------------------------------------

// Expr is a feature expression of the Accept-Features header.
type Expr struct {
	Kind string // "tag", "!tag", "=", "!=", "={}", "*"
	Tag  string
	Val  string `json:",omitempty"`
	F    Fmt
}

func (e Expr) String() string {
	switch e.Kind {
	case "tag":
		return e.Tag
	case "!tag":
		return "!" + e.Tag
	case "=":
		return e.Tag + "=" + e.Val
	case "!=":
		return e.Tag + "!=" + e.Val
	case "={}":
		return e.Tag + "={" + e.Val + "}"
	}
	return "*"
}

func exprLines(es []Expr, canonical bool) (ls []string) {
	for i, e := range es {
		t := e.String()
		if canonical {
			ls = append(ls, t)
			continue
		}
		t = e.F.Lead + t + e.F.Trail
		if e.F.Empty {
			t = e.F.Semi1 + "," + t
		}
		if i == 0 || e.F.NewLine {
			if e.F.Blank {
				ls = append(ls, e.F.Trail)
			}
			ls = append(ls, t)
		} else {
			ls[len(ls)-1] += "," + t
		}
	}
	return ls
}

// Pred is a feature predicate.
type Pred struct {
	Kind string // "tag", "!tag", "=", "!=", "[]"
	Tag  string
	Val  string `json:",omitempty"`
	Low  int    // -1 when open-ended
	High int    // -1 when open-ended
	Sp   bool   `json:",omitempty"` // spaces around operators
}

func (p Pred) String() string {
	if p.Sp && p.Kind != "!tag" {
		p.Sp = false
		rest := strings.TrimPrefix(p.String(), p.Tag)
		if p.Kind == "[]" {
			rest = strings.ReplaceAll(rest, "-", " - ")
		}
		return p.Tag + strings.NewReplacer("!=", " != ", "=[", " = [ ", "]", " ]", "=", " = ").Replace(rest)
	}
	switch p.Kind {
	case "tag":
		return p.Tag
	case "!tag":
		return "!" + p.Tag
	case "=":
		return p.Tag + "=" + p.Val
	case "!=":
		return p.Tag + "!=" + p.Val
	}
	var l, h string
	if p.Low >= 0 {
		l = strconv.Itoa(p.Low)
	}
	if p.High >= 0 {
		h = strconv.Itoa(p.High)
	}
	return p.Tag + "=[" + l + "-" + h + "]"
}

// Elem is an element of a feature list.
type Elem struct {
	Bag   bool `json:",omitempty"`
	Preds []Pred
	T, F  int  // factors in thousandths, -1 when omitted
	Sp    bool `json:",omitempty"` // spaces within the brackets
}

func (e Elem) String() string {
	var ss []string
	for _, p := range e.Preds {
		ss = append(ss, p.String())
	}
	s := strings.Join(ss, " ")
	switch {
	case e.Bag && e.Sp:
		s = "[ " + s + " ]"
	case e.Bag:
		s = "[" + s + "]"
	}
	if e.T >= 0 || e.F >= 0 {
		s += ";"
	}
	if e.T >= 0 {
		s += "+" + renderQ(e.T, 0)
	}
	if e.F >= 0 {
		s += "-" + renderQ(e.F, 0)
	}
	return s
}

type featureView struct {
	present map[string][]string
	absent  map[string]bool
}

func viewOf(es []Expr) featureView {
	v := featureView{map[string][]string{}, map[string]bool{}}
	for _, e := range es {
		t := strings.ToLower(e.Tag)
		switch e.Kind {
		case "tag", "!=":
			v.present[t] = append(v.present[t], []string{}...)
			if v.present[t] == nil {
				v.present[t] = []string{}
			}
		case "=", "={}":
			v.present[t] = append(v.present[t], e.Val)
		case "!tag":
			v.absent[t] = true
		}
	}
	return v
}

func (p Pred) holds(v featureView) bool {
	t := strings.ToLower(p.Tag)
	vals, present := v.present[t]
	switch p.Kind {
	case "tag":
		return present
	case "!tag":
		return v.absent[t] && !present
	case "=", "!=":
		if !present {
			return false
		}
		has := false
		for _, x := range vals {
			has = has || x == p.Val
		}
		return has == (p.Kind == "=")
	}
	if !present {
		return false
	}
	highest := -1
	for _, x := range vals {
		if n, err := strconv.Atoi(x); err == nil && n > highest {
			highest = n
		}
	}
	return highest >= 0 && highest >= p.Low && (p.High < 0 || highest <= p.High)
}

// factor is the contribution of the element, in thousandths.
func (e Elem) factor(v featureView) int {
	holds := false
	for _, p := range e.Preds {
		holds = holds || p.holds(v)
	}
	switch {
	case holds && e.T >= 0:
		return e.T
	case holds:
		return 1000
	case e.F >= 0:
		return e.F
	case e.T >= 0:
		return 1000
	}
	return 0
}

var (
	tagPool = []string{"tables", "frames", "java", "paper", "color", "Screen_Width", "x1", "pix-x", "pix-y", "ua.media"}
	valPool = []string{"A4", "a4", "letter", "5", "600", "800", "1024", "0", "v1", "007", "10", "99", "3000000000", "na-letter", "1.5"}
)

func genTag(t *rapid.T) string {
	s := rapid.SampledFrom(tagPool).Draw(t, "tag")
	if rapid.IntRange(0, 3).Draw(t, "tag.case") == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func genExprs(t *rapid.T, most int) (es []Expr) {
	n := rapid.IntRange(1, most).Draw(t, "exprs")
	claim := map[string]bool{}
	for i := 0; i < n; i++ {
		e := Expr{Kind: rapid.SampledFrom([]string{"tag", "!tag", "=", "=", "!=", "={}", "*"}).Draw(t, "expr.kind")}
		if e.Kind != "*" {
			e.Tag = genTag(t)
			// a request does not contradict itself.
			denies := e.Kind == "!tag"
			if d, ok := claim[strings.ToLower(e.Tag)]; ok && d != denies {
				continue
			}
			claim[strings.ToLower(e.Tag)] = denies
		}
		switch e.Kind {
		case "=", "!=", "={}":
			e.Val = rapid.SampledFrom(valPool).Draw(t, "expr.val")
			if rapid.IntRange(0, 7).Draw(t, "expr.any") == 0 {
				e.Val = strconv.Itoa(rapid.IntRange(0, 100000).Draw(t, "expr.num"))
			}
		}
		if e.Kind == "!=" {
			// nor does it claim the value elsewhere.
			for _, o := range es {
				if strings.EqualFold(o.Tag, e.Tag) && o.Val == e.Val {
					e.Kind = "tag"
					e.Val = ""
				}
			}
		}
		e.F = genFmt(t, false)
		es = append(es, e)
	}
	if len(es) == 0 {
		es = []Expr{{Kind: "*"}}
	}
	return es
}

func genPred(t *rapid.T) Pred {
	p := Pred{Kind: rapid.SampledFrom([]string{"tag", "!tag", "=", "=", "!=", "[]", "[]"}).Draw(t, "pred.kind"), Tag: genTag(t), Low: -1, High: -1}
	switch p.Kind {
	case "=", "!=":
		p.Val = rapid.SampledFrom(valPool).Draw(t, "pred.val")
	case "[]":
		bound := rapid.SampledFrom([]int{-1, 0, 4, 5, 6, 599, 600, 601, 800, 1024, 2000})
		p.Low, p.High = bound.Draw(t, "low"), bound.Draw(t, "high")
		if rapid.IntRange(0, 7).Draw(t, "any bound") == 0 {
			p.High = rapid.IntRange(0, 100000).Draw(t, "high")
		}
		if rapid.IntRange(0, 7).Draw(t, "large bound") == 0 {
			p.High = rapid.SampledFrom([]int{2999999999, 3000000000, 4000000000}).Draw(t, "high")
		}
	}
	return p
}

func genElem(t *rapid.T) Elem {
	e := Elem{T: -1, F: -1, Bag: rapid.IntRange(0, 2).Draw(t, "bag") == 0}
	n := 1
	if e.Bag {
		n = rapid.IntRange(1, 4).Draw(t, "bag.n")
	}
	for i := 0; i < n; i++ {
		e.Preds = append(e.Preds, genPred(t))
	}
	e.Sp = rapid.IntRange(0, 2).Draw(t, "sp") == 0
	e.Preds[0].Sp = !e.Bag && rapid.IntRange(0, 3).Draw(t, "pred.sp") == 0
	if rapid.IntRange(0, 2).Draw(t, "factors") > 0 {
		f := rapid.SampledFrom([]int{-1, 0, 300, 500, 700, 900, 950, 1000, 1200, 2000})
		e.T, e.F = f.Draw(t, "true"), f.Draw(t, "false")
	}
	return e
}

// ---- RVSA/1.0 -------------------------------------------------------------

type rvsaRank struct {
	overall  float64 // in 1e-5, rounded
	definite bool
	edge     bool // too close to the boundary of rounding
}

// rvsa computes the overall quality of a variant. The feature quality is given
// in thousandths of thousandths... as a plain number.
func rvsa(r Rep, qf float64, fw bool, q Req) (k rvsaRank, ambiguous bool) {
	t, c, l := mediaQuality(r.Type, q.Accept), charsetQuality(r.Charset, q.Charset), languageQuality(r.Lang, q.Language)
	ambiguous = t.ambiguous || c.ambiguous || l.ambiguous
	k.definite = !t.wild && !c.wild && !l.wild && !fw
	x := float64(r.SQ) / 1000 * float64(t.q) / 1000 * float64(c.q) / 1000 * float64(l.q) / 1000 * qf * 1e5
	f := float64(int64(x))
	if d := x - f; d > 0.4 && d < 0.6 || x > 2.5e5 {
		k.edge = true
	}
	k.overall = float64(int64(x + 0.5))
	return k, ambiguous
}

// rvsaChoice chooses among the variants; -1 when none can be.
func rvsaChoice(reps []Rep, feats [][]Elem, q Req) (idx int, ambiguous bool, why string) {
	best := rvsaRank{overall: -1}
	idx = -1
	view := viewOf(q.Features)
	edge := false
	for i, r := range reps {
		qf, fw := 1.0, false
		if len(r.Feat) > 0 {
			if len(q.Features) == 0 {
				fw = true
			} else {
				for _, e := range feats[i] {
					qf *= float64(e.factor(view)) / 1000
				}
			}
		}
		k, amb := rvsa(r, qf, fw, q)
		ambiguous = ambiguous || amb
		edge = edge || k.edge
		if k.overall > best.overall {
			best, idx = k, i
		}
	}
	ambiguous = ambiguous || edge
	if best.overall <= 0 {
		return -1, ambiguous, "none acceptable"
	}
	if !best.definite {
		return -1, ambiguous, "speculative"
	}
	return idx, ambiguous, "chosen"
}

// ---- neighbouring variants ------------------------------------------------

// normalURL yields what identifies the resource of an absolute URL.
func normalURL(u url.URL) (scheme, host, port, path string) {
	scheme = strings.ToLower(u.Scheme)
	host = strings.ToLower(u.Hostname())
	if port = u.Port(); port == "" {
		port = "80"
		if scheme == "https" {
			port = "443"
		}
	}
	if path = u.EscapedPath(); path == "" {
		path = "/"
	}
	return
}

// dirOf lists the segments of the path up to the last slash, each as a quoted
// string that tells encoded slashes from the actual ones.
func dirOf(path string) string {
	var b strings.Builder
	for path != "" {
		i := strings.IndexByte(path, '/')
		if i < 0 {
			break
		}
		s, err := url.PathUnescape(path[:i])
		if err != nil {
			panic("harness: bad path " + path)
		}
		fmt.Fprintf(&b, "%q/", s)
		path = path[i+1:]
	}
	return b.String()
}

// neighbours tells whether both URLs are the same up to and including the last
// slash of their paths.
func neighbours(a, b url.URL) bool {
	as, ah, ap, apath := normalURL(a)
	bs, bh, bp, bpath := normalURL(b)
	return as == bs && ah == bh && ap == bp && dirOf(apath) == dirOf(bpath)
}

func describeReps(reps []Rep) string {
	var b strings.Builder
	for i, r := range reps {
		fmt.Fprintf(&b, "\n  #%d %+v", i, r)
	}
	return b.String()
}
