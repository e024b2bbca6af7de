package zzverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"pgregory.net/rapid"
)

func (c proConf) negotiator(more ...proactive.Option) proactive.Negotiator {
	var os []proactive.Option
	if c.LaxAccept && c.LaxLanguage && c.LaxCharset {
		os = append(os, proactive.DisableStrictMode())
	} else {
		if c.LaxAccept {
			os = append(os, proactive.DisableStrictAccept())
		}
		if c.LaxLanguage {
			os = append(os, proactive.DisableStrictAcceptLanguage())
		}
		if c.LaxCharset {
			os = append(os, proactive.DisableStrictAcceptCharset())
		}
	}
	if c.NoBody {
		os = append(os, proactive.DisableNotAcceptableRepresentation())
	}
	os = append(os, more...)
	if len(os) == 0 {
		return proactive.Default
	}
	return proactive.New(os...)
}

// ---- P01: the best representation -----------------------------------------

type caseP01 struct {
	Reps []Rep
	Req  Req
}

var propP01 = Prop[caseP01]{
	ID:    "P01",
	Title: "proactive selection",
	Rule:  "at least two acceptable representations competed and the outcome is unambiguous",
	Quick: 120000,
	Deep:  1200000,
	Gen: func(t *rapid.T) caseP01 {
		c := caseP01{Reps: genReps(t, 6, 32)}
		c.Req = genReq(t, c.Reps, false)
		if rapid.IntRange(0, 3).Draw(t, "lenient?") > 0 {
			c.Req = lenient(t, c.Req)
		}
		return c
	},
	Run: func(c caseP01, info *Info) error {
		v := httpd(c.Reps, c.Req)
		rs := stubs(c.Reps)
		got, err := proactive.ApacheHTTPD().Choose(c.Req.request(false), rs...)
		if err != nil {
			return fmt.Errorf("Choose: unexpected error %v", err)
		}
		if v.ambiguous {
			info.class("skipped: ambiguous")
			return nil
		}
		if v.idx < 0 {
			info.class("none acceptable")
			if got != nil {
				return fmt.Errorf("chose %v although none is acceptable", got)
			}
		} else {
			info.class("decided by %s", v.decidedBy)
			info.NonTrivial = v.remaining > 1
			if s, ok := got.(*stub); !ok || s.id != v.idx {
				return fmt.Errorf("chose %v, want #%d (decided by %s)", got, v.idx, v.decidedBy)
			}
		}
		res := negotiate(proactive.Default, c.Req.request(false), false, rs...)
		if v.idx < 0 {
			if res.err != nil || res.Status != 406 {
				return fmt.Errorf("got %v, want 406", res)
			}
			return nil
		}
		return res.wantChoice(200, c.Reps[v.idx], v.idx)
	},
}

func TestP01(t *testing.T) { run(t, propP01) }
func FuzzP01(f *testing.F) { fuzz(f, propP01) }

// ---- P02: resolving the quality of one dimension ---------------------------

type caseP02 struct {
	Dim   string
	H     Hdr
	Vals  [][]string // values of the dimension, the smaller of two comes last
	Lax   bool
	Other []string
}

func (c caseP02) rep(i int) Rep {
	r := Rep{SQ: 1000, Len: 10 - i, Loc: fmt.Sprintf("/res/v%d", i)}
	v := c.Vals[i]
	switch c.Dim {
	case "type":
		r.Type = v[0]
	case "charset":
		r.Charset = v[0]
	case "language":
		r.Lang = v[0]
	case "encoding":
		r.Enc = v
	}
	return r
}

func (c caseP02) req() (q Req) {
	q.Other = c.Other
	switch c.Dim {
	case "type":
		q.Accept = c.H
	case "charset":
		q.Charset = c.H
	case "language":
		q.Language = c.H
	case "encoding":
		q.Encoding = c.H
	}
	return q
}

func (c caseP02) quality(i int) quality {
	r := c.rep(i)
	switch c.Dim {
	case "type":
		return mediaQuality(r.Type, c.H)
	case "charset":
		return charsetQuality(r.Charset, c.H)
	case "language":
		return languageQuality(r.Lang, c.H)
	}
	return encodingQuality(r.Enc, c.H)
}

var propP02 = Prop[caseP02]{
	ID:    "P02",
	Title: "quality resolution per dimension",
	Rule:  "the header is present, and the two values differ",
	Quick: 300000,
	Deep:  1500000,
	Gen: func(t *rapid.T) caseP02 {
		c := caseP02{Dim: rapid.SampledFrom([]string{"type", "type", "charset", "language", "encoding"}).Draw(t, "dim"), Other: genBesides(t)}
		var reps []Rep
		for i := 0; i < 2; i++ {
			r := genRep(t)
			var v []string
			switch c.Dim {
			case "type":
				v = []string{r.Type}
			case "charset":
				v = []string{r.Charset}
			case "language":
				v = []string{r.Lang}
			case "encoding":
				v = r.Enc
			}
			c.Vals = append(c.Vals, v)
			reps = append(reps, r)
		}
		if rapid.IntRange(0, 19).Draw(t, "header") == 0 {
			return c
		}
		f := focusOf(reps)
		switch c.Dim {
		case "type":
			c.H = genAccept(t, true, f)
		case "charset":
			c.H = genAcceptCharset(t, true, f)
		case "language":
			c.H = genAcceptLanguage(t, true, f)
		case "encoding":
			c.H = genAcceptEncoding(t, true, f)
		}
		return c
	},
	Run: func(c caseP02, info *Info) error {
		var qs []quality
		var rs []representation.Representation
		for i := range c.Vals {
			qs = append(qs, c.quality(i))
			rs = append(rs, newStub(c.rep(i), i))
			if qs[i].ambiguous {
				info.class("skipped: ambiguous")
				return nil
			}
		}
		info.class("%s", c.Dim)
		info.NonTrivial = c.H.present() && strings.Join(c.Vals[0], ",") != strings.Join(c.Vals[1], ",")

		// each on its own is acceptable or not.
		for i, q := range qs {
			res := negotiate(proactive.Default, c.req().request(false), false, rs[i])
			if q.q == 0 {
				info.class("not acceptable")
				if res.err != nil || res.Status != 406 {
					return fmt.Errorf("value %q of quality 0 for %q: got %v, want 406", c.Vals[i], c.H.lines(), res)
				}
			} else if err := res.wantChoice(200, c.rep(i), i); err != nil {
				return fmt.Errorf("value %q of quality %d for %q: %w", c.Vals[i], q.q, c.H.lines(), err)
			}
		}
		// of both, the one with the better quality is served. Other criteria
		// only get to decide when the qualities are the same.
		if qs[0].q == qs[1].q {
			return nil
		}
		best := 0
		if qs[1].q > qs[0].q {
			best = 1
		}
		for _, order := range [][2]int{{0, 1}, {1, 0}} {
			res := negotiate(proactive.Default, c.req().request(false), false, rs[order[0]], rs[order[1]])
			if err := res.wantChoice(200, c.rep(best), best); err != nil {
				return fmt.Errorf("values %q of qualities %d and %d for %q: %w", c.Vals, qs[0].q, qs[1].q, c.H.lines(), err)
			}
		}
		return nil
	},
}

func TestP02(t *testing.T) { run(t, propP02) }
func FuzzP02(f *testing.F) { fuzz(f, propP02) }

// ---- P05: strict mode ------------------------------------------------------

type caseP05 struct {
	Conf proConf
	Reps []Rep
	Req  Req
}

var propP05 = Prop[caseP05]{
	ID:    "P05",
	Title: "strict mode",
	Rule:  "some header is not satisfied by any representation, or nothing satisfies all of them at once",
	Quick: 240000,
	Deep:  1200000,
	Gen: func(t *rapid.T) caseP05 {
		var c caseP05
		c.Conf.LaxAccept = rapid.Bool().Draw(t, "lax.accept")
		c.Conf.LaxLanguage = rapid.Bool().Draw(t, "lax.language")
		c.Conf.LaxCharset = rapid.Bool().Draw(t, "lax.charset")
		c.Conf.NoBody = rapid.Bool().Draw(t, "nobody")
		c.Conf.Creation = rapid.Bool().Draw(t, "creation")
		c.Reps = genReps(t, 4, 24)
		c.Req = genReq(t, c.Reps, false)
		return c
	},
	Run: func(c caseP05, info *Info) error {
		v := proactiveModel(c.Reps, c.Req, c.Conf)
		if v.ambiguous {
			info.class("skipped: ambiguous")
			return nil
		}
		res := negotiate(c.Conf.negotiator(), c.Req.request(false), c.Conf.Creation, stubs(c.Reps)...)
		strict := httpd(c.Reps, c.Req)
		info.NonTrivial = strict.idx < 0
		if v.idx < 0 {
			info.class("406")
			if res.err != nil || res.Status != 406 || res.calls != 1 {
				return fmt.Errorf("got %v, want 406", res)
			}
			if c.Conf.NoBody && res.Body != "" {
				return fmt.Errorf("406 has a body although that is disabled: %v", res)
			}
			return nil
		}
		if strict.idx < 0 {
			info.class("served by disregarding a header")
		} else {
			info.class("served")
		}
		want := 200
		if c.Conf.Creation {
			want = 201
		}
		return res.wantChoice(want, c.Reps[v.idx], v.idx)
	},
}

func TestP05(t *testing.T) { run(t, propP05) }
func FuzzP05(f *testing.F) { fuzz(f, propP05) }
