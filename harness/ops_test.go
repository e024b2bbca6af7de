package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"pgregory.net/rapid"
)

// ---- operations on negotiators -------------------------------------------------

// Op is one negotiation.
type Op struct {
	Kind     int // of the negotiator: proactive, non-strict proactive, reactive, transparent
	Reps     int // which set of representations
	Req      Req
	Raw      []rawField `json:",omitempty"`
	Creation bool       `json:",omitempty"`
	Limit    int        // bytes after which the connection is lost, -1 if it is not
}

const kinds = 8

var kindNames = [kinds]string{"proactive", "non-strict proactive", "reactive", "transparent", "proactive without body",
	"proactive with lists", "reactive with list", "transparent with list"}

func (o Op) request() *http.Request {
	r := caseP04{Req: o.Req, Raw: o.Raw}.request()
	if o.Req.Method != "" {
		r.Body = &content{left: 1000}
		r.ContentLength = 1000
	}
	return r
}

// content is the content of a request, which isn't for the negotiator to read.
type content struct {
	left, closed int
}

func (c *content) Read(b []byte) (n int, err error) {
	for n < len(b) && c.left > 0 {
		b[n] = 'x'
		n, c.left = n+1, c.left-1
	}
	if n == 0 {
		err = io.EOF
	}
	return n, err
}

func (c *content) Close() error {
	c.closed++
	return nil
}

func genOp(t *rapid.T, sets [][]Rep) Op {
	o := Op{Kind: rapid.IntRange(0, kinds-1).Draw(t, "op.kind"), Reps: rapid.IntRange(0, len(sets)-1).Draw(t, "op.reps"), Limit: -1}
	reps := sets[o.Reps]
	o.Req = genReq(t, reps, true)
	switch rapid.IntRange(0, 3).Draw(t, "op.req") {
	case 0:
		o.Req = lenient(t, o.Req)
	case 1:
		o.Req = sharpen(t, o.Req, reps)
	}
	o.Req.Negotiate = rapid.SampledFrom([][]string{nil, {"1.0"}, {"*"}, {"trans"}, {"guess-small"}}).Draw(t, "op.negotiate")
	if rapid.IntRange(0, 3).Draw(t, "op.features") == 0 {
		o.Req.Features = genExprs(t, 4)
	}
	if rapid.IntRange(0, 7).Draw(t, "op.raw") == 0 {
		f := rapid.SampledFrom(headerNames).Draw(t, "op.field")
		o.Raw = []rawField{{f, []byteString{genRaw(t, "text/html;q=0.5, en, *")}}}
	}
	o.Creation = rapid.IntRange(0, 3).Draw(t, "op.creation") == 0
	if rapid.IntRange(0, 11).Draw(t, "op.lost") == 0 {
		o.Limit = rapid.IntRange(0, 3).Draw(t, "op.limit")
	}
	return o
}

// vary draws an operation that resembles another.
func vary(t *rapid.T, o Op, sets [][]Rep) Op {
	var h *Hdr
	switch rapid.IntRange(0, 9).Draw(t, "vary") {
	case 0:
		o.Kind = rapid.IntRange(0, kinds-1).Draw(t, "vary.kind")
	case 1:
		o.Creation = !o.Creation
	case 2:
		o.Raw = nil
	case 3:
		o.Req.Negotiate = rapid.SampledFrom([][]string{nil, {"1.0"}, {"*"}, {"trans"}, {"guess-small"}}).Draw(t, "vary.negotiate")
	case 4:
		if len(o.Req.Features) > 0 {
			o.Req.Features = o.Req.Features[1:]
		} else {
			o.Req.Features = genExprs(t, 2)
		}
	case 5:
		h = &o.Req.Accept
	case 6:
		h = &o.Req.Charset
	case 7:
		h = &o.Req.Language
	case 8:
		h = &o.Req.Encoding
	default:
		o.Reps = rapid.IntRange(0, len(sets)-1).Draw(t, "vary.reps")
	}
	if h == nil || len(*h) == 0 {
		return o
	}
	ms := append(Hdr(nil), *h...)
	i, j := rapid.IntRange(0, len(ms)-1).Draw(t, "vary.i"), rapid.IntRange(0, len(ms)-1).Draw(t, "vary.j")
	switch rapid.IntRange(0, 4).Draw(t, "vary.how") {
	case 0:
		ms[i].Q = genQ(t)
	case 1:
		ms[i].Q, ms[j].Q = ms[j].Q, ms[i].Q
	case 2:
		ms[i], ms[j] = ms[j], ms[i]
	case 3:
		ms = append(ms[:i], ms[i+1:]...)
	default:
		ms = nil
	}
	*h = ms
	return o
}

// varySet draws a set of representations that resembles another.
func varySet(t *rapid.T, from []Rep) []Rep {
	reps := append([]Rep(nil), from...)
	if len(reps) == 0 {
		return reps
	}
	i, j := rapid.IntRange(0, len(reps)-1).Draw(t, "varySet.i"), rapid.IntRange(0, len(reps)-1).Draw(t, "varySet.j")
	r, other := &reps[i], genRep(t)
	switch rapid.IntRange(0, 9).Draw(t, "varySet") {
	case 0:
		r.Len = genLen(t)
	case 1:
		if r.Type = other.Type; r.Real {
			r.Type = "application/yaml"
		}
	case 2:
		r.Charset = other.Charset
	case 3:
		r.Lang = other.Lang
	case 4:
		r.Enc = genStack(t)
	case 5:
		r.Feat = []string{genElem(t).String()}
	case 6:
		r.SQ = genSQ(t)
	case 7:
		reps[i], reps[j] = reps[j], reps[i]
	case 8:
		r.Fail = !r.Real && !r.Fail
	default:
		reps = append(reps[:i], reps[i+1:]...)
	}
	return reps
}

func genSets(t *rapid.T) (sets [][]Rep) {
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "sets"); i < n; i++ {
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "similar") == 0 {
			sets = append(sets, varySet(t, sets[rapid.IntRange(0, i-1).Draw(t, "similar.to")]))
			continue
		}
		reps := genReps(t, 4, 12)
		if rapid.IntRange(0, 9).Draw(t, "empty") == 0 {
			reps = nil
		}
		for j := range reps {
			if rapid.IntRange(0, 3).Draw(t, "set.feat") == 0 {
				reps[j].Feat = []string{genElem(t).String()}
			}
			reps[j].Fail = rapid.IntRange(0, 29).Draw(t, "set.fail") == 0
			if rapid.IntRange(0, 5).Draw(t, "set.real") == 0 {
				reps[j].Real, reps[j].Fail = true, false
				reps[j].Type = rapid.SampledFrom([]string{"application/json", "application/JSON; v=2", "application/yaml", "text/yaml", "text/html"}).Draw(t, "set.type")
				reps[j].Enc = genStack(t)
			}
		}
		sets = append(sets, reps)
	}
	return sets
}

// genOps draws operations of which some resemble earlier ones.
func genOps(t *rapid.T, n int, sets [][]Rep) (ops []Op) {
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "vary?") == 0 {
			ops = append(ops, vary(t, ops[rapid.IntRange(0, i-1).Draw(t, "vary.of")], sets))
			continue
		}
		ops = append(ops, genOp(t, sets))
	}
	return ops
}

func freshNegotiator(kind int, scope tally.Scope) negotiating {
	switch kind {
	case 0:
		return proactive.New(proactive.Scope(scope))
	case 1:
		return proactive.New(proactive.DisableStrictMode(), proactive.Scope(scope))
	case 2:
		return reactive.New(reactive.Scope(scope))
	case 3:
		return transparent.New(transparent.Scope(scope))
	}
	switch kind {
	case 5:
		return proactive.New(proactive.Representations(customLists...), proactive.DefaultRepresentation(customLists[0]), proactive.Logger(zap.NewExample(zap.WrapCore(quiet))), proactive.Scope(scope))
	case 6:
		return reactive.New(reactive.Representation(customLists[1]), reactive.Scope(scope))
	case 7:
		return transparent.New(transparent.ListRepresentation(customLists[2]), transparent.MaximumVariantListSize(20), transparent.GuessSmallThreshold(400), transparent.Scope(scope))
	}
	return proactive.New(proactive.DisableNotAcceptableRepresentation(), proactive.Scope(scope))
}

func quiet(zapcore.Core) zapcore.Core { return zapcore.NewNopCore() }

// customList constructs lists of the media type.
func customList(ct, lang string, encs ...string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		l := new(representation.List)
		l.SetContentType(ct)
		l.SetContentCharset("utf-8")
		l.SetContentLanguage(lang)
		l.SetContentEncoding(encs)
		l.SetSourceQuality(1)
		l.SetRepresentations(reps...)
		return l
	}
}

// customLists are used by all negotiators that have lists of their own.
var customLists = append(make([]representation.ListConstructor, 0, 8),
	customList("application/xml", "en"),
	customList("text/html; charset=utf-8", "de", "identity"),
	customList("text/yaml", "en", roomy([]string{"identity", "deflate"})...),
	customList("application/json", ""),
	customList("text/html;level=2", "fr"))

func sharedNegotiators() (ns [kinds]negotiating) {
	for k := range ns {
		ns[k] = freshNegotiator(k, tally.NoopScope)
	}
	ns[0], ns[2], ns[3] = proactive.Default, reactive.Default, transparent.Default
	return ns
}

func (o Op) do(n negotiating, r *http.Request, rs []representation.Representation) response {
	rec := newRecorder()
	rec.limit = o.Limit
	return negotiateTo(rec, n, r, o.Creation, rs...)
}

// ---- P17: metrics ---------------------------------------------------------------

type caseP17 struct {
	Sets [][]Rep
	Ops  []Op
}

// counts yields the counters and the number of times timers were recorded.
func counts(s tally.TestScope) map[string]int64 {
	m := map[string]int64{}
	snap := s.Snapshot()
	for _, c := range snap.Counters() {
		m[c.Name()+" "+c.Tags()["negotiator"]] += c.Value()
	}
	for _, t := range snap.Timers() {
		m["timer:"+t.Name()+" "+t.Tags()["negotiator"]] += int64(len(t.Values()))
	}
	return m
}

var propP17 = Prop[caseP17]{
	ID:    "P17",
	Title: "metrics",
	Rule:  "at least two negotiations, with different outcomes",
	Quick: 40000,
	Deep:  240000,
	Gen: func(t *rapid.T) caseP17 {
		c := caseP17{Sets: genSets(t)}
		c.Ops = genOps(t, count(t, "ops", 1, 5, 25), c.Sets)
		return c
	},
	Run: func(c caseP17, info *Info) error {
		scope := tally.NewTestScope("app", nil)
		var ns [kinds]negotiating
		for k := range ns {
			ns[k] = freshNegotiator(k, scope)
		}
		want := counts(scope)
		outcomes := map[string]bool{}
		for i, o := range c.Ops {
			res := o.do(ns[o.Kind], o.request(), stubs(c.Sets[o.Reps]))
			tag := strings.Fields(strings.TrimPrefix(kindNames[o.Kind], "non-strict "))[0]
			outcome := ""
			switch {
			case res.err != nil:
				outcome = "error"
			case tag == "transparent":
				// successful outcomes are not counted.
			case res.Status == 204:
				outcome = "no_content"
			case res.Status == 300:
				outcome = "multiple_choices"
			case res.Status == 406:
				outcome = "not_acceptable"
			default:
				outcome = "acceptable"
			}
			outcomes[tag+outcome] = true
			info.class("%s %s", tag, outcome)
			if outcome != "" {
				want["app.negotiate."+outcome+" "+tag]++
			}
			want["timer:app.negotiate "+tag]++
			got := counts(scope)
			for k := range got {
				if _, ok := want[k]; !ok && got[k] != 0 {
					return fmt.Errorf("negotiation %d (%s, %v): unexpected metric %s = %d", i, tag, res, k, got[k])
				}
			}
			for k, w := range want {
				if got[k] != w {
					return fmt.Errorf("negotiation %d (%s, %v): metric %s is %d, want %d", i, tag, res, k, got[k], w)
				}
			}
		}
		info.NonTrivial = len(outcomes) > 1
		return nil
	},
}

func TestP17(t *testing.T) { run(t, propP17) }
func FuzzP17(f *testing.F) { fuzz(f, propP17) }

// ---- P18: independence of history ---------------------------------------------------

type caseP18 struct {
	Sets [][]Rep
	Ops  []Op
	Reqs []int // operations that use the request of an earlier one

	Fresh bool `json:",omitempty"` // compared to what happens in a process of its own
}

// text is everything that can be observed of a response.
func (r response) text() string {
	return fmt.Sprintf("status=%d (written %d times) err=%q header=%q body=%q", r.Status, r.calls, r.Err, r.Header, r.Body)
}

// history negotiates, beginning with the last operation.
func (c caseP18) history() (texts []string) {
	ns := sharedNegotiators()
	var sets [][]representation.Representation
	for _, s := range c.Sets {
		sets = append(sets, stubs(s))
	}
	texts = make([]string, len(c.Ops))
	for i := len(c.Ops) - 1; i >= 0; i-- {
		o := c.Ops[i]
		err := safely(func() error {
			texts[i] = o.do(ns[o.Kind], o.request(), append([]representation.Representation(nil), sets[o.Reps]...)).text()
			return nil
		})
		if err != nil {
			texts[i] = firstLine(err.Error())
		}
	}
	return texts
}

// TestHistory is the part of P18 that runs in a process of its own: it reads a
// case and writes what the operations yield.
func TestHistory(t *testing.T) {
	if !*historyFlag {
		t.Skip()
	}
	var c caseP18
	err := json.NewDecoder(os.Stdin).Decode(&c)
	if err == nil {
		err = json.NewEncoder(os.Stdout).Encode(c.history())
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

// elsewhere has another process negotiate.
func (c caseP18) elsewhere() (texts []string) {
	in, err := json.Marshal(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestHistory$", "-verif.history")
	cmd.Stdin = bytes.NewReader(in)
	var log bytes.Buffer
	cmd.Stderr = &log
	out, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(out, &texts)
	}
	if err != nil || len(texts) != len(c.Ops) {
		fmt.Printf("HARNESS-ERROR: process of its own: %v\n%s", err, headOf(log.String(), 2000))
		os.Exit(2)
	}
	return texts
}

// snapshot is what a negotiation must not alter: the request and the
// representations, including what lies next to them.
func snapshot(r *http.Request, rs []representation.Representation) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s %d %v %v %v", r.Method, r.URL, r.Host, r.ContentLength, r.Form, r.Body, len(r.Header))
	for _, k := range headerNames {
		fmt.Fprintf(&b, "\n%s: %q", k, r.Header[k][:cap(r.Header[k])])
	}
	for _, x := range rs[:cap(rs)] {
		if x == nil {
			b.WriteString("\nnil")
			continue
		}
		u, enc, feat := x.ContentLocation(), x.ContentEncoding(), x.ContentFeatures()
		fmt.Fprintf(&b, "\n%T %q %q %q %q %q %v %s", x, x.ContentType(), x.ContentCharset(), x.ContentLanguage(),
			enc[:cap(enc)], feat[:cap(feat)], x.SourceQuality(), u.String())
		if s, ok := x.(*stub); ok {
			fmt.Fprintf(&b, " %d %+v", s.id, s.Rep)
		}
	}
	return b.String()
}

// reserved is a representation that isn't offered.
var reserved = newStub(Rep{Type: "text/reserved", SQ: 1000}, 999)

// offered copies the representations to an array that goes on after them.
func offered(rs []representation.Representation) []representation.Representation {
	return append(append([]representation.Representation(nil), rs...), reserved, reserved)[:len(rs)]
}

var propP18 = Prop[caseP18]{
	ID:    "P18",
	Title: "independence of history",
	Rule:  "at least two negotiations",
	Quick: 16000,
	Deep:  200000,
	Gen: func(t *rapid.T) caseP18 {
		c := caseP18{Sets: genSets(t)}
		c.Ops = genOps(t, count(t, "ops", 1, 8, 60), c.Sets)
		c.Fresh = rapid.IntRange(0, 3).Draw(t, "fresh") == 0
		// long histories repeat negotiations.
		if rapid.IntRange(0, 29).Draw(t, "long") == 0 {
			for i, n := 0, rapid.IntRange(10, 300).Draw(t, "repeats"); i < n; i++ {
				c.Reqs = append(c.Reqs, rapid.IntRange(0, len(c.Ops)-1).Draw(t, "repeat"))
			}
		}
		return c
	},
	Run: func(c caseP18, info *Info) error {
		ns := sharedNegotiators()
		var sets [][]representation.Representation
		for _, s := range c.Sets {
			sets = append(sets, stubs(s))
		}
		reqs := make([]*http.Request, len(c.Ops))
		alone := make([]response, len(c.Ops))
		for i, o := range c.Ops {
			reqs[i] = o.request()
			alone[i] = o.do(freshNegotiator(o.Kind, tally.NoopScope), o.request(), stubs(c.Sets[o.Reps]))
		}
		info.NonTrivial = len(c.Ops)+len(c.Reqs) > 1
		if len(c.Reqs) > 0 {
			info.class("long history")
		}
		step := func(at int, i int) error {
			o := c.Ops[i]
			rs := offered(sets[o.Reps])
			before := snapshot(reqs[i], rs)
			res := o.do(ns[o.Kind], reqs[i], rs)
			if after := snapshot(reqs[i], rs); after != before {
				return fmt.Errorf("negotiation %d (%s) modified its input:\n%s\nwas\n%s", at, kindNames[o.Kind], after, before)
			}
			if !res.equal(alone[i]) {
				return fmt.Errorf("negotiation %d (%s) yields\n  %v\nbut on its own\n  %v", at, kindNames[o.Kind], res, alone[i])
			}
			return nil
		}
		for i := range c.Ops {
			if err := step(i, i); err != nil {
				return err
			}
			info.class("status %d", alone[i].Status)
		}
		for j, i := range c.Reqs {
			if err := step(len(c.Ops)+j, i); err != nil {
				return err
			}
		}
		if c.Fresh {
			info.class("in a process of its own")
			for i, text := range c.elsewhere() {
				if here := alone[i].text(); text != here {
					return fmt.Errorf("negotiation %d (%s) yields\n  %.3000s\nbut in a new process, where the last operation is the first,\n  %.3000s", i, kindNames[c.Ops[i].Kind], here, text)
				}
			}
		}
		return nil
	},
}

func TestP18(t *testing.T) { run(t, propP18) }
func FuzzP18(f *testing.F) { fuzz(f, propP18) }

// ---- P19: concurrency ------------------------------------------------------------------

type caseP19 struct {
	Sets     [][]Rep
	Ops      []Op
	Shared   []bool // requests that all goroutines share
	Spread   int    // number of goroutines per operation
	Lists    []Rep  // serialized concurrently, by way of one list
	ListType string
	ListEnc  []string
	Own      bool // every goroutine has a negotiator of its own at times
	Cold     bool // in a new process, in which nothing else happened before
}

var propP19 = Prop[caseP19]{
	ID:      "P19",
	Title:   "concurrent negotiations",
	Rule:    "at least two goroutines negotiate with the same negotiator or representations",
	Quick:   2500,
	Deep:    25000,
	Persist: true,
	Gen: func(t *rapid.T) caseP19 {
		c := caseP19{Sets: genSets(t), Spread: rapid.IntRange(1, 4).Draw(t, "spread")}
		c.Ops = genOps(t, rapid.IntRange(1, 8).Draw(t, "ops"), c.Sets)
		for range c.Ops {
			c.Shared = append(c.Shared, rapid.Bool().Draw(t, "shared"))
		}
		c.Lists = genReps(t, 3, 6)
		c.ListType = rapid.SampledFrom([]string{"application/json", "application/json", "application/xml", "application/yaml", "text/html; charset=utf-8"}).Draw(t, "list.type")
		c.ListEnc = rapid.SampledFrom([][]string{{"deflate", "gzip"}, {"compress"}, {"x-gzip", "identity"}, {"gzip", "X-Compress", "deflate"}, nil}).Draw(t, "list.enc")
		c.Own = rapid.IntRange(0, 3).Draw(t, "own") == 0
		c.Cold = rapid.IntRange(0, 7).Draw(t, "cold") == 0
		return c
	},
	Run: func(c caseP19, info *Info) error {
		info.NonTrivial = len(c.Ops)*c.Spread > 1
		info.class("%d goroutines", len(c.Ops)*c.Spread)
		if c.Cold {
			info.class("in a process of its own")
			return c.elsewhere()
		}
		scope := tally.NewTestScope("", nil)
		var ns [kinds]negotiating
		for k := range ns {
			ns[k] = freshNegotiator(k, scope)
		}
		ns[3] = transparent.Default
		var sets [][]representation.Representation
		for _, s := range c.Sets {
			sets = append(sets, offered(stubs(s)))
		}
		emptyList := func() *representation.List {
			l := new(representation.List)
			l.SetContentType(c.ListType)
			l.SetContentEncoding(c.ListEnc)
			return l
		}
		list := emptyList()
		list.SetRepresentations(stubs(c.Lists)...)
		// what happens on its own comes afterwards, as it must not pave the way.
		type done struct {
			op   int
			res  response
			list string
			read []representation.Metadata
			err  error
		}
		var (
			wg    sync.WaitGroup
			all   = make(chan done, (len(c.Ops)+1)*c.Spread)
			start = make(chan struct{})
		)
		for i, o := range c.Ops {
			shared := o.request()
			for k := 0; k < c.Spread; k++ {
				r := shared
				if !c.Shared[i] {
					r = o.request()
				}
				wg.Add(1)
				go func(i int, o Op, own bool) {
					defer wg.Done()
					d := done{op: i}
					<-start
					d.err = safely(func() error {
						n := ns[o.Kind]
						if own {
							n = freshNegotiator(o.Kind, scope)
						}
						d.res = o.do(n, r, sets[o.Reps])
						return nil
					})
					all <- d
				}(i, o, c.Own && k%2 == 1)
			}
		}
		for k := 0; k < c.Spread; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := done{op: -1}
				<-start
				d.err = safely(func() error {
					b, err := list.Bytes()
					if err != nil {
						return err
					}
					l := emptyList()
					if err = l.FromBytes(b); err != nil {
						return fmt.Errorf("cannot read the list: %w", err)
					}
					d.list, d.read = string(b), l.Representations
					return nil
				})
				all <- d
			}()
		}
		close(start)
		wg.Wait()
		close(all)
		wantList, err := list.Bytes()
		if err != nil {
			return err
		}
		alone := make([]response, len(c.Ops))
		for i, o := range c.Ops {
			alone[i] = o.do(freshNegotiator(o.Kind, tally.NoopScope), o.request(), stubs(c.Sets[o.Reps]))
		}
		for d := range all {
			switch {
			case d.err != nil:
				return d.err
			case d.op >= 0 && !d.res.equal(alone[d.op]):
				return fmt.Errorf("negotiation %d (%s) yields\n  %v\nbut on its own\n  %v", d.op, kindNames[c.Ops[d.op].Kind], d.res, alone[d.op])
			case d.op < 0 && d.list != string(wantList):
				return errors.New("the list yields other bytes")
			case d.op < 0 && fmt.Sprint(d.read) != fmt.Sprint(list.Representations):
				return fmt.Errorf("the list reads as %v", d.read)
			}
		}
		return nil
	},
}

// elsewhere has another process run the case.
func (c caseP19) elsewhere() error {
	c.Cold = false
	dir, err := os.MkdirTemp("", "verif-P19-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "case.json")
	writeJSON(path, Prop[caseP19]{ID: "P19"}.fail(c, ""))
	ctx, cancel := context.WithTimeout(context.Background(), hangAfter)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestP19$", "-verif.replay", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	out, err := cmd.CombinedOutput()
	var exit *exec.ExitError
	switch {
	case err == nil:
		return nil
	case ctx.Err() != nil:
		return fmt.Errorf("in a new process: did not return within %v", hangAfter)
	case errors.As(err, &exit):
		text, _, _ := strings.Cut(string(out), "VIOLATION ")
		return fmt.Errorf("in a new process: %v\n%s", err, headOf(text, 4000))
	}
	fmt.Printf("HARNESS-ERROR: process of its own: %v\n%s", err, headOf(string(out), 2000))
	os.Exit(2)
	return nil
}

func TestP19(t *testing.T) { run(t, propP19) }
func FuzzP19(f *testing.F) { fuzz(f, propP19) }

// ---- P20: configuration ------------------------------------------------------------------

// Opt is an option of a negotiator.
type Opt struct {
	Name string
	Val  int
}

type caseP20 struct {
	Kind    string
	Options []Opt
	Other   []Opt // of another negotiator, constructed afterwards
	Reps    []Rep
	Req     Req
}

// spy is a chooser that keeps what it is asked, and picks by index.
type spy struct {
	pick int // -1 none, -2 failure
	id   int
	log  *[]asked
}

type asked struct {
	id  int
	req *http.Request
	ids []int
}

func (s spy) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	a := asked{id: s.id, req: r}
	for _, x := range reps {
		if st, ok := x.(*stub); ok {
			a.ids = append(a.ids, st.id)
		}
	}
	*s.log = append(*s.log, a)
	switch {
	case s.pick == -2:
		return nil, errChoose
	case s.pick < 0 || len(reps) == 0:
		return nil, nil
	}
	return reps[s.pick%len(reps)], nil
}

var optNames = map[string][]string{
	"proactive":   {"accept", "language", "charset", "strict", "chooser", "nobody", "default", "lists", "logger", "scope"},
	"reactive":    {"list", "logger", "scope"},
	"transparent": {"max", "chooser", "list", "small", "logger", "scope"},
}

// listVal describes the list representation an option stands for.
func listVal(v int) Rep {
	return Rep{Type: fmt.Sprintf("text/x-list%d", v), Charset: "utf-8", Lang: "en", SQ: 1000, Len: 20 + v}
}

func listOf(v int) representation.ListConstructor {
	return func(...representation.Representation) representation.Representation {
		return newStub(listVal(v), 100+v)
	}
}

// logs counts the messages that report a response.
type logs struct {
	zapcore.LevelEnabler
	statuses *[]int64
}

func (l logs) With([]zapcore.Field) zapcore.Core { return l }
func (l logs) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, l)
}
func (l logs) Sync() error { return nil }
func (l logs) Write(e zapcore.Entry, fields []zapcore.Field) error {
	for _, f := range fields {
		if f.Key == "status" {
			*l.statuses = append(*l.statuses, f.Integer)
		}
	}
	return nil
}

// sameRequest tells whether a chooser is given the request, or a copy of it.
func sameRequest(a, b *http.Request) bool {
	return a == b || a != nil && a.Method == b.Method && a.URL.String() == b.URL.String() && a.Host == b.Host && reflect.DeepEqual(a.Header, b.Header)
}

// config is what options add up to; the last one of a kind counts.
type config struct {
	pro      proConf
	chooser  *spy
	fallback int // default list, 0 if the default
	lists    int // number of custom lists, 0 if the default
	list     int
	max      *int
	small    int
	log      []asked
	statuses []int64
	logged   bool
	metrics  tally.TestScope
	first    int // identifies the first of them
	passed   []passed
}

// passed is what was given to an option.
type passed struct {
	first int
	lists []representation.ListConstructor
}

func (c *config) build(kind string, opts []Opt) negotiating {
	c.small = 50
	var (
		po []proactive.Option
		ro []reactive.Option
		to []transparent.Option
	)
	for i, o := range opts {
		switch o.Name {
		case "accept":
			c.pro.LaxAccept = true
			po = append(po, proactive.DisableStrictAccept())
		case "language":
			c.pro.LaxLanguage = true
			po = append(po, proactive.DisableStrictAcceptLanguage())
		case "charset":
			c.pro.LaxCharset = true
			po = append(po, proactive.DisableStrictAcceptCharset())
		case "strict":
			c.pro.LaxAccept, c.pro.LaxLanguage, c.pro.LaxCharset = true, true, true
			po = append(po, proactive.DisableStrictMode())
		case "nobody":
			c.pro.NoBody = true
			po = append(po, proactive.DisableNotAcceptableRepresentation())
		case "chooser":
			c.chooser = &spy{pick: o.Val%8 - 2, id: i, log: &c.log}
			po = append(po, proactive.Algorithm(*c.chooser))
			to = append(to, transparent.RVSA(*c.chooser))
		case "default":
			c.fallback = o.Val%50 + 1
			po = append(po, proactive.DefaultRepresentation(listOf(c.fallback)))
		case "lists":
			c.lists, c.first = o.Val%6+1, 200+10*i
			var cs []representation.ListConstructor
			for j := 0; j < c.lists; j++ {
				cs = append(cs, listOf(c.first+j))
			}
			po = append(po, proactive.Representations(cs...))
			c.passed = append(c.passed, passed{c.first, cs})
		case "list":
			c.list = o.Val%50 + 1
			ro = append(ro, reactive.Representation(listOf(c.list)))
			to = append(to, transparent.ListRepresentation(listOf(c.list)))
		case "max":
			m := o.Val%16 - 2
			c.max = &m
			to = append(to, transparent.MaximumVariantListSize(m))
		case "small":
			c.small = o.Val
			to = append(to, transparent.GuessSmallThreshold(o.Val))
		case "logger":
			c.statuses, c.logged = nil, true
			l := zap.New(logs{zapcore.DebugLevel, &c.statuses})
			po = append(po, proactive.Logger(l))
			ro = append(ro, reactive.Logger(l))
			to = append(to, transparent.Logger(l))
		case "scope":
			c.metrics = tally.NewTestScope("", nil)
			po = append(po, proactive.Scope(c.metrics))
			ro = append(ro, reactive.Scope(c.metrics))
			to = append(to, transparent.Scope(c.metrics))
		}
	}
	switch kind {
	case "proactive":
		return proactive.New(po...)
	case "reactive":
		return reactive.New(ro...)
	}
	return transparent.New(to...)
}

func genOpts(t *rapid.T, kind string) (os []Opt) {
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "options"); i < n; i++ {
		os = append(os, Opt{rapid.SampledFrom(optNames[kind]).Draw(t, "option"), rapid.IntRange(0, 400).Draw(t, "value")})
	}
	return os
}

var propP20 = Prop[caseP20]{
	ID:    "P20",
	Title: "configuration",
	Rule:  "at least one option is set",
	Quick: 60000,
	Deep:  1200000,
	Gen: func(t *rapid.T) caseP20 {
		c := caseP20{Kind: rapid.SampledFrom([]string{"proactive", "proactive", "reactive", "transparent", "transparent"}).Draw(t, "kind")}
		c.Options, c.Other = genOpts(t, c.Kind), genOpts(t, c.Kind)
		c.Reps = genReps(t, 4, 20)
		c.Req = genReq(t, c.Reps, true)
		if rapid.Bool().Draw(t, "lenient") {
			c.Req = lenient(t, c.Req)
		}
		c.Req.Negotiate = rapid.SampledFrom([][]string{nil, {"1.0"}, {"*"}, {"trans"}, {"guess-small"}, {"trans", "guess-small"}}).Draw(t, "negotiate")
		return c
	},
	Run: func(c caseP20, info *Info) error {
		info.NonTrivial = len(c.Options) > 0
		info.class("%s", c.Kind)
		var conf, other config
		n := conf.build(c.Kind, c.Options)
		o := other.build(c.Kind, c.Other) // must not matter
		rs := stubs(c.Reps)
		r := c.Req.request(true)
		res := negotiate(n, r, false, rs...)
		if len(other.log) > 0 || len(other.statuses) > 0 {
			return fmt.Errorf("another negotiator was involved")
		}
		if err := conf.check(c, r, rs, res, info); err != nil {
			return fmt.Errorf("%s with %v: %w", c.Kind, c.Options, err)
		}
		logged := len(conf.statuses)
		r = c.Req.request(true)
		if err := other.check(c, r, rs, negotiate(o, r, false, rs...), nil); err != nil {
			return fmt.Errorf("%s with %v: %w", c.Kind, c.Other, err)
		}
		if len(conf.statuses) != logged {
			return fmt.Errorf("another negotiator was involved")
		}
		// what is offered by default isn't affected.
		var def config
		def.small = 50
		var d negotiating = transparent.Default
		switch c.Kind {
		case "proactive":
			d = proactive.Default
		case "reactive":
			d = reactive.Default
		}
		r = c.Req.request(true)
		if err := def.check(c, r, rs, negotiate(d, r, false, rs...), nil); err != nil {
			return fmt.Errorf("the default %s negotiator: %w", c.Kind, err)
		}
		return nil
	},
}

// check checks that the outcome is what the configuration asks for.
func (c *config) check(k caseP20, r *http.Request, rs []representation.Representation, res response, info *Info) error {
	if c.logged {
		ok := res.err != nil == (len(c.statuses) == 0)
		for _, s := range c.statuses {
			ok = ok && int(s) == res.Status
		}
		if !ok {
			return fmt.Errorf("statuses %v were logged for %v", c.statuses, res)
		}
	}
	if c.metrics != nil {
		total := int64(0)
		for key, v := range counts(c.metrics) {
			if strings.HasPrefix(key, "timer:") {
				total += v
			}
		}
		if total != 1 {
			return fmt.Errorf("%d negotiations were timed", total)
		}
	}
	for _, p := range c.passed {
		for j, f := range p.lists {
			if s, ok := f(rs...).(*stub); !ok || s.id != 100+p.first+j {
				return fmt.Errorf("constructor %d of %d, which was provided as an option, was replaced", j, len(p.lists))
			}
		}
	}
	all := make([]int, len(rs))
	for i := range all {
		all[i] = origin(k.Reps, i)
	}
	// consulted tells what the custom chooser decided on.
	consulted := func(at int, ids []int) (int, error) {
		if len(c.log) <= at {
			return 0, errors.New("the chooser was not consulted")
		}
		a := c.log[at]
		if a.id != c.chooser.id || !sameRequest(a.req, r) || fmt.Sprint(a.ids) != fmt.Sprint(ids) {
			return 0, fmt.Errorf("chooser %d got %v, want chooser %d and %v", a.id, a.ids, c.chooser.id, ids)
		}
		if c.chooser.pick < 0 {
			return c.chooser.pick, nil
		}
		return c.chooser.pick % len(ids), nil
	}
	failed := func() error {
		info.class("choosing failed")
		if !errors.Is(res.err, errChoose) || !res.untouched() {
			return fmt.Errorf("got %v, want error %v", res, errChoose)
		}
		return nil
	}
	listed := func(status int) error {
		if c.list > 0 {
			info.class("custom list")
			return res.wantChoice(status, listVal(c.list), 100+c.list)
		}
		return res.checkList(status, "application/json", rs)
	}
	switch k.Kind {
	case "reactive":
		return listed(300)
	case "transparent":
		if len(rs) > limit(c.max) {
			info.class("too many")
			if !errors.Is(res.err, transparent.ErrVariantListSizeExceeded) || !res.untouched() {
				return fmt.Errorf("got %v, want error %v", res, transparent.ErrVariantListSizeExceeded)
			}
			return nil
		}
		if len(k.Req.Negotiate) == 0 || fmt.Sprint(k.Req.Negotiate) == "[trans]" {
			return listed(300)
		}
		var at int
		if c.chooser != nil {
			var err error
			if at, err = consulted(0, all); err != nil {
				return err
			}
		} else {
			var ambiguous bool
			if at, ambiguous, _ = rvsaChoice(k.Reps, make([][]Elem, len(rs)), k.Req); ambiguous {
				info.class("skipped: ambiguous")
				return nil
			}
		}
		if at == -2 {
			return failed()
		}
		if at == -1 {
			return listed(300)
		}
		if strings.Contains(fmt.Sprint(k.Req.Negotiate), "guess-small") {
			size := 0
			if c.list > 0 {
				size = len(bodyOf(100+c.list, listVal(c.list).Len))
			} else {
				size = listRep("application/json", rs).Len
			}
			if len(bodyOf(origin(k.Reps, at), k.Reps[at].Len)) > size+c.small {
				info.class("not small")
				return listed(300)
			}
		}
		info.class("choice")
		return res.wantChoice(200, k.Reps[at], origin(k.Reps, at))
	}
	// proactive.
	if c.chooser == nil {
		v := proactiveModel(k.Reps, k.Req, c.pro)
		if v.ambiguous {
			info.class("skipped: ambiguous")
			return nil
		}
		if v.idx >= 0 {
			info.class("acceptable")
			return res.wantChoice(200, k.Reps[v.idx], v.idx)
		}
		if c.pro.NoBody {
			return c.bare(res, info)
		}
		if c.lists > 0 {
			var ls []Rep
			for j := 0; j < c.lists; j++ {
				ls = append(ls, listVal(c.first+j))
			}
			if v := httpd(ls, k.Req); v.ambiguous {
				return nil
			} else if v.idx >= 0 {
				info.class("custom list")
				return res.wantChoice(406, ls[v.idx], 100+c.first+v.idx)
			}
		} else {
			var ls []Rep
			for _, ct := range listTypes {
				ls = append(ls, listRep(ct, rs))
			}
			if v := httpd(ls, k.Req); v.ambiguous {
				return nil
			} else if v.idx >= 0 {
				return res.checkList(406, ls[v.idx].Type, rs)
			}
		}
		return c.default406(res, rs, info)
	}
	// with a custom chooser, strict mode comes first.
	for _, x := range k.Reps {
		if mediaQuality(x.Type, k.Req.Accept).ambiguous {
			info.class("skipped: ambiguous")
			return nil
		}
	}
	strict := proactiveStrict(k.Reps, k.Req, c.pro)
	next := 0
	if !strict {
		at, err := consulted(0, all)
		if err != nil {
			return err
		}
		next = 1
		if at == -2 {
			return failed()
		}
		if at >= 0 {
			info.class("chosen")
			return res.wantChoice(200, k.Reps[at], origin(k.Reps, at))
		}
		// it may be asked again, disregarding headers that nothing matches.
		for next < len(c.log) && c.log[next].id == c.chooser.id && fmt.Sprint(c.log[next].ids) == fmt.Sprint(all) {
			next++
		}
	}
	info.class("custom chooser: 406")
	if c.pro.NoBody {
		return c.bare(res, info)
	}
	ids, n := []int(nil), len(listTypes)
	if c.lists > 0 {
		n = c.lists
		for j := 0; j < n; j++ {
			ids = append(ids, 100+c.first+j)
		}
	}
	if len(c.log) <= next {
		return errors.New("the chooser was not consulted for the 406 representation")
	}
	a := c.log[next]
	if a.id != c.chooser.id || !sameRequest(a.req, r) || fmt.Sprint(a.ids) != fmt.Sprint(ids) {
		return fmt.Errorf("chooser %d got lists %v, want chooser %d and %v", a.id, a.ids, c.chooser.id, ids)
	}
	switch {
	case c.chooser.pick == -2:
		return failed()
	case c.chooser.pick == -1:
		return c.default406(res, rs, info)
	case c.lists > 0:
		return res.wantChoice(406, listVal(c.first+c.chooser.pick%n), 100+c.first+c.chooser.pick%n)
	}
	return res.checkList(406, listTypes[c.chooser.pick%n], rs)
}

func (c *config) bare(res response, info *Info) error {
	info.class("406 without a body")
	if res.err != nil || res.Status != 406 || res.Body != "" || res.calls != 1 {
		return fmt.Errorf("got %v, want 406 without a body", res)
	}
	return nil
}

func (c *config) default406(res response, rs []representation.Representation, info *Info) error {
	info.class("406 with the default list")
	if c.fallback > 0 {
		return res.wantChoice(406, listVal(c.fallback), 100+c.fallback)
	}
	return res.checkList(406, "application/json", rs)
}

// proactiveStrict tells whether strict mode rules out all of the representations.
func proactiveStrict(reps []Rep, q Req, c proConf) bool {
	all := func(quality func(r Rep) quality) bool {
		for _, r := range reps {
			if quality(r).q > 0 {
				return false
			}
		}
		return true
	}
	return !c.LaxAccept && all(func(r Rep) quality { return mediaQuality(r.Type, q.Accept) }) ||
		!c.LaxLanguage && all(func(r Rep) quality { return languageQuality(r.Lang, q.Language) }) ||
		!c.LaxCharset && all(func(r Rep) quality { return charsetQuality(r.Charset, q.Charset) })
}

func TestP20(t *testing.T) { run(t, propP20) }
func FuzzP20(f *testing.F) { fuzz(f, propP20) }
