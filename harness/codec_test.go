package zzverif

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// ---- reference codecs, on top of the libraries the standard comes with ----------

func marshalRef(ct string, v any) ([]byte, error) {
	switch ct {
	case "application/json":
		return json.Marshal(v)
	case "application/xml", "text/html":
		return xml.Marshal(v)
	case "application/yaml", "text/yaml":
		return yaml.Marshal(v)
	}
	return nil, representation.ErrUnsupportedContentType
}

func unmarshalRef(ct string, b []byte, v any) error {
	switch ct {
	case "application/json":
		return json.Unmarshal(b, v)
	case "application/xml", "text/html":
		return xml.Unmarshal(b, v)
	case "application/yaml", "text/yaml":
		return yaml.Unmarshal(b, v)
	}
	return representation.ErrUnsupportedContentType
}

func codingOf(e string) string {
	switch e = strings.ToLower(e); e {
	case "x-gzip":
		return "gzip"
	case "x-compress":
		return "compress"
	}
	return e
}

// decodeRef undoes the codings, the last one first.
func decodeRef(encs []string, b []byte) ([]byte, error) {
	for i := len(encs) - 1; i >= 0; i-- {
		var (
			r   io.Reader
			err error
		)
		switch codingOf(encs[i]) {
		case "identity":
			continue
		case "gzip":
			r, err = gzip.NewReader(bytes.NewReader(b))
		case "compress":
			r, err = zlib.NewReader(bytes.NewReader(b))
		case "deflate":
			r = flate.NewReader(bytes.NewReader(b))
		default:
			err = representation.ErrUnsupportedContentEncoding
		}
		if err != nil {
			return nil, err
		}
		if b, err = io.ReadAll(r); err != nil {
			return nil, err
		}
	}
	return b, nil
}

// encodeRef applies the codings in order, in a way of its own: other levels, and
// flushing in between.
func encodeRef(encs []string, b []byte, level, chunk int) []byte {
	for _, e := range encs {
		var buf bytes.Buffer
		var w interface {
			io.WriteCloser
			Flush() error
		}
		switch codingOf(e) {
		case "identity":
			continue
		case "gzip":
			w, _ = gzip.NewWriterLevel(&buf, level)
		case "compress":
			w, _ = zlib.NewWriterLevel(&buf, level)
		case "deflate":
			w, _ = flate.NewWriter(&buf, level)
		}
		for len(b) > 0 {
			n := chunk
			if n > len(b) || n <= 0 {
				n = len(b)
			}
			_, _ = w.Write(b[:n])
			_ = w.Flush()
			b = b[n:]
		}
		_ = w.Close()
		b = buf.Bytes()
	}
	return b
}

// doc is what gets serialized.
type doc struct {
	Name  string
	N     int64
	F     float64
	Tags  []string
	Items []item
	Blob  string
}

type item struct {
	ID   int
	Note string
}

// Content describes a document.
type Content struct {
	Name  string
	N     int64
	Tags  []string `json:",omitempty"`
	Items int      // number of items
	Blob  int      // length of the blob
	Noise bool     // the blob hardly compresses
}

func (c Content) doc() doc {
	d := doc{Name: c.Name, N: c.N, F: float64(c.N%1000) / 8, Tags: append([]string(nil), c.Tags...)}
	for i := 0; i < c.Items; i++ {
		d.Items = append(d.Items, item{i, fmt.Sprintf("note %d: %s", i, c.Name)})
	}
	var b strings.Builder
	x := uint64(c.N)*2862933555777941757 + 3037000493
	for b.Len() < c.Blob {
		if c.Noise {
			x = x*6364136223846793005 + 1442695040888963407
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"[x>>58])
		} else {
			b.WriteString("blob ")
		}
	}
	d.Blob = b.String()
	return d
}

var wordPool = []string{"", "a", "text", "<b>&amp;</b>", "quo\"te's", "naïve", "日本語", "a: b", "- x", "null", "true", "1", "line\nbreak", " padded ", "]]>", "{}", "\\", "🙂", "#", "é\u0301", "tab\t"}

func genContent(t *rapid.T) Content {
	word := rapid.SampledFrom(wordPool)
	c := Content{Name: word.Draw(t, "name"), N: rapid.Int64Range(-1<<53, 1<<53).Draw(t, "n")}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "tags"); i < n; i++ {
		c.Tags = append(c.Tags, word.Draw(t, "tag"))
	}
	c.Items = count(t, "items", 0, 4, 300)
	if rapid.IntRange(0, 5).Draw(t, "blob?") == 0 {
		c.Blob = rapid.SampledFrom([]int{1, 100, 4095, 32768, 40000, 65535, 70000, 300000}).Draw(t, "blob")
		if rapid.IntRange(0, 19).Draw(t, "blob.huge") == 0 {
			c.Blob = rapid.IntRange(1<<20, 1<<21+1).Draw(t, "blob")
		}
		c.Noise = rapid.Bool().Draw(t, "noise")
	}
	return c
}

var (
	bodyTypes = []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}
	bodyEncs  = []string{"gzip", "x-gzip", "deflate", "compress", "x-compress", "identity", "GZIP", "Deflate", "IDENTITY", "X-Compress"}
)

func genStack(t *rapid.T) (encs []string) {
	for i, n := 0, count(t, "encs", 0, 3, 6); i < n; i++ {
		encs = append(encs, rapid.SampledFrom(bodyEncs).Draw(t, "enc"))
	}
	return encs
}

// spellType spells the media type in some way.
func spellType(t *rapid.T, ct string) string {
	switch rapid.IntRange(0, 5).Draw(t, "type.style") {
	case 0:
		return strings.ToUpper(ct)
	case 1:
		return ct + ";charset=utf-8"
	case 2:
		return ct + " ; charset=utf-8; v=\"1;2\""
	}
	return ct
}

func base(ct string, encs []string) *representation.Base {
	b := &representation.Base{}
	b.SetContentType(ct)
	b.SetContentEncoding(append([]string(nil), encs...))
	return b
}

// ---- P14: round trips -------------------------------------------------------------

type caseP14 struct {
	Type    string
	Spelled string
	Encs    []string
	Content Content
	Level   int
	Chunk   int
	Custom  bool // custom codecs
	Serial  bool // custom serializers
}

// ownMarshallers and ownUnmarshallers replace the serialization of the type. That
// of the other type is never to be used.
func ownMarshallers(ct string) map[string]representation.Marshaller {
	return map[string]representation.Marshaller{
		"application/x-others": func(any) ([]byte, error) { return []byte("{}"), nil },
		ct: func(v any) ([]byte, error) {
			b, err := marshalRef("application/json", v)
			return append([]byte("#"), b...), err
		},
	}
}

func ownUnmarshallers(ct string) map[string]representation.Unmarshaller {
	return map[string]representation.Unmarshaller{
		"application/x-others": func([]byte, any) error { return nil },
		ct: func(b []byte, v any) error {
			if len(b) == 0 || b[0] != '#' {
				return errors.New("not serialized by the custom serializer")
			}
			return unmarshalRef("application/json", b[1:], v)
		},
	}
}

// rot is a coding that adds a number to every byte, and a trailer on closing.
func rotWriter(n byte) representation.EncodingWriterConstructor {
	return func(w io.WriteCloser) (io.WriteCloser, error) { return &rot{w: w, n: n}, nil }
}

func rotReader(n byte) representation.EncodingReaderConstructor {
	return func(r io.Reader) (io.ReadCloser, error) {
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		b, ok := bytes.CutSuffix(b, []byte{n, 'E', 'N', 'D'})
		if !ok {
			return nil, errors.New("rot: no trailer")
		}
		for i := range b {
			b[i] -= n
		}
		return io.NopCloser(bytes.NewReader(b)), nil
	}
}

type rot struct {
	w      io.WriteCloser
	n      byte
	closed bool
}

func (r *rot) Write(b []byte) (int, error) {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] + r.n
	}
	return r.w.Write(out)
}

func (r *rot) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	_, err := r.w.Write([]byte{r.n, 'E', 'N', 'D'})
	return err
}

var (
	customWriters = map[string]representation.EncodingWriterConstructor{"rot1": rotWriter(1), "rot7": rotWriter(7)}
	customReaders = map[string]representation.EncodingReaderConstructor{"rot1": rotReader(1), "rot7": rotReader(7)}
)

// only yields the constructors of the codings.
func only[F any](all map[string]F, encs []string) map[string]F {
	some := map[string]F{}
	for _, e := range encs {
		if f, ok := all[strings.ToLower(e)]; ok {
			some[strings.ToLower(e)] = f
		}
	}
	return some
}

var propP14 = Prop[caseP14]{
	ID:    "P14",
	Title: "serialization round trips",
	Rule:  "at least one content coding other than identity is applied",
	Quick: 24000,
	Deep:  240000,
	Gen: func(t *rapid.T) caseP14 {
		c := caseP14{Type: rapid.SampledFrom(bodyTypes).Draw(t, "type"), Encs: genStack(t), Content: genContent(t)}
		c.Spelled = spellType(t, c.Type)
		c.Level = rapid.IntRange(0, 9).Draw(t, "level")
		c.Chunk = rapid.SampledFrom([]int{0, 1000, 17, 40000}).Draw(t, "chunk")
		if c.Content.Blob > 5000 && c.Chunk == 17 {
			c.Chunk = 5000
		}
		if rapid.IntRange(0, 4).Draw(t, "serial") == 0 {
			c.Serial = true
			if rapid.Bool().Draw(t, "own type") {
				c.Type = "application/vnd.own+json"
				c.Spelled = spellType(t, c.Type)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "custom") == 0 {
			c.Custom = true
			for i := range c.Encs {
				c.Encs[i] = rapid.SampledFrom([]string{"rot1", "rot7", "ROT1", "identity"}).Draw(t, "rot")
			}
		}
		return c
	},
	Run: func(c caseP14, info *Info) error {
		d := c.Content.doc()
		rep, uncoded := base(c.Spelled, c.Encs), base(c.Spelled, nil)
		marshal := func(v any) ([]byte, error) { return marshalRef(c.Type, v) }
		unmarshal := func(b []byte, v any) error { return unmarshalRef(c.Type, b, v) }
		if c.Serial {
			m, u := ownMarshallers(c.Type), ownUnmarshallers(c.Type)
			rep.SetMarshallers(m)
			rep.SetUnmarshallers(u)
			uncoded.SetMarshallers(m)
			info.class("custom serializers")
			marshal, unmarshal = m[c.Type], u[c.Type]
		}
		if c.Custom {
			writers, readers := customWriters, customReaders
			if c.Level%2 == 0 { // none but the ones it takes
				writers, readers = only(writers, c.Encs), only(readers, c.Encs)
			}
			rep.SetEncodingWriters(writers)
			rep.SetEncodingReaders(readers)
		}
		applied := 0
		for _, e := range c.Encs {
			if !strings.EqualFold(e, "identity") {
				applied++
			}
		}
		info.NonTrivial = applied > 0
		info.class("%s, %d codings", c.Type, applied)
		plain, err := marshal(&d)
		if err != nil {
			panic("harness: " + err.Error())
		}
		// what the serialization itself makes of the document.
		var want doc
		if err := unmarshal(plain, &want); err != nil {
			info.class("skipped: not serializable")
			return nil
		}
		b, err := rep.Bytes(&d)
		if err != nil {
			return fmt.Errorf("Bytes: unexpected error %v", err)
		}
		before := append([]byte(nil), b...)
		// it is up to the serialization how that is spelled.
		own, err := uncoded.Bytes(&d)
		if err != nil {
			return fmt.Errorf("Bytes without any coding: unexpected error %v", err)
		}
		var readable doc
		if err := unmarshal(own, &readable); err != nil || !reflect.DeepEqual(readable, want) {
			return fmt.Errorf("serialized without any coding as %.200q (%v), want %.200q", own, err, plain)
		}
		if c.Custom {
			x := own
			for _, e := range c.Encs {
				if strings.EqualFold(e, "identity") {
					continue
				}
				var buf bytes.Buffer
				n := byte(1)
				if strings.EqualFold(e, "rot7") {
					n = 7
				}
				w := &rot{w: nopClose{&buf}, n: n}
				_, _ = w.Write(x)
				_ = w.Close()
				x = buf.Bytes()
			}
			if !bytes.Equal(b, x) {
				return fmt.Errorf("serialized with custom codings as %.200q, want %.200q", b, x)
			}
		} else {
			raw, err := decodeRef(c.Encs, b)
			if err != nil {
				return fmt.Errorf("%d bytes encoded with %q cannot be decoded in reverse order: %v", len(b), c.Encs, err)
			}
			if !bytes.Equal(raw, own) {
				return fmt.Errorf("encoded with %q is %.200q (%d bytes), want %.200q (%d bytes)", c.Encs, raw, len(raw), own, len(own))
			}
		}
		read := func(what string, b []byte) error {
			var got doc
			if err := rep.FromBytes(b, &got); err != nil {
				return fmt.Errorf("FromBytes of %s: unexpected error %v", what, err)
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("FromBytes of %s is %.300v, want %.300v", what, got, want)
			}
			return nil
		}
		if err := read("what Bytes yields", b); err != nil {
			return err
		}
		if !bytes.Equal(b, before) {
			return fmt.Errorf("FromBytes modified its input")
		}
		if fmt.Sprintf("%q", rep.ContentEncoding()) != fmt.Sprintf("%q", c.Encs) || rep.ContentType() != c.Spelled {
			return fmt.Errorf("serializing modified the metadata: %q %q", rep.ContentType(), rep.ContentEncoding())
		}
		if again, err := rep.Bytes(&d); err != nil || !bytes.Equal(again, before) {
			return fmt.Errorf("Bytes yields something else the second time (%v)", err)
		}
		if c.Custom {
			return nil
		}
		return read("what others encoded", encodeRef(c.Encs, plain, c.Level, c.Chunk))
	},
}

type nopClose struct{ io.Writer }

func (nopClose) Close() error { return nil }

func TestP14(t *testing.T) { run(t, propP14) }
func FuzzP14(f *testing.F) { fuzz(f, propP14) }

// ---- P15: corruption and lack of support --------------------------------------------

type caseP15 struct {
	Type    string
	Spelled string
	Encs    []string
	Content Content
	Damage  string
	At      int
	Mask    byte
	Extra   int
	Fault   int // kind of failing codec
}

var errCodec = errors.New("codec failed")

type failing struct {
	w       io.WriteCloser
	onWrite bool
}

func (f failing) Write(b []byte) (int, error) {
	if f.onWrite {
		return 0, errCodec
	}
	return f.w.Write(b)
}
func (f failing) Close() error { return errCodec }

type failingReader struct {
	r       io.Reader
	onClose bool
}

func (f failingReader) Read(b []byte) (int, error) {
	if f.onClose {
		return f.r.Read(b)
	}
	return 0, errCodec
}

func (f failingReader) Close() error {
	if f.onClose {
		return errCodec
	}
	return nil
}

// holding keeps all it is given until it is closed, like codecs do.
type holding struct {
	w   io.WriteCloser
	buf bytes.Buffer
}

func (h *holding) Write(b []byte) (int, error) { return h.buf.Write(b) }
func (h *holding) Close() error {
	_, err := h.w.Write(h.buf.Bytes())
	return err
}

var propP15 = Prop[caseP15]{
	ID:    "P15",
	Title: "damage and lack of support",
	Rule:  "the data is damaged, or a codec is missing or fails",
	Quick: 80000,
	Deep:  800000,
	Gen: func(t *rapid.T) caseP15 {
		c := caseP15{Type: rapid.SampledFrom(bodyTypes).Draw(t, "type"), Content: genContent(t)}
		if c.Content.Blob > 40000 {
			c.Content.Blob = 40000
		}
		c.Spelled = spellType(t, c.Type)
		c.Encs = genStack(t)
		if len(c.Encs) == 0 {
			c.Encs = []string{"gzip"}
		}
		c.Damage = rapid.SampledFrom([]string{"truncate", "truncate", "flip", "insert", "delete", "append", "garbage", "type", "coding", "codec", "codec"}).Draw(t, "damage")
		c.At = rapid.IntRange(0, 1<<20).Draw(t, "at")
		if rapid.IntRange(0, 1).Draw(t, "at.end") == 0 {
			c.At = -rapid.IntRange(1, 30).Draw(t, "at.tail")
		}
		c.Mask = byte(rapid.IntRange(1, 255).Draw(t, "mask"))
		c.Extra = rapid.IntRange(1, 40).Draw(t, "extra")
		c.Fault = rapid.IntRange(0, 8).Draw(t, "fault")
		return c
	},
	Run: func(c caseP15, info *Info) error {
		d := c.Content.doc()
		info.NonTrivial = true
		info.class("%s", c.Damage)
		switch c.Damage {
		case "type":
			for _, ct := range []string{"application/x-unknown", "", "text/plain", "json", "application/json2", "*/*"} {
				rep := base(ct, c.Encs)
				if b, err := rep.Bytes(&d); !errors.Is(err, representation.ErrUnsupportedContentType) || len(b) > 0 {
					return fmt.Errorf("Bytes of type %q: %d bytes, error %v", ct, len(b), err)
				}
				got := doc{Name: "untouched"}
				if err := rep.FromBytes([]byte(`{"Name":"x"}`), &got); !errors.Is(err, representation.ErrUnsupportedContentType) || got.Name != "untouched" {
					return fmt.Errorf("FromBytes of type %q: %v, error %v", ct, got, err)
				}
			}
			return nil
		case "coding":
			at := absInt(c.At) % (len(c.Encs) + 1)
			odd := []string{"x-unknown", "br", "gzip2", "zstd", ""}[int(c.Mask)%5]
			encs := append(append(append([]string(nil), c.Encs[:at]...), odd), c.Encs[at:]...)
			rep := base(c.Spelled, encs)
			if c.Fault >= 4 {
				return c.replaced(info)
			}
			if b, err := rep.Bytes(&d); !errors.Is(err, representation.ErrUnsupportedContentEncoding) || len(b) > 0 {
				return fmt.Errorf("Bytes encoded with %q: %d bytes, error %v", encs, len(b), err)
			}
			got := doc{Name: "untouched"}
			plain, _ := marshalRef(c.Type, &d)
			// the codings that come last are undone first, so that they have to be fine.
			in := encodeRef(encs[at+1:], plain, 6, 0)
			if err := rep.FromBytes(in, &got); !errors.Is(err, representation.ErrUnsupportedContentEncoding) || got.Name != "untouched" {
				return fmt.Errorf("FromBytes encoded with %q: error %v", encs, err)
			}
			return nil
		case "codec":
			return c.codec(info)
		}
		rep := base(c.Spelled, c.Encs)
		b, err := rep.Bytes(&d)
		if err != nil {
			return fmt.Errorf("Bytes: unexpected error %v", err)
		}
		at := c.At
		if at < 0 {
			at += len(b)
			if at < 0 {
				at = 0
			}
		}
		at %= len(b)
		switch c.Damage {
		case "truncate":
			b = b[:at:at]
		case "flip":
			b[at] ^= c.Mask
		case "insert":
			b = append(b[:at:at], append(bytes.Repeat([]byte{c.Mask}, c.Extra), b[at:]...)...)
		case "delete":
			end := at + c.Extra
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at:at], b[end:]...)
		case "append":
			b = append(b, bytes.Repeat([]byte{c.Mask}, c.Extra)...)
		case "garbage":
			b = bytes.Repeat([]byte{c.Mask, byte(at)}, c.Extra)
		}
		var want, got doc
		raw, wantErr := decodeRef(c.Encs, b)
		decodable := wantErr == nil
		if decodable {
			wantErr = unmarshalRef(c.Type, raw, &want)
		}
		gotErr := rep.FromBytes(b, &got)
		if (gotErr == nil) != (wantErr == nil) {
			return fmt.Errorf("FromBytes of damaged data: error %v, want %v", gotErr, wantErr)
		}
		if wantErr != nil {
			info.class("detected")
			if !decodable && !reflect.DeepEqual(got, doc{}) {
				return fmt.Errorf("data that cannot be decoded (%v) was deserialized nonetheless: %.300v", wantErr, got)
			}
			return nil
		}
		info.class("undetectable")
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("FromBytes is %.300v, want %.300v", got, want)
		}
		return nil
	},
}

// replaced checks that custom codecs, marshallers, and unmarshallers replace the
// ones that are offered by default, each on its own.
func (c caseP15) replaced(info *Info) error {
	d := c.Content.doc()
	plain, _ := marshalRef(c.Type, &d)
	var want doc
	if unmarshalRef(c.Type, plain, &want) != nil {
		return nil // not serializable
	}
	encs := []string{bodyEncs[absInt(c.At)%len(bodyEncs)]}
	identity := strings.EqualFold(encs[0], "identity")
	other := bodyTypes[absInt(c.At)%len(bodyTypes)]
	rep := base(c.Spelled, encs)
	unsupported := map[string]error{} // by what is done
	switch kind := int(c.Mask) % 4; kind {
	case 0:
		rep.SetEncodingWriters(only(customWriters, []string{"rot1", "rot7"}[c.Extra%2:]))
		unsupported["write"] = representation.ErrUnsupportedContentEncoding
	case 1:
		rep.SetEncodingReaders(only(customReaders, []string{"rot1", "rot7"}[c.Extra%2:]))
		unsupported["read"] = representation.ErrUnsupportedContentEncoding
	case 2:
		rep.SetMarshallers(map[string]representation.Marshaller{other: json.Marshal})
		unsupported["write"] = representation.ErrUnsupportedContentType
	case 3:
		rep.SetUnmarshallers(map[string]representation.Unmarshaller{other: json.Unmarshal})
		unsupported["read"] = representation.ErrUnsupportedContentType
	}
	switch {
	case int(c.Mask)%4 < 2 && identity, int(c.Mask)%4 >= 2 && other == c.Type:
		info.class("replaced: still supported")
		unsupported = nil
	default:
		info.class("replaced: no longer supported")
	}
	b, err := rep.Bytes(&d)
	if !errors.Is(err, unsupported["write"]) || err != nil && len(b) > 0 {
		return fmt.Errorf("Bytes with replaced codecs (%d, %q, %s): %d bytes, error %v, want %v", int(c.Mask)%4, encs, c.Type, len(b), err, unsupported["write"])
	}
	in, got := encodeRef(encs, plain, 6, 0), doc{}
	if int(c.Mask)%4 == 3 {
		x, _ := json.Marshal(&d)
		in, want = encodeRef(encs, x, 6, 0), doc{}
		_ = json.Unmarshal(x, &want)
	}
	err = rep.FromBytes(in, &got)
	if !errors.Is(err, unsupported["read"]) {
		return fmt.Errorf("FromBytes with replaced codecs (%d, %q, %s): error %v, want %v", int(c.Mask)%4, encs, c.Type, err, unsupported["read"])
	}
	if err != nil {
		want = doc{}
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("FromBytes with replaced codecs (%d, %q, %s): %.300v, want %.300v", int(c.Mask)%4, encs, c.Type, got, want)
	}
	return nil
}

// codec checks that errors of custom codecs surface.
func (c caseP15) codec(info *Info) error {
	d := c.Content.doc()
	at := absInt(c.At) % 3
	encs := []string{"ok", "ok", "ok"}
	encs[at] = "bad"
	if c.Extra%2 == 0 {
		encs = encs[at : at+1]
	}
	okW := func(w io.WriteCloser) (io.WriteCloser, error) { return &holding{w: w}, nil }
	okR := func(r io.Reader) (io.ReadCloser, error) { return io.NopCloser(r), nil }
	badW, badR := okW, okR
	rep := base(c.Spelled, encs)
	reading := false
	switch c.Fault {
	case 0:
		badW = func(io.WriteCloser) (io.WriteCloser, error) { return nil, errCodec }
	case 1:
		badW = func(w io.WriteCloser) (io.WriteCloser, error) { return failing{w, true}, nil }
	case 2:
		badW = func(w io.WriteCloser) (io.WriteCloser, error) { return failing{w, false}, nil }
	case 3:
		badR, reading = func(io.Reader) (io.ReadCloser, error) { return nil, errCodec }, true
	case 4:
		badR, reading = func(r io.Reader) (io.ReadCloser, error) { return failingReader{r, false}, nil }, true
	case 5:
		rep.SetMarshallers(map[string]representation.Marshaller{c.Type: func(any) ([]byte, error) { return nil, errCodec }})
	case 7: // part of it has been serialized already
		rep.SetMarshallers(map[string]representation.Marshaller{c.Type: func(any) ([]byte, error) { return []byte("{"), errCodec }})
	case 8:
		badR, reading = func(r io.Reader) (io.ReadCloser, error) { return failingReader{r, true}, nil }, true
	case 6:
		rep.SetUnmarshallers(map[string]representation.Unmarshaller{c.Type: func([]byte, any) error { return errCodec }})
		reading = true
	}
	rep.SetEncodingWriters(map[string]representation.EncodingWriterConstructor{"ok": okW, "bad": badW})
	rep.SetEncodingReaders(map[string]representation.EncodingReaderConstructor{"ok": okR, "bad": badR})
	info.class("failing codec %d", c.Fault)
	if reading {
		plain, err := marshalRef(c.Type, &d)
		if err != nil {
			panic("harness: " + err.Error())
		}
		var got doc
		if err := rep.FromBytes(plain, &got); !errors.Is(err, errCodec) {
			return fmt.Errorf("a codec failed while reading (kind %d, %q), but the error is %v", c.Fault, encs, err)
		}
		if !reflect.DeepEqual(got, doc{}) {
			return fmt.Errorf("a codec failed while reading (kind %d), but data was deserialized", c.Fault)
		}
		return nil
	}
	b, err := rep.Bytes(&d)
	if !errors.Is(err, errCodec) {
		return fmt.Errorf("a codec failed while writing (kind %d, %q), but the error is %v (%d bytes)", c.Fault, encs, err, len(b))
	}
	return nil
}

func TestP15(t *testing.T) { run(t, propP15) }
func FuzzP15(f *testing.F) { fuzz(f, propP15) }

// ---- P16: lists -------------------------------------------------------------------------

type caseP16 struct {
	Reps []Rep
	Type string
	Encs []string
	Used []Rep `json:",omitempty"` // what the list that is read into held before
	Cut  int   // where the data is cut off to see to it that nothing is read
}

var propP16 = Prop[caseP16]{
	ID:    "P16",
	Title: "lists of representations",
	Rule:  "at least two representations, or content codings are applied",
	Quick: 40000,
	Deep:  400000,
	Gen: func(t *rapid.T) caseP16 {
		c := caseP16{Type: rapid.SampledFrom(bodyTypes).Draw(t, "type"), Encs: genStack(t)}
		if rapid.IntRange(0, 19).Draw(t, "none") > 0 {
			c.Reps = genListed(t, 5, 60)
		}
		if rapid.IntRange(0, 2).Draw(t, "used") == 0 {
			c.Used = genListed(t, 4, 12)
		}
		c.Cut = rapid.IntRange(0, 1<<16).Draw(t, "cut")
		return c
	},
	Run: func(c caseP16, info *Info) error {
		rs := stubs(c.Reps)
		l := representation.List{}
		l.SetContentType(c.Type)
		l.SetContentEncoding(append([]string(nil), c.Encs...))
		l.SetRepresentations(rs...)
		info.NonTrivial = len(c.Reps) > 1 || len(c.Encs) > 0
		info.class("%s", c.Type)
		b, err := l.Bytes()
		if err != nil {
			return fmt.Errorf("Bytes: unexpected error %v", err)
		}
		if l.ContentType() != c.Type || fmt.Sprintf("%q", l.ContentEncoding()) != fmt.Sprintf("%q", c.Encs) {
			return fmt.Errorf("Bytes modified the metadata of the list: %q %q", l.ContentType(), l.ContentEncoding())
		}
		raw, err := decodeRef(c.Encs, b)
		if err != nil {
			return fmt.Errorf("cannot decode the list encoded with %q: %v", c.Encs, err)
		}
		ct := c.Type
		if ct == "text/html" {
			ct = "application/xml"
		}
		want := metaOf(rs)
		ms, err := decodeList(ct, raw)
		if err != nil {
			return fmt.Errorf("cannot read the list: %v: %.300q", err, raw)
		}
		if !reflect.DeepEqual(ms, want) {
			return fmt.Errorf("lists\n  %+v\nwant\n  %+v", ms, want)
		}
		read := representation.List{}
		read.SetContentType(c.Type)
		read.SetContentEncoding(append([]string(nil), c.Encs...))
		if len(c.Used) > 0 {
			info.class("into a list in use")
			read.SetRepresentations(stubs(c.Used)...)
		}
		if err := read.FromBytes(b); err != nil {
			return fmt.Errorf("FromBytes: unexpected error %v", err)
		}
		var got []meta
		for _, m := range read.Representations {
			got = append(got, meta{m.ContentType, m.ContentLanguage, m.ContentLocation, m.ContentCharset,
				strs(m.ContentEncoding), strs(m.ContentFeatures), m.SourceQuality})
		}
		held := fmt.Sprintf("%+v", read.Representations)
		var part representation.List
		cut := append([]byte(nil), b[:c.Cut%len(b)]...)
		partErr := func() error {
			raw, err := decodeRef(c.Encs, cut)
			if err != nil {
				return err
			}
			return unmarshalRef(c.Type, raw, &part)
		}()
		if err := read.FromBytes(cut); (err == nil) != (partErr == nil) {
			return fmt.Errorf("FromBytes of what was cut off: error %v, want %v", err, partErr)
		}
		if now := fmt.Sprintf("%+v", read.Representations); partErr != nil {
			info.class("failed to read what was cut off")
			if now != held {
				return fmt.Errorf("FromBytes failed but modified the list: %s, was %s", now, held)
			}
		} else if w := fmt.Sprintf("%+v", part.Representations); now != w {
			return fmt.Errorf("FromBytes of what was cut off: %s, want %s", now, w)
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("FromBytes yields\n  %+v\nwant\n  %+v", got, want)
		}
		other, err := listByOthers(ct, want)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if err := read.FromBytes(encodeRef(c.Encs, other, 6, 0)); err != nil {
			return fmt.Errorf("FromBytes of what others serialized: %v: %.500q", err, other)
		}
		got = nil
		for _, m := range read.Representations {
			got = append(got, meta{m.ContentType, m.ContentLanguage, m.ContentLocation, m.ContentCharset,
				strs(m.ContentEncoding), strs(m.ContentFeatures), m.SourceQuality})
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("FromBytes of what others serialized yields\n  %+v\nwant\n  %+v", got, want)
		}
		if read.ContentType() != c.Type || fmt.Sprintf("%q", read.ContentEncoding()) != fmt.Sprintf("%q", c.Encs) {
			return fmt.Errorf("FromBytes modified the metadata of the list: %q %q", read.ContentType(), read.ContentEncoding())
		}
		return nil
	},
}

// listByOthers serializes a list the way others might: in another layout and
// order, with everything spelled out.
func listByOthers(ct string, ms []meta) ([]byte, error) {
	names := []string{"SourceQuality", "ContentFeatures", "ContentType", "ContentLocation", "ContentEncoding", "ContentLanguage", "ContentCharset"}
	values := func(m meta) []any {
		return []any{m.SourceQuality, m.ContentFeatures, m.ContentType, m.ContentLocation, m.ContentEncoding, m.ContentLanguage, m.ContentCharset}
	}
	if ct == "application/xml" {
		var b bytes.Buffer
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- variants -->\n<List>\n")
		for _, m := range ms {
			b.WriteString("  <Representations>\n")
			for i, v := range values(m) {
				vs, ok := v.([]string)
				if !ok {
					vs = []string{fmt.Sprint(v)}
				}
				for _, v := range vs {
					fmt.Fprintf(&b, "    <%s>", names[i])
					if err := xml.EscapeText(&b, []byte(v)); err != nil {
						return nil, err
					}
					fmt.Fprintf(&b, "</%s>\n", names[i])
				}
			}
			b.WriteString("  </Representations>\n")
		}
		b.WriteString("</List>\n")
		return b.Bytes(), nil
	}
	rs := []map[string]any{}
	for _, m := range ms {
		r := map[string]any{}
		for i, v := range values(m) {
			name := strings.ToLower(names[i])
			if ct == "application/json" {
				name = strings.ToLower(names[i][:1]) + names[i][1:]
			}
			r[name] = v
		}
		rs = append(rs, r)
	}
	l := map[string]any{"representations": rs}
	if ct != "application/json" {
		return yaml.Marshal(l)
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent(" ", "\t")
	err := e.Encode(l)
	return b.Bytes(), err
}

func TestP16(t *testing.T) { run(t, propP16) }
func FuzzP16(f *testing.F) { fuzz(f, propP16) }
