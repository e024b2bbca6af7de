From b8d680a5205e41229424fa54c3d9158114799fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 01/39] fix: split negotiation header field values into their
 list members

Accept, Accept-Charset, Accept-Encoding, Accept-Features and Negotiate only
understood one member per field line: 'Accept: text/html, application/json'
was rejected as malformed.
---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/list.go            | 57 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 62 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/list.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..f4018f2 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range splitList(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..e311776 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range splitList(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..6b93f8d 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range splitList(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..590ce83 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range splitList(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/list.go b/internal/header/list.go
new file mode 100644
index 0000000..e11f5f2
--- /dev/null
+++ b/internal/header/list.go
@@ -0,0 +1,57 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// splitList splits each of the provided field values into the comma-separated
+// members they are comprised of. Commas within quoted strings do not separate
+// members, and empty members are ignored. A field value without any members
+// contributes a single empty member.
+//
+// https://tools.ietf.org/html/rfc7230#section-7
+func splitList(values []string) (members []string) {
+	for _, value := range values {
+		var (
+			count, start   int
+			quoted, escape bool
+		)
+		add := func(member string) {
+			if member = strings.TrimSpace(member); member != "" {
+				members = append(members, member)
+				count++
+			}
+		}
+		for i := 0; i < len(value); i++ {
+			switch {
+			case escape:
+				escape = false
+			case quoted && value[i] == '\\':
+				escape = true
+			case value[i] == '"':
+				quoted = !quoted
+			case value[i] == ',' && !quoted:
+				add(value[start:i])
+				start = i + 1
+			}
+		}
+		add(value[start:])
+		if count == 0 {
+			members = append(members, "")
+		}
+	}
+	return members
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..d1de18c 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range splitList(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From bc8f58dceea8fcdd8f43234068e3071ebab8a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 02/39] fix: ignore the weight when comparing media type
 parameters

A media range with both parameters and a weight ('text/html;level=2;q=0.4')
was never compatible, since q itself was looked up in the media type.
---
 internal/header/media_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..a986970 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the weight is not a media type parameter.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From 843fbdc78d226da7d92ac0ecbf35a0703e572945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 03/39] fix: reject NaN as a quality value

---
 internal/header/quality_value.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..091995e 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -51,9 +51,8 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 // where 0.001 is the least preferred and 1 is the most preferred; a
 // value of 0 means "not acceptable".
 func NewQualityValue(qvalue float32) (QualityValue, error) {
-	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
-		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	// NaN is neither too low nor too high, but isn't within the range either.
+	if !(qvalue >= QualityValueMinimum.Float() && qvalue <= QualityValueMaximum.Float()) {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From dfecdee5b032f2c21fb626bdd77471ea0ac802cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 04/39] fix: read the whole weight of a content coding range

Only the fraction was read, so 'gzip;q=1' and 'gzip;q=1.0' were taken as a
weight of 0, i.e. not acceptable.
---
 internal/header/content_coding_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..7448fd3 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,7 +90,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From e4c3c7712697493e1fe2f064e4373a6ebf2895e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 05/39] fix: accept the RFC7231 grammar of charset and content
 coding ranges

Charset names such as 'Shift_JIS', optional whitespace before the semicolon,
an uppercase 'Q' and content codings in other than lower case are all valid,
but were rejected as malformed.
---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..284f74b 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([!#$%&'*+.^_\x60|~A-Za-z0-9-]+)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 7448fd3..65d753a 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([!#$%&'*+.^_\x60|~A-Za-z0-9-]+)(\s*;\s*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
@@ -84,7 +84,7 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	if !slice.ContainsString(contentCodings, strings.ToLower(groups[1])) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
 	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
-- 
2.43.0


From 668acb9fcb3f39eb8a126a3b6adab37b21429592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 06/39] fix: recognise the br and zstd content codings

Both are registered with IANA and sent by every current browser; a request
carrying either in its Accept-Encoding failed negotiation with an error.
---
 internal/header/content_coding_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 65d753a..4eeba72 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -34,6 +34,8 @@ var (
 	compress  = "compress"
 	xcompress = "x-compress"
 	identity  = "identity"
+	brotli    = "br"
+	zstandard = "zstd"
 
 	contentCodings = []string{
 		gzip,
@@ -42,6 +44,8 @@ var (
 		compress,
 		xcompress,
 		identity,
+		brotli,
+		zstandard,
 		"*",
 	}
 
-- 
2.43.0


From 89475cce9d02761dcc8f5070834698b2af7e0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 07/39] fix: understand the wildcard and zero weights in
 Accept-Language

The wildcard was parsed as the language tag 'mul', so it matched nothing, and
ranges with a weight of zero were dropped rather than being unacceptable.
---
 internal/header/accept_language.go | 56 ++++++++++++++++++++++--------
 internal/header/language_range.go  |  4 +++
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..265ae9d 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -18,6 +18,7 @@ package header
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/text/language"
@@ -48,24 +49,51 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 	if len(acceptLanguage) == 0 {
 		return EmptyAcceptLanguage, nil
 	}
-	tags, qValues, err := language.ParseAcceptLanguage(strings.Join(acceptLanguage, ","))
-	if err != nil {
-		return EmptyAcceptLanguage, err
-	}
 
 	var ranges []LanguageRange
-	for i := 0; i < len(tags); i++ {
-		qv, err := NewQualityValue(qValues[i])
+	for _, l := range splitList(acceptLanguage) {
+		lr, ok, err := parseLanguageRange(l)
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
-		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
-			tag:    tags[i],
-			qValue: qv,
-		})
+		if ok {
+			ranges = append(ranges, lr)
+		}
+	}
+	return AcceptLanguage(ranges).LanguageRanges(), nil
+}
+
+// parseLanguageRange parses a member of the Accept-Language header. The
+// wildcard range and ranges that are not acceptable (those with a weight of
+// zero) are handled here because language.ParseAcceptLanguage interprets the
+// former as the "mul" language tag and drops the latter.
+func parseLanguageRange(l string) (lr LanguageRange, ok bool, err error) {
+	lr.qValue = QualityValueDefault
+	r, weight, weighted := strings.Cut(l, ";")
+	if weighted {
+		k, v, _ := strings.Cut(weight, "=")
+		if !strings.EqualFold(strings.TrimSpace(k), "q") {
+			return lr, false, ErrInvalidLanguageRange
+		}
+		q, err := strconv.ParseFloat(strings.TrimSpace(v), 32)
+		if err != nil {
+			return lr, false, err
+		}
+		if lr.qValue, err = NewQualityValue(float32(q)); err != nil {
+			return lr, false, err
+		}
+	}
+
+	if r = strings.TrimSpace(r); r == "*" {
+		lr.lrange, lr.tag = r, language.Und
+		return lr, true, nil
+	}
+	tags, _, err := language.ParseAcceptLanguage(r)
+	if err != nil || len(tags) == 0 {
+		return lr, false, err
 	}
-	return AcceptLanguage(ranges), nil
+	lr.lrange, lr.tag = tags[0].String(), tags[0]
+	return lr, true, nil
 }
 
 // IsEmpty indicates if the Accept-Language header is empty.
@@ -75,7 +103,7 @@ func (l AcceptLanguage) IsEmpty() bool {
 
 // LanguageRanges provides the language ranges sorted on preference from//// highest to lowest.
 func (l AcceptLanguage) LanguageRanges() []LanguageRange {
-	sort.Slice(l, func(first, second int) bool {
+	sort.SliceStable(l, func(first, second int) bool {
 		f := l[first]
 		s := l[second]
 		return f.QualityValue().GreaterThan(s.QualityValue())
@@ -98,7 +126,7 @@ func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
 	for _, lr := range l {
-		languageRanges = append(languageRanges, fmt.Sprintf("%s;q=%s", lr.tag.String(), lr.QualityValue().String()))
+		languageRanges = append(languageRanges, lr.String())
 	}
 	return fmt.Sprintf("%s: %s", headerAcceptLanguage, strings.Join(languageRanges, ","))
 }
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..e13ada4 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -35,6 +35,10 @@ var (
 	// ErrEmptyLanguageRange is an error that indicates that the language
 	// range cannot be empty.
 	ErrEmptyLanguageRange = errors.New("language range cannot be empty")
+
+	// ErrInvalidLanguageRange is an error that indicates that the language
+	// range is invalid.
+	ErrInvalidLanguageRange = errors.New("language range is invalid")
 )
 
 // LanguageRange represents a language tag matching expression.
-- 
2.43.0


From 8c77dbbc22758845b2b153ebb39b29fef8db00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 08/39] fix: let the most specific range determine the quality

The first compatible range in order of preference was used, so 'text/html;q=0,
*/*' still accepted HTML and 'text/html;q=0.3, */*;q=0.8' gave it 0.8. The
strict mode checks disregarded a quality of zero entirely.
---
 internal/header/accept.go          | 25 +++++++++++++++++++------
 internal/header/accept_charset.go  | 20 +++++++++++++++-----
 internal/header/accept_language.go | 22 ++++++++++++++++------
 internal/header/language_range.go  | 19 +++++++++++++++++++
 internal/header/media_range.go     | 22 ++++++++++++++++++++++
 proactive/apache_httpd.go          | 24 +++++++-----------------
 transparent/rvsa.go                | 30 +++++++++---------------------
 7 files changed, 107 insertions(+), 55 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index f4018f2..eda98c1 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -74,15 +74,28 @@ func (a Accept) MediaRanges() []MediaRange {
 	return a
 }
 
-// Compatible determines if the provided media type is compatible with any
-// of the media ranges within the Accept header value.
-func (a Accept) Compatible(mediaType string) (c bool, err error) {
+// MostSpecific retrieves the most specific media range that is compatible with
+// the provided media type, which is the one that determines its quality.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.2
+func (a Accept) MostSpecific(mediaType string) (mr MediaRange, ok bool, err error) {
 	for _, r := range a.MediaRanges() {
-		if c, err = r.Compatible(mediaType); err != nil || c {
-			return
+		c, err := r.Compatible(mediaType)
+		if err != nil {
+			return MediaRange{}, false, err
+		}
+		if c && (!ok || r.moreSpecific(mr)) {
+			mr, ok = r, true
 		}
 	}
-	return
+	return mr, ok, nil
+}
+
+// Compatible determines if the provided media type is acceptable according to
+// the media ranges within the Accept header value.
+func (a Accept) Compatible(mediaType string) (c bool, err error) {
+	mr, ok, err := a.MostSpecific(mediaType)
+	return ok && mr.QualityValue().GreaterThan(QualityValueMinimum), err
 }
 
 // IsEmpty indicates if the Accept header is empty.
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index e311776..de7e1ba 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -71,17 +71,27 @@ func (c AcceptCharset) CharsetRanges() []CharsetRange {
 	return c
 }
 
-// Compatible determines if the provided charset is compatible with any
-// of the charset ranges within the Accept-Charset header value.
-func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+// MostSpecific retrieves the most specific charset range that is compatible
+// with the provided charset, which is the one that determines its quality. The
+// wildcard only matches charsets not mentioned elsewhere.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.3
+func (c AcceptCharset) MostSpecific(charset string) (cr CharsetRange, ok bool) {
 	for _, r := range c.CharsetRanges() {
-		if cc = r.Compatible(charset); err != nil || cc {
-			return
+		if r.Compatible(charset) && (!ok || (cr.IsWildcard() && !r.IsWildcard())) {
+			cr, ok = r, true
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided charset is acceptable according to
+// the charset ranges within the Accept-Charset header value.
+func (c AcceptCharset) Compatible(charset string) (cc bool, err error) {
+	cr, ok := c.MostSpecific(charset)
+	return ok && cr.QualityValue().GreaterThan(QualityValueMinimum), nil
+}
+
 // IsEmpty indicates if the Accept-Charset header is empty.
 func (c AcceptCharset) IsEmpty() bool {
 	return len(c) == len(EmptyAcceptCharset)
diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 265ae9d..53c8dd3 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -111,17 +111,27 @@ func (l AcceptLanguage) LanguageRanges() []LanguageRange {
 	return l
 }
 
-// Compatible determines if the provided language is compatible with any
-// of the language ranges within the Accept-Language header value.
-func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
-	for _, r := range l.LanguageRanges() {
-		if c = r.Compatible(language); err != nil || c {
-			return
+// MostSpecific retrieves the most specific language range that is compatible
+// with the provided language, which is the one that determines its quality,
+// along with its position among the ranges.
+//
+// https://tools.ietf.org/html/rfc4647#section-3.3
+func (l AcceptLanguage) MostSpecific(language string) (lr LanguageRange, idx int, ok bool) {
+	for i, r := range l.LanguageRanges() {
+		if r.Compatible(language) && (!ok || r.specificity(language) > lr.specificity(language)) {
+			lr, idx, ok = r, i, true
 		}
 	}
 	return
 }
 
+// Compatible determines if the provided language is acceptable according to
+// the language ranges within the Accept-Language header value.
+func (l AcceptLanguage) Compatible(language string) (c bool, err error) {
+	lr, _, ok := l.MostSpecific(language)
+	return ok && lr.QualityValue().GreaterThan(QualityValueMinimum), nil
+}
+
 // String provides a textual representation of the Accept-Language header.
 func (l AcceptLanguage) String() string {
 	var languageRanges []string
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index e13ada4..3583867 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -118,6 +118,25 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	return i != 0
 }
 
+// specificity determines how specific the language range is for the provided
+// language tag. A range that is a prefix of the tag is more specific the longer
+// it is, and always more so than the wildcard. A range that is merely close to
+// the tag is the least specific.
+func (lr LanguageRange) specificity(tag string) int {
+	if lr.IsWildcard() {
+		return 1
+	}
+	t, err := language.Parse(tag)
+	if err != nil {
+		return 0
+	}
+	r := lr.Tag()
+	if t.String() == r || strings.HasPrefix(t.String(), r+"-") {
+		return 1 + len(r)
+	}
+	return 0
+}
+
 // String provides a textual representation of the language range.
 func (lr LanguageRange) String() string {
 	return fmt.Sprintf("%s;q=%s", lr.lrange, lr.QualityValue().String())
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index a986970..97d2944 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -164,6 +164,28 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	return matchedType && matchedSubType && matchedParams, nil
 }
 
+// moreSpecific determines if the media range is more specific than the one
+// provided.
+func (mr MediaRange) moreSpecific(other MediaRange) bool {
+	specificity := func(r MediaRange) (types, params int) {
+		if !r.IsTypeWildcard() {
+			types++
+		}
+		if !r.IsSubTypeWildcard() {
+			types++
+		}
+		for p := range r.params {
+			if p != "q" {
+				params++
+			}
+		}
+		return
+	}
+	t, p := specificity(mr)
+	otherT, otherP := specificity(other)
+	return t > otherT || (t == otherT && p > otherP)
+}
+
 // Precedence determines the specificity of the media range.
 func (mr MediaRange) Precedence() int {
 	wildcard := mr.t == "*" && mr.subT == "*"
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..c1d130e 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -294,12 +294,8 @@ func (c httpd) acceptQuality(
 	if rep.ContentType() == "" || accept.IsEmpty() {
 		qt = header.QualityValueMaximum
 	} else {
-		for _, mr := range accept.MediaRanges() {
-			compatible, err := mr.Compatible(rep.ContentType())
-			if compatible && err == nil {
-				qt = mr.QualityValue()
-				break
-			}
+		if mr, ok, err := accept.MostSpecific(rep.ContentType()); ok && err == nil {
+			qt = mr.QualityValue()
 		}
 	}
 	return qt
@@ -315,11 +311,8 @@ func (c httpd) acceptCharsetQuality(
 	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
 		qc = header.QualityValueMaximum
 	} else {
-		for _, c := range acceptCharset.CharsetRanges() {
-			if c.Compatible(rep.ContentCharset()) {
-				qc = c.QualityValue()
-				break
-			}
+		if c, ok := acceptCharset.MostSpecific(rep.ContentCharset()); ok {
+			qc = c.QualityValue()
 		}
 	}
 	return qc
@@ -336,12 +329,9 @@ func (c httpd) acceptLanguageQuality(
 	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
 		ql = header.QualityValueMaximum
 	} else {
-		for idx, lr := range acceptLanguage {
-			if lr.Compatible(rep.ContentLanguage()) {
-				ql = lr.QualityValue()
-				los = len(acceptLanguage) - idx
-				break
-			}
+		if lr, idx, ok := acceptLanguage.MostSpecific(rep.ContentLanguage()); ok {
+			ql = lr.QualityValue()
+			los = len(acceptLanguage) - idx
 		}
 	}
 	return ql, los
diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..d7fcc7c 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -128,15 +128,9 @@ func (c rvsa1) acceptQuality(
 		return header.QualityValueMaximum, true
 	}
 	qt := header.QualityValueMinimum
-	for _, mr := range accept.MediaRanges() {
-		compatible, err := mr.Compatible(rep.ContentType())
-		if compatible && err == nil {
-			qt = mr.QualityValue()
-			if mr.Type() == "*" || mr.SubType() == "*" {
-				usedWildcard = true
-			}
-			break
-		}
+	if mr, ok, err := accept.MostSpecific(rep.ContentType()); ok && err == nil {
+		qt = mr.QualityValue()
+		usedWildcard = mr.IsTypeWildcard() || mr.IsSubTypeWildcard()
 	}
 	return qt, usedWildcard
 }
@@ -155,12 +149,9 @@ func (c rvsa1) acceptLanguageQuality(
 		return header.QualityValueMaximum, true
 	}
 	ql := header.QualityValueMinimum
-	for _, lr := range acceptLanguage {
-		if lr.Compatible(rep.ContentLanguage()) {
-			ql = lr.QualityValue()
-			usedWildcard = lr.IsWildcard()
-			break
-		}
+	if lr, _, ok := acceptLanguage.MostSpecific(rep.ContentLanguage()); ok {
+		ql = lr.QualityValue()
+		usedWildcard = lr.IsWildcard()
 	}
 	return ql, usedWildcard
 }
@@ -179,12 +170,9 @@ func (c rvsa1) acceptCharsetQuality(
 		return header.QualityValueMaximum, true
 	}
 	qc := header.QualityValueMinimum
-	for _, c := range acceptCharset.CharsetRanges() {
-		if c.Compatible(rep.ContentCharset()) {
-			qc = c.QualityValue()
-			usedWildcard = c.IsWildcard()
-			break
-		}
+	if c, ok := acceptCharset.MostSpecific(rep.ContentCharset()); ok {
+		qc = c.QualityValue()
+		usedWildcard = c.IsWildcard()
 	}
 	return qc, usedWildcard
 }
-- 
2.43.0


From 37938795e9870d7e717030ad37d7de0d04d7fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 09/39] fix: prefer the language that comes first in
 Accept-Language

The order score is higher the earlier a language is listed, yet the variants
with the lowest score were selected.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index c1d130e..c095c35 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From e1b4ed28f910c3af7e11f942acc2752bb3177def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 10/39] fix: select only the variants with the highest level

All of the HTML variants having a level were selected, whichever it was.
---
 proactive/apache_httpd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index c095c35..953ef7b 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -276,7 +276,9 @@ var (
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From 8a81f780f3c6519b43d1565678d5ac65f34fff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 11/39] fix: keep the provided order among equally ranked
 variants

The sorts were not stable, so with more than a dozen variants it was not the
first of the remaining variants that got chosen.
---
 internal/header/accept.go          | 2 +-
 internal/header/accept_charset.go  | 2 +-
 internal/header/accept_encoding.go | 2 +-
 proactive/apache_httpd.go          | 2 +-
 representation/set.go              | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index eda98c1..674f1f6 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -62,7 +62,7 @@ func NewAccept(accept []string) (Accept, error) {
 // MediaRanges provides the media ranges sorted on preference and precedence,
 // from highest preference and precedence to lowest.
 func (a Accept) MediaRanges() []MediaRange {
-	sort.Slice(a, func(first, second int) bool {
+	sort.SliceStable(a, func(first, second int) bool {
 		f := a[first]
 		s := a[second]
 
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index de7e1ba..66a51ba 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -63,7 +63,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 // CharsetRanges provides the charsets sorted on preference from highest
 // preference to lowest.
 func (c AcceptCharset) CharsetRanges() []CharsetRange {
-	sort.Slice(c, func(first, second int) bool {
+	sort.SliceStable(c, func(first, second int) bool {
 		f := c[first]
 		s := c[second]
 		return f.QualityValue().GreaterThan(s.QualityValue())
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index 6b93f8d..fd749b8 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -60,7 +60,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 // Codings provides the content codings sorted on preference from highest
 // preference to lowest.
 func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
-	sort.Slice(e, func(first, second int) bool {
+	sort.SliceStable(e, func(first, second int) bool {
 		f := e[first]
 		s := e[second]
 		return f.QualityValue().GreaterThan(s.QualityValue())
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 953ef7b..fbe8807 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -272,7 +272,7 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
diff --git a/representation/set.go b/representation/set.go
index 977dc93..34f482e 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -43,7 +43,7 @@ func (s Set) AsSlice() []RankedRepresentation {
 
 // Sort sorts the representation set based on the provided less function.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From 89ac147216977120995cacbd3c9011d92f4dcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 12/39] fix: determine the quality of content codings per
 RFC7231

The identity coding is acceptable unless excluded, but a representation having
it was eliminated by 'Accept-Encoding: gzip', while one without any coding could
not be excluded by 'identity;q=0'. A representation with several codings was
acceptable once any of them was, and explicit codings did not take precedence
over the wildcard.
---
 internal/header/accept_encoding.go | 44 ++++++++++++++++++++++++++++++
 internal/header/quality_value.go   |  3 ++
 proactive/apache_httpd.go          | 11 ++------
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fd749b8..c8b7dbd 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -68,6 +68,50 @@ func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
 	return e
 }
 
+// MostSpecific retrieves the most specific content coding range that is
+// compatible with the provided content coding, which is the one that determines
+// its quality. The wildcard only matches codings not mentioned elsewhere.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.4
+func (e AcceptEncoding) MostSpecific(coding string) (cr ContentCodingRange, ok bool) {
+	for _, r := range e.CodingRanges() {
+		if r.Compatible(coding) && (!ok || (cr.IsWildcard() && !r.IsWildcard())) {
+			cr, ok = r, true
+		}
+	}
+	return
+}
+
+// Quality determines the quality of a representation having the provided
+// content codings, each of which has to be acceptable. A representation without
+// any coding, i.e. having the identity coding, is the least preferred but
+// acceptable when it isn't mentioned.
+//
+// https://tools.ietf.org/html/rfc7231#section-5.3.4
+func (e AcceptEncoding) Quality(codings ...string) QualityValue {
+	lowest, encoded := QualityValueMaximum, false
+	for _, c := range codings {
+		if strings.EqualFold(c, identity) {
+			continue
+		}
+		encoded = true
+		cr, ok := e.MostSpecific(c)
+		if !ok {
+			return QualityValueMinimum
+		}
+		if cr.QualityValue().LessThan(lowest) {
+			lowest = cr.QualityValue()
+		}
+	}
+	if encoded {
+		return lowest
+	}
+	if cr, ok := e.MostSpecific(identity); ok {
+		return cr.QualityValue()
+	}
+	return QualityValueLeast
+}
+
 // IsEmpty indicates if the Accept-Encoding header is empty.
 func (e AcceptEncoding) IsEmpty() bool {
 	return len(e) == len(EmptyAcceptEncoding)
diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index 091995e..1d2f98e 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -34,6 +34,9 @@ const (
 	// QualityValueMinimum represents the minimum allowed quality value.
 	QualityValueMinimum QualityValue = 0.0
 
+	// QualityValueLeast represents the least preferred quality value.
+	QualityValueLeast QualityValue = 0.001
+
 	// QualityValueMaximum represents the maximum allowed quality value.
 	QualityValueMaximum QualityValue = 1.0
 
diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index fbe8807..18c779b 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -345,17 +345,10 @@ func (c httpd) acceptEncodingQuality(
 	rep representation.Representation,
 	acceptEncoding header.AcceptEncoding,
 ) header.QualityValue {
-	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
+	if acceptEncoding.IsEmpty() {
 		return header.QualityValueMaximum
 	}
-	for _, c := range acceptEncoding.CodingRanges() {
-		for _, e := range rep.ContentEncoding() { // TODO(FREER)
-			if c.Compatible(e) {
-				return c.QualityValue()
-			}
-		}
-	}
-	return header.QualityValueMinimum
+	return acceptEncoding.Quality(rep.ContentEncoding()...)
 }
 
 type hwl struct {
-- 
2.43.0


From 4e1ff03b3aea869ec6e059e21897cb48eec4581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 13/39] fix: let the content coding wildcard match any coding

Representations with a coding that is not built in, provided for through
SetEncodingWriters, were eliminated by 'Accept-Encoding: *'.
---
 internal/header/content_coding_range.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 4eeba72..67658ab 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -127,9 +127,6 @@ func (cc ContentCodingRange) CodingRange() string {
 // Compatible determines if the provided content coding is compatible with the
 // content coding range.
 func (cc ContentCodingRange) Compatible(coding string) bool {
-	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {
-		return false
-	}
 	if cc.IsWildcard() {
 		return true
 	}
-- 
2.43.0


From 0089b5601c5e7be6c425a08c4000d0474e2aeff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 14/39] fix: negotiate representations that lack metadata

A representation without a language was never acceptable, one without a charset
not when there was an Accept-Charset, and one without a media type failed
negotiation. The httpd algorithm regards missing metadata as acceptable.
---
 proactive/apache_httpd.go |  4 ++++
 proactive/proactive.go    | 31 +++++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 18c779b..f902a1f 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -257,6 +257,10 @@ var (
 	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
 		var htmlWithLevel []hwl
 		for _, v := range variants {
+			// variants without a media type do not have a level.
+			if v.ContentType() == "" {
+				continue
+			}
 			mt, p, err := mime.ParseMediaType(v.ContentType())
 			if err != nil {
 				return nil, err
diff --git a/proactive/proactive.go b/proactive/proactive.go
index 543b552..8e121fa 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -193,23 +193,30 @@ func (n Negotiator) Negotiate(
 		}
 	}
 	for _, r := range reps {
+		// representations are acceptable with regards to metadata they lack.
 		var c bool
-		if c, err = accept.Compatible(r.ContentType()); err != nil {
-			return err
-		} else if !c {
-			ac++
+		if ct := r.ContentType(); ct != "" {
+			if c, err = accept.Compatible(ct); err != nil {
+				return err
+			} else if !c {
+				ac++
+			}
 		}
 
-		if c, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
-			return err
-		} else if !c {
-			alc++
+		if cl := r.ContentLanguage(); cl != "" {
+			if c, err = acceptLanguage.Compatible(cl); err != nil {
+				return err
+			} else if !c {
+				alc++
+			}
 		}
 
-		if c, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
-			return err
-		} else if !c {
-			acc++
+		if cc := r.ContentCharset(); cc != "" {
+			if c, err = acceptCharset.Compatible(cc); err != nil {
+				return err
+			} else if !c {
+				acc++
+			}
 		}
 	}
 	if len(reps) == ac && n.strictAccept {
-- 
2.43.0


From a06c6d7d685f43a83e9cd02180ac203906bbbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 15/39] fix: let the language wildcard match any language

Content-Language may list several language tags, and such a representation was
not acceptable even without an Accept-Language header.
---
 internal/header/language_range.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index 3583867..b0a02f0 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -105,13 +105,13 @@ func (lr LanguageRange) QualityValue() QualityValue {
 // Compatible determines if the provided language tag is compatible with
 // the language range.
 func (lr LanguageRange) Compatible(tag string) bool {
+	if lr.IsWildcard() {
+		return true
+	}
 	_, err := language.Parse(tag)
 	if err != nil {
 		return false
 	}
-	if lr.IsWildcard() {
-		return true
-	}
 	m := language.NewMatcher([]language.Tag{language.Und, lr.tag})
 	// _, i, _ := m.Match(t)
 	_, i := language.MatchStrings(m, tag)
-- 
2.43.0


From b097eadfcc380e796d7e98f90d46f0f3fef44887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 16/39] fix: disregard unmatched headers when strict mode is
 disabled

DisableStrictAccept and the like document that a 406 is not returned when none
of the representations are acceptable for the header, but the default algorithm
then eliminated all of them, resulting in a 406 regardless.
---
 proactive/proactive.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index 8e121fa..e871858 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -238,6 +238,24 @@ func (n Negotiator) Negotiate(
 		return err
 	}
 
+	if rep == nil {
+		// without strict mode, the headers that none of the representations
+		// are acceptable for are disregarded.
+		r := ctx.Request.Clone(ctx.Request.Context())
+		for h, unmatched := range map[string]int{
+			"Accept": ac, "Accept-Language": alc, "Accept-Charset": acc,
+		} {
+			if unmatched == len(reps) {
+				r.Header.Del(h)
+			}
+		}
+		if len(r.Header) < len(ctx.Request.Header) {
+			if rep, err = n.chooser.Choose(r, reps...); err != nil {
+				return err
+			}
+		}
+	}
+
 	if rep == nil {
 		return n.notAcceptable(ctx, reps...)
 	}
-- 
2.43.0


From df02478977039bd4df7332f2ddef8dbaf18e4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 17/39] fix: respect Accept when choosing the 406
 representation

The list representations had a source quality of zero, so they ranked the same
whichever of their media types was preferred.
---
 proactive/proactive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index e871858..a0f6a7e 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -67,6 +67,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -77,6 +78,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
@@ -87,6 +89,7 @@ var (
 		list.SetContentCharset("ascii")
 		list.SetContentEncoding([]string{"identity"})
 		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
 		list.SetRepresentations(reps...)
 		return &list
 	}
-- 
2.43.0


From e507827a391ff249bff3551b1fd7f6601a91d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 18/39] fix: offer the documented text/yaml 406 representation

---
 proactive/proactive.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proactive/proactive.go b/proactive/proactive.go
index a0f6a7e..2526881 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -93,6 +93,17 @@ var (
 		list.SetRepresentations(reps...)
 		return &list
 	}
+
+	textYAMLList = func(reps ...representation.Representation) representation.Representation {
+		list := representation.List{}
+		list.SetContentType("text/yaml")
+		list.SetContentCharset("ascii")
+		list.SetContentEncoding([]string{"identity"})
+		list.SetContentLanguage("en-US")
+		list.SetSourceQuality(representation.SourceQualityPerfect)
+		list.SetRepresentations(reps...)
+		return &list
+	}
 )
 
 // Negotiator represents the negotiator responsible for performing
@@ -126,6 +137,7 @@ func New(options ...Option) Negotiator {
 			jsonList,
 			xmlList,
 			yamlList,
+			textYAMLList,
 		},
 	}
 	// apply options.
-- 
2.43.0


From 8ebf4e3c8cb9b689a567a21fdaeb57a44c265b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 19/39] fix: don't count 204 responses as multiple choices

---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From 4780a5194f1080859118ed0968923adbffebd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 20/39] fix: respond with 204 when there is nothing to
 negotiate transparently

Like the other negotiators do; the list response panicked.
---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..94473e0 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From eea472f138e379269dbcfcd4c77b653822b4e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 21/39] fix: disregard the query when determining neighboring
 variants

A variant is a neighbor when the URLs are the same up to the last slash, but a
choice response was never served for requests having a query.
---
 transparent/transparent.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 94473e0..44dc6a3 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -229,6 +229,8 @@ func (n Negotiator) Negotiate(
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
 				u.Path = u.Path[:lastSlash]
 			}
+			// these are beyond the last slash of the path as well.
+			u.RawPath, u.RawQuery, u.ForceQuery, u.Fragment = "", "", false, ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 065479ad653c1c212d56261e8230ff16405a6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 22/39] fix: use the default port of https when comparing URLs

'https://host' was considered the same as 'https://host:80' and other than
'https://host:443'.
---
 transparent/transparent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 44dc6a3..db8dca2 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -189,7 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
+				port := 80
+				if strings.EqualFold(u.Scheme, "https") {
+					port = 443
+				}
+				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
 			}
 			return u
 		}
-- 
2.43.0


From 5d8b90cd137904b7894c84847ed67d5b35fde0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 23/39] fix: return an error for invalid feature lists rather
 than panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index d7fcc7c..4c9752b 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -182,22 +185,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 45e564e7d85399570531ab9e215ebd039786e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 24/39] fix: retrieve the value of equality feature expressions

'Accept-Features: paper=A4' was read as support for paper having an empty value,
so equality predicates never were true.
---
 internal/header/feature_expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..f972d8d 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,7 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
 	}
 	return
 }
-- 
2.43.0


From 4097dea86e422366e8c381719d69e662caffec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 25/39] fix: add the values provided to an existing feature tag

The loop variable shadowed the values to add, so the existing ones were added
once more instead.
---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From d0a7d27ed7820aba5eff63739f82c325df3b507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 26/39] fix: evaluate open-ended ranges of feature predicates

The range of 'dpi=[300-]' never matched, nor did that of 'dpi=[-300]' for any
value but zero, while a feature without numeric values matched a range that
includes zero.
---
 internal/header/feature_predicate.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..f609c50 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,6 +18,7 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -267,18 +268,21 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
-	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
+	// the range is unbounded where a limit is omitted.
+	low, high := 0, math.MaxInt
+	if w.l != "" {
+		low, _ = strconv.Atoi(w.l.String())
+	}
+	if w.h != "" {
+		high, _ = strconv.Atoi(w.h.String())
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	var highest int
+	highest := -1
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
-			if num > highest {
-				highest = num
-			}
+		if num, err := strconv.Atoi(val.String()); err == nil && num > highest {
+			highest = num
 		}
 	}
 	return highest >= low && highest <= high
-- 
2.43.0


From c7cf3730560263c33c581534b24695317760b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 27/39] fix: accept quality factors on feature predicate bags

'[blex !tables];+1.2-0.5' was taken as a predicate, and thus invalid.
---
 internal/header/feature_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..05c3f65 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,7 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
-- 
2.43.0


From 59923417f1f8a38217dd9b187113e96a271a10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 28/39] fix: encode representations having several content
 encodings

The encodings were applied in reverse, and only the outermost was closed, so the
result was truncated and could not be decoded.
---
 representation/base.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..3c0e10f 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -188,7 +188,10 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
+	// the encodings are listed in the order in which they are applied.
+	var writers []io.WriteCloser
+	for idx := len(encodings) - 1; idx >= 0; idx-- {
+		e := encodings[idx]
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
@@ -196,12 +199,15 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
 			return
 		}
+		writers = append(writers, writer)
 	}
 	if _, err = writer.Write(b); err != nil {
 		return
 	}
-	if err = writer.Close(); err != nil {
-		return
+	for idx := len(writers) - 1; idx >= 0; idx-- {
+		if err = writers[idx].Close(); err != nil {
+			return
+		}
 	}
 	bb = buf.Bytes()
 	return
-- 
2.43.0


From 14fb13a561ac4c1ee165c96d2a0f291a20815b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 29/39] fix: report errors encountered when decoding
 representations

The result of closing the reader replaced them, so corrupt and truncated content
was accepted, and a reader that failed to construct caused a panic.
---
 representation/base.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 3c0e10f..ebda3e1 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -256,11 +256,15 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 			err = ErrUnsupportedContentEncoding
 			return
 		}
-		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
+		var r io.ReadCloser
+		if r, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
+		reader = r
 		defer func() {
-			err = reader.Close()
+			if closeErr := r.Close(); err == nil {
+				err = closeErr
+			}
 		}()
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
-- 
2.43.0


From d636532752a7b7928fa734a2e29800d211705d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 30/39] fix: have the identity encoding leave the other
 encodings in place

Being first it disabled all of the other content encodings, and being anywhere
else it was unsupported.
---
 representation/base.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index ebda3e1..c284457 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -167,8 +167,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		return b, err
 	}
 
-	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
+	if len(r.appliedEncodings()) < 1 {
 		return b, nil
 	}
 
@@ -176,11 +175,22 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	return r.encode(b)
 }
 
+// appliedEncodings retrieves the content encodings that transform the
+// representation, which is all of them except for the identity encoding.
+func (r *Base) appliedEncodings() (encodings []string) {
+	for _, e := range r.ContentEncoding() {
+		if !strings.EqualFold(e, "identity") {
+			encodings = append(encodings, e)
+		}
+	}
+	return
+}
+
 func (r *Base) encode(b []byte) (bb []byte, err error) {
 	var (
 		buf                bytes.Buffer
 		writer             io.WriteCloser = &closeableBuffer{&buf}
-		encodings                         = r.ContentEncoding()
+		encodings                         = r.appliedEncodings()
 		writerConstructors                = defaultEncodingWriters
 	)
 
@@ -227,8 +237,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	}
 
 	// decode.
-	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
+	if len(r.appliedEncodings()) > 0 {
 		if b, err = r.decode(b); err != nil {
 			return
 		}
@@ -242,7 +251,7 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 	var (
 		buf                              = bytes.NewBuffer(b)
 		reader             io.ReadCloser = &closeableBuffer{buf}
-		encodings                        = r.ContentEncoding()
+		encodings                        = r.appliedEncodings()
 		readerConstructors               = defaultEncodingReaders
 	)
 
-- 
2.43.0


From 07777ad31c79e5a4c0ddbfb24bca44608d139253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 31/39] fix: allow for whitespace before the parameters of a
 content type

---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index c284457..03f5bc5 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -156,7 +156,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -230,7 +230,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From 02370784a985c3cb7e50126716c33427f7ffa6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 32/39] fix: allow the Accept and Accept-Encoding headers to be
 empty

---
 internal/header/accept.go               |  4 ++++
 internal/header/accept_encoding.go      | 10 ++++++++++
 internal/header/content_coding_range.go |  6 ++++++
 proactive/proactive.go                  |  9 +++++++++
 4 files changed, 29 insertions(+)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 674f1f6..a775020 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -50,6 +50,10 @@ func NewAccept(accept []string) (Accept, error) {
 	// parse media ranges
 	var mediaRanges []MediaRange
 	for _, m := range splitList(accept) {
+		// the header is allowed to be empty.
+		if m == "" {
+			continue
+		}
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index c8b7dbd..c8c97ac 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -48,12 +48,22 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 	}
 	var contentCodings []ContentCodingRange
 	for _, cc := range splitList(acceptEncoding) {
+		// the header is allowed to be empty.
+		if cc == "" {
+			continue
+		}
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
 		}
 		contentCodings = append(contentCodings, coding)
 	}
+	if len(contentCodings) == 0 {
+		// the user agent does not want any content coding.
+		//
+		// https://tools.ietf.org/html/rfc7231#section-5.3.4
+		contentCodings = append(contentCodings, identityContentCodingRange)
+	}
 	return AcceptEncoding(contentCodings), nil
 }
 
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 67658ab..72a2564 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -55,6 +55,12 @@ var (
 		qValue: QualityValueMaximum,
 	}
 
+	// identityContentCodingRange represents the range of the identity coding.
+	identityContentCodingRange = ContentCodingRange{
+		coding: identity,
+		qValue: QualityValueMaximum,
+	}
+
 	// ErrEmptyContentCodingRange is an error that indicates that the content
 	// coding range cannot be empty.
 	ErrEmptyContentCodingRange = errors.New("content coding range cannot be empty")
diff --git a/proactive/proactive.go b/proactive/proactive.go
index 2526881..c72ceba 100644
--- a/proactive/proactive.go
+++ b/proactive/proactive.go
@@ -196,16 +196,25 @@ func (n Negotiator) Negotiate(
 		if accept, err = header.NewAccept(headerValues); err != nil {
 			return err
 		}
+		if accept.IsEmpty() {
+			accept = header.DefaultAccept
+		}
 	}
 	if headerValues, hasHeader = ctx.Request.Header["Accept-Language"]; hasHeader {
 		if acceptLanguage, err = header.NewAcceptLanguage(headerValues); err != nil {
 			return err
 		}
+		if acceptLanguage.IsEmpty() {
+			acceptLanguage = header.DefaultAcceptLanguage
+		}
 	}
 	if headerValues, hasHeader = ctx.Request.Header["Accept-Charset"]; hasHeader {
 		if acceptCharset, err = header.NewAcceptCharset(headerValues); err != nil {
 			return err
 		}
+		if acceptCharset.IsEmpty() {
+			acceptCharset = header.DefaultAcceptCharset
+		}
 	}
 	for _, r := range reps {
 		// representations are acceptable with regards to metadata they lack.
-- 
2.43.0


From af99dac1e3e8e26a8404c016a452a90eb9c40583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 33/39] fix: keep the brackets of IPv6 hosts when comparing
 URLs

---
 transparent/transparent.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index db8dca2..f7ef8a8 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -17,8 +17,8 @@ package transparent
 
 import (
 	"errors"
-	"fmt"
 	"math"
+	"net"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -189,11 +189,11 @@ func (n Negotiator) Negotiate(
 	sameURL := func(one, two url.URL) bool {
 		normalizePort := func(u url.URL) url.URL {
 			if u.Port() == "" {
-				port := 80
+				port := "80"
 				if strings.EqualFold(u.Scheme, "https") {
-					port = 443
+					port = "443"
 				}
-				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), port)
+				u.Host = net.JoinHostPort(u.Hostname(), port)
 			}
 			return u
 		}
-- 
2.43.0


From 5ab73ea4f27455d9e9e5163f47faf5862ae47325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 34/39] fix: verify all of the encodings when decoding
 representations

---
 representation/base.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/representation/base.go b/representation/base.go
index 03f5bc5..8f73d05 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -259,6 +259,7 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		readerConstructors = r.encodingReaders
 	}
 
+	var readers []io.Reader
 	for idx := len(encodings) - 1; idx >= 0; idx-- {
 		e := encodings[idx]
 		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
@@ -270,6 +271,7 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 			return
 		}
 		reader = r
+		readers = append(readers, reader)
 		defer func() {
 			if closeErr := r.Close(); err == nil {
 				err = closeErr
@@ -279,6 +281,13 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
 	}
+	// some readers stop short of the end of the ones they read from, which
+	// still have to verify what is left, such as a checksum.
+	for idx := len(readers) - 2; idx >= 0; idx-- {
+		if _, err = io.Copy(io.Discard, readers[idx]); err != nil {
+			return
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 4f22cb257843a5118885b41a82ca54f20e5d8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 35/39] fix: replace the contents of lists when deserializing
 them

---
 representation/list.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/representation/list.go b/representation/list.go
index 415975c..ae93c70 100644
--- a/representation/list.go
+++ b/representation/list.go
@@ -58,5 +58,12 @@ func (l List) Bytes() ([]byte, error) {
 
 // FromBytes constructs the list representation from its serialized form.
 func (l *List) FromBytes(b []byte) error {
-	return l.Base.FromBytes(b, l)
+	// start afresh, as unmarshallers retain what they find otherwise. The
+	// metadata of the list itself isn't part of its serialized form.
+	list := List{Base: l.Base}
+	if err := l.Base.FromBytes(b, &list); err != nil {
+		return err
+	}
+	l.Representations = list.Representations
+	return nil
 }
-- 
2.43.0


From 571b0775d6f804d90dbc843c0623b0610988946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 36/39] fix: ignore empty field lines among those of a list
 header

---
 internal/header/list.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/header/list.go b/internal/header/list.go
index e11f5f2..5f79ddc 100644
--- a/internal/header/list.go
+++ b/internal/header/list.go
@@ -19,20 +19,19 @@ import "strings"
 
 // splitList splits each of the provided field values into the comma-separated
 // members they are comprised of. Commas within quoted strings do not separate
-// members, and empty members are ignored. A field value without any members
-// contributes a single empty member.
+// members, and empty members are ignored. Field values without any members at
+// all yield a single empty member.
 //
 // https://tools.ietf.org/html/rfc7230#section-7
 func splitList(values []string) (members []string) {
 	for _, value := range values {
 		var (
-			count, start   int
+			start          int
 			quoted, escape bool
 		)
 		add := func(member string) {
 			if member = strings.TrimSpace(member); member != "" {
 				members = append(members, member)
-				count++
 			}
 		}
 		for i := 0; i < len(value); i++ {
@@ -49,9 +48,9 @@ func splitList(values []string) (members []string) {
 			}
 		}
 		add(value[start:])
-		if count == 0 {
-			members = append(members, "")
-		}
+	}
+	if len(members) == 0 && len(values) > 0 {
+		members = append(members, "")
 	}
 	return members
 }
-- 
2.43.0


From 199ee00eb82baeb4e69de9372d39742650bfb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 37/39] fix: allow for hyphens and dots in feature tags and
 values

---
 internal/header/feature_predicate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index f609c50..cbdd942 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -26,11 +26,11 @@ import (
 
 // Regular expressions to match against the feature predicate grammar.
 var (
-	existsPredicate    = regexp.MustCompile(`^(\w+)$`)
-	absentPredicate    = regexp.MustCompile(`^(!(\w+))$`)
-	equalsPredicate    = regexp.MustCompile(`^(\w+)\s?=\s?(\w+)$`)
-	notEqualsPredicate = regexp.MustCompile(`^(\w+)\s?!=\s?(\w+)$`)
-	rangePredicate     = regexp.MustCompile(`^(\w+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
+	existsPredicate    = regexp.MustCompile(`^([\w.-]+)$`)
+	absentPredicate    = regexp.MustCompile(`^(!([\w.-]+))$`)
+	equalsPredicate    = regexp.MustCompile(`^([\w.-]+)\s?=\s?([\w.-]+)$`)
+	notEqualsPredicate = regexp.MustCompile(`^([\w.-]+)\s?!=\s?([\w.-]+)$`)
+	rangePredicate     = regexp.MustCompile(`^([\w.-]+)\s?=\s?\[\s?(\d+)?\s?-\s?(\d+)?\s?\]$`)
 )
 
 // Errors that can be encountered when interacting with feature predicates.
-- 
2.43.0


From 3d63a5a1d482d1050e260225615e181c779c601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 38/39] fix: tell encoded slashes from actual ones when looking
 for neighbors

---
 transparent/transparent.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index f7ef8a8..72bee71 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -230,11 +230,22 @@ func (n Negotiator) Negotiate(
 	// https://tools.ietf.org/html/rfc2296#section-3.5
 	isNeighbor := func(neighborURL, resourceURL url.URL) bool {
 		trim := func(u url.URL) url.URL {
-			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
-				u.Path = u.Path[:lastSlash]
+			// an encoded slash doesn't separate segments, and equals no slash.
+			segments := strings.Split(u.EscapedPath(), "/")
+			for i, s := range segments {
+				if unescaped, err := url.PathUnescape(s); err == nil {
+					segments[i] = url.PathEscape(unescaped)
+				}
+			}
+			if last := len(segments) - 1; last > 0 {
+				segments = segments[:last]
+			}
+			u.RawPath = strings.Join(segments, "/")
+			if unescaped, err := url.PathUnescape(u.RawPath); err == nil {
+				u.Path = unescaped
 			}
 			// these are beyond the last slash of the path as well.
-			u.RawPath, u.RawQuery, u.ForceQuery, u.Fragment = "", "", false, ""
+			u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 69f61f4826be12e2b8b519c5dc609c7060e26f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 39/39] fix: understand well-formed language ranges having
 unknown subtags

---
 internal/header/accept_language.go |  6 ++++++
 internal/header/language_range.go  | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 53c8dd3..2cf17b3 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -16,6 +16,7 @@
 package header
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 	"strconv"
@@ -89,6 +90,11 @@ func parseLanguageRange(l string) (lr LanguageRange, ok bool, err error) {
 		return lr, true, nil
 	}
 	tags, _, err := language.ParseAcceptLanguage(r)
+	if errors.As(err, new(language.ValueError)) {
+		// the range is well-formed but mentions an unknown subtag.
+		lr.lrange, lr.tag = r, language.Und
+		return lr, true, nil
+	}
 	if err != nil || len(tags) == 0 {
 		return lr, false, err
 	}
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index b0a02f0..0d2aa36 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -108,6 +108,9 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	if lr.IsWildcard() {
 		return true
 	}
+	if includesTag(lr.lrange, tag) {
+		return true
+	}
 	_, err := language.Parse(tag)
 	if err != nil {
 		return false
@@ -118,6 +121,15 @@ func (lr LanguageRange) Compatible(tag string) bool {
 	return i != 0
 }
 
+// includesTag determines if the language range equals the language tag,
+// or is a prefix of it that ends at a subtag.
+func includesTag(lrange, tag string) bool {
+	if len(tag) > len(lrange) && tag[len(lrange)] == '-' {
+		tag = tag[:len(lrange)]
+	}
+	return strings.EqualFold(lrange, tag)
+}
+
 // specificity determines how specific the language range is for the provided
 // language tag. A range that is a prefix of the tag is more specific the longer
 // it is, and always more so than the wildcard. A range that is merely close to
@@ -126,12 +138,14 @@ func (lr LanguageRange) specificity(tag string) int {
 	if lr.IsWildcard() {
 		return 1
 	}
+	if includesTag(lr.lrange, tag) {
+		return 1 + len(lr.lrange)
+	}
 	t, err := language.Parse(tag)
 	if err != nil {
 		return 0
 	}
-	r := lr.Tag()
-	if t.String() == r || strings.HasPrefix(t.String(), r+"-") {
+	if r := lr.Tag(); includesTag(r, t.String()) {
 		return 1 + len(r)
 	}
 	return 0
-- 
2.43.0

