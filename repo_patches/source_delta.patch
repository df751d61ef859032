From 1dacbc8fc8560344ba34bc133b3adc9c92774ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 01/34] fix: keep a repeated pattern unanchored before the last
 segment

The last segment's regexp was anchored in place, although the value-pattern
is shared by the repeated segments, so templates like {a:\d}x{a} never
matched.
---
 template.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..624bc30 100755
--- a/template.go
+++ b/template.go
@@ -1010,13 +1010,16 @@ func parse(tmplStr string) (
 	var vp = tmplSlcs[lastIdx].valuePattern
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
-		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		// must be modified to match the end of the string. The preceding
+		// segments may share the value-pattern, so they must not be affected.
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 7f6bd64412b53766f31b9ce9a67568d899685de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 02/34] fix: return the passed values as is when a template
 doesn't match

Match returned the values of the segments that had matched before the
failing one, so they leaked into the values of sibling resources.
---
 template.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 624bc30..cb36348 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,8 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	var passedValues = values
+
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +446,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +455,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +467,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -475,7 +477,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +486,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +498,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -513,7 +515,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, passedValues
 		}
 	}
 
-- 
2.43.0


From 1283ffe0f61c6a0a7d5521e401a9f19c63059632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 03/34] fix: reject values that only partly match their pattern

TryToApply accepted a value when its match started at the beginning or
ended at the end, instead of requiring both.
---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index cb36348..9fa6b95 100755
--- a/template.go
+++ b/template.go
@@ -542,7 +542,7 @@ func (t *Template) TryToApply(
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
 				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From 537ed5b85ef144a0a136179ff64957b38ede4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 04/34] fix: don't count '{' inside a character class as an
 open curly brace

A pattern like [{] is a valid regexp, but the template was rejected as
incomplete. The '}' inside of a character class is already ignored.
---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 9fa6b95..e35c849 100755
--- a/template.go
+++ b/template.go
@@ -735,7 +735,7 @@ func dynamicSegment(tmplStrSlc string) (
 
 	for i, idx, chClsIdx := 1, 1, -1; i < ltmplStrSlc; i++ {
 		var ch = tmplStrSlc[i]
-		if ch == '{' {
+		if ch == '{' && chClsIdx < 0 {
 			depth++
 			continue
 		}
-- 
2.43.0


From d694b18466fe1439658805bc210c8cceba5062d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 05/34] fix: anchor the whole pattern when it has an
 alternation

The anchors were added to the pattern as is, so they applied only to the
first or last alternative: {c:red|green} matched "lightgreen" and
{n:5|10}_days matched "110_days".
---
 template.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index e35c849..47e1a11 100755
--- a/template.go
+++ b/template.go
@@ -854,6 +854,44 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// hasAlternation returns true if the pattern has an alternation that isn't
+// enclosed in a group.
+func hasAlternation(pattern string) bool {
+	var depth, chClsIdx = 0, -1
+	for i, lpattern := 0, len(pattern); i < lpattern; i++ {
+		switch ch := pattern[i]; {
+		case ch == '\\':
+			i++
+		case chClsIdx >= 0:
+			var d = i - chClsIdx
+			if ch == ']' && d > 1 && !(d == 2 && pattern[i-1] == '^') {
+				chClsIdx = -1
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			depth--
+		case ch == '|' && depth == 0:
+			return true
+		}
+	}
+
+	return false
+}
+
+// anchorablePattern returns the pattern in a form that can be anchored. If the
+// pattern has an alternation, it's enclosed in a group. Otherwise, an anchor
+// would apply only to one of the alternatives.
+func anchorablePattern(pattern string) string {
+	if hasAlternation(pattern) {
+		return "(?:" + pattern + ")"
+	}
+
+	return pattern
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -871,6 +909,7 @@ func appendDynamicSegmentTo(
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
+			pattern = anchorablePattern(pattern)
 			if wildcardIdx >= 0 {
 				pattern += "$"
 			} else {
@@ -934,13 +973,20 @@ func appendDynamicSegmentTo(
 		return tss, valuePatterns, wildcardIdx, nil
 	}
 
+	// The pattern must be valid by itself, not only when it's in a group.
+	var re, err = regexp.Compile(pattern)
+	if err != nil {
+		return tss, valuePatterns, wildcardIdx, err
+	}
+
+	pattern = anchorablePattern(pattern)
 	if wildcardIdx >= 0 {
 		pattern += "$"
 	} else {
 		pattern = "^" + pattern
 	}
 
-	var re, err = regexp.Compile(pattern)
+	re, err = regexp.Compile(pattern)
 	if err != nil {
 		return tss, valuePatterns, wildcardIdx, err
 	}
-- 
2.43.0


From eee2d8243734f218c1ec909eb78987676f5e2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 06/34] fix: don't anchor an already anchored pattern again

The string of a template has the patterns with their anchors. Parsing it gave
a different template, e.g. {a:^\d}{w}{a} never matched what {a:\d}{w}{a}
matches, and it wasn't similar to the original.
---
 template.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/template.go b/template.go
index 47e1a11..d957797 100755
--- a/template.go
+++ b/template.go
@@ -892,6 +892,34 @@ func anchorablePattern(pattern string) string {
 	return pattern
 }
 
+// anchorAtBeginning anchors the pattern to the beginning of the string, unless
+// it's already anchored. The string of a parsed template has the patterns with
+// their anchors.
+func anchorAtBeginning(pattern string) string {
+	pattern = anchorablePattern(pattern)
+	if strings.HasPrefix(pattern, "^") &&
+		(len(pattern) == 1 || pattern[1] != '?' && pattern[1] != '*') {
+		return pattern
+	}
+
+	return "^" + pattern
+}
+
+// anchorAtEnd anchors the pattern to the end of the string, unless it's already
+// anchored.
+func anchorAtEnd(pattern string) string {
+	pattern = anchorablePattern(pattern)
+	if p := strings.TrimSuffix(pattern, "$"); len(p) < len(pattern) {
+		// If the number of backslashes before the "$" sign is odd, the sign is
+		// escaped.
+		if (len(p)-len(strings.TrimRight(p, `\`)))%2 == 0 {
+			return pattern
+		}
+	}
+
+	return pattern + "$"
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -909,11 +937,10 @@ func appendDynamicSegmentTo(
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
-			pattern = anchorablePattern(pattern)
 			if wildcardIdx >= 0 {
-				pattern += "$"
+				pattern = anchorAtEnd(pattern)
 			} else {
-				pattern = "^" + pattern
+				pattern = anchorAtBeginning(pattern)
 			}
 
 			if pattern != vp.re.String() {
@@ -959,7 +986,7 @@ func appendDynamicSegmentTo(
 		// string from the end to the wildcard segment.
 		for _, vp := range valuePatterns {
 			var p = vp.re.String()
-			p = p[1:] + "$"
+			p = anchorAtEnd(p[1:])
 
 			var re, err = regexp.Compile(p)
 			if err != nil {
@@ -979,11 +1006,10 @@ func appendDynamicSegmentTo(
 		return tss, valuePatterns, wildcardIdx, err
 	}
 
-	pattern = anchorablePattern(pattern)
 	if wildcardIdx >= 0 {
-		pattern += "$"
+		pattern = anchorAtEnd(pattern)
 	} else {
-		pattern = "^" + pattern
+		pattern = anchorAtBeginning(pattern)
 	}
 
 	re, err = regexp.Compile(pattern)
@@ -1061,7 +1087,7 @@ func parse(tmplStr string) (
 		// must be modified to match the end of the string. The preceding
 		// segments may share the value-pattern, so they must not be affected.
 		var re *regexp.Regexp
-		re, err = regexp.Compile(vp.re.String() + "$")
+		re, err = regexp.Compile(anchorAtEnd(vp.re.String()))
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
-- 
2.43.0


From 708ad95b8742e480c3708eecc0b382f1153c1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 07/34] fix: reject a pattern segment that has the wildcard
 segment's name

{a}{a:\d} was accepted although {a:\d}{w}{w} and {a}{a} aren't, and both
values were returned under the same name.
---
 template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/template.go b/template.go
index d957797..e2a92fc 100755
--- a/template.go
+++ b/template.go
@@ -1000,6 +1000,14 @@ func appendDynamicSegmentTo(
 		return tss, valuePatterns, wildcardIdx, nil
 	}
 
+	if wildcardIdx >= 0 && vName == tss[wildcardIdx].valuePattern.name {
+		return tss, valuePatterns, wildcardIdx, newErr(
+			"%w %q",
+			ErrRepeatedWildcardName,
+			vName,
+		)
+	}
+
 	// The pattern must be valid by itself, not only when it's in a group.
 	var re, err = regexp.Compile(pattern)
 	if err != nil {
-- 
2.43.0


From 5ece97798647188c6244f0dde48a5b27a4c2faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 08/34] fix: keep the leading backslash when a template is
 printed

The template "$:\$x" doesn't have a name and its static segment starts with
a backslash, but its string was parsed as an escaped "$" sign.
---
 template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template.go b/template.go
index e2a92fc..f51c51c 100755
--- a/template.go
+++ b/template.go
@@ -598,6 +598,10 @@ func (t *Template) String() string {
 		}
 
 		strb.WriteByte(':')
+	} else if len(t.slices) != 0 &&
+		strings.HasPrefix(t.slices[0].staticStr, `\$`) {
+		// Without the empty name, the backslash would escape the "$" sign.
+		strb.WriteString("$:")
 	}
 
 	strb.WriteString(t.Content())
-- 
2.43.0


From f03aca5cb588941495f7fdfb0fe3aaa0a95a379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 09/34] fix: don't print a template name that can't be parsed
 back

The name of {a\} comes from its wildcard segment. It was printed as $a\:{a\}
where the backslash escapes the colon, and the string couldn't be parsed.
---
 template.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index f51c51c..2937354 100755
--- a/template.go
+++ b/template.go
@@ -582,7 +582,11 @@ func (t *Template) Apply(values TemplateValues, ignoreMissing bool) string {
 // repeated regexp segments starting from the second repetition.
 func (t *Template) String() string {
 	var strb = strings.Builder{}
-	if t.name != "" {
+	if strings.HasSuffix(t.name, `\`) {
+		// The backslash would escape the colon ":" after the name. A name like
+		// this comes from the dynamic segment, so it doesn't have to be written.
+		strb.WriteString("$:")
+	} else if t.name != "" {
 		strb.WriteByte('$')
 		var str = t.name
 		for len(str) > 0 {
-- 
2.43.0


From 14d2b9a88b22399137913d712cfbced4960fa577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 10/34] fix: escape the remaining path when the request has no
 raw path

RemainingPath is documented to be escaped, and it's appended to the target
of configured redirects, but the decoded path was returned when the default
encoding of the path equals its raw form.
---
 utils.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils.go b/utils.go
index 65ed7a6..768248a 100755
--- a/utils.go
+++ b/utils.go
@@ -518,6 +518,16 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var remainingPath = args.remainingPath()
+	if args.rawPath {
+		return remainingPath
+	}
+
+	return (&url.URL{Path: remainingPath}).EscapedPath()
+}
+
+// remainingPath returns the remaining path as it is in the request's path.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From bc7ab1b863ff9d8fcef19a4afa6358c43861e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 11/34] fix: redirect to the clean path of a request that has a
 raw path

The redirect URLs of the unclean path and trailing slash redirects kept the
request's raw path or took the escaped path as the unescaped one.
---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 12 ++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..4910512 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setURLPath(newURL, args.path)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				args.setURLPath(newURL, args.path+"/")
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				args.setURLPath(newURL, args.path[:len(args.path)-1])
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..57632fe 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setURLPath(newURL, args.path)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			args.setURLPath(newURL, args.path+"/")
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			args.setURLPath(newURL, args.path[:len(args.path)-1])
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 768248a..5f4a50d 100755
--- a/utils.go
+++ b/utils.go
@@ -509,6 +509,18 @@ func (args *Args) pathHasTrailingSlash() bool {
 
 // -------------------------
 
+// setURLPath sets the path of the URL that's going to be redirected to. The path
+// must have the form of the args' path, which is escaped if the request has a
+// raw path.
+func (args *Args) setURLPath(newURL *url.URL, path string) {
+	newURL.Path, newURL.RawPath = path, ""
+	if args.rawPath {
+		if p, err := url.PathUnescape(path); err == nil {
+			newURL.Path, newURL.RawPath = p, path
+		}
+	}
+}
+
 // HostPathValues returns the host and path values of the request's URL.
 func (args *Args) HostPathValues() HostPathValues {
 	return args.hostPathValues
-- 
2.43.0


From d5a4e858d888521031b1217a0032205747790913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 12/34] fix: report the outcome of each request in the
 converted middleware

Mw kept whether the next handler was called for all requests together, so a
request that the middleware answered itself was reported with the outcome of
an earlier request's responders, and concurrent requests raced on it.
---
 middleware.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..66624d4 100755
--- a/middleware.go
+++ b/middleware.go
@@ -17,12 +17,10 @@ type Middleware func(next Handler) Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
 			},
 		)
 
@@ -31,13 +29,13 @@ func Mw(mw func(http.Handler) http.Handler) Middleware {
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
 			var c = context.WithValue(r.Context(), argsKey, args)
 			r = r.WithContext(c)
-			h.ServeHTTP(w, r)
 
-			if nextHasBeenCalled {
-				return args.handled
-			}
+			// If the middleware doesn't call the next handler, it means that
+			// the middleware has handled the request itself.
+			args.handled = true
+			h.ServeHTTP(w, r)
 
-			return true
+			return args.handled
 		}
 	}
 }
-- 
2.43.0


From a6c334e34921657cf4269964fd38b02a38e69507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 13/34] fix: don't leave the values of the responders below to
 a subtree handler

A subtree handler that handles a request that couldn't be handled below it saw
the host path values of the resources which the request was passed to.
---
 host.go     | 5 ++++-
 resource.go | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/host.go b/host.go
index 4910512..460b535 100755
--- a/host.go
+++ b/host.go
@@ -280,13 +280,16 @@ func (hb *Host) handleOrPassRequest(
 			args.subtreeExists = true
 		}
 
+		var hpVs = args.hostPathValues
 		args.nextPathSegment() // First call returns '/'.
 		if hb.requestPasser(w, r, args) {
 			return true
 		}
 
-		// Here the host must be set again because it may have been changed.
+		// Here the host and values must be set again because they may have
+		// been changed.
 		args._r = hb.derived
+		args.hostPathValues = hpVs
 
 		if !hb.IsSubtreeHandler() {
 			// Unreachable.
diff --git a/resource.go b/resource.go
index 57632fe..fff878a 100755
--- a/resource.go
+++ b/resource.go
@@ -421,6 +421,7 @@ func (rb *Resource) handleOrPassRequest(
 	if !args.reachedTheLastPathSegment() {
 		lastSegment = false
 
+		var hpVs = args.hostPathValues
 		if rb.requestPasser(w, r, args) {
 			return true
 		}
@@ -430,6 +431,7 @@ func (rb *Resource) handleOrPassRequest(
 		}
 
 		args._r = rb.derived
+		args.hostPathValues = hpVs
 	}
 
 	if !rb.canHandleRequest() && rb.requestRedirector == nil {
-- 
2.43.0


From 998a5c2852e1aa5d135301c60f219a74e0092897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 14/34] fix: apply the host's trailing slash policy to one
 character segments

A subtree host with a trailing slash handled the path "/a" as if it had one.
---
 host.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/host.go b/host.go
index 460b535..836afb5 100755
--- a/host.go
+++ b/host.go
@@ -322,9 +322,8 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
-		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		// The trailing slash properties don't apply to the root path.
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From 134d9402c0da9d0fc08dae0286705eed7099a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 15/34] fix: set the router as the parent of the root resource
 it creates

Router returned nil for the responders below a root resource that was created
by the router itself. A replaced root resource kept the router as its parent.
---
 router.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router.go b/router.go
index 568d8e5..d4ae6b7 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
@@ -1329,6 +1330,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From 6927cd7b6cdc23609e0ba009089bb1e8328263e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 16/34] fix: don't register another host with the same name

The name of a host that is created along with its resources wasn't compared to
the names of the registered hosts.
---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index d4ae6b7..eac4f0a 100755
--- a/router.go
+++ b/router.go
@@ -82,6 +82,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 			}
 
 			if newFirst != nil {
+				if newHost && ro.HostNamed(_r.Name()) != nil {
+					return nil, newErr("%w", errDuplicateNameAmongSiblings)
+				}
+
 				newLast.configure(secure, tslash, nil)
 
 				_r.registerResource(newFirst)
@@ -1408,6 +1412,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 		_r = ro.r
 	}
 
+	if newHost && ro.HostNamed(_r.Name()) != nil {
+		panicWithErr("%w", errDuplicateNameAmongSiblings)
+	}
+
 	if err := _r.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1547,6 +1555,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		_r = ro.r
 	}
 
+	if newHost && ro.HostNamed(_r.Name()) != nil {
+		panicWithErr("%w", errDuplicateNameAmongSiblings)
+	}
+
 	if err = _r.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
-- 
2.43.0


From a3793c586edcba765fd9546b6b3991cde03a31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 17/34] fix: configure the existing dormant host when it's
 asked for

Router.Host and Router.HostUsingConfig panicked when the host was created by
the router itself for a resource below it.
---
 router.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index eac4f0a..0e11838 100755
--- a/router.go
+++ b/router.go
@@ -896,7 +896,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -947,7 +951,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
-- 
2.43.0


From 8816d11492119108180ed1f8db68aecfaaebbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 18/34] fix: return the existing dormant resource from
 Router.RegisteredResource

It panicked when the resource was created for the resources below it, while
the hosts and resources return it, as Router.RegisteredHost does.
---
 router.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 0e11838..e0f10f5 100755
--- a/router.go
+++ b/router.go
@@ -1656,7 +1656,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From 1ecad891c9a1f2d3043df74dc4404b2a7cb61a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 19/34] fix: reject the URL templates with an empty last path
 segment

Path templates like "/a//" and "/a//b" were accepted as if they were "/a/" and
"/a/b". When the router was asked for the root resource with "//", the root
resource was configured to have a trailing slash and redirected the requests
to itself endlessly.
---
 responder.go |  2 +-
 utils.go     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/responder.go b/responder.go
index 9e12017..02ab769 100755
--- a/responder.go
+++ b/responder.go
@@ -662,7 +662,7 @@ func (rb *_ResponderBase) registeredResource(
 		_r = r
 	}
 
-	if psi.remainingPath() != "" {
+	if psi.path != "" {
 		return nil, false, newErr("%w", errEmptyPathSegmentTemplate)
 	}
 
diff --git a/utils.go b/utils.go
index 5f4a50d..aac4416 100755
--- a/utils.go
+++ b/utils.go
@@ -196,6 +196,12 @@ func splitHostAndPath(urlTmplStr string) (
 		if pathTmplStr[lastIdx] == '/' {
 			tslash = true
 			pathTmplStr = pathTmplStr[:lastIdx]
+			if pathTmplStr == "/" && hostTmplStr == "" {
+				// The root has no trailing slash property.
+				tslash = false
+			} else if pathTmplStr[lastIdx-1] == '/' {
+				return "", "", false, false, errEmptyPathSegmentTemplate
+			}
 		}
 	}
 
@@ -231,6 +237,10 @@ func splitURL(urlTmplStr string) (
 	}
 
 	prefixPathTmplStr = urlTmplStr[:idx]
+	if idx > 0 && urlTmplStr[idx-1] == '/' {
+		return "", "", "", false, false, errEmptyPathSegmentTemplate
+	}
+
 	resourceTmplStr = slashDecoderRe.ReplaceAllLiteralString(
 		urlTmplStr[idx+1:],
 		"/",
@@ -296,7 +306,7 @@ func splitPathSegments(path string) (
 		pss = append(pss, ps)
 	}
 
-	if len(pss) == 0 || psi.remainingPath() != "" {
+	if len(pss) == 0 || psi.path != "" {
 		err = errEmptyPathSegmentTemplate
 		return
 	}
-- 
2.43.0


From 0743cc1f15b20e585dfac4374e979821ae5b98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 20/34] fix: don't give the router's root resource trailing
 slash properties

Router.ResourceUsingConfig and Router.SetConfigurationAt created a root resource
with the trailing slash properties of the config, with which it redirected the
requests to itself endlessly.
---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index e0f10f5..80f6919 100755
--- a/router.go
+++ b/router.go
@@ -1251,6 +1251,18 @@ func (ro *Router) ResourceUsingConfig(
 		panicWithErr("%w", errConflictingSecurity)
 	}
 
+	if hTmplStr == "" && pTmplStr == "/" {
+		// The root resource has no trailing slash properties.
+		config.HasTrailingSlash = false
+		config.LenientOnTrailingSlash = false
+		config.StrictOnTrailingSlash = false
+
+		if config.HandlesThePathAsIs {
+			config.LenientOnUncleanPath = true
+			config.HandlesThePathAsIs = false
+		}
+	}
+
 	var _r _Responder
 	var newHost bool
 	if hTmplStr != "" {
-- 
2.43.0


From 1c3dbbb3c53d5a28b1eb830d5b51bdc57d124336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 21/34] fix: build the URLs with the unescaped texts and
 escaped slashes

The URL of a responder had the escape characters of its static template, and a
slash or a dot segment in a value became a part of the path, so the URL led to
another responder.
---
 utils.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index aac4416..ca10482 100755
--- a/utils.go
+++ b/utils.go
@@ -335,7 +335,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -348,7 +348,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
@@ -361,12 +361,30 @@ loop:
 		}
 	}
 
-	var strb = strings.Builder{}
+	var (
+		strb    = strings.Builder{}
+		rawStrb = strings.Builder{}
+		raw     bool
+	)
+
 	for i := len(pss) - 1; i > -1; i-- {
 		strb.WriteByte('/')
 		strb.WriteString(pss[i])
+
+		// A slash or a dot segment would be taken as a part of the path if
+		// it isn't escaped.
+		rawStrb.WriteByte('/')
+		switch ps := pss[i]; {
+		case ps == "." || ps == "..":
+			raw = true
+			rawStrb.WriteString(strings.ReplaceAll(ps, ".", "%2E"))
+		default:
+			raw = raw || strings.IndexByte(ps, '/') >= 0
+			rawStrb.WriteString(url.PathEscape(ps))
+		}
 	}
 
+	var lpath = strb.Len()
 	switch rr := _r.(type) {
 	case *Resource:
 		if (rr.HasTrailingSlash() && !rr.isRoot()) ||
@@ -384,7 +402,12 @@ loop:
 		scheme = "https"
 	}
 
-	return &url.URL{Scheme: scheme, Host: host, Path: strb.String()}, nil
+	var u = &url.URL{Scheme: scheme, Host: host, Path: strb.String()}
+	if raw {
+		u.RawPath = rawStrb.String() + u.Path[lpath:]
+	}
+
+	return u, nil
 }
 
 // --------------------------------------------------
-- 
2.43.0


From 7482cf94cfb8654a6bcb46679d16c30636826144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 22/34] fix: find the static hosts by their unescaped templates

A request to a static host with an escaped character in its template wasn't
passed to the host.
---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 80f6919..ce42662 100755
--- a/router.go
+++ b/router.go
@@ -736,7 +736,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -775,7 +775,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -811,7 +811,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
-- 
2.43.0


From d1114bf8e0847ed4e99ad8467fca554f88b4708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 23/34] fix: let the resources with prefix segments be
 registered below a root

The root resource of the responder was compared to the first prefix segment of
the argument resource, so the registration was always rejected.
---
 responder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 02ab769..a6c008f 100755
--- a/responder.go
+++ b/responder.go
@@ -522,7 +522,12 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 	}
 
 	var lresources = len(resources)
-	if _, ok := resources[0].(*Host); ok {
+	var _, hostOrRoot = resources[0].(*Host)
+	if r, ok := resources[0].(*Resource); ok {
+		hostOrRoot = r.isRoot()
+	}
+
+	if hostOrRoot {
 		if lresources == 1 {
 			if pathTmplStr == "" || pathTmplStr == "/" {
 				return "", nil
-- 
2.43.0


From 654b0d43e160c874d1c534ef319df3f3bcfa9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 24/34] fix: reject the prefix path that conflicts with the
 resource's own

RegisterResourceUnder ignored the prefix segments of the resource's URL template
when the argument prefix wasn't a part of them or was the root, and registered
the resource at a different place than its template says. A prefix without a
leading slash was rejected even when it was the same.
---
 responder.go | 13 ++++++++-----
 router.go    |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/responder.go b/responder.go
index a6c008f..b214edf 100755
--- a/responder.go
+++ b/responder.go
@@ -1262,15 +1262,18 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 			}
 		}
 
-		if lpp > lurltPp {
-			panicWithErr("%w", errConflictingPath)
+		var pp = urlt.PrefixPath
+		if pp != "" && pp[0] != '/' {
+			pp = "/" + pp
+			lurltPp++
 		}
 
-		var pp = urlt.PrefixPath
-		if strings.HasSuffix(urlt.PrefixPath, prefixPath) {
-			pp = urlt.PrefixPath[:lurltPp-lpp]
+		if lpp > lurltPp || !strings.HasSuffix(pp, prefixPath) {
+			panicWithErr("%w", errConflictingPath)
 		}
 
+		pp = pp[:lurltPp-lpp]
+
 		var rppss, err = rb.validateURL(urlt.Host, pp)
 		if err != nil {
 			panicWithErr("%w", err)
diff --git a/router.go b/router.go
index ce42662..5cce99d 100755
--- a/router.go
+++ b/router.go
@@ -1522,7 +1522,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 			}
 		}
 
-		if urlt.PrefixPath != "" && pTmplStr != "/" {
+		if urlt.Host != "" || urlt.PrefixPath != "" {
 			var lpTmplStr = len(pTmplStr)
 			if lpTmplStr > 0 {
 				if lastIdx := lpTmplStr - 1; pTmplStr[lastIdx] == '/' {
@@ -1531,7 +1531,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 				}
 			}
 
-			if urlt.PrefixPath[0] != '/' {
+			if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
 				urlt.PrefixPath = "/" + urlt.PrefixPath
 			}
 
-- 
2.43.0


From 3b01f50031deafe7826e6303916839b75d3d4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 25/34] fix: keep the URL template of the resource when it's
 not registered

A resource lost its host and prefix path templates when its registration was
rejected, so the next time it could be registered at any place.
---
 resource.go  | 4 +---
 responder.go | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/resource.go b/resource.go
index fff878a..b97d6c6 100755
--- a/resource.go
+++ b/resource.go
@@ -310,9 +310,7 @@ func newRootResource() *Resource {
 // }
 
 func (rb *Resource) urlTmpl() *_URLTmpl {
-	var urlt = rb.urlt
-	rb.urlt = nil
-	return urlt
+	return rb.urlt
 }
 
 // -------------------------
diff --git a/responder.go b/responder.go
index b214edf..108a342 100755
--- a/responder.go
+++ b/responder.go
@@ -250,6 +250,11 @@ func (rb *_ResponderBase) setParent(p _Parent) error {
 	}
 
 	rb.papa = p
+	if r, ok := rb.derived.(*Resource); ok {
+		// The resource is in its place, the URL template is no longer needed.
+		r.urlt = nil
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3aefe93ccb4dbe3ffb18ebb2b5bf6573ee203c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 26/34] fix: discard the existing handlers when the new
 implementation has none

As documented, SetImplementation discards all existing handlers, but they were
kept when the implementation had no method with the handler's signature.
---
 responder.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/responder.go b/responder.go
index 108a342..bf30f58 100755
--- a/responder.go
+++ b/responder.go
@@ -1528,10 +1528,7 @@ func (rb *_ResponderBase) SetImplementation(impl Impl) {
 	}
 
 	rb.impl = impl
-
-	if rhb != nil {
-		rb.setRequestHandlerBase(rhb)
-	}
+	rb.setRequestHandlerBase(rhb)
 }
 
 // Implementation returns the implementation of the responder. If the responder
-- 
2.43.0


From bc4e5df73219bc82fe7ec89eeea28a1fb3660c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 27/34] fix: only consider the methods that can be handlers in
 an implementation

A method that doesn't have the handler's signature hid the handler of the same
HTTP method when their names differed only in letter case, and a method named
just Handle was taken as the handler of an HTTP method with an empty name.
---
 requesthandler.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..5614114 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -190,17 +190,6 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 	// names.
 	var hmns = make(map[string]string)
 	var t = reflect.TypeOf(impl)
-	for i, nm := 0, t.NumMethod(); i < nm; i++ {
-		var m = t.Method(i)
-		var hm = strings.TrimPrefix(m.Name, "Handle")
-		if hm != m.Name {
-			hm = strings.ToUpper(hm)
-			hmns[hm] = m.Name
-		}
-	}
-
-	var handlers = _MethodHandlerPairs{}
-	var notAllowedHTTPMethodsHandler Handler
 
 	// reflect.Value allows us to compare method signatures directly instead of
 	// the signatures of their function values.
@@ -213,6 +202,19 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 		},
 	)
 
+	for i, nm := 0, t.NumMethod(); i < nm; i++ {
+		var m = t.Method(i)
+		var hm = strings.TrimPrefix(m.Name, "Handle")
+		// The method must have the signature of the Handler.
+		if hm != m.Name && hm != "" && v.Method(i).Type() == handlerType {
+			hm = strings.ToUpper(hm)
+			hmns[hm] = m.Name
+		}
+	}
+
+	var handlers = _MethodHandlerPairs{}
+	var notAllowedHTTPMethodsHandler Handler
+
 	for hm, n := range hmns {
 		var m = v.MethodByName(n)
 		if m.Kind() != reflect.Func {
@@ -220,11 +222,6 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 			continue
 		}
 
-		if m.Type() != handlerType {
-			// Method doesn't have the signature of the Handler.
-			continue
-		}
-
 		var hf, ok = m.Interface().(func(
 			http.ResponseWriter,
 			*http.Request,
-- 
2.43.0


From 2ecded742fe9400c19dca5225f94ae42040e88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 28/34] fix: don't take a segment that is an encoded slash as
 the root

A resource created with the template "/%2F" became a root resource. A resource
with such a segment was listed as a child even though it was rejected.
---
 resource.go  |  3 ++-
 responder.go | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/resource.go b/resource.go
index b97d6c6..9c6692a 100755
--- a/resource.go
+++ b/resource.go
@@ -43,7 +43,8 @@ func createResource(
 	}
 
 	var tmpl *Template
-	if rTmplStr == "/" {
+	// A segment that is an encoded slash is not a root.
+	if rTmplStr == "/" && !slashDecoderRe.MatchString(tmplStr) {
 		if hTmplStr != "" {
 			// Unreachable.
 			return nil, newErr("%w", errNonRouterParent)
diff --git a/responder.go b/responder.go
index bf30f58..bdb5933 100755
--- a/responder.go
+++ b/responder.go
@@ -749,6 +749,11 @@ func (rb *_ResponderBase) replaceResource(oldR, newR *Resource) error {
 // as its parent. The method doesn't check if an existing resource with the
 // same template exists or not.
 func (rb *_ResponderBase) registerResource(r *Resource) error {
+	var err = r.setParent(rb.derived)
+	if err != nil {
+		return newErr("%w", err)
+	}
+
 	switch tmpl := r.Template(); {
 	case tmpl.IsStatic():
 		if rb.staticResources == nil {
@@ -762,11 +767,6 @@ func (rb *_ResponderBase) registerResource(r *Resource) error {
 		rb.patternResources = append(rb.patternResources, r)
 	}
 
-	var err = r.setParent(rb.derived)
-	if err != nil {
-		return newErr("%w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 89bb1e72983865c6bdf4ecf4fcb4f03b25a6bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 29/34] fix: report the resources that the router couldn't
 register

The router returned a resource as registered when its registration failed.
---
 router.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 5cce99d..b586bff 100755
--- a/router.go
+++ b/router.go
@@ -88,7 +88,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 
 				newLast.configure(secure, tslash, nil)
 
-				_r.registerResource(newFirst)
+				if err = _r.registerResource(newFirst); err != nil {
+					return nil, newErr("%w", err)
+				}
+
 				if newHost {
 					// When newHost is true _r would still be holding
 					// a pointer to a newly created host.
@@ -1184,7 +1187,10 @@ func (ro *Router) Resource(urlTmplStr string) *Resource {
 
 		if newFirst != nil {
 			newLast.configure(secure, tslash, nil)
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
+
 
 			if newHost {
 				if ro.HostNamed(_r.Name()) != nil {
@@ -1294,7 +1300,10 @@ func (ro *Router) ResourceUsingConfig(
 			var cfs = config.asFlags()
 			newLast.configure(secure, tslash, &cfs)
 
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
+
 			if newHost {
 				err = ro.registerHost(_r.(*Host))
 				if err != nil {
-- 
2.43.0


From c4e5c9db1179b784d63dd8f21c091a47703bc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 30/34] fix: pass either all of the child resources or none of
 them

When a registration was rejected because of one of the resources below,
the resources before it had already been moved. They were still listed
by their old parent in the tree, while their new parent was the rejected
host or resource.
---
 responder.go | 65 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index bdb5933..59bdc87 100755
--- a/responder.go
+++ b/responder.go
@@ -59,6 +59,8 @@ type _Responder interface {
 
 	resourceWithTemplate(tmpl *Template) (*Resource, error)
 	registeredResource(pathTmplStr string) (r *Resource, tslash bool, err error)
+	checkChildResourcesCanBePassedTo(r _Responder) error
+	checkResourceCanBeKept(r *Resource) error
 	passChildResourcesTo(r _Responder) error
 	registerResource(r *Resource) error
 	segmentResources(pathSegments []string) (
@@ -679,9 +681,70 @@ func (rb *_ResponderBase) registeredResource(
 	return r, psi.pathHasTrailingSlash(), nil
 }
 
+// checkChildResourcesCanBePassedTo checks whether passChildResourcesTo can
+// transfer all of the child resources to the argument responder. Nothing is
+// changed.
+func (rb *_ResponderBase) checkChildResourcesCanBePassedTo(
+	r _Responder,
+) error {
+	for _, chr := range rb.ChildResources() {
+		if err := r.checkResourceCanBeKept(chr); err != nil {
+			return newErr("%w", err)
+		}
+	}
+
+	return nil
+}
+
+// checkResourceCanBeKept checks whether keepResourceOrItsChildResources can
+// keep the argument resource or pass its child resources. Nothing is changed.
+func (rb *_ResponderBase) checkResourceCanBeKept(r *Resource) error {
+	var rwt, err = rb.resourceWithTemplate(r.Template())
+	if err != nil {
+		return newErr("%w", err)
+	}
+
+	if rwt == nil {
+		if nr := rb.ChildResourceNamed(r.Name()); nr != nil {
+			return newErr("%w", errDuplicateNameAmongSiblings)
+		}
+
+		return nil
+	}
+
+	var rcfs = r.configFlags()
+	err = rwt.checkForConfigCompatibility(
+		rcfs.has(flagSecure),
+		rcfs.has(flagTrailingSlash),
+		&rcfs,
+	)
+
+	if err != nil && !errors.Is(err, errDormantResource) {
+		return newErr("%w", err)
+	}
+
+	if !r.canHandleRequest() {
+		return r.checkChildResourcesCanBePassedTo(rwt)
+	}
+
+	if !rwt.canHandleRequest() {
+		return rwt.checkChildResourcesCanBePassedTo(r)
+	}
+
+	return newErr(
+		"%w %s",
+		errDuplicateResourceTemplate,
+		rwt.Template().String(),
+	)
+}
+
 // passChildResourcesTo method transfers all of the child resources to the
-// argument resource.
+// argument resource. If one of them can't be transferred, none of them is.
 func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
+	if err := rb.checkChildResourcesCanBePassedTo(r); err != nil {
+		return newErr("%w", err)
+	}
+
 	for _, rr := range rb.staticResources {
 		if err := r.keepResourceOrItsChildResources(rr); err != nil {
 			return newErr("%w", err)
-- 
2.43.0


From 5997ca201ccc57e47bf3663650d59469681916c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 31/34] fix: don't register a resource under itself

A resource without a parent could be registered under itself or under a
resource below it, which made the tree a loop. Router, Host and URL never
returned afterwards.
---
 errors.go    |  4 ++++
 responder.go | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/errors.go b/errors.go
index 81717ce..6648139 100644
--- a/errors.go
+++ b/errors.go
@@ -72,6 +72,10 @@ var (
 	// resource under another host or resource.
 	errNonRouterParent = fmt.Errorf("non-router parent")
 
+	// errConflictingParent is returned on an attempt to register a resource
+	// under itself or under one of the resources below it.
+	errConflictingParent = fmt.Errorf("conflicting parent")
+
 	// errDuplicateHostTemplate is returned when registering a new host if there
 	// is another host with the same template and both of them can handle a
 	// request.
diff --git a/responder.go b/responder.go
index 59bdc87..ac65aed 100755
--- a/responder.go
+++ b/responder.go
@@ -265,6 +265,18 @@ func (rb *_ResponderBase) parent() _Parent {
 	return rb.papa
 }
 
+// isInTheSubtreeOf returns true if the responder is the argument resource or is
+// below it in the tree.
+func (rb *_ResponderBase) isInTheSubtreeOf(r *Resource) bool {
+	for p := rb.derived.(_Parent); p != nil; p = p.parent() {
+		if pr, ok := p.(*Resource); ok && pr == r {
+			return true
+		}
+	}
+
+	return false
+}
+
 // respondersInThePath returns all the responders above in the tree
 // (including the host and the resource itself).
 func (rb *_ResponderBase) respondersInThePath() []_Responder {
@@ -1239,6 +1251,10 @@ func (rb *_ResponderBase) RegisterResource(r *Resource) {
 		panicWithErr("%w", errRegisteredResource)
 	}
 
+	if rb.isInTheSubtreeOf(r) {
+		panicWithErr("%w", errConflictingParent)
+	}
+
 	if err := rb.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1301,6 +1317,10 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 		panicWithErr("%w", errRegisteredResource)
 	}
 
+	if rb.isInTheSubtreeOf(r) {
+		panicWithErr("%w", errConflictingParent)
+	}
+
 	if err := rb.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
-- 
2.43.0


From 15ebb52a39df6b84d135e883f1aa77785fdd1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 32/34] fix: report values that leave a path segment or the
 host empty

The URL of a responder was built with an empty path segment, which is
dropped when the path is cleaned, or without the host, so that its request
was routed elsewhere.
---
 utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils.go b/utils.go
index ca10482..b8c8554 100755
--- a/utils.go
+++ b/utils.go
@@ -344,6 +344,10 @@ loop:
 				return nil, newErr("%w", err)
 			}
 
+			if ps == "" {
+				return nil, newErr("%w, empty path segment", ErrInvalidValue)
+			}
+
 			pss = append(pss, ps)
 		case *Host:
 			var tmpl = p.Template()
@@ -355,6 +359,10 @@ loop:
 				if err != nil {
 					return nil, newErr("%w", err)
 				}
+
+				if host == "" {
+					return nil, newErr("%w, empty host", ErrInvalidValue)
+				}
 			}
 
 			break loop
-- 
2.43.0


From 2ab7a06843e7b9d09b6e9d076e77bac3e555335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:35 +0000
Subject: [PATCH 33/34] fix: don't treat a resource with an escaped slash as a
 root

SetConfiguration recognised the root resource by the content of its template.
A resource with the template "/%2F" has the same content, so its trailing slash
and its strict and lenient settings were lost.
---
 responder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index ac65aed..9a458f7 100755
--- a/responder.go
+++ b/responder.go
@@ -1572,7 +1572,7 @@ func (rb *_ResponderBase) SharedData() interface{} {
 // also be configured to be secure, even if it wasn't before. The secure
 // responders only respond when used over HTTPS.
 func (rb *_ResponderBase) SetConfiguration(config Config) {
-	if rb.Template().Content() == "/" {
+	if rb.tmpl == rootTmpl {
 		config.HasTrailingSlash = false
 		config.LenientOnTrailingSlash = false
 		config.StrictOnTrailingSlash = false
-- 
2.43.0


From 3430ef11b58e9aab69e4d9588ed4527092e9aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:56 +0000
Subject: [PATCH 34/34] fix: keep the configuration of a resource whose
 registration is rejected

RegisterResourceUnder made the resource secure for a URL template with the
https scheme, even if the registration was then rejected.
---
 router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router.go b/router.go
index b586bff..a413137 100755
--- a/router.go
+++ b/router.go
@@ -1596,6 +1596,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		panicWithErr("%w", err)
 	}
 
+	var cfs = r.configFlags()
 	if secure {
 		r.setConfigFlags(flagSecure)
 	}
@@ -1603,11 +1604,13 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 	if pTmplStr != "" && pTmplStr != "/" {
 		err = _r.registerResourceUnder(pTmplStr, r)
 		if err != nil {
+			r.resetConfigFlags(cfs)
 			panicWithErr("%w", err)
 		}
 	} else {
 		var err = _r.keepResourceOrItsChildResources(r)
 		if err != nil {
+			r.resetConfigFlags(cfs)
 			panicWithErr("%w", err)
 		}
 	}
-- 
2.43.0

