import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
T="template.go";R="responder.go";RS="resource.go";H="host.go";RO="router.go";RQ="requesthandler.go";U="utils.go";C="config.go";M="middleware.go"
p("C01","Template parsing is total and printing a template loses nothing",
"For every string, parsing either returns an error or a template, and never crashes; the panicking parser panics exactly when the other one reports an error. Printing a parsed template and parsing the result again succeeds and gives a template with the same name and value names that is reported as the same template and matches exactly the same strings with the same values. Printing is stable after the first round.",
["inputs"],"every template string, including malformed, escaped and multi-byte ones",
"the tests parse a fixed list of strings; totality and round-tripping are claims over every byte string",
[T],[("recursive-descent over static and dynamic segments","template.go: parse, staticSegment, dynamicSegment"),("name/content split with escapes","template.go: templateNameAndContent"),("printer that re-escapes","template.go: Content, String")],["TryToParse","Parse","Template.String","Template.SimilarityWith","Template.Match"])
p("C02","A template matches exactly the strings it describes, with the right values",
"When a template matches a string, putting the returned values in the place of its dynamic segments spells exactly that string, every value of a pattern segment is matched by its pattern from its first to its last character, and a repeated value name stands for the same text at each place. Conversely a string made of the static texts and of values is matched, with those values, provided each value is what its pattern picks at its place.",
["inputs","configurations"],"every combination of static, pattern (including alternations and repeated names) and wildcard segments, and every subject string",
"the tests try a handful of strings per template; over-matching shows only on strings that nobody listed",
[T],[("left-to-right match up to the wildcard, right-to-left after it","template.go: Template.Match"),("anchoring of the compiled patterns","template.go: appendDynamicSegmentTo, parse")],["Template.Match","routing results"])
p("C03","A failed match leaves the caller's values as they were",
"Matching a string that does not match the template returns exactly the values that were passed in: none added, none changed. When values with the names of the template's pattern segments are already present, a match is reported only if the string carries the same values at those segments, and values that were present are never overwritten.",
["inputs","histories"],"every template, subject string and every list of values collected before, and sequences of matches over the same list as the routing of one request performs",
"whether values leak shows only when a later segment fails after an earlier one matched, a history the tests do not compose",
[T,R],[("values are appended only for this template's segments","template.go: Template.Match"),("values threaded through sibling templates","responder.go: passRequest")],["Template.Match","Args.HostPathValues"])
p("C04","Applying values to a template accepts only values that fit",
"Filling a template with values yields the concatenation of its static texts and the values, provided each pattern segment's pattern, used on the value alone, picks the whole value; otherwise it reports an invalid value, and a missing value is reported unless missing values are to be ignored. The variant that does not return errors panics in exactly those cases. The filled text is matched by the template, with the same values, whenever the split is unambiguous.",
["inputs","configurations"],"every template, every assignment of strings to its value names, with and without missing values",
"the tests apply a few fitting and a few plainly wrong values; partially fitting values at every position are not tried",
[T],[("value check before substitution","template.go: TryToApply"),("panicking wrapper","template.go: Apply")],["Template.TryToApply","Template.Apply"])
p("C05","Template similarity is a consistent classification",
"Comparing templates is symmetric, a template is the same as itself and as any template parsed from the same string, and templates that differ only in template name or only in value names are classified as exactly that. Two templates classified as the same or as differing in template name match exactly the same strings with the same values, ones differing in value names match the same strings when no value name is repeated, and templates with different texts or patterns are classified as different.",
["inputs","configurations"],"every pair of templates from a family of static, wildcard and pattern templates with arbitrary names and texts",
"similarity decides which registrations collide; the tests list pairs, the law quantifies over all pairs and all subject strings",
[T],[("segment-wise comparison","template.go: SimilarityWith"),("error per class","template.go: Similarity.Err")],["Template.SimilarityWith","registration conflicts"])
p("C06","Request paths are split into segments decoded exactly once",
"Routing sees the segments of the request's cleaned path, each percent-decoded exactly once, so an encoded slash stays inside its segment and an encoded percent sign is not decoded again, and the values a handler reads are those decoded segments. If a raw path has a malformed escape in a segment that is looked at, the response is 400 and no handler runs.",
["inputs"],"every request path, with or without a distinct raw form",
"the tests request a few paths; decoding errors need unusual encodings in particular segments",
[U,R,RS],[("lazy segment iterator with a single unescape","utils.go: Args.nextPathSegment"),("raw path preferred, cleaned","utils.go: getArgs"),("400 on a malformed escape","responder.go: passRequest; resource.go: ServeHTTP")],["Args.HostPathValues in handlers","response status"])
p("C07","URL templates are split into scheme, host, path and trailing slash losslessly",
"Creating or registering a host or resource from a URL template places it under exactly the written host and path segments, secure exactly when the scheme is https and with a trailing slash exactly when one is written (unless a configuration given along asks for them too), with percent-encoded slashes belonging to their segment. URL templates that have an empty segment, an empty host after a scheme, or a path where a host is expected are rejected, and a rejected URL template registers nothing that answers requests.",
["inputs","configurations"],"every URL template string up to a length and every API entry that takes one",
"the tests register well-formed URLs; splitting rules matter for every string",
[U,RS,H,RO],[("scheme, host and trailing slash split","utils.go: splitHostAndPath, splitURL, getHost"),("path segment iterator","utils.go: _PathSegmentIterator, splitPathSegments")],["Resource.Template/Host/Parent","IsSecure","HasTrailingSlash"])
p("C08","Resource dispatch: static, then patterns in order, then the wildcard",
"At each level of the tree a path segment is routed to the static child with that exact text if there is one, otherwise to the first registered pattern child that matches it, otherwise to the wildcard child, and otherwise nowhere. The handler of the last segment's resource runs and reads exactly the values of the templates on the chosen route.",
["inputs","configurations"],"every tree in a family of mixes of static, pattern and wildcard siblings over several levels, every registration order, and every request path",
"the tests route fixed paths through fixed trees; precedence mistakes need a segment matched by several siblings",
[R,RS,T],[("lookup order","responder.go: passRequest"),("dispatch on the last segment","resource.go: handleOrPassRequest")],["which handler runs","Args.HostPathValues"])
p("C09","Host dispatch: static, then patterns in order, then the root resource",
"A router sends a request to the static host equal to the request's host without its port, otherwise to the first registered pattern host that matches it, otherwise to the root resource when one exists, and otherwise answers not found; a chosen host never falls back to another host or to the root. Values of a pattern host are available to the handler, and a host that was tried and did not match contributes none.",
["inputs","configurations"],"every set of static and pattern hosts, request host with or without a port or IPv6 brackets, and requests without a host",
"the tests use a few literal host names; overlaps, ports and leaked values need combinations",
[RO,H],[("host lookup order and port stripping","router.go: Router.passRequest"),("direct serving of a host","host.go: Host.ServeHTTP")],["which handler runs","Args.HostPathValues"])
p("C10","Every request is answered exactly once and nothing crashes",
"For any tree and any request, exactly one of these happens and it happens once: a method handler, not-allowed handler, redirect, not-found or bad-request response. When a middleware or handler declines a request by returning false, the next subtree handler above it on the route answers it, and if there is none the not-found handler answers it once; serving never panics.",
["inputs","configurations","histories"],"every tree shape in the family with every choice of dormant, active, subtree and declining responders, and every request path, method and scheme",
"double or missing responses appear only for particular combinations of declining middlewares, subtree handlers and dormant responders",
[R,RS,H,RO],[("handled flag returned up the chain","responder.go: passRequest"),("fallback to not found","router.go: ServeHTTP; host.go: ServeHTTP; resource.go: ServeHTTP")],["number of responses"])
p("C11","A secure responder never handles an insecure request",
"The handlers of a host or resource that was declared secure never run for a request that came without TLS. Such a request gets a redirect to the same URL under https if redirecting was configured and the not-found response otherwise, while requests over TLS are handled, and a responder that is not secure handles both.",
["inputs","configurations","histories"],"every way to declare a responder and its configuration, later reconfiguration, every request",
"security must hold under every combination of flags, reconfiguration and request; the tests cover some",
[RS,H,R,C],[("TLS check before handling","resource.go, host.go: handleOrPassRequest"),("secure flag survives reconfiguration","responder.go: SetConfiguration")],["handler runs","redirect target","status"])
p("C12","Trailing slash policy is applied as configured",
"For the last segment of a request the responder's trailing slash setting decides: equal forms are handled, a differing form is handled when lenient, answered not found when strict, and otherwise redirected to the other form. The root never has this distinction. A resource that is a subtree handler leaves the form of deeper paths alone, and a host, which has no segment of its own, applies its settings to the last segment of the paths it answers as a subtree handler.",
["inputs","configurations"],"every combination of trailing slash, strict, lenient and path-as-is settings, hosts and resources, every path",
"the decision table has many rows and interacts with cleaning and security; tests sample rows",
[RS,H,C,U],[("trailing slash decision","resource.go, host.go: handleOrPassRequest"),("flags","config.go")],["handler runs","redirect target","status"])
p("C13","Unclean paths are redirected to their clean form unless leniency is configured",
"A request whose path has empty, dot or dot-dot segments is routed by its clean form; the responder reached redirects to that clean form unless it is lenient on unclean paths or handles the path as is, in which case it handles the request. A clean path is never redirected for this reason.",
["inputs","configurations"],"every path over slashes, dots and ordinary characters, every leniency setting",
"cleaning is a function over all paths; tests try a few",
[U,RS,H],[("cleaning with the trailing slash kept","utils.go: getArgs"),("redirect unless lenient","resource.go, host.go: handleOrPassRequest")],["handler runs","redirect target"])
p("C14","Automatic redirects lead to the right place in one hop",
"When a request is redirected for its scheme, unclean path or trailing slash, the target has the same host, query and decoded path segments as the request's clean path with the scheme and trailing slash corrected (a responder that is lenient on unclean paths may keep the path as it came), and its escaping is valid. Requesting the target reaches the same responder's handler without any further redirect.",
["inputs","configurations"],"every request path including percent-encoded ones, query, scheme and host, every configuration that redirects",
"combinations of encoded paths, cleaning and slash correction are many; a wrong target or a loop needs a particular one",
[RS,H,U],[("target built from the request URL","resource.go, host.go: handleOrPassRequest; utils.go: cloneRequestURL")],["URL passed to the redirect handler","second request's outcome"])
p("C15","Configured redirects go to the given target with the remaining path and code",
"A responder told to redirect its requests sends every request it would answer to the configured target with the configured status, appending the escaped remaining path with exactly one slash between, and its method handlers do not run; one told to redirect any request also redirects everything below it and regardless of the other policies. A redirect status outside 300 to 399 and an empty target are rejected.",
["inputs","configurations"],"every target with or without trailing slash, status code, remaining path",
"joining target and remaining path depends on slashes and escapes on both sides",
[RQ,R],[("redirector closure","requesthandler.go: redirector"),("RedirectRequestTo, RedirectAnyRequestTo","responder.go")],["URL and code passed to the redirect handler"])
p("C16","The deepest subtree handler answers for unmatched paths below it",
"A request that no resource matches is answered by the deepest responder on its route that is configured as a subtree handler, and by not found when there is none; a resource that does match is never pre-empted by a subtree handler above it. That handler's remaining path is the escaped part of the request path below it, and it sees only the values and data of its own route.",
["inputs","configurations"],"every tree with any set of subtree handlers, every request path",
"needs paths that leave the tree at every depth and after partially matching siblings",
[R,RS,H,U],[("subtree flag and unwinding","responder.go: passRequest; resource.go, host.go: handleOrPassRequest"),("remaining path","utils.go: Args.RemainingPath")],["which handler runs","Args.RemainingPath","Args.HostPathValues","Args.CurrentResource"])
p("C17","Method dispatch follows the handlers set, for any number of methods",
"After any sequence of setting handlers, the handler that runs for a method is the last one set for it, an unset method gets the not-allowed handler (405 with the Allow list by default), and OPTIONS is answered with the Allow list unless set. The Allow list and the list of allowed methods contain exactly the methods that have handlers, once each, and looking a handler up agrees with dispatch whatever the case, separators and number of methods used.",
["inputs","histories","configurations"],"every sequence of handler settings with any method names and any number of methods, every request method",
"the lookup changes strategy with the number of methods; the tests set a few",
[RQ,U],[("sorted pairs, linear then binary search","requesthandler.go: _MethodHandlerPairs"),("method list splitting","utils.go: toUpperSplitByCommaSpace")],["which handler runs","Allow header","AllowedHTTPMethods","HandlerOf"])
p("C18","Redirect status and redirect handler come from the nearest setting",
"An automatic redirect uses the responder's own permanent redirect status if set, otherwise the common one, and is written by the responder's own redirect handler if set, otherwise by the common one; wrappers of either are applied in order. Only 301 and 308 are accepted as permanent redirect statuses, and a rejected value changes nothing.",
["configurations","histories"],"every sequence of common and own settings and every status value",
"ordering of settings and all rejected integers are not enumerated by tests",
[RQ,R],[("common and own settings","requesthandler.go: SetPermanentRedirectCode, SetCommonRedirectHandler; responder.go: SetPermanentRedirectCode, SetRedirectHandler, WrapRedirectHandler")],["code and handler of a redirect"])
p("C19","Middlewares run in the documented order and wrap each handler exactly once",
"Middlewares given to a wrap call are applied in order, so the last one given runs first, around exactly the request passer, request handler or method handlers named and nothing else. Wrapping for a whole tree or for all methods wraps every matching handler exactly once and no other, and a wrapped handler behaves as before when every middleware calls its next handler.",
["configurations","histories","inputs"],"every sequence of wrap calls with any method lists over a tree, every request",
"exactly-once and nothing-else are claims over all handlers and all combinations of wrap calls",
[RQ,R,M,RO],[("wrapping","requesthandler.go: wrapHandlerOf; responder.go: WrapRequestPasser, WrapRequestHandler"),("traversal","middleware.go: wrapEveryHandlerOf; utils.go: traverseAndCall")],["order of middleware calls per request"])
p("C20","Converted standard middlewares report each request's own outcome",
"A standard middleware converted for use here passes the same request data on, and the converted handler reports handled or not for each request by itself: the next handler's answer if it was called for this request, and handled if the middleware answered without calling it. Earlier or concurrent requests never influence that report.",
["histories","inputs","schedules"],"every history of requests for which the middleware calls or does not call the next handler and the next handler answers true or false",
"the tests send one request; the outcome depends on the history",
[M,RQ],[("conversion","middleware.go: Mw"),("args carried in the request context","requesthandler.go: HrWithArgs, FnHrWithArgs; utils.go: ArgsFrom")],["return value","number of responses"])
p("C21","Request arguments are fresh for each request and behave like a map",
"The arguments a request's handlers see contain only what this request's own route and handlers put there, whatever requests were served before, including those that ended in errors, redirects or not found. Within a request, reading a key or a value name returns the last value set for it and nothing for keys never set.",
["histories","inputs"],"every history of requests through any route, every sequence of set and get operations",
"argument objects are recycled; leaks need a particular earlier request",
[U],[("recycling and reset","utils.go: getArgs, putArgsInThePool"),("ordered key-value slices","utils.go: _Args; template.go: TemplateValues")],["Args.Get","Args.HostPathValues","Args.RemainingPath","Args.CurrentResource"])
p("C22","Serving a request writes no state shared with other requests",
"While requests are being served nothing that other requests can see is modified, apart from synchronised pools, so any number of requests may run at the same time with the outcome each would have alone. The argument object of a request is not used after it was given back for reuse and is given back at most once.",
["schedules","inputs"],"every tree in the family and every request, in any interleaving",
"races need particular interleavings; the tests serve sequentially",
[U,R,RS,H,RO,RQ,M],[("tree is only read when serving","responder.go: passRequest; router.go: passRequest"),("pool discipline","utils.go: getArgsFromThePool, putArgsInThePool")],["writes to shared memory","use of pooled objects"])
p("C23","The registration tree stays consistent",
"After any sequence of registrations each registered resource has exactly one parent that lists it as a child, the parent chain leads to the host and router it was registered in, no two siblings have the same template or non-empty name, no name repeats among the names along a URL, and no value name among its value names. A registration that is rejected is reported, and resources merged with an existing one keep their handlers and children reachable.",
["histories","configurations"],"every sequence of registrations through any mix of the registration entry points",
"invariants must hold after every history; tests check single steps",
[R,RS,RO,H],[("uniqueness checks","responder.go: checkNamesAreUniqueInTheURL, validate"),("merge rules","responder.go: keepResourceOrItsChildResources, passChildResourcesTo, replaceResource; router.go: registerNewRoot, RegisterHost")],["Parent, Host, Router","ChildResources, ChildResourceNamed, HasChildResource","routing"])
p("C24","Asking for a host or resource finds the registered one or creates it once",
"Asking for a host or resource by its URL template returns the one registered under the same templates if it exists and creates it otherwise, so asking twice gives the same object, and the lookup that does not create agrees. Asking with the same templates but a different name, value name, scheme, trailing slash (unless it is lenient on it) or a configuration it does not have is rejected instead of returning or creating something else.",
["histories","inputs"],"every sequence of find-or-create calls with any templates from a family, through router, host and resource",
"agreement between entry points must hold for every history and template pair",
[R,RO],[("find or create","responder.go: Resource, ResourceUsingConfig, segmentResources, resourceWithTemplate; router.go: _Responder, Host, HostUsingConfig"),("compatibility check","responder.go: checkForConfigCompatibility")],["identity of returned objects","panics"])
p("C25","A responder's URL leads back to that responder",
"Building the URL of a host or resource with values that fit its templates gives a URL with the right scheme, host and trailing slash whose request reaches that responder's handler, which reads the same values, unless an earlier sibling also matches. Missing or unfitting values, and ones that would leave the host or a segment empty, are reported as errors.",
["inputs","configurations"],"every chain of static, pattern and wildcard templates and every assignment of values, including ones with characters that need escaping",
"the tests build URLs from plain values; escaping matters for all strings",
[U,R],[("URL builder","utils.go: responderURL; responder.go: URL")],["URL","routing of the built URL"])
p("C26","Configuration flags are kept and reported faithfully",
"The configuration read back from a responder is the one that was set, except that being secure or having a trailing slash, once given by the URL template or a configuration, is never taken back, redirecting insecure requests implies secure, and the root has no trailing slash settings. A configuration request that conflicts with the existing one is rejected, a registration that is rejected changes no configuration, and none of the flags affects another.",
["configurations","histories"],"every combination of the eight settings and every sequence of configuration calls",
"256 combinations times entry points; tests sample",
[C,R,RS,H],[("bit flags","config.go: asFlags, asConfig"),("configure, SetConfiguration","responder.go")],["Configuration()","Is*/Has* accessors"])
p("C27","Bulk shared data and configuration fill in only what is unset",
"Setting shared data or configuration for a whole subtree or for everything reaches every responder below the starting point that has none of its own, and changes no other. Each responder's handlers read that responder's own shared data and implementation.",
["configurations","histories"],"every tree in a family, every subset of responders already set",
"all subsets of preset responders over several tree shapes",
[R,RO,U],[("traversal","utils.go: traverseAndCall"),("subtree setters","responder.go: SetSharedDataForSubtree, SetConfigurationForSubtree; router.go: SetSharedDataForAll, SetConfigurationForAll")],["SharedData","Configuration","Args.ResponderSharedData","Args.ResponderImpl"])
p("C28","Implementations contribute exactly their handler methods",
"Setting a type as the implementation of a host or resource makes each of its methods whose name starts with Handle and whose signature is a handler's the handler of the upper-cased rest of its name, the not-allowed method handler being the one named so, and ignores every other method. A type without such methods leaves the responder without handlers.",
["programs","configurations"],"implementation types with any mix of conforming and non-conforming methods, pointer and value receivers, and any request method",
"the tests use a few types; conformity must hold for any mix",
[RQ,R],[("method detection","requesthandler.go: detectHTTPMethodHandlersOf"),("SetImplementation","responder.go")],["which handler runs","AllowedHTTPMethods","Implementation"])
p("C29","Serving a host or resource directly agrees with serving it through a router",
"A host or resource used as the top-level handler answers a request that belongs to it as it would when reached through a router: same handler, values, remaining path, redirects and status. A request for another host or whose first segment does not match it gets the not-found response.",
["inputs","configurations"],"every tree in a family and every request",
"agreement of several entry points is a claim over all requests",
[H,RS,RO],[("ServeHTTP of each type","host.go, resource.go, router.go")],["which handler runs","values","redirect target","status"])
p("C30","Settings made through a template act on exactly that responder",
"Setting something through a URL or path template, with the methods of a router, host or resource that take one, does what finding or creating the responder there and calling its own method does, and changes no other responder. Reading through a template reads what was set on that responder. Where finding or creating it is rejected, or there is none to read from or to wrap the handlers of, the call is rejected and no setting changes.",
["inputs","configurations"],"every such method, called on any of them with any template of a family, and every request afterwards",
"about forty methods times the states of the responder at the template; the tests sample some",
[R,RO],[("...At, ...For and ...Of methods","responder.go: SetSharedDataAt and those after it; router.go: _Responder, registered_Responder, SetSharedDataAt and those after it")],["settings read back","answers to requests","panics"])
p("C31","Middlewares see the arguments of the responder at work",
"When a request passer, request handler, redirect handler or method handler of a host or resource runs, the arguments name that responder as the current one, with its own shared data and implementation. The host and path values are exactly those of the templates from its host down to it, and the remaining path is the escaped part of the clean path below it.",
["inputs","configurations"],"every tree in a family, with any of its responders as subtree handlers, and every request path",
"the tests look at the arguments in a few final handlers; those on the way and after a subtree handler takes over need deep paths",
[U,R,RS,H],[("current responder, values and index set while passing and restored","responder.go: passRequest; resource.go, host.go: handleOrPassRequest"),("remaining path","utils.go: Args.RemainingPath")],["Args.CurrentResource, Args.Host","Args.HostPathValues","Args.RemainingPath","Args.ResponderSharedData, Args.ResponderImpl"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
