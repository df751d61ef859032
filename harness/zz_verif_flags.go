package nanomux

// zzFlags is the configuration that a responder must have.
type zzFlags struct {
	sub, secure, redir, slash, strict, laxSlash, laxPath bool
}

// zzSymConfig is a configuration with any settings, except the ones that are
// left out.
func zzSymConfig(full bool) (c Config) {
	c.SubtreeHandler = zzBool("subtree")
	c.Secure = zzBool("secure")
	c.RedirectsInsecureRequest = zzBool("redirects")
	c.HasTrailingSlash = zzBool("slash")
	c.HandlesThePathAsIs = zzBool("as is")
	if full {
		c.StrictOnTrailingSlash = zzBool("strict")
		c.LenientOnTrailingSlash = zzBool("lenient slash")
		c.LenientOnUncleanPath = zzBool("lenient path")
	}

	return c
}

// zzFlagsFor is what the configuration asks for.
func zzFlagsFor(c Config, root bool) (f zzFlags) {
	f.sub = c.SubtreeHandler
	f.redir = c.RedirectsInsecureRequest
	f.secure = zzOr(c.Secure, c.RedirectsInsecureRequest)
	f.laxPath = zzOr(c.LenientOnUncleanPath, c.HandlesThePathAsIs)
	if !root {
		f.slash = c.HasTrailingSlash
		f.strict = c.StrictOnTrailingSlash
		f.laxSlash = zzOr(c.LenientOnTrailingSlash, c.HandlesThePathAsIs)
	}

	return f
}

// set is the configuration after a new one is set.
func (f zzFlags) set(g zzFlags) zzFlags {
	g.secure = zzOr(g.secure, f.secure)
	g.slash = zzOr(g.slash, f.slash)
	return g
}

// has reports whether all that is set in g is set.
func (f zzFlags) has(g zzFlags) bool {
	return zzAnd(
		zzAnd(zzAnd(zzOr(!g.sub, f.sub), zzOr(!g.secure, f.secure)),
			zzAnd(zzOr(!g.redir, f.redir), zzOr(!g.slash, f.slash))),
		zzAnd(zzOr(!g.strict, f.strict),
			zzAnd(zzOr(!g.laxSlash, f.laxSlash), zzOr(!g.laxPath, f.laxPath))),
	)
}

// is asserts that the configuration is read back.
func (f zzFlags) is(c Config) {
	zzAssert(c.SubtreeHandler == f.sub, "subtree handler differs")
	zzAssert(c.Secure == f.secure, "secure differs")
	zzAssert(c.RedirectsInsecureRequest == f.redir, "redirects insecure request differs")
	zzAssert(c.HasTrailingSlash == f.slash, "trailing slash differs")
	zzAssert(c.StrictOnTrailingSlash == f.strict, "strict on trailing slash differs")
	zzAssert(c.LenientOnTrailingSlash == f.laxSlash, "lenient on trailing slash differs")
	zzAssert(c.LenientOnUncleanPath == f.laxPath, "lenient on unclean path differs")
	zzAssert(
		c.HandlesThePathAsIs == zzAnd(f.laxSlash, f.laxPath),
		"handles the path as is differs",
	)
}

// zzFlagged are the accessors.
type zzFlagged interface {
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
	Configuration() Config
}

// of asserts that the accessors agree.
func (f zzFlags) of(r zzFlagged) {
	f.is(r.Configuration())
	f.is(Config{
		SubtreeHandler:           r.IsSubtreeHandler(),
		Secure:                   r.IsSecure(),
		RedirectsInsecureRequest: r.RedirectsInsecureRequest(),
		HasTrailingSlash:         r.HasTrailingSlash(),
		StrictOnTrailingSlash:    r.IsStrictOnTrailingSlash(),
		LenientOnTrailingSlash:   r.IsLenientOnTrailingSlash(),
		LenientOnUncleanPath:     r.IsLenientOnUncleanPath(),
		HandlesThePathAsIs:       r.HandlesThePathAsIs(),
	})
}
