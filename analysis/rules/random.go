package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

// Randomness.

const secureSource = "crypto/rand.Reader"

// isReader tells whether a type is io.Reader.
func isReader(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "Reader"
}

// secure tells whether a reader certainly is the secure random source; it also
// yields why not.
func (s *census) secure(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.ChangeInterface:
		return s.secure(v.X, seen)
	case *ssa.ChangeType:
		return s.secure(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if why := s.secure(e, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if g.RelString(nil) == secureSource {
				return ""
			}
			n := 0
			for _, fn := range s.c.P.Funcs() {
				bad := ""
				eachInstr(fn, func(ins ssa.Instruction) {
					st, ok := ins.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(g) {
						return
					}
					n++
					if fn.Synthetic == "" || fn.Name() != "init" {
						bad = "the variable " + g.Name() + ", which " + shortFn(fn) + " changes"
						return
					}
					if why := s.secure(st.Val, seen); why != "" {
						bad = why
					}
				})
				if bad != "" {
					return bad
				}
			}
			if n == 0 {
				// the package's initialisation is not a source function
				for _, m := range []*ssa.Package{s.c.P.Main.SSA} {
					init := m.Func("init")
					bad := ""
					eachInstr(init, func(ins ssa.Instruction) {
						st, ok := ins.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(g) {
							return
						}
						n++
						if why := s.secure(st.Val, seen); why != "" {
							bad = why
						}
					})
					if bad != "" {
						return bad
					}
				}
			}
			if n == 0 {
				return "the variable " + g.Name() + ", which is never set"
			}
			return ""
		}
	case *ssa.Parameter:
		fn := v.Parent()
		if s.escapes[fn] || len(s.callers[fn]) == 0 {
			return "an argument of " + shortFn(fn)
		}
		for i, p := range fn.Params {
			if p != v {
				continue
			}
			for _, g := range s.callers[fn] {
				bad := ""
				eachInstr(g, func(ins ssa.Instruction) {
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						if why := s.secure(ci.Common().Args[i], seen); why != "" {
							bad = why
						}
					}
				})
				if bad != "" {
					return bad
				}
			}
		}
		return ""
	case *ssa.Const:
		return "nil"
	}
	return fmt.Sprintf("%s (%T)", v, v)
}

// randomSources checks where randomness comes from, throughout the library.
func randomSources(c *check.Ctx) {
	c.Rule("IMPORTS", "no source of randomness but crypto/rand is imported")
	c.Rule("CHECKED", "whether randomness could be had is looked at")
	c.Rule("SOURCE", "whatever uses randomness is given the secure random source, which nothing replaces")
	for _, pkg := range c.P.Order {
		for _, imp := range pkg.Types.Imports() {
			p := imp.Path()
			weak := p == "math/rand" || p == "math/rand/v2" || p == "hash/maphash" || strings.HasSuffix(p, "/rand") && p != "crypto/rand"
			c.Check(!weak, "IMPORTS", pkg.Path+" imports "+p, token.NoPos, "%s imports %s", pkg.Path, p)
		}
	}
	s := newCensus(c)
	var uses []string
	for _, fn := range c.P.Funcs() {
		name := shortFn(fn)
		eachInstr(fn, func(ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok && g.RelString(nil) == secureSource {
					c.Fail("SOURCE", "replacement in "+name, st.Pos(), "%s replaces the system's random source", name)
				}
				return
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			com := ci.Common()
			var sig *types.Signature
			var path, what string
			args := com.Args
			switch {
			case com.IsInvoke():
				m := com.Method
				sig, what = m.Type().(*types.Signature), m.Name()
				if m.Pkg() != nil {
					path = m.Pkg().Path()
				}
			case com.StaticCallee() != nil:
				f := com.StaticCallee()
				if f.Pkg == nil || c.P.InRepo(f) {
					return
				}
				sig, path, what = f.Signature, f.Pkg.Pkg.Path(), f.Name()
				if sig.Recv() != nil {
					args = args[1:]
				}
			default:
				return
			}
			reads := false
			if com.IsInvoke() && what == "Read" && isReader(com.Value.Type()) {
				reads = s.secure(com.Value, map[ssa.Value]bool{}) == ""
			}
			if path == "io" {
				for _, a := range args {
					reads = reads || isReader(a.Type()) && s.secure(a, map[ssa.Value]bool{}) == ""
				}
			}
			if path == "crypto/rand" || reads {
				c.Check(errorUsed(ci), "CHECKED", what+" in "+name, ins.Pos(), "%s does not look at whether %s failed", name, what)
			}
			if path != "crypto" && !strings.HasPrefix(path, "crypto/") && !strings.HasPrefix(path, "golang.org/x/crypto/") {
				return
			}
			for i := 0; i < sig.Params().Len() && i < len(args); i++ {
				if !isReader(sig.Params().At(i).Type()) {
					continue
				}
				why := s.secure(args[i], map[ssa.Value]bool{})
				uses = append(uses, what+" in "+name)
				c.Check(errorUsed(ci), "CHECKED", what+" in "+name, ins.Pos(), "%s does not look at whether %s failed", name, what)
				c.Check(why == "", "SOURCE", what+" in "+name, ins.Pos(), "%s gives %s.%s a source of randomness that may not be the system's: %s", name, path, what, why)
			}
		})
	}
	// the variables that hold the source
	for _, n := range c.P.Main.Types.Scope().Names() {
		g, ok := c.P.Main.SSA.Members[n].(*ssa.Global)
		if !ok || !isReader(g.Type().(*types.Pointer).Elem()) {
			continue
		}
		why := s.secure(&ssa.UnOp{Op: token.MUL, X: g}, map[ssa.Value]bool{})
		c.Check(why == "", "SOURCE", "variable "+n, g.Pos(), "the random source %s may not be the system's: %s", n, why)
		uses = append(uses, "variable "+n)
	}
	c.Cover("uses of randomness", uses)
	c.Check(len(uses) >= 4, "SOURCE", "uses", token.NoPos, "the uses of randomness were not found")
}

// errorUsed tells whether the error that a call yields is used.
func errorUsed(ins ssa.CallInstruction) bool {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return false // go, defer
	}
	res := call.Call.Signature().Results()
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	n := res.Len()
	if n == 0 || !isErr(res.At(n-1).Type()) {
		return true
	}
	used := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return true
			}
		}
		return false
	}
	if n == 1 {
		return used(call)
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 && used(e) {
			return true
		}
	}
	return false
}

// fullyRandom tells why a value is not n bytes that one successful read of the
// random source filled.
func fullyRandom(t *ai.Term, n int64) string {
	if t == nil || t.Op != "rand" {
		return "it is " + clip(t)
	}
	if l, ok := ai.Len(t).IsInt(); !ok || l < n {
		return "it has " + clip(ai.Len(t)) + " bytes"
	}
	return ""
}

func c24(c *check.Ctx) {
	randomSources(c)
	c.Rule("HELLO", "the random value of every hello that is sent is filled entirely by a successful read of the random source")
	c.Rule("COOKIE", "cookie keys, and the nonce of each cookie, are filled entirely by a successful read of the random source")
	h := explored(c)
	for _, v := range h.views() {
		what := v.Mode()
		typ := int64(hs.SH)
		if v.Client {
			typ = int64(hs.CH)
		}
		for i, m := range v.All(typ) {
			if m.Body == nil {
				continue
			}
			r := ai.Fld(m.Body.Args[0], "Random")
			if !v.Client && r == ai.Mk("gval", "hrrRandomSentinel") {
				continue
			}
			why := fullyRandom(r, 32)
			c.Check(why == "", "HELLO", fmt.Sprintf("%s: hello %d", what, i), v.N.Pos, "in the handshake %s the random value of a hello is not random: %s", what, why)
		}
	}
	for _, m := range []*hs.Role{h.client, h.server} {
		for _, e := range m.Exits {
			for _, a := range e.Acts {
				if a.Op != "iface" || hs.StateType(a) != "QueueHandshakeMessage" {
					continue
				}
				w := e.S.Deep(ai.Wire(e.S, ai.Fld(a.Args[0], "Message")))
				if w.Op != "wire" || w.Args[1].Op != "enc" || w.Args[0] != ai.Int(hs.CH) && w.Args[0] != ai.Int(hs.SH) {
					continue
				}
				r := ai.Fld(w.Args[1].Args[0], "Random")
				if r.Op != "rand" {
					continue
				}
				ok, known := e.S.Eval(ai.Mk("ok", "", r))
				c.Check(ok && known, "HELLO", e.Stage+" read", e.Pos, "the random value of a hello may not have been read")
			}
		}
	}
	c.Min("HELLO", 10)

	u := newUnit(c)
	fn, outs := u.run("NewDefaultCookieProtector")
	n := 0
	for _, o := range outs {
		if fails(o.Result(1)) {
			continue
		}
		n++
		r := o.S.Deep(o.Result(0))
		p := strip(r)
		secret := o.S.Deep(o.S.Pure(o.S.Load(ai.FieldAddr(strip(o.Result(0)), "secret"))))
		why := fullyRandom(secret, 32)
		if why == "" && !known(o, ai.Mk("ok", "", secret)) {
			why = "it may not have been read"
		}
		c.Check(why == "", "COOKIE", "key", o.Pos, "the key of a cookie protector is not random: %s %s", why, clip(p))
	}
	c.Check(fn == nil || n > 0, "COOKIE", "key made", token.NoPos, "no cookie protector can be made")
	fn, outs = u.run("DefaultCookieProtector.NewToken")
	n = 0
	for _, o := range outs {
		if fails(o.Result(1)) {
			continue
		}
		n++
		r := o.S.Deep(o.S.Pure(o.Result(0)))
		why := "it is " + clip(r)
		if r.Op == "cat" {
			nonce := r.Args[0]
			why = fullyRandom(nonce, 16)
			if why == "" && !known(o, ai.Mk("ok", "", nonce)) {
				why = "it may not have been read"
			}
			used := false
			for _, x := range r.Args[1:] {
				used = used || x.Contains(nonce)
			}
			if why == "" && !used {
				why = "it is not used: " + clip(r)
			}
		}
		c.Check(why == "", "COOKIE", "nonce", o.Pos, "the nonce of a cookie is not random: %s", why)
	}
	c.Check(fn == nil || n > 0, "COOKIE", "nonce made", token.NoPos, "no cookie can be made")
	ticketIssue(c)
	keyExchange(c, u)
}

func init() {
	check.Register(&check.Prop{ID: "C24", Explanation: "Every use of randomness in the library and its source; the random values of all hellos on completing paths, of tickets, cookies and key shares.", Run: c24})
}
