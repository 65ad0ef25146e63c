package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/load"
)

// A unit is the analysis of single functions of the package, from the state
// after its initialisation.
type unit struct {
	sticky func(*ai.Term) bool // facts on which to keep paths apart
	c      *check.Ctx
	in     *ai.Interp
	init   *ai.State
	over   map[string]ai.Prim // models used by withEvents
	roots  []*ai.Term         // objects to keep track of
}

var theUnit *unit

func newUnit(c *check.Ctx) *unit {
	if theUnit == nil {
		in := ai.New(c.P)
		in.NoInline = map[string]bool{}
		theUnit = &unit{in: in, init: Initial(in)}
	}
	u := *theUnit
	u.c = c
	return &u
}

func lookup(p *load.Program, name string) *ssa.Function {
	if strings.HasPrefix(name, "syntax.") {
		for _, pkg := range p.SSA.AllPackages() {
			if pkg.Pkg.Path() == p.Main.Types.Path()+"/syntax" {
				return pkg.Func(strings.TrimPrefix(name, "syntax."))
			}
		}
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		return p.Method(name[:i], name[i+1:])
	}
	return p.Func(name)
}

// run analyses a function.  Arguments beyond those given are symbols named
// after the parameters.
func (u *unit) run(name string, args ...*ai.Term) (*ssa.Function, []*ai.Outcome) {
	return u.runFrom(u.init.Clone(), name, args...)
}

func (u *unit) runFrom(s *ai.State, name string, args ...*ai.Term) (*ssa.Function, []*ai.Outcome) {
	fn := lookup(u.c.P, name)
	if fn == nil {
		u.c.Rule("ANCHOR", "the functions that implement the operation exist")
		u.c.Fail("ANCHOR", name, token.NoPos, "the function %s does not exist any more", name)
		return nil, nil
	}
	as := append([]*ai.Term(nil), args...)
	for i := len(as); i < len(fn.Params); i++ {
		as = append(as, ai.Sym(fn.Params[i].Name()))
	}
	for i := range as {
		if as[i] == nil {
			as[i] = ai.Sym(fn.Params[i].Name())
		}
	}
	u.c.Count("")
	var out []*ai.Outcome
	for _, o := range u.in.Run(fn, as, s, u.in.Ctx(name), u.roots) {
		if !o.Panic {
			out = append(out, o)
		}
	}
	return fn, out
}

// fails tells whether a result certainly is an error.
func fails(t *ai.Term) bool {
	for _, a := range t.Alts() {
		if a.Op != "errval" {
			return false
		}
	}
	return true
}

// isCall matches the call of a function, through conversions.
func isCall(t *ai.Term, names ...string) bool {
	if t.Op != "call" {
		return false
	}
	for _, n := range names {
		if t.Call() == n {
			return true
		}
	}
	return false
}

// known tells the truth of a fact in an outcome.
func known(o *ai.Outcome, f *ai.Term) bool {
	v, ok := o.S.Eval(f)
	return ok && v
}

// anyFact tells whether a fact of the given truth satisfies a predicate.
func anyFact(o *ai.Outcome, truth bool, f func(*ai.Term) bool) bool {
	for k, v := range o.S.Facts() {
		if v == truth && f(k) {
			return true
		}
	}
	return false
}

func hasCall(t *ai.Term, name string) bool {
	found := false
	t.Walk(func(x *ai.Term) {
		if x.Op == "call" && x.Call() == name {
			found = true
		}
	})
	return found
}

func factList(o *ai.Outcome) []string {
	var l []string
	for f, v := range o.S.Facts() {
		l = append(l, fmt.Sprint(v, " ", f))
	}
	sort.Strings(l)
	return l
}

// signature schemes, RFC 8446 4.2.3
var schemes = []struct {
	name  string
	code  int64
	kind  string
	hash  int64 // crypto.Hash
	curve string
}{
	{"rsa_pkcs1_sha256", 0x0401, "pkcs1", 5, ""},
	{"rsa_pkcs1_sha384", 0x0501, "pkcs1", 6, ""},
	{"rsa_pkcs1_sha512", 0x0601, "pkcs1", 7, ""},
	{"ecdsa_secp256r1_sha256", 0x0403, "ecdsa", 5, "P256"},
	{"ecdsa_secp384r1_sha384", 0x0503, "ecdsa", 6, "P384"},
	{"ecdsa_secp521r1_sha512", 0x0603, "ecdsa", 7, "P521"},
	{"rsa_pss_rsae_sha256", 0x0804, "pss", 5, ""},
	{"rsa_pss_rsae_sha384", 0x0805, "pss", 6, ""},
	{"rsa_pss_rsae_sha512", 0x0806, "pss", 7, ""},
	{"rsa_pkcs1_sha1", 0x0201, "none", 0, ""},
	{"ecdsa_sha1", 0x0203, "none", 0, ""},
	{"ed25519", 0x0807, "none", 0, ""},
	{"ed448", 0x0808, "none", 0, ""},
	{"rsa_pss_pss_sha256", 0x0809, "none", 0, ""},
	{"no scheme", 0, "none", 0, ""},
	{"an unassigned scheme", 0xfe01, "none", 0, ""},
}

// pssOpts matches RSA-PSS options with the hash and a salt of its length.
func pssOpts(t *ai.Term, hash *ai.Term) bool {
	for t.Op == "iface" || t.Op == "to" {
		t = t.Args[0]
	}
	if t.Op != "struct" && len(t.Args) != 2 {
		return false
	}
	salt, h := ai.Fld(t, "SaltLength"), ai.Fld(t, "Hash")
	okHash := h == hash || h == ai.Int(0)
	n, _ := hash.IsInt()
	okSalt := salt == ai.Mk("hsize", "", hash) || salt == ai.Int(-1) || salt == ai.Int(map[int64]int64{5: 32, 6: 48, 7: 64}[n])
	return okHash && okSalt
}

func curveFact(o *ai.Outcome, key func(*ai.Term) bool, curve string) bool {
	mentions := func(x *ai.Term) (k, c bool) {
		c = hasCall(x, "crypto/elliptic."+curve)
		x.Walk(func(y *ai.Term) { k = k || key(y) })
		return
	}
	return anyFact(o, true, func(f *ai.Term) bool {
		if f.Op != "eqb" && f.Op != "eq" {
			return false
		}
		k0, c0 := mentions(f.Args[0])
		k1, c1 := mentions(f.Args[1])
		return k0 && c1 && !c0 || k1 && c0 && !c1
	})
}

func isAsserted(t *ai.Term, typ string, x *ai.Term) bool {
	return t.Op == "asserted:"+typ && t.Args[0] == x
}

func c27(c *check.Ctx) {
	u := newUnit(c)
	c.Rule("VERIFY", "a signature is accepted only by the primitive of the scheme, with a key of the scheme's type and curve, over the scheme's hash of the input")
	c.Rule("SIGN", "a signature is made only by the primitive of the scheme, with a key of the scheme's type and curve, over the scheme's hash of the input")
	c.Rule("FITS", "a scheme is found fit only for keys of its type and curve, and never with SHA-1")
	c.Rule("SUPPORTED", "every scheme of the protocol that the package implements can be used with a key of its type")
	for _, sc := range schemes {
		alg := ai.Int(sc.code)
		h := ai.Int(sc.hash)
		pub, input, sig := ai.Sym("the public key"), ai.Sym("the input"), ai.Sym("the signature")
		digest := ai.Mk("hash", "", h, input)
		// verification
		fn, outs := u.run("verify", alg, pub, input, sig)
		good := 0
		for _, o := range outs {
			if fails(o.Result(0)) {
				c.OK("VERIFY", sc.name+" rejects")
				continue
			}
			// which error the primitive reports is its own business
			why := ""
			rsa := func(x *ai.Term) bool { return isAssertedTo(x, "*crypto/rsa.PublicKey", pub) }
			ec := func(x *ai.Term) bool { return isAssertedTo(x, "*crypto/ecdsa.PublicKey", pub) }
			switch sc.kind {
			case "none":
				why = "a signature of this scheme must not be accepted"
			case "pss", "pkcs1":
				ok := anyFact(o, true, func(f *ai.Term) bool {
					if f.Op != "ok" || f.Args[0].Op != "call" {
						return false
					}
					k := f.Args[0]
					switch {
					case sc.kind == "pss" && isCall(k, "crypto/rsa.VerifyPSS") && len(k.Args) == 5:
						return rsa(k.Args[0]) && k.Args[1] == h && k.Args[2] == digest && k.Args[3] == sig && pssOpts(k.Args[4], h)
					case sc.kind == "pkcs1" && isCall(k, "crypto/rsa.VerifyPKCS1v15") && len(k.Args) == 4:
						return rsa(k.Args[0]) && k.Args[1] == h && k.Args[2] == digest && k.Args[3] == sig
					}
					return false
				})
				if !ok {
					why = "it is accepted without a successful verification of the hash of the input by the scheme's primitive"
				}
			case "ecdsa":
				parsed := func(t *ai.Term, field string) bool {
					return t.Op == "fld" && t.Aux == field && hasCall(t, "encoding/asn1.Unmarshal") && t.Contains(sig)
				}
				ok := anyFact(o, true, func(f *ai.Term) bool {
					if isCall(f, "crypto/ecdsa.Verify") && len(f.Args) == 4 {
						return ec(f.Args[0]) && f.Args[1] == digest && parsed(f.Args[2], "R") && parsed(f.Args[3], "S")
					}
					if isCall(f, "crypto/ecdsa.VerifyASN1") && len(f.Args) == 3 {
						return ec(f.Args[0]) && f.Args[1] == digest && f.Args[2] == sig
					}
					return false
				})
				if !ok {
					why = "it is accepted without a successful verification of the hash of the input by the scheme's primitive"
				} else if !curveFact(o, ec, sc.curve) {
					why = "it is accepted although the key may not be on the scheme's curve"
				}
			}
			good++
			c.Check(why == "", "VERIFY", sc.name+" accepts", fn.Pos(), "%s: %s", sc.name, why)
		}
		if sc.kind != "none" && fn != nil {
			c.Check(good > 0, "SUPPORTED", "verify "+sc.name, fn.Pos(), "no signature of %s is ever accepted", sc.name)
		}
		// signing
		priv := ai.Sym("the private key")
		fn, outs = u.run("sign", alg, priv, input)
		good = 0
		for _, o := range outs {
			if fails(o.Result(1)) {
				c.OK("SIGN", sc.name+" refuses")
				continue
			}
			why := ""
			isKey := func(typ string) func(x *ai.Term) bool {
				return func(x *ai.Term) bool { return isAssertedTo(x, typ, priv) }
			}
			mk := func(typ string, opts func(*ai.Term) bool) bool {
				r := o.S.Deep(o.S.Pure(o.Result(0)))
				if r.Op != "res" || r.Aux != "0" || r.Args[0].Op != "call" {
					return false
				}
				k := r.Args[0]
				if !known(o, ai.Mk("ok", "", k)) {
					return false
				}
				if !strings.HasSuffix(k.Call(), ".Sign") || len(k.Args) != 4 {
					return false
				}
				if k.Args[0] != priv && !isKey(typ)(k.Args[0]) {
					return false
				}
				return k.Args[2] == digest && opts(k.Args[3]) && known(o, ai.Mk("istype", typ, priv))
			}
			switch sc.kind {
			case "none":
				why = "a signature of this scheme must not be made"
			case "pss":
				if !mk("*crypto/rsa.PrivateKey", func(x *ai.Term) bool { return pssOpts(x, h) }) {
					why = "the signature is not the scheme's over the hash of the input"
				}
			case "pkcs1":
				if !mk("*crypto/rsa.PrivateKey", func(x *ai.Term) bool {
					for x.Op == "iface" {
						x = x.Args[0]
					}
					return x == h
				}) {
					why = "the signature is not the scheme's over the hash of the input"
				}
			case "ecdsa":
				if !mk("*crypto/ecdsa.PrivateKey", func(*ai.Term) bool { return true }) {
					why = "the signature is not the scheme's over the hash of the input"
				} else if !curveFact(o, isKey("*crypto/ecdsa.PrivateKey"), sc.curve) {
					why = "the key may not be on the scheme's curve"
				}
			}
			good++
			c.Check(why == "", "SIGN", sc.name+" signs", fn.Pos(), "%s: %s", sc.name, why)
		}
		if sc.kind != "none" && fn != nil {
			c.Check(good > 0, "SUPPORTED", "sign "+sc.name, fn.Pos(), "no signature of %s is ever made", sc.name)
		}
		// selection
		fn, outs = u.run("schemeValidForKey", alg, priv)
		good = 0
		for _, o := range outs {
			v, ok := o.Result(0).IsBool()
			if !ok {
				if t, known := o.S.Eval(o.Result(0)); known {
					v, ok = t, true
				}
			}
			if ok && !v {
				c.OK("FITS", sc.name+" does not fit")
				continue
			}
			if !ok {
				o.S.Assume(o.Result(0), true)
			}
			why := ""
			switch sc.kind {
			case "none":
				why = "this scheme must not be used"
			case "pss", "pkcs1":
				if !known(o, ai.Mk("istype", "*crypto/rsa.PrivateKey", priv)) {
					why = "the key may not be an RSA key"
				}
			case "ecdsa":
				if !known(o, ai.Mk("istype", "*crypto/ecdsa.PrivateKey", priv)) {
					why = "the key may not be an ECDSA key"
				} else if !curveFact(o, func(x *ai.Term) bool { return isAssertedTo(x, "*crypto/ecdsa.PrivateKey", priv) }, sc.curve) {
					why = "the key may not be on the scheme's curve"
				}
			}
			good++
			c.Check(why == "", "FITS", sc.name+" fits", fn.Pos(), "%s: %s", sc.name, why)
		}
		if sc.kind != "none" && fn != nil {
			c.Check(good > 0, "SUPPORTED", "select "+sc.name, fn.Pos(), "%s is never found fit", sc.name)
		}
	}
	c.Min("VERIFY", len(schemes))
	c.Min("SIGN", len(schemes))
	c.Min("FITS", len(schemes))
	keyExchange(c, u)
	for n := range u.in.Notes {
		c.Fail("VERIFY", n, token.NoPos, "not decided: %s", n)
	}
}

// isAssertedTo matches x as a value of a type, or a pointer made from it.
func isAssertedTo(t *ai.Term, typ string, x *ai.Term) bool {
	for t.Op == "to" || t.Op == "deref" {
		t = t.Args[0]
	}
	return t.Op == "asserted" && t.Args[0] == x && strings.HasSuffix(t.Aux, typ) || t.Op == "asserted:"+typ && t.Args[0] == x
}

var groups = []struct {
	name  string
	code  int64
	kind  string
	size  int64
	curve string
}{
	{"secp256r1", 23, "ec", 65, "P256"},
	{"secp384r1", 24, "ec", 97, "P384"},
	{"secp521r1", 25, "ec", 133, "P521"},
	{"x25519", 29, "x25519", 32, ""},
	{"ffdhe2048", 256, "ff", 256, ""},
	{"ffdhe3072", 257, "ff", 384, ""},
	{"ffdhe4096", 258, "ff", 512, ""},
	{"ffdhe6144", 259, "ff", 768, ""},
	{"ffdhe8192", 260, "ff", 1024, ""},
	{"no group", 0, "none", 0, ""},
	{"x448", 30, "none", 0, ""},
	{"an unassigned group", 0x1234, "none", 0, ""},
}

// cmpFacts are the results of a comparison that the facts allow.
func cmpFacts(o *ai.Outcome, cmp *ai.Term) map[int64]bool {
	res := map[int64]bool{}
	for _, v := range []int64{-1, 0, 1} {
		ok := true
		for f, truth := range o.S.Facts() {
			if len(f.Args) != 2 || f.Op != "lt" && f.Op != "eq" && f.Op != "le" {
				continue
			}
			var a, b int64
			var ok1, ok2 bool
			if f.Args[0] == cmp {
				a, ok1 = v, true
				b, ok2 = f.Args[1].IsInt()
			} else if f.Args[1] == cmp {
				b, ok2 = v, true
				a, ok1 = f.Args[0].IsInt()
			}
			if !ok1 || !ok2 {
				continue
			}
			var holds bool
			switch f.Op {
			case "lt":
				holds = a < b
			case "le":
				holds = a <= b
			default:
				holds = a == b
			}
			if holds != truth {
				ok = false
			}
		}
		if ok {
			res[v] = true
		}
	}
	return res
}

func bigCall(t *ai.Term, m string) bool { return isCall(t, "big."+m) }

// fromBytes matches the number of a byte string.
func fromBytes(t, b *ai.Term) bool { return bigCall(t, "SetBytes") && t.Args[0] == b }

func smallInt(t *ai.Term, n int64) bool {
	return bigCall(t, "Int") && t.Args[0] == ai.Int(n)
}

// minus matches p - n.
func minus(t, p *ai.Term, n int64) bool {
	return bigCall(t, "Sub") && t.Args[0] == p && smallInt(t.Args[1], n)
}

// padded matches the bytes of a number, padded with zeros to a length.
func padded(t, n *ai.Term, num func(*ai.Term) bool) bool {
	if t.Op != "bufv" || len(t.Args) != 2 || t.Args[0] != n {
		return false
	}
	w := t.Args[1]
	if w.Op != "w" || len(w.Args) != 2 {
		return false
	}
	x := w.Args[1]
	return w.Args[0] == ai.Add(n, ai.Len(x), -1) && bigCall(x, "Bytes") && num(x.Args[0])
}

func keyExchange(c *check.Ctx, u *unit) {
	c.Rule("AGREE", "a shared secret is computed only for a supported group, from a peer value of the group's size that is a valid element, and is the group's operation on it and the private key, in full width")
	c.Rule("SHARE", "a key share is made only for a supported group, of its size, from a private key of the secure random source")
	pub, priv := ai.Sym("the peer's value"), ai.Sym("the private key")
	for _, g := range groups {
		fn, outs := u.run("keyAgreement", ai.Int(g.code), pub, priv)
		good := 0
		for _, o := range outs {
			if fails(o.Result(1)) {
				c.OK("AGREE", g.name+" refuses")
				continue
			}
			good++
			r := o.S.Deep(o.S.Pure(o.Result(0)))
			bad := func(ok bool, construct, msg string) {
				c.Check(ok, "AGREE", g.name+": "+construct, fn.Pos(), "%s: %s", g.name, msg)
			}
			if g.kind == "none" {
				bad(false, "supported", "a secret is computed for a group that is not supported")
				continue
			}
			if isCall(unres(r), "golang.org/x/crypto/curve25519.X25519") && g.kind == "x25519" {
				k := unres(r)
				bad(k.Args[0] == priv && k.Args[1] == pub && known(o, ai.Mk("ok", "", k)), "secret", "the secret is not the checked result of the exchange")
				continue
			}
			bad(known(o, ai.Eq(ai.Len(pub), ai.Int(g.size))) || isLen(o, pub, g.size), "size", "the peer's value may not have the size of the group's elements")
			switch g.kind {
			case "ec":
				var un *ai.Term
				onCurve := anyFact(o, false, func(f *ai.Term) bool {
					if f.Op != "eq" || f.Args[1] != ai.Nil || f.Args[0].Op != "res" {
						return false
					}
					k := f.Args[0].Args[0]
					if isCall(k, "crypto/elliptic.Unmarshal") && isCall(k.Args[0], "crypto/elliptic."+g.curve) && k.Args[1] == pub {
						un = k
						return true
					}
					return false
				})
				bad(onCurve, "valid", "the peer's value may not be a point of the curve")
				if un == nil {
					continue
				}
				x, y := ai.Mk("res", "0", un), ai.Mk("res", "1", un)
				mult := func(t *ai.Term) bool {
					if t.Op != "res" || t.Aux != "0" {
						return false
					}
					k := t.Args[0]
					if !isCall(k, "(*crypto/elliptic.CurveParams).ScalarMult", "invoke:crypto/elliptic.Curve.ScalarMult") || len(k.Args) != 4 {
						return false
					}
					return hasCall(k.Args[0], "crypto/elliptic."+g.curve) && k.Args[1] == x && k.Args[2] == y && k.Args[3] == priv
				}
				bad(paddedField(r, g.curve, (g.size-1)/2, mult), "secret", "the secret is not the x coordinate of the product, in full width: "+clip(r))
			case "ff":
				// the operands come from the result
				var exp *ai.Term
				r.Walk(func(t *ai.Term) {
					if bigCall(t, "Exp") {
						exp = t
					}
				})
				if exp == nil || len(exp.Args) != 3 {
					bad(false, "secret", "the secret is not a power of the peer's value")
					continue
				}
				p := exp.Args[2]
				prime := primeTerm(p)
				bad(prime == ffdhePrimes[g.code], "prime", "the modulus is not the prime of the group: "+clip(p))
				bad(padded(r, ai.Int(g.size), func(t *ai.Term) bool {
					return t == exp && fromBytes(exp.Args[0], pub) && fromBytes(exp.Args[1], priv)
				}), "secret", "the secret is not the power of the peer's value, in full width: "+clip(r))
				low, high := false, false
				for f := range o.S.Facts() {
					for _, a := range f.Args {
						if !bigCall(a, "Cmp") || len(a.Args) != 2 {
							continue
						}
						l, r, flip := a.Args[0], a.Args[1], int64(1)
						if fromBytes(r, pub) {
							l, r, flip = r, l, -1
						}
						if !fromBytes(l, pub) {
							continue
						}
						can := cmpFacts(o, a)
						gt, eq, lt := can[flip], can[0], can[-flip]
						switch {
						case smallInt(r, 1) && gt && !eq && !lt, smallInt(r, 2) && !lt:
							low = true
						case minus(r, p, 1) && lt && !eq && !gt, minus(r, p, 2) && !gt:
							high = true
						}
					}
				}
				bad(low && high, "valid", "the peer's value may be outside the range of valid values (more than 1 and less than p-1)")
			case "x25519":
				out := o.S.Pure(r)
				if out.Op == "sl" {
					out = out.Args[0]
				}
				ok := out.Op == "havoc" && isCall(out.Args[0], "golang.org/x/crypto/curve25519.ScalarMult") && out.Aux == "0" && len(out.Args[0].Args) == 3 &&
					copied(out.Args[0].Args[1]) == priv && copied(out.Args[0].Args[2]) == pub
				bad(ok, "secret", "the secret is not the product of the peer's value and the private key: "+clip(r))
				notZero := anyFact(o, false, func(f *ai.Term) bool {
					return f.Op == "eqb" && (stripSl(f.Args[0]) == out && isZeros(stripSl(f.Args[1])) || stripSl(f.Args[1]) == out && isZeros(stripSl(f.Args[0])))
				})
				bad(notZero, "valid", "the result may be the degenerate one")
			}
		}
		if g.kind != "none" && fn != nil {
			c.Check(good > 0, "AGREE", g.name+": supported", fn.Pos(), "no exchange in %s ever succeeds", g.name)
		}
		// key shares
		fn, outs = u.run("newKeyShare", ai.Int(g.code))
		good = 0
		for _, o := range outs {
			if fails(o.Result(2)) {
				c.OK("SHARE", g.name+" refuses")
				continue
			}
			good++
			bad := func(ok bool, construct, msg string) {
				c.Check(ok, "SHARE", g.name+": "+construct, fn.Pos(), "%s: %s", g.name, msg)
			}
			pb, pv := o.S.Deep(o.S.Pure(o.Result(0))), o.S.Deep(o.S.Pure(o.Result(1)))
			switch g.kind {
			case "none":
				bad(false, "supported", "a key share is made for a group that is not supported")
			case "ec":
				k := unres(pv)
				ok := pv.Op == "res" && pv.Aux == "0" && isCall(k, "crypto/elliptic.GenerateKey") && isCall(k.Args[0], "crypto/elliptic."+g.curve) && isRandom(k.Args[1])
				bad(ok, "private", "the private key is not a random one of the curve: "+clip(pv))
				bad(isCall(pb, "crypto/elliptic.Marshal") && isCall(pb.Args[0], "crypto/elliptic."+g.curve) && pb.Args[1] == ai.Mk("res", "1", k) && pb.Args[2] == ai.Mk("res", "2", k), "public", "the public value is not that of the private key: "+clip(pb))
				bad(known(o, ai.Mk("ok", "", k)), "checked", "the generation of the key may have failed")
			case "ff":
				var num *ai.Term
				if bigCall(pv, "Bytes") {
					num = pv.Args[0]
				}
				ok := num != nil && num.Op == "res" && num.Aux == "0" && isCall(num.Args[0], "crypto/rand.Int") && isRandom(num.Args[0].Args[0]) &&
					primeTerm(num.Args[0].Args[1]) == ffdhePrimes[g.code]
				bad(ok, "private", "the private key is not a random number below the prime: "+clip(pv))
				if !ok {
					continue
				}
				bad(known(o, ai.Mk("ok", "", num.Args[0])), "checked", "the generation of the key may have failed")
				bad(padded(pb, ai.Int(g.size), func(t *ai.Term) bool {
					return bigCall(t, "Exp") && smallInt(t.Args[0], 2) && t.Args[1] == num && primeTerm(t.Args[2]) == ffdhePrimes[g.code]
				}), "public", "the public value is not the generator's power, in full width: "+clip(pb))
			case "x25519":
				bad(strings.HasPrefix(pbOp(pb), "curve25519"), "public", "the public value is not that of the private key: "+clip(pb))
				seed := baseMultSeed(pb)
				same := seed != nil && (pv == seed || stripSl(pv) == seed || pv.Contains(seed))
				bad(same && seed.Op == "rand", "private", "the private key is not random: "+clip(pv))
			}
		}
		if g.kind != "none" && fn != nil {
			c.Check(good > 0, "SHARE", g.name+": supported", fn.Pos(), "no key share in %s is ever made", g.name)
		}
	}
	c.Min("AGREE", len(groups)*2)
	c.Min("SHARE", len(groups)*2)
}

func stripSl(t *ai.Term) *ai.Term {
	for t.Op == "sl" || t.Op == "to" {
		t = t.Args[0]
	}
	return t
}

func pbOp(t *ai.Term) string {
	t = stripSl(t)
	if t.Op == "havoc" && t.Args[0].Op == "call" && t.Aux == "0" {
		n := t.Args[0].Call()
		return n[strings.LastIndex(n, "/")+1:]
	}
	if k := unres(t); isCall(k, "golang.org/x/crypto/curve25519.X25519") {
		return "curve25519.X25519"
	}
	return ""
}

// baseMultSeed is the private key of an X25519 public value.
func baseMultSeed(t *ai.Term) *ai.Term {
	t = stripSl(t)
	switch {
	case t.Op == "havoc" && isCall(t.Args[0], "golang.org/x/crypto/curve25519.ScalarBaseMult"):
		return stripSl(t.Args[0].Args[1])
	case isCall(unres(t), "golang.org/x/crypto/curve25519.X25519"):
		k := unres(t)
		if k.Args[1].Op == "gval" && strings.HasSuffix(k.Args[1].Aux, "Basepoint") {
			return stripSl(k.Args[0])
		}
	}
	return nil
}

func isRandom(t *ai.Term) bool {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t == ai.Mk("gval", "crypto/rand.Reader") || t == ai.Mk("gval", "prng")
}

func isZeros(t *ai.Term) bool {
	return t.Op == "zeros" || t.Op == "bufv" && len(t.Args) == 1
}

func unres(t *ai.Term) *ai.Term {
	for t.Op == "res" {
		t = t.Args[0]
	}
	return t
}

func unTo(t *ai.Term) *ai.Term {
	for t.Op == "to" || t.Op == "ref" {
		t = t.Args[0]
	}
	return t
}

// copied is the string that a pointer's memory was filled with.
func copied(t *ai.Term) *ai.Term {
	t = unTo(t)
	if t.Op == "bufv" && len(t.Args) == 2 && t.Args[1].Args[0] == ai.Int(0) {
		return t.Args[1].Args[1]
	}
	return t
}

// isLen tells whether the length of a string is known.
func isLen(o *ai.Outcome, b *ai.Term, n int64) bool {
	return known(o, ai.Eq(ai.Len(b), ai.Int(n)))
}

// paddedField matches a coordinate padded to the size of the curve's field.
func paddedField(t *ai.Term, curve string, size int64, num func(*ai.Term) bool) bool {
	if padded(t, ai.Int(size), num) {
		return true
	}
	if t.Op != "bufv" || len(t.Args) < 1 {
		return false
	}
	n := t.Args[0]
	// the size is derived from the curve: the length of its prime, or its bit size
	ok := n.Op == "len" && bigCall(n.Args[0], "Bytes") && n.Args[0].Args[0].Op == "fld" && n.Args[0].Args[0].Aux == "P" && hasCall(n, "crypto/elliptic."+curve)
	if !ok {
		ok = strings.Contains(n.String(), "BitSize") && hasCall(n, "crypto/elliptic."+curve)
	}
	return ok && padded(t, n, num)
}

// primeTerm is the hexadecimal text of a prime constant.
func primeTerm(t *ai.Term) string {
	out := ""
	t.Walk(func(x *ai.Term) {
		if s, ok := x.IsStr(); ok && len(s) > 100 {
			out = strings.ToUpper(s)
		}
	})
	return out
}

func init() {
	check.Register(&check.Prop{ID: "C27", Explanation: "Every path through the signature and key exchange functions is summarised, for every scheme and group, from the package's tables in their initial state; what a successful path established is compared with the specification of the scheme or group.", Run: c27})
}
