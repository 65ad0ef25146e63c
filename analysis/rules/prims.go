package rules

import (
	"fmt"
	"go/token"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// The functions whose meaning the analysis of the handshake takes as given are
// checked here against their definitions.

func byte1(n int64) *ai.Term { return ai.Str(string([]byte{byte(n)})) }

// expandLabel is HKDF-Expand-Label of RFC 8446 7.1 by its definition in terms
// of HMAC (RFC 5869), for a hash function with outputs of hl bytes.
func expandLabel(h *ai.Term, hl int64, secret *ai.Term, label string, context *ai.Term, ctxLen, n int64) *ai.Term {
	full := "tls13 " + label
	info := ai.Cat(byte1(n>>8), byte1(n), byte1(int64(len(full))), ai.Str(full), byte1(ctxLen), context)
	out, t := []*ai.Term{}, ai.Empty
	for i := int64(1); hl*(i-1) < n; i++ {
		t = ai.Mk("hmac", "", h, secret, ai.Cat(t, info, byte1(i)))
		out = append(out, t)
	}
	all := ai.Cat(out...)
	if n == hl*int64(len(out)) {
		return all
	}
	return ai.Sub(all, ai.Int(0), ai.Int(n))
}

// hkdf checks the key derivation functions.
func hkdf(c *check.Ctx) {
	u := newUnit(c)
	u.in.Unroll = map[string]bool{"HkdfExpand": true}
	c.Rule("HKDF", "HkdfExtract and HkdfExpandLabel are the functions of RFC 5869 and RFC 8446 7.1")
	for _, h := range []struct{ code, size int64 }{{5, 32}, {6, 48}} {
		ht := ai.Int(h.code)
		ikm, secret := ai.Sym("the key material"), ai.Sym("the secret")
		// extraction, with and without salt
		for _, withSalt := range []bool{true, false} {
			s := u.init.Clone()
			salt, want := ai.Nil, ai.Mk("zeros", "", ai.Int(h.size))
			if withSalt {
				salt = ai.Sym("the salt")
				want = salt
				s.Assume(ai.Eq(salt, ai.Nil), false)
			}
			fn, outs := u.runFrom(s, "HkdfExtract", ht, salt, ikm)
			for _, o := range outs {
				got := o.S.Deep(o.S.Pure(o.Result(0)))
				c.Check(got == ai.Mk("hmac", "", ht, want, ikm), "HKDF", fmt.Sprintf("HkdfExtract hash %d salt %v", h.code, withSalt), fn.Pos(), "the result is %s", clip(got))
			}
		}
		// expansion, for the lengths and contexts that the protocol uses
		for _, n := range []int64{12, 16, 32, 48, 64, 80, 200} {
			for _, ctx := range []struct {
				t *ai.Term
				n int64
			}{{ai.Empty, 0}, {ai.Mk("hash", "", ht, ai.Sym("the messages")), h.size}} {
				for _, label := range []string{"key", "c hs traffic"} {
					fn, outs := u.run("HkdfExpandLabel", ht, secret, ai.Str(label), ctx.t, ai.Int(n))
					if fn != nil {
						c.Check(len(outs) > 0, "HKDF", "HkdfExpandLabel returns", fn.Pos(), "it does not return")
					}
					for _, o := range outs {
						got := o.S.Deep(o.S.Pure(o.Result(0)))
						want := expandLabel(ht, h.size, secret, label, ctx.t, ctx.n, n)
						c.Check(got == want, "HKDF", fmt.Sprintf("HkdfExpandLabel hash %d, %q, context of %d bytes, %d bytes", h.code, label, ctx.n, n), fn.Pos(), "the result is %s, not %s", clip(got), clip(want))
					}
				}
			}
		}
	}
	c.Min("HKDF", 2*2+2*7*2*2)
}

// cipher suites, RFC 8446 B.4
var suites = []struct {
	name    string
	code    int64
	hash    int64
	key, iv int64
}{
	{"TLS_AES_128_GCM_SHA256", 0x1301, 5, 16, 12},
	{"TLS_AES_256_GCM_SHA384", 0x1302, 6, 32, 12},
}

// suiteTable checks the table of cipher suites.
func suiteTable(c *check.Ctx) {
	u := newUnit(c)
	c.Rule("SUITES", "the table of cipher suites has the parameters of RFC 8446 B.4 for each suite, and no other suites")
	m := u.init.Load(ai.Mk("glob", "cipherSuiteMap"))
	m = u.init.Deep(m)
	for m.Op == "to" {
		m = m.Args[0]
	}
	if m.Op != "mapc" {
		c.Fail("SUITES", "table", token.NoPos, "the table of cipher suites is not determined: %s", clip(m))
		return
	}
	pos := token.NoPos
	if g := c.P.Main.SSA.Var("cipherSuiteMap"); g != nil {
		pos = g.Pos()
	}
	found := map[int64]*ai.Term{}
	for i := 0; i+1 < len(m.Args); i += 2 {
		if k, ok := m.Args[i].IsInt(); ok {
			found[k] = m.Args[i+1]
		}
	}
	for _, s := range suites {
		e := found[s.code]
		if !c.Check(e != nil, "SUITES", s.name, pos, "the suite is missing") {
			continue
		}
		delete(found, s.code)
		c.Check(ai.Fld(e, "Suite") == ai.Int(s.code), "SUITES", s.name+" code", pos, "the entry's suite is %s", ai.Fld(e, "Suite"))
		c.Check(ai.Fld(e, "Hash") == ai.Int(s.hash), "SUITES", s.name+" hash", pos, "the entry's hash is %s", ai.Fld(e, "Hash"))
		kl := ai.Fld(e, "KeyLengths")
		for kl.Op == "to" {
			kl = kl.Args[0]
		}
		lens := map[string]*ai.Term{}
		if kl.Op == "mapc" {
			for i := 0; i+1 < len(kl.Args); i += 2 {
				k, _ := kl.Args[i].IsStr()
				lens[k] = kl.Args[i+1]
			}
		}
		c.Check(len(lens) == 2 && lens["key"] == ai.Int(s.key) && lens["iv"] == ai.Int(s.iv), "SUITES", s.name+" lengths", pos, "the key lengths are %s", clip(kl))
		// the cipher
		f := ai.Fld(e, "Cipher")
		key := ai.Sym("the key")
		ok := false
		for _, o := range u.in.RunValue(f, []*ai.Term{key}, u.init.Clone(), u.in.Ctx("cipher")) {
			if o.Panic || fails(o.Result(1)) {
				continue
			}
			r := o.S.Deep(o.S.Pure(o.Result(0)))
			k := unres(r)
			block := func(t *ai.Term) bool {
				b := unres(t)
				return isCall(b, "crypto/aes.NewCipher") && b.Args[0] == key && known(o, ai.Mk("ok", "", b))
			}
			ok = isCall(k, "crypto/cipher.NewGCM") && block(k.Args[0]) ||
				isCall(k, "crypto/cipher.NewGCMWithNonceSize") && block(k.Args[0]) && k.Args[1] == ai.Int(12)
			if !ok {
				break
			}
		}
		c.Check(ok, "SUITES", s.name+" cipher", pos, "the cipher is not AES-GCM with nonces of 12 bytes")
	}
	for k := range found {
		c.Fail("SUITES", fmt.Sprintf("suite %#04x", k), pos, "an unknown suite is in the table")
	}
	c.Min("SUITES", 10)
}
