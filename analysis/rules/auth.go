package rules

import (
	"strings"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

func init() {
	check.Register(&check.Prop{ID: "C02", Explanation: "Every completed client handshake without a pre-shared key must contain, as facts that hold on all paths to it, the signature, chain and callback verifications over exactly the received certificates, and must report those.", Run: c02})
	check.Register(&check.Prop{ID: "C03", Explanation: "Every completed server handshake that reports peer certificates must contain the verification of the client's signature and the callback's acceptance as facts; a non-empty client certificate list without them must not complete.", Run: c03})
	check.Register(&check.Prop{ID: "C04", Explanation: "Every completed handshake that uses a pre-shared key must contain the cache lookup, age, binder and selection checks as facts over the messages exchanged.", Run: c04})
}

// oneOf drops nil from the alternatives of a value that is filled in by a loop.
func solid(t *ai.Term) *ai.Term {
	if t.Op != "alt" {
		return t
	}
	var kept []*ai.Term
	for _, x := range t.Args {
		if x != ai.Nil {
			kept = append(kept, x)
		}
	}
	return ai.Alt(kept...)
}

// purify drops nil alternatives everywhere in a term.
func purify(t *ai.Term) *ai.Term {
	m := map[*ai.Term]*ai.Term{}
	t.Walk(func(x *ai.Term) {
		if x.Op == "alt" {
			if s := solid(x); s != x {
				m[x] = s
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	for i := 0; i < 4; i++ {
		n := ai.Rewrite(t, m, map[*ai.Term]*ai.Term{})
		if n == t {
			break
		}
		t = n
	}
	return t
}

const (
	serverContext = "                                                                TLS 1.3, server CertificateVerify\x00"
	clientContext = "                                                                TLS 1.3, client CertificateVerify\x00"
)

// verified checks that the signature of the last CertificateVerify received
// was verified with the leaf of the certificate message before it.
func verified(c *check.Ctx, v *hs.View, rule, context string) bool {
	var ct, cv int = -1, -1
	for i, m := range v.Msgs {
		if m.Sent {
			continue
		}
		if m.Type == hs.CT {
			ct = i
		}
		if m.Type == hs.CV {
			cv = i
		}
	}
	what := v.Mode() + ": signature"
	if !c.Check(ct >= 0 && cv > ct, rule, what, v.N.Pos, "no CertificateVerify after the peer's Certificate is accepted") {
		return false
	}
	list := ai.Fld(hs.Dec(v.Msgs[ct].Recv, "CertificateBody"), "CertificateList")
	leaf := ai.Fld(ai.Elem(list, ai.Int(0)), "CertData")
	cvb := hs.Dec(v.Msgs[cv].Recv, "CertificateVerifyBody")
	alg := v.Norm(ai.Fld(cvb, "Algorithm"))
	want := v.Norm(ai.Cat(ai.Str(context), v.Hash(transcript(v, cv-1)...)))
	diff := "no signature is verified"
	for _, f := range v.Find("ok") {
		t := f.Args[0]
		if t.Call() != "verify" {
			continue
		}
		t = purify(v.Norm(t))
		key := t.Args[1]
		switch {
		case t.Args[0] != alg:
			diff = "the scheme is " + clip(t.Args[0]) + ", not the one of the message"
		case key != v.Norm(ai.Mk("fld", "PublicKey", ai.Mk("deref", "", leaf))) && key != v.Norm(ai.Fld(ai.Mk("deref", "", leaf), "PublicKey")):
			diff = "the key is " + clip(key) + ", not the leaf's"
		case t.Args[2] != want:
			diff = "the signed content differs: " + hs.Diff(t.Args[2], want)
		case t.Args[3] != v.Norm(ai.Fld(cvb, "Signature")):
			diff = "the signature is " + clip(t.Args[3])
		default:
			diff = ""
		}
		if diff == "" {
			break
		}
	}
	return c.Check(diff == "", rule, what, v.N.Pos, "the handshake %s completes without the peer's signature over the transcript having been verified: %s", v.Mode(), diff)
}

// certList is the certificate list that was received, nil if none was.
func certList(v *hs.View) *ai.Term {
	var list *ai.Term
	for _, m := range v.Msgs {
		if !m.Sent && m.Type == hs.CT {
			list = v.Norm(ai.Fld(hs.Dec(m.Recv, "CertificateBody"), "CertificateList"))
		}
	}
	return list
}

// certs describes a slice of the received certificates.
func eachCert(list *ai.Term, f func(*ai.Term) *ai.Term) *ai.Term {
	return ai.Mk("arrsym", "", ai.Len(list), f(ai.Elem(list, ai.Idx)))
}

// eachOf tells whether t holds f of each element of the list, in order.
func eachOf(t, list *ai.Term, f func(*ai.Term) *ai.Term) bool {
	t = purify(t)
	if t == eachCert(list, f) {
		return true
	}
	if t.Op == "to" && len(t.Args) == 1 {
		return eachOf(t.Args[0], list, f)
	}
	// built by appending in a loop: every element is one of the list's
	if t.Op == "bag" && len(t.Args) == 1 {
		return t.Args[0] == f(ai.Elem(list, ai.Mk("unk", "index")))
	}
	return false
}

func certData(e *ai.Term) *ai.Term { return ai.Fld(e, "CertData") }
func certRaw(e *ai.Term) *ai.Term {
	return ai.Fld(ai.Mk("deref", "", ai.Fld(e, "CertData")), "Raw")
}

// config reads a configuration field.
func config(f string) *ai.Term { return ai.Fld(ai.Sym("Config"), f) }

// callback checks that a configured certificate callback accepted.
func callback(c *check.Ctx, v *hs.View, rule string, chains *ai.Term) {
	cb := config("VerifyPeerCertificate")
	what := v.Mode() + ": callback"
	if val, ok := v.Truth(ai.Eq(cb, ai.Nil)); ok && val {
		c.OK(rule, what)
		return
	}
	list := certList(v)
	why := "it is not called"
	for _, f := range v.Find("ok") {
		t := f.Args[0]
		if t.Call() != "dyn" || len(t.Args) != 3 || v.Norm(t.Args[0]) != v.Norm(cb) {
			continue
		}
		t = v.Norm(t)
		switch {
		case !eachOf(t.Args[1], list, certRaw):
			why = "it is not given the raw certificates: " + clip(t.Args[1])
		case purify(t.Args[2]) != purify(chains):
			why = "it is not given the verified chains: " + clip(t.Args[2])
		default:
			why = ""
		}
	}
	c.Check(why == "", rule, what, v.N.Pos, "the handshake %s completes without the configured certificate callback having accepted: %s", v.Mode(), why)
}

func c02(c *check.Ctx) {
	h := explored(c)
	driver(c, "SETUP")
	c.Rule("SIGNED", "without a pre-shared key the client completes only if the server's CertificateVerify verified with the leaf's key over the transcript, in an offered scheme")
	c.Rule("CHAIN", "unless InsecureSkipVerify is set, the chain verified for the configured name, roots and time")
	c.Rule("CALLBACK", "a configured callback accepted the raw certificates and verified chains")
	c.Rule("REPORTED", "the certificates and chains reported are the ones checked")
	c.Rule("MODE", "the mode of a handshake is determined")
	for _, v := range h.cviews {
		psk, ok := v.Param("UsingPSK").IsBool()
		if !c.Check(ok, "MODE", v.Mode(), v.N.Pos, "whether a handshake uses a pre-shared key is not determined: %s", clip(v.Param("UsingPSK"))) || psk {
			if psk {
				none := v.Field("peerCertificates") == ai.Nil
				c.Check(none, "REPORTED", v.Mode(), v.N.Pos, "certificates are reported without having been received")
			}
			continue
		}
		if !verified(c, v, "SIGNED", serverContext) {
			continue
		}
		list := certList(v)
		alg := ai.Fld(hs.Dec(lastReceived(v, hs.CV), "CertificateVerifyBody"), "Algorithm")
		e, may := hs.SentExt(v.Last(hs.CH).Body, 13)
		c.Check(e != nil && !may && v.Known(ai.Mk("member", "", ai.Fld(e, "Algorithms"), alg)), "SIGNED", v.Mode()+": scheme", v.N.Pos, "the server's signature scheme is not checked against those offered")
		// chain
		leaf := ai.Fld(ai.Elem(list, ai.Int(0)), "CertData")
		var chain *ai.Term
		why := "no chain is verified"
		for _, f := range v.Find("ok") {
			t := v.Norm(f.Args[0])
			if t.Call() != "(*crypto/x509.Certificate).Verify" {
				continue
			}
			t = purify(t)
			if why = chainOptions(t, leaf, list); why == "" {
				chain = ai.Mk("res", "0", t)
				break
			}
		}
		skip, known := v.Truth(config("InsecureSkipVerify"))
		if !(known && skip) {
			c.Check(chain != nil, "CHAIN", v.Mode(), v.N.Pos, "the handshake %s completes although the server's chain was not verified: %s", v.Mode(), why)
		} else {
			c.OK("CHAIN", v.Mode()+" (skipped)")
		}
		chains := purify(v.Field("verifiedChains"))
		ok = chains == ai.Nil
		if chain != nil {
			ok = chains.Op == "res" && chains.Args[0] == chain.Args[0]
		}
		c.Check(ok, "REPORTED", v.Mode()+": chains", v.N.Pos, "the verified chains reported are %s, not the result of verification", clip(chains))
		c.Check(eachOf(v.Field("peerCertificates"), list, certData), "REPORTED", v.Mode()+": certificates", v.N.Pos, "the certificates reported are %s, not those received", clip(v.Field("peerCertificates")))
		callback(c, v, "CALLBACK", chains)
	}
	c.Min("SIGNED", 8)
	c.Min("CHAIN", 4)
	c.Min("CALLBACK", 4)
	c.Min("REPORTED", 8)
	reported(c, "PeerCertificates", "VerifiedChains")
	reported(c, "PeerCertificates", "VerifiedChains")
}

func lastReceived(v *hs.View, typ int64) *ai.Term {
	var r *ai.Term
	for _, m := range v.Msgs {
		if !m.Sent && m.Type == typ {
			r = m.Recv
		}
	}
	return r
}

// chainOptions checks a call of Certificate.Verify.
func chainOptions(t, leaf, list *ai.Term) string {
	if t.Args[0] != leaf {
		return "the certificate verified is " + clip(t.Args[0]) + ", not the leaf"
	}
	o := t.Args[1]
	if n := ai.Fld(o, "DNSName"); n != config("ServerName") && n != ai.Fld(ai.Sym("Opts"), "ServerName") {
		return "the name verified is " + clip(n)
	}
	if r := ai.Fld(o, "Roots"); r != config("RootCAs") {
		return "the roots are " + clip(r)
	}
	if u := ai.Fld(o, "KeyUsages"); u != ai.Nil && !(u.Op == "list" && len(u.Args) == 1 && u.Args[0] == ai.Int(1)) {
		return "the key usages accepted are " + clip(u)
	}
	for _, x := range ai.Fld(o, "CurrentTime").Alts() {
		now := x.Call() == "time.Now"
		cfg := x.Call() == "dyn" && x.Args[0] == config("Time")
		if !now && !cfg {
			return "the time is " + clip(x)
		}
	}
	in := ai.Fld(o, "Intermediates")
	if in.Op == "to" {
		in = in.Args[0]
	}
	if in.Op != "bag" || in.Aux != "certpool" {
		return "the intermediates are " + clip(in)
	}
	some := false
	for _, x := range in.Args {
		if x == ai.Nil {
			continue
		}
		if x.Op != "fld" || x.Aux != "CertData" || x.Args[0].Op != "elem" || x.Args[0].Args[0] != list {
			return "an intermediate is " + clip(x)
		}
		some = true
	}
	if !some {
		return "no received certificate is used as an intermediate"
	}
	return ""
}

func c03(c *check.Ctx) {
	h := explored(c)
	c.Rule("SIGNED", "a server completes a handshake with a client certificate only if the client's CertificateVerify verified with the leaf's key over the transcript, in a scheme it requested")
	c.Rule("CALLBACK", "a configured callback accepted the raw certificates")
	c.Rule("REPORTED", "a server reports exactly the certificates checked, and none otherwise")
	c.Rule("ASKED", "a server that requires client authentication asks for it in every handshake without a pre-shared key")
	for _, v := range h.sviews {
		what := v.Mode()
		req, known := v.Truth(config("RequireClientAuth"))
		psk, ok := v.Param("UsingPSK").IsBool()
		c.Check(ok, "ASKED", what+": mode", v.N.Pos, "whether a handshake uses a pre-shared key is not determined")
		if !psk {
			cr := v.First(hs.CR)
			c.Check(cr != nil || known && !req, "ASKED", what, v.N.Pos, "the handshake %s completes without client authentication having been requested, although it may be required", what)
			if cr != nil {
				c.Check(cr.Sent && v.First(hs.CT) != nil && lastReceived(v, hs.CT) != nil, "ASKED", what+": answered", v.N.Pos, "the handshake completes without an answer to the certificate request")
			}
		}
		reported := purify(v.Field("peerCertificates"))
		ct := lastReceived(v, hs.CT)
		if ct == nil {
			c.Check(reported == ai.Nil, "REPORTED", what, v.N.Pos, "certificates are reported without having been received: %s", clip(reported))
			continue
		}
		list := certList(v)
		if lastReceived(v, hs.CV) == nil {
			empty := v.Known(ai.Eq(ai.Len(list), ai.Int(0)))
			c.Check(empty, "SIGNED", what+": unproven", v.N.Pos, "the handshake %s completes without CertificateVerify although the client's certificate list may not be empty", what)
			none := reported == ai.Nil || reported == ai.Mk("list", reported.Aux) || v.Same(ai.Len(reported), ai.Int(0)) || v.Known(ai.Eq(ai.Len(reported), ai.Int(0)))
			c.Check(none, "REPORTED", what, v.N.Pos, "certificates are reported without proof of possession: %s", clip(reported))
			continue
		}
		if !verified(c, v, "SIGNED", clientContext) {
			continue
		}
		alg := ai.Fld(hs.Dec(lastReceived(v, hs.CV), "CertificateVerifyBody"), "Algorithm")
		e, may := hs.SentExt(v.First(hs.CR).Body, 13)
		c.Check(e != nil && !may && v.Known(ai.Mk("member", "", ai.Fld(e, "Algorithms"), alg)), "SIGNED", what+": scheme", v.N.Pos, "the client's signature scheme is not checked against those requested")
		c.Check(eachOf(reported, list, certData), "REPORTED", what, v.N.Pos, "the certificates reported are %s, not those received", clip(reported))
		callback(c, v, "CALLBACK", ai.Nil)
	}
	c.Min("SIGNED", 4)
	c.Min("CALLBACK", 2)
	c.Min("REPORTED", 10)
	c.Min("ASKED", 10)
	reported(c, "PeerCertificates", "VerifiedChains")
}

// binder is the value that proves possession of a pre-shared key.
func binder(v *hs.View, k *ai.Term, context []*ai.Term) (*ai.Term, string) {
	res, ok := v.Truth(ai.Fld(k, "IsResumption"))
	if !ok {
		return nil, "whether the key is a resumption key was not determined"
	}
	label := "ext binder"
	if res {
		label = "res binder"
	}
	suite := v.Norm(ai.Fld(k, "CipherSuite"))
	params := v.Norm(ai.Mk("mapget", "", ai.Mk("gval", "cipherSuiteMap"), suite))
	h := v.Norm(ai.Fld(params, "Hash"))
	n := ai.Mk("hsize", "", h)
	h0 := ai.Mk("hash", "", h, ai.Empty)
	early := ai.Mk("hkdfx", "", h, ai.Mk("zeros", "", n), ai.Fld(k, "Key"))
	bk := ai.Mk("hkdfl", "", h, early, ai.Str(label), h0, n)
	fk := ai.Mk("hkdfl", "", h, bk, ai.Str("finished"), ai.Empty, n)
	return v.Norm(ai.Mk("hmac", "", h, fk, ai.Mk("hash", "", h, ai.Cat(context...)))), ""
}

func c04(c *check.Ctx) {
	h := explored(c)
	c.Rule("LOOKUP", "a server uses the key that its cache returned for an identity that the client listed")
	c.Rule("AGE", "a resumption key is used only while it is valid, and by a server only at the age its ticket claims")
	c.Rule("BINDER", "the binder at the identity's position equals, and a client's binder is, the one computed from the key over the retry transcript and the truncated ClientHello")
	c.Rule("SELECTED", "a client accepts a pre-shared key only if it offered one in this ClientHello, the server selected its identity, and the suite has the key's hash")
	c.Rule("ABORT", "a ServerHello that selects a pre-shared key leads to a handshake with that key, and no other does")
	for _, v := range h.sviews {
		what := v.Mode()
		psk, ok := v.Param("UsingPSK").IsBool()
		c.Check(ok, "ABORT", what, v.N.Pos, "whether the handshake uses a pre-shared key is not determined")
		sh := v.Last(hs.SH)
		e, may := hs.SentExt(sh.Body, 41)
		c.Check((e != nil) == psk && !may, "ABORT", what+": ServerHello", v.N.Pos, "the ServerHello of %s does not announce exactly the use of a pre-shared key", what)
		if !psk {
			continue
		}
		k, why := pskOf(v)
		if !c.Check(why == "", "LOOKUP", what, v.N.Pos, "%s", why) {
			continue
		}
		ch := v.First(hs.CH)
		ext := v.Ext(ch.Recv, "ClientHelloBody", "PreSharedKeyExtension", 41)
		ids := v.Norm(ai.Fld(ext, "Identities"))
		get := k.Args[0] // the call
		found := ai.Mk("res", "1", get)
		id := identityOf(get)
		pos := (*ai.Term)(nil)
		if id != nil && id.Op == "fld" && id.Aux == "Identity" && id.Args[0].Op == "elem" && id.Args[0].Args[0] == ids {
			pos = id.Args[0].Args[1]
		}
		if !c.Check(pos != nil, "LOOKUP", what+": identity", v.N.Pos, "the key is looked up under %s, not an identity the client listed", clip(get)) {
			continue
		}
		c.Check(v.Known(found), "LOOKUP", what+": found", v.N.Pos, "a key is used without the cache having reported it")
		if e != nil {
			c.Check(v.Same(ai.Fld(e, "SelectedIdentity"), pos) || stripConv(v.Norm(ai.Fld(e, "SelectedIdentity"))) == pos, "LOOKUP", what+": selected", v.N.Pos, "the ServerHello selects identity %s, not the one of the key used (%s)", clip(ai.Fld(e, "SelectedIdentity")), clip(pos))
		}
		// age
		c.Check(unexpired(v, k), "AGE", what+": lifetime", v.N.Pos, "the handshake %s uses a key whose lifetime is not checked", what)
		if res, ok := v.Truth(ai.Fld(k, "IsResumption")); !ok || res {
			why := ticketAge(v, k, ai.Elem(ids, pos))
			c.Check(why == "", "AGE", what+": ticket age", v.N.Pos, "the handshake %s uses a resumption key whose ticket age is not checked: %s", what, why)
		}
		// binder
		var ctx []*ai.Term
		if v.Retry() {
			ctx = append(ctx, retryPrefix(v)...)
		}
		ctx = append(ctx, ai.Mk("trunc", "", ai.Mk("dec", "ClientHelloBody", v.Norm(ai.Fld(ch.Recv, "body")))))
		want, why := binder(v, k, ctx)
		if !c.Check(why == "", "BINDER", what, v.N.Pos, "%s", why) {
			continue
		}
		given := v.Norm(ai.Fld(ai.Elem(ai.Fld(ext, "Binders"), pos), "Binder"))
		diff := "no comparison with the binder at the identity's position"
		for _, f := range v.Find("eqb") {
			a, b := v.Norm(f.Args[0]), v.Norm(f.Args[1])
			if b == given {
				a, b = b, a
			}
			if a != given {
				continue
			}
			if b == want {
				diff = ""
				break
			}
			diff = hs.Diff(b, want)
		}
		c.Check(diff == "", "BINDER", what, v.N.Pos, "the handshake %s uses a pre-shared key although the client's binder is not verified: %s", what, diff)
	}
	for _, v := range h.cviews {
		what := v.Mode()
		psk, ok := v.Param("UsingPSK").IsBool()
		c.Check(ok, "SELECTED", what, v.N.Pos, "whether the handshake uses a pre-shared key is not determined")
		sh := v.Last(hs.SH)
		has, known := v.Truth(hasExt(sh.Recv, "ServerHelloBody", 41))
		c.Check(known && has == psk, "ABORT", what, v.N.Pos, "the handshake %s completes although the ServerHello's selection of a pre-shared key may say otherwise", what)
		for i := range v.Msgs {
			m := &v.Msgs[i]
			if m.Type != hs.CH || !m.Sent {
				continue
			}
			e, may := hs.SentExt(m.Body, 41)
			if e == nil {
				continue
			}
			if may {
				c.Check(!psk, "SELECTED", what+": offered", v.N.Pos, "a pre-shared key is used that was perhaps not offered")
				continue
			}
			k, why := offeredPSK(v, m)
			if !c.Check(why == "", "SELECTED", what+": offer", v.N.Pos, "%s", why) {
				continue
			}
			c.Check(unexpired(v, k), "AGE", what+": lifetime", v.N.Pos, "the handshake %s offers a key whose lifetime is not checked", what)
			var ctx []*ai.Term
			if i > 0 {
				ctx = transcript(v, i-1)
				for j := range ctx {
					ctx[j] = v.Norm(ctx[j])
				}
			}
			bs := v.Norm(ai.Fld(e, "Binders"))
			if !c.Check(bs.Op == "list" && len(bs.Args) == 1, "BINDER", what+": count", v.N.Pos, "the binders sent are %s", clip(bs)) {
				continue
			}
			got := v.Norm(ai.Fld(bs.Args[0], "Binder"))
			ch := v.Norm(m.Body.Args[0])
			ctx = append(ctx, ai.Mk("trunc", "", ch))
			want, why := binder(v, k, ctx)
			if !c.Check(why == "", "BINDER", what, v.N.Pos, "%s", why) {
				continue
			}
			g, w := unbound(got), unbound(want)
			diff := ""
			if g != w {
				diff = hs.Diff(g, w)
			}
			c.Check(g == w, "BINDER", what, v.N.Pos, "the binder that the client sends is not the one prescribed: %s", diff)
		}
		if !psk {
			continue
		}
		k, why := pskOf(v)
		if !c.Check(why == "", "SELECTED", what, v.N.Pos, "%s", why) {
			continue
		}
		sel := ai.Fld(v.Ext(sh.Recv, "ServerHelloBody", "PreSharedKeyExtension", 41), "SelectedIdentity")
		c.Check(v.Same(sel, ai.Int(0)), "SELECTED", what+": identity", v.N.Pos, "the handshake %s completes although the server may have selected an identity that was not offered", what)
		suite := v.Norm(ai.Fld(k, "CipherSuite"))
		hk := v.Norm(ai.Fld(v.Norm(ai.Mk("mapget", "", ai.Mk("gval", "cipherSuiteMap"), suite)), "Hash"))
		c.Check(hk == v.H, "SELECTED", what+": hash", v.N.Pos, "the handshake %s completes although the hash of the selected suite may differ from the key's: %s", what, hs.Diff(hk, v.H))
	}
	c.Min("LOOKUP", 10)
	c.Min("AGE", 10)
	c.Min("BINDER", 10)
	c.Min("SELECTED", 10)
	c.Min("ABORT", 20)
	reported(c, "UsingPSK")
}

func pskOf(v *hs.View) (*ai.Term, string) {
	k, why := psk(v)
	if why == "" && k.Op != "res" {
		return nil, "the key is " + clip(k)
	}
	return k, why
}

// unbound blanks the binders inside truncated ClientHellos: truncation drops
// them.
func unbound(t *ai.Term) *ai.Term {
	m := map[*ai.Term]*ai.Term{}
	t.Walk(func(x *ai.Term) {
		if x.Op == "trunc" {
			y := map[*ai.Term]*ai.Term{}
			x.Walk(func(z *ai.Term) {
				if z.Op == "struct" && strings.HasSuffix(z.Aux, "PreSharedKeyExtension") || z.Op == "struct" && z.Typ != nil && strings.HasSuffix(z.Typ.String(), ".PreSharedKeyExtension") {
					b := ai.Fld(z, "Binders")
					if len(b.Args) > 0 {
						y[b] = ai.Mk("list", "blank")
					}
				}
			})
			if len(y) > 0 {
				m[x] = ai.Rewrite(x, y, map[*ai.Term]*ai.Term{})
			}
		}
	})
	return ai.Rewrite(t, m, map[*ai.Term]*ai.Term{})
}

func stripConv(t *ai.Term) *ai.Term {
	for strings.HasPrefix(t.Op, "conv") {
		t = t.Args[0]
	}
	return t
}

func hasExt(recv *ai.Term, typ string, ext int64) *ai.Term {
	return ai.Mk("hasext", "", ai.Fld(hs.Dec(recv, typ), "Extensions"), ai.Int(ext))
}

// identityOf is the identity under which the cache was asked: the argument of
// the hexadecimal encoding.
func identityOf(get *ai.Term) *ai.Term {
	if len(get.Args) < 2 {
		return nil
	}
	a := get.Args[len(get.Args)-1]
	if a.Call() == "encoding/hex.EncodeToString" {
		return a.Args[0]
	}
	return nil
}

// unexpired tells whether the lifetime of a key was checked: it has none, or
// has not passed.
func unexpired(v *hs.View, k *ai.Term) bool {
	if res, ok := v.Truth(ai.Fld(k, "IsResumption")); ok && !res {
		return true // only resumption keys have a lifetime
	}
	e, r := v.Norm(ai.Fld(k, "ExpiresAt")), v.Norm(ai.Fld(k, "ReceivedAt"))
	now := func(t *ai.Term) bool {
		for _, x := range t.Alts() {
			if !(x.Call() == "time.Now" || x.Call() == "dyn") {
				return false
			}
		}
		return true
	}
	good := func(f *ai.Term, val bool) bool {
		for f.Op == "not" {
			f, val = f.Args[0], !val
		}
		if f.Op != "call" || len(f.Args) != 2 {
			return false
		}
		a, b := v.Norm(f.Args[0]), v.Norm(f.Args[1])
		switch f.Aux {
		case "(time.Time).After":
		case "(time.Time).Before":
			a, b = b, a
		default:
			return false
		}
		// a after b
		if val {
			return a == e && now(b)
		}
		return now(a) && b == e || a == e && b == r
	}
	for f, val := range v.S.Facts() {
		if f.Op == "or" && val {
			all := true
			for _, l := range f.Args {
				all = all && good(l, true)
			}
			if all {
				return true
			}
		} else if good(f, val) {
			return true
		}
	}
	return false
}

// ticketAge explains why the age of a ticket is not known to be acceptable.
func ticketAge(v *hs.View, k, id *ai.Term) string {
	claimed := v.Norm(ai.Add(ai.Fld(id, "ObfuscatedTicketAge"), ai.Fld(k, "TicketAgeAdd"), -1))
	why := "it is not compared with the time since the ticket was issued"
	for f, val := range v.S.Facts() {
		if f.Op != "lt" || val {
			continue
		}
		tol, ok := f.Args[0].IsInt()
		if !ok {
			continue
		}
		bad := ""
		n := 0
		for _, x := range f.Args[1].Alts() {
			x = v.Norm(stripConv(x))
			d := v.Norm(ai.Add(x, claimed, -1))
			s := v.Norm(ai.Add(x, claimed, 1))
			since := ""
			for _, y := range []*ai.Term{d, s} {
				if y.Contains(ai.Fld(k, "ReceivedAt")) && !y.Contains(ai.Fld(k, "TicketAgeAdd")) && !y.Contains(ai.Fld(id, "ObfuscatedTicketAge")) {
					since = "ok"
				}
			}
			if since == "" {
				bad = "an age compared is " + clip(x)
			}
			n++
		}
		if n > 0 && bad == "" {
			if tol > 60000 {
				return "the tolerance is more than a minute"
			}
			return ""
		}
		if f.Args[1].Contains(ai.Fld(k, "TicketAgeAdd")) {
			why = bad
		}
	}
	return why
}
