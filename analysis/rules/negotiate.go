package rules

import (
	"go/token"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

func init() {
	check.Register(&check.Prop{ID: "C17", Explanation: "In every completed handshake each negotiated parameter must be, by facts that hold on all paths to it, an element of the client's offer in the messages exchanged and of the local configuration.", Run: c17})
	check.Register(&check.Prop{ID: "C18", Explanation: "Every completed handshake that uses early data must contain its preconditions as facts, and no other sends, reports or keeps early data.", Run: c18})
	check.Register(&check.Prop{ID: "C19", Explanation: "Every handshake with a retry must contain the cookie's authentication and acceptance as facts and bind both hellos; every retry request issued must record the ClientHello it answers.", Run: c19})
}

// memberOf tells whether x is known to be an element of the list.
func memberOf(v *hs.View, list, x *ai.Term) bool {
	list, x = v.Norm(list), v.Norm(x)
	if x.Op == "elem" && x.Args[0] == list {
		return true
	}
	if v.Known(ai.Mk("member", "", list, x)) {
		return true
	}
	// equal to an element
	for _, f := range v.Find("eq") {
		for i := 0; i < 2; i++ {
			e, o := v.Norm(f.Args[i]), v.Norm(f.Args[1-i])
			if o == x && e.Op == "elem" && e.Args[0] == list {
				return true
			}
		}
	}
	if list.Op == "list" {
		for _, e := range list.Args {
			if e == x {
				return true
			}
		}
	}
	return false
}

// within tells whether every element of a list is one of another list.
func within(v *hs.View, list, of *ai.Term) bool {
	list, of = v.Norm(list), v.Norm(of)
	if list == of {
		return true
	}
	if list.Op == "alt" {
		for _, l := range list.Args {
			if !within(v, l, of) {
				return false
			}
		}
		return true
	}
	if list.Op != "list" && list.Op != "bag" {
		return false
	}
	for _, e := range list.Args {
		switch {
		case e.Op == "spread":
			if !within(v, e.Args[0], of) {
				return false
			}
			continue
		case e.Op == "among":
			ok := e.Args[0].Op == "elem" && e.Args[0].Args[0] == of
			for _, l := range e.Args[1:] {
				ok = ok || l == of
			}
			if ok {
				continue
			}
			return false
		case e.Op == "elem" && e.Args[0] == of:
			continue
		}
		if !memberOf(v, of, e) {
			return false
		}
	}
	return true
}

func c17(c *check.Ctx) {
	h := explored(c)
	driver(c, "SETUP")
	c.Rule("VERSION", "the client offers TLS 1.3 only and the server selects it from the offer")
	c.Rule("SUITE", "the cipher suite is in the client's offer and in the local configuration, and is implemented")
	c.Rule("GROUP", "the key exchange group is one the client sent a share for and the local configuration allows")
	c.Rule("SCHEME", "signature schemes are chosen from those the peer announced")
	c.Rule("MODE", "the mode in which a pre-shared key is used is in the client's offer and in the local configuration")
	c.Rule("ALPN", "an application protocol is in the client's offer and in the local configuration")
	tls13 := ai.Int(0x0304)
	for _, v := range h.views() {
		v := v
		what := v.Mode()
		ch, sh := v.Last(hs.CH), v.Last(hs.SH)
		bad := func(ok bool, rule, item, why string) {
			c.Check(ok, rule, what+": "+item, v.N.Pos, "the handshake %s completes although %s", what, why)
		}
		offer := func(ext int64, typ, field string) *ai.Term {
			if v.Client {
				e, may := hs.SentExt(ch.Body, ext)
				if e == nil || may {
					return nil
				}
				return v.Norm(ai.Fld(e, field))
			}
			return v.Norm(ai.Fld(v.Ext(ch.Recv, "ClientHelloBody", typ, ext), field))
		}
		offered := func(rule, item string, list, x *ai.Term) {
			ok := list != nil && memberOf(v, list, x)
			bad(ok, rule, item, "the "+item+" ("+clip(x)+") is not known to be one the client offered ("+clip(list)+")")
		}
		psk, pok := v.Param("UsingPSK").IsBool()
		dh, dok := v.Param("UsingDH").IsBool()
		if !c.Check(pok && dok, "MODE", what+": determined", v.N.Pos, "the mode is not determined") {
			continue
		}
		// version
		versions := offer(43, "SupportedVersionsExtension", "Versions")
		if v.Client {
			e, may := hs.SentExt(ch.Body, 43)
			bad(e != nil && !may && ai.Fld(e, "Versions").Op == "list" && len(ai.Fld(e, "Versions").Args) == 1 && v.Norm(ai.Fld(e, "Versions").Args[0]) == tls13, "VERSION", "offer", "the client does not offer exactly TLS 1.3: "+clip(e))
			bad(v.Known(ai.Eq(ai.Fld(hs.Dec(sh.Recv, "ServerHelloBody"), "Version"), ai.Int(0x0303))), "VERSION", "legacy version", "the ServerHello's legacy version is not checked")
			sel := ai.Fld(v.Ext(sh.Recv, "ServerHelloBody", "SupportedVersionsExtension", 43), "Versions")
			bad(v.Has(sh.Recv, "ServerHelloBody", 43) && v.Same(ai.Elem(sel, ai.Int(0)), tls13), "VERSION", "selection", "the version that the server selected is not checked")
		} else {
			bad(v.Has(ch.Recv, "ClientHelloBody", 43) && memberOf(v, versions, tls13), "VERSION", "offer", "TLS 1.3 is not known to be offered")
			e, may := hs.SentExt(sh.Body, 43)
			bad(e != nil && !may && oneVersion(e), "VERSION", "selection", "the server does not announce TLS 1.3: "+clip(e))
			bad(v.Same(ai.Fld(sh.Body.Args[0], "Version"), ai.Int(0x0303)), "VERSION", "legacy version", "the server sends another legacy version")
		}
		// cipher suite
		suite := v.Param("CipherSuite")
		var list *ai.Term
		if v.Client {
			list = v.Norm(ai.Fld(ch.Body.Args[0], "CipherSuites"))
			sel := v.Norm(ai.Fld(hs.Dec(sh.Recv, "ServerHelloBody"), "CipherSuite"))
			bad(v.Same(suite, sel), "SUITE", "selection", "the suite used is not the one the server selected")
			cfg := config("CipherSuites")
			if v.Retry() {
				// only the suite that the retry named
				named := v.Norm(ai.Fld(hs.Dec(v.First(hs.SH).Recv, "ServerHelloBody"), "CipherSuite"))
				bad(within(v, list, ai.Mk("list", "CipherSuite", named)) || onlyFrom(list, named), "SUITE", "second offer", "the second ClientHello may offer suites ("+clip(list)+") other than the one the retry named")
				bad(v.Same(sel, named) || memberOf(v, ai.Mk("list", "CipherSuite", named), sel), "SUITE", "same as retry", "the suite differs from the one that the retry named")
				first := v.Norm(ai.Fld(v.First(hs.CH).Body.Args[0], "CipherSuites"))
				bad(memberOf(v, first, named) || memberOf(v, cfg, named) && first == v.Norm(cfg), "SUITE", "retry's suite", "the suite that the retry named is not checked against the first offer")
				list = first
			} else {
				offered("SUITE", "suite", list, sel)
			}
			bad(within(v, list, cfg), "SUITE", "configured", "suites are offered ("+clip(list)+") that the configuration may exclude")
		} else {
			list = v.Norm(ai.Fld(hs.Dec(ch.Recv, "ClientHelloBody"), "CipherSuites"))
			sel := v.Norm(ai.Fld(sh.Body.Args[0], "CipherSuite"))
			bad(v.Same(suite, sel), "SUITE", "selection", "the suite announced is not the one used")
			offered("SUITE", "suite", list, suite)
			bad(memberOf(v, config("CipherSuites"), suite), "SUITE", "configured", "the suite ("+clip(suite)+") is not known to be in the configuration")
		}
		bad(v.Known(ai.Mk("mapok", "", ai.Mk("gval", "cipherSuiteMap"), suite)), "SUITE", "implemented", "the suite is not known to be implemented")
		// group
		ks, may := (*ai.Term)(nil), false
		if v.Client {
			bad(v.Has(sh.Recv, "ServerHelloBody", 51) == dh, "GROUP", "key share", "the server's key share and the mode do not agree")
		} else {
			ks, may = hs.SentExt(sh.Body, 51)
			bad((ks != nil) == dh && !may, "GROUP", "key share", "the key share in the ServerHello and the mode do not agree")
		}
		if dh {
			_, why := dhSecret(v)
			bad(why == "", "GROUP", "share", "the key agreement does not use the shares exchanged: "+why)
			var g *ai.Term
			if v.Client {
				g = ai.Fld(ai.Elem(ai.Fld(v.Ext(sh.Recv, "ServerHelloBody", "KeyShareExtension", 51), "Shares"), ai.Int(0)), "Group")
				// the shares sent are of configured groups
				e, _ := hs.SentExt(ch.Body, 51)
				shares := v.Norm(ai.Fld(e, "Shares"))
				foreign := ""
				shares.Walk(func(t *ai.Term) {
					if t.Op == "kspub" {
						x := t.Args[0].Args[0]
						if !(x.Op == "elem" && x.Args[0] == config("Groups")) && !memberOf(v, config("Groups"), x) {
							foreign = clip(x)
						}
					}
				})
				bad(foreign == "", "GROUP", "offer", "a share is sent for a group that the configuration may exclude: "+foreign)
				if memberOf(v, config("Groups"), g) {
					c.OK("GROUP", what+": configured")
				} else {
					// looked up in the map of the shares sent
					dhs, _ := dhSecret(v)
					okm := dhs != nil && v.Known(ai.Mk("mapok", "", dhs.Args[2].Args[0], v.Norm(g)))
					bad(okm, "GROUP", "configured", "the server's group is not known to be one that was offered")
				}
			} else {
				shares := v.Norm(ai.Fld(ks, "Shares"))
				g = ai.Fld(ai.Elem(shares, ai.Int(0)), "Group")
				bad(memberOf(v, config("Groups"), g), "GROUP", "configured", "the group ("+clip(v.Norm(g))+") is not known to be in the configuration")
			}
		}
		// signature schemes
		for i := range v.Msgs {
			m := &v.Msgs[i]
			if m.Type != hs.CV {
				continue
			}
			fromServer := m.Sent != v.Client
			var list *ai.Term
			if fromServer {
				list = offer(13, "SignatureAlgorithmsExtension", "Algorithms")
			} else {
				cr := v.First(hs.CR)
				if cr == nil {
					bad(false, "SCHEME", "client", "the client signs without having been asked")
					continue
				}
				if v.Client {
					list = v.Norm(ai.Fld(v.Ext(cr.Recv, "CertificateRequestBody", "SignatureAlgorithmsExtension", 13), "Algorithms"))
				} else if e, may := hs.SentExt(cr.Body, 13); e != nil && !may {
					list = v.Norm(ai.Fld(e, "Algorithms"))
				}
			}
			var alg *ai.Term
			if m.Sent {
				alg = v.Norm(ai.Fld(m.Body.Args[0], "Algorithm"))
			} else {
				alg = v.Norm(ai.Fld(hs.Dec(m.Recv, "CertificateVerifyBody"), "Algorithm"))
				bad(v.Same(list, config("SignatureSchemes")), "SCHEME", "announced", "the schemes announced are not those configured: "+clip(list))
			}
			who := "client's scheme"
			if fromServer {
				who = "server's scheme"
			}
			ok := list != nil
			for _, a := range alg.Alts() {
				ok = ok && memberOf(v, list, a)
			}
			bad(ok, "SCHEME", who, "the "+who+" ("+clip(alg)+") is not known to be one that the peer announced ("+clip(list)+")")
		}
		// psk mode
		if psk {
			mode := ai.Int(0)
			if dh {
				mode = ai.Int(1)
			}
			offered("MODE", "psk mode", offer(45, "PSKKeyExchangeModesExtension", "KEModes"), mode)
			bad(memberOf(v, config("PSKModes"), mode), "MODE", "configured", "the PSK mode is not known to be in the configuration")
		} else {
			bad(dh, "MODE", "some", "neither a pre-shared key nor a key exchange is used")
		}
		// application protocol
		proto := v.Param("NextProto")
		for _, p := range proto.Alts() {
			if p == ai.Str("") {
				continue
			}
			local := config("NextProtos")
			if v.Client {
				local = ai.Fld(ai.Sym("Opts"), "NextProtos")
				ee := v.First(hs.EE)
				from := v.Ext(ee.Recv, "EncryptedExtensionsBody", "ALPNExtension", 16)
				bad(v.Same(p, ai.Elem(ai.Fld(from, "Protocols"), ai.Int(0))), "ALPN", "selection", "the protocol reported is not the one the server selected: "+clip(p))
				e, _ := hs.SentExt(ch.Body, 16)
				bad(e != nil && v.Same(ai.Fld(e, "Protocols"), local), "ALPN", "offer", "the protocols offered are not those configured: "+clip(e))
			} else {
				offered("ALPN", "protocol", offer(16, "ALPNExtension", "Protocols"), p)
			}
			bad(memberOf(v, local, p), "ALPN", "configured", "the protocol ("+clip(p)+") is not known to be in the configuration")
		}
		if !v.Client {
			ee := v.First(hs.EE)
			e, may := hs.SentExt(ee.Body, 16)
			switch {
			case proto == ai.Str("") || v.Known(ai.EqB(proto, ai.Str(""))):
				bad(e == nil, "ALPN", "announcement", "the server announces a protocol that it does not use")
			case e == nil:
				bad(false, "ALPN", "announcement", "the server does not announce the protocol that it uses: "+clip(proto))
			default:
				ps := v.Norm(ai.Fld(e, "Protocols"))
				bad(ps.Op == "list" && len(ps.Args) == 1 && ps.Args[0] == proto, "ALPN", "announcement", "the server announces "+clip(ps)+", not the protocol that it uses")
				_ = may
			}
		}
	}
	c.Min("VERSION", 60)
	c.Min("SUITE", 60)
	c.Min("GROUP", 30)
	c.Min("SCHEME", 8)
	c.Min("MODE", 10)
	c.Min("ALPN", 10)
	reported(c, "CipherSuite", "NextProto")
	suiteTable(c)
}

// onlyFrom tells whether a list consists of elements of the one-element list
// of x only.
func onlyFrom(list, x *ai.Term) bool {
	if list.Op != "list" && list.Op != "bag" {
		return false
	}
	for _, e := range list.Args {
		if e.Op == "among" {
			e = e.Args[0]
		}
		if e != x {
			return false
		}
	}
	return true
}

func c18(c *check.Ctx) {
	h := explored(c)
	c.Rule("ACCEPT", "a server accepts early data only if allowed, asked for in this ClientHello, and protected by the first pre-shared key offered, without a retry")
	c.Rule("SKIP", "a server that does not accept early data that is coming skips it, and reads none")
	c.Rule("CONFIRM", "a client reports early data as accepted only if it sent some and the server confirmed it")
	c.Rule("SEND", "a client announces and sends early data only with a pre-shared key and in its first ClientHello")
	early := int64(1)
	for _, v := range h.views() {
		v := v
		what := v.Mode()
		using, ok := v.Param("UsingEarlyData").IsBool()
		psk, ok2 := v.Param("UsingPSK").IsBool()
		rule := "ACCEPT"
		if v.Client {
			rule = "CONFIRM"
		}
		if !c.Check(ok && ok2, rule, what+": determined", v.N.Pos, "whether early data is used is not determined") {
			continue
		}
		bad := func(ok bool, rule, item, why string) {
			c.Check(ok, rule, what+": "+item, v.N.Pos, "the handshake %s completes although %s", what, why)
		}
		if !v.Client {
			ch := v.First(hs.CH)
			asked, known := v.Truth(hasExt(ch.Recv, "ClientHelloBody", 42))
			ee := v.First(hs.EE)
			e, may := hs.SentExt(ee.Body, 42)
			bad((e != nil) == using && !may, "ACCEPT", "announcement", "the server does not announce exactly the acceptance of early data")
			inEarly := 0
			for _, r := range v.Rekeys {
				if r.In && !r.Reset && r.Epoch == early {
					inEarly++
				}
			}
			bad((inEarly > 0) == using, "ACCEPT", "keys", "early data keys are installed exactly if early data is accepted")
			if using {
				bad(v.Known(config("AllowEarlyData")), "ACCEPT", "allowed", "the configuration may not allow early data")
				bad(known && asked, "ACCEPT", "asked", "the client may not have asked for early data")
				bad(!v.Retry() && v.Cookie() == nil, "ACCEPT", "no retry", "it follows a retry")
				bad(psk, "ACCEPT", "key", "no pre-shared key is used")
				sh := v.Last(hs.SH)
				e, _ := hs.SentExt(sh.Body, 41)
				first := e != nil && stripConv(v.Norm(ai.Fld(e, "SelectedIdentity"))) == ai.Int(0)
				bad(first, "ACCEPT", "first key", "the key may not be the first that the client offered")
			} else {
				// whatever may come is skipped
				rej, ok := v.Param("RejectedEarlyData").IsBool()
				skipped := false
				for _, s := range v.N.Stages {
					skipped = skipped || len(s) >= len("serverStateReadPastEarlyData") && s[:len("serverStateReadPastEarlyData")] == "serverStateReadPastEarlyData"
				}
				bad(ok && (rej || known && !asked), "SKIP", "decided", "early data may be coming that is neither accepted nor rejected")
				bad(skipped == (ok && rej), "SKIP", "skipped", "early data that is rejected is not skipped exactly if it may come")
			}
			continue
		}
		// client
		sending, ok := v.Param("ClientSendingEarlyData").IsBool()
		bad(ok, "SEND", "determined", "it is not determined whether early data is sent")
		for i := range v.Msgs {
			m := &v.Msgs[i]
			if m.Type != hs.CH {
				continue
			}
			e, may := hs.SentExt(m.Body, 42)
			p, mayp := hs.SentExt(m.Body, 41)
			if e == nil {
				bad(m != v.Last(hs.CH) || !sending, "SEND", "announced", "early data is sent without having been announced")
				continue
			}
			bad(i == 0, "SEND", "first hello", "early data is announced in a second ClientHello")
			bad(p != nil && (!mayp || may), "SEND", "key", "early data is announced without a pre-shared key")
			bad(m != v.Last(hs.CH) || sending, "SEND", "expected", "early data is announced but not sent")
		}
		bad(!v.Retry() || !sending, "SEND", "after retry", "early data is sent after a retry")
		n := 0
		for _, r := range v.Rekeys {
			if !r.In && !r.Reset && r.Epoch == early {
				n++
			}
		}
		if !v.Retry() {
			bad((n > 0) == sending, "SEND", "keys", "early data keys are installed exactly if early data is sent")
		} else {
			bad(n <= 1, "SEND", "keys", "early data keys are installed after a retry")
		}
		if using {
			ee := v.First(hs.EE)
			has, known := v.Truth(hasExt(ee.Recv, "EncryptedExtensionsBody", 42))
			bad(sending, "CONFIRM", "sent", "early data is reported as accepted that was not sent")
			bad(known && has, "CONFIRM", "confirmed", "early data is reported as accepted that the server may not have accepted")
			bad(psk, "CONFIRM", "key", "early data is reported as accepted without a pre-shared key")
		}
	}
	c.Min("ACCEPT", 40)
	c.Min("SKIP", 20)
	c.Min("CONFIRM", 10)
	c.Min("SEND", 30)
	reported(c, "UsingEarlyData")
}

func c19(c *check.Ctx) {
	h := explored(c)
	c.Rule("ONCE", "a client answers at most one retry request")
	c.Rule("ECHO", "the second ClientHello echoes the cookie, offers only the suite named, and the transcript binds both hellos")
	c.Rule("COOKIE", "a server continues after a cookie only if its protector authenticated it, it decoded completely and the application accepted its part")
	c.Rule("RESTORE", "the transcript of the server starts with the hash and the retry request that the cookie stands for, and the suite is the cookie's")
	c.Rule("ISSUE", "the cookie issued contains the hash of the ClientHello, the suite selected and the application's part, and the retry request names that suite")
	for _, v := range h.cviews {
		what := v.Mode()
		n, m := len(v.All(hs.CH)), len(v.All(hs.SH))
		c.Check(n == m && n <= 2, "ONCE", what, v.N.Pos, "the handshake %s contains more than one retry", what)
		if n != 2 {
			continue
		}
		hrr := v.First(hs.SH)
		val, known := v.Truth(ai.EqB(ai.Fld(hs.Dec(hrr.Recv, "ServerHelloBody"), "Random"), ai.Mk("gval", "hrrRandomSentinel")))
		c.Check(known && val, "ONCE", what+": request", v.N.Pos, "a ClientHello is sent again although no retry was requested")
		ch := v.Last(hs.CH)
		e, may := hs.SentExt(ch.Body, 44)
		ck := ai.Fld(v.Ext(hrr.Recv, "ServerHelloBody", "CookieExtension", 44), "Cookie")
		c.Check(e != nil && !may && v.Same(ai.Fld(e, "Cookie"), ck), "ECHO", what+": cookie", v.N.Pos, "the second ClientHello of %s does not echo the cookie: %s", what, clip(e))
		named := v.Norm(ai.Fld(hs.Dec(hrr.Recv, "ServerHelloBody"), "CipherSuite"))
		list := v.Norm(ai.Fld(ch.Body.Args[0], "CipherSuites"))
		c.Check(onlyFrom(list, named), "ECHO", what+": suite", v.N.Pos, "the second ClientHello of %s does not offer only the suite that the retry named: %s", what, clip(list))
		// C05 checks the transcript of every message; here that of Finished
		fin := v.Last(hs.FIN)
		c.Check(fin != nil, "ECHO", what+": finished", v.N.Pos, "the handshake is not confirmed")
	}
	for _, v := range h.sviews {
		what := v.Mode()
		ch := v.First(hs.CH)
		has, known := v.Truth(hasExt(ch.Recv, "ClientHelloBody", 44))
		ckx := v.Norm(ai.Fld(v.Ext(ch.Recv, "ClientHelloBody", "CookieExtension", 44), "Cookie"))
		empty := v.Known(ai.Eq(ai.Len(ckx), ai.Int(0)))
		d := v.Cookie()
		if d == nil {
			c.Check(known && !has || empty, "COOKIE", what+": none", v.N.Pos, "the handshake %s completes although the client may have sent a cookie that was not checked", what)
			req, kreq := v.Truth(config("RequireCookie"))
			hnil := v.Known(ai.Eq(config("CookieHandler"), ai.Nil))
			c.Check(kreq && !req || !hnil, "COOKIE", what+": required", v.N.Pos, "the handshake %s completes without a cookie although one may be required", what)
			continue
		}
		tok := d.Args[0]
		okc := tok.Op == "res" && tok.Aux == "0" && tok.Args[0].Call() == "invoke:CookieProtector.DecodeToken"
		c.Check(okc, "COOKIE", what+": source", v.N.Pos, "the cookie's content does not come from the cookie protector: %s", clip(tok))
		if !okc {
			continue
		}
		call := tok.Args[0]
		c.Check(len(call.Args) == 2 && v.Same(call.Args[0], config("CookieProtector")) && v.Same(call.Args[1], ckx), "COOKIE", what+": token", v.N.Pos, "the token that is decoded is %s, not the client's cookie", clip(call))
		c.Check(v.Known(ai.Mk("ok", "", call)), "COOKIE", what+": authentic", v.N.Pos, "the handshake %s completes although the cookie may not be authentic", what)
		c.Check(v.Known(ai.Eq(ai.Mk("rlen", "cookie", tok), ai.Len(tok))), "COOKIE", what+": complete", v.N.Pos, "the handshake %s completes although the cookie may have trailing data", what)
		accepted := v.Known(ai.Eq(config("CookieHandler"), ai.Nil))
		for f, val := range v.S.Facts() {
			if val && f.Call() == "invoke:CookieHandler.Validate" && v.Same(f.Args[0], config("CookieHandler")) && v.Same(f.Args[len(f.Args)-1], ai.Fld(d, "ApplicationCookie")) {
				accepted = true
			}
		}
		c.Check(accepted, "COOKIE", what+": accepted", v.N.Pos, "the handshake %s completes although the application may not have accepted its part of the cookie", what)
		c.Check(v.Same(v.Param("CipherSuite"), ai.Fld(d, "CipherSuite")), "RESTORE", what+": suite", v.N.Pos, "the suite of %s (%s) is not the one recorded in the cookie", what, clip(v.Param("CipherSuite")))
		p := retryPrefix(v)
		why := checkHRR(v, p[1])
		c.Check(why == "", "RESTORE", what+": retry request", v.N.Pos, "the retry request in the transcript of %s is not the one that was sent: %s", what, why)
	}
	// issued cookies
	n := 0
	retry := h.server.In.ConstInt("AlertStatelessRetry")
	for _, e := range h.server.Exits {
		if e.Alert != retry {
			continue
		}
		n++
		issued(c, e)
	}
	for _, e := range h.client.Exits {
		c.Check(e.Alert != retry, "ONCE", "client "+e.Stage, e.Pos, "a client asks for a stateless retry")
	}
	c.Min("ONCE", 6)
	c.Min("ECHO", 6)
	c.Min("COOKIE", 20)
	c.Min("RESTORE", 8)
	c.Min("ISSUE", 1)
	c.Check(n > 0, "ISSUE", "exits", token.NoPos, "no path on which a server requests a retry was found")
	reachable(c, h)
}

// issued checks one path on which a server asks for a retry.
func issued(c *check.Ctx, e *hs.Exit) {
	what := e.Stage
	fail := func(why string) {
		c.Fail("ISSUE", what, e.Pos, "a retry request that does not record what it answers: %s", why)
	}
	var sent *ai.Term
	for _, a := range e.Acts {
		if a.Op == "iface" && hs.StateType(a) == "QueueHandshakeMessage" {
			if sent != nil {
				fail("more than one message is sent")
				return
			}
			sent = ai.Wire(e.S, ai.Fld(a.Args[0], "Message"))
		}
	}
	if sent == nil || len(e.Recvs) != 1 {
		fail("no message is sent, or not after one ClientHello")
		return
	}
	recv := e.Recvs[0].Msg
	sent = e.S.Deep(sent)
	if sent.Op != "wire" || sent.Args[0] != ai.Int(hs.SH) || sent.Args[1].Op != "enc" {
		fail("it is " + clip(sent))
		return
	}
	sh := sent.Args[1].Args[0]
	d := ai.Mk("dec", "ClientHelloBody", ai.Fld(recvTerm(recv), "body"))
	if ai.Fld(sh, "Random") != ai.Mk("gval", "hrrRandomSentinel") {
		fail("its random value is " + clip(ai.Fld(sh, "Random")))
		return
	}
	if ai.Fld(sh, "Version") != ai.Int(0x0303) || ai.Fld(sh, "LegacySessionID") != ai.Fld(d, "LegacySessionID") || ai.Fld(sh, "LegacyCompressionMethod") != ai.Int(0) {
		fail("its fixed fields are wrong: " + clip(sh))
		return
	}
	var ck, ver *ai.Term
	l := ai.Fld(sh, "Extensions")
	for _, x := range l.Args {
		if x.Op != "ent" || x.Aux != "must" {
			fail("its extensions are " + clip(l))
			return
		}
		val := x.Args[1]
		if val.Op == "typed" {
			val = val.Args[0]
		}
		switch n, _ := x.Args[0].IsInt(); n {
		case 44:
			ck = ai.Fld(val, "Cookie")
		case 43:
			ver = val
		default:
			fail("it has another extension: " + clip(x))
			return
		}
	}
	if ck == nil || ver == nil || !oneVersion(ver) {
		fail("its extensions are " + clip(l))
		return
	}
	if ck.Op != "res" || ck.Aux != "0" || ck.Args[0].Call() != "invoke:CookieProtector.NewToken" || ck.Args[0].Args[0] != config("CookieProtector") {
		fail("its cookie does not come from the cookie protector: " + clip(ck))
		return
	}
	if ok, known := e.S.Eval(ai.Mk("ok", "", ck.Args[0])); !known || !ok {
		fail("the cookie protector may have failed")
		return
	}
	tok := ck.Args[0].Args[1]
	if tok.Op != "enc" || tok.Aux != "cookie" {
		fail("the token is " + clip(tok))
		return
	}
	tok = tok.Args[0]
	suite := ai.Fld(sh, "CipherSuite")
	if ai.Fld(tok, "CipherSuite") != suite {
		fail("the suite recorded is " + clip(ai.Fld(tok, "CipherSuite")) + ", the one named is " + clip(suite))
		return
	}
	hash := ai.Mk("hash", "", ai.Fld(ai.Mk("mapget", "", ai.Mk("gval", "cipherSuiteMap"), suite), "Hash"), ai.Mk("wire", "recv", recvTerm(recv)))
	if ai.Fld(tok, "ClientHelloHash") != hash {
		fail("the hash recorded is not that of the ClientHello: " + hs.Diff(ai.Fld(tok, "ClientHelloHash"), hash))
		return
	}
	app := ai.Fld(tok, "ApplicationCookie")
	for _, x := range app.Alts() {
		if x == ai.Nil {
			if val, ok := e.S.Eval(ai.Eq(config("CookieHandler"), ai.Nil)); !ok || !val {
				fail("the application's part may be missing")
				return
			}
			continue
		}
		if x.Op != "res" || x.Aux != "0" || x.Args[0].Call() != "invoke:CookieHandler.Generate" {
			fail("the application's part is " + clip(x))
			return
		}
	}
	c.OK("ISSUE", what)
}

// recvTerm is the content of a received message.
func recvTerm(m *ai.Term) *ai.Term {
	if m.Op == "ptr" {
		return ai.Mk("sym", m.Aux)
	}
	return m
}

// reachable is a placeholder for checks of the connection's part.
func reachable(c *check.Ctx, h *handshakes) {}
