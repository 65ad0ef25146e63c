// Package rules decides the properties.
package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
	"mintcheck/load"
)

// The analysis of the handshakes is shared by all properties decided in one run.
type handshakes struct {
	client, server *hs.Role
	cviews, sviews []*hs.View
}

var (
	hsOnce sync.Once
	hsAll  *handshakes
)

func explore(p *load.Program) *handshakes {
	hsOnce.Do(func() {
		h := &handshakes{client: hs.Client(p), server: hs.Server(p)}
		h.cviews, h.sviews = h.client.Views(), h.server.Views()
		hsAll = h
	})
	return hsAll
}

func (h *handshakes) views() []*hs.View {
	return append(append([]*hs.View(nil), h.cviews...), h.sviews...)
}

// explored requires that the analysis decided everything and that all modes
// were seen.
func explored(c *check.Ctx) *handshakes {
	h := explore(c.P)
	c.Rule("EXPLORED", "every path through the Next methods of each role's handshake states is followed to its end, and all protocol modes are among the summaries")
	for _, r := range []*hs.Role{h.client, h.server} {
		for _, e := range dedup(r.Errors) {
			c.Fail("EXPLORED", r.Name+": "+e, token.NoPos, "not decided: %s", e)
		}
		var notes []string
		for n := range r.In.Notes {
			notes = append(notes, n)
		}
		sort.Strings(notes)
		for _, n := range notes {
			c.Fail("EXPLORED", r.Name+": "+n, token.NoPos, "not decided: %s", n)
		}
		c.Cover(r.Name+" functions analysed", len(r.In.Funcs))
		c.Cover(r.Name+" blocks analysed", r.In.Blocks)
		c.Cover(r.Name+" calls analysed", r.In.Calls)
		c.Cover(r.Name+" completed handshakes (summaries)", len(r.Done))
		c.Cover(r.Name+" failing or blocking exits (summaries)", len(r.Exits))
	}
	modes := map[string]bool{}
	for _, v := range h.views() {
		for _, p := range v.Problems {
			c.Fail("EXPLORED", v.R.Name+": "+p, v.N.Pos, "not decided: %s", p)
		}
		modes[v.Mode()] = true
	}
	for _, want := range [][]string{
		{"client UsingDH"}, {"client UsingPSK"}, {"client UsingPSK UsingDH"}, {"client retry UsingDH"}, {"client retry UsingPSK"}, {"UsingEarlyData", "client"}, {"CR CT CV FIN CT CV FIN", "client"}, {"CR CT CV FIN CT FIN", "client"},
		{"server UsingDH"}, {"server UsingPSK"}, {"server UsingPSK UsingDH"}, {"server retry UsingDH"}, {"server retry UsingPSK"}, {"UsingEarlyData", "server"}, {"RejectedEarlyData", "server"}, {"CR CT CV FIN CT CV FIN", "server"}, {"CR CT CV FIN CT FIN", "server"},
	} {
		found := false
		for m := range modes {
			ok := true
			for _, w := range want {
				ok = ok && strings.Contains(m, w)
			}
			found = found || ok
		}
		c.Check(found, "EXPLORED", "mode "+strings.Join(want, ", "), token.NoPos, "no completed handshake in mode %v was found: the mode can't complete, or the analysis no longer reaches it", want)
	}
	return h
}

func dedup(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func clip(t *ai.Term) string {
	if t == nil {
		return "nothing"
	}
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// same checks a value against its specification.
func same(c *check.Ctx, v *hs.View, rule, what string, got, want *ai.Term) bool {
	if got == nil || want == nil {
		return c.Check(false, rule, v.Mode()+": "+what, v.N.Pos, "%s: have %s, want %s", what, clip(got), clip(want))
	}
	g, w := v.Norm(v.S.Deep(got)), v.Norm(want)
	diff := ""
	if g != w {
		diff = hs.Diff(g, w)
	}
	return c.Check(g == w, rule, v.Mode()+": "+what, v.N.Pos, "%s is not what the protocol prescribes: %s", what, diff)
}

// Transcript positions

type marks struct {
	sh, sfin, cfin, chLast, eoed int
}

func positions(v *hs.View) (marks, string) {
	m := marks{-1, -1, -1, -1, -1}
	for i, x := range v.Msgs {
		fromServer := x.Sent != v.Client
		switch {
		case x.Type == hs.CH && !fromServer:
			m.chLast = i
		case x.Type == hs.SH && fromServer:
			m.sh = i
		case x.Type == hs.FIN && fromServer:
			m.sfin = i
		case x.Type == hs.FIN && !fromServer:
			m.cfin = i
		case x.Type == hs.EOED && !fromServer:
			m.eoed = i
		}
	}
	switch {
	case m.chLast < 0:
		return m, "no ClientHello"
	case m.sh < 0:
		return m, "no ServerHello"
	case m.sfin < 0:
		return m, "no server Finished"
	case m.cfin < 0:
		return m, "no client Finished"
	}
	return m, ""
}

// transcript is the list of message encodings that the transcript hash up to
// and including message n covers.
func transcript(v *hs.View, n int) []*ai.Term {
	ts := v.Transcript(n)
	if !v.Client && v.Retry() {
		ts = append(retryPrefix(v), ts...)
	}
	return ts
}

// retryPrefix is the transcript before the second ClientHello on a server: the
// message hash and the HelloRetryRequest that the cookie stands for.
func retryPrefix(v *hs.View) []*ai.Term {
	hash := ai.Fld(v.Cookie(), "ClientHelloHash")
	mh := ai.Mk("wire", "", ai.Int(hs.MH), hash)
	// the retry request itself is checked by its parts
	hrr := findHRR(v, mh)
	return []*ai.Term{mh, hrr}
}

// findHRR finds the HelloRetryRequest in the transcript that starts with mh.
func findHRR(v *hs.View, mh *ai.Term) *ai.Term {
	var found *ai.Term
	mh = v.Norm(mh)
	v.Field("exporterSecret").Walk(func(t *ai.Term) {
		if t.Op == "cat" && len(t.Args) > 1 && t.Args[0] == mh && t.Args[1].Op == "wire" {
			found = t.Args[1]
		}
	})
	if found == nil {
		return ai.Mk("unk", "no retry in transcript")
	}
	return found
}

// checkHRR checks a HelloRetryRequest that a server made: encoding w.
func checkHRR(v *hs.View, w *ai.Term) string {
	if w.Op != "wire" || w.Aux != "" || w.Args[0] != ai.Int(hs.SH) || w.Args[1].Op != "enc" || w.Args[1].Aux != "ServerHelloBody" {
		return "it is not an encoded ServerHello: " + clip(w)
	}
	sh := w.Args[1].Args[0]
	d := hs.Dec(v.First(hs.CH).Recv, "ClientHelloBody")
	for _, x := range []struct {
		f    string
		want *ai.Term
	}{
		{"Version", ai.Int(0x0303)},
		{"Random", ai.Mk("gval", "hrrRandomSentinel")},
		{"LegacySessionID", ai.Fld(d, "LegacySessionID")},
		{"CipherSuite", v.Param("CipherSuite")},
		{"LegacyCompressionMethod", ai.Int(0)},
	} {
		if !v.Same(ai.Fld(sh, x.f), x.want) {
			return fmt.Sprintf("its %s is %s, not %s", x.f, clip(ai.Fld(sh, x.f)), clip(x.want))
		}
	}
	exts := map[int64]*ai.Term{}
	l := ai.Fld(sh, "Extensions")
	if l.Op != "extset" {
		return "its extensions are not resolved: " + clip(l)
	}
	for _, e := range l.Args {
		n, ok := e.Args[0].IsInt()
		if !ok || e.Aux != "must" {
			return "its extensions are not resolved: " + clip(l)
		}
		val := e.Args[1]
		if val.Op == "typed" {
			val = val.Args[0]
		}
		exts[n] = val
	}
	if len(exts) != 2 || exts[43] == nil || exts[44] == nil {
		return "its extensions are not exactly supported_versions and cookie"
	}
	if !v.Same(ai.Fld(exts[43], "Versions"), ai.Mk("list", "uint16", ai.Int(0x0304))) && !oneVersion(exts[43]) {
		return "its supported version is " + clip(exts[43])
	}
	ck := v.Ext(v.First(hs.CH).Recv, "ClientHelloBody", "CookieExtension", 44)
	if !v.Same(ai.Fld(exts[44], "Cookie"), ai.Fld(ck, "Cookie")) {
		return "its cookie is " + clip(exts[44]) + ", not the one the client returned"
	}
	return ""
}

func oneVersion(e *ai.Term) bool {
	l := ai.Fld(e, "Versions")
	return l.Op == "list" && len(l.Args) == 1 && l.Args[0] == ai.Int(0x0304) && ai.Fld(e, "HandshakeType") == ai.Int(hs.SH)
}

// psk is the pre-shared key of a handshake: the entry of the cache.
func psk(v *hs.View) (*ai.Term, string) {
	if v.Client {
		return offeredPSK(v, v.Last(hs.CH))
	}
	x := v.Field("exporterSecret") // every secret contains the early secret
	k := innermostPSK(x)
	if k == nil {
		return nil, "no cached key enters the key schedule"
	}
	return v.Norm(k), ""
}

// offeredPSK is the pre-shared key that a client's ClientHello offers.
func offeredPSK(v *hs.View, ch *hs.Msg) (*ai.Term, string) {
	e, may := hs.SentExt(ch.Body, 41)
	if e == nil || may {
		return nil, "the ClientHello doesn't certainly offer a pre-shared key"
	}
	ids := v.Norm(ai.Fld(e, "Identities"))
	if ids.Op != "list" || len(ids.Args) != 1 {
		return nil, "the identities offered are " + clip(ids)
	}
	id := v.Norm(ai.Fld(ids.Args[0], "Identity"))
	if id.Op != "fld" || id.Aux != "Identity" || !isCacheGet(id.Args[0]) {
		return nil, "the identity offered is not that of a cached key: " + clip(id)
	}
	return id.Args[0], ""
}

func isCacheGet(t *ai.Term) bool {
	return t.Op == "res" && t.Args[0].Op == "call" && strings.Contains(t.Args[0].Aux, "PreSharedKeyCache.Get")
}

func innermostPSK(x *ai.Term) *ai.Term {
	var k *ai.Term
	x.Walk(func(t *ai.Term) {
		if t.Op == "hkdfx" && t.Args[2].Op == "fld" && t.Args[2].Aux == "Key" && isCacheGet(t.Args[2].Args[0]) {
			k = t.Args[2].Args[0]
		}
	})
	return k
}

// dhSecret is the (EC)DHE secret that the negotiated shares give.
func dhSecret(v *hs.View) (*ai.Term, string) {
	var local, remote *ai.Term // key share entries
	if v.Client {
		sh := v.Last(hs.SH)
		if !v.Has(sh.Recv, "ServerHelloBody", 51) {
			return nil, "the server sent no key share"
		}
		shares := ai.Fld(v.Ext(sh.Recv, "ServerHelloBody", "KeyShareExtension", 51), "Shares")
		remote = ai.Elem(shares, ai.Int(0))
		e, may := hs.SentExt(v.Last(hs.CH).Body, 51)
		if e == nil || may {
			return nil, "the client certainly sent no key share"
		}
		shares = v.Norm(ai.Fld(e, "Shares"))
		local = shares
	} else {
		e, may := hs.SentExt(v.Last(hs.SH).Body, 51)
		if e == nil || may {
			return nil, "the server sends no key share"
		}
		shares := v.Norm(ai.Fld(e, "Shares"))
		if shares.Op != "list" || len(shares.Args) != 1 {
			return nil, "the server's key share is " + clip(shares)
		}
		local = shares.Args[0]
		pub := v.Norm(ai.Fld(local, "KeyExchange"))
		if pub.Op != "kspub" {
			return nil, "the server's key share is not a fresh public key: " + clip(pub)
		}
		pair := pub.Args[0]
		g := pair.Args[0]
		if !v.Same(ai.Fld(local, "Group"), g) {
			return nil, "the server's key share names another group than its key's"
		}
		// the client's share of the same group
		if g.Op != "fld" || g.Aux != "Group" || g.Args[0].Op != "elem" {
			return nil, "the server's group is not that of a client share: " + clip(g)
		}
		remote = g.Args[0]
		want := ai.Fld(v.Ext(v.Last(hs.CH).Recv, "ClientHelloBody", "KeyShareExtension", 51), "Shares")
		if !v.Same(remote.Args[0], want) {
			return nil, "the peer share does not come from the ClientHello: " + clip(remote)
		}
		return v.Norm(ai.Mk("dh", "", g, ai.Fld(remote, "KeyExchange"), ai.Mk("kspriv", "", pair))), ""
	}
	// client: the private key of the pair whose public key was offered for the
	// group that the server answered
	group := v.Norm(ai.Fld(remote, "Group"))
	var dh *ai.Term
	v.Field("exporterSecret").Walk(func(t *ai.Term) {
		if t.Op == "dh" {
			dh = t
		}
	})
	if dh == nil {
		return nil, "no Diffie-Hellman secret enters the key schedule"
	}
	if dh.Args[0] != group || dh.Args[1] != v.Norm(ai.Fld(remote, "KeyExchange")) {
		return nil, "the key agreement does not use the server's share: " + clip(dh)
	}
	if why := clientPriv(v, local, group, dh.Args[2]); why != "" {
		return nil, why
	}
	return dh, ""
}

// clientPriv checks that priv is the private key of the share that the client
// sent for the group.
func clientPriv(v *hs.View, shares, group, priv *ai.Term) string {
	sent := func(p *ai.Term) bool {
		found := false
		shares.Walk(func(t *ai.Term) {
			if t.Op == "struct" && t.Typ != nil && strings.HasSuffix(t.Typ.String(), ".KeyShareEntry") {
				for _, x := range ai.Fld(t, "KeyExchange").Alts() {
					if x.Op == "kspub" && x.Args[0].Aux == p.Aux && x.Args[0].Args[0] == ai.Fld(t, "Group") {
						found = true
					}
				}
			}
		})
		return found
	}
	if priv.Op == "kspriv" {
		// kept by group
		if priv.Args[0].Args[0] != group {
			return "the private key is not that of the server's group: " + clip(priv)
		}
		if !sent(priv.Args[0]) {
			return "the public key of the private key used is not sent in this ClientHello"
		}
		return ""
	}
	// the private keys are kept by group
	if priv.Op != "mapget" {
		return "the private key is not looked up by group: " + clip(priv)
	}
	m, k := priv.Args[0], priv.Args[1]
	if k != group {
		return "the private key is looked up under " + clip(k) + ", not the server's group"
	}
	if m.Op == "to" {
		m = m.Args[0]
	}
	if m.Op != "mapc" || len(m.Args) == 0 {
		return "the kept private keys are not resolved: " + clip(m)
	}
	var pairs []*ai.Term
	for i := 0; i+1 < len(m.Args); i += 2 {
		for _, x := range m.Args[i+1].Alts() {
			if x.Op != "kspriv" {
				return "a kept private key is " + clip(x)
			}
			if x.Args[0].Args[0] != m.Args[i] {
				return "a private key is kept under another group than its own"
			}
			pairs = append(pairs, x.Args[0])
		}
	}
	// every pair's public key is sent for its group
	for _, p := range pairs {
		found := false
		shares.Walk(func(t *ai.Term) {
			if t.Op == "kspub" && t.Args[0] == p {
				found = true
			}
		})
		if !found {
			return "the public key of a kept private key is not sent"
		}
	}
	bad := ""
	shares.Walk(func(t *ai.Term) {
		if t.Op == "struct" && t.Typ != nil && strings.HasSuffix(t.Typ.String(), ".KeyShareEntry") {
			pub := ai.Fld(t, "KeyExchange")
			for _, x := range pub.Alts() {
				if x.Op == "kspub" && x.Args[0].Args[0] != ai.Fld(t, "Group") {
					bad = "a key share names another group than its key's"
				}
			}
		}
	})
	return bad
}

// schedule computes the secrets that RFC 8446 section 7.1 prescribes.
func schedule(v *hs.View) (*hs.Secrets, string) {
	m, why := positions(v)
	if why != "" {
		return nil, why
	}
	z := v.Zeros()
	ikm := z
	s := &hs.Secrets{}
	if v.Flag("UsingPSK") {
		k, why := psk(v)
		if why != "" {
			return nil, why
		}
		ikm = ai.Fld(k, "Key")
	}
	s.Early = v.Extract(z, ikm)
	h0 := v.Hash()
	dh := z
	if v.Flag("UsingDH") {
		d, why := dhSecret(v)
		if why != "" {
			return nil, why
		}
		dh = d
	}
	s.EarlyTraffic = v.Derive(s.Early, "c e traffic", v.Hash(transcript(v, m.chLast)...))
	s.Handshake = v.Extract(v.Derive(s.Early, "derived", h0), dh)
	h2 := v.Hash(transcript(v, m.sh)...)
	s.ClientHS = v.Derive(s.Handshake, "c hs traffic", h2)
	s.ServerHS = v.Derive(s.Handshake, "s hs traffic", h2)
	s.Master = v.Extract(v.Derive(s.Handshake, "derived", h0), z)
	h4 := v.Hash(transcript(v, m.sfin)...)
	s.ClientApp = v.Derive(s.Master, "c ap traffic", h4)
	s.ServerApp = v.Derive(s.Master, "s ap traffic", h4)
	s.Exporter = v.Derive(s.Master, "exp master", h4)
	s.Resumption = v.Derive(s.Master, "res master", v.Hash(transcript(v, m.cfin)...))
	return s, ""
}

// finished is the verify data of a Finished message at position n.
func finished(v *hs.View, base *ai.Term, n int) *ai.Term {
	return v.HMAC(v.Derive(base, "finished", ai.Empty), v.Hash(transcript(v, n-1)...))
}
