package rules

import (
	"fmt"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

func init() {
	check.Register(&check.Prop{ID: "C06", Explanation: "Every secret of every completed-handshake summary of both roles is compared, as a term over the messages exchanged, with the RFC 8446 section 7.1 formula; since both roles are compared with one formula they agree with each other.", Run: c06})
	check.Register(&check.Prop{ID: "C07", Explanation: "For every completed-handshake summary of both roles, each message's protection keys and each key change (direction, epoch, position among the messages, traffic secret the keys are expanded from) are compared with RFC 8446.", Run: c07})
	check.Register(&check.Prop{ID: "C01", Explanation: "Every completed-handshake summary of both roles must contain, as a fact that holds on all paths to it, the equality of the received Finished body with the HMAC that RFC 8446 section 4.4.4 prescribes.", Run: c01})
	check.Register(&check.Prop{ID: "C05", Explanation: "Every transcript hash that enters a secret, a Finished value or a signature of a completed-handshake summary must cover a prefix of the sequence of messages sent and received on that path.", Run: c05})
	check.Register(&check.Prop{ID: "C08", Explanation: "The sequence of message types of every completed-handshake summary must be a word of the TLS 1.3 grammar for its role and mode, with every type established by a check.", Run: c08})
}

func c06(c *check.Ctx) {
	h := explored(c)
	c.Rule("SCHEDULE", "each secret is the term HKDF-Expand-Label/HKDF-Extract of the prescribed parent, label, transcript hash and length over the hash of the negotiated suite")
	for _, v := range h.views() {
		s, why := schedule(v)
		if !c.Check(why == "", "SCHEDULE", v.Mode()+": inputs", v.N.Pos, "%s", why) {
			continue
		}
		same(c, v, "SCHEDULE", "client application traffic secret", v.Field("clientTrafficSecret"), s.ClientApp)
		same(c, v, "SCHEDULE", "server application traffic secret", v.Field("serverTrafficSecret"), s.ServerApp)
		same(c, v, "SCHEDULE", "exporter secret", v.Field("exporterSecret"), s.Exporter)
		same(c, v, "SCHEDULE", "resumption secret", v.Field("resumptionSecret"), s.Resumption)
		m, _ := positions(v)
		if v.Client {
			same(c, v, "SCHEDULE", "client Finished", v.Msgs[m.cfin].Body, finished(v, s.ClientHS, m.cfin))
		} else {
			same(c, v, "SCHEDULE", "server Finished", v.Msgs[m.sfin].Body, finished(v, s.ServerHS, m.sfin))
		}
		for i, rk := range v.Rekeys {
			if rk.Reset {
				continue
			}
			what := fmt.Sprintf("key change %d (to epoch %d)", i+1, rk.Epoch)
			got, want, why := rekeySecret(v, s, rk)
			if c.Check(why == "", "SCHEDULE", v.Mode()+": "+what, v.N.Pos, "%s: %s", what, why) {
				same(c, v, "SCHEDULE", what, got, want)
			}
		}
	}
	c.Min("SCHEDULE", 150)
	hkdf(c)
	suiteTable(c)
}

// rekeySecret is the secret that the keys of a key change were expanded from,
// and the one prescribed for its sender and epoch.
func rekeySecret(v *hs.View, s *hs.Secrets, rk hs.Rekey) (got, want *ai.Term, why string) {
	fromClient := rk.In != v.Client
	switch rk.Epoch {
	case 1:
		if !fromClient {
			return nil, nil, "early data keys for the server"
		}
		if v.Client {
			return clientEarly(v, rk)
		}
		want = s.EarlyTraffic
	case 2:
		want = s.ServerHS
		if fromClient {
			want = s.ClientHS
		}
	case 3:
		want = s.ServerApp
		if fromClient {
			want = s.ClientApp
		}
	default:
		return nil, nil, fmt.Sprintf("unexpected epoch %d", rk.Epoch)
	}
	got, why = v.KeySecret(rk.KeySet)
	return got, want, why
}

// clientEarly compares the client's early data keys, which depend on the suite
// of the key it offers, not on the one that is negotiated later.
func clientEarly(v *hs.View, rk hs.Rekey) (got, want *ai.Term, why string) {
	if rk.After < 1 || v.Msgs[rk.After-1].Type != hs.CH || !v.Msgs[rk.After-1].Sent {
		return nil, nil, "the early data keys are not installed right after the ClientHello"
	}
	ch := v.Msgs[rk.After-1]
	k, why := offeredPSK(v, &ch)
	if why != "" {
		return nil, nil, why
	}
	suite := v.Norm(ai.Fld(k, "CipherSuite"))
	params := v.Norm(ai.Mk("mapget", "", ai.Mk("gval", "cipherSuiteMap"), suite))
	if p := suiteParams(v, suite); p != nil {
		params = p
	}
	h := v.Norm(v.S.Pure(ai.Fld(params, "Hash")))
	got, why = v.KeySecretFor(rk.KeySet, params, h)
	if why != "" {
		return nil, nil, why
	}
	n := ai.Mk("hsize", "", h)
	early := ai.Mk("hkdfx", "", h, ai.Mk("zeros", "", n), ai.Fld(k, "Key"))
	want = v.Norm(ai.Mk("hkdfl", "", h, early, ai.Str("c e traffic"), ai.Mk("hash", "", h, v.Norm(ch.Wire)), n))
	return got, want, ""
}

// suiteParams finds the parameters of a suite among the terms of the summary.
func suiteParams(v *hs.View, suite *ai.Term) *ai.Term {
	var found *ai.Term
	look := func(t *ai.Term) {
		if t == nil {
			return
		}
		t.Walk(func(x *ai.Term) {
			if x.Op == "mapget" && x.Args[1] == suite && found == nil {
				found = x
			}
		})
	}
	for _, rk := range v.Rekeys {
		look(v.Norm(rk.KeySet))
	}
	return found
}

func c07(c *check.Ctx) {
	h := explored(c)
	actions(c, "RekeyIn", "RekeyOut", "ResetOut", "QueueHandshakeMessage", "SendQueuedHandshake")
	c.Rule("EPOCH", "hellos are in the clear, EndOfEarlyData under early data keys, everything else in a handshake under handshake keys; after it both directions use application keys")
	c.Rule("KEYS", "keys of each direction and epoch are expanded, with the suite's cipher and key lengths, from the traffic secret of that direction's sender")
	c.Rule("MOMENT", "application read keys follow the peer's Finished, every queued message is sent, and keys follow the messages that determine them")
	for _, v := range h.views() {
		m, why := positions(v)
		if !c.Check(why == "", "EPOCH", v.Mode()+": messages", v.N.Pos, "%s", why) {
			continue
		}
		s, swhy := schedule(v)
		if !c.Check(swhy == "", "KEYS", v.Mode()+": inputs", v.N.Pos, "%s", swhy) {
			continue
		}
		for i, x := range v.Msgs {
			want := int64(2)
			switch x.Type {
			case hs.CH, hs.SH:
				want = 0
			case hs.EOED:
				want = 1
			}
			dir := "received"
			if x.Sent {
				dir = "sent"
			}
			what := fmt.Sprintf("%s: message %d", v.Mode(), i+1)
			c.Check(x.Epoch == want, "EPOCH", what, v.N.Pos, "%s message %d of %s is %s under the keys of epoch %d, not %d", typeName(x.Type), i+1, v.Mode(), dir, x.Epoch, want)
			c.Check((x.Keys == nil) == (want == 0), "EPOCH", what+" keys", v.N.Pos, "%s message %d of %s is %s with keys: %v", typeName(x.Type), i+1, v.Mode(), dir, x.Keys != nil)
			if x.Sent {
				c.Check(x.Flushed, "MOMENT", what+" flushed", v.N.Pos, "%s message %d of %s is queued but never sent", typeName(x.Type), i+1, v.Mode())
			}
		}
		c.Check(v.InEpoch == 3 && v.OutEpoch == 3, "EPOCH", v.Mode()+": connected", v.N.Pos, "after the handshake the epochs are %d (in) and %d (out), not application data", v.InEpoch, v.OutEpoch)
		peerFin, ownFin := m.sfin, m.cfin
		if !v.Client {
			peerFin, ownFin = m.cfin, m.sfin
		}
		last := map[bool]int64{}
		for i, rk := range v.Rekeys {
			what := fmt.Sprintf("%s: key change %d", v.Mode(), i+1)
			if rk.Reset {
				c.Check(v.Client && last[false] <= 1 && rk.After == 2 && v.Retry(), "MOMENT", what, v.N.Pos, "sending state is reset other than by a retry")
				last[false] = 0
				continue
			}
			c.Check(rk.Epoch > last[rk.In], "MOMENT", what+" order", v.N.Pos, "epoch %d follows epoch %d", rk.Epoch, last[rk.In])
			last[rk.In] = rk.Epoch
			min := -1
			switch {
			case rk.Epoch == 1:
				min = m.chLast
				if v.Client {
					min = 0
				}
			case rk.Epoch == 2:
				min = m.sh
			case rk.Epoch == 3 && rk.In:
				min = peerFin
			case rk.Epoch == 3:
				min = ownFin
			}
			c.Check(min >= 0 && rk.After > min, "MOMENT", what, v.N.Pos, "keys of epoch %d (in: %v) are installed after %d messages, before message %d", rk.Epoch, rk.In, rk.After, min+1)
			got, want, why := rekeySecret(v, s, rk)
			if c.Check(why == "", "KEYS", what, v.N.Pos, "%s", why) {
				same(c, v, "KEYS", fmt.Sprintf("key change %d", i+1), got, want)
			}
		}
	}
	c.Min("EPOCH", 200)
	c.Min("KEYS", 150)
	c.Min("MOMENT", 200)
}

func typeName(n int64) string {
	if s, ok := hs.TypeNames[n]; ok {
		return s
	}
	return fmt.Sprint("type ", n)
}

func c01(c *check.Ctx) {
	h := explored(c)
	driver(c, "ROUND", "COMPLETE")
	c.Rule("FINISHED", "on every path to the connected state the whole received Finished body was compared equal to the prescribed HMAC")
	for _, v := range h.views() {
		m, why := positions(v)
		if !c.Check(why == "", "FINISHED", v.Mode(), v.N.Pos, "%s", why) {
			continue
		}
		s, swhy := schedule(v)
		if !c.Check(swhy == "", "FINISHED", v.Mode(), v.N.Pos, "%s", swhy) {
			continue
		}
		n, base := m.sfin, s.ServerHS
		if !v.Client {
			n, base = m.cfin, s.ClientHS
		}
		want := finished(v, base, n)
		body := v.Norm(ai.Fld(v.Msgs[n].Recv, "body"))
		hsize := v.HSize()
		full := v.Same(ai.Len(body), hsize) || v.Known(ai.Eq(hsize, ai.Len(body)))
		part := v.Norm(ai.Mk("sl", "", body, ai.Int(0), hsize))
		ok, diff := false, "no comparison with the verify data"
		for _, f := range v.Find("eqb") {
			a, b := v.Norm(f.Args[0]), v.Norm(f.Args[1])
			for _, p := range [][2]*ai.Term{{a, b}, {b, a}} {
				if p[0] != body && !(p[0] == part && full) {
					continue
				}
				if p[1] == want {
					ok = true
				} else {
					diff = hs.Diff(p[1], want)
				}
			}
		}
		c.Check(ok, "FINISHED", v.Mode(), v.N.Pos, "the connected state is reached without the peer's Finished having been compared with its HMAC: %s", diff)
	}
	c.Min("FINISHED", 20)
	connectedOnly(c, h)
}

func c05(c *check.Ctx) {
	h := explored(c)
	actions(c, "QueueHandshakeMessage", "SendQueuedHandshake")
	c.Rule("PREFIX", "every transcript hash covers a prefix of the sequence of messages exchanged")
	c.Rule("WHOLE", "the last secret of the handshake covers every message exchanged")
	for _, v := range h.views() {
		if _, why := positions(v); !c.Check(why == "", "WHOLE", v.Mode(), v.N.Pos, "%s", why) {
			continue
		}
		prefixes := map[*ai.Term]bool{v.Hash(): true}
		for i := range v.Msgs {
			prefixes[v.Norm(ai.Cat(transcript(v, i)...))] = true
		}
		if v.Client && v.Retry() {
			// before the retry
			prefixes[v.Norm(v.Msgs[0].Wire)] = true
		}
		var roots []*ai.Term
		names := map[*ai.Term]string{}
		add := func(t *ai.Term, what string) {
			if t != nil {
				t = v.Norm(v.S.Deep(t))
				roots = append(roots, t)
				names[t] = what
			}
		}
		for _, f := range []string{"clientTrafficSecret", "serverTrafficSecret", "exporterSecret", "resumptionSecret"} {
			add(v.Field(f), f)
		}
		for i, rk := range v.Rekeys {
			add(rk.KeySet, fmt.Sprintf("key change %d", i+1))
		}
		for i, m := range v.Msgs {
			if m.Sent {
				add(m.Body, fmt.Sprintf("message %d (%s)", i+1, typeName(m.Type)))
			}
		}
		for f, val := range v.S.Facts() {
			if val {
				add(f, "a check")
			}
		}
		seen := map[*ai.Term]bool{}
		for _, r := range roots {
			r.Walk(func(t *ai.Term) {
				if t.Op != "hash" || seen[t] {
					return
				}
				seen[t] = true
				data := t.Args[1]
				msgs := false
				parts := []*ai.Term{data}
				if data.Op == "cat" {
					parts = data.Args
				}
				for _, p := range parts {
					msgs = msgs || p.Op == "wire" || p.Op == "trunc"
				}
				if !msgs {
					return
				}
				last := parts[len(parts)-1]
				if last.Op == "trunc" {
					// the binders' hash, covered by the pre-shared key rules
					return
				}
				c.Check(prefixes[data], "PREFIX", fmt.Sprintf("%s: %s", v.Mode(), names[r]), v.N.Pos, "%s of %s uses a hash that does not cover the messages exchanged so far, each once and in order: it covers %s", names[r], v.Mode(), outline(v, parts))
			})
		}
		m, _ := positions(v)
		res := v.Field("resumptionSecret")
		whole := v.Hash(transcript(v, len(v.Msgs)-1)...)
		c.Check(m.cfin == len(v.Msgs)-1 && res.Contains(whole), "WHOLE", v.Mode(), v.N.Pos, "the resumption secret of %s does not cover all messages exchanged", v.Mode())
	}
	c.Min("PREFIX", 100)
	c.Min("WHOLE", 20)
	blocked(c, h)
}

// outline names the messages that a hash covers.
func outline(v *hs.View, parts []*ai.Term) string {
	s := ""
	for _, p := range parts {
		n := "?"
		for i, m := range v.Msgs {
			if v.Norm(m.Wire) == p {
				n = fmt.Sprintf("%s(%d)", typeName(m.Type), i+1)
			}
		}
		if n == "?" {
			n = clip(p)
			if len(n) > 60 {
				n = n[:60]
			}
		}
		s += " " + n
	}
	return s
}

// blocked checks that an attempt that has to wait for input leaves the state
// as it was, so that its repetition does not count a message twice.
func blocked(c *check.Ctx, h *handshakes) {
	c.Rule("AGAIN", "an attempt that has to wait for input leaves the state as it was, and neither sends nor hashes anything")
	for _, r := range []*hs.Role{h.client, h.server} {
		wb := r.In.ConstInt("AlertWouldBlock")
		for _, e := range r.Exits {
			if e.Alert != wb && !(e.Alert.Op == "sym" && strings.HasPrefix(e.Alert.Aux, "alert@")) {
				continue
			}
			what := r.Name + " " + e.Stage
			c.Check(len(e.Recvs) == 0, "AGAIN", what+" receives", e.Pos, "%s waits after having received a message, which is lost when it is repeated", what)
			c.Check(len(e.Acts) == 0, "AGAIN", what+" acts", e.Pos, "%s waits after having produced actions", what)
			before, after := e.Before.S.Deep(e.Before.State), e.S.Deep(e.Before.State)
			c.Check(before == after, "AGAIN", what+" state", e.Pos, "%s changes the state although it has to wait: %s", what, hs.Diff(after, before))
		}
	}
	c.Min("AGAIN", 24)
}
