package rules

import (
	ai "mintcheck/absint"
	"mintcheck/check"
)

// storedKey compares a stored key with the ticket it stands for.
func storedKey(o *ai.Outcome, psk, st *ai.Term, tkt func(string) *ai.Term) string {
	params := ai.Fld(st, "cryptoParams")
	now := ai.Fld(psk, "ReceivedAt")
	if !isCall(now, "time.Now") {
		return "the time of the ticket is " + clip(now)
	}
	exp := ai.Fld(psk, "ExpiresAt")
	life := tkt("TicketLifetime")
	if !isCall(exp, "(time.Time).Add") || exp.Args[0] != now {
		return "the ticket expires at " + clip(exp)
	}
	k, coef := ai.Lin(exp.Args[1])
	if k != 0 || len(coef) != 1 || coef[unTo(life)] != 1000000000 {
		return "the ticket's lifetime is " + clip(exp.Args[1])
	}
	for _, x := range []struct {
		field string
		want  *ai.Term
	}{
		{"CipherSuite", ai.Fld(params, "Suite")},
		{"IsResumption", ai.True},
		{"Identity", tkt("Ticket")},
		{"Key", expand1(params, ai.Fld(st, "resumptionSecret"), "resumption", tkt("TicketNonce"))},
		{"NextProto", ai.Fld(ai.Fld(st, "Params"), "NextProto")},
		{"TicketAgeAdd", tkt("TicketAgeAdd")},
	} {
		if got := ai.Fld(psk, x.field); got != x.want {
			return "its " + x.field + " is " + clip(got) + " instead of " + clip(x.want)
		}
	}
	return ""
}

// ticketIssue checks how tickets are made.
func ticketIssue(c *check.Ctx) {
	u := newUnit(c)
	c.Rule("ISSUE", "a server stores, for the ticket that it sends, the identity, key, age offset, lifetime, suite and protocol that the ticket stands for, and then sends that ticket")
	c.Rule("RANDOM", "ticket, nonce and age offset are disjoint parts of fresh randomness of the configured length")
	none := alertConst(u, "AlertNoAlert")
	state := ai.Sym("state")
	st := ai.Mk("deref", "", state)
	fn, outs := u.run("stateConnected.NewSessionTicket", state)
	n := 0
	for _, o := range outs {
		if o.Result(1) != none {
			c.Check(fails2(o, o.Result(1), none), "ISSUE", "failure", o.Pos, "a failure may be reported as success")
			continue
		}
		n++
		acts, ok := elems(o.S.Deep(o.S.Pure(o.Result(0))))
		why := ""
		switch {
		case !ok || len(acts) != 3 || !isType(acts[0], "StorePSK") || !isType(acts[1], "QueueHandshakeMessage") || !isType(acts[2], "SendQueuedHandshake"):
			why = "the actions are not to store the key, to queue the ticket and to send it"
		default:
			typ, body := queued(acts[1])
			if typ != ai.Int(4) || body.Op != "enc" || body.Aux != "NewSessionTicketBody" {
				why = "the message queued is not a NewSessionTicket: " + clip(body)
				break
			}
			b := inner(body.Args[0])
			why = storedKey(o, ai.Fld(strip(acts[0]), "PSK"), st, func(f string) *ai.Term { return ai.Fld(b, f) })
			if why == "" && ai.Fld(b, "TicketLifetime") != ai.Sym("lifetime") {
				why = "the lifetime is " + clip(ai.Fld(b, "TicketLifetime")) + ", not the configured one"
			}
			early := false
			ai.Fld(b, "Extensions").Walk(func(t *ai.Term) {
				if t.Op == "typed" && t.Aux == "TicketEarlyDataInfoExtension" && t.Args[0].Contains(ai.Sym("earlyDataLifetime")) {
					early = true
				}
			})
			if why == "" && !early {
				why = "the ticket does not say the configured early data limit"
			}
			// randomness
			rwhy := ""
			used := map[*ai.Term]string{}
			for _, f := range []string{"TicketAgeAdd", "TicketNonce", "Ticket"} {
				v := ai.Fld(b, f)
				if b := ai.FromBigEndian(v); b != nil {
					v = b
				}
				if !isRandomPart(v) {
					rwhy = f + " is not random: " + clip(v)
				}
				if g, dup := used[v]; dup {
					rwhy = f + " and " + g + " are the same bytes"
				}
				used[v] = f
				for w, g := range used {
					if w != v && overlap(v, w) {
						rwhy = f + " and " + g + " share bytes"
					}
				}
				want := map[string]*ai.Term{"TicketAgeAdd": ai.Int(4), "TicketNonce": ai.Int(16), "Ticket": ai.Sym("length")}[f]
				if got := ai.Len(v); got != want && rwhy == "" && f != "TicketNonce" {
					rwhy = f + " has the length " + clip(got)
				} else if n, isInt := got.IsInt(); f == "TicketNonce" && (!isInt || n < 1 || n > 255) {
					rwhy = f + " has the length " + clip(got)
				}
			}
			c.Check(rwhy == "", "RANDOM", "ticket", o.Pos, "a ticket: %s", rwhy)
		}
		c.Check(why == "", "ISSUE", "ticket", o.Pos, "issuing a ticket: %s", why)
		w := otherFieldsKept(st, fieldsAt(o, state), connectedFields, nil)
		c.Check(w == "", "ISSUE", "state", o.Pos, "issuing a ticket changes the state: %s", w)
	}
	if fn != nil {
		c.Check(n > 0, "ISSUE", "success", fn.Pos(), "no ticket can be issued")
	}

}

func c20(c *check.Ctx) {
	secretsKept(c, "resumptionSecret", "cryptoParams", "Params", "isClient")
	ticketIssue(c)
	u := newUnit(c)
	c.Rule("RECEIVE", "a client stores the same for the ticket that it receives; a server rejects tickets")
	none := alertConst(u, "AlertNoAlert")
	s, hm := ai.Sym("state"), ai.Sym("hm")
	fn, outs := u.run("stateConnected.ProcessMessage", s, hm)
	isNST := ai.Eq(ai.Fld(ai.Mk("deref", "", hm), "msgType"), ai.Int(4))
	body := ai.Mk("dec", "NewSessionTicketBody", ai.Fld(ai.Mk("deref", "", hm), "body"))
	n := 0
	for _, o := range outs {
		if o.Result(2) != none {
			continue
		}
		acts, ok := elems(o.S.Deep(o.S.Pure(o.Result(1))))
		stores := 0
		for _, a := range acts {
			if isType(a, "StorePSK") {
				stores++
			}
		}
		if v, known := o.S.Eval(isNST); known && !v {
			c.Check(ok && stores == 0, "RECEIVE", "other messages", o.Pos, "a key is stored for another message")
			continue
		}
		n++
		client, known := o.S.Eval(ai.Fld(s, "isClient"))
		why := ""
		switch {
		case !known || !client:
			why = "a server accepts a ticket"
		case !ok || len(acts) != 1 || stores != 1:
			why = "the action is not just to store the key"
		default:
			why = storedKey(o, ai.Fld(strip(acts[0]), "PSK"), s, func(f string) *ai.Term { return ai.Fld(body, f) })
		}
		c.Check(why == "", "RECEIVE", "ticket", o.Pos, "receiving a ticket: %s", why)
	}
	if fn != nil {
		c.Check(n > 0, "RECEIVE", "success", fn.Pos(), "no ticket can be received")
	}
	driver(c, "TICKETS")
	actions(c, "StorePSK", "QueueHandshakeMessage", "SendQueuedHandshake")
	hkdf(c)
}

func isRandomPart(t *ai.Term) bool {
	t = unTo(t)
	for t.Op == "sl" {
		t = t.Args[0]
	}
	return t.Op == "rand"
}

// overlap tells whether two parts of one random string may share bytes.
func overlap(a, b *ai.Term) bool {
	a, b = unTo(a), unTo(b)
	base := func(t *ai.Term) *ai.Term {
		for t.Op == "sl" {
			t = t.Args[0]
		}
		return t
	}
	if base(a) != base(b) {
		return false
	}
	if a.Op != "sl" || b.Op != "sl" {
		return true
	}
	le := func(x, y *ai.Term) bool {
		if x == y {
			return true
		}
		m, ok1 := x.IsInt()
		n, ok2 := y.IsInt()
		return ok1 && ok2 && m <= n
	}
	return !(le(a.Args[2], b.Args[1]) || le(b.Args[2], a.Args[1]))
}

func c30(c *check.Ctx) {
	secretsKept(c, "exporterSecret", "cryptoParams")
	u := newUnit(c)
	c.Rule("EXPORTER", "keying material is exported only from a connected session, and is the exporter of RFC 8446 7.5 of its exporter secret, the label, the context and the length")
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	label, context, length := ai.Sym("label"), ai.Sym("context"), ai.Sym("keyLength")
	fn, outs := u.run("Conn.ComputeExporter", conn, label, context, length)
	n := 0
	for _, o := range outs {
		if o.Result(1) != ai.Nil {
			c.Check(fails2(o, o.Result(1), ai.Nil), "EXPORTER", "failure", o.Pos, "a failure may be reported as success")
			continue
		}
		n++
		params := connField(conn, "cryptoParams")
		h := suiteHash(params)
		secret := ai.Mk("hkdfl", "", h, connField(conn, "exporterSecret"), label, ai.Mk("hash", "", h, ai.Empty), ai.Mk("hsize", "", h))
		want := ai.Mk("hkdfl", "", h, secret, ai.Str("exporter"), ai.Mk("hash", "", h, context), length)
		got := o.S.Deep(o.S.Pure(o.Result(0)))
		c.Check(got == want, "EXPORTER", "value", o.Pos, "the keying material is %s", clip(got))
		connected := known(o, ai.Mk("istype", "stateConnected", ai.Fld(self, "hState"))) || anyFact(o, true, func(f *ai.Term) bool {
			return f.Op == "istype" && f.Args[0] == ai.Fld(self, "hState") && f.Aux == "stateConnected"
		}) || known(o, ai.Fld(self, "handshakeComplete"))
		c.Check(le(o.S, ai.Int(0), length), "EXPORTER", "negative", o.Pos, "a negative number of bytes may be exported")
		c.Check(le(o.S, length, ai.Mul(255, ai.Mk("hsize", "", h))), "EXPORTER", "too much", o.Pos, "more bytes may be exported than HKDF can produce (255 hash outputs)")
		c.Check(le(o.S, ai.Len(label), ai.Int(249)), "EXPORTER", "label", o.Pos, "a label may be used that is longer than HKDF-Expand-Label can encode (249 bytes)")
		c.Check(connected, "EXPORTER", "connected", o.Pos, "keying material is exported although the handshake may not be complete")
	}
	if fn != nil {
		c.Check(n > 0, "EXPORTER", "success", fn.Pos(), "nothing can be exported")
	}
	hkdf(c)
	suiteTable(c)
	exporterSchedule(c)
}

// exporterSchedule checks the exporter secret of every completed handshake.
func exporterSchedule(c *check.Ctx) {
	h := explored(c)
	c.Rule("SCHEDULE", "the exporter secret of a completed handshake is derived as RFC 8446 7.1 prescribes")
	for _, v := range h.views() {
		s, why := schedule(v)
		if !c.Check(why == "", "SCHEDULE", v.Mode()+": inputs", v.N.Pos, "%s", why) {
			continue
		}
		same(c, v, "SCHEDULE", "exporter secret", v.Field("exporterSecret"), s.Exporter)
		c.Check(v.Field("cryptoParams") == v.Norm(v.Field("cryptoParams")), "SCHEDULE", v.Mode()+": suite", v.N.Pos, "the suite of the exporter is not the negotiated one")
	}
	c.Min("SCHEDULE", 20)
}

func init() {
	check.Register(&check.Prop{ID: "C20", Explanation: "The functions that issue and receive tickets are summarised over all paths; the key stored on either side is compared, field by field, with what the ticket sent or received stands for, and the randomness in the ticket with its source.", Run: c20})
	check.Register(&check.Prop{ID: "C30", Explanation: "All successful paths of ComputeExporter are compared, as terms, with the exporter of RFC 8446 7.5, the exporter secret of every completed handshake with the key schedule, and HKDF and the suite table with their definitions.", Run: c30})
}
