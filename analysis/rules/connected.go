package rules

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

// Events.  Some operations are not looked into; the sequence of their calls is
// kept in a specification variable.

const maxEvents = 24

// withEvents analyses a function, recording the calls of the given functions,
// which are not looked into.
// A name that starts with ! forgets what was recorded before: a round of the
// state machine begins.  For a name that starts with ?, success and failure are
// told apart, and a failure is recorded too.  One that starts with - is not
// recorded, only not looked into.
func (u *unit) withEvents(names []string, name string, args ...*ai.Term) (*ssa.Function, []*ai.Outcome) {
	none := alertConst(u, "AlertNoAlert")
	set := map[string]bool{}
	reset := map[string]bool{}
	silent := map[string]bool{}
	split := map[string]ai.Prim{}
	event := func(c *ai.Call, g *ai.Term) *ai.Term {
		as := make([]*ai.Term, len(c.Args))
		for i, a := range c.Args {
			as[i] = summary(anyIndex(c.S.Deep(c.S.Pure(a))), set)
		}
		ev := ai.Mk("ev", c.Name, as...)
		if n := len(g.Args); n > 0 && g.Args[n-1] == ev {
			return nil // the next round of a loop
		}
		if len(reset) > 0 {
			// what happens after a failure matters only as far as it is
			// more than an alert
			failed := 0
			for _, e := range g.Args {
				if e.Op == "failure" || failed > 0 {
					failed++
				}
			}
			if failed > 2 {
				return nil
			}
		}
		if reset[c.Name] {
			var kept []*ai.Term
			for _, e := range g.Args {
				if e.Op == "failure" || len(kept) > 0 {
					kept = append(kept, e)
				}
			}
			if g.Op == "unk" {
				kept = []*ai.Term{g}
			}
			return ai.Mk("trace", "", append(kept, ev)...)
		}
		if g.Op == "unk" || len(g.Args) >= maxEvents {
			return ai.Mk("unk", "trace")
		}
		return ai.Mk("trace", "", append(append([]*ai.Term(nil), g.Args...), ev)...)
	}
	for _, n := range names {
		switch n[0] {
		case '-':
			n = n[1:]
			silent[n] = true
		case '!':
			n = n[1:]
			reset[n] = true
		case '?':
			n = n[1:]
			split[n] = func(c *ai.Call) ([]*ai.Outcome, bool) {
				if g := event(c, c.S.Ghost()); g != nil {
					c.S.SetGhost(g)
				}
				res := c.Sig.Results()
				n := res.Len()
				good, bad := make([]*ai.Term, n), make([]*ai.Term, n)
				result := ai.Mk("call", c.Name)
				for i := range good {
					good[i] = ai.Mk("res", fmt.Sprint(i), result)
					bad[i] = ai.Mk("unk", "result of failed call")
				}
				failed := c.S.Clone()
				reason := ai.Mk("failure", c.Name)
				if types.Identical(res.At(n-1).Type(), types.Universe.Lookup("error").Type()) {
					good[n-1], bad[n-1] = ai.Nil, ai.Mk("errval", "", reason)
				} else {
					good[n-1], bad[n-1] = none, reason
					failed.Assume(ai.Eq(reason, none), false)
				}
				g := failed.Ghost()
				had := false
				for _, e := range g.Args {
					had = had || e.Op == "failure"
				}
				if g.Op != "unk" && !had {
					failed.SetGhost(ai.Mk("trace", "", append(append([]*ai.Term(nil), g.Args...), reason)...))
				}
				return []*ai.Outcome{ai.Return(c.S, good...), ai.Return(failed, bad...)}, true
			}
		}
		set[n] = true
	}
	saved := u.in.NoInline
	for n, f := range u.over {
		split[n] = f
	}
	u.in.NoInline = set
	u.in.Override = split
	u.in.Ghost = func(c *ai.Call, g *ai.Term) *ai.Term {
		if !set[c.Name] || silent[c.Name] || split[c.Name] != nil {
			return nil
		}
		return event(c, g)
	}
	u.in.Generic = reset
	u.in.Sticky = func(f *ai.Term) bool {
		if u.sticky != nil && u.sticky(f) {
			return true
		}
		if len(reset) == 0 {
			return false
		}
		if f.Op == "fld" || f.Op == "eq" && (f.Args[0].Op == "fld" || f.Args[1].Op == "fld") {
			return true // decisions about the connection and its configuration
		}
		if f.Op != "eq" && f.Op != "istype" {
			return false
		}
		x := f.Args[0]
		if _, ok := x.IsInt(); ok && f.Op == "eq" {
			x = f.Args[1]
		}
		return x.Op == "failure" || x.Op == "res" && x.Args[0].Op == "call" && set[x.Args[0].Call()]
	}
	defer func() { u.in.Sticky = func(*ai.Term) bool { return false } }()
	defer func() { u.in.NoInline = saved; u.in.Ghost = nil; u.in.Generic = nil; u.in.Override = nil }()
	return u.run(name, args...)
}

// summary replaces the results of recorded calls by their names.
func summary(t *ai.Term, set map[string]bool) *ai.Term {
	m := map[*ai.Term]*ai.Term{}
	t.Walk(func(x *ai.Term) {
		if x.Op == "call" && set[x.Call()] {
			m[x] = ai.Mk("of", x.Call())
		}
	})
	if len(m) == 0 {
		return t
	}
	return ai.Rewrite(t, m, map[*ai.Term]*ai.Term{})
}

// anyIndex forgets which element of a list is meant.
func anyIndex(t *ai.Term) *ai.Term {
	m := map[*ai.Term]*ai.Term{}
	t.Walk(func(x *ai.Term) {
		if x.Op == "elem" {
			if op := x.Args[1].Op; op == "lv" || op == "past" {
				m[x] = ai.Mk("elem", "", x.Args[0], ai.Mk("any", ""))
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return ai.Rewrite(t, m, map[*ai.Term]*ai.Term{})
}

// events lists the calls recorded on the way to an outcome.
func events(o *ai.Outcome) ([]*ai.Term, bool) {
	g := o.S.Ghost()
	return g.Args, g.Op != "unk"
}

// elems lists the elements of a list term.
func elems(t *ai.Term) ([]*ai.Term, bool) {
	if t == ai.Nil {
		return nil, true
	}
	if t.Op != "list" {
		return nil, false
	}
	return t.Args, true
}

// strip removes the interface wrapper of a value.
func strip(t *ai.Term) *ai.Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// isType tells whether a term is an interface value of a type of the package.
func isType(t *ai.Term, name string) bool {
	return t.Op == "iface" && hs.StateType(t) == name
}

// suiteHash is the hash of a cryptoParams value.
func suiteHash(params *ai.Term) *ai.Term { return ai.Fld(params, "Hash") }

func expand1(params, secret *ai.Term, label string, ctx *ai.Term) *ai.Term {
	h := suiteHash(params)
	return ai.Mk("hkdfl", "", h, secret, ai.Str(label), ctx, ai.Mk("hsize", "", h))
}

func ident(t *ai.Term) *ai.Term { return t }

func alertConst(u *unit, name string) *ai.Term { return u.in.ConstInt(name) }

// queued is the body of the handshake message of a QueueHandshakeMessage action.
func queued(a *ai.Term) (typ, body *ai.Term) {
	if !isType(a, "QueueHandshakeMessage") {
		return nil, nil
	}
	m := ai.Fld(strip(a), "Message")
	if m.Op == "to" {
		m = m.Args[0]
	}
	return ai.Fld(m, "msgType"), ai.Fld(m, "body")
}

// keyUpdateMessage tells whether an action queues a KeyUpdate with a request.
func keyUpdateMessage(a, request *ai.Term) bool {
	typ, body := queued(a)
	if typ == nil || typ != ai.Int(24) || body.Op != "enc" || body.Aux != "KeyUpdateBody" {
		return false
	}
	return ai.Fld(body.Args[0], "KeyUpdateRequest") == request
}

// rekeyTo checks that an action installs keys of a secret.
func rekeyTo(a *ai.Term, typ string, params, secret *ai.Term) string {
	if !isType(a, typ) {
		return "is " + clip(a) + ", not a " + typ
	}
	if e := ai.Fld(strip(a), "epoch"); e != ai.Int(4) {
		return "is for epoch " + clip(e)
	}
	got, why := hs.KeySecretIn(ident, ai.Fld(strip(a), "KeySet"), params, suiteHash(params))
	if why != "" {
		return why
	}
	if got != secret {
		return "uses keys of " + clip(got) + ", not of " + clip(secret)
	}
	return ""
}

var secretField = map[bool]string{true: "clientTrafficSecret", false: "serverTrafficSecret"}

// otherFieldsKept checks that a connected state differs from an earlier one
// only in the given fields.
func otherFieldsKept(old *ai.Term, now func(string) *ai.Term, fields []string, except map[string]bool) string {
	for _, f := range fields {
		if !except[f] && now(f) != ai.Fld(old, f) {
			return f + " becomes " + clip(now(f))
		}
	}
	return ""
}

var connectedFields = []string{"Params", "hsCtx", "isClient", "cryptoParams", "resumptionSecret", "clientTrafficSecret", "serverTrafficSecret", "exporterSecret", "peerCertificates", "verifiedChains"}

// keyUpdateSent checks the actions of sending a key update, and the secret
// that the state keeps.
func keyUpdateSent(acts []*ai.Term, old *ai.Term, now func(string) *ai.Term, client bool, request *ai.Term) string {
	params := ai.Fld(old, "cryptoParams")
	mine := secretField[client]
	next := expand1(params, ai.Fld(old, mine), "traffic upd", ai.Empty)
	if len(acts) != 3 {
		return "the actions are not to queue a message, to send it and to change keys"
	}
	if !keyUpdateMessage(acts[0], request) {
		return "the first action is not to queue a KeyUpdate message with the request: " + clip(acts[0])
	}
	if !isType(acts[1], "SendQueuedHandshake") {
		return "the second action is not to send the message: " + clip(acts[1])
	}
	if why := rekeyTo(acts[2], "RekeyOut", params, next); why != "" {
		return "the third action " + why
	}
	if got := now(mine); got != next {
		return "the state keeps " + clip(got) + " as its " + mine
	}
	return ""
}

func c21(c *check.Ctx) {
	u := newUnit(c)
	c.Rule("SEND", "a KeyUpdate is queued and sent before the sending keys change to those of the next generation of the own secret, which alone the state replaces")
	c.Rule("RECEIVE", "a received KeyUpdate changes the receiving keys to the next generation of the peer's secret, and is answered if and only if it requests that")
	c.Rule("TAKE", "the actions of a key update are taken in order, all of them, and the new state is kept")
	c.Rule("LABEL", "the derivation of the next generation is HKDF-Expand-Label")
	none := alertConst(u, "AlertNoAlert")

	// sending
	state := ai.Sym("state")
	fn, outs := u.run("stateConnected.KeyUpdate", state)
	seen := map[bool]int{}
	for _, o := range outs {
		old := ai.Mk("deref", "", state)
		if o.Result(1) != none {
			c.Check(fails2(o, o.Result(1), none), "SEND", "failure", o.Pos, "a failed key update may be taken for a successful one")
			continue
		}
		client, ok := o.S.Eval(ai.Fld(old, "isClient"))
		if !c.Check(ok, "SEND", "role", o.Pos, "the keys do not depend on the role") {
			continue
		}
		acts, isList := elems(o.S.Deep(o.S.Pure(o.Result(0))))
		now := fieldsAt(o, state)
		why := "the actions are not known"
		if isList {
			why = keyUpdateSent(acts, old, now, client, ai.Sym("request"))
		}
		c.Check(why == "", "SEND", role(client)+" sends", o.Pos, "%s sending a KeyUpdate: %s", role(client), why)
		why = otherFieldsKept(old, now, connectedFields, map[string]bool{secretField[client]: true})
		c.Check(why == "", "SEND", role(client)+" state", o.Pos, "%s sending a KeyUpdate changes more than its own secret: %s", role(client), why)
		seen[client]++
	}
	if fn != nil {
		c.Check(seen[true] > 0 && seen[false] > 0, "SEND", "both roles", fn.Pos(), "only one role can send a KeyUpdate")
	}

	// receiving
	st, hm := ai.Sym("state"), ai.Sym("hm")
	fn, outs = u.run("stateConnected.ProcessMessage", st, hm)
	cases := map[string]bool{}
	for _, o := range outs {
		if o.Result(2) != none {
			c.Check(fails2(o, o.Result(2), none), "RECEIVE", "failure", o.Pos, "a rejected message may be taken for an accepted one")
			continue
		}
		acts, isList := elems(o.S.Deep(o.S.Pure(o.Result(1))))
		whole := strip(o.S.Deep(o.S.Pure(o.Result(0))))
		now := func(f string) *ai.Term { return ai.Fld(whole, f) }
		if !c.Check(isList, "RECEIVE", "actions", o.Pos, "the actions of a message in the connected state are not known: %s", clip(o.Result(1))) {
			continue
		}
		keyUpdateReceived(c, o, "RECEIVE", acts, st, now, hm, cases)
	}
	if fn != nil {
		for _, w := range []string{"client", "server", "client requested", "server requested"} {
			c.Check(cases[w], "RECEIVE", "case "+w, fn.Pos(), "no KeyUpdate is accepted in the case: %s", w)
		}
	}
	takeKeyUpdate(c, u)
	actions(c, "QueueHandshakeMessage", "SendQueuedHandshake", "RekeyIn", "RekeyOut")
	hkdf(c)
	c.Min("SEND", 5)
	c.Min("RECEIVE", 16)
}

// keyUpdateReceived checks the actions taken, and the state kept, when a
// message is accepted in a connected state.
func keyUpdateReceived(c *check.Ctx, o *ai.Outcome, rule string, acts []*ai.Term, st *ai.Term, now func(string) *ai.Term, hm *ai.Term, cases map[string]bool) {
	isKU := ai.Eq(ai.Fld(ai.Mk("deref", "", hm), "msgType"), ai.Int(24))
	body := ai.Fld(ai.Mk("deref", "", hm), "body")
	request := ai.Fld(ai.Mk("dec", "KeyUpdateBody", body), "KeyUpdateRequest")
	params := ai.Fld(st, "cryptoParams")
	if v, ok := o.S.Eval(isKU); !ok || !v {
		bad := ""
		for _, a := range acts {
			if !isType(a, "StorePSK") {
				bad = clip(a)
			}
		}
		if why := otherFieldsKept(st, now, connectedFields, nil); why != "" {
			bad = why
		}
		c.Check(bad == "", rule, "other messages", o.Pos, "a message that is no KeyUpdate changes keys, sends something or changes the state: %s", bad)
		return
	}
	client, ok := o.S.Eval(ai.Fld(st, "isClient"))
	if !c.Check(ok, rule, "role", o.Pos, "the keys do not depend on the role") {
		return
	}
	theirs := secretField[!client]
	next := expand1(params, ai.Fld(st, theirs), "traffic upd", ai.Empty)
	why := "no keys are changed"
	if len(acts) > 0 {
		why = rekeyTo(acts[0], "RekeyIn", params, next)
	}
	c.Check(why == "", rule, role(client)+" keys", o.Pos, "%s receiving a KeyUpdate: the first action %s", role(client), why)
	c.Check(now(theirs) == next, rule, role(client)+" secret", o.Pos, "%s receiving a KeyUpdate keeps %s as the %s", role(client), clip(now(theirs)), theirs)
	req, ok := o.S.Eval(ai.Eq(request, ai.Int(1)))
	if !c.Check(ok, rule, role(client)+" request", o.Pos, "%s receiving a KeyUpdate does not look at whether it requests one", role(client)) {
		return
	}
	cases[role(client)+map[bool]string{true: " requested", false: ""}[req]] = true
	except := map[string]bool{theirs: true}
	if req {
		why = "there is no answer"
		if len(acts) > 1 {
			why = keyUpdateSent(acts[1:], st, now, client, ai.Int(0))
		}
		except[secretField[client]] = true
		c.Check(why == "", rule, role(client)+" answer", o.Pos, "%s receiving a KeyUpdate that requests one: %s", role(client), why)
	} else {
		c.Check(len(acts) <= 1, rule, role(client)+" no answer", o.Pos, "%s receiving a KeyUpdate that does not request one does more than to change the receiving keys", role(client))
	}
	why = otherFieldsKept(st, now, connectedFields, except)
	c.Check(why == "", rule, role(client)+" state", o.Pos, "%s receiving a KeyUpdate: %s", role(client), why)
}

// taken tells whether it is known that taking an action succeeded.
func taken(o *ai.Outcome, ev, none *ai.Term) bool {
	return anyFact(o, true, func(f *ai.Term) bool {
		if f.Op != "eq" || f.Args[1] != none && f.Args[0] != none {
			return false
		}
		x := f.Args[0]
		if x == none {
			x = f.Args[1]
		}
		return isCall(x, ev.Aux) && anyIndex(x.Args[1]) == ev.Args[1]
	})
}

// fails2 tells that a result is certainly not the value for success.
func fails2(o *ai.Outcome, t, none *ai.Term) bool {
	for _, a := range t.Alts() {
		if a == none || a == ai.Nil {
			return false
		}
		if a.Op == "errval" {
			continue
		}
		if _, ok := a.IsInt(); ok {
			continue
		}
		if v, ok := o.S.Eval(ai.Eq(a, none)); !ok || v {
			return false
		}
	}
	return true
}

// fieldsAt reads the fields of a structure in memory.
func fieldsAt(o *ai.Outcome, p *ai.Term) func(string) *ai.Term {
	return func(f string) *ai.Term {
		return o.S.Deep(o.S.Pure(o.S.Load(ai.FieldAddr(p, f))))
	}
}

func role(client bool) string {
	if client {
		return "client"
	}
	return "server"
}

const (
	fnTakeAction = "(*Conn).takeAction"
	fnSendAlert  = "(*Conn).sendAlert"
)

// takeKeyUpdate checks that a connection takes all actions of key updates in
// order and keeps the state.
func takeKeyUpdate(c *check.Ctx, u *unit) {
	none := alertConst(u, "AlertNoAlert")
	conn := ai.Sym("conn")
	old := connField(conn)

	for _, op := range []string{"Conn.updateKeys", "Conn.SendKeyUpdate"} {
		fn, outs := u.withEvents([]string{fnTakeAction, fnSendAlert}, op, conn)
		n := 0
		for _, o := range outs {
			r := o.Result(0)
			good := r == none || r == ai.Nil
			evs, ok := events(o)
			c.Check(ok, "TAKE", op+" sequence", o.Pos, "the sequence of actions of %s is not known", op)
			if !good {
				c.Check(fails2(o, r, none), "TAKE", op+" failure", o.Pos, "a failed key update may be reported as success: %s", clip(r))
				continue
			}
			n++
			why := "the role is not distinguished"
			if client, ok := o.S.Eval(ai.Fld(old, "isClient")); ok {
				var acts []*ai.Term
				bad := false
				for _, e := range evs {
					if e.Aux != fnTakeAction || e.Args[0] != conn || !taken(o, e, none) {
						bad = true
						continue
					}
					acts = append(acts, e.Args[1])
				}
				var request *ai.Term
				if len(acts) > 0 {
					if _, b := queued(acts[0]); b != nil && b.Op == "enc" {
						request = ai.Fld(b.Args[0], "KeyUpdateRequest")
					}
				}
				now := fieldsAt(o, ai.FieldAddr(conn, "state"))
				why = keyUpdateSent(acts, old, now, client, request)
				if bad {
					why = "an alert is sent or an action failed"
				}
				if op == "Conn.SendKeyUpdate" && why == "" {
					done, ok := o.S.Eval(ai.Fld(ai.Mk("deref", "", conn), "handshakeComplete"))
					if !ok || !done {
						why = "it is sent before the handshake is complete"
					}
					req, ok := o.S.Eval(ai.Sym("requestUpdate"))
					if !ok || request != map[bool]*ai.Term{true: ai.Int(1), false: ai.Int(0)}[req] {
						why = "the request is not the caller's: " + clip(request)
					}
				}
			}
			c.Check(why == "", "TAKE", op, o.Pos, "%s succeeds, but %s", op, why)
		}
		if fn != nil {
			c.Check(n > 0, "TAKE", op+" success", fn.Pos(), "%s cannot succeed", op)
		}
	}

	hm := ai.Sym("hm")
	fn, outs := u.withEvents([]string{fnTakeAction, fnSendAlert}, "Conn.processPostHandshake", conn, hm)
	cases := map[string]bool{}
	for _, o := range outs {
		evs, ok := events(o)
		if o.Result(0) != none {
			c.Check(fails2(o, o.Result(0), none), "TAKE", "processPostHandshake failure", o.Pos, "a failure may be reported as success: %s", clip(o.Result(0)))
			continue
		}
		if !c.Check(ok, "TAKE", "processPostHandshake sequence", o.Pos, "the sequence of actions is not known") {
			continue
		}
		var acts []*ai.Term
		for _, e := range evs {
			if e.Aux == fnTakeAction && e.Args[0] == conn && taken(o, e, none) {
				acts = append(acts, e.Args[1])
			} else {
				c.Fail("TAKE", "processPostHandshake alert", o.Pos, "a message is accepted although an alert is sent or an action failed")
			}
		}
		keyUpdateReceived(c, o, "TAKE", acts, old, fieldsAt(o, ai.FieldAddr(conn, "state")), hm, cases)
	}
	if fn != nil {
		for _, w := range []string{"client", "server", "client requested", "server requested"} {
			c.Check(cases[w], "TAKE", "case "+w, fn.Pos(), "a connection accepts no KeyUpdate in the case: %s", w)
		}
	}
}

func init() {
	check.Register(&check.Prop{ID: "C21", Explanation: "All paths of sending and receiving a KeyUpdate, in the connected state and in the connection that takes its actions, are summarised with the sequence of actions; the actions, their order, the keys and what the state keeps are compared with RFC 8446 7.2 and 4.6.3.", Run: c21})
}
