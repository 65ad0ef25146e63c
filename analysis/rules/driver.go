package rules

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
)

const (
	fnNext      = "invoke:HandshakeState.Next"
	fnTicket    = "(*stateConnected).NewSessionTicket"
	fnTimers    = "(*timerSet).check"
	fnInit      = "(*Config).Init"
	fnCookie    = "(*Config).initCookieProtector"
	fnFirst     = "(clientStateStart).Next"
	resultState = "0"
)

var driverEvents = []string{"?" + fnTakeAction, fnSendAlert, fnFirst, "!" + fnNext, "?" + fnTicket, "?" + fnTimers, "?" + fnInit, "?" + fnCookie}

// driver checks that a connection runs the state machine as the analysis of
// the handshake assumes.  The parts are what the caller's property is about.
func driver(c *check.Ctx, parts ...string) {
	want := map[string]bool{}
	texts := map[string]string{
		"SETUP":    "a handshake starts in the initial state of its role, with the connection's configuration",
		"ROUND":    "each round goes from the current state to the one that its successor function yields, after all its actions were taken in order; a round that blocks changes nothing",
		"COMPLETE": "a handshake is complete only, and then always, when a round ends in the connected state, which the connection keeps",
		"TICKETS":  "tickets are issued only, and then always, by a server that is configured to, right after completion, with the configured parameters",
		"ALERTS":   "a failure ends the handshake, is sent to the peer as an alert, returned, and returned again by later calls",
		"EARLY":    "early data received becomes the first data to be read when the handshake completes",
	}
	for _, p := range parts {
		want[p] = true
		c.Rule(p, texts[p])
	}
	chk := func(part string, ok bool, construct string, pos token.Pos, format string, args ...interface{}) bool {
		if want[part] {
			c.Check(ok, part, construct, pos, format, args...)
		}
		return ok
	}

	u := newUnit(c)
	none := alertConst(u, "AlertNoAlert")
	block := alertConst(u, "AlertWouldBlock")
	retry := alertConst(u, "AlertStatelessRetry")
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	config := ai.Fld(self, "config")
	cfg := func(f string) *ai.Term { return ai.Fld(ai.Mk("deref", "", config), f) }
	fn, outs := u.withEvents(driverEvents, "Conn.Handshake", conn)
	if fn == nil {
		return
	}
	seen := map[string]int{}
	for _, o := range outs {
		r := o.Result(0)
		evs, ok := events(o)
		if !chk(parts[0], ok && !hasUnk(evs), "events", o.Pos, "the sequence of operations of a handshake is not known") {
			continue
		}
		load := fieldsAt(o, conn)
		old := func(f string) *ai.Term { return ai.Fld(self, f) }
		kept := func(f string) bool { return load(f) == old(f) }

		if v, ok := o.S.Eval(ai.Eq(old("handshakeAlert"), none)); ok && !v {
			chk("ALERTS", r == old("handshakeAlert") && len(evs) == 0 && kept("handshakeComplete"), "remembered", o.Pos, "after a failed handshake a further one yields %s", clip(r))
			seen["remembered"]++
			continue
		} else if !ok {
			chk("ALERTS", false, "remembered", o.Pos, "a handshake does not look at the failure of an earlier one")
		}
		if v, ok := o.S.Eval(old("handshakeComplete")); ok && v {
			chk("COMPLETE", r == none && len(evs) == 0 && kept("state") && kept("hState"), "already complete", o.Pos, "a handshake on a connection where it is complete does something")
			continue
		} else if !ok && len(evs) > 0 {
			chk("COMPLETE", false, "already complete", o.Pos, "a handshake may be repeated on a connection where it is complete")
			continue
		}

		// what happened, apart from failures
		var seq, failures []*ai.Term
		afterFailure := 0
		for _, e := range evs {
			switch {
			case e.Op == "failure":
				failures = append(failures, e)
			case len(failures) > 0 && e.Aux != fnSendAlert:
				afterFailure++
				fallthrough
			default:
				seq = append(seq, e)
			}
		}
		good := r == none || r == block || r == retry
		chk("ROUND", afterFailure == 0, "failure ends", o.Pos, "something is done after an operation failed")
		chk("ROUND", !(good && len(failures) > 0), "failure reported", o.Pos, "the failure of %s does not fail the handshake", name(failures))
		chk("ALERTS", !(good && len(failures) > 0), "failure reported", o.Pos, "the failure of %s does not fail the handshake", name(failures))
		if !good {
			chk("ALERTS", fails2(o, r, none), "failure value", o.Pos, "a failed handshake may yield the value for success: %s", clip(r))
			a := load("handshakeAlert")
			chk("ALERTS", a == r || known(o, ai.Eq(r, block)) || known(o, ai.Eq(r, retry)), "recorded", o.Pos, "the failure %s is not remembered for later calls", clip(r))
		} else {
			chk("ALERTS", kept("handshakeAlert"), "no failure", o.Pos, "a handshake that did not fail is remembered as failed")
		}

		// the round
		i := 0
		for i < len(seq) && seq[i].Aux != fnNext {
			i++
		}
		if i == len(seq) {
			// no round: only the setup
			setup(chk, o, conn, seq, failures, good, none)
			chk("COMPLETE", kept("handshakeComplete") && kept("state"), "setup completes", o.Pos, "a handshake is complete after its setup")
			if good {
				seen["setup only"]++
			}
			continue
		}
		round := seq[i:]
		from, reader := round[0].Args[0], round[0].Args[1]
		rounds := nextTerm(o)
		if !chk("ROUND", rounds != nil || !good, "result", o.Pos, "the result of a round is not used") || rounds == nil {
			continue
		}
		chk("ROUND", fromOK(from, conn), "current state", o.Pos, "a round does not start in the current state but in %s", clip(from))
		if from.Op == "iface" {
			server, ok := o.S.Eval(old("isClient"))
			chk("SETUP", isType(from, "serverStateStart") && ok && !server && ai.Fld(strip(from), "Config") == config && ai.Fld(strip(from), "hsCtx") == old("hsCtx") && ai.Fld(strip(from), "conn") == conn, "server start", o.Pos, "the initial state of a server is %s", clip(from))
			seen["server start"]++
		}
		chk("ROUND", readerOK(reader, old("hsCtx")), "reader", o.Pos, "the state machine reads from %s", clip(reader))
		alert := ai.Mk("res", "2", rounds)
		is := func(t *ai.Term) bool { return known(o, ai.Eq(alert, t)) }
		nstate, nacts := ai.Mk("res", "0", rounds), ai.Mk("res", "1", rounds)

		// actions
		nTicket := -1
		sent := false
		for k, e := range round[1:] {
			switch e.Aux {
			case fnTakeAction:
				src := e.Args[1]
				which := fnNext
				idx := "1"
				if nTicket >= 0 {
					which, idx = fnTicket, "0"
				}
				chk("ROUND", e.Args[0] == conn && src.Op == "elem" && src.Args[0].Op == "res" && src.Args[0].Aux == idx && src.Args[0].Args[0].Op == "of" && src.Args[0].Args[0].Aux == which && src.Args[1].Op == "any", "action", o.Pos, "an action is taken that is not one of those of the round: %s", clip(src))
				chk("ROUND", is(none) || is(retry), "action of failed round", o.Pos, "actions are taken although the round may have failed")
			case fnTicket:
				nTicket = k
			case fnSendAlert:
				sent = true
				chk("ALERTS", k == len(round)-2 && e.Args[0] == conn && (e.Args[1] == r || alertIs(e.Args[1], r)), "alert sent", o.Pos, "the alert sent (%s) is not the failure returned (%s), or is not the last thing done", clip(e.Args[1]), clip(r))
			}
		}
		connected := known(o, ai.Mk("istype", "stateConnected", nstate)) || anyFact(o, true, func(f *ai.Term) bool {
			return f.Op == "istype" && f.Args[0] == nstate && f.Aux == "stateConnected"
		})
		done := load("handshakeComplete")
		complete := done == ai.True
		if !complete {
			chk("COMPLETE", done == old("handshakeComplete") || done == ai.False, "flag", o.Pos, "the handshake is complete if %s", clip(done))
		}
		if complete || len(failures) == 0 && (r == none || r == retry) {
			chk("ROUND", is(none) || is(retry), "round succeeded", o.Pos, "a round is taken for successful although its alert is not looked at")
			chk("ROUND", loopDone(o, nacts), "all actions", o.Pos, "a round ends before all its actions were taken")
			chk("ROUND", load("hState") == nstate, "next state", o.Pos, "after a round the connection is in the state %s", clip(load("hState")))
		}
		if complete {
			seen["complete"]++
			chk("COMPLETE", connected, "connected", o.Pos, "the handshake is complete although the state may not be the connected one")
			st := load("state")
			same := true
			for _, f := range connectedFields {
				x := ai.Fld(st, f)
				if x.Op != "fld" || x.Aux != f || !assertOf(x.Args[0], nstate) {
					same = false
				}
			}
			chk("COMPLETE", same || assertOf(st, nstate), "state kept", o.Pos, "the connection keeps %s, not the connected state of the last round", clip(st))
			chk("COMPLETE", !contains(failures, fnTakeAction) || nTicket >= 0, "all actions taken", o.Pos, "the handshake is complete although an action failed")
		} else if len(failures) == 0 && (r == none || r == retry) {
			chk("COMPLETE", !connected, "completes", o.Pos, "the handshake is not complete although the state is the connected one")
		}
		isClient, roleKnown := o.S.Eval(old("isClient"))
		conf, confKnown := o.S.Eval(cfg("SendSessionTickets"))
		if nTicket >= 0 {
			seen["ticket"]++
			e := round[1+nTicket]
			chk("TICKETS", complete && roleKnown && !isClient && confKnown && conf, "ticket", o.Pos, "a ticket may be issued by a client, before completion or without being configured")
			okArgs := len(e.Args) == 4 && e.Args[1] == cfg("TicketLen") && e.Args[2] == cfg("TicketLifetime") && e.Args[3] == cfg("EarlyDataLifetime")
			chk("TICKETS", okArgs && e.Args[0] == ai.FieldAddr(conn, "state"), "ticket parameters", o.Pos, "a ticket is issued with other parameters than the configured ones")
			if r == none {
				chk("TICKETS", loopDone(o, ai.Mk("res", "0", ai.Mk("call", fnTicket))), "ticket actions", o.Pos, "not all actions of issuing a ticket are taken")
			}
		} else if complete && r == none {
			chk("TICKETS", roleKnown && isClient || confKnown && !conf, "no ticket", o.Pos, "a server that is configured to issue a ticket does not")
		}
		if complete {
			early := ai.Fld(ai.Mk("deref", "", old("hsCtx")), "earlyData")
			buf := load("readBuffer")
			switch {
			case !good:
			case roleKnown && isClient:
				chk("EARLY", kept("readBuffer"), "client", o.Pos, "a client's data to be read changes when the handshake completes")
			default:
				isNil, ok := o.S.Eval(ai.Eq(early, ai.Nil))
				if !ok {
					isNil, ok = o.S.Eval(ai.Eq(ai.Len(early), ai.Int(0)))
				}
				chk("EARLY", ok && (isNil && kept("readBuffer") || !isNil && buf == early), "server", o.Pos, "the data to be read becomes %s when a server's handshake completes", clip(buf))
			}
		}

		switch {
		case r == none:
			seen["ok"]++
			nb, ok := o.S.Eval(cfg("NonBlocking"))
			chk("COMPLETE", complete || ok && nb, "returns", o.Pos, "a handshake succeeds although it is not complete and the connection blocks")
			chk("ALERTS", !sent, "alert without failure", o.Pos, "an alert is sent although the handshake succeeds")
			chk("ROUND", is(none) || !(ok && nb), "alert of round", o.Pos, "a round succeeds although its alert is another")
		case r == block:
			seen["block"]++
			chk("ROUND", is(block), "blocks", o.Pos, "a handshake blocks although the round did not")
			acted := false
			timers := false
			for _, e := range round[1:] {
				if e.Aux == fnTimers {
					timers = true
				} else {
					acted = true
				}
			}
			hs := load("hState")
			same := hs == old("hState") || summary(hs, map[string]bool{fnNext: true, fnFirst: true}) == from || hs == from || from.Op == "res"
			chk("ROUND", !acted && same && !complete, "blocked round", o.Pos, "a round that blocks does something, or changes the state")
			dg, ok := o.S.Eval(ai.Fld(ai.Mk("deref", "", ai.Fld(ai.Mk("deref", "", old("hsCtx")), "hIn")), "datagram"))
			chk("ROUND", timers || ok && !dg, "timers", o.Pos, "the timers are not run when a datagram handshake blocks")
		case r == retry:
			seen["retry"]++
			chk("ROUND", is(retry), "retry", o.Pos, "a handshake is to be retried although the round did not ask for it")
			chk("ALERTS", !sent, "alert at retry", o.Pos, "an alert is sent when a handshake is to be retried")
		default:
			seen["fail"]++
			if len(failures) == 0 {
				okv := alertIs(alert, r) || is(r)
				chk("ALERTS", okv && sent, "failed round", o.Pos, "the alert of a round is not sent and returned, but %s", clip(r))
				chk("COMPLETE", !complete, "failed round completes", o.Pos, "a handshake is complete although the round failed")
			} else if contains(failures, fnTakeAction) || contains(failures, fnTicket) {
				chk("ALERTS", sent, "failed action", o.Pos, "the failure of an action is not sent to the peer")
			}
		}
	}
	for _, k := range []string{"ok", "complete", "block", "retry", "fail", "remembered"} {
		chk(parts[0], seen[k] > 0, "case "+k, fn.Pos(), "a handshake cannot have the result: %s", k)
	}
	if want["TICKETS"] {
		chk("TICKETS", seen["ticket"] > 0, "case ticket", fn.Pos(), "no ticket is ever issued")
	}
	if want["SETUP"] {
		chk("SETUP", seen["server start"] > 0 && seen["setup only"] > 0, "case setup", fn.Pos(), "a handshake cannot be set up")
	}
	if want["ROUND"] {
		everyAction(c)
	}
}

func setup(chk func(string, bool, string, token.Pos, string, ...interface{}) bool, o *ai.Outcome, conn *ai.Term, seq, failures []*ai.Term, good bool, none *ai.Term) {
	self := ai.Mk("deref", "", conn)
	config := ai.Fld(self, "config")
	cfg := func(f string) *ai.Term { return ai.Fld(ai.Mk("deref", "", config), f) }
	load := fieldsAt(o, conn)
	init := false
	var first *ai.Term
	for _, e := range seq {
		switch e.Aux {
		case fnInit:
			init = e.Args[0] == config && e.Args[1] == ai.Fld(self, "isClient") || known(o, ai.Fld(self, "isClient")) && e.Args[1] == ai.True
			chk("SETUP", init && first == nil, "configuration", o.Pos, "the configuration is not completed first, for the connection's role")
		case fnFirst:
			first = e
			st := e.Args[0]
			isClient, ok := o.S.Eval(ai.Fld(self, "isClient"))
			opts := ai.Fld(st, "Opts")
			good := ok && isClient && ai.Fld(st, "Config") == config && ai.Fld(st, "hsCtx") == ai.Fld(self, "hsCtx") &&
				ai.Fld(opts, "ServerName") == cfg("ServerName") && ai.Fld(opts, "NextProtos") == cfg("NextProtos")
			chk("SETUP", good, "client start", o.Pos, "the initial state of a client is %s", clip(st))
			for _, f := range []string{"cookie", "firstClientHello", "helloRetryRequest", "clientHello"} {
				v := ai.Fld(st, f)
				chk("SETUP", v == ai.Nil || v.Op == "fld", "client start "+f, o.Pos, "a client starts with a %s", f)
			}
		case fnTakeAction:
			src := e.Args[1]
			ok := first != nil && src.Op == "elem" && src.Args[0].Op == "res" && src.Args[0].Aux == "1" && src.Args[1].Op == "any" && src.Args[0].Args[0].Op == "of" && src.Args[0].Args[0].Aux == fnFirst
			chk("SETUP", ok, "client actions", o.Pos, "an action is taken that is not one of those of the client's start: %s", clip(src))
		}
	}
	if !good || len(failures) > 0 {
		return
	}
	if len(seq) == 0 {
		// the state is the connected one already, or there is nothing to do
		chk("SETUP", load("hState") == ai.Fld(self, "hState"), "nothing done", o.Pos, "the state changes without a round")
		return
	}
	chk("SETUP", init, "configuration", o.Pos, "the configuration is not completed first, for the connection's role")
	if first == nil {
		return
	}
	hs := load("hState")
	ok := hs.Op == "res" && hs.Aux == resultState && isCall(hs.Args[0], fnFirst)
	chk("SETUP", ok, "client state", o.Pos, "after its start a client is in the state %s", clip(hs))
	if ok {
		chk("SETUP", known(o, ai.Eq(ai.Mk("res", "2", hs.Args[0]), none)), "client start succeeds", o.Pos, "the failure of a client's start is ignored")
		chk("SETUP", loopDone(o, ai.Mk("res", "1", hs.Args[0])), "client start actions", o.Pos, "not all actions of a client's start are taken")
	}
}

func hasUnk(ts []*ai.Term) bool {
	for _, t := range ts {
		if t.Op == "unk" {
			return true
		}
	}
	return false
}

func name(ts []*ai.Term) string {
	if len(ts) == 0 {
		return ""
	}
	return ts[0].Aux
}

func contains(ts []*ai.Term, fn string) bool {
	for _, t := range ts {
		if t.Aux == fn {
			return true
		}
	}
	return false
}

// nextTerm is the last call of the successor function on the way to an
// outcome, as it occurs in what is known.
func nextTerm(o *ai.Outcome) *ai.Term {
	var found *ai.Term
	look := func(t *ai.Term) {
		t.Walk(func(x *ai.Term) {
			if x.Op == "call" && x.Call() == fnNext {
				found = x
			}
		})
	}
	for f := range o.S.Facts() {
		look(f)
	}
	look(o.Ret)
	return found
}

func fromOK(from, conn *ai.Term) bool {
	return from == ai.Fld(ai.Mk("deref", "", conn), "hState") ||
		from.Op == "iface" ||
		from.Op == "res" && from.Aux == resultState && from.Args[0].Op == "of" && (from.Args[0].Aux == fnNext || from.Args[0].Aux == fnFirst)
}

// readerOK matches the reader of a connection's messages.  A round may have
// changed it, but not exchanged it.
func readerOK(reader, hsCtx *ai.Term) bool {
	r := strip(reader)
	for r.Op == "to" {
		r = r.Args[0]
	}
	return ai.Fld(r, "hsCtx") == hsCtx || r.Op == "havoc" || r.Op == "ptr"
}

// loopDone tells whether it is known that a loop reached the end of a list.
func loopDone(o *ai.Outcome, list *ai.Term) bool {
	n := ai.Len(list)
	return anyFact(o, false, func(f *ai.Term) bool {
		return f.Op == "lt" && f.Args[1] == n
	}) || known(o, ai.Eq(n, ai.Int(0))) || anyFact(o, true, func(f *ai.Term) bool {
		return f.Op == "eq" && (f.Args[0] == n || f.Args[1] == n)
	})
}

// alertIs matches the argument of a recorded call with a value.
func alertIs(ev, v *ai.Term) bool {
	if ev == v {
		return true
	}
	if ev.Op == "res" && v.Op == "res" && ev.Aux == v.Aux {
		n := v.Args[0]
		return ev.Args[0].Op == "of" && n.Op == "call" && ev.Args[0].Aux == n.Call()
	}
	return false
}

func assertOf(t, x *ai.Term) bool {
	for t.Op == "assert" || t.Op == "unwrap" || t.Op == "typeassert" || t.Op == "asserted" {
		if t.Args[0] == x {
			return true
		}
		t = t.Args[0]
	}
	return t == x
}

// everyAction checks that a loop that takes actions takes one in each round.
func everyAction(c *check.Ctx) {
	take := lookup(c.P, "Conn.takeAction")
	for _, fn := range c.P.Funcs(c.P.Main) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || take == nil || ci.Common().StaticCallee() != take {
					continue
				}
				head, latches := innermost(fn, b)
				if head == nil {
					continue
				}
				all := true
				for _, l := range latches {
					if !b.Dominates(l) {
						all = false
					}
				}
				c.Check(all, "ROUND", "loop in "+fn.Name(), ins.Pos(), "a round of the loop that takes actions may skip an action")
			}
		}
	}
}

// innermost finds the innermost loop around a block: its head, and where its
// rounds end.
func innermost(fn *ssa.Function, b *ssa.BasicBlock) (*ssa.BasicBlock, []*ssa.BasicBlock) {
	var head *ssa.BasicBlock
	var latches []*ssa.BasicBlock
	for _, h := range fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		var ls []*ssa.BasicBlock
		body := map[*ssa.BasicBlock]bool{h: true}
		var work []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				ls = append(ls, p)
				work = append(work, p)
			}
		}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if body[x] {
				continue
			}
			body[x] = true
			work = append(work, x.Preds...)
		}
		if len(ls) == 0 || !body[b] {
			continue
		}
		if head == nil || head.Dominates(h) {
			head, latches = h, ls
		}
	}
	return head, latches
}

func init() {
	// everything, for development
	check.Register(&check.Prop{ID: "X01", Explanation: "development", Run: func(c *check.Ctx) {
		driver(c, "SETUP", "ROUND", "COMPLETE", "TICKETS", "ALERTS", "EARLY")
	}})
}
