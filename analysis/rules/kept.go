package rules

import (
	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// secretsKept checks that what happens after the handshake (key updates in
// both directions, tickets, messages received) leaves the given fields of the
// connected state as the handshake made them, and that nothing else in the
// library stores to them.
func secretsKept(c *check.Ctx, fields ...string) {
	c.Rule("KEPT", "what the handshake left in the connected state for tickets and exporters is not changed afterwards: by no operation of that state, and by no store in any other function")
	u := newUnit(c)
	none := alertConst(u, "AlertNoAlert")
	state := ai.Sym("state")
	old := ai.Mk("deref", "", state)
	for _, m := range []struct {
		name  string
		alert int
	}{{"stateConnected.KeyUpdate", 1}, {"stateConnected.NewSessionTicket", 1}} {
		fn, outs := u.run(m.name, state)
		for _, o := range outs {
			if fails2(o, o.Result(m.alert), none) {
				continue
			}
			w := otherFieldsKept(old, fieldsAt(o, state), fields, nil)
			c.Check(w == "", "KEPT", m.name, o.Pos, "%s: %s", m.name, w)
		}
		if fn != nil {
			c.Check(len(outs) > 0, "KEPT", m.name+" outcomes", fn.Pos(), "%s has no outcome", m.name)
		}
	}
	n := 0
	fn, outs := u.run("stateConnected.ProcessMessage", state, ai.Sym("hm"))
	for _, o := range outs {
		if o.Result(2) != none {
			continue
		}
		n++
		whole := strip(o.S.Deep(o.S.Pure(o.Result(0))))
		w := otherFieldsKept(state, func(f string) *ai.Term { return ai.Fld(whole, f) }, fields, nil)
		c.Check(w == "", "KEPT", "stateConnected.ProcessMessage", o.Pos, "stateConnected.ProcessMessage: %s", w)
	}
	if fn != nil {
		c.Check(n > 0, "KEPT", "stateConnected.ProcessMessage outcomes", fn.Pos(), "no message is accepted after the handshake")
	}
	cs := newCensus(c)
	entries := map[string]bool{"stateConnected.KeyUpdate": true, "stateConnected.NewSessionTicket": true, "stateConnected.ProcessMessage": true}
	kept := map[string]bool{}
	for _, f := range fields {
		kept[f] = true
	}
	for _, fn := range c.P.Funcs(c.P.Main) {
		bad := false
		eachInstr(fn, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok || fresh(st.Addr) {
				return
			}
			if t, f := fieldOf(c.P, st.Addr); t == "stateConnected" && kept[f] && !cs.within(fn, entries) {
				bad = true
				c.Fail("KEPT", shortFn(fn)+" stores "+f, st.Pos(), "%s stores to %s of a connected state", shortFn(fn), f)
			}
		})
		if !bad {
			c.OK("KEPT", "no store in "+shortFn(fn))
		}
	}
	c.Min("KEPT", 100)
}
