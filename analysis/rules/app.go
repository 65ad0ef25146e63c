package rules

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// Application data and alerts at the connection.

const fnWriteRecord = "invoke:RecordLayer.WriteRecord"

// joinSlices is the concatenation of byte strings with adjacent parts of the
// same string merged.
func joinSlices(ts []*ai.Term) *ai.Term {
	out := ai.Empty
	for _, t := range ts {
		if t == ai.Nil || t == ai.Empty {
			continue
		}
		if out == ai.Empty {
			out = t
			continue
		}
		if out.Op == "sl" && t.Op == "sl" && out.Args[0] == t.Args[0] && out.Args[2] == t.Args[1] {
			out = ai.Mk("sl", "", out.Args[0], out.Args[1], t.Args[2])
			continue
		}
		out = ai.Cat(out, t)
	}
	return out
}

// recordOf is the record that a call of WriteRecord is given: type and
// content.
func recordOf(ev *ai.Term) (ct, frag *ai.Term) {
	pt := ev.Args[1]
	if pt.Op == "to" {
		pt = pt.Args[0]
	}
	return ai.Fld(pt, "contentType"), ai.Fld(pt, "fragment")
}

// exactly is withEvents with every loop followed iteration by iteration.
func (u *unit) exactly(names []string, name string, args ...*ai.Term) (*ssa.Function, []*ai.Outcome) {
	saved := u.in.Unroll
	u.in.Unroll = map[string]bool{"*": true}
	defer func() { u.in.Unroll = saved }()
	return u.withEvents(names, name, args...)
}

// writeSizes are the buffer sizes for which Write is followed exactly.
var writeSizes = []int64{0, 1, 2, 100, maxContent - 1, maxContent, maxContent + 1, 2*maxContent - 1, 2 * maxContent, 2*maxContent + 1, 50000, 4*maxContent + 5}

// connectedFact is the fact that a connection's handshake is complete.
func connectedFact(s *ai.State, state *ai.Term) bool {
	v, ok := s.Eval(ai.Mk("istype", "stateConnected", state))
	return ok && v
}

// writing checks Conn.Write: rules PIECES and RESULT for C14, GATE for C15.
func writing(c *check.Ctx) {
	c.Rule("PIECES", "Write sends consecutive pieces of the buffer as application data, none larger than a record, and stops at the first that fails")
	c.Rule("RESULT", "Write returns the number of bytes in the records that were written, with the first error or, if all was written, without one")
	c.Rule("GATE-W", "Write sends only when the handshake is complete, or on a client that has early data keys")
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	for _, n := range writeSizes {
		u := newUnit(c)
		u.sticky = func(f *ai.Term) bool { return f.Op == "istype" }
		buf := ai.Mk("sl", "", ai.Sym("buffer"), ai.Int(0), ai.Int(n))
		fn, outs := u.exactly([]string{"?" + fnWriteRecord}, "Conn.Write", conn, buf)
		if fn == nil {
			return
		}
		name := fmt.Sprintf("Write of %d bytes", n)
		complete := false
		for _, o := range outs {
			evs, ok := events(o)
			if !c.Check(ok, "PIECES", name+" sequence", o.Pos, "the sequence of records is not certain") {
				continue
			}
			var parts []*ai.Term
			failed := false
			for i, e := range evs {
				if e.Op == "failure" {
					failed = true
					c.Check(i == len(evs)-1, "PIECES", name+" stop", o.Pos, "writing goes on after a record could not be written")
					continue
				}
				ct, frag := recordOf(e)
				c.Check(ct == ai.Int(23), "PIECES", name+" type", o.Pos, "a record of type %s is sent", clip(ct))
				c.Check(e.Args[0] == ai.Fld(self, "out"), "PIECES", name+" layer", o.Pos, "a record is given to %s", clip(e.Args[0]))
				l, isInt := ai.Len(frag).IsInt()
				c.Check(isInt && l <= maxContent, "PIECES", name+" size", o.Pos, "a record has content of %s bytes", clip(ai.Len(frag)))
				parts = append(parts, frag)
			}
			if len(evs) > 0 || !fails(o.Result(1)) {
				gate(c, o, self, name)
			}
			all := joinSlices(parts)
			want := ai.Sub(ai.Sym("buffer"), ai.Int(0), ai.Len(all))
			c.Check(all == want || all == ai.Empty, "PIECES", name+" content", o.Pos, "the records hold %s", clip(all))
			sent := ai.Len(all)
			if failed && len(parts) > 0 {
				sent = ai.Len(joinSlices(parts[:len(parts)-1]))
			}
			c.Check(o.Result(0) == sent, "RESULT", name+" count", o.Pos, "%s bytes are reported as written, %s were", clip(o.Result(0)), clip(sent))
			if failed {
				c.Check(o.Result(1).Contains(ai.Mk("failure", fnWriteRecord)), "RESULT", name+" error", o.Pos, "the error of a record that could not be written is returned as %s", clip(o.Result(1)))
				continue
			}
			if o.Result(1) == ai.Nil {
				complete = true
				c.Check(sent == ai.Int(n), "RESULT", name+" all", o.Pos, "%s of %d bytes are sent, and no error returned", clip(sent), n)
			} else {
				c.Check(fails(o.Result(1)) && len(evs) == 0, "RESULT", name+" refusal", o.Pos, "an error is returned although no record failed: %s", clip(o.Result(1)))
				c.Check(!connectedFact(o.S, ai.Fld(self, "hState")), "RESULT", name+" connected", o.Pos, "writing on a connection that is complete is refused")
			}
		}
		c.Check(complete, "RESULT", name+" succeeds", fn.Pos(), "there is no way in which a write of %d bytes succeeds", n)
	}

}

// gate checks that data is sent in a permitted state.
func gate(c *check.Ctx, o *ai.Outcome, self *ai.Term, name string) {
	if connectedFact(o.S, ai.Fld(self, "hState")) {
		c.OK("GATE-W", name+" connected")
		return
	}
	client, ok := o.S.Eval(ai.Fld(self, "isClient"))
	early := anyFact(o, true, func(f *ai.Term) bool {
		return f.Op == "eq" && (f.Args[0] == ai.Int(1) && hasCall(f.Args[1], "invoke:RecordLayer.Epoch") && f.Args[1].Contains(ai.Fld(self, "out")) ||
			f.Args[1] == ai.Int(1) && hasCall(f.Args[0], "invoke:RecordLayer.Epoch") && f.Args[0].Contains(ai.Fld(self, "out")))
	})
	c.Check(ok && client && early, "GATE-W", name, o.Pos, "data is sent although the handshake may not be complete and this may not be a client with early data keys")
}

// accepts checks that the record layer takes every content that fits.
func accepts(c *check.Ctx) {
	c.Rule("ACCEPT", "the record layer writes every record whose content has at most 2^14 bytes")
	for _, datagram := range []bool{false, true} {
		for _, protected := range []bool{true, false} {
			rl := newRecordLayer(newUnit(c), datagram, protected)
			if rl == nil {
				return
			}
			pt := ai.Sym("pt")
			fn, outs := rl.u.withEvents([]string{fnConnWrite}, "DefaultRecordLayer.WriteRecord", rl.r, pt)
			if fn == nil {
				return
			}
			name := fmt.Sprintf("%s protected=%v", rl.kind(), protected)
			frag := ai.Fld(ai.Mk("deref", "", pt), "fragment")
			for _, o := range outs {
				evs, ok := events(o)
				if ok && len(evs) > 0 {
					c.OK("ACCEPT", name)
					continue
				}
				c.Check(le(o.S, ai.Int(maxContent+1), ai.Len(frag)), "ACCEPT", name+" refusal", o.Pos, "a record is refused although its content may not be too large")
			}
		}
	}
}

const fnReadRecord = "invoke:RecordLayer.ReadRecord"

// alertError is an alert as an error.
func (u *unit) alertError(n int64) *ai.Term {
	return ai.MkT("iface", u.c.P.Main.Types.Scope().Lookup("Alert").Type(), ai.Int(n))
}

// inRecord models the record layer's ReadRecord: it fails, or returns a record
// of the given type with a content.
func inRecord(u *unit, ct, frag *ai.Term) {
	read := func(c *ai.Call) ([]*ai.Outcome, bool) {
		failed := c.S.Clone()
		id := "record"
		t := c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := u.in.NewObject(c.S, id, t, ai.Expand(ai.Sym(id), t))
		u.in.Store(c.S, ai.FieldAddr(p, "contentType"), ct)
		u.in.Store(c.S, ai.FieldAddr(p, "fragment"), frag)
		return []*ai.Outcome{ai.Return(c.S, p, ai.Nil), ai.Return(failed, ai.Nil, u.alertError(80))}, true
	}
	u.over = map[string]ai.Prim{fnReadRecord: read, "(*DefaultRecordLayer).ReadRecord": read, "(*DefaultRecordLayer).ReadRecordAnyEpoch": read}
}

var consumed = []int64{0, 20, 21, 22, 23, 24, 25, 255}

// consuming checks what Conn.consumeRecord does with records of each type.
func consuming(c *check.Ctx) {
	c.Rule("CONTENT", "only the content of application data records is added to the data to be read, whole and after what is there")
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	old := ai.Fld(self, "readBuffer")
	for _, ct := range consumed {
		sizes := []int64{0, 1, 2, 5, maxContent}
		if ct == 22 {
			sizes = []int64{-1} // any
		}
		for _, n := range sizes {
			u := newUnit(c)
			frag := ai.Sym("content")
			if n >= 0 {
				frag = ai.Sub(frag, ai.Int(0), ai.Int(n))
			}
			inRecord(u, ai.Int(ct), frag)
			with := u.exactly
			if n < 0 {
				with = u.withEvents
			}
			fn, outs := with([]string{"-(stateConnected).ProcessMessage", "-(*HandshakeContext).processAck", "-" + fnTakeAction, "-" + fnSendAlert}, "Conn.consumeRecord", conn)
			if fn == nil {
				return
			}
			name := fmt.Sprintf("type %d", ct)
			want := old
			if ct == 23 {
				want = ai.Cat(old, frag)
			}
			good := false
			for _, o := range outs {
				now := o.S.Deep(o.S.Load(ai.FieldAddr(conn, "readBuffer")))
				if o.Result(0) == ai.Nil {
					good = true
					c.Check(now == want, "CONTENT", name, o.Pos, "after a record of type %d with content %s the data to be read is %s", ct, clip(frag), clip(now))
				} else {
					c.Check(now == want || now == old, "CONTENT", name+" failure", o.Pos, "after a record of type %d with content %s the data to be read is %s", ct, clip(frag), clip(now))
				}
			}
			c.Check(good || ct != 23, "CONTENT", name+" any", fn.Pos(), "application data is never taken")
		}
	}
}

// reading checks Conn.Read.
func reading(c *check.Ctx) {
	c.Rule("GATE-R", "Read returns data only when the handshake is complete, or on a server that allows early data, from the early data it has accepted")
	c.Rule("DELIVER", "Read gives the caller the first bytes that wait, as many as fit, and keeps the others")
	for _, early := range []bool{false, true} {
		for _, arrives := range []bool{false, true} {
			if early && arrives {
				continue
			}
			for _, have := range []int64{0, 1, 2, 3, 5, 6, 7, 20000} {
				for _, room := range []int64{0, 1, 2, 5, 300} {
					readOnce(c, early, arrives, have, room)
				}
			}
		}
	}
}

func isFalse(o *ai.Outcome, f *ai.Term) bool {
	v, ok := o.S.Eval(f)
	return ok && !v
}

// sameBytes compares the first bytes of byte strings.
func sameBytes(o *ai.Outcome, a, b *ai.Term, n int64) bool {
	if a == b {
		return true
	}
	if n > 5000 {
		return false
	}
	for i := int64(0); i < n; i++ {
		if byteAt(a, i) != byteAt(b, i) {
			return false
		}
	}
	return true
}

// byteAt is a byte of a byte string, found through what was written there.
func byteAt(t *ai.Term, k int64) *ai.Term {
	span := func(x *ai.Term) int64 {
		if n, ok := ai.Len(x).IsInt(); ok {
			return n
		}
		return 1 << 40
	}
	switch t.Op {
	case "const":
		if s, ok := t.IsStr(); ok && k < int64(len(s)) {
			return ai.Int(int64(s[k]))
		}
	case "eupd":
		if i, ok := t.Args[1].IsInt(); ok {
			if i == k {
				return t.Args[2]
			}
			return byteAt(t.Args[0], k)
		}
	case "bufv":
		for j := len(t.Args) - 1; j > 0; j-- {
			w := t.Args[j]
			off, ok := w.Args[0].IsInt()
			if !ok {
				break
			}
			if off <= k && k < off+span(w.Args[1]) {
				return byteAt(w.Args[1], k-off)
			}
		}
	case "cat":
		for _, x := range t.Args {
			if n := span(x); k >= n {
				k -= n
				continue
			}
			return byteAt(x, k)
		}
	case "sl":
		if lo, ok := t.Args[1].IsInt(); ok {
			return byteAt(t.Args[0], lo+k)
		}
	case "byte1":
		return t.Args[0]
	}
	return ai.Elem(t, ai.Int(k))
}

func readOnce(c *check.Ctx, early, arrives bool, have, room int64) {
	u := newUnit(c)
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	s := u.init.Clone()
	src := "data"
	wait := ai.Sub(ai.Sym(src), ai.Int(0), ai.Int(have))
	if have == 0 {
		wait = ai.Empty
	}
	where := ai.FieldAddr(conn, "readBuffer")
	s.Assume(ai.Mk("istype", "stateConnected", ai.Fld(self, "hState")), !early)
	if !early {
		s.Assume(ai.Fld(self, "handshakeComplete"), true)
	}
	switch {
	case early:
		where = ai.FieldAddr(ai.Fld(self, "hsCtx"), "earlyData")
		u.in.Store(s, where, wait)
	case arrives:
		u.in.Store(s, where, ai.Empty)
		inRecord(u, ai.Int(23), wait)
	default:
		u.in.Store(s, where, wait)
	}
	if have == 0 && !early {
		// whatever comes
		inRecord(u, ai.Int(21), ai.Sym("other"))
	}
	was := ai.Sub(ai.Sym("was"), ai.Int(0), ai.Int(room))
	if room == 0 {
		was = ai.Empty
	}
	b := u.in.NewObject(s, "buffer", types.NewArray(types.Typ[types.Byte], room), was)
	u.init = s
	u.roots = []*ai.Term{b}
	u.sticky = func(f *ai.Term) bool { return f.Op == "istype" || f.Op == "fld" }
	watch := []string{"-(*timerSet).check", "-" + fnSendAlert, "-" + fnTakeAction, "-(stateConnected).ProcessMessage", "-(*HandshakeContext).processAck"}
	buf := ai.Mk("slice", "", b, ai.Int(0), ai.Int(room))
	var fn *ssa.Function
	var outs []*ai.Outcome
	if have == 0 {
		fn, outs = u.withEvents(watch, "Conn.Read", conn, buf)
	} else {
		fn, outs = u.exactly(watch, "Conn.Read", conn, buf)
	}
	if fn == nil {
		return
	}
	name := fmt.Sprintf("early=%v arriving=%v: %d bytes into %d", early, arrives, have, room)
	n := have
	if room < n {
		n = room
	}
	good := false
	for _, o := range outs {
		count := o.Result(0)
		left := o.S.Deep(o.S.Load(where))
		given := o.S.Deep(o.S.Load(b))
		if count == ai.Int(0) {
			c.Check(given == was, "DELIVER", name+" untouched", o.Pos, "no bytes are reported, but the caller's buffer holds %s", clip(given))
			if fails(o.Result(1)) || o.Result(1).Op == "iface" || isFalse(o, ai.Eq(o.Result(1), ai.Nil)) {
				c.Check(left == wait || left == ai.Empty && arrives, "DELIVER", name+" lost", o.Pos, "Read fails, and what waits changes from %s to %s", clip(wait), clip(left))
				continue
			}
			good = true
			c.Check(n == 0, "DELIVER", name+" nothing", o.Pos, "no data is returned although some waits")
			continue
		}
		good = true
		c.Check(have > 0, "DELIVER", name+" invented", o.Pos, "%s bytes are returned although none wait", clip(count))
		c.Check(count == ai.Int(n), "DELIVER", name+" count", o.Pos, "%s is returned as the number of bytes, not %d", clip(count), n)
		c.Check(o.Result(1) == ai.Nil, "DELIVER", name+" error", o.Pos, "data is returned together with the error %s", clip(o.Result(1)))
		want := ai.Cat(ai.Sub(wait, ai.Int(0), ai.Int(n)), ai.Sub(was, ai.Int(n), ai.Int(room)))
		c.Check(sameBytes(o, given, want, room), "DELIVER", name+" bytes", o.Pos, "the caller's buffer holds %s", clip(given))
		rest := ai.Sub(wait, ai.Int(n), ai.Int(have))
		c.Check(left == rest || n == have && ai.Len(left) == ai.Int(0), "DELIVER", name+" rest", o.Pos, "what waits then is %s", clip(left))
		if early {
			client, ok := o.S.Eval(ai.Fld(self, "isClient"))
			allow, ok2 := o.S.Eval(ai.Fld(ai.Mk("deref", "", ai.Fld(self, "config")), "AllowEarlyData"))
			c.Check(ok && !client && ok2 && allow, "GATE-R", name, o.Pos, "data is returned although the handshake is not complete, and this may not be a server that allows early data")
		} else {
			c.Check(connectedFact(o.S, ai.Fld(self, "hState")), "GATE-R", name, o.Pos, "data is returned although the handshake is not complete")
		}
	}
	c.Check(good || n == 0, "DELIVER", name+" works", fn.Pos(), "there is no way in which Read succeeds")
}
