package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// Which constants can a value be?  The analysis follows assignments, calls,
// results, interface calls and fields through the whole library, and leaves out
// what a comparison on the way excludes.

type constSet struct {
	s       *census
	why     string // why it is not known
	seen    map[ssa.Value]bool
	memo    map[ssa.Value]map[int64]bool
	changed bool
}

// possible is the set of constants that a value may be in a block.
func (s *census) possible(v ssa.Value, at *ssa.BasicBlock) (map[int64]bool, string) {
	cs := &constSet{s: s, memo: map[ssa.Value]map[int64]bool{}}
	for {
		cs.seen, cs.changed = map[ssa.Value]bool{}, false
		vals := cs.of(v, at)
		if !cs.changed || cs.why != "" {
			return vals, cs.why
		}
	}
}

func union(a, b map[int64]bool) {
	for k := range b {
		a[k] = true
	}
}

func (cs *constSet) unknown(format string, args ...interface{}) map[int64]bool {
	if cs.why == "" {
		cs.why = fmt.Sprintf(format, args...)
	}
	return map[int64]bool{}
}

func (cs *constSet) of(v ssa.Value, at *ssa.BasicBlock) map[int64]bool {
	if !cs.seen[v] {
		cs.seen[v] = true
		for k := range cs.raw(v, at) {
			if cs.memo[v] == nil {
				cs.memo[v] = map[int64]bool{}
			}
			if !cs.memo[v][k] {
				cs.memo[v][k] = true
				cs.changed = true
			}
		}
	}
	out := map[int64]bool{}
	union(out, cs.memo[v])
	blockFilter(out, v, at)
	return out
}

func (cs *constSet) raw(v ssa.Value, at *ssa.BasicBlock) map[int64]bool {
	out := map[int64]bool{}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			out[-1] = true // nil
			return out
		}
		if n, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
			out[n] = true
			return out
		}
		return cs.unknown("the constant %s", v)
	case *ssa.Phi:
		for i, e := range v.Edges {
			p := v.Block().Preds[i]
			r := cs.of(e, p)
			edgeFilter(r, e, p, v.Block())
			union(out, r)
		}
	case *ssa.ChangeType:
		union(out, cs.of(v.X, at))
	case *ssa.MakeInterface:
		union(out, cs.of(v.X, at))
	case *ssa.Convert:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			r := cs.of(v.X, at)
			union(out, r)
			break
		}
		return cs.unknown("a conversion of %s", v.X.Type())
	case *ssa.Call:
		union(out, cs.result(v, 0))
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			union(out, cs.result(call, v.Index))
			break
		}
		return cs.unknown("a part of %s", v.Tuple)
	case *ssa.Parameter:
		fn := v.Parent()
		if cs.s.escapes[fn] || len(cs.s.callers[fn]) == 0 {
			return cs.unknown("an argument of %s", shortFn(fn))
		}
		k := 0
		for i, p := range fn.Params {
			if p == v {
				k = i
			}
		}
		for _, g := range cs.s.callers[fn] {
			eachInstr(g, func(ins ssa.Instruction) {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					union(out, cs.of(ci.Common().Args[k], ins.Block()))
				}
			})
		}
	case *ssa.FreeVar:
		return cs.unknown("a captured variable")
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return cs.unknown("%s", v)
		}
		switch a := v.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == a {
						union(out, cs.of(r.Val, r.Block()))
					} else {
						return cs.unknown("a variable whose address is taken")
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return cs.unknown("a variable whose address is taken")
				}
			}
			if len(out) == 0 {
				out[0] = true
			}
		case *ssa.FieldAddr:
			typ, field := fieldOf(cs.s.c.P, a)
			if typ == "" {
				return cs.unknown("%s", v)
			}
			out[0] = true
			for _, fn := range cs.s.fns {
				eachInstr(fn, func(ins ssa.Instruction) {
					st, ok := ins.(*ssa.Store)
					if !ok {
						return
					}
					if t, f := fieldOf(cs.s.c.P, st.Addr); t == typ && f == field {
						union(out, cs.of(st.Val, st.Block()))
					}
				})
			}
		default:
			return cs.unknown("%s", v)
		}
	default:
		return cs.unknown("%s", v)
	}
	return out
}

// result is the set of values of a call's result.
func (cs *constSet) result(call *ssa.Call, k int) map[int64]bool {
	out := map[int64]bool{}
	var targets []*ssa.Function
	if f := call.Call.StaticCallee(); f != nil {
		targets = append(targets, f)
	} else if call.Call.IsInvoke() {
		iface, ok := call.Call.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return cs.unknown("a call of %s", call.Call.Method.Name())
		}
		scope := cs.s.c.P.Main.Types.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, iface) {
					if f := cs.s.c.P.Method(n, call.Call.Method.Name()); f != nil {
						targets = append(targets, f)
					}
					break
				}
			}
		}
	}
	if len(targets) == 0 {
		return cs.unknown("the result of %s", call.Call.Value)
	}
	for _, f := range targets {
		if len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg != cs.s.c.P.Main.SSA {
			return cs.unknown("the result of %s", f)
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
				union(out, cs.of(ret.Results[k], b))
			}
		}
	}
	return out
}

// edgeFilter removes the values that a comparison at the end of a block
// excludes on the edge to another.
func edgeFilter(r map[int64]bool, v ssa.Value, from, to *ssa.BasicBlock) {
	ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	truth := from.Succs[0] == to
	if !truth && from.Succs[1] != to {
		return
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return
	}
	x, y := unwrap(cmp.X), unwrap(cmp.Y)
	k, ok := y.(*ssa.Const)
	if !ok {
		x, y = y, x
		if k, ok = y.(*ssa.Const); !ok {
			return
		}
	}
	if x != unwrap(v) {
		return
	}
	n := int64(-1)
	if k.Value != nil {
		if n, ok = constant.Int64Val(constant.ToInt(k.Value)); !ok {
			return
		}
	}
	if truth == (cmp.Op == token.EQL) {
		for m := range r {
			if m != n {
				delete(r, m)
			}
		}
	} else {
		delete(r, n)
	}
}

func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// blockFilter removes the values that comparisons on all ways to a block
// exclude.
func blockFilter(r map[int64]bool, v ssa.Value, at *ssa.BasicBlock) {
	for b := at; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			edgeFilter(r, v, b.Preds[0], b)
		}
	}
}

func listInts(m map[int64]bool) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

var alertSenders = []string{"Conn.sendAlert", "HandshakeLayer.sendAlert"}

func internalAlert(n int64) bool { return n >= 253 || n < 0 }

// alertsSent checks the alerts that the library sends.
func alertsSent(c *check.Ctx) {
	c.Rule("FORM", "an alert record has two bytes, a level that is fatal for errors and the description asked for")
	c.Rule("CODE", "the description of an alert that is sent is none of the codes that are only used inside the library")
	c.Rule("SITES", "alert records are only made by the functions that send alerts, and these are called by nothing but what is checked")

	for _, name := range alertSenders {
		for n := int64(0); n < 253; n++ {
			u := newUnit(c)
			fn, outs := u.withEvents([]string{fnWriteRecord}, name, ai.Sym("self"), ai.Int(n))
			if fn == nil {
				break
			}
			kind := "error"
			closing := n == 0 || n == 90 || n == 100 // not errors
			if closing {
				kind = "closing"
			}
			for _, o := range outs {
				evs, ok := events(o)
				if !c.Check(ok && len(evs) == 1, "FORM", name+" one", o.Pos, "%s does not send exactly one record for alert %d", name, n) {
					continue
				}
				ct, frag := recordOf(evs[0])
				c.Check(ct == ai.Int(21), "FORM", name+" type", o.Pos, "the type of an alert record is %s", clip(ct))
				fatal := frag == ai.Str(string([]byte{2, byte(n)}))
				warning := frag == ai.Str(string([]byte{1, byte(n)}))
				c.Check(fatal || closing && warning, "FORM", name+" content "+kind, o.Pos, "the content of the record for alert %d is %s", n, clip(frag))
			}
		}
	}

	s := newCensus(c)
	entries := map[string]bool{}
	for _, n := range alertSenders {
		entries[n] = true
	}
	var sites []string
	for _, fn := range s.fns {
		name := shortFn(fn)
		eachInstr(fn, func(ins ssa.Instruction) {
			switch ins := ins.(type) {
			case *ssa.Store:
				if t, f := fieldOf(c.P, ins.Addr); t != "TLSPlaintext" || f != "contentType" {
					return
				}
				vals, why := s.possible(ins.Val, ins.Block())
				if len(s.callers[fn]) == 0 && !s.escapes[fn] && s.paramOnly(ins.Val) {
					return // for use by applications
				}
				if why != "" {
					// what was received, or is protected
					c.Check(s.within(fn, recordOps), "SITES", "record type in "+name, ins.Pos(), "%s makes a record whose type is not known: %s", name, why)
					return
				}
				if vals[21] {
					sites = append(sites, "record in "+name)
					c.Check(s.within(fn, entries), "SITES", "alert record in "+name, ins.Pos(), "%s makes an alert record", name)
				}
			case ssa.CallInstruction:
				f := ins.Common().StaticCallee()
				if f == nil || !entries[shortFn(f)] || len(ins.Common().Args) < 2 {
					return
				}
				vals, why := s.possible(ins.Common().Args[1], ins.Block())
				c.Check(why == "", "CODE", "alert in "+name, ins.Pos(), "the alert that %s sends is not known: %s", name, why)
				bad := false
				for v := range vals {
					bad = bad || internalAlert(v)
				}
				c.Check(!bad, "CODE", "alert in "+name, ins.Pos(), "%s may send an alert with a description used only internally, of %v", name, listInts(vals))
				sites = append(sites, fmt.Sprintf("%s: %v", name, listInts(vals)))
			}
		})
	}
	for f := range s.escapes {
		if entries[shortFn(f)] {
			c.Fail("SITES", "use of "+shortFn(f), f.Pos(), "%s is used as a value", shortFn(f))
		}
	}
	c.Cover("alerts sent", sites)
	c.Check(len(sites) > 2, "SITES", "alerts", token.NoPos, "no place was found that sends an alert")
}

// paramOnly tells whether a value is an argument.
func (s *census) paramOnly(v ssa.Value) bool {
	_, ok := unwrap(v).(*ssa.Parameter)
	return ok
}

var recordOps = map[string]bool{}

func init() {
	for _, n := range []string{"ReadRecord", "ReadRecordAnyEpoch", "PeekRecordType", "WriteRecord", "WriteRecordWithPadding", fnWriteWith} {
		recordOps["DefaultRecordLayer."+n] = true
	}
}

// alertsReceived checks what an alert from the peer leads to.
func alertsReceived(c *check.Ctx) {
	c.Rule("RECEIVED", "an alert that ends the connection is returned as an error that tells it from success and from the library's internal conditions; a malformed one is an error")
	type recv struct {
		name string
		hs   bool
	}
	for _, r := range []recv{{"Conn.consumeRecord", false}, {"HandshakeLayer.readRecord", true}} {
		for _, n := range []int{0, 1, 3} {
			receive(c, r.name, r.hs, make([]byte, n))
		}
		for _, level := range []byte{0, 1, 2, 3, 255} {
			for _, desc := range []byte{0, 10, 20, 40, 90, 100, 120, 253, 254, 255} {
				receive(c, r.name, r.hs, []byte{level, desc})
			}
		}
	}
}

func receive(c *check.Ctx, fname string, handshake bool, content []byte) {
	u := newUnit(c)
	inRecord(u, ai.Int(21), ai.Str(string(content)))
	watch := []string{"-" + fnSendAlert, "-(*HandshakeLayer).sendAlert"}
	fn, outs := u.withEvents(watch, fname)
	if fn == nil {
		return
	}
	name := fmt.Sprintf("%s %v", fname, content)
	for _, o := range outs {
		r := o.Result(0)
		if r == u.alertError(80) {
			continue // the record could not be read
		}
		if len(content) == 2 && content[0] == 1 && content[1] != 0 && content[1] < 253 && r == ai.Nil && !handshake {
			c.OK("RECEIVED", name+" warning") // a warning may be ignored
			continue
		}
		if content := content; len(content) == 2 && content[0] == 1 && !handshake && r == ai.Nil && content[1] != 0 {
			c.OK("RECEIVED", name+" warning")
			continue
		}
		if !c.Check(fails(r) || r.Op == "iface" || isFalse(o, ai.Eq(r, ai.Nil)) || isEOF(r), "RECEIVED", name, o.Pos, "the alert %v is handled with the result %s", content, clip(r)) {
			continue
		}
		if len(content) == 2 && content[0] == 2 && content[1] != 0 {
			c.Check(!isEOF(r), "RECEIVED", name+" end", o.Pos, "the alert %v, with which the peer gives up, is returned as a normal end of the data", content)
		}
		if r.Op == "iface" {
			n, ok := r.Args[0].IsInt()
			c.Check(ok && !internalAlert(n), "RECEIVED", name+" code", o.Pos, "the alert %v is returned as %s, which means something else to the callers", content, clip(r))
			if ok && len(content) == 2 && content[0] == 2 && !internalAlert(int64(content[1])) {
				c.Check(n == int64(content[1]), "RECEIVED", name+" value", o.Pos, "the alert %v is returned as alert %d", content, n)
			}
		}
	}
	c.Check(len(outs) > 1, "RECEIVED", name+" any", fn.Pos(), "no alert is received")
}

func isEOF(t *ai.Term) bool {
	return t.Op == "glob" && t.Aux == "io.EOF" || t.Op == "gval" && t.Aux == "io.EOF"
}

// appData checks the data that waits for the application.
func appData(c *check.Ctx) {
	c.Rule("DATA-SITES", "the data to be read is only touched by the operations that were analysed")
	s := newCensus(c)
	allow := map[string]map[string]bool{
		"Conn.readBuffer":            {"Conn.Read": true, "Conn.handshake": true, "Conn.Handshake": true, "Conn.consumeRecord": true},
		"HandshakeContext.earlyData": {"Conn.Read": true, "Conn.handshake": true, "Conn.Handshake": true, "serverStateWaitEOED.Next": true},
	}
	var sites []string
	for _, fn := range s.fns {
		name := shortFn(fn)
		eachInstr(fn, func(ins ssa.Instruction) {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok || fresh(fa) {
				return
			}
			t, f := fieldOf(c.P, fa)
			entries := allow[t+"."+f]
			if entries == nil || onlyLoaded(fa) {
				return
			}
			sites = append(sites, t+"."+f+" in "+name)
			c.Check(s.within(fn, entries), "DATA-SITES", t+"."+f+" in "+name, fa.Pos(), "%s changes the data to be read", name)
		})
	}
	c.Cover("places that change the data to be read", sites)
	c.Check(len(sites) >= 4, "DATA-SITES", "data", token.NoPos, "the data to be read was not found")
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op == token.MUL {
				continue
			}
		case *ssa.DebugRef:
			continue
		}
		return false
	}
	return true
}

const fnPeek = "invoke:RecordLayer.PeekRecordType"

// earlyInput checks how a server takes early data.
func earlyInput(c *check.Ctx) {
	c.Rule("EARLY-IN", "early data is the content of the application data records that come before the first other one, in order")
	type rec struct {
		ct   int64
		frag string
	}
	scripts := [][]rec{
		{{22, ""}},
		{{23, "a"}, {22, ""}},
		{{23, "a"}, {23, "b"}, {22, ""}},
		{{23, "a"}, {21, ""}},
		{{23, "a"}, {25, ""}, {23, "b"}},
		{{20, ""}, {23, "b"}},
	}
	for i, script := range scripts {
		u := newUnit(c)
		state := ai.Sym("state")
		ctx := ai.Fld(state, "hsCtx")
		old := ai.Fld(ai.Mk("deref", "", ctx), "earlyData")
		count := func(s *ai.State) int { return len(s.Ghost().Args) }
		u.over = map[string]ai.Prim{
			fnPeek: func(call *ai.Call) ([]*ai.Outcome, bool) {
				k := count(call.S)
				failed := call.S.Clone()
				outs := []*ai.Outcome{ai.Return(failed, ai.Int(0), u.alertError(80))}
				if k < len(script) {
					outs = append(outs, ai.Return(call.S, ai.Int(script[k].ct), ai.Nil))
				}
				return outs, true
			},
			fnReadRecord: func(call *ai.Call) ([]*ai.Outcome, bool) {
				k := count(call.S)
				failed := call.S.Clone()
				outs := []*ai.Outcome{ai.Return(failed, ai.Nil, u.alertError(80))}
				if k < len(script) {
					id := fmt.Sprintf("record%d", k)
					t := call.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
					p := u.in.NewObject(call.S, id, t, ai.Expand(ai.Sym(id), t))
					u.in.Store(call.S, ai.FieldAddr(p, "contentType"), ai.Int(script[k].ct))
					u.in.Store(call.S, ai.FieldAddr(p, "fragment"), ai.Sym(script[k].frag))
					g := call.S.Ghost()
					call.S.SetGhost(ai.Mk("trace", "", append(append([]*ai.Term(nil), g.Args...), ai.Mk("ev", "read", ai.Int(int64(k))))...))
					outs = append(outs, ai.Return(call.S, p, ai.Nil))
				}
				return outs, true
			},
		}
		fn, outs := u.exactly(nil, "serverStateWaitEOED.Next", state)
		if fn == nil {
			return
		}
		name := fmt.Sprintf("sequence %d", i)
		good := false
		want := []*ai.Term{old}
		n := 0
		for n < len(script) && script[n].ct == 23 {
			want = append(want, ai.Sym(script[n].frag))
			n++
		}
		for _, o := range outs {
			evs, ok := events(o)
			if !c.Check(ok && len(evs) <= n, "EARLY-IN", name+" reads", o.Pos, "a record that is not application data is read as early data") {
				continue
			}
			now := o.S.Deep(o.S.Load(ai.FieldAddr(ctx, "earlyData")))
			c.Check(now == ai.Cat(want[:len(evs)+1]...), "EARLY-IN", name+" data", o.Pos, "after %d records the early data is %s", len(evs), clip(now))
			if o.Result(2) == alertConst(u, "AlertNoAlert") {
				good = true
				c.Check(len(evs) == n, "EARLY-IN", name+" all", o.Pos, "the handshake goes on before the early data was read")
			}
		}
		c.Check(good, "EARLY-IN", name+" works", fn.Pos(), "there is no way in which the handshake goes on after early data")
	}
}

func init() {
	check.Register(&check.Prop{ID: "C14", Explanation: "For buffer sizes around and beyond the record size, every path of Conn.Write is followed: the records given to the record layer, and the count and error returned. The record layer is analysed for which contents it refuses.", Run: func(c *check.Ctx) {
		writing(c)
		accepts(c)
	}})
	check.Register(&check.Prop{ID: "C15", Explanation: "Every path of Conn.Write, Conn.Read, the handling of received records and the server's early data state; and all places that touch the data waiting to be read.", Run: func(c *check.Ctx) {
		writing(c)
		consuming(c)
		reading(c)
		earlyInput(c)
		driver(c, "COMPLETE", "EARLY")
		appData(c)
	}})
	check.Register(&check.Prop{ID: "C25", Explanation: "Every function that makes an alert record, the constants that can be its description at all call sites, the results for each kind of alert received, and the handshake loop's handling of failures.", Run: func(c *check.Ctx) {
		alertsSent(c)
		alertsReceived(c)
		driver(c, "ALERTS")
	}})
}
