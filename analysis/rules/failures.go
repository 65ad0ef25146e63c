package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mintcheck/check"
)

// Failures: from every call that can report a failure, every path of its
// caller is followed; a failure may not end in success.

type failures struct {
	c     *check.Ctx
	none  int64          // the alert that means success
	again map[int64]bool // the alerts that ask to go on: no failures
}

// failing tells whether values of a type report failures.
func (f *failures) failing(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Alert" && n.Obj().Pkg() == f.c.P.Main.Types
}

// success tells whether a value is the constant for success.
func (f *failures) success(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && f.failing(x.X.Type()) {
				n, ok := constant.Int64Val(k.Value)
				return ok && n == f.none
			}
			return false
		case *ssa.Const:
			if x.Value == nil {
				return true
			}
			n, ok := constant.Int64Val(constant.ToInt(x.Value))
			return ok && n == f.none && f.failing(x.Type())
		}
		return false
	}
}

// alert is the constant alert that a value is, if it is one.
func (f *failures) alert(v ssa.Value) *int64 {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || !f.failing(k.Type()) {
		return nil
	}
	n, ok := constant.Int64Val(k.Value)
	if !ok {
		return nil
	}
	return &n
}

// reported is the failure value of a call, nil if it is not used.
func (f *failures) reported(call *ssa.Call) (v ssa.Value, can bool) {
	res := call.Call.Signature().Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if !f.failing(res.At(i).Type()) {
			continue
		}
		if res.Len() == 1 {
			if used(call) {
				return call, true
			}
			return nil, true
		}
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i && used(e) {
				return e, true
			}
		}
		return nil, true
	}
	return nil, false
}

func used(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// follow walks the paths from a call and returns the path on which a failure
// ends in success, if any.
type failureWalk struct {
	f      *failures
	call   *ssa.Call
	seen   map[string]bool
	exempt bool // its other results are good in any case
	bad    []string
	why    string
	used   bool // because other results are used
	pos    token.Pos
}

type failurePath struct {
	alias  map[ssa.Value]bool      // values that are the failure
	phis   map[ssa.Value]ssa.Value // what phis, local variables and loads of them are on this path
	failed bool                    // it is known to be a failure
	second bool                    // the call has been done again since
	equal  *int64                  // the alert it is known to be
}

func (p *failurePath) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		if p.phis[v] == nil {
			return v
		}
		v = p.phis[v]
	}
	return v
}

func (p *failurePath) is(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		v = p.resolve(v)
		if p.alias[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = t.X
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (w *failureWalk) key(b *ssa.BasicBlock, i int, p *failurePath) string {
	var s []string
	for phi, v := range p.phis {
		s = append(s, phi.Name()+"="+v.Name())
	}
	sort.Strings(s)
	e := int64(-1)
	if p.equal != nil {
		e = *p.equal
	}
	return fmt.Sprint(b.Index, i, p.failed, p.second, e, s)
}

func (w *failureWalk) walk(b *ssa.BasicBlock, i int, p *failurePath, trail []string) {
	if w.why != "" || len(w.seen) > 20000 {
		return
	}
	k := w.key(b, i, p)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	for ; i < len(b.Instrs); i++ {
		if what := w.uses(b.Instrs[i]); what != "" && !w.exempt && !p.second {
			w.pos, w.bad, w.used = b.Instrs[i].Pos(), trail, true
			w.why = "uses its other results " + map[bool]string{true: "although it failed", false: "without having looked at it"}[p.failed]
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Call:
			if x == w.call {
				if p.second || !w.other() {
					return // tried again
				}
				// done again for something else: the failure may live on in
				// variables, and the results are new
				q := &failurePath{alias: map[ssa.Value]bool{}, phis: map[ssa.Value]ssa.Value{}, failed: p.failed, equal: p.equal, second: true}
				old := ssa.NewConst(constant.MakeString("failure"), types.Typ[types.String])
				q.alias[old] = true
				for k, v := range p.phis {
					if p.is(v) {
						v = old
					}
					q.phis[k] = v
				}
				p = q
			}
		case *ssa.Panic:
			return
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
					continue // an argument, of a log line most often
				}
			}
			if a, ok := x.Addr.(*ssa.Alloc); ok && private(a) {
				p = p.with(a, p.resolve(x.Val))
				continue
			}
			if p.is(x.Val) {
				return // kept for someone else
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && p.phis[a] != nil {
				p = p.with(x, p.phis[a])
			}
		case *ssa.MapUpdate:
			if p.is(x.Value) {
				return
			}
		case *ssa.Send:
			return
		case *ssa.Return:
			w.ret(x, p, trail)
			return
		case *ssa.Jump:
			w.edge(b, 0, p, trail)
			return
		case *ssa.If:
			w.branch(b, x, p, trail)
			return
		}
	}
}

// result tells whether a value is a result of the call.
func (w *failureWalk) result(v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	return v == ssa.Value(w.call)
}

// other tells whether the call, done again, is about something else: an
// argument is computed between the two.
func (w *failureWalk) other() bool {
	from := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		for _, t := range b.Succs {
			if !from[t] {
				from[t] = true
				reach(t)
			}
		}
	}
	reach(w.call.Block())
	if !from[w.call.Block()] {
		return false
	}
	var varies func(v ssa.Value, n int) bool
	varies = func(v ssa.Value, n int) bool {
		ins, ok := v.(ssa.Instruction)
		if !ok || n > 6 {
			return false
		}
		if phi, ok := v.(*ssa.Phi); ok {
			return from[phi.Block()] && len(phi.Edges) > 1
		}
		if _, ok := v.(*ssa.Next); ok {
			return true
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && varies(*op, n+1) {
				return true
			}
		}
		return false
	}
	for _, a := range w.call.Call.Args {
		if varies(a, 0) {
			return true
		}
	}
	return false
}

func (p *failurePath) with(k, v ssa.Value) *failurePath {
	q := *p
	q.phis = map[ssa.Value]ssa.Value{}
	for k, v := range p.phis {
		q.phis[k] = v
	}
	q.phis[k] = v
	return &q
}

// private tells whether a variable is only stored to and loaded.
func private(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// uses tells whether an instruction uses another result of the call.
func (w *failureWalk) uses(ins ssa.Instruction) string {
	switch ins.(type) {
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.UnOp, *ssa.Call, *ssa.Range, *ssa.MapUpdate, *ssa.Lookup:
	default:
		return ""
	}
	for _, op := range ins.Operands(nil) {
		e, ok := (*op).(*ssa.Extract)
		if !ok || e.Tuple != ssa.Value(w.call) || w.f.failing(e.Type()) {
			continue
		}
		return e.Name()
	}
	return ""
}

func (w *failureWalk) edge(b *ssa.BasicBlock, si int, p *failurePath, trail []string) {
	t := b.Succs[si]
	pi := 0
	for i, x := range t.Preds {
		if x == b {
			pi = i
		}
	}
	q := &failurePath{alias: p.alias, failed: p.failed, equal: p.equal, second: p.second, phis: map[ssa.Value]ssa.Value{}}
	for k, v := range p.phis {
		q.phis[k] = v
	}
	for _, ins := range t.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if w.f.failing(phi.Type()) || types.Identical(phi.Type().Underlying(), types.Typ[types.Bool]) {
			q.phis[phi] = p.resolve(phi.Edges[pi])
		}
	}
	line := ""
	for _, ins := range t.Instrs {
		if ins.Pos() != token.NoPos {
			line = w.f.c.P.Fset.Position(ins.Pos()).String()
			break
		}
	}
	if line != "" {
		trail = append(append([]string(nil), trail...), line)
	}
	w.walk(t, 0, q, trail)
}

// branch follows the branches that are possible for the failure.
func (w *failureWalk) branch(b *ssa.BasicBlock, x *ssa.If, p *failurePath, trail []string) {
	cond, neg := p.resolve(x.Cond), false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = p.resolve(u.X), !neg
	}
	yes, no := 0, 1
	if neg {
		yes, no = 1, 0
	}
	if k, ok := cond.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		if constant.BoolVal(k.Value) {
			w.edge(b, yes, p, trail)
		} else {
			w.edge(b, no, p, trail)
		}
		return
	}
	if op, ok := cond.(*ssa.BinOp); ok && (op.Op == token.EQL || op.Op == token.NEQ) {
		if op.Op == token.NEQ {
			yes, no = no, yes
		}
		for i, v := range []ssa.Value{op.X, op.Y} {
			other := op.Y
			if i == 1 {
				other = op.X
			}
			if !p.is(v) {
				continue
			}
			if w.f.success(p.resolve(other)) {
				failed := *p
				failed.failed = true
				w.edge(b, no, &failed, trail)
				return // on the other side it is no failure
			}
			k := w.f.alert(p.resolve(other))
			switch {
			case k != nil && p.equal != nil && *k != *p.equal:
				w.edge(b, no, p, trail)
				return
			case k != nil && p.equal != nil:
				w.edge(b, yes, p, trail)
				return
			case k != nil && w.f.again[*k]:
				// no failure
			default:
				same := *p
				same.failed = true
				same.equal = k
				w.edge(b, yes, &same, trail)
			}
			w.edge(b, no, p, trail)
			return
		}
		for i, v := range []ssa.Value{op.X, op.Y} {
			other := op.Y
			if i == 1 {
				other = op.X
			}
			e, isE := p.resolve(v).(*ssa.Extract)
			if k, isC := other.(*ssa.Const); isC && k.Value == nil && isE && e.Tuple == ssa.Value(w.call) {
				// a nil result tells of the failure as well
				failed := *p
				failed.failed = true
				w.edge(b, yes, &failed, trail)
				if p.failed {
					w.edge(b, no, p, trail)
				}
				return
			}
		}
	}
	if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 {
		if t, ok := e.Tuple.(*ssa.TypeAssert); ok && p.is(t.X) {
			failed := *p
			failed.failed = true
			w.edge(b, yes, &failed, trail)
			w.edge(b, no, p, trail)
			return
		}
	}
	if p.derived(cond, 0) {
		return // a function looks at it
	}
	w.edge(b, 0, p, trail)
	w.edge(b, 1, p, trail)
}

func (w *failureWalk) ret(x *ssa.Return, p *failurePath, trail []string) {
	reports, ok := false, false
	for _, v := range x.Results {
		if !w.f.failing(v.Type()) {
			k, isC := p.resolve(v).(*ssa.Const)
			if p.derived(v, 0) || isC && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
				ok = true // false tells of a failure as well
			}
			continue
		}
		reports = true
		v = p.resolve(v)
		switch {
		case p.derived(v, 0):
			ok = true
		case w.f.success(v):
		case p.second && w.result(v):
			// that is about the last one only
		case p.failed:
			ok = true
		default:
			// not looked at: only a failure for certain will do
			switch y := v.(type) {
			case *ssa.Const, *ssa.MakeInterface:
				ok = true
			case *ssa.UnOp:
				_, ok = y.X.(*ssa.Global)
			case *ssa.Call:
				n := ""
				if f := y.Call.StaticCallee(); f != nil {
					n = f.String()
				}
				ok = ok || n == "fmt.Errorf" || n == "errors.New"
			}
		}
	}
	if ok {
		return
	}
	w.pos = x.Pos()
	w.bad = trail
	switch {
	case !reports:
		w.why = "returns, and has no result to report it"
	case p.failed:
		w.why = "returns success"
	default:
		w.why = "returns without having looked at it"
	}
}

// derived tells whether a value is computed from the failure.
func (p *failurePath) derived(v ssa.Value, n int) bool {
	if p.is(v) {
		return true
	}
	if n > 4 {
		return false
	}
	switch x := p.resolve(v).(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if p.derived(a, n+1) {
				return true
			}
		}
		return x.Call.IsInvoke() && p.derived(x.Call.Value, n+1)
	case *ssa.Extract:
		return p.derived(x.Tuple, n+1)
	case *ssa.MakeInterface:
		return p.derived(x.X, n+1)
	case *ssa.BinOp:
		return p.derived(x.X, n+1) || p.derived(x.Y, n+1)
	case *ssa.UnOp:
		return p.derived(x.X, n+1)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, s := range *fa.Referrers() {
					if st, ok := s.(*ssa.Store); ok && p.derived(st.Val, n+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func ignored(c *check.Ctx) {
	c.Rule("FAILURE", "on every path of every function from a call that can report an error or an alert, the report is looked at before the function returns, and a failure does not end in success")
	k, ok := c.P.Main.Types.Scope().Lookup("AlertNoAlert").(*types.Const)
	if !ok {
		return
	}
	f := &failures{c: c}
	f.none, _ = constant.Int64Val(k.Val())
	f.again = map[int64]bool{}
	for _, n := range []string{"AlertWouldBlock", "AlertStatelessRetry"} {
		if k, ok := c.P.Main.Types.Scope().Lookup(n).(*types.Const); ok {
			v, _ := constant.Int64Val(k.Val())
			f.again[v] = true
		}
	}
	cs := newCensus(c)
	alerts := map[string]bool{"Conn.sendAlert": true, "HandshakeLayer.sendAlert": true}
	fns := append([]*ssa.Function(nil), c.P.Funcs(c.P.Main)...)
	for path, p := range c.P.Pkgs {
		if strings.HasSuffix(path, "/mint/syntax") {
			fns = append(fns, c.P.Funcs(p)...)
		}
	}
	for _, fn := range fns {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok {
				return
			}
			v, can := f.reported(call)
			if !can {
				return
			}
			name := callName(call)
			if neverFails(call, name) || harmless(c, call, name) != "" {
				return
			}
			if strings.HasSuffix(name, "RecordLayer.WriteRecord") && cs.within(fn, alerts) {
				return // an alert is sent where the connection fails anyway
			}
			construct := shortFn(fn) + " call of " + name
			w := &failureWalk{f: f, call: call, seen: map[string]bool{}}
			p := &failurePath{alias: map[ssa.Value]bool{}, phis: map[ssa.Value]ssa.Value{}}
			if v != nil {
				p.alias[v] = true
			}
			at := 0
			for i, x := range call.Block().Instrs {
				if x == ssa.Instruction(call) {
					at = i + 1
				}
			}
			w.walk(call.Block(), at, p, nil)
			if w.why != "" && !w.used && optional(c, call, name) {
				w.why = ""
			}
			if w.why == "" {
				c.OK("FAILURE", construct)
				return
			}
			c.FailPath("FAILURE", construct, call.Pos(), w.bad, "%s may fail, and then %s %s (%s)", name, shortFn(fn), w.why, c.P.Fset.Position(w.pos))
		})
	}
	c.Min("FAILURE", 100)
}

func callName(call *ssa.Call) string {
	if call.Call.IsInvoke() {
		return nameOf(call.Call.Value.Type()) + "." + call.Call.Method.Name()
	}
	if f := call.Call.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return shortFn(f)
		}
		return strings.ReplaceAll(f.RelString(nil), "github.com/bifurcation/mint", "mint")
	}
	return "function value " + call.Call.Value.Name()
}

// neverFails: writing to hashes and to memory.
func neverFails(call *ssa.Call, name string) bool {
	switch name {
	case "hash.Hash.Write", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "Hash.Write":
		return true
	}
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || name == "fmt.Errorf" || name == "errors.New"
}

// harmless are the failures that may be ignored, and why.
func harmless(c *check.Ctx, call *ssa.Call, name string) string {
	short := name[strings.LastIndex(name, ".")+1:]
	// the type of a value that is passed on
	passes := func(types_ ...string) bool {
		for _, a := range call.Call.Args {
			t := a.Type()
			if m, ok := a.(*ssa.MakeInterface); ok {
				t = m.X.Type()
			}
			if u, ok := a.(*ssa.UnOp); ok {
				t = u.X.Type()
			}
			for _, n := range types_ {
				if nameOf(t) == n {
					return true
				}
			}
		}
		return false
	}
	why := ""
	switch {
	case short == "sendAlert" || short == "Close":
		why = "alerts and closing are done where the connection ends, whose failure is what matters"
	case short == "sendAck":
		why = "an acknowledgement that is not sent is like one that is lost"
	case short == "HandshakeMessageFromBody" && passes("FinishedBody", "EndOfEarlyDataBody", "ClientHelloBody"):
		why = "a Finished of the hash's size, EndOfEarlyData and a ClientHello that was encoded before cannot fail to encode"
	case short == "Add" && passes("PreSharedKeyExtension"):
		why = "the extension was encoded before with binders of the same size"
	case short == "Marshal" && len(call.Call.Args) > 0 && strings.Contains(call.Call.Args[0].String(), "Binders"):
		why = "the binders were decoded before"
	case name == "crypto/x509.ParseCertificate" && created(call.Call.Args[0]):
		why = "the certificate was made just before"
	}
	if why != "" {
		c.Assume(short + ": " + why)
	}
	return why
}

// optional are the operations whose failure is a case like another.
func optional(c *check.Ctx, call *ssa.Call, name string) bool {
	if strings.HasSuffix(name, ".CertificateSelection") {
		if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value == nil {
			c.Assume("CertificateSelection: a client without a suitable certificate answers a request with an empty list (RFC 8446, 4.4.2)")
			return true
		}
	}
	return false
}

// created tells whether a value is a certificate just made.
func created(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := e.Tuple.(*ssa.Call)
	return ok && callName(call) == "crypto/x509.CreateCertificate"
}

func init() {
	check.Register(&check.Prop{ID: "C10", Explanation: "Every path from every call that can report a failure is followed to the returns of its caller.", Run: func(c *check.Ctx) {
		ignored(c)
	}})
}
