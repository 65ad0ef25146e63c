package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mintcheck/check"
)

// Locksets: which locks are certainly held wherever the parts of a connection
// that two goroutines may use are accessed.  Objects are named by the path
// that leads to them from the connection ("in" and "out" are its record
// layers), functions are followed once per set of held locks and naming of
// their arguments.

type lockset map[string]bool

func (l lockset) String() string {
	var s []string
	for k := range l {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (l lockset) clone() lockset {
	r := lockset{}
	for k := range l {
		r[k] = true
	}
	return r
}

type lockAccess struct {
	fn     *ssa.Function
	pos    token.Pos
	object string // class of the object
	what   string
	held   lockset
	write  bool
	root   string
}

type lockWalk struct {
	c       *check.Ctx
	memo    map[string]locksets
	made    map[string]bool // types put in an interface by what was followed
	again   bool
	allMade bool
	root    string
	skip    map[string]bool
	access  func(a lockAccess)
	acquire func(fn *ssa.Function, pos token.Pos, lock string, held lockset)
	release func(fn *ssa.Function, pos token.Pos, lock string, held lockset)
	calls   int
	visited map[*ssa.Function]bool
	taken   map[string][]*ssa.Function // functions used as values, by signature
}

func newLockWalk(c *check.Ctx) *lockWalk {
	w := &lockWalk{c: c, memo: map[string]locksets{}, made: map[string]bool{}, visited: map[*ssa.Function]bool{}, taken: map[string][]*ssa.Function{}}
	seen := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs(c.P.Main) {
		eachInstr(fn, func(ins ssa.Instruction) {
			for _, op := range ins.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok || seen[f] {
					continue
				}
				if ci, isCall := ins.(ssa.CallInstruction); isCall && ci.Common().Value == *op && ci.Common().StaticCallee() == f {
					continue
				}
				seen[f] = true
				k := types.TypeString(f.Signature, nil)
				if f.Signature.Recv() != nil {
					k = types.TypeString(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), nil)
				}
				w.taken[k] = append(w.taken[k], f)
			}
		})
	}
	return w
}

// env is what is known about a function's parameters and free variables.
type env struct {
	fn    *ssa.Function
	class map[ssa.Value]string
	w     *lockWalk
	busy  map[ssa.Value]bool
}

func nameOf(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

var classByType = map[string]string{"Conn": "conn", "HandshakeContext": "hsctx"}

// of names the object that a value is or points to.
func (e *env) of(v ssa.Value) string {
	if c, ok := e.class[v]; ok {
		return c
	}
	if e.busy[v] {
		return "?"
	}
	e.busy[v] = true
	c := e.compute(v)
	delete(e.busy, v)
	e.class[v] = c
	return c
}

func (e *env) join(vs []ssa.Value) string {
	r := "?"
	for _, v := range vs {
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			continue
		}
		c := e.of(v)
		switch {
		case c == "?" || c == r:
		case r == "?":
			r = c
		default:
			return ""
		}
	}
	return r
}

func (e *env) compute(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return e.field(e.of(x.X), t, x.Field)
	case *ssa.Field:
		return e.field(e.of(x.X), x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if nameOf(x.Type()) == "Config" && e.replaced(x) {
				return "fresh"
			}
			if c := e.of(x.X); c != "" {
				return c
			}
		}
	case *ssa.ChangeType:
		return e.of(x.X)
	case *ssa.ChangeInterface:
		return e.of(x.X)
	case *ssa.MakeInterface:
		return e.of(x.X)
	case *ssa.TypeAssert:
		return e.of(x.X)
	case *ssa.IndexAddr:
		return e.of(x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return e.of(ta.X)
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return e.result(call, x.Index)
		}
	case *ssa.Call:
		return e.result(x, 0)
	case *ssa.Phi:
		if c := e.join(x.Edges); c != "?" {
			return c
		}
	case *ssa.Alloc:
		var vs []ssa.Value
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				vs = append(vs, st.Val)
			}
		}
		if c := e.join(vs); c != "?" && c != "" {
			return c
		}
		if nameOf(x.Type()) == "Config" {
			return "fresh"
		}
		if len(vs) == 0 && nameOf(x.Type()) == "Conn" {
			return "fresh"
		}
	case *ssa.Global:
		return "global " + x.Name()
	}
	if c := classByType[nameOf(v.Type())]; c != "" {
		return c
	}
	if nameOf(v.Type()) == "Config" {
		return "config"
	}
	return ""
}

// replaced tells whether a loaded field was, on every way to the load, set to
// something new by the same function.
func (e *env) replaced(load *ssa.UnOp) bool {
	fa, ok := load.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	before := false
	for _, r := range *fa.X.Referrers() {
		other, ok := r.(*ssa.FieldAddr)
		if !ok || other.Field != fa.Field {
			continue
		}
		for _, u := range *other.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != other {
				continue
			}
			if e.of(st.Val) != "fresh" {
				return false
			}
			before = before || st.Block() != load.Block() && st.Block().Dominates(load.Block()) || st.Block() == load.Block() && position(st) < position(load)
		}
	}
	return before
}

func position(ins ssa.Instruction) int {
	for i, x := range ins.Block().Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

func (e *env) field(owner string, t types.Type, i int) string {
	n, _ := t.(*types.Named)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	f := st.Field(i)
	name := ""
	if n != nil {
		name = n.Obj().Name()
	}
	switch {
	case owner == "fresh":
		return "fresh"
	case name == "Conn":
		switch f.Name() {
		case "in", "out", "config", "state", "readBuffer":
			return f.Name()
		case "hsCtx":
			return "hsctx"
		case "handshakeMutex":
			return "handshake"
		}
		return ""
	case name == "HandshakeContext":
		switch f.Name() {
		case "hIn", "hOut", "timers":
			return f.Name()
		}
	case name == "HandshakeLayer":
		if f.Name() == "conn" {
			return map[string]string{"hIn": "in", "hOut": "out"}[owner]
		}
		if owner == "hIn" || owner == "hOut" {
			return owner
		}
	case owner == "in" || owner == "out":
		return owner
	case owner == "timers":
		return owner
	case name == "Config":
		if f.Name() == "mutex" {
			return owner
		}
		return ""
	}
	if c := classByType[nameOf(f.Type())]; c != "" {
		return c
	}
	if nameOf(f.Type()) == "Config" {
		return "config"
	}
	return ""
}

func (e *env) result(call *ssa.Call, i int) string {
	fn := call.Call.StaticCallee()
	if fn == nil || fn.Blocks == nil || e.w.c.P.Main.Types != fn.Pkg.Pkg {
		return e.byType(call.Call.Signature().Results(), i)
	}
	if nameOf(fn.Signature.Results().At(i).Type()) == "Config" && fn.Name() == "Clone" {
		return "fresh"
	}
	sub := e.w.bind(fn, e, &call.Call)
	var vs []ssa.Value
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			vs = append(vs, r.Results[i])
		}
	}
	if len(e.busy) > 40 {
		return ""
	}
	for v := range e.busy {
		sub.busy[v] = true
	}
	if c := sub.join(vs); c != "?" && c != "" {
		return c
	}
	return e.byType(call.Call.Signature().Results(), i)
}

func (e *env) byType(r *types.Tuple, i int) string {
	if i >= r.Len() {
		return ""
	}
	n := nameOf(r.At(i).Type())
	if n == "Config" {
		return "config"
	}
	return classByType[n]
}

// bind names the parameters of a called function.
func (w *lockWalk) bind(fn *ssa.Function, e *env, call *ssa.CallCommon) *env {
	sub := &env{fn: fn, class: map[ssa.Value]string{}, w: w, busy: map[ssa.Value]bool{}}
	args := call.Args
	if call.IsInvoke() {
		args = append([]ssa.Value{call.Value}, args...)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			if c := e.of(args[i]); c != "" && c != "?" {
				sub.class[p] = c
			}
		}
	}
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		for i, f := range fn.FreeVars {
			if c := e.of(mc.Bindings[i]); c != "" && c != "?" {
				sub.class[f] = c
			}
		}
	}
	return sub
}

func (e *env) key() string {
	var s []string
	for _, p := range e.fn.Params {
		s = append(s, e.class[p])
	}
	for _, p := range e.fn.FreeVars {
		s = append(s, e.class[p])
	}
	return strings.Join(s, ";")
}

// lockOp recognises the operations of locks.
func (e *env) lockOp(call *ssa.CallCommon) (lock, op string) {
	if call.IsInvoke() {
		if n := call.Method.Name(); n == "Lock" || n == "Unlock" {
			return e.of(call.Value), n
		}
		return "", ""
	}
	fn := call.StaticCallee()
	if fn == nil || fn.Signature.Recv() == nil || len(call.Args) == 0 {
		return "", ""
	}
	switch n := fn.Name(); n {
	case "Lock", "Unlock", "RLock", "RUnlock":
		if t := nameOf(fn.Signature.Recv().Type()); t == "Mutex" || t == "RWMutex" || fn.Synthetic != "" {
			return e.of(call.Args[0]), n
		}
	}
	return "", ""
}

// locksets are the sets that are possible at one point.
type locksets map[string]lockset

func (s locksets) add(l lockset) bool {
	k := l.String()
	if s[k] != nil {
		return false
	}
	s[k] = l
	return true
}

func (s locksets) sorted() []lockset {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []lockset
	for _, k := range ks {
		r = append(r, s[k])
	}
	return r
}

// run follows a function and returns what may be held when it returns.
func (w *lockWalk) run(e *env, held lockset) locksets {
	fn := e.fn
	k := fn.String() + "|" + held.String() + "|" + e.key()
	if s, ok := w.memo[k]; ok {
		return s
	}
	exits := locksets{}
	w.memo[k] = exits
	w.visited[fn] = true
	in := map[*ssa.BasicBlock]locksets{fn.Blocks[0]: {}}
	in[fn.Blocks[0]].add(held)
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, h := range in[b].sorted() {
				out, returns := w.block(e, b, h, false)
				for _, o := range out.sorted() {
					if returns {
						changed = exits.add(o) || changed
						continue
					}
					for i, succ := range b.Succs {
						if w.dead(b, i) {
							continue
						}
						if in[succ] == nil {
							in[succ] = locksets{}
						}
						changed = in[succ].add(o) || changed
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, h := range in[b].sorted() {
			w.block(e, b, h, true)
		}
	}
	return exits
}

// dead tells whether a successor is only reached with a value of a type that
// is never put in an interface.
func (w *lockWalk) dead(b *ssa.BasicBlock, succ int) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || succ != 0 {
		return false
	}
	ex, ok := br.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok || nameOf(ta.X.Type()) != "HandshakeAction" {
		return false // actions are taken where they are made, others are kept
	}
	n, ok := ta.AssertedType.(*types.Named)
	if !ok || n.Obj().Pkg() != w.c.P.Main.Types {
		return false
	}
	if _, isIface := n.Underlying().(*types.Interface); isIface {
		return false
	}
	return !w.allMade && !w.made[n.Obj().Name()]
}

func (w *lockWalk) block(e *env, b *ssa.BasicBlock, held lockset, report bool) (locksets, bool) {
	cur := locksets{}
	cur.add(held)
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Return); ok {
			return cur, true
		}
		next := locksets{}
		for _, h := range cur.sorted() {
			for _, o := range w.step(e, ins, h, report).sorted() {
				next.add(o)
			}
		}
		cur = next
	}
	return cur, false
}

func (w *lockWalk) step(e *env, ins ssa.Instruction, h lockset, report bool) locksets {
	say := func(object, what string, pos token.Pos, write bool) {
		if report && object != "" && object != "fresh" && object != "?" {
			w.access(lockAccess{fn: e.fn, pos: pos, object: object, what: what, held: h, write: write, root: w.root})
		}
	}
	same := locksets{}
	same.add(h)
	switch x := ins.(type) {
	case *ssa.MakeInterface:
		if n, ok := x.X.Type().(*types.Named); ok && !w.made[n.Obj().Name()] {
			w.made[n.Obj().Name()], w.again = true, true
		}
	case *ssa.FieldAddr:
		t, f := fieldOf(w.c.P, x)
		if t == "" {
			break
		}
		owner := e.of(x.X)
		write, use := false, false
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				write = write || r.Addr == x
				use = true
			case *ssa.DebugRef:
			default:
				use = true
			}
		}
		if use {
			if owner == "conn" {
				owner = "conn." + f
			}
			say(owner, t+"."+f, x.Pos(), write)
		}
	case *ssa.MapUpdate:
		say(e.mapOf(x.Map), "map element", x.Pos(), true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			say(e.mapOf(x.X), "map element", x.Pos(), false)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			say(e.mapOf(x.X), "map element", x.Pos(), false)
		}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			say("global "+g.Name(), "variable", x.Pos(), true)
		}
	case *ssa.Go:
		w.call(e, &x.Call, lockset{}, x.Pos(), report)
	case *ssa.Call:
		return w.call(e, &x.Call, h, x.Pos(), report)
	case *ssa.Defer:
		n := h.clone()
		n[deferKey(e.fn, x)] = true
		same = locksets{}
		same.add(n)
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		eachInstr(e.fn, func(i ssa.Instruction) {
			if d, ok := i.(*ssa.Defer); ok && h[deferKey(e.fn, d)] {
				ds = append(ds, d)
			}
		})
		n := h.clone()
		for _, d := range ds {
			delete(n, deferKey(e.fn, d))
		}
		same = locksets{}
		same.add(n)
		for i := len(ds) - 1; i >= 0; i-- {
			next := locksets{}
			for _, l := range same.sorted() {
				for _, o := range w.call(e, &ds[i].Call, l, ds[i].Pos(), report).sorted() {
					next.add(o)
				}
			}
			same = next
		}
	}
	return same
}

// mapOf names a map; the maps of a named type of the library are one object.
func (e *env) mapOf(v ssa.Value) string {
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() == e.w.c.P.Main.Types && e.of(v) != "fresh" {
		return "maps " + n.Obj().Name()
	}
	return e.of(v)
}

func deferKey(fn *ssa.Function, d *ssa.Defer) string {
	return fmt.Sprintf("~%s@%d", fn.String(), d.Pos())
}

func (l lockset) locks() string {
	r := lockset{}
	for k := range l {
		if k[0] != '~' {
			r[k] = true
		}
	}
	return r.String()
}

func (w *lockWalk) call(e *env, call *ssa.CallCommon, h lockset, pos token.Pos, report bool) locksets {
	same := locksets{}
	if lock, op := e.lockOp(call); op != "" {
		if lock == "" || lock == "?" {
			same.add(h)
			return same
		}
		n := h.clone()
		switch op {
		case "Lock", "RLock":
			if report && w.acquire != nil {
				w.acquire(e.fn, pos, lock, h)
			}
			if op == "RLock" {
				lock += ":read"
			}
			n[lock] = true
		default:
			if op == "RUnlock" {
				lock += ":read"
			}
			if report && w.release != nil {
				w.release(e.fn, pos, lock, h)
			}
			delete(n, lock)
		}
		same.add(n)
		return same
	}
	same.add(h)
	if report {
		w.calls++
	}
	if bi, ok := call.Value.(*ssa.Builtin); ok {
		if report && len(call.Args) > 0 {
			if _, isMap := call.Args[0].Type().Underlying().(*types.Map); isMap {
				if o := e.mapOf(call.Args[0]); o != "" && o != "fresh" {
					w.access(lockAccess{fn: e.fn, pos: pos, object: o, what: "map " + bi.Name(), held: h, write: bi.Name() == "delete", root: w.root})
				}
			}
		}
		return same
	}
	if call.IsInvoke() && report {
		o := e.of(call.Value)
		if o != "" && o != "?" {
			w.access(lockAccess{fn: e.fn, pos: pos, object: o, what: "call of " + call.Method.Name(), held: h, root: w.root})
		} else if nameOf(call.Value.Type()) == "RecordLayer" {
			w.access(lockAccess{fn: e.fn, pos: pos, object: "some record layer", what: "call of " + call.Method.Name(), held: h, root: w.root})
		}
	}
	followed := false
	out := locksets{}
	for _, fn := range w.callees(call) {
		if w.skip[shortFn(fn)] {
			continue
		}
		followed = true
		for _, o := range w.run(w.bind(fn, e, call), h).sorted() {
			out.add(o)
		}
	}
	if !followed {
		return same
	}
	return out
}

// callees are the functions of the library a call may run.
func (w *lockWalk) callees(call *ssa.CallCommon) []*ssa.Function {
	main := w.c.P.Main.Types
	local := func(f *ssa.Function) bool {
		return f != nil && f.Blocks != nil && (f.Pkg != nil && f.Pkg.Pkg == main || f.Pkg == nil && f.Synthetic != "")
	}
	if f := call.StaticCallee(); f != nil {
		if local(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	var out []*ssa.Function
	if call.IsInvoke() {
		iface, ok := call.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		scope := main.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || n == "Conn" {
				continue // a connection is not its own transport
			}
			if _, isIface := tn.Type().Underlying().(*types.Interface); isIface {
				continue
			}
			t := types.Type(types.NewPointer(tn.Type()))
			if types.Implements(tn.Type(), iface) {
				t = tn.Type()
			} else if !types.Implements(t, iface) {
				continue
			}
			sel := w.c.P.SSA.MethodSets.MethodSet(t).Lookup(call.Method.Pkg(), call.Method.Name())
			if sel == nil {
				continue
			}
			if f := w.c.P.SSA.MethodValue(sel); local(f) {
				out = append(out, f)
			}
		}
		return out
	}
	for _, f := range w.taken[types.TypeString(call.Signature(), nil)] {
		if local(f) {
			out = append(out, f)
		}
	}
	return out
}

func (w *lockWalk) follow(fn *ssa.Function) locksets {
	e := &env{fn: fn, class: map[ssa.Value]string{}, w: w, busy: map[ssa.Value]bool{}}
	e.class[fn.Params[0]] = "conn"
	return w.run(e, lockset{})
}

// sharing checks that what goroutines share is accessed under its lock.
func sharing(c *check.Ctx) {
	c.Rule("LOCKSET", "what belongs to one direction of a connection is accessed under the lock of that direction in every function that Read, Write, SendKeyUpdate and Close can reach")
	c.Rule("ORDER", "locks are taken in one order, never twice, and are not held when an operation returns")
	w := newLockWalk(c)
	w.skip = map[string]bool{"Conn.Handshake": true}
	sites := 0
	shared := map[string]lockset{}
	reached := map[string]bool{}
	w.access = func(a lockAccess) {
		reached[a.root+" "+a.object] = true
		need := ""
		switch a.object {
		case "in", "out":
			need = a.object
			if strings.HasSuffix(a.what, ".Mutex") {
				return
			}
		case "conn.readBuffer":
			need = "in"
		case "hIn":
			if strings.HasSuffix(a.what, ".conn") {
				return
			}
			common, ok := shared[a.what]
			if !ok {
				common = a.held
			}
			rest := lockset{}
			for l := range common {
				if a.held[l] && l[0] != '~' {
					rest[l] = true
				}
			}
			shared[a.what] = rest
			sites++
			c.Check(len(rest) > 0, "LOCKSET", shortFn(a.fn)+" "+a.object+" "+a.what, a.pos, "in %s, reached from Conn.%s, %s of the incoming handshake layer is accessed with no lock that all other accesses hold (held: %s)", shortFn(a.fn), a.root, a.what, a.held.locks())
			return
		case "hOut", "timers", "state":
			need = "out"
		case "conn.state":
			need = "out"
		case "some record layer":
			sites++
			c.Check(a.held["in"] || a.held["out"], "LOCKSET", shortFn(a.fn)+" "+a.what, a.pos, "in %s, reached from %s, a record layer is used with no lock held", shortFn(a.fn), a.root)
			return
		default:
			return
		}
		if (a.object == "hIn" || a.object == "hOut") && strings.HasSuffix(a.what, ".conn") {
			return // never changes
		}
		sites++
		c.Check(a.held[need], "LOCKSET", shortFn(a.fn)+" "+a.object+" "+a.what, a.pos, "in %s, reached from Conn.%s, there is an access to %s of %s without the lock of %s (held: %s)", shortFn(a.fn), a.root, a.what, a.object, need, a.held.locks())
	}
	orders := map[[2]string]string{}
	w.acquire = func(fn *ssa.Function, pos token.Pos, lock string, held lockset) {
		c.Check(!held[lock] && !held[lock+":read"], "ORDER", shortFn(fn)+" "+lock, pos, "%s locks %s while it already is locked", shortFn(fn), lock)
		for h := range held {
			h = strings.TrimSuffix(h, ":read")
			if h == lock || h[0] == '~' {
				continue
			}
			orders[[2]string{h, lock}] = shortFn(fn)
			if other, ok := orders[[2]string{lock, h}]; ok {
				c.Fail("ORDER", lock+" and "+h, pos, "%s locks %s while holding %s, and %s the other way round", shortFn(fn), lock, h, other)
			} else {
				c.OK("ORDER", h+" before "+lock)
			}
		}
	}
	w.release = func(fn *ssa.Function, pos token.Pos, lock string, held lockset) {
		c.Check(held[lock], "ORDER", shortFn(fn)+" unlocks "+lock, pos, "%s unlocks %s, which may not be locked", shortFn(fn), lock)
	}
	for _, n := range []string{"Read", "Write", "SendKeyUpdate", "Close"} {
		fn := c.P.Method("Conn", n)
		if fn == nil {
			c.Fail("LOCKSET", "Conn."+n, token.NoPos, "Conn.%s does not exist any more", n)
			continue
		}
		var exits locksets
		w.root, w.made = n, map[string]bool{}
		access, acquire, release := w.access, w.acquire, w.release
		w.access, w.acquire, w.release = func(lockAccess) {}, nil, nil
		for w.again = true; w.again; {
			w.again, w.memo = false, map[string]locksets{}
			w.follow(fn)
		}
		w.access, w.acquire, w.release = access, acquire, release
		w.memo = map[string]locksets{}
		exits = w.follow(fn)
		for _, h := range exits.sorted() {
			c.Check(h.locks() == "", "ORDER", "Conn."+n+" returns", fn.Pos(), "Conn.%s returns holding %s", n, h.locks())
		}
	}
	for _, r := range []string{"Read in", "Read out", "Read conn.readBuffer", "Write out", "SendKeyUpdate out", "SendKeyUpdate conn.state", "Read timers", "Read hOut"} {
		c.Check(reached[r], "LOCKSET", r, token.NoPos, "no access was found where one is expected: %s", r)
	}
	c.Cover("functions followed", len(w.visited))
	c.Cover("accesses to shared state", sites)
	c.Min("LOCKSET", 20)
}

// library checks what is shared between connections.
func library(c *check.Ctx) {
	c.Rule("SHARED", "maps, variables and configurations that connections share are changed only while a lock is held that every access holds, and not after initialisation otherwise")
	w := newLockWalk(c)
	cs := newCensus(c)
	type use struct {
		write bool
		held  lockset
		a     lockAccess
	}
	uses := map[string][]use{}
	w.access = func(a lockAccess) {
		switch {
		case strings.HasPrefix(a.object, "maps "):
		case a.object == "config" && a.write:
		case strings.HasPrefix(a.object, "global "):
			if strings.HasPrefix(a.what, "call of") {
				return
			}
		default:
			return
		}
		held := lockset{}
		for l := range a.held {
			if l[0] != '~' {
				held[l] = true
			}
		}
		uses[a.object] = append(uses[a.object], use{a.write, held, a})
	}
	for _, fn := range cs.fns {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil && cs.callers[fn] == nil {
			continue
		}
		exported := fn.Object() != nil && fn.Object().Exported()
		if fn.Parent() != nil || !exported && len(cs.callers[fn]) > 0 && !cs.escapes[fn] || cs.unused(fn) {
			continue
		}
		w.root = shortFn(fn)
		e := &env{fn: fn, class: map[ssa.Value]string{}, w: w, busy: map[ssa.Value]bool{}}
		w.allMade = true
		w.run(e, lockset{})
	}
	n := 0
	for obj, us := range uses {
		written := false
		for _, u := range us {
			written = written || u.write
		}
		if !written {
			continue
		}
		common := lockset(nil)
		for _, u := range us {
			have := lockset{}
			for l := range u.held {
				have[strings.TrimSuffix(l, ":read")] = true
			}
			if common == nil {
				common = have
				continue
			}
			for l := range common {
				if !have[l] {
					delete(common, l)
				}
			}
		}
		for _, u := range us {
			n++
			exclusive := false
			for l := range u.held {
				exclusive = exclusive || common[l] || !u.write && common[strings.TrimSuffix(l, ":read")]
			}
			c.Check(exclusive, "SHARED", shortFn(u.a.fn)+" "+obj+" "+u.a.what, u.a.pos, "in %s there is an access to %s (%s), which connections share, without a lock that all accesses hold (held: %s)", shortFn(u.a.fn), obj, u.a.what, u.held)
		}
	}
	c.Cover("accesses to what connections share", n)
	c.Min("SHARED", 5)
}

func init() {
	check.Register(&check.Prop{ID: "C22", Explanation: "The locks certainly held at each access to a record layer, its keys and the buffers behind it are computed over the call graph from every operation an application may run concurrently.", Run: func(c *check.Ctx) {
		sharing(c)
		library(c)
	}})
}
