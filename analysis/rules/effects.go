package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// Effects on shared memory: which values point into the memory that
// configurations and the package's tables share, and what is stored there.
// The flow is insensitive to order and calling context; fields of structures
// are one place per type.

type fieldKey struct{ typ, field string }
type contentKey struct{ alloc ssa.Value }
type resultKey struct {
	fn *ssa.Function
	i  int
}

type effects struct {
	c      *check.Ctx
	cs     *census
	w      *lockWalk
	shared map[interface{}]bool
	change bool
}

func refs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (f *effects) mark(k interface{}) {
	if !f.shared[k] {
		f.shared[k] = true
		f.change = true
	}
}

func (f *effects) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return f.table(g)
	}
	return f.shared[v]
}

// table tells whether a variable holds memory that connections share.
func (f *effects) table(g *ssa.Global) bool {
	if g.Pkg == nil || g.Pkg.Pkg != f.c.P.Main.Types {
		return false
	}
	switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		return true
	}
	return false
}

func key(fa *ssa.FieldAddr, c *check.Ctx) (fieldKey, bool) {
	t, n := fieldOf(c.P, fa)
	return fieldKey{t, n}, t != ""
}

func (f *effects) step(fn *ssa.Function, ins ssa.Instruction) {
	v, _ := ins.(ssa.Value)
	from := func(x ssa.Value) {
		if f.is(x) {
			f.mark(v)
		}
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			from(e)
		}
	case *ssa.ChangeType:
		from(x.X)
	case *ssa.ChangeInterface:
		from(x.X)
	case *ssa.MakeInterface:
		from(x.X)
	case *ssa.TypeAssert:
		from(x.X)
	case *ssa.Slice:
		from(x.X)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f.shared[callResult{call, x.Index}] {
				f.mark(x)
			}
			break
		}
		if refs(x.Type()) {
			from(x.Tuple)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && refs(x.Type()) {
			from(x.X)
		}
	case *ssa.Next, *ssa.Range:
		for _, op := range ins.Operands(nil) {
			from(*op)
		}
	case *ssa.Index:
		if refs(x.Type()) {
			from(x.X)
		}
	case *ssa.Field:
		if refs(x.Type()) {
			from(x.X)
		}
	case *ssa.FieldAddr:
		from(x.X)
	case *ssa.IndexAddr:
		from(x.X)
		if a, ok := x.X.(*ssa.Alloc); ok && f.shared[contentKey{a}] {
			f.mark(contentKey{x})
		}
	case *ssa.UnOp:
		if x.Op != token.MUL || !refs(x.Type()) {
			break
		}
		if f.renewed(x) {
			break
		}
		from(x.X)
		base := x.X
		if fa, ok := base.(*ssa.FieldAddr); ok {
			k, ok := key(fa, f.c)
			if ok && (k.typ == "Config" || f.shared[k]) {
				f.mark(x)
			}
			base = fa.X
		}
		if f.shared[contentKey{base}] || f.shared[contentKey{x.X}] {
			f.mark(x)
		}
	case *ssa.Store:
		if !f.is(x.Val) || !refs(x.Val.Type()) {
			break
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if k, ok := key(a, f.c); ok && k.typ != "Config" {
				f.mark(k)
			}
		case *ssa.IndexAddr:
			f.mark(contentKey{a.X})
		default:
			f.mark(contentKey{x.Addr})
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if f.is(b) {
				f.mark(g.FreeVars[i])
			}
			if f.shared[contentKey{b}] {
				f.mark(contentKey{g.FreeVars[i]})
			}
			if f.shared[contentKey{g.FreeVars[i]}] {
				f.mark(contentKey{b})
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if f.is(r) {
				f.mark(resultKey{fn, i})
			}
		}
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		call := ci.Common()
		if bi, ok := call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && v != nil {
				from(call.Args[0])
			}
			return
		}
		args := call.Args
		if call.IsInvoke() {
			args = append([]ssa.Value{call.Value}, args...)
		}
		for _, g := range f.w.callees(call) {
			for i, p := range g.Params {
				if i < len(args) && f.is(args[i]) {
					f.mark(p)
				}
				if i < len(args) && f.shared[contentKey{args[i]}] {
					f.mark(contentKey{p})
				}
			}
			if call, ok := ins.(*ssa.Call); ok {
				n := g.Signature.Results().Len()
				for i := 0; i < n; i++ {
					if f.shared[resultKey{g, i}] && refs(g.Signature.Results().At(i).Type()) {
						f.mark(callResult{call, i})
						if n == 1 {
							f.mark(call)
						}
					}
				}
			}
		}
	}
}

// renewed tells whether a loaded field was, on every way to the load, set to
// something that is not shared by the same function.
func (f *effects) renewed(load *ssa.UnOp) bool {
	fa, ok := load.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	before := false
	for _, r := range *fa.X.Referrers() {
		other, ok := r.(*ssa.FieldAddr)
		if !ok || other.Field != fa.Field {
			continue
		}
		for _, u := range *other.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != other {
				continue
			}
			if f.is(st.Val) {
				return false
			}
			before = before || st.Block() != load.Block() && st.Block().Dominates(load.Block()) || st.Block() == load.Block() && position(st) < position(load)
		}
	}
	return before
}

type callResult struct {
	call *ssa.Call
	i    int
}

// sharedMemory checks that nothing is stored in shared memory.
func sharedMemory(c *check.Ctx) {
	c.Rule("ELEMENT", "nothing reachable from a configuration or from the package's tables is changed, appended to in place or handed to a function that changes it")
	f := &effects{c: c, cs: newCensus(c), w: newLockWalk(c), shared: map[interface{}]bool{}}
	var fns []*ssa.Function
	start := map[string]bool{}
	for _, fn := range f.cs.fns {
		if fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			start[fn.Name()] = true
		}
	}
	for _, fn := range f.cs.fns {
		if !f.cs.within(fn, start) {
			fns = append(fns, fn)
		}
	}
	for f.change = true; f.change; {
		f.change = false
		for _, fn := range fns {
			eachInstr(fn, func(ins ssa.Instruction) { f.step(fn, ins) })
		}
	}
	n := 0
	report := func(fn *ssa.Function, pos token.Pos, v ssa.Value, what string) {
		n++
		c.Check(!f.is(v), "ELEMENT", shortFn(fn)+" "+what, pos, "in %s %s changes memory that a configuration or a table shares with other connections (%s)", shortFn(fn), what, v.Name())
	}
	for _, fn := range fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.IndexAddr:
					report(fn, x.Pos(), a.X, "a store to an element")
				case *ssa.FieldAddr:
					report(fn, x.Pos(), a.X, "a store to a field")
				case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
				default:
					report(fn, x.Pos(), x.Addr, "a store")
				}
			case *ssa.MapUpdate:
				if nameOf(x.Map.Type()) != "PSKMapCache" {
					report(fn, x.Pos(), x.Map, "a map store")
				}
			case ssa.CallInstruction:
				call := x.Common()
				if bi, ok := call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if s, ok := call.Args[0].(*ssa.Slice); ok && s.Max != nil {
							return
						}
						report(fn, x.Pos(), call.Args[0], "an append in place")
					case "copy", "delete", "clear":
						report(fn, x.Pos(), call.Args[0], "a "+bi.Name())
					}
					return
				}
				g := call.StaticCallee()
				if call.IsInvoke() {
					if call.Method.Name() == "Read" || call.Method.Name() == "XORKeyStream" || call.Method.Name() == "Seal" || call.Method.Name() == "Open" {
						for _, a := range call.Args[:1] {
							report(fn, x.Pos(), a, "a call of "+call.Method.Name())
						}
					}
					return
				}
				if g == nil || g.Pkg == nil || g.Blocks != nil && g.Pkg.Pkg == c.P.Main.Types {
					return
				}
				if changes(g) {
					for _, a := range call.Args {
						report(fn, x.Pos(), a, "a call of "+g.String())
					}
				}
			}
		})
	}
	c.Cover("stores looked at", n)
	c.Min("ELEMENT", 20)
}

// changes tells whether a function of another package changes what its
// arguments refer to.
func changes(g *ssa.Function) bool {
	path, name := g.Pkg.Pkg.Path(), g.Name()
	switch path {
	case "sort":
		return !strings.HasPrefix(name, "Search") && !strings.HasSuffix(name, "AreSorted") && !strings.HasSuffix(name, "IsSorted")
	case "slices":
		switch {
		case strings.HasPrefix(name, "Sort"), strings.HasPrefix(name, "Delete"), strings.HasPrefix(name, "Insert"), strings.HasPrefix(name, "Compact"), strings.HasPrefix(name, "Replace"), name == "Reverse":
			return true
		}
	case "math/rand", "math/rand/v2":
		return name == "Shuffle"
	case "io":
		return name == "ReadFull" || name == "ReadAtLeast"
	case "crypto/rand":
		return name == "Read"
	case "encoding/binary":
		return strings.HasPrefix(name, "Put")
	case "crypto/x509":
		return name == "AddCert" || name == "AppendCertsFromPEM" || name == "AddCertWithConstraint"
	}
	return false
}

// defaulting checks the functions that fill in a configuration, and Clone.
func defaulting(c *check.Ctx) {
	c.Rule("DEFAULT", "a function that fills in a shared configuration leaves every field that is set as it is")
	c.Rule("CLONE", "a clone of a configuration has every exported field of the original, and its own lock")
	conf, ok := c.P.Main.Types.Scope().Lookup("Config").(*types.TypeName)
	if !ok {
		c.Fail("CLONE", "Config", token.NoPos, "the type Config does not exist any more")
		return
	}
	st := conf.Type().Underlying().(*types.Struct)
	u := newUnit(c)
	cfg := ai.Sym("config")
	self := ai.Mk("deref", "", cfg)
	if fn, outs := u.run("Config.Clone", cfg); fn != nil {
		good := 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			good++
			r := o.Result(0)
			c.Check(r != cfg && r.Op == "ptr", "CLONE", "new", o.Pos, "the clone is not a new configuration: %s", clip(r))
			if r.Op != "ptr" {
				continue
			}
			got := o.S.Load(r)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					continue
				}
				x := o.S.Deep(ai.Fld(got, f.Name()))
				c.Check(x == ai.Fld(self, f.Name()), "CLONE", f.Name(), o.Pos, "in a clone %s is %s", f.Name(), clip(x))
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if n := nameOf(f.Type()); n == "RWMutex" || n == "Mutex" {
					x := o.S.Deep(ai.Fld(got, f.Name()))
					c.Check(!x.Contains(self), "CLONE", f.Name(), o.Pos, "the lock of the original is copied into the clone")
				}
			}
		}
		c.Check(good > 0, "CLONE", "returns", fn.Pos(), "Clone never returns")
	}
	// the functions that lock a configuration and change it
	cs := newCensus(c)
	writers := map[*ssa.Function]bool{}
	w := newLockWalk(c)
	w.allMade = true
	w.access = func(a lockAccess) {
		if a.object != "config" || !a.write {
			return
		}
		for l := range a.held {
			if strings.HasPrefix(l, "@") {
				continue
			}
		}
		writers[a.fn] = true
	}
	lockers := map[*ssa.Function]bool{}
	w.acquire = func(fn *ssa.Function, pos token.Pos, lock string, held lockset) {
		if lock == "config" {
			lockers[fn] = true
		}
	}
	for _, fn := range cs.fns {
		exported := fn.Object() != nil && fn.Object().Exported()
		if fn.Parent() != nil || !exported && len(cs.callers[fn]) > 0 && !cs.escapes[fn] || cs.unused(fn) || strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && len(cs.callers[fn]) == 0 {
			continue
		}
		w.root = shortFn(fn)
		w.run(&env{fn: fn, class: map[ssa.Value]string{}, w: w, busy: map[ssa.Value]bool{}}, lockset{})
	}
	entry := map[string]bool{}
	for fn := range lockers {
		entry[shortFn(fn)] = true
	}
	for fn := range writers {
		c.Check(cs.within(fn, entry), "DEFAULT", shortFn(fn)+" locked", fn.Pos(), "%s changes a configuration and is not only called by functions that lock it", shortFn(fn))
	}
	done := 0
	for fn := range lockers {
		if fn.Signature.Recv() == nil || nameOf(fn.Signature.Recv().Type()) != "Config" {
			reaches := false
			for wr := range writers {
				reaches = reaches || cs.within(wr, map[string]bool{shortFn(fn): true})
			}
			c.Check(!reaches, "DEFAULT", shortFn(fn), fn.Pos(), "%s changes the shared configuration while it has it locked", shortFn(fn))
			continue
		}
		// each field set: a list of two, a number, a flag, a pointer
		u := newUnit(c)
		s := u.init.Clone()
		args := make([]*ai.Term, st.NumFields())
		for i := range args {
			f := st.Field(i)
			switch t := f.Type().Underlying().(type) {
			case *types.Slice:
				args[i] = u.inMemory(s, f.Type(), ai.Mk("list", ai.TypeName(t.Elem()), ai.Sym(f.Name()+"0"), ai.Sym(f.Name()+"1")), "set"+f.Name())
			case *types.Basic:
				switch {
				case t.Info()&types.IsBoolean != 0:
					args[i] = ai.Sym("set" + f.Name())
				case t.Info()&types.IsString != 0:
					args[i] = ai.Str("set" + f.Name())
				default:
					args[i] = ai.Int(7)
				}
			case *types.Pointer:
				args[i] = u.in.NewObject(s, "set"+f.Name(), t.Elem(), ai.Sym("old"+f.Name()))
			case *types.Interface:
				args[i] = ai.IfaceOf(types.Typ[types.String], ai.Str("set"+f.Name()))
			default:
				args[i] = ai.Sym("set" + f.Name())
			}
		}
		content := ai.Mk("struct", "Config", args...)
		content.Typ = conf.Type()
		p := u.in.NewObject(s, "configuration", conf.Type(), content)
		before := s.Deep(s.Load(p))
		u.init = s
		u.roots = append(u.roots, p)
		params := []*ai.Term{p}
		for _, q := range fn.Params[1:] {
			params = append(params, ai.Sym(q.Name()))
		}
		_, outs := u.exactly(nil, shortFn(fn), params...)
		n := 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			n++
			after := o.S.Deep(o.S.Load(p))
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if nm := nameOf(f.Type()); nm == "RWMutex" || nm == "Mutex" {
					continue
				}
				c.Check(ai.Fld(after, f.Name()) == ai.Fld(before, f.Name()), "DEFAULT", shortFn(fn)+" "+f.Name(), o.Pos, "%s changes %s of a configuration in which it is set to %s", shortFn(fn), f.Name(), clip(ai.Fld(after, f.Name())))
			}
		}
		c.Check(n > 0, "DEFAULT", shortFn(fn)+" returns", fn.Pos(), "%s never returns", shortFn(fn))
		done++
	}
	c.Check(done >= 2, "DEFAULT", "functions", token.NoPos, "no function fills in a configuration under its lock")
	c.Cover("functions that lock a configuration", done)
}

func init() {
	check.Register(&check.Prop{ID: "C23", Explanation: "Which values refer to memory that configurations and tables share is computed over the whole library; nothing may be stored there, configurations may be filled in only under their lock and only where nothing was set, and a clone must have every field.", Run: func(c *check.Ctx) {
		defaulting(c)
		sharedMemory(c)
		library(c)
	}})
}
