package rules

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"mintcheck/check"
	"mintcheck/load"
)

// Censuses: where in the library something is done, and whether that place is
// only reached through operations that were analysed.

type census struct {
	c       *check.Ctx
	fns     []*ssa.Function
	callers map[*ssa.Function][]*ssa.Function
	escapes map[*ssa.Function]bool // used as a value
}

func newCensus(c *check.Ctx) *census {
	s := &census{c: c, fns: c.P.Funcs(c.P.Main), callers: map[*ssa.Function][]*ssa.Function{}, escapes: map[*ssa.Function]bool{}}
	for _, fn := range s.fns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			var callee *ssa.Function
			if ci, ok := ins.(ssa.CallInstruction); ok {
				callee = ci.Common().StaticCallee()
				if callee != nil {
					s.callers[callee] = append(s.callers[callee], fn)
				}
			}
			for _, op := range ins.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if ci, isCall := ins.(ssa.CallInstruction); isCall && f == callee && ci.Common().Value == *op {
					continue
				}
				s.escapes[f] = true
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				// a function literal runs at its parent's command
				f := mc.Fn.(*ssa.Function)
				s.callers[f] = append(s.callers[f], fn)
			}
		})
	}
	return s
}

func eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			f(ins)
		}
	}
}

// within tells whether a function is one of the entries or only called, in
// the end, by them.
func (s *census) within(fn *ssa.Function, entries map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if entries[shortFn(f)] || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return ok(f.Parent())
		}
		if s.escapes[f] || len(s.callers[f]) == 0 {
			return false
		}
		for _, g := range s.callers[f] {
			if !ok(g) {
				return false
			}
		}
		return true
	}
	return ok(fn)
}

// shortFn is the name of a function as the rules write it: Type.Method.
func shortFn(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

// fieldOf tells which field of which named type of the library an address is.
func fieldOf(p *load.Program, v ssa.Value) (typ, field string) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", ""
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n, ok := t.(*types.Named)
	if !ok {
		return "", ""
	}
	return n.Obj().Name(), n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// fresh tells whether an address is in memory that the function itself
// allocated.
func fresh(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// unused tells whether a function is not reachable at all in the library:
// not exported, not called, not used as a value.
func (s *census) unused(f *ssa.Function) bool {
	return f.Parent() == nil && !s.escapes[f] && len(s.callers[f]) == 0 && f.Object() != nil && !f.Object().Exported() && f.Signature.Recv() == nil
}

// keyMaterial checks that the cipher states are touched only by what the
// record layer analysis covers.
func keyMaterial(c *check.Ctx, rule string) {
	s := newCensus(c)
	entries := map[string]bool{}
	for _, n := range []string{"WriteRecord", "WriteRecordWithPadding", fnWriteWith, "ReadRecord", "ReadRecordAnyEpoch", "PeekRecordType", "Rekey", "ResetClear", "DiscardReadKey"} {
		entries["DefaultRecordLayer."+n] = true
	}
	entries["NewRecordLayerTLS"], entries["NewRecordLayerDTLS"] = true, true
	sites := 0
	for _, fn := range s.fns {
		in := 0
		check1 := func(what string, pos token.Pos) {
			in++
			c.Check(s.within(fn, entries) || s.unused(fn), rule, shortFn(fn)+" "+what, pos, "%s is done in %s, which is not only reached through the record layer's operations", what, shortFn(fn))
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				t, f := fieldOf(c.P, x)
				if t == "cipherState" && (f == "cipher" || f == "iv") {
					check1("use of cipherState."+f, x.Pos())
				}
			case *ssa.Store:
				t, f := fieldOf(c.P, x.Addr)
				switch {
				case t == "cipherState":
					check1("change of cipherState."+f, x.Pos())
				case t == "DefaultRecordLayer" && (f == "cipher" || f == "readCiphers" || f == "datagram" || f == "direction" || f == "cachedRecord" || f == "conn"):
					check1("change of DefaultRecordLayer."+f, x.Pos())
				}
			case *ssa.MapUpdate:
				if m, ok := x.Map.Type().Underlying().(*types.Map); ok {
					if p, ok := m.Elem().(*types.Pointer); ok {
						if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "cipherState" {
							check1("change of the epoch keys", x.Pos())
						}
					}
				}
			}
		})
		sites += in
	}
	c.Min(rule, 8)
	c.Cover("places that touch record keys", sites)
}

// transport checks that the library writes to the transport only in the
// record layer.
func transport(c *check.Ctx, rule string) {
	s := newCensus(c)
	entries := map[string]bool{"DefaultRecordLayer.WriteRecord": true, "DefaultRecordLayer.WriteRecordWithPadding": true, "DefaultRecordLayer." + fnWriteWith: true}
	var found []string
	for _, fn := range s.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Write" {
				return
			}
			t := ci.Common().Value.Type()
			n, ok := t.(*types.Named)
			if !ok {
				return
			}
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "io.ReadWriter", "io.Writer", "net.Conn", "io.ReadWriteCloser":
			default:
				return
			}
			found = append(found, shortFn(fn))
			c.Check(s.within(fn, entries), rule, "write to the transport in "+shortFn(fn), ins.Pos(), "%s writes to the transport although it is not only reached through WriteRecord", shortFn(fn))
		})
	}
	sort.Strings(found)
	c.Cover("writes to the transport", found)
	c.Check(len(found) > 0, rule, "transport", token.NoPos, "no write to the transport was found")
}
