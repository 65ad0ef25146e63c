package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Call is a call about to be made.
type Call struct {
	In    *Interp
	S     *State
	Name  string
	Args  []*Term
	Instr ssa.CallInstruction
	Sig   *types.Signature
	Site  int // calling context including the call instruction
	roots []*Term
}

// Prim models a function.  It reports false to decline.
type Prim func(c *Call) ([]*Outcome, bool)

func ret(s *State, args ...*Term) *Outcome {
	return &Outcome{S: s, Ret: mk("tuple", "", args...)}
}

func one(s *State, args ...*Term) ([]*Outcome, bool) {
	return []*Outcome{ret(s, args...)}, true
}

func (r *fnRun) callee(p *path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, r.val(p, a))
	}
	if c.IsInvoke() {
		recv := r.val(p, c.Value)
		name := typeName(c.Value.Type()) + "." + c.Method.Name()
		return mk("invoke", name, recv), args
	}
	return r.val(p, c.Value), args
}

func (r *fnRun) invoke(p *path, instr ssa.CallInstruction, fn *Term, args []*Term, i int, b *ssa.BasicBlock) []*Outcome {
	in := r.in
	common := instr.Common()
	if fn.Op == "builtin" {
		return r.builtin(p, fn.Aux, args, common)
	}
	c := &Call{In: in, S: p.s, Args: args, Instr: instr, Sig: common.Signature()}
	c.Site = in.ctx(r.ctx, fmt.Sprintf("%s:%d.%d", fnName(r.fn), b.Index, i))
	live := r.fi.liveAfter(b, i)
	c.roots = append([]*Term(nil), r.roots...)
	for v := range live {
		if t, ok := p.env[v]; ok {
			c.roots = append(c.roots, t)
		}
	}
	for _, d := range p.defers {
		c.roots = append(c.roots, d.args...)
		c.roots = append(c.roots, d.fn)
	}
	return in.dispatch(c, fn, p)
}

func (in *Interp) dispatch(c *Call, fn *Term, p *path) []*Outcome {
	switch fn.Op {
	case "alt":
		var outs []*Outcome
		for _, a := range fn.Args {
			d := *c
			d.S = c.S.clone()
			outs = append(outs, in.dispatch(&d, a, p)...)
		}
		return outs
	case "func", "closure":
		f := in.funcs[fn.Aux]
		args := c.Args
		return in.static(c, f, args, fn.Args, p)
	case "invoke":
		recv := fn.Args[0]
		if in.NoInline["invoke:"+fn.Aux] {
			c.Name = "invoke:" + fn.Aux
			c.Args = append([]*Term{recv}, c.Args...)
			return in.external(c, p)
		}
		if recv.Op == "alt" {
			var outs []*Outcome
			for _, a := range recv.Args {
				d := *c
				d.S = c.S.clone()
				outs = append(outs, in.dispatch(&d, mk("invoke", fn.Aux, a), p)...)
			}
			return outs
		}
		method := c.Instr.Common().Method
		if recv.Op == "iface" {
			f := in.P.SSA.LookupMethod(recv.Typ, method.Pkg(), method.Name())
			if f != nil {
				args := append([]*Term{recv.Args[0]}, c.Args...)
				return in.static(c, f, args, nil, p)
			}
		}
		if recv == Nil {
			return []*Outcome{{S: c.S, Ret: mk("tuple", "", Str("nil dereference")), Panic: true, Pos: c.Instr.Pos()}}
		}
		c.Name = "invoke:" + fn.Aux
		c.Args = append([]*Term{recv}, c.Args...)
		return in.external(c, p)
	case "method":
	}
	// a function value
	c.Name = "dyn"
	c.Args = append([]*Term{fn}, c.Args...)
	return in.external(c, p)
}

func (in *Interp) static(c *Call, f *ssa.Function, args, fv []*Term, p *path) []*Outcome {
	c.Name = fnName(f)
	c.Args = args
	if len(fv) > 0 && len(f.Blocks) == 0 {
		c.Args = append(append([]*Term(nil), fv...), args...)
	}
	in.observe(c)
	prim := in.Override[c.Name]
	if prim == nil {
		prim = prims[c.Name]
	}
	if prim != nil {
		if outs, ok := prim(c); ok {
			return outs
		}
	}
	if outs, ok := in.bodyPrim(c, f); ok {
		return outs
	}
	if len(f.Blocks) > 0 && !in.NoInline[c.Name] {
		depth := 0
		for _, g := range in.stack {
			if g == f {
				depth++
			}
		}
		most, stack := 2, 40
		if in.Depth > 0 {
			most, stack = in.Depth, in.Stack
		}
		if depth < most && len(in.stack) < stack {
			return in.run(f, args, fv, c.S, c.Site, c.roots)
		}
		in.Notes["recursion through "+c.Name] = true
	}
	return in.external(c, p)
}

func (in *Interp) observe(c *Call) {
	if in.Observe != nil {
		in.Observe(c)
	}
	if in.Ghost != nil {
		if g := in.Ghost(c, c.S.Ghost()); g != nil {
			c.S.heap["#ghost"] = g
		}
	}
}

// SetGhost sets the specification variable.
func (s *State) SetGhost(g *Term) { s.heap["#ghost"] = g }

// Return is an outcome of a call.
func Return(s *State, vals ...*Term) *Outcome { return ret(s, vals...) }

// Ghost is the specification variable.
func (s *State) Ghost() *Term {
	if g := s.heap["#ghost"]; g != nil {
		return g
	}
	return Nil
}

// external models a call of a function whose body is not analysed.
func (in *Interp) external(c *Call, p *path) []*Outcome {
	if strings.HasPrefix(c.Name, "invoke:") || c.Name == "dyn" {
		in.observe(c)
	}
	prim := in.Override[c.Name]
	if prim == nil {
		prim = prims[c.Name]
	}
	if prim != nil {
		if outs, ok := prim(c); ok {
			return outs
		}
	}
	in.Opaque[c.Name]++
	return in.OpaqueCall(c, c.Name, isPure(c.Name), p)
}

var purePkgs = []string{"bytes.", "strings.", "strconv.", "encoding/hex.", "errors.", "math/bits.", "(crypto.Hash).", "(time.", "(*crypto/x509.Certificate).", "(*math/big.Int).", "golang.org/x/crypto/hkdf.New", "crypto/aes.NewCipher", "crypto/cipher.NewGCM"}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	switch name {
	case "invoke:PreSharedKeyCache.Get", "invoke:PreSharedKeyCache.Size", "(*Config).time", "invoke:error.Error", "sign", "verify", "keyAgreement", "schemeValidForKey":
		return true
	}
	return false
}

// reads lists the external functions that do not write through their
// arguments.
func readsOnly(name string) bool {
	for _, p := range []string{"bytes.", "strings.", "fmt.", "errors.", "encoding/hex.", "time.", "(time.", "(*crypto/x509.", "crypto/", "reflect.", "(reflect", "sort.", "invoke:error.", "net.", "invoke:crypto.", "invoke:PreSharedKeyCache", "(crypto", "math/big", "(*math/big", "sign", "verify", "keyAgreement", "newKeyShare"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// resultUsed reports whether result i of a call is looked at.
func resultUsed(instr ssa.CallInstruction, n, i int) bool {
	v, ok := instr.(ssa.Value)
	if !ok {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch ref := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if ref.Index != i {
				continue
			}
			if rr := ref.Referrers(); rr != nil {
				for _, x := range *rr {
					if _, ok := x.(*ssa.DebugRef); !ok {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

// OpaqueCall makes a call of an operation that is represented by a term.
func (in *Interp) OpaqueCall(c *Call, name string, pure bool, p *path) []*Outcome {
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = c.S.Deep(a)
	}
	if in.Generic[name] {
		args = nil
	}
	aux := name
	if !pure {
		aux += fmt.Sprintf("@%d", c.Site)
	}
	t := mk("call", aux, args...)
	if !pure {
		in.freshen(c.S, t, p)
	}
	if !pure && !readsOnly(name) {
		in.havocArgs(c.S, c.Args, name, t)
	}
	return in.results(c, t)
}

// freshen forgets what was known about the result of an earlier execution of
// the same call.
func (in *Interp) freshen(s *State, t *Term, p *path) {
	if !in.sites[t.Aux] {
		in.sites[t.Aux] = true
		return
	}
	for f := range s.facts {
		if f.Contains(t) {
			delete(s.facts, f)
		}
	}
	m := map[*Term]*Term{t: mk("unk", "stale")}
	memo := map[*Term]*Term{}
	for k, v := range s.heap {
		s.heap[k] = rewrite(v, m, memo)
	}
	if p != nil {
		for k, v := range p.env {
			p.env[k] = rewrite(v, m, memo)
		}
	}
}

func (in *Interp) havocArgs(s *State, args []*Term, name string, t *Term) {
	for i, a := range args {
		for _, x := range a.Alts() {
			if x.Op == "iface" {
				x = x.Args[0]
			}
			v := mk("havoc", fmt.Sprint(i), t)
			switch x.Op {
			case "ptr":
				if len(x.Args) == 0 {
					if _, ok := s.heap[x.Aux]; !ok {
						continue
					}
				}
				in.store(s, x, v)
			case "slice":
				in.storeBytes(s, x, v)
			}
		}
	}
}

// storeBytes writes src over the start of the slice dst.
func (in *Interp) storeBytes(s *State, dst, src *Term) {
	if dst.Op != "slice" {
		return
	}
	p, lo, hi := dst.Args[0], dst.Args[1], dst.Args[2]
	c := s.load(p)
	same, ok := s.Eval(Eq(Len(src), hi))
	if lo == Int(0) && (hi == Len0(c) && ok && same || c.Op == "deref") {
		in.store(s, p, src)
		return
	}
	if spliceable(c) {
		if v, ok := splice(c, lo, src); ok {
			in.store(s, p, v)
			return
		}
	}
	if c.Op != "bufv" {
		n := Len0(c)
		if c.Op == "zeros" {
			c = mk("bufv", "", n)
		} else {
			c = mk("bufv", "", n, mk("w", "", Int(0), c))
		}
	}
	in.store(s, p, mk("bufv", "", append(append([]*Term(nil), c.Args...), mk("w", "", lo, src))...))
}

// Results makes the outcomes of an opaque operation t: a reported error is
// either nil, which makes ok(t) a fact, or not.
func (in *Interp) results(c *Call, t *Term) []*Outcome {
	res := c.Sig.Results()
	n := res.Len()
	if n == 0 {
		return []*Outcome{ret(c.S)}
	}
	vals := make([]*Term, n)
	for i := range vals {
		if n == 1 {
			vals[0] = t
		} else {
			vals[i] = mk("res", fmt.Sprint(i), t)
		}
	}
	last := res.At(n - 1).Type()
	if isErrorType(last) {
		if !resultUsed(c.Instr, n, n-1) {
			vals[n-1] = mk("unk", "ignored error")
			return []*Outcome{ret(c.S, vals...)}
		}
		okT := mk("ok", "", t)
		var outs []*Outcome
		if v, known := c.S.Eval(okT); !known || v {
			s := c.S.clone()
			s.Assume(okT, true)
			good := append([]*Term(nil), vals...)
			good[n-1] = Nil
			outs = append(outs, ret(s, good...))
		}
		if v, known := c.S.Eval(okT); !known || !v {
			s := c.S.clone()
			s.Assume(okT, false)
			bad := append([]*Term(nil), vals...)
			bad[n-1] = mk("errval", "", t)
			outs = append(outs, ret(s, bad...))
		}
		return outs
	}
	return []*Outcome{ret(c.S, vals...)}
}

func (r *fnRun) builtin(p *path, name string, args []*Term, c *ssa.CallCommon) []*Outcome {
	s := p.s
	switch name {
	case "len":
		return []*Outcome{ret(s, s.lenOf(args[0]))}
	case "cap":
		return []*Outcome{ret(s, mk("cap", "", args[0]))}
	case "append":
		if len(args) == 1 {
			return []*Outcome{ret(s, args[0])}
		}
		t := c.Args[0].Type()
		v := appendTerm(s, args[0], args[1], t)
		if r.in.Unroll["*"] && !isByteSeq(t) && v.Op == "list" && flat(v) {
			// the elements can be changed later: they are in memory
			id := r.in.fresh(s, fmt.Sprintf("%s.append#%d", fnName(r.fn), r.ctx))
			r.in.objType[id] = types.NewSlice(elemType(t))
			s.heap[id] = mk("arr", "", v.Args...)
			v = mk("slice", "", ptrTo(id), Int(0), Int(int64(len(v.Args))))
		}
		return []*Outcome{ret(s, v)}
	case "copy":
		dst, src := args[0], s.Pure(args[1])
		n := Len(src)
		if dst.Op == "slice" {
			dl := Add(dst.Args[2], dst.Args[1], -1)
			if dl != n {
				full := dst.Args[2] == Len0(s.load(dst.Args[0]))
				if !full {
					src = subBytes(src, Int(0), dl)
					n = dl
				} else if k, ok := Add(dl, n, -1).IsInt(); ok && k < 0 {
					src = subBytes(src, Int(0), dl)
					n = dl
				}
			}
			if isByteSeq(c.Args[0].Type()) {
				r.in.storeBytes(s, dst, src)
			} else if dst.Args[1] == Int(0) && dst.Args[2] == Len0(s.load(dst.Args[0])) {
				r.in.store(s, dst.Args[0], src)
			} else if !r.in.copyElems(s, dst, src, n) {
				r.in.store(s, dst.Args[0], mk("unk", "copy"))
			}
		} else if a, ok := s.lenOf(dst).IsInt(); ok {
			if b, ok := n.IsInt(); ok && a < b {
				n = Int(a)
			}
		}
		return []*Outcome{ret(s, n)}
	case "delete":
		m := args[0]
		if m.Op == "ptr" {
			c := s.load(m)
			if c.Op == "mapc" {
				var kept []*Term
				for i := 0; i+1 < len(c.Args); i += 2 {
					if c.Args[i] != args[1] {
						kept = append(kept, c.Args[i], c.Args[i+1])
					}
				}
				r.in.store(s, m, mk("mapc", c.Aux, kept...))
			}
		}
		return []*Outcome{ret(s)}
	case "print", "println", "close":
		return []*Outcome{ret(s)}
	case "ssa:wrapnilchk":
		return []*Outcome{ret(s, args[0])}
	case "recover":
		if v, ok := s.heap["#panic"]; ok {
			delete(s.heap, "#panic")
			return []*Outcome{ret(s, v)}
		}
		return []*Outcome{ret(s, Nil)}
	}
	return []*Outcome{ret(s, mk("builtin:"+name, "", args...))}
}

// among notes the other lists that an element picked from a list is known to be
// in, which its position in the loop would lose.
func among(s *State, e *Term) *Term {
	if e.Op != "elem" || !e.loop {
		return e
	}
	var lists []*Term
	add := func(l *Term) {
		if l == e.Args[0] {
			return
		}
		for _, o := range lists {
			if o == l {
				return
			}
		}
		lists = append(lists, l)
	}
	for f, v := range s.facts {
		if !v {
			continue
		}
		switch f.Op {
		case "eq":
			for i := 0; i < 2; i++ {
				if f.Args[i] == e && f.Args[1-i].Op == "elem" {
					add(f.Args[1-i].Args[0])
				}
			}
		case "member":
			if f.Args[1] == e {
				add(f.Args[0])
			}
		}
	}
	if len(lists) == 0 {
		return e
	}
	sort.Slice(lists, func(i, j int) bool { return lists[i].ID < lists[j].ID })
	return mk("among", "", append([]*Term{e}, lists...)...)
}

// sublist is the elements that part of a list of known elements selects.
func sublist(t *Term) *Term {
	if t.Op != "sl" || t.Args[0].Op != "list" {
		return t
	}
	for _, e := range t.Args[0].Args {
		if e.Op == "spread" || e.Op == "among" {
			return t
		}
	}
	n := int64(len(t.Args[0].Args))
	lo, ok := t.Args[1].IsInt()
	hi, ok2 := t.Args[2].IsInt()
	if !ok || !ok2 || lo < 0 || lo > hi || hi > n {
		return t
	}
	if lo == hi {
		return Empty
	}
	return mk("list", t.Args[0].Aux, t.Args[0].Args[lo:hi]...)
}

func appendTerm(s *State, x, y *Term, t types.Type) *Term {
	if x.Op == "alt" {
		args := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			args[i] = appendTerm(s, a, y, t)
		}
		return Alt(args...)
	}
	x, y = s.Pure(x), s.Pure(y)
	if isByteSeq(t) {
		return Cat(x, y)
	}
	x, y = sublist(x), sublist(y)
	aux := typeName(elemType(t))
	if b, ok := under(elemType(t)).(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 {
		scalarElems[aux] = true
	}
	var els []*Term
	if y.Op == "list" {
		for _, e := range y.Args {
			els = append(els, among(s, e))
		}
	} else if y == Nil || y == Empty {
	} else {
		els = []*Term{mk("spread", "", y)}
	}
	if x == Empty {
		return mk("list", aux, els...)
	}
	switch x.Op {
	case "nil":
		return mk("list", aux, els...)
	case "list":
		return mk("list", aux, append(append([]*Term(nil), x.Args...), els...)...)
	case "bag":
		seen := map[*Term]bool{}
		var out []*Term
		for _, e := range append(append([]*Term(nil), x.Args...), els...) {
			if e.Op == "spread" {
				e = mk("elem", "", e.Args[0], mk("unk", "index"))
			}
			e = forgetIndex(e)
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
		if len(out) > 12 {
			return mk("unk", "list")
		}
		return mk("bag", aux, out...)
	case "arr":
		return mk("list", aux, append(append([]*Term(nil), x.Args...), els...)...)
	}
	return mk("list", aux, append([]*Term{mk("spread", "", x)}, els...)...)
}

// flat tells whether all elements of a list are known.
func flat(l *Term) bool {
	for _, e := range l.Args {
		if e.Op == "spread" || e.Op == "among" {
			return false
		}
	}
	return len(l.Args) > 0
}

// copyElems copies known elements to known positions.
func (in *Interp) copyElems(s *State, dst, src, n *Term) bool {
	k, ok := n.IsInt()
	lo, ok2 := dst.Args[1].IsInt()
	src = sublist(src)
	if !ok || !ok2 || src.Op != "list" && src.Op != "arr" || int64(len(src.Args)) < k || !flat(src) {
		return k == 0 && ok
	}
	for i := int64(0); i < k; i++ {
		in.store(s, indexAddr(mk("slice", "", dst.Args[0], Int(lo), dst.Args[2]), Int(i)), src.Args[i])
	}
	return true
}
