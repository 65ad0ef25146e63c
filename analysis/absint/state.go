package absint

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A State is an abstract state: the contents of memory and the facts that hold.
type State struct {
	heap  map[string]*Term
	facts map[*Term]bool
}

func NewState() *State {
	return &State{heap: map[string]*Term{}, facts: map[*Term]bool{}}
}

func (s *State) clone() *State {
	c := &State{heap: make(map[string]*Term, len(s.heap)), facts: make(map[*Term]bool, len(s.facts))}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	return c
}

// Facts lists the facts that hold, for reports.
func (s *State) Facts() map[*Term]bool { return s.facts }

// Heap gives the content of an object.
func (s *State) Heap(id string) *Term { return s.heap[id] }

// Objects lists the objects in memory.
func (s *State) Objects() []string {
	var ids []string
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Eval decides a boolean term in s, if it can.
func (s *State) Eval(t *Term) (val, ok bool) {
	if b, ok := t.IsBool(); ok {
		return b, true
	}
	if t.Op == "not" {
		v, ok := s.Eval(t.Args[0])
		return !v, ok
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case "eq":
		// x == c is false when x == d is known
		if t.Args[1].isConst() || t.Args[1] == Nil {
			for f, v := range s.facts {
				if v && f.Op == "eq" && f.Args[0] == t.Args[0] && f.Args[1] != t.Args[1] {
					if f.Args[1].isConst() && t.Args[1].isConst() {
						return false, true
					}
				}
			}
		}
	case "lt":
		// Bounds known from other comparisons of the same pair.
		a, b := t.Args[0], t.Args[1]
		if v, ok := s.facts[mk("lt", "", b, a)]; ok && v {
			return false, true
		}
		if v, ok := s.facts[mkEq(a, b)]; ok && v {
			return false, true
		}
	}
	return false, false
}

// Assume adds the fact that t is val.  It reports false if that contradicts
// what is known.
func (s *State) Assume(t *Term, val bool) bool {
	if v, ok := s.Eval(t); ok {
		return v == val
	}
	for t.Op == "not" {
		t, val = t.Args[0], !val
	}
	s.facts[t] = val
	if val && (t.Op == "eq" || t.Op == "eqb") {
		for i := 0; i < 2; i++ {
			e, o := t.Args[i], t.Args[1-i]
			if e.Op == "among" {
				for _, l := range e.Args[1:] {
					s.facts[mk("member", "", l, o)] = true
				}
				e = e.Args[0]
			}
			if e.Op == "elem" {
				s.memberFact(e.Args[0], o)
			}
		}
	}
	return true
}

// memberFact records that x is an element of a list, and of the lists that its
// elements are known to be from.
func (s *State) memberFact(list, x *Term) {
	s.facts[mk("member", "", list, x)] = true
	if list.Op != "bag" || len(list.Args) != 1 {
		return
	}
	e := list.Args[0]
	if e.Op == "among" {
		for _, l := range e.Args[1:] {
			s.memberFact(l, x)
		}
		e = e.Args[0]
	}
	if e.Op == "elem" {
		s.memberFact(e.Args[0], x)
	}
}

// Zero values and types

func under(t types.Type) types.Type { return t.Underlying() }

func isByteSeq(t types.Type) bool {
	var e types.Type
	switch u := under(t).(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	case *types.Basic:
		return u.Kind() == types.String
	default:
		return false
	}
	b, ok := types.Unalias(e).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return Nil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = Zero(u.Field(i).Type())
		}
		return mkT("struct", "", t, args...)
	case *types.Array:
		if isByteSeq(t) {
			if u.Len() == 0 {
				return Empty
			}
			return mk("zeros", "", Int(u.Len()))
		}
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = Zero(u.Elem())
			}
			return mk("arr", "", args...)
		}
		return mk("arrsym", "", Int(u.Len()), Zero(u.Elem()))
	}
	return Nil
}

func structType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := under(t).(*types.Struct)
	return s
}

// fldName is the field of a struct value.
func fldName(x *Term, name string) *Term {
	switch x.Op {
	case "struct":
		st := structType(x.Typ)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.Args[i]
			}
		}
	case "alt":
		alts := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			alts[i] = fldName(a, name)
		}
		return Alt(alts...)
	case "upd": // upd:name(base, value)
		if x.Aux == name {
			return x.Args[1]
		}
		return fldName(x.Args[0], name)
	}
	return mk("fld", name, x)
}

// Fld is the field of a struct value.
func Fld(x *Term, path ...string) *Term {
	for _, p := range path {
		x = fldName(x, p)
	}
	return x
}

// expand turns a value of a struct type into a struct term.
func expand(x *Term, t types.Type) *Term {
	if x.Op == "struct" {
		return x
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return x
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = fldName(x, st.Field(i).Name())
	}
	return mkT("struct", "", t, args...)
}

// Pointers: mk("ptr", object, path...) with path elements pf:name and pi(index).

func ptrTo(id string, path ...*Term) *Term { return mk("ptr", id, path...) }

func ptrAdd(p *Term, e *Term) *Term {
	return mk("ptr", p.Aux, append(append([]*Term(nil), p.Args...), e)...)
}

func fieldAddr(p *Term, name string) *Term {
	if p.Op == "ptr" {
		return ptrAdd(p, mk("pf", name))
	}
	if p.Op == "alt" {
		alts := make([]*Term, len(p.Args))
		for i, a := range p.Args {
			alts[i] = fieldAddr(a, name)
		}
		return Alt(alts...)
	}
	return mk("fptr", name, p)
}

func indexAddr(x, i *Term) *Term {
	switch x.Op {
	case "slice":
		return ptrAdd(x.Args[0], mk("pi", "", Add(x.Args[1], i, 1)))
	case "ptr":
		return ptrAdd(x, mk("pi", "", i))
	case "alt":
		alts := make([]*Term, len(x.Args))
		for j, a := range x.Args {
			alts[j] = indexAddr(a, i)
		}
		return Alt(alts...)
	}
	return mk("eptr", "", x, i)
}

// load reads memory.
func (s *State) load(p *Term) *Term {
	switch p.Op {
	case "ptr":
		v, ok := s.heap[p.Aux]
		if !ok {
			v = mk("deref", "", ptrTo(p.Aux))
		}
		for _, e := range p.Args {
			if e.Op == "pf" {
				v = fldName(v, e.Aux)
			} else {
				v = s.elem(v, e.Args[0])
			}
		}
		return v
	case "alt":
		alts := make([]*Term, len(p.Args))
		for i, a := range p.Args {
			alts[i] = s.load(a)
		}
		return Alt(alts...)
	}
	if v, ok := s.heap[overrideKey(p)]; ok {
		return v
	}
	switch p.Op {
	case "glob":
		return mk("gval", p.Aux)
	case "fptr":
		return fldName(s.load(p.Args[0]), p.Aux)
	case "eptr":
		return s.elem(p.Args[0], p.Args[1])
	}
	return mk("deref", "", p)
}

func overrideKey(p *Term) string {
	k := "@" + strconv.Itoa(p.ID)
	overridePtr[k] = p
	return k
}

// overridePtr maps the heap keys of memory outside known objects to the
// pointers.
var overridePtr = map[string]*Term{}

// original is the content that memory had at first.
func original(key string) *Term { return NewState().load(overridePtr[key]) }

// elem reads an element, also through slices of objects.
func (s *State) elem(x, i *Term) *Term {
	if x.Op == "slice" {
		return s.load(indexAddr(x, i))
	}
	if x.Op == "cat" {
		if e, ok := elemAt(x, i); ok {
			return e
		}
	}
	if x.Op == "bufv" {
		for j := len(x.Args) - 1; j > 0; j-- {
			w := x.Args[j]
			if w.Args[0] == i && w.Args[1].Op == "byte1" {
				return w.Args[1].Args[0]
			}
		}
	}
	return Elem(x, i)
}

// store writes memory.
func (in *Interp) store(s *State, p, v *Term) {
	switch p.Op {
	case "ptr":
		old, ok := s.heap[p.Aux]
		if !ok {
			old = mk("deref", "", ptrTo(p.Aux))
		}
		s.heap[p.Aux] = setPath(old, in.objType[p.Aux], p.Args, v)
		return
	case "alt":
		for _, a := range p.Args {
			in.store(s, a, Alt(s.load(a), v))
		}
		return
	}
	for k := range s.heap {
		if k[0] == '@' {
			for q := overridePtr[k]; q.Op == "fptr" || q.Op == "eptr"; {
				q = q.Args[0]
				if q == p {
					delete(s.heap, k)
					break
				}
			}
		}
	}
	s.heap[overrideKey(p)] = v
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func setPath(old *Term, t types.Type, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.Op == "pf" {
		st := structType(t)
		if st == nil {
			return mk("upd", e.Aux, old, v)
		}
		x := expand(old, t)
		if x.Op != "struct" {
			return mk("upd", e.Aux, old, v)
		}
		args := append([]*Term(nil), x.Args...)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Aux {
				args[i] = setPath(args[i], st.Field(i).Type(), path[1:], v)
			}
		}
		return mkT("struct", "", x.Typ, args...)
	}
	idx := e.Args[0]
	et := elemType(t)
	if n, ok := idx.IsInt(); ok {
		switch old.Op {
		case "arr":
			if n >= 0 && int(n) < len(old.Args) {
				args := append([]*Term(nil), old.Args...)
				args[n] = setPath(args[n], et, path[1:], v)
				return mk("arr", "", args...)
			}
		case "arrsym":
			return mk("arrsym", "", old.Args[0], Alt(old.Args[1], setPath(Elem(old, idx), et, path[1:], v)))
		}
	}
	if b, ok := basicOf(et); ok && b == types.Uint8 && len(path) == 1 && spliceable(old) {
		if n, ok := splice(old, idx, mk("byte1", "", v)); ok {
			return n
		}
	}
	switch old.Op {
	case "zeros", "bufv", "rand":
		base := old
		if old.Op != "bufv" {
			base = mk("bufv", "", Len(old), mk("w", "", Int(0), old))
			if old.Op == "zeros" {
				base = mk("bufv", "", Len(old))
			}
		}
		return mk("bufv", "", append(append([]*Term(nil), base.Args...), mk("w", "", idx, mk("byte1", "", v)))...)
	case "arr":
		args := append([]*Term(nil), old.Args...)
		for i := range args {
			args[i] = Alt(args[i], setPath(args[i], et, path[1:], v))
		}
		return mk("arr", "", args...)
	case "arrsym":
		cur := Elem(old, idx)
		nv := setPath(cur, et, path[1:], v)
		if idx.Op == "lv" {
			return mk("arrsym", "", old.Args[0], Subst(nv, idx, Idx))
		}
		return mk("arrsym", "", old.Args[0], Alt(old.Args[1], nv))
	}
	return mk("eupd", "", old, idx, setPath(s0.elem(old, idx), et, path[1:], v))
}

var s0 = NewState()

// Pure resolves references to memory in t, so that the result does not change
// when memory does.  Pointers to messages and other objects inside stay.
func (s *State) Pure(t *Term) *Term {
	switch t.Op {
	case "slice":
		return s.pureSlice(t)
	case "alt":
		alts := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			alts[i] = s.Pure(a)
		}
		return Alt(alts...)
	}
	return t
}

// Deep is Pure for all parts of a value, following pointers too.
func (s *State) Deep(t *Term) *Term { return s.deep(t, 8) }

func (s *State) deep(t *Term, n int) *Term {
	if n == 0 {
		return t
	}
	switch t.Op {
	case "ptr":
		if _, ok := s.heap[t.Aux]; !ok {
			return t
		}
		return mk("to", "", s.deep(s.load(t), n-1))
	case "slice":
		return s.deep(s.pureSlice(t), n-1)
	case "struct", "iface", "list", "bag", "arr", "arrsym", "alt", "spread", "mapc", "cat", "bufv", "w", "upd", "enc", "extset", "ent", "call", "res":
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = s.deep(a, n-1)
			same = same && args[i] == a
		}
		if same {
			return t
		}
		return rebuild(t, args)
	}
	return t
}

func (s *State) pureSlice(t *Term) *Term {
	p, lo, hi := t.Args[0], t.Args[1], t.Args[2]
	c := s.load(p)
	full := lo == Int(0) && hi == Len0(c)
	switch c.Op {
	case "arr":
		l, ok1 := lo.IsInt()
		h, ok2 := hi.IsInt()
		if ok1 && ok2 && l >= 0 && h >= l && int(h) <= len(c.Args) {
			if t.Aux == "byte" {
				parts := []*Term{}
				for _, a := range c.Args[l:h] {
					parts = append(parts, mk("byte1", "", a))
				}
				return Cat(parts...)
			}
			return mk("list", t.Aux, c.Args[l:h]...)
		}
	case "bufv":
		return subBytes(normBuf(c), lo, hi)
	}
	if full {
		return c
	}
	return subBytes(c, lo, hi)
}

// Len0 is Len, and for array contents their length.
func Len0(t *Term) *Term {
	if t.Op == "arr" {
		return Int(int64(len(t.Args)))
	}
	return Len(t)
}

// subBytes is a part of a pure sequence.
func subBytes(x, lo, hi *Term) *Term {
	if x == Nil {
		return Nil
	}
	if lo == hi {
		return Empty
	}
	if lo == Int(0) && hi == Len0(x) {
		return x
	}
	if s, ok := x.IsStr(); ok {
		l, ok1 := lo.IsInt()
		h, ok2 := hi.IsInt()
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return Str(s[l:h])
		}
	}
	if x.Op == "cat" {
		// cut at part boundaries
		off := Int(0)
		start, end := -1, -1
		if off == lo {
			start = 0
		}
		for i, a := range x.Args {
			off = Add(off, Len(a), 1)
			if off == lo {
				start = i + 1
			}
			if off == hi {
				end = i + 1
			}
		}
		if start >= 0 && end >= start {
			return Cat(x.Args[start:end]...)
		}
	}
	if x.Op == "zeros" {
		return mk("zeros", "", Add(hi, lo, -1))
	}
	if x.Op == "sl" {
		return subBytes(x.Args[0], Add(x.Args[1], lo, 1), Add(x.Args[1], hi, 1))
	}
	return mk("sl", "", x, lo, hi)
}

// normBuf turns a buffer that was filled by consecutive writes into a
// concatenation.
func normBuf(b *Term) *Term {
	n := b.Args[0]
	ws := b.Args[1:]
	if len(ws) == 0 {
		return mk("zeros", "", n)
	}
	cur, ok := mk("zeros", "", n), true
	for _, w := range ws {
		if w.Args[0] == Int(0) && Len(w.Args[1]) == n {
			cur = w.Args[1]
		} else if cur, ok = splice(cur, w.Args[0], w.Args[1]); !ok {
			break
		}
	}
	if ok {
		return cur
	}
	// The last write to an offset wins if it covers the earlier one.
	used := make([]bool, len(ws))
	var parts []*Term
	off := Int(0)
	for {
		if off == n {
			break
		}
		found := -1
		for i := len(ws) - 1; i >= 0; i-- {
			if !used[i] && ws[i].Args[0] == off {
				found = i
				break
			}
		}
		if found < 0 {
			break
		}
		// writes shadowed by this one
		for i := 0; i < found; i++ {
			if ws[i].Args[0] == off && Len(ws[i].Args[1]) == Len(ws[found].Args[1]) {
				used[i] = true
			}
		}
		used[found] = true
		src := ws[found].Args[1]
		parts = append(parts, src)
		off = Add(off, Len(src), 1)
		if len(parts) > 64 {
			break
		}
	}
	// a tail that was never written is zero
	all := true
	for _, u := range used {
		all = all && u
	}
	if all {
		if off != n {
			parts = append(parts, mk("zeros", "", Add(n, off, -1)))
		}
		return Cat(parts...)
	}
	return b
}

// spliceable says that the content of a byte buffer is one that a part can be
// replaced in.
func spliceable(c *Term) bool {
	switch c.Op {
	case "arr", "arrsym", "bufv", "alt", "unk", "deref", "nil":
		return false
	}
	return true
}

func basicOf(t types.Type) (types.BasicKind, bool) {
	if t == nil {
		return 0, false
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	return b.Kind(), true
}

// Joins

func (in *Interp) joinTerm(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Op == "unk" {
		return a
	}
	if b.Op == "unk" {
		return b
	}
	if a.Op == b.Op {
		switch a.Op {
		case "struct", "iface":
			if a.Aux == b.Aux {
				args := make([]*Term, len(a.Args))
				for i := range args {
					args[i] = in.joinTerm(a.Args[i], b.Args[i])
				}
				return mkT(a.Op, a.Aux, a.Typ, args...)
			}
		case "arr":
			if len(a.Args) == len(b.Args) {
				args := make([]*Term, len(a.Args))
				for i := range args {
					args[i] = in.joinTerm(a.Args[i], b.Args[i])
				}
				return mk("arr", "", args...)
			}
		case "arrsym":
			if a.Args[0] == b.Args[0] {
				if in.filling {
					return mk("arrsym", "", a.Args[0], joinFill(a.Args[1], b.Args[1]))
				}
				return mk("arrsym", "", a.Args[0], in.joinTerm(a.Args[1], b.Args[1]))
			}
		case "extset":
			return in.joinExts(a, b)
		case "mapc":
			return in.joinMaps(a, b, in.filling)
		}
	}
	isList := func(t *Term) bool { return t.Op == "list" || t.Op == "bag" }
	if isList(a) && isList(b) && !strings.Contains(a.Aux, "HandshakeAction") {
		if a.Op == "list" && b.Op == "list" && len(a.Args) == len(b.Args) {
			args := make([]*Term, len(a.Args))
			ok := true
			for i := range args {
				ok = ok && (a.Args[i].Op == "spread") == (b.Args[i].Op == "spread")
			}
			if ok {
				for i := range args {
					if a.Args[i].Op == "spread" {
						args[i] = mk("spread", "", in.joinTerm(a.Args[i].Args[0], b.Args[i].Args[0]))
					} else {
						args[i] = in.joinTerm(a.Args[i], b.Args[i])
					}
				}
				return mk("list", a.Aux, args...)
			}
		}
		seen := map[*Term]bool{}
		var els []*Term
		for _, l := range []*Term{a, b} {
			for _, e := range l.Args {
				if e.Op == "spread" {
					e = mk("elem", "", e.Args[0], mk("unk", "index"))
				}
				for _, x := range e.Alts() {
					x = forgetIndex(x)
					if !seen[x] {
						seen[x] = true
						els = append(els, x)
					}
				}
			}
		}
		if len(els) > 12 {
			return mk("unk", "list")
		}
		sort.Slice(els, func(i, j int) bool { return els[i].ID < els[j].ID })
		return mk("bag", a.Aux, els...)
	}
	return in.joinAlts(a, b)
}

// holes lists the operations under which a single difference is joined in
// place; no combination is added by that.
func single(op string) bool {
	switch op {
	case "enc", "typed", "wire", "cat", "hash", "hashstate", "hmac", "hkdfx", "hkdfl", "ent", "list", "len", "conv", "trunc", "mapc", "to", "tuple", "fld", "w", "bufv":
		return true
	}
	return false
}

// joinHole joins two terms that differ in one place.
func (in *Interp) joinHole(a, b *Term) *Term {
	if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || !single(a.Op) {
		return nil
	}
	d := -1
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			if d >= 0 {
				return nil
			}
			d = i
		}
	}
	if d < 0 {
		return nil
	}
	args := append([]*Term(nil), a.Args...)
	args[d] = in.joinTerm(a.Args[d], b.Args[d])
	return rebuild(a, args)
}

func (in *Interp) joinAlts(a, b *Term) *Term {
	if len(a.Alts()) == 1 && len(b.Alts()) == 1 {
		if j := in.joinHole(a, b); j != nil {
			return j
		}
		return Alt(a, b)
	}
	// fold the alternatives of one into the other
	alts := append([]*Term(nil), a.Alts()...)
next:
	for _, y := range b.Alts() {
		for i, x := range alts {
			if x == y {
				continue next
			}
			if j := in.joinHole(x, y); j != nil {
				alts[i] = j
				continue next
			}
		}
		alts = append(alts, y)
	}
	return Alt(alts...)
}

// forgetIndex makes the loop positions in a bag element anonymous, so that
// elements added by different iterations are recognised as alike.
func forgetIndex(t *Term) *Term {
	if !t.loop {
		return t
	}
	m := map[*Term]*Term{}
	t.Walk(func(x *Term) {
		if x.Op == "lv" || x.Op == "past" {
			m[x] = mk("unk", "index")
		}
	})
	return rewrite(t, m, map[*Term]*Term{})
}

// joinFill joins descriptions of array elements, of which one may be the
// not-yet-filled zero value.
func joinFill(a, b *Term) *Term {
	if a == b {
		return a
	}
	zero := func(t *Term) bool { return t == Nil || t == Int(0) || t == Empty || t == False }
	if zero(a) {
		return b
	}
	if zero(b) {
		return a
	}
	if a.Op == "struct" && b.Op == "struct" && a.Aux == b.Aux {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = joinFill(a.Args[i], b.Args[i])
		}
		return mkT("struct", a.Aux, a.Typ, args...)
	}
	return Alt(a, b)
}

func (in *Interp) joinMaps(a, b *Term, fill bool) *Term {
	// Same keys: join values; otherwise the union (lookups report presence
	// symbolically).
	vals := map[*Term]*Term{}
	var keys []*Term
	for _, m := range []*Term{a, b} {
		for i := 0; i+1 < len(m.Args); i += 2 {
			k, v := m.Args[i], m.Args[i+1]
			if o, ok := vals[k]; ok {
				vals[k] = in.joinTerm(o, v)
			} else {
				vals[k] = v
				keys = append(keys, k)
			}
		}
	}
	aux := a.Aux
	if fill && a.Aux == b.Aux && (len(a.Args) == 0 || len(b.Args) == 0) {
		// a map being filled by a loop
	} else if a.Aux != b.Aux || len(keys)*2 != len(a.Args) || len(keys)*2 != len(b.Args) {
		aux = "may"
	}
	var args []*Term
	for _, k := range keys {
		args = append(args, k, vals[k])
	}
	return mk("mapc", aux, args...)
}

// Extension lists: extset(entries...) with entries ent:must|may(type, body),
// sorted by type.  A special entry ext("handler") says that the application's
// extension handler may have changed the list.

func extEntries(t *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, e := range t.Args {
		m[e.Args[0]] = e
	}
	return m
}

func mkExts(m map[*Term]*Term) *Term {
	var es []*Term
	for _, e := range m {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Args[0].ID < es[j].Args[0].ID })
	return mk("extset", "", es...)
}

func (in *Interp) joinExts(a, b *Term) *Term {
	ma, mb := extEntries(a), extEntries(b)
	out := map[*Term]*Term{}
	for k, e := range ma {
		f, ok := mb[k]
		if !ok {
			out[k] = mk("ent", "may", e.Args...)
			continue
		}
		aux := "must"
		if e.Aux != "must" || f.Aux != "must" {
			aux = "may"
		}
		out[k] = mk("ent", aux, k, in.joinTerm(e.Args[1], f.Args[1]))
	}
	for k, e := range mb {
		if _, ok := ma[k]; !ok {
			out[k] = mk("ent", "may", e.Args...)
		}
	}
	return mkExts(out)
}

// Expand turns a value of a struct type into a struct term.
func Expand(x *Term, t types.Type) *Term { return expand(x, t) }

// Sub is the part of a byte string from lo to hi.
func Sub(x, lo, hi *Term) *Term { return subBytes(x, lo, hi) }

// FieldAddr is the address of a field.
func FieldAddr(p *Term, name string) *Term { return fieldAddr(p, name) }

// IfaceOf is an interface value.
func IfaceOf(t types.Type, v *Term) *Term { return mkT("iface", "", t, v) }

// JoinTerm joins two values.
func (in *Interp) JoinTerm(a, b *Term) *Term { return in.joinTerm(a, b) }
