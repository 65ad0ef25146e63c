package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mintcheck/load"
)

// An Interp analyses functions of one program.
type Interp struct {
	P *load.Program

	// Sticky selects facts that are never merged away: decisions about the
	// configuration that a specification wants to see.
	// Clause selects facts of which disjunctions are kept at joins.
	Clause func(*Term) bool
	Sticky func(atom *Term) bool

	// NoInline lists functions of the repository that are treated as opaque
	// operations, by name.
	NoInline map[string]bool
	// Override models functions in a way that a specification wants.
	Override map[string]Prim

	// Generic lists functions whose results are not distinguished by their
	// arguments, only by the place of the call.
	Generic map[string]bool

	// ("*": all) Unroll lists functions whose loops are followed iteration by iteration:
	// their conditions are decided by constants.
	Unroll map[string]bool

	// Notes describe where the analysis lost precision in ways that matter.
	Notes map[string]bool

	// Statistics
	Funcs  map[string]bool
	Blocks int
	Calls  int
	Opaque map[string]int

	// InlineBodies lists the message body types whose encoder and decoder are
	// analysed rather than modelled.
	InlineBodies map[string]bool

	// Plain selects terms whose known truth or nilness does not separate states.
	Plain func(t *Term) bool

	// OnRecv, if set, is told of received messages.
	OnRecv func(s *State, msg *Term)

	// Recover says that deferred calls are followed when a function panics.
	Recover bool

	// Depth bounds how deep a function is followed into itself, and calls at
	// all (0: 2, 40).
	Depth, Stack int

	// Trace, if set, is told of every block analysed.
	Trace func(fn string, block, states int, key string)

	// Observe, if set, is told of calls, before they are made.
	Observe func(c *Call)

	// Ghost, if set, advances a specification variable at calls, before they
	// are made.  States that differ in it are kept apart.
	Ghost func(c *Call, g *Term) *Term

	objType map[string]types.Type
	made    map[string]int // numbers given to objects where loops are followed
	ctxIDs  map[string]int
	infos   map[*ssa.Function]*fnInfo
	funcs   map[string]*ssa.Function
	sites   map[string]bool
	stack   []*ssa.Function
	budget  int
	filling bool
}

// New makes an interpreter.
func New(p *load.Program) *Interp {
	return &Interp{
		P:      p,
		Sticky: func(*Term) bool { return false },
		NoInline: map[string]bool{
			"newKeyShare": true, "keyAgreement": true, "sign": true, "verify": true,
		},
		InlineBodies: map[string]bool{"FinishedBody": true, "EndOfEarlyDataBody": true, "Extension": true, "ExtensionList": true, "HandshakeMessage": true},
		Notes:        map[string]bool{},
		Funcs:        map[string]bool{},
		Opaque:       map[string]int{},
		objType:      map[string]types.Type{},
		made:         map[string]int{},
		ctxIDs:       map[string]int{},
		infos:        map[*ssa.Function]*fnInfo{},
		funcs:        map[string]*ssa.Function{},
		sites:        map[string]bool{},
		budget:       4000000,
	}
}

// An Outcome is one way in which a call ends.
type Outcome struct {
	S   *State
	Ret *Term // a tuple term
	// Panic says that the call does not return.
	Panic bool
	Pos   token.Pos
}

// Result is the i-th result of an outcome.
func (o *Outcome) Result(i int) *Term { return o.Ret.Args[i] }

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

type path struct {
	s      *State
	env    map[ssa.Value]*Term
	defers []deferred
	mode   map[*ssa.BasicBlock]byte // 'u'nrolled or 's'ymbolic, for loops being executed
}

func (p *path) clone() *path {
	c := &path{s: p.s.clone(), env: make(map[ssa.Value]*Term, len(p.env)+4), defers: p.defers, mode: p.mode}
	for k, v := range p.env {
		c.env[k] = v
	}
	return c
}

func (p *path) setMode(h *ssa.BasicBlock, m byte) {
	n := map[*ssa.BasicBlock]byte{}
	for k, v := range p.mode {
		n[k] = v
	}
	if m == 0 {
		delete(n, h)
	} else {
		n[h] = m
	}
	p.mode = n
}

// ShortName names a function without the module path.
func ShortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/bifurcation/mint.", "")
	return strings.ReplaceAll(s, "github.com/bifurcation/mint/", "")
}

func fnName(fn *ssa.Function) string { return ShortName(fn.RelString(nil)) }

func (in *Interp) ctx(parent int, what string) int {
	k := strconv.Itoa(parent) + "/" + what
	id, ok := in.ctxIDs[k]
	if !ok {
		id = len(in.ctxIDs) + 1
		in.ctxIDs[k] = id
	}
	return id
}

// Ctx names a calling context for Run.
func (in *Interp) Ctx(name string) int { return in.ctx(0, name) }

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	fi := in.infos[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		in.infos[fn] = fi
	}
	return fi
}

// NewObject makes an abstract object with the given content.
func (in *Interp) NewObject(s *State, id string, t types.Type, content *Term) *Term {
	in.objType[id] = t
	s.heap[id] = content
	return ptrTo(id)
}

// Store writes memory.
func (in *Interp) Store(s *State, p, v *Term) { in.store(s, p, v) }

// Load reads memory.
func (s *State) Load(p *Term) *Term { return s.load(p) }

// Clone copies a state.
func (s *State) Clone() *State { return s.clone() }

// Run analyses a call of fn.
func (in *Interp) Run(fn *ssa.Function, args []*Term, s *State, ctx int, roots []*Term) []*Outcome {
	return in.run(fn, args, nil, s, ctx, roots)
}

// RunValue analyses a call of a function value.
func (in *Interp) RunValue(f *Term, args []*Term, s *State, ctx int) []*Outcome {
	fn := in.funcs[f.Aux]
	if fn == nil || f.Op != "func" && f.Op != "closure" {
		return nil
	}
	return in.run(fn, args, f.Args, s, ctx, nil)
}

type entry struct {
	ins, backs map[string]*path // contributions, for loop heads apart
	inK, backK []string
	cur        *path // the state last analysed
	dirty      bool
	visits     int
	id         string
	block      *ssa.BasicBlock
	gives      map[contrib]bool // contributions made by this entry
}

type contrib struct {
	to   *entry // nil for outcomes
	out  string
	slot string
}

func put(m *map[string]*path, ks *[]string, slot string, p *path) {
	if *m == nil {
		*m = map[string]*path{}
	}
	if _, ok := (*m)[slot]; !ok {
		*ks = append(*ks, slot)
	}
	(*m)[slot] = p
}

func drop(m map[string]*path, ks *[]string, slot string) bool {
	if _, ok := m[slot]; !ok {
		return false
	}
	delete(m, slot)
	for i, k := range *ks {
		if k == slot {
			*ks = append(append([]string(nil), (*ks)[:i]...), (*ks)[i+1:]...)
			break
		}
	}
	return true
}

type outEntry struct {
	slots map[string]*Outcome
	keys  []string
}

type fnRun struct {
	in    *Interp
	fn    *ssa.Function
	fi    *fnInfo
	ctx   int
	roots []*Term
	tab   map[*ssa.BasicBlock]map[string]*entry
	keys  map[*ssa.BasicBlock][]string
	outs  map[string]*outEntry
	okeys []string

	cur  *entry           // being analysed
	made map[contrib]bool // contributions of this visit
	nid  int
}

func (in *Interp) run(fn *ssa.Function, args, fv []*Term, s *State, ctx int, roots []*Term) []*Outcome {
	in.Funcs[fnName(fn)] = true
	in.Calls++
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	r := &fnRun{in: in, fn: fn, fi: in.info(fn), ctx: ctx, roots: roots,
		tab:  map[*ssa.BasicBlock]map[string]*entry{},
		keys: map[*ssa.BasicBlock][]string{},
		outs: map[string]*outEntry{},
		made: map[contrib]bool{},
	}
	p := &path{s: s.clone(), env: map[ssa.Value]*Term{}, mode: map[*ssa.BasicBlock]byte{}}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("call of %s with %d arguments", fn, len(args)))
	}
	for i, a := range args {
		p.env[fn.Params[i]] = a
	}
	for i, f := range fn.FreeVars {
		p.env[f] = fv[i]
	}
	r.add(fn.Blocks[0], p, false, "start")
	for {
		// next dirty block in order
		var next *ssa.BasicBlock
		for b := range r.tab {
			if next != nil && r.fi.order[b] >= r.fi.order[next] {
				continue
			}
			for _, e := range r.tab[b] {
				if e.dirty {
					next = b
					break
				}
			}
		}
		if next == nil {
			break
		}
		for _, k := range append([]string(nil), r.keys[next]...) {
			e := r.tab[next][k]
			if e == nil || !e.dirty {
				continue
			}
			e.dirty = false
			n := r.state(e)
			if n == nil || e.cur != nil && samePath(e.cur, n) {
				continue
			}
			e.cur = n
			e.visits++
			in.Blocks++
			if in.Trace != nil {
				in.Trace(fnName(fn), next.Index, len(r.keys[next]), k)
			}
			if in.Blocks > in.budget {
				in.Notes["analysis budget exceeded in "+fnName(fn)] = true
				return nil
			}
			old := e.gives
			r.cur, r.made = e, map[contrib]bool{}
			r.block(next, n.clone())
			e.gives = r.made
			for c := range old {
				if !e.gives[c] {
					r.withdraw(c)
				}
			}
			if r.fi.loops[next] != nil {
				// the loop's own blocks first
				break
			}
		}
	}
	var outs []*Outcome
	for _, k := range r.okeys {
		oe := r.outs[k]
		var o *Outcome
		for _, slot := range oe.keys {
			if o == nil {
				o = oe.slots[slot]
			} else {
				o = in.joinOutcomes(o, oe.slots[slot])
			}
		}
		if o != nil {
			outs = append(outs, o)
		}
	}
	return outs
}

// state joins the contributions to an entry.
func (r *fnRun) state(e *entry) *path {
	wide := e.visits > 20
	all := func(m map[string]*path, ks []string) *path {
		var p *path
		for _, k := range ks {
			if p == nil {
				p = m[k]
			} else {
				p, _ = r.in.joinPath(p, m[k], false, wide)
			}
		}
		return p
	}
	a, b := all(e.ins, e.inK), all(e.backs, e.backK)
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	}
	n, _ := r.in.joinPath(a, b, true, wide)
	return n
}

// withdraw takes back a contribution that a later visit did not repeat.
func (r *fnRun) withdraw(c contrib) {
	if c.to == nil {
		oe := r.outs[c.out]
		if _, ok := oe.slots[c.slot]; ok {
			delete(oe.slots, c.slot)
			for i, k := range oe.keys {
				if k == c.slot {
					oe.keys = append(append([]string(nil), oe.keys[:i]...), oe.keys[i+1:]...)
					break
				}
			}
		}
		return
	}
	e := c.to
	if e.visits > 30 {
		// what has been contributed stays, so that the analysis ends
		return
	}
	if drop(e.ins, &e.inK, c.slot) || drop(e.backs, &e.backK, c.slot) {
		if len(e.inK)+len(e.backK) == 0 {
			gives := e.gives
			e.gives, e.cur, e.dirty = nil, nil, false
			for g := range gives {
				r.withdraw(g)
			}
			return
		}
		e.dirty = true
	}
}

// add contributes a path to the states at the entry of b.
func (r *fnRun) add(b *ssa.BasicBlock, p *path, back bool, slot string) {
	live := r.fi.liveIn[b]
	for v := range p.env {
		if !live[v] {
			delete(p.env, v)
		}
	}
	coarse := p.mode[b] == 's'
	k := ""
	if r.in.Unroll["*"] && len(b.Preds) == 1 && r.cur != nil {
		// What comes from different states stays apart.
		for n := 0; ; n++ {
			k = fmt.Sprintf("%s/%s/%d", r.cur.id, slot, n)
			if e := r.tab[b][k]; e == nil || !r.made[contrib{to: e, slot: r.cur.id + "/" + slot}] {
				break
			}
		}
	} else {
		k = r.key(p, b, coarse)
	}
	tab := r.tab[b]
	if tab == nil {
		tab = map[string]*entry{}
		r.tab[b] = tab
	}
	e := tab[k]
	if e == nil {
		r.nid++
		e = &entry{id: strconv.Itoa(r.nid), block: b}
		tab[k] = e
		r.keys[b] = append(r.keys[b], k)
		if len(r.keys[b]) > 3000 {
			r.in.Notes["too many states in "+fnName(r.fn)] = true
		}
	}
	if r.cur != nil {
		slot = r.cur.id + "/" + slot
	}
	m, ks := &e.ins, &e.inK
	if r.fi.loops[b] != nil && back {
		m, ks = &e.backs, &e.backK
	}
	c := contrib{to: e, slot: slot}
	if old, ok := (*m)[slot]; ok && r.made[c] {
		p, _ = r.in.joinPath(old, p, false, false)
	}
	put(m, ks, slot, p)
	r.made[c] = true
	e.dirty = true
}

func samePath(a, b *path) bool {
	if len(a.env) != len(b.env) || len(a.s.heap) != len(b.s.heap) || len(a.s.facts) != len(b.s.facts) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.s.heap {
		if b.s.heap[k] != v {
			return false
		}
	}
	for k, v := range a.s.facts {
		if w, ok := b.s.facts[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (in *Interp) joinPath(a, b *path, fill, wide bool) (*path, bool) {
	changed := false
	n := &path{env: make(map[ssa.Value]*Term, len(a.env)), defers: a.defers, mode: a.mode}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			changed = true
			continue
		}
		j := in.join(v, w, fill, wide)
		n.env[k] = j
		changed = changed || j != v
	}
	var ch bool
	n.s, ch = in.joinState(a.s, b.s, fill, wide)
	return n, changed || ch
}

func (in *Interp) join(a, b *Term, fill, wide bool) *Term {
	if a == b {
		return a
	}
	if wide || fill && b.Op == "cat" && (b.Args[0].Op == "unk" || b.Contains(a)) {
		return mk("unk", "wide")
	}
	if fill {
		in.filling = true
		defer func() { in.filling = false }()
	}
	return in.joinTerm(a, b)
}

func (in *Interp) joinState(a, b *State, fill, wide bool) (*State, bool) {
	changed := false
	n := NewState()
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			if k[0] != '@' {
				n.heap[k] = v
				continue
			}
			w = original(k)
		}
		j := in.join(v, w, fill, wide)
		n.heap[k] = j
		changed = changed || j != v
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			if k[0] == '@' {
				v = in.join(original(k), v, fill, wide)
			}
			n.heap[k] = v
			changed = true
		}
	}
	for k, v := range a.facts {
		if k.Op == "or" {
			continue
		}
		if w, ok := b.facts[k]; ok && w == v {
			n.facts[k] = v
		} else {
			changed = true
		}
	}
	if in.Clause != nil {
		in.joinClauses(a, b, n)
	}
	for k := range a.facts {
		if k.Op == "or" && !n.facts[k] {
			changed = true
		}
	}
	return n, changed
}

// clauses lists the disjunctions that are kept at joins: those of the facts
// selected by Clause.
func (in *Interp) clauses(s *State) [][]*Term {
	var out [][]*Term
	for f, v := range s.facts {
		switch {
		case f.Op == "or":
			out = append(out, f.Args)
		case in.Clause(f):
			if !v {
				f = mk("not", "", f)
			}
			out = append(out, []*Term{f})
		}
	}
	return out
}

func (in *Interp) joinClauses(a, b, n *State) {
	ca := in.clauses(a)
	if len(ca) == 0 {
		return
	}
	cb := in.clauses(b)
	holds := func(l *Term) bool {
		if l.Op == "not" {
			v, ok := n.facts[l.Args[0]]
			return ok && !v
		}
		return n.facts[l]
	}
	for _, x := range ca {
		for _, y := range cb {
			set := map[*Term]bool{}
			for _, l := range append(append([]*Term(nil), x...), y...) {
				set[l] = true
			}
			if len(set) > 3 {
				continue
			}
			trivial := false
			var ls []*Term
			for l := range set {
				ls = append(ls, l)
				trivial = trivial || holds(l) || l.Op == "not" && set[l.Args[0]]
			}
			if trivial || len(ls) < 2 {
				continue
			}
			sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
			n.facts[mk("or", "", ls...)] = true
		}
	}
}

// MergeStates joins two states.
func (in *Interp) MergeStates(a, b *State) *State {
	n, _ := in.joinState(a, b, false, false)
	return n
}

// Keys

var ptrMemo = map[*Term][]string{}

func ptrsOf(t *Term) []string {
	if r, ok := ptrMemo[t]; ok {
		return r
	}
	set := map[string]bool{}
	t.Walk(func(x *Term) {
		if x.Op == "ptr" {
			set[x.Aux] = true
		}
	})
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	ptrMemo[t] = r
	return r
}

// gc drops objects that cannot be reached from the given terms.
func (s *State) gc(roots []*Term) {
	seen := map[string]bool{}
	var stack []string
	push := func(t *Term) {
		for _, id := range ptrsOf(t) {
			if !seen[id] {
				seen[id] = true
				stack = append(stack, id)
			}
		}
	}
	for _, t := range roots {
		push(t)
	}
	for k, v := range s.heap {
		if k[0] == '@' || k[0] == '#' {
			push(v)
		}
	}
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if v, ok := s.heap[id]; ok {
			push(v)
		}
	}
	for k := range s.heap {
		if k[0] != '@' && k[0] != '#' && !seen[k] {
			delete(s.heap, k)
		}
	}
}

func (r *fnRun) key(p *path, b *ssa.BasicBlock, coarse bool) string {
	var vals []ssa.Value
	for v := range p.env {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	terms := make([]*Term, 0, len(vals)+len(r.roots))
	for _, v := range vals {
		terms = append(terms, p.env[v])
	}
	terms = append(terms, r.roots...)
	for _, d := range p.defers {
		terms = append(terms, d.args...)
		terms = append(terms, d.fn)
	}
	p.s.gc(terms)
	k := r.in.Key(p.s, terms, coarse)
	var ms []string
	for h, m := range p.mode {
		ms = append(ms, fmt.Sprintf("%d%c", h.Index, m))
	}
	sort.Strings(ms)
	return k + "|" + strings.Join(ms, ",") + fmt.Sprintf("|%d", len(p.defers))
}

// Key describes the control-relevant part of a state: states with the same
// key are merged.
func (in *Interp) Key(s *State, terms []*Term, coarse bool) string {
	k := &keyer{in: in, s: s, coarse: coarse, seen: map[string]int{}}
	for _, t := range terms {
		k.term(t, 0)
		k.b.WriteByte(';')
	}
	var st []string
	for f, v := range s.facts {
		if in.Sticky(f) {
			st = append(st, fmt.Sprintf("%d%v", f.ID, v))
		}
	}
	if in.Unroll["*"] {
		for id, v := range s.heap {
			st = append(st, fmt.Sprintf("%s=%d", id, v.ID))
		}
	}
	sort.Strings(st)
	k.b.WriteString(strings.Join(st, ","))
	if g := s.heap["#ghost"]; g != nil {
		fmt.Fprintf(&k.b, "#%d", g.ID)
	}
	return k.b.String()
}

type keyer struct {
	in     *Interp
	s      *State
	coarse bool
	b      strings.Builder
	seen   map[string]int
}

func (k *keyer) term(t *Term, depth int) {
	b := &k.b
	if depth > 12 {
		b.WriteByte('#')
		return
	}
	switch t.Op {
	case "const":
		if _, ok := t.IsInt(); ok && k.coarse {
			b.WriteByte('i')
			return
		}
		if v, ok := t.IsStr(); ok && len(v) > 64 {
			b.WriteByte('s')
			return
		}
		b.WriteString(t.Aux)
		return
	case "nil":
		b.WriteString("nil")
		return
	case "ptr":
		if n, ok := k.seen[t.Aux]; ok {
			fmt.Fprintf(b, "^%d.%d", n, len(t.Args))
			return
		}
		k.seen[t.Aux] = len(k.seen)
		b.WriteString("&")
		b.WriteString(t.Aux)
		for _, a := range t.Args {
			fmt.Fprintf(b, ".%d", a.ID)
		}
		if c, ok := k.s.heap[t.Aux]; ok {
			k.term(c, depth+1)
		}
		return
	case "struct", "arr", "tuple":
		b.WriteByte('{')
		for _, a := range t.Args {
			k.term(a, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
		return
	case "iface":
		b.WriteByte('(')
		b.WriteString(t.Aux)
		k.term(t.Args[0], depth+1)
		b.WriteByte(')')
		return
	case "hashstate", "hmacstate", "closure", "func":
		fmt.Fprintf(b, "H%d", t.ID)
		return
	case "list", "bag":
		if strings.Contains(t.Aux, "HandshakeAction") {
			b.WriteByte('[')
			for _, a := range t.Args {
				k.term(a, depth+1)
				b.WriteByte(',')
			}
			b.WriteByte(']')
			return
		}
		b.WriteByte('N')
		for _, id := range ptrsOf(t) {
			if _, ok := k.seen[id]; !ok {
				k.term(ptrTo(id), depth+1)
			}
		}
		return
	case "slice":
		b.WriteByte('N')
		if t.Aux != "byte" {
			k.term(ptrTo(t.Args[0].Aux), depth+1)
		}
		return
	case "extset", "mapc", "arrsym", "cat", "zeros", "bufv", "errval", "hash", "hmac", "hkdfx", "hkdfl", "enc", "rand":
		b.WriteByte('N')
		return
	case "alt":
		b.WriteByte('A')
		return
	}
	if k.in.Plain != nil && k.in.Plain(t) {
		b.WriteByte('?')
		return
	}
	if v, ok := k.s.facts[t]; ok {
		if v {
			b.WriteByte('T')
		} else {
			b.WriteByte('F')
		}
		return
	}
	if v, ok := k.s.facts[mkEq(t, Nil)]; ok {
		if v {
			b.WriteString("nil")
		} else {
			b.WriteByte('N')
		}
		return
	}
	b.WriteByte('?')
}

// fresh makes the name of an object unique where loops are followed iteration
// by iteration.
func (in *Interp) fresh(s *State, id string) string {
	if in.Unroll["*"] {
		base, n := id, in.made[id]
		if n > 0 {
			id = fmt.Sprintf("%s'%d", base, n)
		}
		for s.heap[id] != nil {
			n++
			id = fmt.Sprintf("%s'%d", base, n)
		}
		in.made[base] = n + 1
	}
	return id
}

// Blocks

func (r *fnRun) block(b *ssa.BasicBlock, p *path) {
	r.instrs(b, 0, p)
}

func (r *fnRun) instrs(b *ssa.BasicBlock, from int, p *path) {
	in := r.in
	for i := from; i < len(b.Instrs); i++ {
		switch instr := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			// Phis are set on the way in.
		case *ssa.Alloc:
			id := fmt.Sprintf("%s.%s#%d", fnName(r.fn), instr.Name(), r.ctx)
			if instr.Heap {
				id = in.fresh(p.s, id)
			}
			t := instr.Type().Underlying().(*types.Pointer).Elem()
			in.objType[id] = t
			p.s.heap[id] = Zero(t)
			p.env[instr] = ptrTo(id)
		case *ssa.Store:
			in.store(p.s, r.val(p, instr.Addr), r.val(p, instr.Val))
		case *ssa.MapUpdate:
			r.mapUpdate(p, instr)
		case *ssa.If:
			cond := r.val(p, instr.Cond)
			if v, ok := p.s.Eval(cond); ok {
				if v {
					r.edge(p, b, 0)
				} else {
					r.edge(p, b, 1)
				}
				return
			}
			if cond.Op == "alt" || cond.Op == "unk" {
				q := p.clone()
				r.edge(p, b, 0)
				r.edge(q, b, 1)
				return
			}
			q := p.clone()
			if p.s.Assume(cond, true) {
				r.edge(p, b, 0)
			}
			if q.s.Assume(cond, false) {
				r.edge(q, b, 1)
			}
			return
		case *ssa.Jump:
			r.edge(p, b, 0)
			return
		case *ssa.Return:
			args := make([]*Term, len(instr.Results))
			for j, v := range instr.Results {
				args[j] = r.val(p, v)
			}
			r.ret(p, mk("tuple", "", args...), instr.Pos())
			return
		case *ssa.Panic:
			r.panics(p, &Outcome{S: p.s, Ret: mk("tuple", "", r.val(p, instr.X)), Panic: true, Pos: instr.Pos()}, i, b)
			return
		case *ssa.RunDefers:
			ds := p.defers
			p.defers = nil
			paths := []*path{p}
			for j := len(ds) - 1; j >= 0; j-- {
				var next []*path
				for _, q := range paths {
					for _, o := range r.invoke(q, ds[j].call, ds[j].fn, ds[j].args, i, b) {
						if o.Panic {
							r.out(o)
							continue
						}
						nq := q.clone()
						nq.s = o.S
						next = append(next, nq)
					}
				}
				paths = next
			}
			for _, q := range paths {
				r.instrs(b, i+1, q)
			}
			return
		case *ssa.Defer:
			fn, args := r.callee(p, &instr.Call)
			p.defers = append(append([]deferred(nil), p.defers...), deferred{instr, fn, args})
		case *ssa.Go:
			// Goroutines are not followed.
		case *ssa.Send:
		case *ssa.Call:
			if r.calls(b, i, p, instr) {
				return
			}
		case ssa.Value:
			outs := r.eval(p, instr)
			if outs == nil {
				break
			}
			for _, q := range outs {
				r.instrs(b, i+1, q)
			}
			return
		default:
			panic(fmt.Sprintf("instruction %T", instr))
		}
	}
}

// panics unwinds the function: deferred calls are made, one of which may
// recover.
func (r *fnRun) panics(p *path, o *Outcome, i int, b *ssa.BasicBlock) {
	if !r.in.Recover || len(p.defers) == 0 {
		r.out(o)
		return
	}
	o.S.heap["#panic"] = o.Ret.Args[0]
	ds := p.defers
	p.defers = nil
	p.s = o.S
	paths := []*path{p}
	for j := len(ds) - 1; j >= 0; j-- {
		var next []*path
		for _, q := range paths {
			for _, o := range r.invoke(q, ds[j].call, ds[j].fn, ds[j].args, i, b) {
				if o.Panic {
					r.out(o)
					continue
				}
				nq := q.clone()
				nq.s = o.S
				next = append(next, nq)
			}
		}
		paths = next
	}
	for _, q := range paths {
		if v, still := q.s.heap["#panic"]; still {
			r.out(&Outcome{S: q.s, Ret: mk("tuple", "", v), Panic: true, Pos: o.Pos})
			continue
		}
		if r.fn.Recover == nil {
			res := r.fn.Signature.Results()
			vals := make([]*Term, res.Len())
			for k := range vals {
				vals[k] = Zero(res.At(k).Type())
			}
			r.out(&Outcome{S: q.s, Ret: mk("tuple", "", vals...), Pos: o.Pos})
			continue
		}
		r.instrs(r.fn.Recover, 0, q)
	}
}

// calls executes a call; it reports true if it has finished the block.
func (r *fnRun) calls(b *ssa.BasicBlock, i int, p *path, call *ssa.Call) bool {
	fn, args := r.callee(p, &call.Call)
	outs := r.invoke(p, call, fn, args, i, b)
	n := call.Call.Signature().Results().Len()
	live := outs[:0:0]
	for _, o := range outs {
		if o.Panic {
			q := p
			if r.in.Recover {
				q = p.clone()
			}
			r.panics(q, o, i, b)
			continue
		}
		live = append(live, o)
	}
	if len(live) == 0 {
		return true
	}
	for j, o := range live {
		q := p
		if j < len(live)-1 {
			q = p.clone()
		}
		q.s = o.S
		switch n {
		case 0:
		case 1:
			q.env[call] = o.Ret.Args[0]
		default:
			q.env[call] = o.Ret
		}
		if len(live) == 1 {
			return false
		}
		r.instrs(b, i+1, q)
	}
	return true
}

func (r *fnRun) ret(p *path, t *Term, pos token.Pos) {
	// Conditions that are returned are decided here, so that what is known
	// about them is not lost.
	for i, a := range t.Args {
		if isCond(a) {
			if v, ok := p.s.Eval(a); ok {
				t = setArg(t, i, Bool(v))
				continue
			}
			q := &path{s: p.s.clone()}
			if p.s.Assume(a, true) {
				r.ret(p, setArg(t, i, True), pos)
			}
			if q.s.Assume(a, false) {
				r.ret(q, setArg(t, i, False), pos)
			}
			return
		}
	}
	r.out(&Outcome{S: p.s, Ret: t, Pos: pos})
}

func setArg(t *Term, i int, v *Term) *Term {
	args := append([]*Term(nil), t.Args...)
	args[i] = v
	return mkT(t.Op, t.Aux, t.Typ, args...)
}

func isCond(t *Term) bool {
	switch t.Op {
	case "eq", "lt", "not", "eqb", "hasext", "mapok", "istype":
		return true
	}
	return false
}

func (r *fnRun) out(o *Outcome) {
	terms := append([]*Term{o.Ret}, r.roots...)
	o.S.gc(terms)
	k := r.in.Key(o.S, terms, false)
	if o.Panic {
		k = "panic" + k
	}
	oe := r.outs[k]
	if oe == nil {
		oe = &outEntry{slots: map[string]*Outcome{}}
		r.outs[k] = oe
		r.okeys = append(r.okeys, k)
	}
	slot := "start"
	if r.cur != nil {
		slot = r.cur.id
	}
	c := contrib{out: k, slot: slot}
	if old, ok := oe.slots[slot]; ok {
		if r.made[c] {
			o = r.in.joinOutcomes(old, o)
		}
	} else {
		oe.keys = append(oe.keys, slot)
	}
	oe.slots[slot] = o
	r.made[c] = true
}

func (in *Interp) joinOutcomes(old, o *Outcome) *Outcome {
	s, _ := in.joinState(old.S, o.S, false, false)
	ret := in.joinTerm(old.Ret, o.Ret)
	if old.Ret.Op == "tuple" && o.Ret.Op == "tuple" && len(old.Ret.Args) == len(o.Ret.Args) {
		args := make([]*Term, len(o.Ret.Args))
		for i := range args {
			args[i] = in.joinTerm(old.Ret.Args[i], o.Ret.Args[i])
		}
		ret = mk("tuple", "", args...)
	}
	return &Outcome{S: s, Ret: ret, Panic: o.Panic, Pos: o.Pos}
}

// Edges

func (r *fnRun) lv(h *ssa.BasicBlock) *Term {
	return mk("lv", fmt.Sprintf("%s.%d#%d", fnName(r.fn), h.Index, r.ctx))
}

func (r *fnRun) edge(p *path, b *ssa.BasicBlock, si int) {
	t := b.Succs[si]
	pi := -1
	n := 0
	for i, x := range b.Succs[:si] {
		_ = i
		if x == t {
			n++
		}
	}
	for i, x := range t.Preds {
		if x == b {
			if n == 0 {
				pi = i
				break
			}
			n--
		}
	}
	// Values of phis
	type assign struct {
		phi *ssa.Phi
		v   *Term
	}
	var as []assign
	for _, instr := range t.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, assign{phi, r.val(p, phi.Edges[pi])})
	}
	// Conditions are decided here, so that what is known about them is not
	// lost at the join.
	for i, a := range as {
		if isCond(a.v) {
			if v, ok := p.s.Eval(a.v); ok {
				as[i].v = Bool(v)
				continue
			}
			q := p.clone()
			if p.s.Assume(a.v, true) {
				r.edge(p, b, si)
			}
			if q.s.Assume(a.v, false) {
				r.edge(q, b, si)
			}
			return
		}
	}
	// Leaving loops
	for _, l := range r.fi.in[b] {
		if !l.body[t] {
			p.setMode(l.head, 0)
		}
	}
	back := false
	if l := r.fi.loops[t]; l != nil {
		back = l.body[b] && t.Dominates(b)
		lv := r.lv(t)
		past := mk("past", lv.Aux)
		if !back {
			mode := byte('s')
			if r.unrollable(p, l, func(phi *ssa.Phi) *Term {
				for _, a := range as {
					if a.phi == phi {
						return a.v
					}
				}
				return nil
			}) {
				mode = 'u'
			}
			p.setMode(t, mode)
			if mode == 's' {
				r.rename(p, map[*Term]*Term{lv: past})
				for i, a := range as {
					if step, ok := l.induc[a.phi]; ok {
						as[i].v = Add(rewrite(a.v, map[*Term]*Term{lv: past}, map[*Term]*Term{}), mulConst(lv, step), 1)
					}
				}
			}
		} else if p.mode[t] == 's' {
			// The values carried around, before renaming.
			for _, a := range as {
				if _, ok := l.induc[a.phi]; !ok {
					p.env[a.phi] = a.v
				} else {
					delete(p.env, a.phi)
				}
			}
			live := r.fi.liveIn[t]
			for v := range p.env {
				if !live[v] {
					delete(p.env, v)
				}
			}
			var roots []*Term
			for _, v := range p.env {
				roots = append(roots, v)
			}
			p.s.gc(append(roots, r.roots...))
			uses := func(x *Term) bool {
				for _, v := range p.env {
					if v.Contains(x) {
						return true
					}
				}
				for _, v := range p.s.heap {
					if v.Contains(x) {
						return true
					}
				}
				return false
			}
			if uses(lv) {
				m := map[*Term]*Term{lv: past}
				if uses(past) {
					// Two iterations' values are live: forget which.
					r.rename(p, map[*Term]*Term{past: mk("unk", "index")})
				}
				r.rename(p, m)
			} else {
				for f := range p.s.facts {
					if f.Contains(lv) {
						delete(p.s.facts, f)
					}
				}
			}
			var as2 []assign
			for _, a := range as {
				if step, ok := l.induc[a.phi]; ok {
					// init + step*lv, as in the state the loop was entered with
					if init, ok := r.initOf(t, a.phi, step); ok {
						as2 = append(as2, assign{a.phi, init})
					} else {
						as2 = append(as2, assign{a.phi, mk("unk", "induction")})
					}
				}
			}
			as = as2
		}
	}
	for _, a := range as {
		p.env[a.phi] = a.v
	}
	r.add(t, p, back, strconv.Itoa(si))
}

// initOf finds the induction variable's value in the states that entered the
// loop.
func (r *fnRun) initOf(h *ssa.BasicBlock, phi *ssa.Phi, step int64) (*Term, bool) {
	var v *Term
	for _, k := range r.keys[h] {
		e := r.tab[h][k]
		for _, slot := range e.inK {
			p := e.ins[slot]
			if p.mode[h] != 's' {
				continue
			}
			x := p.env[phi]
			if x == nil {
				// not live
				return mk("unk", "dead"), true
			}
			if v == nil {
				v = x
			} else if v != x {
				return nil, false
			}
		}
	}
	return v, v != nil
}

func (r *fnRun) unrollable(p *path, l *loopInfo, init func(*ssa.Phi) *Term) bool {
	if r.in.Unroll["*"] || r.in.Unroll[fnName(r.fn)] {
		return true
	}
	for _, t := range l.tests {
		i := init(t.phi)
		if i == nil {
			continue
		}
		if _, ok := i.IsInt(); !ok {
			continue
		}
		b := r.boundOf(p, t.bound)
		if b == nil {
			continue
		}
		if n, ok := b.IsInt(); ok && n <= 64 {
			return true
		}
	}
	return false
}

// peek is what a value that is read from memory in a loop is at its start.
func (r *fnRun) peek(p *path, v ssa.Value) *Term {
	if x := p.env[v]; x != nil {
		return x
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if x := r.peek(p, v.X); x != nil {
				return p.s.load(x)
			}
		}
	case *ssa.FieldAddr:
		if x := r.peek(p, v.X); x != nil {
			return fieldAddr(x, structType(v.X.Type()).Field(v.Field).Name())
		}
	}
	return nil
}

func (r *fnRun) boundOf(p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return r.val(p, v)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if x := r.peek(p, v.Call.Args[0]); x != nil {
				return p.s.lenOf(x)
			}
		}
	case *ssa.Convert:
		if x := r.boundOf(p, v.X); x != nil {
			return x
		}
	}
	return p.env[v]
}

func (r *fnRun) rename(p *path, m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for k, v := range p.env {
		p.env[k] = rewrite(v, m, memo)
	}
	p.s.rename(m, memo)
}

func (s *State) rename(m, memo map[*Term]*Term) {
	for k, v := range s.heap {
		s.heap[k] = rewrite(v, m, memo)
	}
	for f, v := range s.facts {
		g := rewrite(f, m, memo)
		if g == f {
			continue
		}
		delete(s.facts, f)
		forgotten := false
		for to := range m {
			_ = to
		}
		g.Walk(func(x *Term) {
			if x.Op == "unk" {
				forgotten = true
			}
		})
		if _, isb := g.IsBool(); !forgotten && !isb {
			s.facts[g] = v
		}
	}
}

// Values

func (r *fnRun) val(p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Zero(v.Type())
		}
		if b, ok := under(v.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.Value.Kind() == constant.Float {
			return constTerm(constant.ToInt(v.Value))
		}
		return constTerm(v.Value)
	case *ssa.Global:
		return mk("glob", ShortName(v.RelString(nil)))
	case *ssa.Function:
		n := fnName(v)
		r.in.funcs[n] = v
		return mk("func", n)
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	panic(fmt.Sprintf("%s: no value for %s = %s", r.fn, v.Name(), v))
}

// lenOf is the length of a value that may refer to memory.
// LenOf is the length of a value.
func (s *State) LenOf(x *Term) *Term { return s.lenOf(x) }

func (s *State) lenOf(x *Term) *Term {
	switch x.Op {
	case "ptr":
		return Len0(s.load(x))
	case "mapref":
		return mk("len", "", s.load(x))
	}
	return Len(x)
}

func intBits(t types.Type) (bits int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// eval executes an instruction that yields a value.  It returns nil if p was
// updated in place, and otherwise the resulting paths.
func (r *fnRun) eval(p *path, v ssa.Value) []*path {
	in := r.in
	set := func(t *Term) []*path {
		p.env[v] = t
		return nil
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return set(in.binop(p.s, v.Op, r.val(p, v.X), r.val(p, v.Y), v.X.Type(), v.Type()))
	case *ssa.UnOp:
		x := r.val(p, v.X)
		switch v.Op {
		case token.MUL:
			return set(p.s.load(x))
		case token.NOT:
			return set(Not(x))
		case token.SUB:
			return set(mulConst(x, -1))
		case token.XOR:
			return set(mk("binop", "^", x))
		case token.ARROW:
			if v.CommaOk {
				return set(mk("tuple", "", mk("unk", "recv"), mk("unk", "recv")))
			}
			return set(mk("unk", "recv"))
		}
	case *ssa.ChangeType:
		return set(r.val(p, v.X))
	case *ssa.ChangeInterface:
		return set(r.val(p, v.X))
	case *ssa.MakeInterface:
		x := r.val(p, v.X)
		return set(mkT("iface", "", v.X.Type(), x))
	case *ssa.Convert:
		return set(in.convert(p.s, r.val(p, v.X), v.X.Type(), v.Type()))
	case *ssa.SliceToArrayPointer:
		return set(r.val(p, v.X))
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		n := fnName(fn)
		in.funcs[n] = fn
		args := make([]*Term, len(v.Bindings))
		for i, b := range v.Bindings {
			args[i] = r.val(p, b)
		}
		return set(mk("closure", n, args...))
	case *ssa.MakeMap:
		id := in.fresh(p.s, fmt.Sprintf("%s.%s#%d", fnName(r.fn), v.Name(), r.ctx))
		in.objType[id] = v.Type()
		p.s.heap[id] = mk("mapc", "")
		return set(ptrTo(id))
	case *ssa.MakeChan:
		return set(mk("unk", "chan"))
	case *ssa.MakeSlice:
		id := in.fresh(p.s, fmt.Sprintf("%s.%s#%d", fnName(r.fn), v.Name(), r.ctx))
		n := r.val(p, v.Len)
		et := elemType(v.Type())
		in.objType[id] = types.NewSlice(et)
		aux := ""
		if isByteSeq(v.Type()) {
			aux = "byte"
			p.s.heap[id] = mk("zeros", "", n)
			if n == Int(0) {
				return set(Empty)
			}
		} else if k, ok := n.IsInt(); ok && k == 0 {
			return set(mk("list", typeName(et)))
		} else if ok && k <= 16 {
			args := make([]*Term, k)
			for i := range args {
				args[i] = Zero(et)
			}
			p.s.heap[id] = mk("arr", "", args...)
		} else {
			p.s.heap[id] = mk("arrsym", "", n, Zero(et))
		}
		return set(mk("slice", aux, ptrTo(id), Int(0), n))
	case *ssa.Slice:
		return set(r.slice(p, v))
	case *ssa.FieldAddr:
		st := structType(v.X.Type())
		return set(fieldAddr(r.val(p, v.X), st.Field(v.Field).Name()))
	case *ssa.Field:
		st := structType(v.X.Type())
		return set(normFld(r.val(p, v.X), st.Field(v.Field).Name()))
	case *ssa.IndexAddr:
		return set(indexAddr(r.val(p, v.X), r.val(p, v.Index)))
	case *ssa.Index:
		return set(p.s.elem(r.val(p, v.X), r.val(p, v.Index)))
	case *ssa.Lookup:
		return r.lookup(p, v)
	case *ssa.Range:
		return set(mk("range", fmt.Sprintf("%s.%s#%d", fnName(r.fn), v.Name(), r.ctx), p.s.Pure(r.mapVal(p, r.val(p, v.X)))))
	case *ssa.Next:
		return set(r.next(p, v))
	case *ssa.TypeAssert:
		return r.typeAssert(p, v)
	case *ssa.Extract:
		t := r.val(p, v.Tuple)
		if t.Op == "tuple" {
			return set(t.Args[v.Index])
		}
		return set(mk("res", strconv.Itoa(v.Index), t))
	case *ssa.Select:
		n := v.Type().(*types.Tuple).Len()
		args := make([]*Term, n)
		for i := range args {
			args[i] = mk("unk", "select")
		}
		return set(mk("tuple", "", args...))
	}
	panic(fmt.Sprintf("%s: cannot evaluate %T %s", r.fn, v, v))
}

// normFld is fldName with the facts about the repository's tables that are
// checked elsewhere: an entry of the cipher suite table names its own suite.
func normFld(x *Term, name string) *Term {
	if x.Op == "mapget" && name == "Suite" && x.Args[0].Op == "gval" && x.Args[0].Aux == "cipherSuiteMap" {
		return x.Args[1]
	}
	return fldName(x, name)
}

// TypeName is the name of a type in terms.
func TypeName(t types.Type) string { return typeName(t) }

func typeName(t types.Type) string { return ShortName(t.String()) }

func (r *fnRun) mapVal(p *path, m *Term) *Term {
	if m.Op == "ptr" {
		return p.s.load(m)
	}
	return m
}

func (r *fnRun) slice(p *path, v *ssa.Slice) *Term {
	x := r.val(p, v.X)
	aux := ""
	if isByteSeq(v.Type()) {
		aux = "byte"
	}
	var one func(x *Term) *Term
	one = func(x *Term) *Term {
		if x.Op == "alt" {
			args := make([]*Term, len(x.Args))
			for i, a := range x.Args {
				args[i] = one(a)
			}
			return Alt(args...)
		}
		lo := Int(0)
		if v.Low != nil {
			lo = r.val(p, v.Low)
		}
		var hi *Term
		if v.High != nil {
			hi = r.val(p, v.High)
		}
		if pt, ok := under(v.X.Type()).(*types.Pointer); ok {
			n := Int(under(pt.Elem()).(*types.Array).Len())
			if hi == nil {
				hi = n
			}
			if x.Op == "ptr" || x.Op == "fptr" || x.Op == "glob" {
				return mk("slice", aux, x, lo, hi)
			}
			return mk("sl", "", mk("deref", "", x), lo, hi)
		}
		if x.Op == "slice" {
			if hi == nil {
				hi = Add(x.Args[2], x.Args[1], -1)
			}
			return mk("slice", aux, x.Args[0], Add(x.Args[1], lo, 1), Add(x.Args[1], hi, 1))
		}
		if hi == nil {
			hi = Len(x)
		}
		return subBytes(x, lo, hi)
	}
	return one(x)
}

func (r *fnRun) mapUpdate(p *path, v *ssa.MapUpdate) {
	m, k, val := r.val(p, v.Map), r.val(p, v.Key), r.val(p, v.Value)
	k = p.s.Pure(k)
	if m.Op != "ptr" {
		r.in.store(p.s, mk("mapkey", "", m, k), val)
		return
	}
	c := p.s.load(m)
	if c.Op != "mapc" {
		r.in.store(p.s, m, mk("unk", "map"))
		return
	}
	if lvOf(k) != nil {
		mm := map[*Term]*Term{lvOf(k): Idx}
		memo := map[*Term]*Term{}
		k, val = rewrite(k, mm, memo), rewrite(val, mm, memo)
	}
	args := append([]*Term(nil), c.Args...)
	for i := 0; i+1 < len(args); i += 2 {
		if args[i] == k {
			args[i+1] = val
			r.in.store(p.s, m, mk("mapc", c.Aux, args...))
			return
		}
	}
	r.in.store(p.s, m, mk("mapc", c.Aux, append(args, k, val)...))
}

func lvOf(t *Term) *Term {
	var r *Term
	t.Walk(func(x *Term) {
		if x.Op == "lv" {
			r = x
		}
	})
	return r
}

func (r *fnRun) lookup(p *path, v *ssa.Lookup) []*path {
	x, k := r.val(p, v.X), p.s.Pure(r.val(p, v.Index))
	if _, ok := under(v.X.Type()).(*types.Map); !ok {
		p.env[v] = p.s.elem(p.s.Pure(x), k)
		return nil
	}
	res := func(q *path, val, ok *Term) *path {
		if v.CommaOk {
			q.env[v] = mk("tuple", "", val, ok)
		} else {
			q.env[v] = val
		}
		return q
	}
	m := r.mapVal(p, x)
	vt := under(v.X.Type()).(*types.Map).Elem()
	switch m.Op {
	case "nil":
		res(p, Zero(vt), False)
		return nil
	case "extfound":
		b := mk("hasext", "", m.Args[0], k)
		res(p, b, b)
		return nil
	case "mapc":
		allConst := k.isConst()
		for i := 0; i+1 < len(m.Args); i += 2 {
			if m.Args[i] == k && m.Aux != "may" {
				res(p, m.Args[i+1], True)
				return nil
			}
			allConst = allConst && m.Args[i].isConst()
		}
		if allConst && m.Aux != "may" {
			res(p, Zero(vt), False)
			return nil
		}
		var vals []*Term
		var found []*Term
		for i := 0; i+1 < len(m.Args); i += 2 {
			mk1, mv := m.Args[i], m.Args[i+1]
			if mk1.isConst() && k.isConst() && mk1 != k {
				continue
			}
			if mk1.Contains(Idx) {
				pos := mk("keyidx", "", mk1, k)
				mv = rewrite(mv, map[*Term]*Term{mk1: k, Idx: pos}, map[*Term]*Term{})
			}
			vals = append(vals, mv)
			found = append(found, mk1)
		}
		q := p.clone()
		res(q, Zero(vt), False)
		if len(vals) == 0 {
			return []*path{q}
		}
		if len(found) == 1 {
			fk := found[0]
			if fk.Op == "elem" && fk.Args[1] == Idx {
				p.s.Assume(mk("member", "", fk.Args[0], k), true)
			} else {
				p.s.Assume(Eq(fk, k), true)
			}
		}
		res(p, Alt(vals...), True)
		return []*path{p, q}
	}
	ok := mk("mapok", "", m, k)
	get := mk("mapget", "", m, k)
	if ov, has := p.s.heap[overrideKey(mk("mapkey", "", x, k))]; has {
		get, ok = ov, True
	}
	if b, isb := under(vt).(*types.Basic); isb && b.Info()&types.IsBoolean != 0 && !v.CommaOk {
		res(p, get, ok)
		return nil
	}
	res(p, get, ok)
	return nil
}

func (r *fnRun) next(p *path, v *ssa.Next) *Term {
	rng := r.val(p, v.Iter)
	// position in the innermost loop
	var lv *Term
	b := v.Block()
	for _, l := range r.fi.in[b] {
		if l.head == b || lv == nil {
			lv = r.lv(l.head)
		}
	}
	if lv == nil {
		lv = mk("unk", "next")
	}
	m := rng.Args[0]
	if v.IsString {
		return mk("tuple", "", mk("more", "", rng, lv), mk("unk", "pos"), mk("unk", "rune"))
	}
	k := mk("elem", "", mk("keys", "", m), lv)
	return mk("tuple", "", mk("more", "", rng, lv), k, mk("mapget", "", m, k))
}

func (r *fnRun) typeAssert(p *path, v *ssa.TypeAssert) []*path {
	in := r.in
	x := r.val(p, v.X)
	zero := Zero(v.AssertedType)
	_, toIface := under(v.AssertedType).(*types.Interface)
	give := func(q *path, val *Term, ok bool) *path {
		if v.CommaOk {
			q.env[v] = mk("tuple", "", val, Bool(ok))
			return q
		}
		q.env[v] = val
		return q
	}
	var outs []*path
	alts := x.Alts()
	for i, a := range alts {
		q := p
		if i < len(alts)-1 {
			q = p.clone()
		}
		if a == Nil {
			if v.CommaOk {
				outs = append(outs, give(q, zero, false))
			} else {
				r.out(&Outcome{S: q.s, Ret: mk("tuple", "", Str("type assertion")), Panic: true, Pos: v.Pos()})
			}
			continue
		}
		if a.Op == "errval" && r.in.Recover {
			// made by the errors or fmt package: of no type of others
			name := typeName(v.AssertedType)
			switch {
			case name == "error":
				outs = append(outs, give(q, a, true))
			case v.CommaOk:
				outs = append(outs, give(q, zero, false))
			default:
				r.out(&Outcome{S: q.s, Ret: mk("tuple", "", Str("type assertion")), Panic: true, Pos: v.Pos()})
			}
			continue
		}
		if a.Op == "iface" {
			ok := false
			if toIface {
				ok = types.Implements(a.Typ, under(v.AssertedType).(*types.Interface))
			} else {
				ok = types.Identical(a.Typ, v.AssertedType)
			}
			val := a.Args[0]
			if toIface {
				val = a
			}
			switch {
			case ok:
				outs = append(outs, give(q, val, true))
			case v.CommaOk:
				outs = append(outs, give(q, zero, false))
			default:
				r.out(&Outcome{S: q.s, Ret: mk("tuple", "", Str("type assertion")), Panic: true, Pos: v.Pos()})
			}
			continue
		}
		it := mk("istype", typeName(v.AssertedType), a)
		val := mk("asserted", typeName(v.AssertedType), a)
		if toIface {
			val = a
		}
		if known, ok := q.s.Eval(it); ok {
			if known {
				outs = append(outs, give(q, val, true))
			} else if v.CommaOk {
				outs = append(outs, give(q, zero, false))
			}
			continue
		}
		if v.CommaOk {
			f := q.clone()
			f.s.Assume(it, false)
			outs = append(outs, give(f, zero, false))
		}
		if q.s.Assume(it, true) {
			// a value has one dynamic type
			outs = append(outs, give(q, val, true))
		}
	}
	_ = in
	if len(outs) == 1 && outs[0] == p {
		return nil
	}
	if outs == nil {
		outs = []*path{}
	}
	return outs
}

func (in *Interp) convert(s *State, x *Term, from, to types.Type) *Term {
	if isByteSeq(from) && isByteSeq(to) {
		y := s.Pure(x)
		if y == Nil {
			return Empty
		}
		return y
	}
	fb, fs := intBits(from)
	tb, ts := intBits(to)
	if fb != 0 && tb != 0 {
		if n, ok := x.IsInt(); ok {
			if n >= 0 {
				return Conv(tb, ts, x)
			}
			return x
		}
		if tb < fb {
			return Conv(tb, ts, x)
		}
		if tb > fb && !fs {
			SetWidth(x, fb)
		}
		return x
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.String && fb != 0 {
		return mk("call", "string", x)
	}
	return x
}

func (in *Interp) binop(s *State, op token.Token, x, y *Term, opType, resType types.Type) *Term {
	if b, ok := under(opType).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x, y = s.Pure(x), s.Pure(y)
		switch op {
		case token.ADD:
			return Cat(x, y)
		case token.EQL:
			return EqB(x, y)
		case token.NEQ:
			return Not(EqB(x, y))
		}
		return mk("binop", op.String(), x, y)
	}
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if _, ok := under(opType).(*types.Array); ok && isByteSeq(opType) {
			e = EqB(x, y)
		} else {
			e = eqIface(x, y)
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS:
		return Lt(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.LEQ:
		return Not(Lt(y, x))
	case token.GEQ:
		return Not(Lt(x, y))
	}
	bits, signed := intBits(resType)
	if bits == 0 {
		return mk("binop", op.String(), x, y)
	}
	a, ok1 := x.IsInt()
	b, ok2 := y.IsInt()
	wrap := func(t *Term) *Term {
		if n, ok := t.IsInt(); ok && bits < 64 && !signed {
			return Int(n & (1<<uint(bits) - 1))
		}
		return t
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return wrap(Int(a + b))
		case token.SUB:
			return wrap(Int(a - b))
		case token.MUL:
			return wrap(Int(a * b))
		case token.QUO:
			if b != 0 {
				return Int(a / b)
			}
		case token.REM:
			if b != 0 {
				return Int(a % b)
			}
		case token.AND:
			return Int(a & b)
		case token.OR:
			return Int(a | b)
		case token.XOR:
			return Int(a ^ b)
		case token.SHL:
			if b >= 0 && b < 63 {
				return wrap(Int(a << uint(b)))
			}
		case token.SHR:
			if b >= 0 && b < 64 {
				return Int(a >> uint(b))
			}
		}
	}
	switch op {
	case token.ADD:
		return Add(x, y, 1)
	case token.SUB:
		return Add(x, y, -1)
	case token.MUL:
		if ok1 {
			return mulConst(y, a)
		}
		if ok2 {
			return mulConst(x, b)
		}
	case token.SHR:
		if ok2 && b >= 0 {
			return Shr(x, b)
		}
	case token.SHL:
		if ok2 && b >= 0 {
			return Shl(x, b, bits)
		}
	case token.OR:
		return Or(x, y)
	case token.XOR:
		return Xor(x, y)
	case token.AND:
		return And(x, y)
	}
	if op == token.MUL && x.ID > y.ID {
		x, y = y, x
	}
	return mk("binop", op.String(), x, y)
}

// eqIface compares interface values or others.
func eqIface(x, y *Term) *Term {
	if x.Op == "iface" && y.Op == "iface" {
		if x.Aux != y.Aux {
			return False
		}
		return Eq(x.Args[0], y.Args[0])
	}
	return Eq(x, y)
}

// EqB is equality of byte strings.
func EqB(x, y *Term) *Term {
	if x == Nil {
		x = Empty
	}
	if y == Nil {
		y = Empty
	}
	if x == y {
		return True
	}
	if x == Empty {
		return Eq(Len(y), Int(0))
	}
	if y == Empty {
		return Eq(Len(x), Int(0))
	}
	if x.isConst() && y.isConst() {
		return False
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return mk("eqb", "", x, y)
}
