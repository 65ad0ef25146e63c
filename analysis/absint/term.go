// Package absint is an interprocedural abstract interpreter over the SSA form
// of the repository.
//
// Its domain is that of value-flow analyses: every program value is
// approximated by a term over the program's inputs and the results of opaque
// operations (Herbrand equivalence), memory by one content term per abstract
// object (allocation site and calling context), and the control decisions
// that hold on all paths to a point by a set of facts.  At control-flow joins
// abstract states with the same control-relevant components are merged; terms
// that differ become sets of alternatives and facts that do not hold on both
// sides are dropped.  Loops are iterated to a fixpoint.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed abstract value.  Two terms are the same value if and
// only if they are the same pointer.
type Term struct {
	Op   string
	Aux  string
	Typ  types.Type // for iface, zero and struct terms
	Args []*Term
	ID   int

	loop bool // contains a loop variable
}

type interner struct {
	tab  map[string]*Term
	next int
}

var in = &interner{tab: map[string]*Term{}}

func key(op, aux string, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}

func mk(op, aux string, args ...*Term) *Term { return mkT(op, aux, nil, args...) }

// hashSizes are the output sizes of the hash functions, by crypto.Hash.
var hashSizes = map[int64]int64{3: 20, 4: 28, 5: 32, 6: 48, 7: 64}

func mkT(op, aux string, typ types.Type, args ...*Term) *Term {
	if typ != nil && aux == "" {
		aux = typ.String()
	}
	for i, a := range args {
		if a == nil {
			panic(fmt.Sprintf("nil arg %d of %s %s", i, op, aux))
		}
	}
	if op == "hsize" {
		if h, ok := args[0].IsInt(); ok && hashSizes[h] != 0 {
			return Int(hashSizes[h])
		}
	}
	k := key(op, aux, args)
	if t := in.tab[k]; t != nil {
		return t
	}
	t := &Term{Op: op, Aux: aux, Typ: typ, Args: append([]*Term(nil), args...), ID: in.next}
	in.next++
	if op == "lv" || op == "past" {
		t.loop = true
	}
	for _, a := range args {
		if a.loop {
			t.loop = true
		}
	}
	in.tab[k] = t
	return t
}

// Mk makes a term; for use by specifications.
func Mk(op, aux string, args ...*Term) *Term { return mk(op, aux, args...) }

// Constructors

var (
	True  = mk("const", "true")
	False = mk("const", "false")
	Nil   = mk("nil", "")
	Empty = mk("const", `""`)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Int(n int64) *Term     { return mk("const", strconv.FormatInt(n, 10)) }
func Str(s string) *Term    { return mk("const", strconv.Quote(s)) }
func Sym(name string) *Term { return mk("sym", name) }

func constTerm(v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return Str(constant.StringVal(v))
	case constant.Int:
		return mk("const", v.ExactString())
	}
	return mk("const", v.ExactString())
}

// IsInt reports whether t is an integer constant, and which.
func (t *Term) IsInt() (int64, bool) {
	if t.Op != "const" || t.Aux == "" || t.Aux[0] == '"' || t.Aux == "true" || t.Aux == "false" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Aux, 10, 64)
	return n, err == nil
}

// IsStr reports whether t is a string constant, and which.
func (t *Term) IsStr() (string, bool) {
	if t.Op != "const" || t.Aux == "" || t.Aux[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}

func (t *Term) IsBool() (val, ok bool) {
	switch t {
	case True:
		return true, true
	case False:
		return false, true
	}
	return false, false
}

func (t *Term) isConst() bool { return t.Op == "const" }

// String renders a term.
func (t *Term) String() string { return t.render(12) }

func (t *Term) render(depth int) string {
	if depth == 0 {
		return "…"
	}
	sub := func(args []*Term) string {
		s := make([]string, len(args))
		for i, a := range args {
			s[i] = a.render(depth - 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "sym":
		return t.Aux
	case "lv":
		return "$i"
	case "past":
		return "$p"
	case "idx":
		return "$*"
	case "fld":
		return t.Args[0].render(depth-1) + "." + t.Aux
	case "elem":
		return t.Args[0].render(depth-1) + "[" + t.Args[1].render(depth-1) + "]"
	case "res":
		return t.Args[0].render(depth-1) + "#" + t.Aux
	case "call":
		n := t.Aux
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		return n + "(" + sub(t.Args) + ")"
	case "ptr":
		return "&" + t.Aux
	case "lin":
		return "lin" + t.Aux + "(" + sub(t.Args) + ")"
	case "struct":
		return shortType(t.Aux) + "{" + sub(t.Args) + "}"
	case "iface":
		return "(" + shortType(t.Aux) + ")" + sub(t.Args)
	}
	aux := ""
	if t.Aux != "" {
		aux = ":" + shortType(t.Aux)
	}
	return t.Op + aux + "(" + sub(t.Args) + ")"
}

func shortType(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "github.com/bifurcation/mint.", ""), "github.com/bifurcation/mint/", "")
}

// Subst replaces every occurrence of from by to.
// Rewrite replaces terms.
func Rewrite(t *Term, m, memo map[*Term]*Term) *Term { return rewrite(t, m, memo) }

func Subst(t, from, to *Term) *Term {
	return rewrite(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func rewrite(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = rewrite(a, m, memo)
		changed = changed || args[i] != a
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// rebuild makes a term like t with other arguments, keeping normal forms.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		coefs, c := linParse(t.Aux)
		l := newLin()
		l.c = c
		for i, a := range args {
			l.addTerm(a, coefs[i])
		}
		return l.term()
	case "eq":
		return Eq(args[0], args[1])
	case "lt":
		return Lt(args[0], args[1])
	case "elem":
		return Elem(args[0], args[1])
	case "fld":
		return fldName(args[0], t.Aux)
	case "len":
		return Len(args[0])
	case "alt":
		return Alt(args...)
	case "cat":
		return Cat(args...)
	}
	return mkT(t.Op, t.Aux, t.Typ, args...)
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == sub {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Walk visits t and its subterms once each.
func (t *Term) Walk(f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// Linear integer terms

type lin struct {
	c     int64
	coef  map[*Term]int64
	order []*Term
}

func newLin() *lin { return &lin{coef: map[*Term]int64{}} }

func linParse(aux string) ([]int64, int64) {
	parts := strings.Split(aux, ",")
	c, _ := strconv.ParseInt(parts[0], 10, 64)
	var cs []int64
	for _, p := range parts[1:] {
		n, _ := strconv.ParseInt(p, 10, 64)
		cs = append(cs, n)
	}
	return cs, c
}

func (l *lin) addTerm(t *Term, k int64) {
	if n, ok := t.IsInt(); ok {
		l.c += n * k
		return
	}
	if t.Op == "lin" {
		cs, c := linParse(t.Aux)
		l.c += c * k
		for i, a := range t.Args {
			l.addAtom(a, cs[i]*k)
		}
		return
	}
	l.addAtom(t, k)
}

func (l *lin) addAtom(t *Term, k int64) { l.coef[t] += k }

func (l *lin) term() *Term {
	var atoms []*Term
	for t, k := range l.coef {
		if k != 0 {
			atoms = append(atoms, t)
		}
	}
	if len(atoms) == 0 {
		return Int(l.c)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	if len(atoms) == 1 && l.c == 0 && l.coef[atoms[0]] == 1 {
		return atoms[0]
	}
	aux := strconv.FormatInt(l.c, 10)
	for _, a := range atoms {
		aux += "," + strconv.FormatInt(l.coef[a], 10)
	}
	return mk("lin", aux, atoms...)
}

// Add returns a + k*b.
func Add(a, b *Term, k int64) *Term {
	l := newLin()
	l.addTerm(a, 1)
	l.addTerm(b, k)
	return l.term()
}

func mulConst(a *Term, k int64) *Term {
	l := newLin()
	l.addTerm(a, k)
	return l.term()
}

// Lin decomposes an integer term into constant and coefficients.
func Lin(t *Term) (int64, map[*Term]int64) {
	l := newLin()
	l.addTerm(t, 1)
	for a, k := range l.coef {
		if k == 0 {
			delete(l.coef, a)
		}
	}
	return l.c, l.coef
}

// Booleans

// Not negates a boolean term.
func Not(t *Term) *Term {
	if b, ok := t.IsBool(); ok {
		return Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", t)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "ptr", "iface", "struct", "errval", "closure", "func", "slice", "cat", "list", "zeros", "rep", "enc", "hash", "hmac", "rand", "hkdfx", "hkdfl", "eptr", "fptr", "concrete", "dh", "kspub", "kspriv":
		return true
	case "const":
		return t.Aux != "" && t.Aux[0] == '"' // string constants as bytes
	}
	return false
}

// IsNonNil reports whether t cannot be nil.
func (t *Term) IsNonNil() bool { return nonNil(t) }

// Eq is equality of two values.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a == Nil && nonNil(b) || b == Nil && nonNil(a) {
		return False
	}
	if a.Op == "ptr" && b.Op == "ptr" {
		return False
	}
	if a.Op == "alt" && b.Op != "alt" {
		return eqAlt(a, b)
	}
	if b.Op == "alt" && a.Op != "alt" {
		return eqAlt(b, a)
	}
	// integer equality in normal form: difference with zero
	if a.Op == "lin" || b.Op == "lin" {
		l := newLin()
		l.addTerm(a, 1)
		l.addTerm(b, -1)
		d := l.term()
		if n, ok := d.IsInt(); ok {
			return Bool(n == 0)
		}
		// keep the sides, but move the constant to one side
		if n, ok := a.IsInt(); ok {
			_ = n
			a, b = b, a
		}
		if m, ok := b.IsInt(); ok && a.Op == "lin" {
			cs, c := linParse(a.Aux)
			if len(cs) == 1 && (cs[0] == 1 || cs[0] == -1) {
				return Eq(a.Args[0], Int((m-c)*cs[0]))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	// Constants on the right.
	if a.isConst() || a == Nil {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

func eqAlt(alt, b *Term) *Term {
	var r *Term
	for _, a := range alt.Args {
		e := Eq(a, b)
		if _, ok := e.IsBool(); !ok {
			return mkEq(alt, b)
		}
		if r == nil {
			r = e
		} else if r != e {
			return mkEq(alt, b)
		}
	}
	return r
}

func mkEq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.isConst() || a == Nil {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// Lt is a < b on integers.
func Lt(a, b *Term) *Term {
	if x, ok := a.IsInt(); ok {
		if y, ok := b.IsInt(); ok {
			return Bool(x < y)
		}
	}
	if a == b {
		return False
	}
	l := newLin()
	l.addTerm(b, 1)
	l.addTerm(a, -1)
	d := l.term()
	if n, ok := d.IsInt(); ok {
		return Bool(n > 0)
	}
	// Lengths are never negative.
	if n, ok := b.IsInt(); ok {
		if a.Op == "len" && n <= 0 {
			return False
		}
		if a.Op == "len" && n == 1 {
			return Eq(a, Int(0))
		}
	}
	if n, ok := a.IsInt(); ok {
		if b.Op == "len" && n < 0 {
			return True
		}
		if b.Op == "len" && n == 0 {
			return Not(Eq(b, Int(0)))
		}
	}
	return mk("lt", "", a, b)
}

// Alt is a set of alternatives.
func Alt(ts ...*Term) *Term {
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "alt" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if !seen[t] {
			seen[t] = true
			flat = append(flat, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	for _, t := range flat {
		if t.Op == "unk" {
			return t
		}
	}
	if len(flat) > maxAlt {
		for _, t := range flat {
			if t.Op != "errval" {
				return mk("unk", "many")
			}
		}
		return mk("errval", "", mk("unk", "many"))
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	return mk("alt", "", flat...)
}

const maxAlt = 6

// Alts lists the alternatives of t.
func (t *Term) Alts() []*Term {
	if t.Op == "alt" {
		return t.Args
	}
	return []*Term{t}
}

// Byte strings and slices

// Len is the length of a slice, string or array value.
func Len(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Int(0)
	case "const":
		if s, ok := t.IsStr(); ok {
			return Int(int64(len(s)))
		}
	case "list":
		n := int64(0)
		l := newLin()
		for _, a := range t.Args {
			if a.Op == "spread" {
				l.addTerm(Len(a.Args[0]), 1)
			} else {
				n++
			}
		}
		l.c += n
		return l.term()
	case "cat":
		l := newLin()
		for _, a := range t.Args {
			l.addTerm(Len(a), 1)
		}
		return l.term()
	case "byte1":
		return Int(1)
	case "slice":
		return Add(t.Args[2], t.Args[1], -1)
	case "sl":
		return Add(t.Args[2], t.Args[1], -1)
	case "zeros":
		return t.Args[0]
	case "seal":
		return Add(Len(t.Args[2]), overheadOf(t.Args[0]), 1)
	case "open":
		return Add(Len(t.Args[2]), overheadOf(t.Args[0]), -1)
	case "rep":
		return t.Args[1]
	case "hash":
		return mk("hsize", "", t.Args[0])
	case "hmac":
		return mk("hsize", "", t.Args[0])
	case "hkdfx":
		return mk("hsize", "", t.Args[0])
	case "hkdfl":
		return t.Args[4]
	case "bufv", "arrsym":
		return t.Args[0]
	case "rand":
		return t.Args[0]
	case "uintb":
		n, _ := strconv.ParseInt(t.Aux, 10, 64)
		return Int(n)
	case "alt":
		var ls []*Term
		for _, a := range t.Args {
			ls = append(ls, Len(a))
		}
		return Alt(ls...)
	}
	return mk("len", "", t)
}

// Cat is the concatenation of byte strings.
func Cat(ts ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "cat":
			for _, a := range t.Args {
				add(a)
			}
			return
		case "nil":
			return
		case "zeros", "rep":
			if n, ok := Len(t).IsInt(); ok && n == 0 {
				return
			}
			if n, ok := Len(t).IsInt(); ok && n <= 128 && n > 0 {
				c := byte(0)
				if t.Op == "rep" {
					if v, ok := t.Args[0].IsInt(); ok {
						c = byte(v)
					} else {
						break
					}
				}
				t = Str(strings.Repeat(string([]byte{c}), int(n)))
			}
		case "byte1":
			if v, ok := t.Args[0].IsInt(); ok {
				t = Str(string([]byte{byte(v)}))
			}
		}
		if s, ok := t.IsStr(); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if p, ok := flat[n-1].IsStr(); ok {
					flat[n-1] = Str(p + s)
					return
				}
			}
		}
		flat = append(flat, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(flat) {
	case 0:
		return Empty
	case 1:
		return flat[0]
	}
	return mk("cat", "", flat...)
}

// Elem is the element of a pure sequence.
// scalarElems lists the element types, by name, that are integers or strings.
var scalarElems = map[string]bool{}

func Elem(x, i *Term) *Term {
	if x.Op == "byte1" && i == Int(0) {
		return x.Args[0]
	}
	if n, ok := i.IsInt(); ok && n >= 0 {
		switch x.Op {
		case "list":
			if int(n) < len(x.Args) {
				pure := true
				for _, a := range x.Args[:n+1] {
					pure = pure && a.Op != "spread"
				}
				if pure {
					return x.Args[n]
				}
			}
		case "arr":
			if int(n) < len(x.Args) {
				return x.Args[n]
			}
		case "const":
			if s, ok := x.IsStr(); ok && int(n) < len(s) {
				return Int(int64(s[n]))
			}
		}
	}
	switch x.Op {
	case "cat":
		if e, ok := elemAt(x, i); ok {
			return e
		}
	case "alt":
		alts := make([]*Term, len(x.Args))
		for j, a := range x.Args {
			if alts[j] = Elem(a, i); alts[j].Op == "elem" {
				return mk("elem", "", x, i)
			}
		}
		return Alt(alts...)
	case "bag":
		if !scalarElems[x.Aux] || i.Op == "unk" {
			return Alt(x.Args...)
		}
	case "list":
		// symbolic index into a literal list
		var alts []*Term
		for _, a := range x.Args {
			if a.Op == "spread" {
				alts = nil
				break
			}
			alts = append(alts, a)
		}
		if len(alts) > 0 && len(alts) <= maxAlt {
			return Alt(alts...)
		}
	case "arrsym":
		return Subst(x.Args[1], Idx, i)
	case "sl":
		return Elem(x.Args[0], Add(x.Args[1], i, 1))
	case "zeros":
		return Int(0)
	case "rep":
		return x.Args[0]
	}
	return mk("elem", "", x, i)
}

// Idx is the bound index of the element description of an arrsym term.
var Idx = mk("idx", "")

// Conv is a conversion between integer types that can lose information.
func Conv(bits int, signed bool, t *Term) *Term {
	if n, ok := t.IsInt(); ok {
		switch {
		case bits < 64 && !signed:
			return Int(n & (1<<bits - 1))
		case bits == 64:
			return t
		}
	}
	if t.Op == "alt" {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = Conv(bits, signed, a)
		}
		return Alt(args...)
	}
	if !signed && bits < 64 {
		t = low(t, bits)
		if m := mask(t); m < 1<<uint(bits) {
			return t
		}
		for t.Op == "conv" && convBits(t.Aux) >= bits {
			t = t.Args[0]
		}
	}
	aux := fmt.Sprintf("u%d", bits)
	if signed {
		aux = fmt.Sprintf("s%d", bits)
	}
	if t.Op == "conv" && t.Aux == aux {
		return t
	}
	return mk("conv", aux, t)
}

// Call is the name of the function that a call term calls, or "".
func (t *Term) Call() string {
	if t.Op != "call" {
		return ""
	}
	if i := strings.IndexByte(t.Aux, '@'); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

// Mul is the product of an integer term and a constant.
func Mul(k int64, t *Term) *Term { return Add(Int(0), t, k) }

// MkT is Mk for operations that carry a type.
func MkT(op string, t types.Type, args ...*Term) *Term { return mkT(op, "", t, args...) }
