package absint

import (
	"math/bits"
	"sort"
)

// Bit-level normal forms of integer terms: a sum of terms that occupy
// disjoint bits is the same as their bitwise or, shifts distribute over it,
// and a conversion to a narrower type drops the parts above it.

// widths is the number of low bits that a term known to be unsigned and
// narrow can have set.
var widths = map[*Term]int{}

// SetWidth records that the value of t is below 2^n.
func SetWidth(t *Term, n int) {
	if t.Op == "lin" || t.isConst() {
		return
	}
	if w, ok := widths[t]; !ok || n < w {
		widths[t] = n
	}
}

const allBits = ^uint64(0)

// mask is the set of bits that can be set in t; all for unknown values.
func mask(t *Term) uint64 {
	if n, ok := t.IsInt(); ok {
		if n < 0 {
			return allBits
		}
		return uint64(n)
	}
	m := allBits
	if w, ok := widths[t]; ok && w < 64 {
		m = 1<<uint(w) - 1
	}
	switch t.Op {
	case "conv":
		if n := convBits(t.Aux); n > 0 && n < 64 {
			m &= 1<<uint(n) - 1
		}
		if t.Aux[0] == 'u' {
			// the low bits of the operand
			m &= mask(t.Args[0])
		}
	case "alt":
		u := uint64(0)
		for _, a := range t.Args {
			u |= mask(a)
		}
		m &= u
	case "binop":
		switch t.Aux {
		case "&":
			for _, a := range t.Args {
				m &= mask(a)
			}
		case "|", "^":
			u := uint64(0)
			for _, a := range t.Args {
				u |= mask(a)
			}
			m &= u
		case ">>":
			if k, ok := t.Args[1].IsInt(); ok && k >= 0 && k < 64 {
				if o := mask(t.Args[0]); o != allBits {
					m &= o >> uint(k)
				}
			}
		}
	case "lin":
		c, coef := Lin(t)
		if c < 0 {
			return m
		}
		if u, ok := disjoint(c, coef); ok {
			return m & u
		}
		sum := uint64(c)
		for a, k := range coef {
			hi, lo := bits.Mul64(mask(a), uint64(k))
			if k < 0 || hi != 0 || mask(a) == allBits {
				return m
			}
			var carry uint64
			if sum, carry = bits.Add64(sum, lo, 0); carry != 0 {
				return m
			}
		}
		m &= uint64(1)<<uint(bits.Len64(sum)) - 1
	}
	return m
}

func convBits(aux string) int {
	switch aux {
	case "u8":
		return 8
	case "u16":
		return 16
	case "u32":
		return 32
	}
	return 0
}

// disjoint is the union of the bits of the terms of a sum, if no two of them
// overlap.
func disjoint(c int64, coef map[*Term]int64) (uint64, bool) {
	if c < 0 {
		return 0, false
	}
	u := uint64(c)
	for a, k := range coef {
		if k <= 0 || bits.OnesCount64(uint64(k)) != 1 {
			return 0, false
		}
		m := mask(a)
		sh := uint(bits.TrailingZeros64(uint64(k)))
		if m == allBits || m<<sh>>sh != m || u&(m<<sh) != 0 {
			return 0, false
		}
		u |= m << sh
	}
	return u, true
}

func sortedAtoms(coef map[*Term]int64) []*Term {
	var as []*Term
	for a := range coef {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	return as
}

// parts is a sum as terms with coefficients; other terms are a sum of one.
func sumParts(t *Term) (int64, map[*Term]int64) {
	if t.Op == "lin" {
		return Lin(t)
	}
	if n, ok := t.IsInt(); ok {
		return n, nil
	}
	return 0, map[*Term]int64{t: 1}
}

// Shl is t shifted left by k in an integer type of n bits.
func Shl(t *Term, k int64, n int) *Term {
	if k == 0 {
		return t
	}
	if m := mask(t); k > 0 && k < 62 && m != allBits && m<<uint(k)>>uint(k) == m && (n >= 64 || m<<uint(k) < 1<<uint(n)) {
		return mulConst(t, 1<<uint(k))
	}
	return mk("binop", "<<", t, Int(k))
}

// Shr is the unsigned shift of t to the right by k.
func Shr(t *Term, k int64) *Term {
	if k == 0 {
		return t
	}
	if n, ok := t.IsInt(); ok && k < 64 {
		return Int(n >> uint(k))
	}
	if t.Op == "alt" {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = Shr(a, k)
		}
		return Alt(args...)
	}
	if t.Op == "binop" && t.Aux == ">>" {
		if j, ok := t.Args[1].IsInt(); ok && j >= 0 {
			return Shr(t.Args[0], j+k)
		}
	}
	if k >= 64 || mask(t) < 1<<uint(k) {
		return Int(0)
	}
	if t.Op == "lin" {
		c, coef := Lin(t)
		if _, ok := disjoint(c, coef); ok {
			sum := Int(c >> uint(k))
			for _, a := range sortedAtoms(coef) {
				j := int64(bits.TrailingZeros64(uint64(coef[a])))
				if j >= k {
					sum = Add(sum, a, 1<<uint(j-k))
				} else {
					sum = Add(sum, Shr(a, k-j), 1)
				}
			}
			return sum
		}
	}
	return mk("binop", ">>", t, Int(k))
}

// low is the low n bits of t, as far as they can be told apart.
func low(t *Term, n int) *Term {
	if t.Op != "lin" {
		return t
	}
	c, coef := Lin(t)
	m := int64(1) << uint(n)
	sum := Int(c)
	if c >= m {
		sum = Int(c & (m - 1))
	}
	for _, a := range sortedAtoms(coef) {
		if k := coef[a]; k%m != 0 {
			sum = Add(sum, a, k)
		}
	}
	return sum
}

// Or is the bitwise or.
func Or(x, y *Term) *Term {
	if x == y || y == Int(0) {
		return x
	}
	if x == Int(0) {
		return y
	}
	if mx, my := mask(x), mask(y); mx != allBits && my != allBits && mx&my == 0 {
		return Add(x, y, 1)
	}
	return nary("|", x, y)
}

// Xor is the bitwise exclusive or.
func Xor(x, y *Term) *Term {
	if x == y {
		return Int(0)
	}
	if x == Int(0) {
		return y
	}
	if y == Int(0) {
		return x
	}
	if mx, my := mask(x), mask(y); mx != allBits && my != allBits && mx&my == 0 {
		return Add(x, y, 1)
	}
	return nary("^", x, y)
}

func nary(op string, ts ...*Term) *Term {
	var flat []*Term
	for _, t := range ts {
		if t.Op == "binop" && t.Aux == op {
			flat = append(flat, t.Args...)
		} else {
			flat = append(flat, t)
		}
	}
	sort.SliceStable(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	var out []*Term
	for _, t := range flat {
		if n := len(out); n > 0 && out[n-1] == t {
			if op == "^" {
				out = out[:n-1]
			}
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return Int(0)
	case 1:
		return out[0]
	}
	return mk("binop", op, out...)
}

// And is the bitwise and.
func And(x, y *Term) *Term {
	if x == y {
		return x
	}
	for i := 0; i < 2; i++ {
		if n, ok := y.IsInt(); ok && n >= 0 {
			if n == 0 {
				return Int(0)
			}
			if m := mask(x); m != allBits && m&uint64(n) == m {
				return x
			}
			switch n {
			case 1<<8 - 1:
				return Conv(8, false, x)
			case 1<<16 - 1:
				return Conv(16, false, x)
			case 1<<32 - 1:
				return Conv(32, false, x)
			}
		}
		x, y = y, x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return mk("binop", "&", x, y)
}

// Byte is byte k of the integer t, counted from the least significant.
func Byte(t *Term, k int64) *Term { return Conv(8, false, Shr(t, 8*k)) }

// BigEndian is the number that n bytes of x from lo on stand for.
func BigEndian(x, lo *Term, n int64) *Term {
	sum := Int(0)
	for i := int64(0); i < n; i++ {
		e := Elem(x, Add(lo, Int(i), 1))
		SetWidth(e, 8)
		if k := 8 * (n - 1 - i); k < 62 {
			sum = Add(sum, e, 1<<uint(k))
		} else {
			return mk("beuint", "", subBytes(x, lo, Add(lo, Int(n), 1)))
		}
	}
	return sum
}

// FromBigEndian is the byte string that a number was read from, or nil.
func FromBigEndian(t *Term) *Term {
	if t.Op == "beuint" {
		return t.Args[0]
	}
	c, coef := sumParts(t)
	if c != 0 || len(coef) < 2 || len(coef) > 8 {
		return nil
	}
	byK := map[int64]*Term{}
	for a, k := range coef {
		byK[k] = a
	}
	var x, first *Term
	n := int64(len(coef))
	for i := int64(0); i < n; i++ {
		e := byK[1<<uint(8*(n-1-i))]
		if e == nil || e.Op != "elem" {
			return nil
		}
		if x == nil {
			x, first = e.Args[0], e.Args[1]
		} else if e.Args[0] != x || Add(first, Int(i), 1) != e.Args[1] {
			return nil
		}
	}
	return subBytes(x, first, Add(first, Int(n), 1))
}

// nonneg says that a term is certainly not negative: a sum of lengths.
func nonneg(t *Term) bool {
	if n, ok := t.IsInt(); ok {
		return n >= 0
	}
	c, coef := sumParts(t)
	if c < 0 {
		return false
	}
	for a, k := range coef {
		if k < 0 {
			return false
		}
		switch {
		case a.Op == "len", a.Op == "hsize", mask(a) != allBits:
		case a.Op == "call" && a.Call() == "AEAD.Overhead":
		default:
			return false
		}
	}
	return true
}

// NonNegative says that an integer is never below zero.
func NonNegative(t *Term) bool { return nonneg(t) }

// AEADOverhead, if not nil, is the overhead of every AEAD.
var AEADOverhead *Term

func overheadOf(a *Term) *Term {
	if AEADOverhead != nil {
		return AEADOverhead
	}
	return mk("call", "AEAD.Overhead", a)
}

// cut divides a sequence at offset at; ok is false if the offset cannot be
// located.
func cut(x, at *Term) (a, b *Term, ok bool) {
	if at == Int(0) {
		return Empty, x, true
	}
	n := Len0(x)
	if at == n {
		return x, Empty, true
	}
	if x.Op != "cat" {
		if !nonneg(at) || !nonneg(Add(n, at, -1)) {
			return nil, nil, false
		}
		return subBytes(x, Int(0), at), subBytes(x, at, n), true
	}
	// boundaries first
	off := Int(0)
	for i, p := range x.Args {
		if off == at {
			return Cat(x.Args[:i]...), Cat(x.Args[i:]...), true
		}
		off = Add(off, Len(p), 1)
	}
	off = Int(0)
	for i, p := range x.Args {
		d := Add(at, off, -1)
		if !nonneg(d) {
			return nil, nil, false
		}
		next := Add(off, Len(p), 1)
		if nonneg(Add(next, at, -1)) {
			l, r, ok := cut(p, d)
			if !ok {
				return nil, nil, false
			}
			return Cat(append(append([]*Term(nil), x.Args[:i]...), l)...),
				Cat(append([]*Term{r}, x.Args[i+1:]...)...), true
		}
		off = next
	}
	return nil, nil, false
}

// splice is the byte sequence x with src in place of what was at off.
func splice(x, off, src *Term) (*Term, bool) {
	l, rest, ok := cut(x, off)
	if !ok {
		return nil, false
	}
	_, r, ok := cut(rest, Len(src))
	if !ok {
		return nil, false
	}
	return Cat(l, src, r), true
}

// elemAt is the element of a concatenation at i.
func elemAt(x, i *Term) (*Term, bool) {
	off := Int(0)
	for _, p := range x.Args {
		d := Add(i, off, -1)
		if !nonneg(d) {
			return nil, false
		}
		if nonneg(Add(Add(Len(p), d, -1), Int(1), -1)) {
			if p.Op == "byte1" {
				return p.Args[0], true
			}
			return Elem(p, d), true
		}
		off = Add(off, Len(p), 1)
	}
	return nil, false
}

// Canon is a byte sequence with the parts of known small length given byte by
// byte.
func Canon(t *Term) *Term {
	parts := []*Term{t}
	if t.Op == "cat" {
		parts = t.Args
	}
	var out []*Term
	for _, p := range parts {
		n, ok := Len(p).IsInt()
		switch {
		case ok && p.Op == "uintb":
			for k := n - 1; k >= 0; k-- {
				out = append(out, mk("byte1", "", Byte(p.Args[0], k)))
			}
		case ok && p.Op == "sl" && n <= 64 && p.Args[0].Op != "cat":
			for k := int64(0); k < n; k++ {
				out = append(out, mk("byte1", "", Elem(p, Int(k))))
			}
		default:
			out = append(out, p)
		}
	}
	return Cat(out...)
}

// Authenticated encryption

func aeadPrims() {
	const aead = "invoke:crypto/cipher.AEAD."
	prims[aead+"Overhead"] = func(c *Call) ([]*Outcome, bool) { return one(c.S, overheadOf(c.Args[0])) }
	prims[aead+"Seal"] = func(c *Call) ([]*Outcome, bool) {
		v := mk("seal", "", c.Args[0], bytesArg(c.S, c.Args[2]), bytesArg(c.S, c.Args[3]), bytesArg(c.S, c.Args[4]))
		return []*Outcome{ret(c.S, c.into(c.S, c.Args[1], v))}, true
	}
	prims[aead+"Open"] = func(c *Call) ([]*Outcome, bool) {
		v := mk("open", "", c.Args[0], bytesArg(c.S, c.Args[2]), bytesArg(c.S, c.Args[3]), bytesArg(c.S, c.Args[4]))
		return c.fallible(v, func(s *State) []*Term {
			if c.errUsed() {
				s.Assume(mk("ok", "", v), true)
			}
			return []*Term{c.into(s, c.Args[1], v)}
		}), true
	}
}

// into appends v to the slice dst, in place if there is room.
func (c *Call) into(s *State, dst, v *Term) *Term {
	before := s.Pure(dst)
	if dst.Op == "slice" {
		p, lo, hi := dst.Args[0], dst.Args[1], dst.Args[2]
		room := Add(Add(Len0(s.load(p)), hi, -1), Len(v), -1)
		switch n, ok := room.IsInt(); {
		case ok && n < 0:
			// a new array is allocated
		case ok || nonneg(room):
			c.In.storeBytes(s, mk("slice", dst.Aux, p, hi, Add(hi, Len(v), 1)), v)
			return mk("slice", dst.Aux, p, lo, Add(hi, Len(v), 1))
		default:
			c.In.store(s, p, mk("unk", "aead buffer", room, s.load(p), v))
		}
	}
	return Cat(before, v)
}

// Elem is an element of a sequence.
func (s *State) Elem(x, i *Term) *Term { return s.elem(x, i) }
