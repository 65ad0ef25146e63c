package rules

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// The encoder and decoder of package syntax, analysed for one type at a time.

func record(fields ...interface{}) types.Type {
	var vars []*types.Var
	var tags []string
	for i := 0; i < len(fields); i += 2 {
		vars = append(vars, types.NewField(0, nil, fmt.Sprintf("F%d", i/2), fields[i].(types.Type), false))
		tag := fields[i+1].(string)
		if tag != "" {
			tag = "tls:\"" + tag + "\""
		}
		tags = append(tags, tag)
	}
	return types.NewStruct(vars, tags)
}

// engine runs the codec's function with everything followed.
func (u *unit) engine(name string, args ...*ai.Term) []*ai.Outcome {
	u.over = map[string]ai.Prim{
		"syntax.Marshal":   func(*ai.Call) ([]*ai.Outcome, bool) { return nil, false },
		"syntax.Unmarshal": func(*ai.Call) ([]*ai.Outcome, bool) { return nil, false },
	}
	u.in.Recover, u.in.Depth, u.in.Stack = true, 12, 200
	defer func() { u.in.Recover, u.in.Depth, u.in.Stack = false, 0, 0 }()
	_, outs := u.exactly(nil, name, args...)
	return outs
}

// A shape is a type with a choice of the sizes of the vectors in it, in order.
type shape struct {
	name  string
	t     types.Type
	sizes []int
	bad   bool // outside the bounds
}

// A sample is a value of a shape: its encoding and its leaves, byte by byte.
type sample struct {
	wire  []*ai.Term // the bytes, as decoded from
	bytes []*ai.Term // the bytes, as encoded to
	value *ai.Term   // what is encoded
	leaf  []string   // what is decoded
	sizes []int
	n     int
}

func (m *sample) next() int {
	if len(m.sizes) == 0 {
		return 0
	}
	n := m.sizes[0]
	m.sizes = m.sizes[1:]
	return n
}

func (m *sample) put(wire, enc *ai.Term) {
	m.wire = append(m.wire, wire)
	m.bytes = append(m.bytes, enc)
}

func (m *sample) number(v, width int) {
	for i := width - 1; i >= 0; i-- {
		b := ai.Int(int64(v >> uint(8*i) & 255))
		m.put(b, b)
	}
}

func widthOf(t types.Type) int {
	switch b, _ := t.Underlying().(*types.Basic); b.Kind() {
	case types.Uint8:
		return 1
	case types.Uint16:
		return 2
	case types.Uint32:
		return 4
	}
	return 8
}

func tagOf(tag string) (head string, min, max int) {
	for _, kv := range strings.Split(tag, ",") {
		switch {
		case strings.HasPrefix(kv, "head="):
			head = kv[5:]
		case strings.HasPrefix(kv, "min="):
			fmt.Sscan(kv[4:], &min)
		case strings.HasPrefix(kv, "max="):
			fmt.Sscan(kv[4:], &max)
		}
	}
	return
}

// fill builds the sample of a type.  It is the specification of the
// presentation language: integers are big-endian, the elements of vectors
// follow their size in bytes, and structures are the sequence of their fields.
func (m *sample) fill(t types.Type, tag string) *ai.Term {
	m.n++
	name := fmt.Sprintf("x%d", m.n)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := widthOf(t)
		v := ai.Sym(name)
		ai.SetWidth(v, 8*w)
		in := ai.Sym("in" + name)
		for i := 0; i < w; i++ {
			e := ai.Elem(in, ai.Int(int64(i)))
			ai.SetWidth(e, 8)
			m.put(e, ai.Byte(v, int64(w-1-i)))
		}
		if w == 1 {
			m.leaf = append(m.leaf, m.wire[len(m.wire)-1].String())
		} else {
			m.leaf = append(m.leaf, ai.BigEndian(in, ai.Int(0), int64(w)).String())
		}
		return v
	case *types.Array:
		var els []*ai.Term
		for i := int64(0); i < u.Len(); i++ {
			els = append(els, m.fill(u.Elem(), ""))
		}
		return sequence(u.Elem(), els)
	case *types.Slice:
		k := m.next()
		head, _, _ := tagOf(tag)
		inner := &sample{sizes: m.sizes, n: m.n}
		inner.leaf = append(inner.leaf, "[")
		var els []*ai.Term
		for i := 0; i < k; i++ {
			els = append(els, inner.fill(u.Elem(), ""))
		}
		inner.leaf = append(inner.leaf, "]")
		m.sizes, m.n = inner.sizes, inner.n
		if head != "none" {
			m.number(len(inner.wire), int(head[0]-'0'))
		}
		m.wire = append(m.wire, inner.wire...)
		m.bytes = append(m.bytes, inner.bytes...)
		m.leaf = append(m.leaf, inner.leaf...)
		return sequence(u.Elem(), els)
	case *types.Struct:
		args := make([]*ai.Term, u.NumFields())
		for i := range args {
			args[i] = m.fill(u.Field(i).Type(), reflect.StructTag(u.Tag(i)).Get("tls"))
		}
		return ai.MkT("struct", t, args...)
	}
	panic("no sample of " + t.String())
}

func sequence(t types.Type, els []*ai.Term) *ai.Term {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return byteString(els)
	}
	if len(els) == 0 {
		return ai.Nil
	}
	return ai.Mk("list", ai.TypeName(t), els...)
}

func byteString(els []*ai.Term) *ai.Term {
	parts := []*ai.Term{ai.Empty}
	for _, e := range els {
		if n, ok := e.IsInt(); ok {
			parts = append(parts, ai.Str(string([]byte{byte(n)})))
			continue
		}
		parts = append(parts, ai.Mk("byte1", "", e))
	}
	return ai.Cat(parts...)
}

// leavesOf lists a decoded value, byte by byte.
func leavesOf(t types.Type, v *ai.Term, out []string) []string {
	each := func(e types.Type) {
		n, ok := ai.Len(v).IsInt()
		if !ok {
			out = append(out, "?"+v.String())
		}
		for i := int64(0); i < n; i++ {
			out = leavesOf(e, ai.Elem(v, ai.Int(i)), out)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = leavesOf(u.Elem(), ai.Elem(v, ai.Int(i)), out)
		}
		return out
	case *types.Slice:
		out = append(out, "[")
		each(u.Elem())
		return append(out, "]")
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = leavesOf(u.Field(i).Type(), ai.Fld(v, u.Field(i).Name()), out)
		}
		return out
	}
	if v.Op == "conv" && v.Aux == "u64" {
		v = v.Args[0] // of eight bytes
	}
	return append(out, v.String())
}

// shapes are the types and sizes for which the codec is analysed: every kind
// of integer, vectors with every size of header and around their bounds, and
// nested ones.
func shapes() []shape {
	u8, u16, u32, u64 := types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32], types.Typ[types.Uint64]
	vec := func(t types.Type) types.Type { return types.NewSlice(t) }
	named := types.NewNamed(types.NewTypeName(0, nil, "Number", nil), u16, nil)
	entry := record(u16, "", vec(u8), "head=2")
	inner := record(vec(u8), "head=1,min=1", u32, "")
	var out []shape
	add := func(name string, t types.Type, bad bool, sizes ...int) {
		out = append(out, shape{name: fmt.Sprintf("%s %v", name, sizes), t: t, sizes: sizes, bad: bad})
	}
	add("integers", record(u8, "", u16, "", u32, "", u64, "", named, ""), false)
	add("arrays", record(types.NewArray(u8, 3), "", types.NewArray(u16, 2), "", types.NewArray(record(u8, "", u16, ""), 2), ""), false)
	for _, head := range []int{1, 2, 3, 4} {
		for _, n := range []int{0, 1, 3} {
			add(fmt.Sprintf("bytes with head %d", head), record(u8, "", vec(u8), fmt.Sprintf("head=%d", head), u8, ""), false, n)
			add(fmt.Sprintf("numbers with head %d", head), record(vec(named), fmt.Sprintf("head=%d", head), u8, ""), false, n)
		}
	}
	add("long bytes", record(vec(u8), "head=2", u8, ""), false, 258)
	for n := 0; n <= 6; n++ {
		add("bytes of 2 to 4", record(vec(u8), "head=1,min=2,max=4", u8, ""), n < 2 || n > 4, n)
		add("numbers of 4 to 8", record(vec(u16), "head=1,min=4,max=8", u8, ""), n < 2 || n > 4, n)
		add("bytes of at least 3", record(vec(u8), "head=2,min=3", u8, ""), n < 3, n)
		add("bytes of at most 3", record(vec(u8), "head=2,max=3", u8, ""), n > 3, n)
		add("bytes of exactly 3", record(vec(u8), "head=2,min=3,max=3", u8, ""), n != 3, n)
	}
	add("rest", record(u8, "", vec(u16), "head=none"), false, 2)
	add("entries", record(vec(entry), "head=2", u8, ""), false, 0)
	add("entries", record(vec(entry), "head=2", u8, ""), false, 1, 0)
	add("entries", record(vec(entry), "head=2", u8, ""), false, 2, 3, 1)
	add("entries", record(vec(entry), "head=2", u8, ""), false, 3, 0, 2, 1)
	add("bounded entries", record(vec(inner), "head=2,min=7", vec(inner), "head=3"), false, 1, 2, 0)
	add("bounded entries", record(vec(inner), "head=2,min=7", vec(inner), "head=3"), true, 1, 1, 0)
	add("bounded entries", record(vec(inner), "head=2,min=7", vec(inner), "head=3"), true, 2, 0, 2, 0)
	add("bounded entries", record(vec(inner), "head=2,min=7", vec(inner), "head=3"), false, 2, 2, 3, 1, 1)
	add("deep", record(vec(record(vec(record(vec(u8), "head=1", u16, "")), "head=2", u8, "")), "head=3"), false, 2, 1, 2, 2, 0, 1)
	return out
}

func isError(t *ai.Term) bool { return t.Op == "errval" || fails(t) }

// decodes analyses the decoding of one input into one type.
func decodes(c *check.Ctx, t types.Type, data *ai.Term) (*unit, *ai.Term, []*ai.Outcome) {
	u := newUnit(c)
	s := u.init.Clone()
	p := u.in.NewObject(s, "target", t, ai.Zero(t))
	u.init = s
	u.roots = []*ai.Term{p}
	return u, p, u.engine("syntax.Unmarshal", data, ai.IfaceOf(types.NewPointer(t), p))
}

func syntaxEngine(c *check.Ctx) {
	c.Rule("CODEC-DECODE", "the decoder yields the value that the input is the encoding of and reports the exact size of the encoding, whatever follows it")
	c.Rule("CODEC-STRICT", "input that ends before the value does, and a vector whose size is outside its bounds or does not fit its elements, are errors")
	c.Rule("CODEC-ENCODE", "the encoder yields integers big-endian, vectors after their size in bytes and fields in order, and refuses a vector whose size is outside its bounds")
	refuse := func(name string, t types.Type, data *ai.Term) {
		_, _, outs := decodes(c, t, data)
		for _, o := range outs {
			c.Check(isError(o.Result(1)), "CODEC-STRICT", name, o.Pos, "%s is decoded with the result %s, %s", name, clip(o.Result(0)), clip(o.Result(1)))
		}
	}
	for _, sh := range shapes() {
		m := &sample{sizes: sh.sizes}
		m.value = m.fill(sh.t, "")
		size := len(m.wire)
		fn := lookup(c.P, "syntax.Unmarshal")
		if fn == nil {
			c.Fail("CODEC-DECODE", "Unmarshal", 0, "the function syntax.Unmarshal does not exist any more")
			return
		}
		rest := []*ai.Term{ai.Sym("r1"), ai.Sym("r2")}
		if sh.t.Underlying().(*types.Struct).NumFields() == 2 && strings.HasPrefix(sh.name, "rest") {
			rest = nil
		}
		all := byteString(append(append([]*ai.Term(nil), m.wire...), rest...))
		if sh.bad {
			refuse(sh.name, sh.t, all)
		} else {
			_, p, outs := decodes(c, sh.t, all)
			c.Check(len(outs) > 0, "CODEC-DECODE", sh.name, fn.Pos(), "there is no way in which %s are decoded", sh.name)
			for _, o := range outs {
				if !c.Check(o.Result(1) == ai.Nil, "CODEC-DECODE", sh.name, o.Pos, "decoding of %s ends with the error %s", sh.name, clip(o.Result(1))) {
					continue
				}
				c.Check(o.Result(0) == ai.Int(int64(size)), "CODEC-DECODE", sh.name, o.Pos, "decoding of %s reports the size %s, it is %d", sh.name, clip(o.Result(0)), size)
				have := strings.Join(leavesOf(sh.t, o.S.Deep(o.S.Load(p)), nil), " ")
				want := strings.Join(m.leaf, " ")
				c.Check(have == want, "CODEC-DECODE", sh.name, o.Pos, "%s are decoded as %s, not %s", sh.name, have, want)
			}
			if rest != nil && size < 40 {
				for n := 0; n < size; n++ {
					refuse(fmt.Sprintf("%s cut to %d bytes", sh.name, n), sh.t, byteString(m.wire[:n]))
				}
			}
		}
		u := newUnit(c)
		outs := u.engine("syntax.Marshal", ai.IfaceOf(sh.t, m.value))
		c.Check(len(outs) > 0, "CODEC-ENCODE", sh.name, fn.Pos(), "there is no way in which %s are encoded", sh.name)
		for _, o := range outs {
			if sh.bad {
				c.Check(isError(o.Result(1)), "CODEC-ENCODE", sh.name, o.Pos, "%s, which are outside the bounds, are encoded", sh.name)
				continue
			}
			if !c.Check(o.Result(1) == ai.Nil, "CODEC-ENCODE", sh.name, o.Pos, "encoding of %s ends with the error %s", sh.name, clip(o.Result(1))) {
				continue
			}
			have, want := o.S.Deep(o.S.Pure(o.Result(0))), byteString(m.bytes)
			if have == ai.Nil {
				have = ai.Empty
			}
			c.Check(ai.Len(have) == ai.Len(want) && sameBytes(o, have, want, int64(len(m.bytes))), "CODEC-ENCODE", sh.name, o.Pos, "%s are encoded as %s, not %s", sh.name, clip(have), clip(want))
		}
	}
	// vectors whose elements do not fit
	u8, u16 := types.Typ[types.Uint8], types.Typ[types.Uint16]
	one := func(bs ...int) *ai.Term {
		var els []*ai.Term
		for _, b := range bs {
			els = append(els, ai.Int(int64(b)))
		}
		return byteString(els)
	}
	refuse("numbers of an odd size", record(types.NewSlice(u16), "head=1", u8, ""), one(3, 1, 2, 3, 4, 5))
	refuse("an entry larger than its vector", record(types.NewSlice(record(types.NewSlice(u8), "head=1")), "head=1", types.NewSlice(u8), "head=1"), one(3, 4, 1, 1, 2, 2, 2, 2))
	refuse("an entry cut by its vector", record(types.NewSlice(record(u16, "", u8, "")), "head=2", types.NewSlice(u8), "head=1"), one(0, 4, 1, 2, 3, 4, 2, 2, 2))
	// too many bytes for the header
	var many []*ai.Term
	for i := 0; i < 256; i++ {
		many = append(many, ai.Int(7))
	}
	u := newUnit(c)
	t := record(types.NewSlice(u8), "head=1")
	for _, o := range u.engine("syntax.Marshal", ai.IfaceOf(t, ai.MkT("struct", t, byteString(many)))) {
		c.Check(isError(o.Result(1)), "CODEC-ENCODE", "256 bytes with head 1", o.Pos, "256 bytes are encoded with a header of one byte")
	}
	c.Min("CODEC-STRICT", 200)
	c.Min("CODEC-DECODE", 40)
	c.Min("CODEC-ENCODE", 60)
}
