package absint

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// Reflection over values whose types are known: a reflect.Value is the term
// rv(v), a value, or rva(p), the variable at an address; a reflect.Type is
// rtype.  With this the code that encodes and decodes by reflection is analysed
// for one type at a time, as if it had been written for that type.

func rv(t types.Type, v *Term) *Term  { return mkT("rv", "", t, v) }
func rva(t types.Type, p *Term) *Term { return mkT("rva", "", t, p) }
func rtype(t types.Type) *Term        { return mkT("rtype", "", t) }

func isRV(t *Term) bool { return t.Op == "rv" || t.Op == "rva" }

func rvalue(s *State, t *Term) *Term {
	if t.Op == "rva" {
		return s.load(t.Args[0])
	}
	return t.Args[0]
}

// kindOf is the reflect.Kind of a type.
func kindOf(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return int64(reflect.Bool)
		case types.Int:
			return int64(reflect.Int)
		case types.Int8:
			return int64(reflect.Int8)
		case types.Int16:
			return int64(reflect.Int16)
		case types.Int32:
			return int64(reflect.Int32)
		case types.Int64:
			return int64(reflect.Int64)
		case types.Uint:
			return int64(reflect.Uint)
		case types.Uint8:
			return int64(reflect.Uint8)
		case types.Uint16:
			return int64(reflect.Uint16)
		case types.Uint32:
			return int64(reflect.Uint32)
		case types.Uint64:
			return int64(reflect.Uint64)
		case types.String:
			return int64(reflect.String)
		}
	case *types.Array:
		return int64(reflect.Array)
	case *types.Slice:
		return int64(reflect.Slice)
	case *types.Struct:
		return int64(reflect.Struct)
	case *types.Map:
		return int64(reflect.Map)
	case *types.Pointer:
		return int64(reflect.Ptr)
	case *types.Interface:
		return int64(reflect.Interface)
	case *types.Signature:
		return int64(reflect.Func)
	}
	return -1
}

func sizeOf(t types.Type) (int64, bool) {
	switch kindOf(t) {
	case int64(reflect.Uint8), int64(reflect.Int8), int64(reflect.Bool):
		return 1, true
	case int64(reflect.Uint16), int64(reflect.Int16):
		return 2, true
	case int64(reflect.Uint32), int64(reflect.Int32):
		return 4, true
	case int64(reflect.Uint64), int64(reflect.Int64), int64(reflect.Int), int64(reflect.Uint):
		return 8, true
	}
	return 0, false
}

// onValue is a method of reflect.Value on a known value.
func onValue(f func(c *Call, v *Term) ([]*Outcome, bool)) Prim {
	return func(c *Call) ([]*Outcome, bool) {
		if len(c.Args) == 0 || !isRV(c.Args[0]) {
			return nil, false
		}
		return f(c, c.Args[0])
	}
}

// onType is a method of reflect.Type on a known type.
func onType(f func(c *Call, t types.Type) ([]*Outcome, bool)) Prim {
	return func(c *Call) ([]*Outcome, bool) {
		if len(c.Args) == 0 || c.Args[0].Op != "rtype" {
			return nil, false
		}
		return f(c, c.Args[0].Typ)
	}
}

func (c *Call) newObject(t types.Type, content *Term) *Term {
	id := fmt.Sprintf("new@%d", c.Site)
	for c.S.heap[id] != nil {
		id += "'"
	}
	return c.In.NewObject(c.S, id, t, content)
}

func crash(c *Call, why string) ([]*Outcome, bool) {
	return []*Outcome{{S: c.S, Ret: mk("tuple", "", Str(why)), Panic: true, Pos: c.Instr.Pos()}}, true
}

// bufferAt is the content of a bytes.Buffer.
func bufferAt(s *State, p *Term) (*Term, *Term) {
	at := fieldAddr(p, "buf")
	v := s.load(at)
	if v == Nil || v.Op == "zero" {
		v = Empty
	}
	return at, bytesArg(s, v)
}

// exactBuffers tells whether buffers are followed: only while everything is.
func exactBuffers(c *Call) bool { return c.In.Unroll["*"] && c.In.Recover }

func reflectPrims() {
	elem := func(t types.Type) types.Type {
		switch u := under(t).(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		}
		return nil
	}
	more := map[string]Prim{
		"reflect.ValueOf": func(c *Call) ([]*Outcome, bool) {
			x := c.Args[0]
			if x.Op != "iface" {
				return nil, false
			}
			return one(c.S, rv(x.Typ, x.Args[0]))
		},
		"reflect.TypeOf": func(c *Call) ([]*Outcome, bool) {
			x := c.Args[0]
			if x.Op != "iface" {
				return nil, false
			}
			return one(c.S, rtype(x.Typ))
		},
		"(reflect.Value).IsValid": onValue(func(c *Call, v *Term) ([]*Outcome, bool) { return one(c.S, Bool(true)) }),
		"(reflect.Value).Kind":    onValue(func(c *Call, v *Term) ([]*Outcome, bool) { return one(c.S, Int(kindOf(v.Typ))) }),
		"(reflect.Value).Type":    onValue(func(c *Call, v *Term) ([]*Outcome, bool) { return one(c.S, rtype(v.Typ)) }),
		"(reflect.Value).IsNil": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			return one(c.S, Eq(rvalue(c.S, v), Nil))
		}),
		"(reflect.Value).Elem": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			p, ok := under(v.Typ).(*types.Pointer)
			if !ok {
				return crash(c, "Elem of no pointer")
			}
			return one(c.S, rva(p.Elem(), rvalue(c.S, v)))
		}),
		"(reflect.Value).Addr": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			if v.Op != "rva" {
				return crash(c, "Addr of no variable")
			}
			return one(c.S, rv(types.NewPointer(v.Typ), v.Args[0]))
		}),
		"(reflect.Value).Field": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			st, ok := under(v.Typ).(*types.Struct)
			i, isInt := c.Args[1].IsInt()
			if !ok || !isInt || i < 0 || int(i) >= st.NumFields() {
				return crash(c, "Field")
			}
			f := st.Field(int(i))
			if v.Op == "rva" {
				return one(c.S, rva(f.Type(), fieldAddr(v.Args[0], f.Name())))
			}
			return one(c.S, rv(f.Type(), normFld(v.Args[0], f.Name())))
		}),
		"(reflect.Value).Len": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			if a, ok := under(v.Typ).(*types.Array); ok {
				return one(c.S, Int(a.Len()))
			}
			return one(c.S, Len(c.S.Pure(rvalue(c.S, v))))
		}),
		"(reflect.Value).Index": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			et := elem(v.Typ)
			if et == nil {
				return crash(c, "Index")
			}
			x := v.Args[0]
			if _, ok := under(v.Typ).(*types.Slice); ok {
				x = rvalue(c.S, v)
				if x.Op == "slice" {
					return one(c.S, rva(et, indexAddr(x, c.Args[1])))
				}
			} else if v.Op == "rva" {
				return one(c.S, rva(et, indexAddr(x, c.Args[1])))
			}
			return one(c.S, rv(et, c.S.elem(x, c.Args[1])))
		}),
		"(reflect.Value).Uint": onValue(func(c *Call, v *Term) ([]*Outcome, bool) { return one(c.S, rvalue(c.S, v)) }),
		"(reflect.Value).SetUint": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			n, ok := sizeOf(v.Typ)
			if v.Op != "rva" || !ok {
				return crash(c, "SetUint")
			}
			c.In.store(c.S, v.Args[0], Conv(int(8*n), false, c.Args[1]))
			return []*Outcome{ret(c.S)}, true
		}),
		"(reflect.Value).Set": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			if v.Op != "rva" || !isRV(c.Args[1]) {
				return crash(c, "Set")
			}
			c.In.store(c.S, v.Args[0], rvalue(c.S, c.Args[1]))
			return []*Outcome{ret(c.S)}, true
		}),
		"(reflect.Value).SetBytes": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			if v.Op != "rva" {
				return crash(c, "SetBytes")
			}
			c.In.store(c.S, v.Args[0], c.Args[1])
			return []*Outcome{ret(c.S)}, true
		}),
		"(reflect.Value).Interface": onValue(func(c *Call, v *Term) ([]*Outcome, bool) {
			return one(c.S, mkT("iface", "", v.Typ, rvalue(c.S, v)))
		}),
		"reflect.New": func(c *Call) ([]*Outcome, bool) {
			if c.Args[0].Op != "rtype" {
				return nil, false
			}
			t := c.Args[0].Typ
			return one(c.S, rv(types.NewPointer(t), c.newObject(t, Zero(t))))
		},
		"reflect.Zero": func(c *Call) ([]*Outcome, bool) {
			if c.Args[0].Op != "rtype" {
				return nil, false
			}
			t := c.Args[0].Typ
			return one(c.S, rv(t, Zero(t)))
		},
		"reflect.MakeSlice": func(c *Call) ([]*Outcome, bool) {
			n, ok := c.Args[1].IsInt()
			if c.Args[0].Op != "rtype" || !ok || n > 512 {
				return nil, false
			}
			t := c.Args[0].Typ
			et := elem(t)
			args := make([]*Term, n)
			for i := range args {
				args[i] = Zero(et)
			}
			aux := ""
			if isByteSeq(t) {
				aux = "byte"
			}
			p := c.newObject(types.NewSlice(et), mk("arr", "", args...))
			return one(c.S, rv(t, mk("slice", aux, p, Int(0), Int(n))))
		},
		"reflect.Append": func(c *Call) ([]*Outcome, bool) {
			if !isRV(c.Args[0]) {
				return nil, false
			}
			v := rvalue(c.S, c.Args[0])
			more := c.S.Deep(c.S.Pure(c.Args[1]))
			if more.Op != "list" && more.Op != "arr" {
				return nil, false
			}
			for _, e := range more.Args {
				if !isRV(e) {
					return nil, false
				}
				var x *Term
				if isByteSeq(c.Args[0].Typ) {
					x = mk("byte1", "", rvalue(c.S, e))
				} else {
					x = mk("list", typeName(elem(c.Args[0].Typ)), rvalue(c.S, e))
				}
				v = appendTerm(c.S, v, x, c.Args[0].Typ)
			}
			return one(c.S, rv(c.Args[0].Typ, v))
		},
		"reflect.PtrTo": func(c *Call) ([]*Outcome, bool) {
			if c.Args[0].Op != "rtype" {
				return nil, false
			}
			return one(c.S, rtype(types.NewPointer(c.Args[0].Typ)))
		},
		"invoke:reflect.Type.Kind": onType(func(c *Call, t types.Type) ([]*Outcome, bool) { return one(c.S, Int(kindOf(t))) }),
		"invoke:reflect.Type.Elem": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			if e := elem(t); e != nil {
				return one(c.S, rtype(e))
			}
			return crash(c, "Elem")
		}),
		"invoke:reflect.Type.Size": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			n, ok := sizeOf(t)
			if !ok {
				return nil, false
			}
			return one(c.S, Int(n))
		}),
		"invoke:reflect.Type.Bits": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			n, ok := sizeOf(t)
			if !ok {
				return nil, false
			}
			return one(c.S, Int(8*n))
		}),
		"invoke:reflect.Type.Len": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			if a, ok := under(t).(*types.Array); ok {
				return one(c.S, Int(a.Len()))
			}
			return crash(c, "Len")
		}),
		"invoke:reflect.Type.NumField": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			if st, ok := under(t).(*types.Struct); ok {
				return one(c.S, Int(int64(st.NumFields())))
			}
			return crash(c, "NumField")
		}),
		"invoke:reflect.Type.String": onType(func(c *Call, t types.Type) ([]*Outcome, bool) { return one(c.S, Str(t.String())) }),
		"invoke:reflect.Type.Implements": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			if c.Args[1].Op != "rtype" {
				return nil, false
			}
			i, ok := under(c.Args[1].Typ).(*types.Interface)
			if !ok {
				return crash(c, "Implements")
			}
			return one(c.S, Bool(types.Implements(t, i)))
		}),
		"invoke:reflect.Type.Field": onType(func(c *Call, t types.Type) ([]*Outcome, bool) {
			st, ok := under(t).(*types.Struct)
			i, isInt := c.Args[1].IsInt()
			if !ok || !isInt || int(i) >= st.NumFields() {
				return crash(c, "Field")
			}
			sf := c.Sig.Results().At(0).Type()
			ss := under(sf).(*types.Struct)
			args := make([]*Term, ss.NumFields())
			for k := range args {
				switch ss.Field(k).Name() {
				case "Name":
					args[k] = Str(st.Field(int(i)).Name())
				case "Type":
					args[k] = rtype(st.Field(int(i)).Type())
				case "Tag":
					args[k] = Str(st.Tag(int(i)))
				default:
					args[k] = mk("unk", "field of reflect.StructField")
				}
			}
			return one(c.S, mkT("struct", "", sf, args...))
		}),
		"(reflect.StructTag).Get": func(c *Call) ([]*Outcome, bool) {
			tag, a := c.Args[0].IsStr()
			k, b := c.Args[1].IsStr()
			if !a || !b {
				return nil, false
			}
			return one(c.S, Str(reflect.StructTag(tag).Get(k)))
		},
		"strings.Split": func(c *Call) ([]*Outcome, bool) {
			x, a := c.Args[0].IsStr()
			y, b := c.Args[1].IsStr()
			if !a || !b {
				return nil, false
			}
			var parts []*Term
			for _, p := range strings.Split(x, y) {
				parts = append(parts, Str(p))
			}
			return one(c.S, mk("list", "string", parts...))
		},
		"strconv.Atoi": func(c *Call) ([]*Outcome, bool) {
			x, a := c.Args[0].IsStr()
			if !a {
				return nil, false
			}
			n, err := strconv.Atoi(x)
			if err != nil {
				return []*Outcome{ret(c.S, Int(0), mk("errval", "", Str("atoi")))}, true
			}
			return []*Outcome{ret(c.S, Int(int64(n)), Nil)}, true
		},
		"(*bytes.Buffer).Write": func(c *Call) ([]*Outcome, bool) {
			if !exactBuffers(c) {
				return nil, false
			}
			at, old := bufferAt(c.S, c.Args[0])
			data := bytesArg(c.S, c.Args[1])
			c.In.store(c.S, at, Cat(old, data))
			return []*Outcome{ret(c.S, Len(data), Nil)}, true
		},
		"(*bytes.Buffer).WriteByte": func(c *Call) ([]*Outcome, bool) {
			if !exactBuffers(c) {
				return nil, false
			}
			at, old := bufferAt(c.S, c.Args[0])
			c.In.store(c.S, at, Cat(old, mk("byte1", "", c.Args[1])))
			return []*Outcome{ret(c.S, Nil)}, true
		},
		"(*bytes.Buffer).Bytes": func(c *Call) ([]*Outcome, bool) {
			if !exactBuffers(c) {
				return nil, false
			}
			_, old := bufferAt(c.S, c.Args[0])
			return one(c.S, old)
		},
		"(*bytes.Buffer).Len": func(c *Call) ([]*Outcome, bool) {
			if !exactBuffers(c) {
				return nil, false
			}
			_, old := bufferAt(c.S, c.Args[0])
			return one(c.S, Len(old))
		},
		"(*bytes.Buffer).Next": func(c *Call) ([]*Outcome, bool) {
			if !exactBuffers(c) {
				return nil, false
			}
			at, old := bufferAt(c.S, c.Args[0])
			n, a := c.S.Pure(c.Args[1]).IsInt()
			m, b := Len(old).IsInt()
			if !a || !b {
				return nil, false
			}
			if n < 0 {
				return crash(c, "Next of a negative size")
			}
			if n > m {
				n = m
			}
			c.In.store(c.S, at, subBytes(old, Int(n), Int(m)))
			return one(c.S, subBytes(old, Int(0), Int(n)))
		},
	}
	for k, v := range more {
		if prims[k] != nil {
			panic("two models of " + k)
		}
		prims[k] = v
	}
}
