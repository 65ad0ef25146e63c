package absint

import (
	"reflect"
	"regexp"

	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the operations whose meaning the analysis knows.  Everything else
// is either analysed (functions of the repository) or represented by an opaque
// term over its arguments.

func (c *Call) errUsed() bool {
	n := c.Sig.Results().Len()
	return resultUsed(c.Instr, n, n-1)
}

// fallible yields the outcome of an operation that can fail for reasons the
// analysis does not follow.
func (c *Call) fallible(why *Term, good func(s *State) []*Term) []*Outcome {
	n := c.Sig.Results().Len()
	if !c.errUsed() {
		vals := append(good(c.S), mk("unk", "ignored error"))
		return []*Outcome{ret(c.S, vals...)}
	}
	s := c.S.clone()
	bad := make([]*Term, n)
	for i := range bad {
		bad[i] = mk("unk", "result of failed call")
	}
	bad[n-1] = mk("errval", "", why)
	vals := append(good(c.S), Nil)
	return []*Outcome{ret(c.S, vals...), ret(s, bad...)}
}

func skip(c *Call) ([]*Outcome, bool) {
	n := c.Sig.Results().Len()
	if n == 0 {
		return one(c.S)
	}
	vals := make([]*Term, n)
	for i := range vals {
		vals[i] = mk("res", fmt.Sprint(i), mk("call", c.Name))
	}
	return one(c.S, vals...)
}

func bytesArg(s *State, t *Term) *Term {
	t = s.Pure(t)
	if t == Nil {
		return Empty
	}
	return t
}

// hashOf is the algorithm of a hash constructor value.
func hashOf(fn *Term) *Term {
	if fn.Op == "closure" && fn.Aux == "(crypto.Hash).New$bound" {
		return fn.Args[0]
	}
	return mk("hashfn", "", fn)
}

func hashObj(c *Call, content *Term) *Term {
	id := fmt.Sprintf("hash@%d", c.Site)
	c.In.objType[id] = nil
	c.S.heap[id] = content
	return ptrTo(id)
}

func hashState(s *State, recv *Term) (*Term, bool) {
	if recv.Op == "iface" {
		recv = recv.Args[0]
	}
	if recv.Op != "ptr" || len(recv.Args) != 0 {
		return nil, false
	}
	st, ok := s.heap[recv.Aux]
	if !ok || (st.Op != "hashstate" && st.Op != "hmacstate") {
		return nil, false
	}
	return st, true
}

func hashWrite(c *Call) ([]*Outcome, bool) {
	st, ok := hashState(c.S, c.Args[0])
	if !ok {
		return nil, false
	}
	b := bytesArg(c.S, c.Args[1])
	n := len(st.Args) - 1
	args := append([]*Term(nil), st.Args...)
	args[n] = Cat(args[n], b)
	c.S.heap[c.Args[0].Aux] = mk(st.Op, "", args...)
	return one(c.S, Len(b), Nil)
}

func hashSum(c *Call) ([]*Outcome, bool) {
	st, ok := hashState(c.S, c.Args[0])
	if !ok {
		return nil, false
	}
	op := strings.TrimSuffix(st.Op, "state")
	return one(c.S, Cat(bytesArg(c.S, c.Args[1]), mk(op, "", st.Args...)))
}

func hashReset(c *Call) ([]*Outcome, bool) {
	st, ok := hashState(c.S, c.Args[0])
	if !ok {
		return nil, false
	}
	n := len(st.Args) - 1
	args := append([]*Term(nil), st.Args...)
	args[n] = Empty
	c.S.heap[c.Args[0].Aux] = mk(st.Op, "", args...)
	return one(c.S)
}

func hashSize(c *Call) ([]*Outcome, bool) {
	st, ok := hashState(c.S, c.Args[0])
	if !ok {
		return nil, false
	}
	return one(c.S, mk("hsize", "", st.Args[0]))
}

// isRandomSource recognises the cryptographic random source.
func isRandomSource(t *Term) bool {
	return t.Op == "gval" && (t.Aux == "prng" || t.Aux == "crypto/rand.Reader")
}

func fill(c *Call, dst, v *Term, n *Term) []*Outcome {
	return c.fallible(v, func(s *State) []*Term {
		c.In.storeBytes(s, dst, v)
		if v.Op == "rand" && c.errUsed() {
			s.Assume(mk("ok", "", v), true)
		}
		return []*Term{n}
	})
}

func sliceLen(s *State, t *Term) *Term { return s.lenOf(t) }

// Time is monotone in nothing the analysis relies on.

// prims is filled in by init: the models refer to the interpreter.
var prims map[string]Prim

func init() {
	prims = map[string]Prim{
		"logf":             skip,
		"fmt.Printf":       skip,
		"fmt.Println":      skip,
		"fmt.Print":        skip,
		"log.Printf":       skip,
		"log.Println":      skip,
		"newHandshakeTrap": skip,
		"fmt.Errorf":       primErr,
		"errors.New":       primErr,
		"fmt.Sprintf":      func(c *Call) ([]*Outcome, bool) { return one(c.S, mk("call", "fmt.Sprintf", c.S.Deep(c.Args[0]))) },

		"(*sync.Mutex).Lock":      skip,
		"(*sync.Mutex).Unlock":    skip,
		"(*sync.RWMutex).Lock":    skip,
		"(*sync.RWMutex).Unlock":  skip,
		"(*sync.RWMutex).RLock":   skip,
		"(*sync.RWMutex).RUnlock": skip,

		"(*HandshakeContext).SetVersion":               skip,
		"(*HandshakeContext).receivedEndOfFlight":      skip,
		"(*HandshakeContext).receivedFinalFlight":      skip,
		"(*HandshakeContext).receivedHandshakeMessage": skip,

		"(crypto.Hash).New": func(c *Call) ([]*Outcome, bool) {
			return one(c.S, hashObj(c, mk("hashstate", "", c.Args[0], Empty)))
		},
		"(crypto.Hash).Size": func(c *Call) ([]*Outcome, bool) { return one(c.S, mk("hsize", "", c.Args[0])) },
		"crypto/hmac.New": func(c *Call) ([]*Outcome, bool) {
			return one(c.S, hashObj(c, mk("hmacstate", "", hashOf(c.Args[0]), bytesArg(c.S, c.Args[1]), Empty)))
		},
		"invoke:hash.Hash.Write": hashWrite,
		"invoke:io.Writer.Write": hashWrite,
		"invoke:hash.Hash.Sum":   hashSum,
		"invoke:hash.Hash.Reset": hashReset,
		"invoke:hash.Hash.Size":  hashSize,

		"HkdfExtract": func(c *Call) ([]*Outcome, bool) {
			salt := c.S.Pure(c.Args[1])
			if salt == Nil || salt == Empty {
				salt = mk("zeros", "", mk("hsize", "", c.Args[0]))
			}
			return one(c.S, mk("hkdfx", "", c.Args[0], salt, bytesArg(c.S, c.Args[2])))
		},
		"HkdfExpandLabel": func(c *Call) ([]*Outcome, bool) {
			return one(c.S, mk("hkdfl", "", c.Args[0], bytesArg(c.S, c.Args[1]), bytesArg(c.S, c.Args[2]), bytesArg(c.S, c.Args[3]), c.Args[4]))
		},

		"newKeyShare": func(c *Call) ([]*Outcome, bool) {
			g := c.Args[0]
			t := mk("kspair", fmt.Sprint(c.Site), g)
			c.In.freshen(c.S, t, nil)
			return c.fallible(t, func(s *State) []*Term {
				return []*Term{mk("kspub", "", t), mk("kspriv", "", t)}
			}), true
		},
		"keyAgreement": func(c *Call) ([]*Outcome, bool) {
			t := mk("dh", "", c.Args[0], bytesArg(c.S, c.Args[1]), bytesArg(c.S, c.Args[2]))
			return c.fallible(t, func(s *State) []*Term {
				s.Assume(mk("ok", "", t), true)
				return []*Term{t}
			}), true
		},

		"bytes.Repeat": func(c *Call) ([]*Outcome, bool) {
			x := c.S.Pure(c.Args[0])
			if s, ok := x.IsStr(); ok && len(s) == 1 {
				if s == "\x00" {
					return one(c.S, mk("zeros", "", c.Args[1]))
				}
				return one(c.S, mk("rep", "", Int(int64(s[0])), c.Args[1]))
			}
			return nil, false
		},
		"bytes.Equal":       primEqual,
		"bytes.Compare": func(c *Call) ([]*Outcome, bool) {
			e := EqB(bytesArg(c.S, c.Args[0]), bytesArg(c.S, c.Args[1]))
			if v, ok := c.S.Eval(e); ok && v {
				return one(c.S, Int(0))
			}
			var outs []*Outcome
			if q := c.S.Clone(); q.Assume(e, true) {
				outs = append(outs, ret(q, Int(0)))
			}
			for _, n := range []int64{-1, 1} {
				if q := c.S.Clone(); q.Assume(e, false) {
					outs = append(outs, ret(q, Int(n)))
				}
			}
			return outs, true
		},
		"crypto/hmac.Equal": primEqual,
		"crypto/subtle.ConstantTimeCompare": func(c *Call) ([]*Outcome, bool) {
			e := EqB(bytesArg(c.S, c.Args[0]), bytesArg(c.S, c.Args[1]))
			if v, ok := c.S.Eval(e); ok {
				if v {
					return one(c.S, Int(1))
				}
				return one(c.S, Int(0))
			}
			s := c.S.clone()
			s.Assume(e, false)
			c.S.Assume(e, true)
			return []*Outcome{ret(c.S, Int(1)), ret(s, Int(0))}, true
		},

		"invoke:io.Reader.Read": func(c *Call) ([]*Outcome, bool) {
			if !isRandomSource(c.Args[0]) {
				return nil, false
			}
			n := sliceLen(c.S, c.Args[1])
			return fill(c, c.Args[1], mk("rand", fmt.Sprint(c.Site), n), n), true
		},
		"crypto/rand.Read": func(c *Call) ([]*Outcome, bool) {
			n := sliceLen(c.S, c.Args[0])
			return fill(c, c.Args[0], mk("rand", fmt.Sprint(c.Site), n), n), true
		},
		"io.ReadFull": func(c *Call) ([]*Outcome, bool) {
			n := sliceLen(c.S, c.Args[1])
			if isRandomSource(c.Args[0]) {
				return fill(c, c.Args[1], mk("rand", fmt.Sprint(c.Site), n), n), true
			}
			return fill(c, c.Args[1], mk("readfull", fmt.Sprint(c.Site), c.S.Deep(c.Args[0]), n), n), true
		},

		"crypto/x509.NewCertPool": func(c *Call) ([]*Outcome, bool) {
			return one(c.S, hashObj(c, mk("bag", "certpool")))
		},
		"(*crypto/x509.CertPool).AddCert": func(c *Call) ([]*Outcome, bool) {
			p := c.Args[0]
			if p.Op != "ptr" {
				return nil, false
			}
			old := c.S.load(p)
			if old.Op != "bag" {
				c.S.heap[p.Aux] = mk("unk", "pool")
				return one(c.S)
			}
			e := forgetIndex(c.S.Pure(c.Args[1]))
			for _, x := range old.Args {
				if x == e {
					return one(c.S)
				}
			}
			c.S.heap[p.Aux] = mk("bag", "certpool", append(append([]*Term(nil), old.Args...), e)...)
			return one(c.S)
		},

		"(*HandshakeMessage).Marshal": func(c *Call) ([]*Outcome, bool) {
			if a := c.Args[0]; a.Op == "alt" || a.Op == "unk" {
				return one(c.S, mk("wireof", "", a))
			}
			return one(c.S, Wire(c.S, c.Args[0]))
		},

		"(*ExtensionList).Add":   primExtAdd,
		"(ExtensionList).Parse":  primExtParse,
		"(*ExtensionList).Parse": primExtParse,
		"(ExtensionList).Find":   primExtFind,
		"(*ExtensionList).Find":  primExtFind,
		"(ClientHelloBody).Truncated": func(c *Call) ([]*Outcome, bool) {
			v := c.S.Deep(c.recvValue())
			t := mk("trunc", "", v)
			return c.fallible(t, func(s *State) []*Term {
				s.Assume(mk("encodable", "", withoutPSK(v)), true)
				return []*Term{t}
			}), true
		},
		"invoke:AppExtensionHandler.Send":    primHandler,
		"invoke:AppExtensionHandler.Receive": primHandler,

		"invoke:handshakeMessageReader.ReadMessage": primReadMessage,
		"(*HandshakeLayer).ReadMessage":             primReadMessage,

		"syntax.Marshal": func(c *Call) ([]*Outcome, bool) {
			x := c.Args[0]
			if x.Op != "iface" {
				return nil, false
			}
			v := x.Args[0]
			if v.Op == "ptr" {
				v = c.S.load(v)
			}
			t := mk("enc", typeName(derefType(x.Typ)), c.S.Deep(v))
			return c.fallible(t, func(*State) []*Term { return []*Term{t} }), true
		},
		"syntax.Unmarshal": func(c *Call) ([]*Outcome, bool) {
			x := c.Args[1]
			if x.Op != "iface" || x.Args[0].Op != "ptr" {
				return nil, false
			}
			return decodeInto(c, x.Args[0], derefType(x.Typ), bytesArg(c.S, c.Args[0])), true
		},
	}
	bigPrims()
	reflectPrims()
}

func primErr(c *Call) ([]*Outcome, bool) {
	return one(c.S, mk("errval", "", Str(fmt.Sprint(c.Site))))
}

func primEqual(c *Call) ([]*Outcome, bool) {
	return one(c.S, EqB(bytesArg(c.S, c.Args[0]), bytesArg(c.S, c.Args[1])))
}

func derefType(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Wire is the encoding of a handshake message.
func Wire(s *State, p *Term) *Term {
	if p == Nil {
		return Empty
	}
	if p.Op == "alt" || p.Op == "unk" {
		return mk("wireof", "", p)
	}
	m := s.load(p)
	mt, l, b := fldName(m, "msgType"), fldName(m, "length"), s.Pure(fldName(m, "body"))
	if mt.Op == "fld" && mt.Aux == "msgType" && mt.Args[0].Op == "sym" && l == fldName(mt.Args[0], "length") && b == fldName(mt.Args[0], "body") {
		return mk("wire", "recv", mt.Args[0])
	}
	if b == Nil {
		b = Empty
	}
	// The length is a uint32; messages are far shorter than 2^32.
	if sameLen(l, Len(b)) {
		return mk("wire", "", mt, b)
	}
	return mk("wire", "", mt, b, l)
}

// withoutPSK is a ClientHello without its pre_shared_key extension.  Once one
// form of a ClientHello was encoded, the form that differs only in the binders
// inside that extension can be encoded too.
func withoutPSK(v *Term) *Term {
	if v.Op != "struct" {
		return v
	}
	args := append([]*Term(nil), v.Args...)
	for i, a := range args {
		if a.Op == "extset" {
			m := extEntries(a)
			delete(m, Int(41))
			args[i] = mkExts(m)
		}
	}
	return mkT("struct", "", v.Typ, args...)
}

func sameLen(l, n *Term) bool {
	if l == n {
		return true
	}
	if l.Op == "alt" && n.Op == "alt" && len(l.Args) == len(n.Args) {
		return Alt(convs(n.Args)...) == l
	}
	return l == Conv(32, false, n)
}

func convs(ts []*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = Conv(32, false, t)
	}
	return out
}

func (c *Call) recvValue() *Term {
	v := c.Args[0]
	if v.Op == "ptr" || v.Op == "fptr" {
		v = c.S.load(v)
	}
	return v
}

// typeConst runs the Type method of an extension or message body.
func (in *Interp) typeConst(c *Call, t types.Type, recv *Term) *Term {
	m := in.P.SSA.LookupMethod(t, in.P.Main.Types, "Type")
	if m == nil {
		return mk("unk", "type")
	}
	s := c.S.clone()
	outs := in.run(m, []*Term{recv}, nil, s, in.ctx(c.Site, "Type"), nil)
	if len(outs) == 1 && !outs[0].Panic {
		return outs[0].Ret.Args[0]
	}
	return mk("unk", "type")
}

func primExtAdd(c *Call) ([]*Outcome, bool) {
	list, body := c.Args[0], c.Args[1]
	if body.Op != "iface" {
		return nil, false
	}
	k := c.In.typeConst(c, body.Typ, body.Args[0])
	if body.Op == "iface" && body.Args[0] == Nil {
		return nil, false
	}
	v := body.Args[0]
	if v.Op == "ptr" {
		v = c.S.load(v)
	}
	val := mk("typed", typeName(derefType(body.Typ)), c.S.Deep(v))
	old := c.S.load(list)
	var m map[*Term]*Term
	switch {
	case old == Nil || old.Op == "list" && len(old.Args) == 0:
		m = map[*Term]*Term{}
	case old.Op == "extset":
		m = extEntries(old)
	default:
		m = map[*Term]*Term{}
		m[Str("unknown")] = mk("ent", "may", Str("unknown"), old)
	}
	m[k] = mk("ent", "must", k, val)
	n := mkExts(m)
	return c.fallible(val, func(s *State) []*Term {
		c.In.store(s, list, n)
		return nil
	}), true
}

// setExtVal gives the destination of an extension decoder the decoded value.
func setExtVal(c *Call, s *State, list, k, dst *Term, t types.Type) {
	v := mk("extval", typeName(t), list, k)
	c.In.store(s, dst, decoded(s, dst, t, v))
}

var minTag = regexp.MustCompile(`\bmin=([1-9][0-9]*)`)

// notEmpty records that the vectors of a decoded value that the wire format
// requires to have elements have some.
func notEmpty(s *State, t types.Type, v *Term) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := under(st.Field(i).Type()).(*types.Slice); ok && minTag.MatchString(reflect.StructTag(st.Tag(i)).Get("tls")) {
			f := mk("fld", st.Field(i).Name(), v)
			s.Assume(Eq(f, Nil), false)
		}
	}
}

// decoded describes a decoded value; a HandshakeType field is an input of the
// decoder and keeps its value.
func decoded(s *State, dst *Term, t types.Type, v *Term) *Term {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return v
	}
	old := s.load(dst)
	args := make([]*Term, st.NumFields())
	for i := range args {
		n := st.Field(i).Name()
		if n == "HandshakeType" {
			args[i] = fldName(old, n)
			continue
		}
		args[i] = mk("fld", n, v)
	}
	return mkT("struct", "", t, args...)
}

func primExtParse(c *Call) ([]*Outcome, bool) {
	list := c.S.Deep(c.recvValue())
	dsts := c.S.Pure(c.Args[1])
	if dsts.Op != "list" {
		return nil, false
	}
	return c.fallible(mk("parse", "", list), func(s *State) []*Term {
		for _, d := range dsts.Args {
			if d.Op != "iface" {
				c.In.Notes["extension destination not resolved"] = true
				continue
			}
			k := c.In.typeConst(c, d.Typ, d.Args[0])
			setExtVal(c, s, list, k, d.Args[0], derefType(d.Typ))
		}
		s.Assume(mk("parsed", "", list), true)
		return []*Term{mk("extfound", "", list)}
	}), true
}

func primExtFind(c *Call) ([]*Outcome, bool) {
	list := c.S.Deep(c.recvValue())
	d := c.Args[1]
	if d.Op != "iface" {
		return nil, false
	}
	k := c.In.typeConst(c, d.Typ, d.Args[0])
	h := mk("hasext", "", list, k)
	var outs []*Outcome
	if v, ok := c.S.Eval(h); !ok || !v {
		s := c.S.clone()
		s.Assume(h, false)
		outs = append(outs, ret(s, False, Nil))
	}
	if v, ok := c.S.Eval(h); !ok || v {
		s := c.S.clone()
		s.Assume(h, true)
		e := s.clone()
		setExtVal(c, s, list, k, d.Args[0], derefType(d.Typ))
		notEmpty(s, derefType(d.Typ), mk("extval", typeName(derefType(d.Typ)), list, k))
		if c.errUsed() {
			outs = append(outs, ret(s, True, Nil), ret(e, True, mk("errval", "", mk("find", "", list, k))))
		} else {
			outs = append(outs, ret(s, True, mk("unk", "ignored error")))
		}
	}
	return outs, true
}

// primHandler: the application's extension handler may add and read its own
// extensions but is assumed to leave the protocol's alone.
func primHandler(c *Call) ([]*Outcome, bool) {
	return c.fallible(mk("call", c.Name), func(*State) []*Term { return nil }), true
}

func primReadMessage(c *Call) ([]*Outcome, bool) {
	in := c.In
	id := fmt.Sprintf("recv@%d", c.Site)
	t := in.P.Main.Types.Scope().Lookup("HandshakeMessage")
	if t == nil {
		return nil, false
	}
	sym := mk("sym", id)
	in.freshen(c.S, sym, nil)
	c.S.heap[id] = expand(sym, t.Type())
	in.objType[id] = t.Type()
	failed := c.S.clone()
	if in.OnRecv != nil {
		in.OnRecv(c.S, sym)
	}
	noAlert := in.ConstInt("AlertNoAlert")
	res := c.Sig.Results().At(1).Type()
	if isErrorType(res) {
		return c.fallible(sym, func(*State) []*Term { return []*Term{ptrTo(id)} }), true
	}
	al := mk("sym", fmt.Sprintf("alert@%d", c.Site))
	s := failed
	for f := range s.facts {
		if f.Contains(al) {
			delete(s.facts, f)
		}
	}
	s.Assume(Eq(al, noAlert), false)
	return []*Outcome{ret(c.S, ptrTo(id), noAlert), ret(s, Nil, al)}, true
}

// ConstInt is the value of a named integer constant of the main package.
func (in *Interp) ConstInt(name string) *Term {
	c, ok := in.P.Main.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic("no constant " + name)
	}
	return constTerm(constant.ToInt(c.Val()))
}

// bodyPrim models the encoders and decoders of message and extension bodies
// as operations enc and dec on their type; that each pair agrees with the
// other and with the protocol is checked separately.
func (in *Interp) bodyPrim(c *Call, f *ssa.Function) ([]*Outcome, bool) {
	name := f.Name()
	if (name != "Marshal" && name != "Unmarshal") || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return nil, false
	}
	rt := derefType(f.Signature.Recv().Type())
	named, ok := rt.(*types.Named)
	if !ok || named.Obj().Pkg() != in.P.Main.Types {
		return nil, false
	}
	if in.InlineBodies[named.Obj().Name()] {
		return nil, false
	}
	// only types with both
	var has [2]bool
	for i := 0; i < named.NumMethods(); i++ {
		switch named.Method(i).Name() {
		case "Marshal":
			has[0] = true
		case "Unmarshal":
			has[1] = true
		}
	}
	if !has[0] || !has[1] {
		return nil, false
	}
	tn := typeName(rt)
	if name == "Marshal" {
		v := c.recvValue()
		v = c.S.Deep(v)
		t := mk("enc", tn, v)
		if ok, known := c.S.Eval(mk("encodable", "", withoutPSK(v))); known && ok {
			return []*Outcome{ret(c.S, t, Nil)}, true
		}
		return c.fallible(t, func(*State) []*Term { return []*Term{t} }), true
	}
	return decodeInto(c, c.Args[0], rt, bytesArg(c.S, c.Args[1])), true
}

func decodeInto(c *Call, dst *Term, t types.Type, data *Term) []*Outcome {
	tn := typeName(t)
	v := mk("dec", tn, data)
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "HandshakeType" {
				v = mk("dec", tn, data, fldName(c.S.load(dst), "HandshakeType"))
			}
		}
	}
	return c.fallible(v, func(s *State) []*Term {
		c.In.store(s, dst, decoded(s, dst, t, v))
		s.Assume(mk("ok", "", v), true)
		return []*Term{mk("rlen", tn, data)}
	})
}
