package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/check"
)

func init() {
	check.Register(&check.Prop{ID: "C26", Explanation: "The value of every named protocol constant, the wire layout of every structure that is encoded or decoded (from its type and tags) and the correspondence of the layout's positions to the fields of the message, both ways, must be those of the specification.", Run: func(c *check.Ctx) {
		constants(c)
		layouts(c)
		codePoints(c)
		headers(c)
		syntaxEngine(c)
	}})
}

// protocolConstants are the values of RFC 8446 (and RFC 7919, 8422, 9147 for
// what those define), by the exported name the library gives them.
var protocolConstants = map[string]int64{
	"RecordTypeAlert": 21, "RecordTypeHandshake": 22, "RecordTypeApplicationData": 23, "RecordTypeAck": 25,
	"HandshakeTypeClientHello": 1, "HandshakeTypeServerHello": 2, "HandshakeTypeNewSessionTicket": 4, "HandshakeTypeEndOfEarlyData": 5,
	"HandshakeTypeHelloRetryRequest": 6, "HandshakeTypeEncryptedExtensions": 8, "HandshakeTypeCertificate": 11, "HandshakeTypeCertificateRequest": 13,
	"HandshakeTypeCertificateVerify": 15, "HandshakeTypeFinished": 20, "HandshakeTypeKeyUpdate": 24, "HandshakeTypeMessageHash": 254,
	"TLS_AES_128_GCM_SHA256": 0x1301, "TLS_AES_256_GCM_SHA384": 0x1302, "TLS_CHACHA20_POLY1305_SHA256": 0x1303, "TLS_AES_128_CCM_SHA256": 0x1304, "TLS_AES_128_CCM_8_SHA256": 0x1305,
	"RSA_PKCS1_SHA1": 0x0201, "RSA_PKCS1_SHA256": 0x0401, "RSA_PKCS1_SHA384": 0x0501, "RSA_PKCS1_SHA512": 0x0601,
	"ECDSA_P256_SHA256": 0x0403, "ECDSA_P384_SHA384": 0x0503, "ECDSA_P521_SHA512": 0x0603,
	"RSA_PSS_SHA256": 0x0804, "RSA_PSS_SHA384": 0x0805, "RSA_PSS_SHA512": 0x0806, "Ed25519": 0x0807, "Ed448": 0x0808,
	"ExtensionTypeServerName": 0, "ExtensionTypeSupportedGroups": 10, "ExtensionTypeSignatureAlgorithms": 13, "ExtensionTypeALPN": 16,
	"ExtensionTypePreSharedKey": 41, "ExtensionTypeEarlyData": 42, "ExtensionTypeSupportedVersions": 43, "ExtensionTypeCookie": 44,
	"ExtensionTypePSKKeyExchangeModes": 45, "ExtensionTypeKeyShare": 51,
	"P256": 23, "P384": 24, "P521": 25, "X25519": 29, "X448": 30,
	"FFDHE2048": 256, "FFDHE3072": 257, "FFDHE4096": 258, "FFDHE6144": 259, "FFDHE8192": 260,
	"PSKModeKE": 0, "PSKModeDHEKE": 1,
	"KeyUpdateNotRequested": 0, "KeyUpdateRequested": 1,
	"AlertCloseNotify": 0, "AlertUnexpectedMessage": 10, "AlertBadRecordMAC": 20, "AlertRecordOverflow": 22, "AlertHandshakeFailure": 40,
	"AlertBadCertificate": 42, "AlertUnsupportedCertificate": 43, "AlertCertificateRevoked": 44, "AlertCertificateExpired": 45, "AlertCertificateUnknown": 46,
	"AlertIllegalParameter": 47, "AlertUnknownCA": 48, "AlertAccessDenied": 49, "AlertDecodeError": 50, "AlertDecryptError": 51,
	"AlertProtocolVersion": 70, "AlertInsufficientSecurity": 71, "AlertInternalError": 80, "AlertInappropriateFallback": 86, "AlertUserCanceled": 90,
	"AlertMissingExtension": 109, "AlertUnsupportedExtension": 110, "AlertUnrecognizedName": 112, "AlertUnknownPSKIdentity": 115, "AlertCertificateRequired": 116, "AlertNoApplicationProtocol": 120,
	// not exported, but with the meaning their names tell
	"tls13Version": 0x0304, "tls12Version": 0x0303, "tls10Version": 0x0301, "dtls12WireVersion": 0xfefd,
}

// helloRetrySentinel is the SHA-256 hash of "HelloRetryRequest".
const helloRetrySentinel = "\xcf\x21\xad\x74\xe5\x9a\x61\x11\xbe\x1d\x8c\x02\x1e\x65\xb8\x91\xc2\xa2\x11\x16\x7a\xbb\x8c\x5e\x07\x9e\x09\xe2\xc8\xa8\x33\x9c"

func constants(c *check.Ctx) {
	c.Rule("VALUE", "every named constant of the protocol has the value the specification gives it")
	scope := c.P.Main.Types.Scope()
	names := make([]string, 0, len(protocolConstants))
	for n := range protocolConstants {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(k.Val()))
		c.Check(exact && v == protocolConstants[n], "VALUE", n, k.Pos(), "%s is %d, the specification has %d", n, v, protocolConstants[n])
	}
	c.Min("VALUE", 70)
	if v, ok := scope.Lookup("hrrRandomSentinel").(*types.Var); ok {
		u := newUnit(c)
		if g := c.P.Main.SSA.Var("hrrRandomSentinel"); g != nil {
			val := u.init.Deep(u.init.Load(ai.Mk("glob", "hrrRandomSentinel")))
			s, ok := val.IsStr()
			c.Check(ok && s == helloRetrySentinel, "VALUE", "hrrRandomSentinel", v.Pos(), "the value of random that marks a HelloRetryRequest is %s", clip(val))
		}
	}
}

// signature is the wire layout of a type: the sequence of its integers and
// vectors, with the bounds of the vectors' sizes in bytes.
func signature(t types.Type, tag string) string {
	opts := map[string]string{}
	for _, tok := range strings.Split(tag, ",") {
		kv := strings.SplitN(tok, "=", 2)
		if len(kv) == 2 {
			opts[kv[0]] = kv[1]
		} else if tok != "" {
			opts[tok] = ""
		}
	}
	if _, ok := opts["omit"]; ok {
		return ""
	}
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			switch n.Method(i).Name() {
			case "MarshalTLS", "UnmarshalTLS", "ValidForTLS":
				return "custom"
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var s string
		switch u.Kind() {
		case types.Uint8:
			s = "u8"
		case types.Uint16:
			s = "u16"
		case types.Uint32:
			s = "u32"
		case types.Uint64:
			s = "u64"
		default:
			return "?" + u.String()
		}
		if _, ok := opts["varint"]; ok {
			return "varint"
		}
		return s
	case *types.Array:
		return fmt.Sprintf("%d*%s", u.Len(), signature(u.Elem(), ""))
	case *types.Slice:
		head, min, max := opts["head"], 0, 0
		h, err := strconv.Atoi(head)
		if err != nil {
			return "vector with head " + head
		}
		if v, ok := opts["min"]; ok {
			min, _ = strconv.Atoi(v)
		}
		if v, ok := opts["max"]; ok {
			max, _ = strconv.Atoi(v)
		}
		if room := 1<<uint(8*h) - 1; max == 0 || max > room {
			max = room
		}
		return fmt.Sprintf("v%d<%d,%d>[%s]", h, min, max, signature(u.Elem(), ""))
	case *types.Struct:
		var l []string
		for i := 0; i < u.NumFields(); i++ {
			if s := signature(u.Field(i).Type(), reflect.StructTag(u.Tag(i)).Get("tls")); s != "" {
				l = append(l, s)
			}
		}
		return strings.Join(l, " ")
	case *types.Pointer:
		if _, ok := opts["optional"]; ok {
			return "optional(" + signature(u.Elem(), "") + ")"
		}
		return signature(u.Elem(), "")
	}
	return "?" + t.String()
}

const extensionsSig = "v2<0,65535>[u16 v2<0,65535>[u8]]"

// A layout is the specification of a message or extension body: the form of
// its encoding and the fields that hold its parts, in wire order.  A part in
// quotes is constant.
type layout struct {
	typ   string
	pre   map[string]int64 // what selects this form
	sig   string
	parts []string
	sizes []int // numbers of elements of lists; nil for 0 to 3
}

var layoutTable = []layout{
	{"ClientHelloBody", map[string]int64{"LegacyVersion": 0x0303}, "u16 32*u8 v1<0,32>[u8] v2<2,65535>[u16] v1<1,255>[u8] " + extensionsSig,
		[]string{"LegacyVersion", "Random", "LegacySessionID", "CipherSuites", "\"\\x00\"", "Extensions"}, nil},
	{"ClientHelloBody", map[string]int64{"LegacyVersion": 0xfefd}, "u16 32*u8 v1<0,32>[u8] u8 v2<2,65535>[u16] v1<1,255>[u8] " + extensionsSig,
		[]string{"LegacyVersion", "Random", "LegacySessionID", "0", "CipherSuites", "\"\\x00\"", "Extensions"}, nil},
	{"ServerHelloBody", nil, "u16 32*u8 v1<0,32>[u8] u16 u8 " + extensionsSig,
		[]string{"Version", "Random", "LegacySessionID", "CipherSuite", "LegacyCompressionMethod", "Extensions"}, nil},
	{"EncryptedExtensionsBody", nil, extensionsSig, []string{"Extensions"}, nil},
	{"CertificateBody", nil, "v1<0,255>[u8] v3<0,16777215>[v3<1,16777215>[u8] " + extensionsSig + "]", []string{"CertificateRequestContext", "CertificateList"}, nil},
	{"CertificateVerifyBody", nil, "u16 v2<0,65535>[u8]", []string{"Algorithm", "Signature"}, nil},
	{"CertificateRequestBody", nil, "v1<0,255>[u8] " + extensionsSig, []string{"CertificateRequestContext", "Extensions"}, nil},
	{"NewSessionTicketBody", nil, "u32 u32 v1<0,255>[u8] v2<1,65535>[u8] " + extensionsSig, []string{"TicketLifetime", "TicketAgeAdd", "TicketNonce", "Ticket", "Extensions"}, nil},
	{"KeyUpdateBody", nil, "u8", []string{"KeyUpdateRequest"}, nil},
	{"Extension", nil, "u16 v2<0,65535>[u8]", []string{"ExtensionType", "ExtensionData"}, nil},
	{"ExtensionList", nil, extensionsSig, []string{"."}, nil},
	{"ServerNameExtension", nil, "v2<1,65535>[u8 v2<1,65535>[u8]]", []string{"["}, []int{1}},
	{"KeyShareExtension", map[string]int64{"HandshakeType": 1}, "v2<0,65535>[u16 v2<1,65535>[u8]]", []string{"Shares"}, nil},
	{"KeyShareExtension", map[string]int64{"HandshakeType": 6}, "u16", []string{"SelectedGroup"}, []int{0}},
	{"KeyShareExtension", map[string]int64{"HandshakeType": 2}, "u16 v2<1,65535>[u8]", []string{"Shares*"}, []int{1}},
	{"SupportedGroupsExtension", nil, "v2<2,65535>[u16]", []string{"Groups"}, nil},
	{"SignatureAlgorithmsExtension", nil, "v2<2,65535>[u16]", []string{"Algorithms"}, nil},
	{"PreSharedKeyExtension", map[string]int64{"HandshakeType": 1}, "v2<7,65535>[v2<1,65535>[u8] u32] v2<33,65535>[v1<32,255>[u8]]", []string{"Identities", "Binders"}, nil},
	{"PreSharedKeyExtension", map[string]int64{"HandshakeType": 2}, "u16", []string{"SelectedIdentity"}, []int{0}},
	{"PSKKeyExchangeModesExtension", nil, "v1<1,255>[u8]", []string{"KEModes"}, nil},
	{"TicketEarlyDataInfoExtension", nil, "u32", []string{"MaxEarlyDataSize"}, nil},
	{"ALPNExtension", nil, "v2<2,65535>[v1<1,255>[u8]]", []string{"Protocols"}, nil},
	{"SupportedVersionsExtension", map[string]int64{"HandshakeType": 1}, "v1<2,254>[u16]", []string{"Versions"}, nil},
	{"SupportedVersionsExtension", map[string]int64{"HandshakeType": 2}, "u16", []string{"Versions*"}, []int{1}},
	{"SupportedVersionsExtension", map[string]int64{"HandshakeType": 6}, "u16", []string{"Versions*"}, []int{1}},
	{"CookieExtension", nil, "v2<1,65535>[u8]", []string{"Cookie"}, nil},
}

// extensionNumbers are the code points of the extension bodies, messageNumbers
// those of the messages.
var bodyNumbers = map[string]int64{
	"ServerNameExtension": 0, "SupportedGroupsExtension": 10, "SignatureAlgorithmsExtension": 13, "ALPNExtension": 16, "PreSharedKeyExtension": 41,
	"EarlyDataExtension": 42, "TicketEarlyDataInfoExtension": 42, "SupportedVersionsExtension": 43, "CookieExtension": 44, "PSKKeyExchangeModesExtension": 45, "KeyShareExtension": 51,
	"ClientHelloBody": 1, "ServerHelloBody": 2, "NewSessionTicketBody": 4, "EndOfEarlyDataBody": 5, "EncryptedExtensionsBody": 8, "CertificateBody": 11,
	"CertificateRequestBody": 13, "CertificateVerifyBody": 15, "FinishedBody": 20, "KeyUpdateBody": 24,
}

// valueOf is a value of a type in which every integer and every string of
// bytes is a symbol and every other list has n elements.
func valueOf(t types.Type, path string, n int) *ai.Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return ai.Sym(path)
		}
		var els []*ai.Term
		for i := 0; i < n; i++ {
			els = append(els, valueOf(u.Elem(), fmt.Sprintf("%s[%d]", path, i), n))
		}
		if n == 0 {
			return ai.Nil
		}
		return ai.Mk("list", ai.TypeName(u.Elem()), els...)
	case *types.Struct:
		args := make([]*ai.Term, u.NumFields())
		for i := range args {
			args[i] = valueOf(u.Field(i).Type(), path+"."+u.Field(i).Name(), n)
		}
		return ai.MkT("struct", t, args...)
	}
	return ai.Sym(path)
}

// inMemory is a value whose lists are slices of memory, which can be changed.
func (u *unit) inMemory(s *ai.State, t types.Type, v *ai.Term, id string) *ai.Term {
	switch tt := t.Underlying().(type) {
	case *types.Slice:
		if v.Op != "list" {
			return v
		}
		els := make([]*ai.Term, len(v.Args))
		for i := range els {
			els[i] = u.inMemory(s, tt.Elem(), v.Args[i], fmt.Sprintf("%s[%d]", id, i))
		}
		p := u.in.NewObject(s, id, types.NewSlice(tt.Elem()), ai.Mk("arr", "", els...))
		return ai.Mk("slice", "", p, ai.Int(0), ai.Int(int64(len(els))))
	case *types.Struct:
		if v.Op != "struct" {
			return v
		}
		args := make([]*ai.Term, len(v.Args))
		for i := range args {
			args[i] = u.inMemory(s, tt.Field(i).Type(), v.Args[i], id+"."+tt.Field(i).Name())
		}
		return ai.MkT("struct", t, args...)
	}
	return v
}

// flat lists the leaves of a value in order.
func flat(t *ai.Term, out []string) []string {
	switch t.Op {
	case "list", "arr":
		out = append(out, "[")
		for _, a := range t.Args {
			out = flat(a, out)
		}
		return append(out, "]")
	case "struct":
		for _, a := range t.Args {
			out = flat(a, out)
		}
		return out
	case "nil":
		return append(out, "[", "]")
	case "certificate":
		return flat(t.Args[0], out)
	}
	if t.Op == "fld" && t.Aux == "Raw" && t.Args[0].Op == "deref" {
		return flat(t.Args[0].Args[0], out)
	}
	return append(out, t.String())
}

// parts are the leaves of a body in wire order.
func (l *layout) leaves(t types.Type, v *ai.Term) []string {
	var out []string
	for _, p := range l.parts {
		switch {
		case p == ".":
			out = flat(v, out)
		case p == "[":
			out = append(append(append(out, "[", "0"), flat(v, nil)...), "]")
		case p[0] == '"' || p[0] >= '0' && p[0] <= '9':
			out = append(out, p)
		case strings.HasSuffix(p, "*"):
			x := flat(ai.Fld(v, strings.TrimSuffix(p, "*")), nil)
			if len(x) > 2 && x[0] == "[" {
				x = x[1 : len(x)-1]
			}
			out = append(out, x...)
		default:
			out = flat(ai.Fld(v, p), out)
		}
	}
	return out
}

func layouts(c *check.Ctx) {
	c.Rule("FORM", "the structure that is encoded and decoded has the integers and vectors of the specification, with their sizes, in its order")
	c.Rule("ENCODE", "each part of the encoding is taken from the field of the message that has its meaning")
	c.Rule("DECODE", "each part of the encoding is stored in the field of the message that has its meaning, and the size of the encoding is reported")
	for i := range layoutTable {
		l := &layoutTable[i]
		obj, ok := c.P.Main.Types.Scope().Lookup(l.typ).(*types.TypeName)
		if !ok {
			c.Fail("FORM", l.typ, token.NoPos, "the type %s does not exist any more", l.typ)
			continue
		}
		sizes := l.sizes
		if sizes == nil {
			sizes = []int{0, 1, 2, 3}
		}
		for _, n := range sizes {
			l.encode(c, obj, n)
			l.decode(c, obj, n)
		}
	}
}

// codePoints compares the numbers of messages and extensions.
func codePoints(c *check.Ctx) {
	c.Rule("NUMBER", "each message and extension body has its code point")
	for name, want := range bodyNumbers {
		u := newUnit(c)
		if _, ok := c.P.Main.Types.Scope().Lookup(name).(*types.TypeName); !ok {
			continue
		}
		fn, outs := u.run(name + ".Type")
		if fn == nil {
			continue
		}
		for _, o := range outs {
			c.Check(o.Result(0) == ai.Int(want), "NUMBER", name+"="+clip(o.Result(0)), o.Pos, "the code point of %s is %s, the specification has %d", name, clip(o.Result(0)), want)
		}
	}
	c.Min("NUMBER", len(bodyNumbers))
}

func (l *layout) name(n int) string {
	s := l.typ
	for f, v := range l.pre {
		s += fmt.Sprintf(" %s=%d", f, v)
	}
	if n >= 0 {
		s += fmt.Sprintf(" with %d elements", n)
	}
	return s
}

// body is a value of the body's type with everything in it symbolic.
func (l *layout) body(t types.Type, n int) *ai.Term {
	v := valueOf(t, "x", n)
	if st, ok := t.Underlying().(*types.Struct); ok {
		args := append([]*ai.Term(nil), v.Args...)
		for i := range args {
			if k, ok := l.pre[st.Field(i).Name()]; ok {
				args[i] = ai.Int(k)
			}
		}
		v = ai.MkT("struct", t, args...)
	}
	return v
}

func (l *layout) encode(c *check.Ctx, obj *types.TypeName, n int) {
	u := newUnit(c)
	name := l.name(n)
	v := l.body(obj.Type(), n)
	recv := v
	var got types.Type
	u.over = map[string]ai.Prim{"syntax.Marshal": func(call *ai.Call) ([]*ai.Outcome, bool) {
		x := call.Args[0]
		if x.Op != "iface" {
			return nil, false
		}
		w := x.Args[0]
		got = x.Typ
		if p, ok := got.Underlying().(*types.Pointer); ok {
			got, w = p.Elem(), call.S.Load(w)
		}
		failed := call.S.Clone()
		return []*ai.Outcome{ai.Return(call.S, ai.Mk("encoded", "", call.S.Deep(w)), ai.Nil), ai.Return(failed, ai.Nil, ai.Mk("errval", "", ai.Str("encode")))}, true
	}}
	saved := u.in.InlineBodies
	u.in.InlineBodies = map[string]bool{l.typ: true}
	defer func() { u.in.InlineBodies = saved }()
	fn, outs := u.exactly(nil, l.typ+".Marshal", recv)
	if fn == nil {
		return
	}
	good := false
	for _, o := range outs {
		if fails(o.Result(1)) || o.Result(1).Op == "errval" {
			continue
		}
		r := o.S.Deep(o.Result(0))
		if !c.Check(r.Op == "encoded" && o.Result(1) == ai.Nil, "ENCODE", name, o.Pos, "the encoding of %s is %s", name, clip(r)) {
			continue
		}
		good = true
		s := signature(got, "")
		c.Check(s == l.sig, "FORM", name+" encoded", o.Pos, "%s is encoded as %s, the specification has %s", name, s, l.sig)
		have, want := strings.Join(flat(r.Args[0], nil), " "), strings.Join(l.leaves(obj.Type(), v), " ")
		c.Check(have == want, "ENCODE", name, o.Pos, "the parts of the encoding of %s are taken from %s, not %s", name, have, want)
	}
	c.Check(good, "ENCODE", name+" succeeds", fn.Pos(), "there is no way in which %s can be encoded", name)
}

func (l *layout) decode(c *check.Ctx, obj *types.TypeName, n int) {
	u := newUnit(c)
	name := l.name(n)
	data := ai.Sym("data")
	var got types.Type
	var content *ai.Term
	failure := ai.Mk("errval", "", ai.Str("decode"))
	u.over = map[string]ai.Prim{
		"syntax.Unmarshal": func(call *ai.Call) ([]*ai.Outcome, bool) {
			x := call.Args[1]
			if x.Op != "iface" || x.Args[0].Op != "ptr" || call.S.Pure(call.Args[0]) != data {
				return nil, false
			}
			got = x.Typ.Underlying().(*types.Pointer).Elem()
			content = valueOf(got, "w", n)
			failed := call.S.Clone()
			u.in.Store(call.S, x.Args[0], u.inMemory(call.S, got, content, "decoded"))
			return []*ai.Outcome{ai.Return(call.S, ai.Sym("size"), ai.Nil), ai.Return(failed, ai.Int(0), failure)}, true
		},
		"crypto/x509.ParseCertificate": func(call *ai.Call) ([]*ai.Outcome, bool) {
			failed := call.S.Clone()
			return []*ai.Outcome{ai.Return(call.S, ai.Mk("certificate", "", call.S.Pure(call.Args[0])), ai.Nil), ai.Return(failed, ai.Nil, failure)}, true
		},
	}
	saved := u.in.InlineBodies
	u.in.InlineBodies = map[string]bool{l.typ: true}
	defer func() { u.in.InlineBodies = saved }()
	old := ai.Expand(ai.Sym("old"), obj.Type())
	if st, ok := obj.Type().Underlying().(*types.Struct); ok && old.Op == "struct" {
		args := append([]*ai.Term(nil), old.Args...)
		for i := range args {
			if k, ok := l.pre[st.Field(i).Name()]; ok {
				args[i] = ai.Int(k)
			}
		}
		old = ai.MkT("struct", obj.Type(), args...)
	}
	s := u.init.Clone()
	recv := u.in.NewObject(s, "body", obj.Type(), old)
	u.init = s
	u.roots = []*ai.Term{recv}
	fn, outs := u.exactly(nil, l.typ+".Unmarshal", recv, data)
	if fn == nil {
		return
	}
	good := false
	for _, o := range outs {
		if fails(o.Result(1)) || o.Result(1).Op == "errval" {
			continue
		}
		if !c.Check(o.Result(1) == ai.Nil && got != nil, "DECODE", name, o.Pos, "whether decoding %s succeeds is not certain: %s", name, clip(o.Result(1))) {
			continue
		}
		good = true
		s := signature(got, "")
		c.Check(s == l.sig, "FORM", name+" decoded", o.Pos, "%s is decoded as %s, the specification has %s", name, s, l.sig)
		c.Check(o.Result(0) == ai.Sym("size"), "DECODE", name+" size", o.Pos, "the size reported is %s", clip(o.Result(0)))
		// constant parts that were checked count as what they are
		now := o.S.Deep(o.S.Load(recv))
		have := l.leaves(obj.Type(), now)
		want := flat(content, nil)
		i := 0
		same := len(have) == len(want)
		for ; same && i < len(have); i++ {
			if have[i] == want[i] {
				continue
			}
			switch have[i] {
			case "\"\\x00\"":
				w := ai.Sym(want[i])
				a, aok := o.S.Eval(ai.Eq(ai.Len(w), ai.Int(1)))
				b, bok := o.S.Eval(ai.Eq(ai.Elem(w, ai.Int(0)), ai.Int(0)))
				same = aok && a && bok && b
			case "0":
				b, bok := o.S.Eval(ai.Eq(ai.Sym(want[i]), ai.Int(0)))
				same = bok && b
			default:
				same = false
			}
		}
		c.Check(same, "DECODE", name, o.Pos, "the parts of the encoding of %s, %s, are stored as %s", name, strings.Join(want, " "), strings.Join(have, " "))
	}
	c.Check(good, "DECODE", name+" succeeds", fn.Pos(), "there is no way in which %s can be decoded", name)
}

// headers checks what is encoded without the codec.
func headers(c *check.Ctx) {
	c.Rule("HEADER", "a handshake message is its type, its length in three bytes, over DTLS its number and the offset and length of the fragment, and its body")
	hm := ai.Sym("hm")
	self := ai.Mk("deref", "", hm)
	f := func(n string, bits int) *ai.Term {
		t := ai.Fld(self, n)
		ai.SetWidth(t, bits)
		return t
	}
	body := f("body", 64)
	put := func(out []*ai.Term, t *ai.Term, n int64) []*ai.Term {
		for i := n - 1; i >= 0; i-- {
			out = append(out, ai.Byte(t, i))
		}
		return out
	}
	short := put([]*ai.Term{f("msgType", 8)}, f("length", 32), 3)
	long := put(put(put(append([]*ai.Term(nil), short...), f("seq", 32), 2), f("offset", 32), 3), ai.Len(body), 3)
	u := newUnit(c)
	u.sticky = func(t *ai.Term) bool { return t.Contains(ai.Fld(self, "datagram")) }
	fn, outs := u.exactly(nil, "HandshakeMessage.Marshal", hm)
	if fn == nil {
		return
	}
	var seen [2]bool
	for _, o := range outs {
		if v, ok := o.S.Eval(ai.Eq(hm, ai.Nil)); ok && v {
			continue
		}
		datagram, ok := o.S.Eval(ai.Fld(self, "datagram"))
		if !c.Check(ok, "HEADER", "form", o.Pos, "the form of the header does not depend on whether the message is of DTLS") {
			continue
		}
		want, name := short, "TLS"
		if datagram {
			want, name = long, "DTLS"
			seen[1] = true
		} else {
			seen[0] = true
		}
		r := o.S.Deep(o.Result(0))
		n := int64(len(want))
		for i := int64(0); i < n; i++ {
			c.Check(byteAt(r, i) == want[i], "HEADER", fmt.Sprintf("%s byte %d", name, i), o.Pos, "byte %d of the header is %s, not %s", i, clip(byteAt(r, i)), clip(want[i]))
		}
		c.Check(r == ai.Cat(ai.Sub(r, ai.Int(0), ai.Int(n)), body), "HEADER", name+" body", o.Pos, "after the header comes %s", clip(r))
	}
	c.Check(seen[0] && seen[1], "HEADER", "forms", fn.Pos(), "messages are not encoded in both forms")

	c.Rule("EMPTY", "a Finished message is its verify data, and EndOfEarlyData and the early data extension are empty")
	for _, name := range []string{"EndOfEarlyDataBody", "EarlyDataExtension"} {
		u := newUnit(c)
		saved := u.in.InlineBodies
		u.in.InlineBodies = map[string]bool{name: true}
		if fn, outs := u.run(name + ".Marshal"); fn != nil {
			for _, o := range outs {
				r := o.S.Deep(o.S.Pure(o.Result(0)))
				c.Check(ai.Len(r) == ai.Int(0) && o.Result(1) == ai.Nil, "EMPTY", name, o.Pos, "%s is encoded as %s", name, clip(r))
			}
		}
		if fn, outs := u.run(name + ".Unmarshal"); fn != nil {
			for _, o := range outs {
				c.Check(o.Result(0) == ai.Int(0) || o.Result(1) != ai.Nil, "EMPTY", name+" decoded", o.Pos, "the size of %s is reported as %s", name, clip(o.Result(0)))
			}
		}
		u.in.InlineBodies = saved
	}
	u = newUnit(c)
	fin := ai.Sym("fin")
	if fn, outs := u.run("FinishedBody.Marshal", fin); fn != nil {
		good := false
		for _, o := range outs {
			if isError(o.Result(1)) {
				continue
			}
			good = true
			r := o.S.Deep(o.S.Pure(o.Result(0)))
			c.Check(r == ai.Fld(fin, "VerifyData") && o.Result(1) == ai.Nil, "EMPTY", "FinishedBody", o.Pos, "Finished is encoded as %s", clip(r))
		}
		c.Check(good, "EMPTY", "FinishedBody succeeds", fn.Pos(), "there is no way in which Finished can be encoded")
	}
	data := ai.Sym("data")
	for _, n := range []int64{0, 31, 32, 33, 48} {
		u := newUnit(c)
		s := u.init.Clone()
		obj, ok := c.P.Main.Types.Scope().Lookup("FinishedBody").(*types.TypeName)
		if !ok {
			break
		}
		p := u.in.NewObject(s, "fin", obj.Type(), ai.Zero(obj.Type()))
		u.in.Store(s, ai.FieldAddr(p, "VerifyDataLen"), ai.Int(32))
		u.init, u.roots = s, []*ai.Term{p}
		in := ai.Sub(data, ai.Int(0), ai.Int(n))
		fn, outs := u.exactly(nil, "FinishedBody.Unmarshal", p, in)
		if fn == nil {
			break
		}
		name := fmt.Sprintf("Finished of %d bytes", n)
		for _, o := range outs {
			if isError(o.Result(1)) {
				c.Check(n != 32, "EMPTY", name, o.Pos, "a Finished message of the right size is refused")
				continue
			}
			now := o.S.Deep(o.S.Load(ai.FieldAddr(p, "VerifyData")))
			c.Check(n >= 32 && o.Result(0) == ai.Int(32) && now == ai.Sub(data, ai.Int(0), ai.Int(32)), "EMPTY", name, o.Pos, "%s with verify data of 32 bytes is decoded as %s, size %s", name, clip(now), clip(o.Result(0)))
		}
	}

	c.Rule("ACK", "an acknowledgement is a vector of 64-bit record numbers")
	if obj, ok := c.P.Main.Types.Scope().Lookup("DtlsAck").(*types.TypeName); ok {
		s := signature(obj.Type(), "")
		c.Check(s == "v2<0,65535>[u64]", "ACK", "DtlsAck", obj.Pos(), "an acknowledgement is encoded as %s", s)
	}
}
