package hs

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	ai "mintcheck/absint"
)

// A Msg is a handshake message of a handshake, in protocol order.
type Msg struct {
	Stage string
	Sent  bool
	Type  int64    // -1 if not determined
	Wire  *ai.Term // its encoding
	Recv  *ai.Term // received message
	Body  *ai.Term // encoded body
	Epoch int64    // epoch of the keys it is protected with
	Keys  *ai.Term // those keys, nil for none
	// Flushed tells that a message sent was flushed.
	Flushed bool
	OutSeq  int
}

// A Rekey is a change of keys.
type Rekey struct {
	Stage  string
	In     bool
	Epoch  int64
	KeySet *ai.Term
	After  int // messages before it
	Reset  bool
}

// A View is a handshake that was completed.
type View struct {
	R                 *Role
	N                 *Node
	S                 *ai.State
	Client            bool
	Msgs              []Msg
	Rekeys            []Rekey
	Final             *ai.Term // stateConnected
	InEpoch, OutEpoch int64
	InKeys, OutKeys   *ai.Term
	Problems          []string

	rep        map[*ai.Term]*ai.Term
	memo, coll map[*ai.Term]*ai.Term
	facts      map[*ai.Term]bool
	H          *ai.Term // hash of the negotiated suite
}

// Mode describes the handshake in words, without positions.
func (v *View) Mode() string {
	var w []string
	w = append(w, v.R.Name)
	flag := func(n string) {
		if b, ok := v.Param(n).IsBool(); ok && b {
			w = append(w, n)
		}
	}
	if v.Retry() {
		w = append(w, "retry")
	}
	flag("UsingPSK")
	flag("UsingDH")
	flag("UsingEarlyData")
	flag("RejectedEarlyData")
	flag("UsingClientAuth")
	var ts []string
	for _, m := range v.Msgs {
		ts = append(ts, TypeNames[m.Type])
	}
	return strings.Join(w, " ") + " [" + strings.Join(ts, " ") + "]"
}

// TypeNames are short names of message types.
var TypeNames = map[int64]string{1: "CH", 2: "SH", 4: "NST", 5: "EOED", 8: "EE", 11: "CT", 13: "CR", 15: "CV", 20: "FIN", 24: "KU", 254: "MH"}

// Handshake message types.
const (
	CH   = 1
	SH   = 2
	NST  = 4
	EOED = 5
	EE   = 8
	CT   = 11
	CR   = 13
	CV   = 15
	FIN  = 20
	KU   = 24
	MH   = 254
)

// Retry tells whether the handshake contains a retry.
func (v *View) Retry() bool {
	if v.Client {
		return len(v.All(CH)) > 1
	}
	return v.Cookie() != nil
}

// Cookie is the decoded content of the cookie that a client returned, nil if
// there was none.
func (v *View) Cookie() *ai.Term {
	for _, f := range v.Find("ok") {
		if d := f.Args[0]; d.Op == "dec" && d.Aux == "cookie" {
			return d
		}
	}
	return nil
}

// All lists the messages of a type.
func (v *View) All(typ int64) []*Msg {
	var out []*Msg
	for i := range v.Msgs {
		if v.Msgs[i].Type == typ {
			out = append(out, &v.Msgs[i])
		}
	}
	return out
}

// First and Last message of a type, or nil.
func (v *View) First(typ int64) *Msg {
	if l := v.All(typ); len(l) > 0 {
		return l[0]
	}
	return nil
}

// Last message of a type, or nil.
func (v *View) Last(typ int64) *Msg {
	if l := v.All(typ); len(l) > 0 {
		return l[len(l)-1]
	}
	return nil
}

// Param is a field of the connection's parameters.
func (v *View) Param(n string) *ai.Term {
	t := ai.Fld(v.Final, "Params", n)
	if b, ok := v.S.Eval(t); ok {
		return ai.Bool(b)
	}
	return v.Norm(t)
}

// Flag is a boolean parameter.
func (v *View) Flag(n string) bool {
	b, ok := v.Param(n).IsBool()
	return ok && b
}

// Field is a field of the final state.
func (v *View) Field(n string) *ai.Term { return v.Norm(v.S.Deep(ai.Fld(v.Final, n))) }

// Dec is the decoded body of a received message.
func Dec(recv *ai.Term, typ string) *ai.Term {
	return ai.Mk("dec", typ, ai.Fld(recv, "body"))
}

// Has tells whether an extension of a received message is known to be present.
func (v *View) Has(recv *ai.Term, typ string, ext int64) bool {
	for f, val := range v.S.Facts() {
		if !val || f.Op != "hasext" || f.Args[1] != ai.Int(ext) {
			continue
		}
		l := f.Args[0]
		if l.Op == "fld" && l.Aux == "Extensions" && l.Args[0] == Dec(recv, typ) {
			return true
		}
	}
	return false
}

// Ext is the value of an extension of a received message.
func (v *View) Ext(recv *ai.Term, typ, extTyp string, ext int64) *ai.Term {
	return ai.Mk("extval", extTyp, ai.Fld(Dec(recv, typ), "Extensions"), ai.Int(ext))
}

// SentExts are the extensions of a sent body.
func SentExts(body *ai.Term) *ai.Term {
	if body.Op != "enc" {
		return nil
	}
	return ai.Fld(body.Args[0], "Extensions")
}

// SentExt is the value of an extension of a body that is sent; may says that
// it is not always there.
func SentExt(body *ai.Term, ext int64) (val *ai.Term, may bool) {
	l := SentExts(body)
	if l == nil || l.Op != "extset" {
		return nil, false
	}
	for _, e := range l.Args {
		if e.Args[0] == ai.Int(ext) {
			t := e.Args[1]
			if t.Op == "typed" {
				t = t.Args[0]
			}
			return t, e.Aux != "must"
		}
	}
	return nil, false
}

// Views describes all completed handshakes.
func (r *Role) Views() []*View {
	var out []*View
	for _, n := range r.Done {
		out = append(out, r.view(n))
	}
	return out
}

func (r *Role) view(n *Node) *View {
	v := &View{R: r, N: n, S: n.S, Client: r.Name == "client"}
	v.Final = n.State.Args[0]
	if v.Final.Op == "ptr" {
		v.Final = n.S.Load(v.Final)
	}
	v.closeEqs()
	problem := func(f string, a ...interface{}) { v.Problems = append(v.Problems, fmt.Sprintf(f, a...)) }
	pending := 0
	flush := func() {
		for i := range v.Msgs {
			if v.Msgs[i].Sent {
				v.Msgs[i].Flushed = true
			}
		}
		pending = 0
	}
	for i, st := range n.Stages {
		for _, rv := range n.Recvs {
			if rv.Stage != st {
				continue
			}
			m := Msg{Stage: st, Type: -1, Recv: rv.Msg, Wire: ai.Mk("wire", "recv", rv.Msg), Epoch: v.InEpoch, Keys: v.InKeys}
			m.Body = v.Norm(ai.Fld(rv.Msg, "body"))
			if n, ok := v.Norm(ai.Fld(rv.Msg, "msgType")).IsInt(); ok {
				m.Type = n
			}
			v.Msgs = append(v.Msgs, m)
		}
		for _, a := range n.Actions[i] {
			if a.Op != "iface" {
				problem("action %v not resolved", a)
				continue
			}
			val := a.Args[0]
			name := ai.ShortName(a.Typ.String())
			switch name {
			case "QueueHandshakeMessage":
				p := ai.Fld(val, "Message")
				if p == ai.Nil || p.Op == "alt" || p.Op == "unk" {
					problem("message sent in %s not resolved: %v", st, p)
					continue
				}
				w := ai.Wire(v.S, p)
				m := Msg{Stage: st, Sent: true, Type: -1, Wire: w, Epoch: v.OutEpoch, Keys: v.OutKeys}
				if w.Op == "wire" && w.Aux == "" {
					if n, ok := w.Args[0].IsInt(); ok {
						m.Type = n
					}
					m.Body = w.Args[1]
				} else {
					problem("message sent in %s has no encoding: %v", st, w)
				}
				pending++
				v.Msgs = append(v.Msgs, m)
			case "SendQueuedHandshake":
				flush()
			case "RekeyIn", "RekeyOut":
				rk := Rekey{Stage: st, In: name == "RekeyIn", KeySet: v.S.Deep(ai.Fld(val, "KeySet")), After: len(v.Msgs)}
				if n, ok := ai.Fld(val, "epoch").IsInt(); ok {
					rk.Epoch = n
				} else {
					problem("epoch of %s in %s not resolved", name, st)
				}
				v.Rekeys = append(v.Rekeys, rk)
				if rk.In {
					v.InEpoch, v.InKeys = rk.Epoch, rk.KeySet
				} else {
					v.OutEpoch, v.OutKeys = rk.Epoch, rk.KeySet
				}
			case "ResetOut":
				v.OutEpoch, v.OutKeys = 0, nil
				v.Rekeys = append(v.Rekeys, Rekey{Stage: st, Reset: true, After: len(v.Msgs)})
			default:
				problem("unexpected action %s in %s", name, st)
			}
		}
	}
	suite := v.Param("CipherSuite")
	v.H = v.Norm(v.S.Pure(ai.Fld(ai.Fld(v.Final, "cryptoParams"), "Hash")))
	_ = suite
	return v
}

// closeEqs prepares the normal form modulo the known equalities.
func (v *View) closeEqs() {
	v.rep = map[*ai.Term]*ai.Term{}
	var eqs []*ai.Term
	for f, val := range v.S.Facts() {
		if val && f.Op == "eq" {
			eqs = append(eqs, f)
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].ID < eqs[j].ID })
	for round := 0; round < 3; round++ {
		for _, f := range eqs {
			a, b := v.Norm(f.Args[0]), v.Norm(f.Args[1])
			if a == b {
				continue
			}
			if better(b, a) {
				a, b = b, a
			}
			if a.Contains(b) || b.Op == "const" || b.Op == "nil" {
				continue
			}
			v.rep[b] = a
			v.memo, v.facts = nil, nil
		}
	}
}

func better(a, b *ai.Term) bool {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		return ra < rb
	}
	if sa, sb := size(a), size(b); sa != sb {
		return sa < sb
	}
	return a.ID < b.ID
}

func rank(t *ai.Term) int {
	switch t.Op {
	case "const":
		return 0
	case "nil":
		return 1
	case "hsize":
		return 2
	case "dec", "fld":
		// prefer what was received over what is configured
		if strings.Contains(t.String(), "Config") {
			return 4
		}
		return 3
	}
	return 5
}

var sizes = map[*ai.Term]int{}

func size(t *ai.Term) int {
	if n, ok := sizes[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += size(a)
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	sizes[t] = n
	return n
}

// Norm is the normal form of t modulo the known equalities.
func (v *View) Norm(t *ai.Term) *ai.Term {
	if t == nil {
		return nil
	}
	if v.memo == nil {
		v.memo = map[*ai.Term]*ai.Term{}
	}
	for i := 0; i < 6; i++ {
		n := v.collapse(ai.Rewrite(t, v.rep, v.memo))
		if n == t {
			break
		}
		t = n
	}
	return t
}

var suites = ai.Mk("gval", "cipherSuiteMap")

// collapse replaces structs that copy every field of a decoded message by the
// message.
func (v *View) collapse(t *ai.Term) *ai.Term {
	if r, ok := v.coll[t]; ok {
		return r
	}
	m := map[*ai.Term]*ai.Term{}
	t.Walk(func(x *ai.Term) {
		if x.Op == "fld" && x.Aux == "Suite" && x.Args[0].Op == "mapget" && x.Args[0].Args[0] == suites {
			m[x] = x.Args[0].Args[1] // the table of suites is checked to be consistent
		}
		if x.Op != "struct" || x.Typ == nil || len(x.Args) == 0 {
			return
		}
		st, ok := x.Typ.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(x.Args) || x.Args[0].Op != "fld" {
			return
		}
		from := x.Args[0].Args[0]
		if from.Op != "dec" || !strings.HasSuffix(x.Typ.String(), "."+from.Aux) {
			return
		}
		for i, a := range x.Args {
			if a != ai.Fld(from, st.Field(i).Name()) {
				return
			}
		}
		m[x] = from
	})
	r := t
	if len(m) > 0 {
		r = ai.Rewrite(t, m, map[*ai.Term]*ai.Term{})
	}
	if v.coll == nil {
		v.coll = map[*ai.Term]*ai.Term{}
	}
	v.coll[t] = r
	return r
}

// Truth tells whether a condition is known, and its value, modulo equalities.
func (v *View) Truth(f *ai.Term) (val, known bool) {
	if b, ok := v.S.Eval(f); ok {
		return b, true
	}
	f = v.Norm(f)
	if b, ok := f.IsBool(); ok {
		return b, true
	}
	if v.facts == nil {
		v.facts = map[*ai.Term]bool{}
		for g, val := range v.S.Facts() {
			v.facts[v.Norm(g)] = val
		}
	}
	val, known = v.facts[f]
	return val, known
}

// Same compares modulo the known equalities.
func (v *View) Same(a, b *ai.Term) bool { return v.Norm(a) == v.Norm(b) }

// Known tells whether a fact is known, modulo equalities.
func (v *View) Known(f *ai.Term) bool {
	val, ok := v.Truth(f)
	return ok && val
}

// Find lists the true facts with an operation.
func (v *View) Find(op string) []*ai.Term {
	var out []*ai.Term
	for f, val := range v.S.Facts() {
		if val && f.Op == op {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Formulas

// HSize is the output size of the negotiated hash.
func (v *View) HSize() *ai.Term { return v.Norm(ai.Mk("hsize", "", v.H)) }

// Zeros is a string of zeros of the length of the hash.
func (v *View) Zeros() *ai.Term { return v.Norm(ai.Mk("zeros", "", v.HSize())) }

// Hash is the hash of some data.
func (v *View) Hash(data ...*ai.Term) *ai.Term {
	return v.Norm(ai.Mk("hash", "", v.H, ai.Cat(data...)))
}

// Extract is HKDF-Extract.
func (v *View) Extract(salt, ikm *ai.Term) *ai.Term {
	return v.Norm(ai.Mk("hkdfx", "", v.H, salt, ikm))
}

// Derive is HKDF-Expand-Label with the hash's length.
func (v *View) Derive(secret *ai.Term, label string, context *ai.Term) *ai.Term {
	return v.Norm(ai.Mk("hkdfl", "", v.H, secret, ai.Str(label), context, v.HSize()))
}

// HMAC is the keyed hash.
func (v *View) HMAC(key, data *ai.Term) *ai.Term {
	return v.Norm(ai.Mk("hmac", "", v.H, key, data))
}

// Transcript is the transcript up to and including message n (an index into
// Msgs), in the form that is hashed.
func (v *View) Transcript(n int) []*ai.Term {
	var ws []*ai.Term
	msgs := v.Msgs[:n+1]
	if v.Client && v.Retry() {
		// the first two messages are the first ClientHello and the retry
		first := v.Hash(msgs[0].Wire)
		ws = append(ws, ai.Mk("wire", "", ai.Int(MH), first))
		msgs = msgs[1:]
	}
	for _, m := range msgs {
		ws = append(ws, v.Norm(m.Wire))
	}
	return ws
}

// Secrets are the secrets of the key schedule.
type Secrets struct {
	Early, EarlyTraffic, Handshake, ClientHS, ServerHS, Master, ClientApp, ServerApp, Exporter, Resumption *ai.Term
}

// Index is the position of a message.
func (v *View) Index(m *Msg) int {
	for i := range v.Msgs {
		if &v.Msgs[i] == m {
			return i
		}
	}
	return -1
}

// Diff describes the first difference between two terms.
func Diff(a, b *ai.Term) string {
	path := ""
	for {
		if a == b {
			return "none"
		}
		if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
			return fmt.Sprintf("at %s: %s, want %s", path, clip(a), clip(b))
		}
		d := -1
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				d = i
				break
			}
		}
		path += "/" + a.Op
		if a.Aux != "" {
			path += ":" + a.Aux
		}
		path += fmt.Sprint(".", d)
		a, b = a.Args[d], b.Args[d]
	}
}

func clip(t *ai.Term) string {
	s := t.String()
	if len(s) > 220 {
		s = s[:220] + "…"
	}
	return s
}

// KeySecret is the traffic secret from which a key set was made with the
// suite's key derivation, or an explanation of why it is not one.
func (v *View) KeySecret(ks *ai.Term) (*ai.Term, string) {
	return v.KeySecretFor(ks, v.cryptoParams(), v.H)
}

// KeySecretFor is KeySecret for the parameters and hash of some suite.
func (v *View) KeySecretFor(ks, params, h *ai.Term) (*ai.Term, string) {
	return KeySecretIn(v.Norm, ks, params, h)
}

// KeySecretIn is KeySecretFor with some normalisation of terms.
func KeySecretIn(norm func(*ai.Term) *ai.Term, ks, params, h *ai.Term) (*ai.Term, string) {
	if ks == nil {
		return nil, "no keys"
	}
	ks = norm(ks)
	ci := norm(ai.Fld(ks, "Cipher"))
	if want := norm(ai.Fld(params, "Cipher")); ci != want {
		return nil, fmt.Sprintf("the cipher is %s, not the one of the negotiated suite", clip(ci))
	}
	keys := ai.Fld(ks, "Keys")
	if keys.Op == "to" {
		keys = keys.Args[0]
	}
	if keys.Op != "mapc" || len(keys.Args) == 0 || keys.Aux == "may" {
		return nil, "the keys are not derived: " + clip(keys)
	}
	kl := norm(ai.Fld(params, "KeyLengths"))
	var secret *ai.Term
	seen := map[string]bool{}
	for i := 0; i+1 < len(keys.Args); i += 2 {
		k, val := norm(keys.Args[i]), norm(keys.Args[i+1])
		if val.Op != "hkdfl" {
			return nil, "the key material is not derived: " + clip(val)
		}
		if val.Args[0] != h {
			return nil, "keys derived with hash " + clip(val.Args[0])
		}
		if val.Args[2] != k {
			return nil, fmt.Sprintf("key %s is derived with label %s", clip(k), clip(val.Args[2]))
		}
		if val.Args[3] != ai.Empty {
			return nil, "key material is derived with context " + clip(val.Args[3])
		}
		if want := norm(ai.Mk("mapget", "", kl, k)); val.Args[4] != want {
			return nil, fmt.Sprintf("key %s has length %s", clip(k), clip(val.Args[4]))
		}
		if secret != nil && secret != val.Args[1] {
			return nil, "keys of one set are derived from different secrets"
		}
		secret = val.Args[1]
		if n, ok := k.IsStr(); ok {
			seen[n] = true
		} else if k.Op == "elem" && k.Args[0].Op == "keys" && norm(k.Args[0].Args[0]) == kl {
			seen["key"], seen["iv"] = true, true
		} else {
			return nil, "key name " + clip(k)
		}
	}
	if !seen["key"] || !seen["iv"] {
		return nil, "key or iv is missing"
	}
	return secret, ""
}

func (v *View) cryptoParams() *ai.Term {
	return v.Norm(v.S.Pure(ai.Fld(v.Final, "cryptoParams")))
}
