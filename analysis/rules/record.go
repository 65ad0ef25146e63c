package rules

import (
	"fmt"
	"go/token"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// The record layer: what WriteRecord puts on the wire and what ReadRecord
// takes from it, from symbolic record layer states.

const (
	fnWriteWith = "writeRecordWithPadding" // writes under a key given
	fnConnWrite = "invoke:io.ReadWriter.Write"
	ivLen       = 12
	maxContent  = 1 << 14
)

// recordLayer describes a record layer object made for the analysis.
type recordLayer struct {
	u        *unit
	r        *ai.Term // pointer
	cipher   *ai.Term // pointer to the current cipher state
	other    *ai.Term // pointer to the cipher state of another epoch
	datagram bool
}

// newRecordLayer adds a record layer to the initial state of the unit.
func newRecordLayer(u *unit, datagram, protected bool) *recordLayer {
	s := u.init.Clone()
	scope := u.c.P.Main.Types.Scope()
	rt, ct := scope.Lookup("DefaultRecordLayer"), scope.Lookup("cipherState")
	if rt == nil || ct == nil {
		u.c.Rule("ANCHOR", "the functions that implement the operation exist")
		u.c.Fail("ANCHOR", "record layer types", token.NoPos, "the record layer types do not exist any more")
		return nil
	}
	rl := &recordLayer{u: u, datagram: datagram}
	state := func(name string, epoch *ai.Term) *ai.Term {
		sym := ai.Sym(name)
		p := u.in.NewObject(s, name, ct.Type(), ai.Expand(sym, ct.Type()))
		seq := ai.Fld(sym, "seq")
		ai.SetWidth(seq, 48)
		ai.SetWidth(ai.Fld(sym, "epoch"), 16)
		u.in.Store(s, ai.FieldAddr(p, "iv"), ai.Sub(ai.Sym(name+" iv"), ai.Int(0), ai.Int(ivLen)))
		u.in.Store(s, ai.FieldAddr(p, "ivLength"), ai.Int(ivLen))
		if !protected {
			u.in.Store(s, ai.FieldAddr(p, "cipher"), ai.Nil)
		} else {
			s.Assume(ai.Eq(ai.Fld(sym, "cipher"), ai.Nil), false)
		}
		return p
	}
	rl.cipher = state("current", nil)
	rl.other = state("other", nil)
	rl.r = u.in.NewObject(s, "layer", rt.Type(), ai.Expand(ai.Sym("layer"), rt.Type()))
	set := func(f string, v *ai.Term) { u.in.Store(s, ai.FieldAddr(rl.r, f), v) }
	set("cipher", rl.cipher)
	set("datagram", ai.Bool(datagram))
	set("cachedRecord", ai.Nil)
	set("cachedError", ai.Nil)
	m := u.in.NewObject(s, "epochs", nil, ai.Mk("mapc", "", ai.Fld(ai.Sym("other"), "epoch"), rl.other))
	set("readCiphers", m)
	v := *u
	v.init, v.roots = s, []*ai.Term{rl.r, rl.cipher, rl.other}
	rl.u = &v
	return rl
}

func (rl *recordLayer) kind() string {
	if rl.datagram {
		return "DTLS"
	}
	return "TLS"
}

func (rl *recordLayer) headerLen() int64 {
	if rl.datagram {
		return 13
	}
	return 5
}

// number is the 64-bit record number that a cipher state sends next.
func (rl *recordLayer) number(name string) *ai.Term {
	sym := ai.Sym(name)
	seq := ai.Fld(sym, "seq")
	if rl.datagram {
		return ai.Add(seq, ai.Fld(sym, "epoch"), 1<<48)
	}
	return seq
}

// nonce is the nonce for a record number.
func nonceOf(name string, seq *ai.Term) *ai.Term {
	iv := ai.Sym(name + " iv")
	var parts []*ai.Term
	for i := int64(0); i < ivLen; i++ {
		e := ai.Elem(iv, ai.Int(i))
		if k := ivLen - 1 - i; k < 8 {
			e = ai.Xor(e, ai.Byte(seq, k))
		}
		parts = append(parts, ai.Mk("byte1", "", e))
	}
	return ai.Cat(parts...)
}

func byteOf(t *ai.Term) *ai.Term { return ai.Mk("byte1", "", t) }

// header checks the header of a record of a number with a payload of a
// length; the version is left to the tables.
func (rl *recordLayer) header(s *ai.State, h *ai.Term, typ, seq, n *ai.Term) string {
	at := func(i int64) *ai.Term { return elemOf(h, ai.Int(i)) }
	if at(0) != typ {
		return fmt.Sprintf("the content type in the header is %s, not %s", clip(at(0)), clip(typ))
	}
	l := rl.headerLen()
	if at(l-2) != ai.Byte(n, 1) || at(l-1) != ai.Byte(n, 0) {
		return fmt.Sprintf("the length in the header is not that of the payload but has the bytes %s, %s", clip(at(l-2)), clip(at(l-1)))
	}
	if !rl.datagram {
		v := ai.Fld(ai.Sym("layer"), "version")
		if at(1) != ai.Byte(v, 1) || at(2) != ai.Byte(v, 0) {
			return "the version in the header is not the configured one"
		}
		return ""
	}
	for i := int64(0); i < 8; i++ {
		if at(3+i) != ai.Byte(seq, 7-i) {
			return fmt.Sprintf("byte %d of the epoch and record number in the header is %s", i, clip(at(3+i)))
		}
	}
	return ""
}

func elemOf(x, i *ai.Term) *ai.Term { return ai.NewState().Elem(x, i) }

// recordWriting checks what WriteRecord writes.  Rules NONCE and COUNT are
// what C11 is about, SEAL, CLEAR and BOUND what C13 is about.
func recordWriting(c *check.Ctx) {
	c.Rule("NONCE", "a record is sealed with the IV of the current key combined with the whole number of the record")
	c.Rule("COUNT", "a record number is used for one write: whenever a record is written the number grows by one, and it never wraps")
	c.Rule("SEAL", "with a key installed, a record is an application data header followed by the sealing of content, content type and padding with that header as associated data")
	c.Rule("CLEAR", "without a key, a record is a header with the content's type followed by the content")
	c.Rule("BOUND", "the header's length is that of the payload, whose content is within the limit")
	type entry struct {
		fn  string
		pad int64
	}
	entries := []entry{{"DefaultRecordLayer.WriteRecord", 0}}
	if c.P.Method("DefaultRecordLayer", "WriteRecordWithPadding") != nil {
		for _, n := range []int64{0, 1, 3} {
			entries = append(entries, entry{"DefaultRecordLayer.WriteRecordWithPadding", n})
		}
	}
	if c.P.Method("DefaultRecordLayer", fnWriteWith) != nil {
		entries = append(entries, entry{"DefaultRecordLayer." + fnWriteWith, 0})
	}
	for _, datagram := range []bool{false, true} {
		for _, protected := range []bool{true, false} {
			for _, e := range entries {
				rl := newRecordLayer(newUnit(c), datagram, protected)
				if rl == nil {
					return
				}
				pt := ai.Sym("pt")
				args := []*ai.Term{rl.r, pt}
				key := "current"
				switch e.fn {
				case "DefaultRecordLayer.WriteRecord":
				case "DefaultRecordLayer." + fnWriteWith:
					args = append(args, rl.other, ai.Int(e.pad))
					key = "other"
				default:
					args = append(args, ai.Int(e.pad))
				}
				fn, outs := rl.u.withEvents([]string{fnConnWrite}, e.fn, args...)
				if fn == nil {
					return
				}
				name := fmt.Sprintf("%s %s protected=%v padding=%d", rl.kind(), e.fn, protected, e.pad)
				wrote := 0
				for _, o := range outs {
					if rl.written(c, name, o, pt, protected, e.pad, key) {
						wrote++
					}
				}
				if protected || e.pad == 0 {
					c.Check(wrote > 0, "SEAL", name+" writes", fn.Pos(), "no way was found in which a record is written")
				}
			}
		}
	}
}

// written checks an outcome of a write and tells whether a record was
// written.
func (rl *recordLayer) written(c *check.Ctx, name string, o *ai.Outcome, pt *ai.Term, protected bool, pad int64, key string) bool {
	state := rl.cipher
	if key == "other" {
		state = rl.other
	}
	pos := o.Pos
	evs, ok := events(o)
	if !c.Check(ok && len(evs) <= 1, "COUNT", name+" one write", pos, "more than one record is written, or an unknown number of them") {
		return false
	}
	seq := ai.Fld(ai.Sym(key), "seq")
	now := o.S.Load(ai.FieldAddr(state, "seq"))
	same := o.S.Load(ai.FieldAddr(rl.r, "cipher")) == rl.cipher
	for _, f := range []string{"cipher", "epoch"} {
		v := o.S.Load(ai.FieldAddr(state, f))
		same = same && (v == ai.Fld(ai.Sym(key), f) || !protected && f == "cipher" && v == ai.Nil)
	}
	same = same && o.S.Pure(o.S.Load(ai.FieldAddr(state, "iv"))) == ai.Sub(ai.Sym(key+" iv"), ai.Int(0), ai.Int(ivLen))
	c.Check(same, "COUNT", name+" key kept", pos, "writing a record changes the key, the IV or the epoch")
	if len(evs) == 0 {
		c.Check(now == seq || now == ai.Add(seq, ai.Int(1), 1), "COUNT", name+" number", pos, "the record number becomes %s although nothing was written", clip(now))
		c.Check(fails(o.Result(0)), "SEAL", name+" silent", pos, "nothing was written, and no error is returned")
		return false
	}
	c.Check(now == ai.Add(seq, ai.Int(1), 1), "COUNT", name+" number", pos, "after a write the record number is %s", clip(now))
	c.Check(le(o.S, ai.Add(seq, ai.Int(1), 1), ai.Int(1<<48-1)), "COUNT", name+" wrap", pos, "the record number may leave its 48 bits")

	ev := evs[0]
	rec := ai.Canon(o.S.Pure(o.S.Deep(ev.Args[1])))
	n := ai.Len(rec)
	h := ai.Canon(ai.Sub(rec, ai.Int(0), ai.Int(rl.headerLen())))
	payload := ai.Sub(rec, ai.Int(rl.headerLen()), n)
	body := ai.Len(payload)
	self := ai.Mk("deref", "", pt)
	frag, ct := ai.Fld(self, "fragment"), ai.Fld(self, "contentType")
	num := rl.number(key)
	c.Check(ev.Args[0] == ai.Fld(ai.Sym("layer"), "conn"), "SEAL", name+" destination", pos, "the record is written to %s", clip(ev.Args[0]))
	c.Check(le(o.S, ai.Add(ai.Len(frag), ai.Int(pad), 1), ai.Int(maxContent)), "BOUND", name+" content", pos, "content of more than 2^14 bytes can be written")
	if !protected {
		c.Check(payload == frag, "CLEAR", name+" payload", pos, "the payload is %s, not the content", clip(payload))
		why := rl.header(o.S, h, ct, num, body)
		c.Check(why == "", "CLEAR", name+" header", pos, "%s", why)
		return true
	}
	why := rl.header(o.S, h, ai.Int(23), num, body)
	c.Check(why == "", "BOUND", name+" header", pos, "%s", why)
	if !c.Check(payload.Op == "seal", "SEAL", name+" payload", pos, "the payload is not a sealing but %s", clip(payload)) {
		return true
	}
	c.Check(payload.Args[0] == ai.Fld(ai.Sym(key), "cipher"), "SEAL", name+" key", pos, "the record is sealed with %s", clip(payload.Args[0]))
	plain := []*ai.Term{frag, byteOf(ct)}
	for i := int64(0); i < pad; i++ {
		plain = append(plain, byte1(0))
	}
	c.Check(ai.Canon(payload.Args[2]) == ai.Cat(plain...), "SEAL", name+" plaintext", pos, "what is sealed is not the content, its type and the padding but %s", clip(payload.Args[2]))
	c.Check(ai.Canon(payload.Args[3]) == h, "SEAL", name+" associated data", pos, "the associated data is not the header but %s", clip(payload.Args[3]))
	c.Check(ai.Canon(payload.Args[1]) == nonceOf(key, num), "NONCE", name+" nonce", pos, "the nonce is %s", clip(ai.Canon(payload.Args[1])))
	return true
}

// Reading

const fnProcess = "(*frameReader).process"

// frames replaces the frame reader: it yields a header and a body of the
// length given in the header, or fails.  A size that is not nil is what the
// header says.
func (rl *recordLayer) frames(size *ai.Term) (h, body *ai.Term) {
	n := rl.headerLen()
	h = ai.Sub(ai.Sym("header"), ai.Int(0), ai.Int(n))
	if size != nil {
		h = ai.Cat(ai.Sub(ai.Sym("header"), ai.Int(0), ai.Int(n-2)), byteOf(ai.Byte(size, 1)), byteOf(ai.Byte(size, 0)))
	} else {
		size = ai.BigEndian(ai.Sym("header"), ai.Int(n-2), 2)
	}
	body = ai.Sub(ai.Sym("body"), ai.Int(0), size)
	block := alertConst(rl.u, "AlertWouldBlock")
	alertType := rl.u.c.P.Main.Types.Scope().Lookup("Alert")
	rl.u.over = map[string]ai.Prim{
		fnProcess: func(c *ai.Call) ([]*ai.Outcome, bool) {
			return []*ai.Outcome{
				ai.Return(c.S.Clone(), h, body, ai.Nil),
				ai.Return(c.S.Clone(), ai.Nil, ai.Nil, ai.IfaceOf(alertType.Type(), block)),
				ai.Return(c.S, ai.Nil, ai.Nil, ai.Mk("errval", "", ai.Sym("frame error"))),
			}, true
		},
		"(*frameReader).needed":   func(c *ai.Call) ([]*ai.Outcome, bool) { return []*ai.Outcome{ai.Return(c.S, ai.Sym("needed"))}, true },
		"(*frameReader).addChunk": func(c *ai.Call) ([]*ai.Outcome, bool) { return []*ai.Outcome{ai.Return(c.S)}, true },
	}
	rl.u.sticky = func(f *ai.Term) bool {
		return openOf(f) != nil || f.Op == "eq" && f.Contains(ai.Sym("header"))
	}
	return h, body
}

// recordReading checks what ReadRecord returns, for C12.
func recordReading(c *check.Ctx) {
	c.Rule("OPEN", "with keys installed a record is returned only if opening its body succeeded with the key and IV of the record's epoch, its number and its header")
	c.Rule("TYPE", "content type and content of a protected record are those before the last non-zero byte of what was opened; a record without one is refused")
	c.Rule("PLAIN", "without keys a record is returned as it was received")
	c.Rule("SIZE", "records of more than 2^14+256 bytes, or with content of more than 2^14 bytes, are refused")
	c.Rule("EPOCH", "only a reader that asks for it gets records of an epoch other than the current one")
	c.Rule("ONCE", "a record is returned once: after it was read the next one is, also if it had been looked at; the number expected next grows by one")
	entries := []string{"DefaultRecordLayer.ReadRecord", "DefaultRecordLayer.ReadRecordAnyEpoch", "DefaultRecordLayer.PeekRecordType"}
	for _, datagram := range []bool{false, true} {
		for _, protected := range []bool{true, false} {
			for _, e := range entries {
				for _, size := range []*ai.Term{nil, ai.Int(20)} {
					if e == "DefaultRecordLayer.ReadRecordAnyEpoch" && c.P.Method("DefaultRecordLayer", "ReadRecordAnyEpoch") == nil {
						continue
					}
					if size != nil {
						ai.AEADOverhead = ai.Int(16)
					}
					rl := newRecordLayer(newUnit(c), datagram, protected)
					if rl == nil {
						return
					}
					h, body := rl.frames(size)
					args := []*ai.Term{rl.r}
					peek := e == "DefaultRecordLayer.PeekRecordType"
					if peek {
						args = append(args, ai.False)
					}
					fn, outs := rl.u.withEvents(nil, e, args...)
					if fn == nil {
						return
					}
					name := fmt.Sprintf("%s %s protected=%v", rl.kind(), e[len("DefaultRecordLayer."):], protected)
					if size != nil {
						name += " of 4 bytes"
					}
					got := 0
					for _, o := range outs {
						if rl.received(c, name, o, h, body, protected, peek, e == "DefaultRecordLayer.ReadRecordAnyEpoch", size != nil) {
							got++
						}
					}
					c.Check(got > 0, "OPEN", name+" returns", fn.Pos(), "no way was found in which a record is returned")
					ai.AEADOverhead = nil
				}
			}
		}
	}
}

func (rl *recordLayer) received(c *check.Ctx, name string, o *ai.Outcome, h, body *ai.Term, protected, peek, anyEpoch, small bool) bool {
	pos := o.Pos
	if fails(o.Result(1)) {
		return false
	}
	if r := o.Result(1); r.Op == "iface" {
		return false
	}
	if !c.Check(o.Result(1) == ai.Nil, "OPEN", name+" result", pos, "the error returned is not certain: %s", clip(o.Result(1))) {
		return false
	}
	cached := o.S.Load(ai.FieldAddr(rl.r, "cachedRecord"))
	pt := o.Result(0)
	if peek {
		pt = cached
	} else {
		c.Check(cached == ai.Nil, "ONCE", name+" consumed", pos, "the record returned stays to be read again: %s", clip(cached))
	}
	if !c.Check(pt.Op == "ptr", "OPEN", name+" record", pos, "the record returned is %s", clip(pt)) {
		return true
	}
	get := func(f string) *ai.Term { return o.S.Pure(o.S.Load(ai.FieldAddr(pt, f))) }
	if peek {
		c.Check(o.Result(0) == get("contentType"), "ONCE", name+" type", pos, "the type reported is not that of the record that is read next: %s", clip(o.Result(0)))
	}
	frag, ct := get("fragment"), get("contentType")
	at := func(i int64) *ai.Term { return elemOf(h, ai.Int(i)) }
	// which cipher state
	epoch := ai.Add(ai.Mul(256, at(3)), at(4), 1)
	name2, state := "current", rl.cipher
	sym := ai.Sym("current")
	if rl.datagram {
		ai.SetWidth(at(3), 8)
		ai.SetWidth(at(4), 8)
		cur, isKnown := o.S.Eval(ai.Eq(epoch, ai.Fld(sym, "epoch")))
		if !isKnown || !cur {
			c.Check(anyEpoch, "EPOCH", name+" current", pos, "a record is returned although its epoch may not be the current one")
			name2, state, sym = "other", rl.other, ai.Sym("other")
			c.Check(known(o, ai.Eq(epoch, ai.Fld(sym, "epoch"))), "EPOCH", name+" other", pos, "the key used may not be that of the record's epoch")
		}
	}
	num := ai.Fld(sym, "seq")
	if rl.datagram {
		num = ai.BigEndian(ai.Sym("header"), ai.Int(3), 8)
	}
	if now := o.S.Load(ai.FieldAddr(state, "seq")); !rl.datagram {
		c.Check(now == ai.Add(num, ai.Int(1), 1), "ONCE", name+" number", pos, "after the record the number expected is %s", clip(now))
	}
	c.Check(get("epoch") == ai.Fld(sym, "epoch"), "EPOCH", name+" epoch", pos, "the record says it has epoch %s", clip(get("epoch")))
	c.Check(get("seq") == num, "OPEN", name+" seq", pos, "the record says it has number %s", clip(get("seq")))
	if !small {
		c.Check(le(o.S, ai.Len(body), ai.Int(maxContent+256)), "SIZE", name+" record", pos, "a record larger than 2^14+256 bytes is accepted")
		c.Check(le(o.S, ai.Len(frag), ai.Int(maxContent)), "SIZE", name+" content", pos, "a record with content larger than 2^14 bytes is accepted")
	}
	if !protected {
		c.Check(frag == body && ct == at(0), "PLAIN", name, pos, "the record is returned with type %s and content %s", clip(ct), clip(frag))
		return true
	}
	// what was opened
	open := openOf(ct)
	if !c.Check(open != nil, "OPEN", name+" opened", pos, "the content type is not taken from what was opened: %s", clip(ct)) {
		return true
	}
	c.Check(known(o, ai.Mk("ok", "", open)), "OPEN", name+" success", pos, "the record is returned even if opening it failed")
	c.Check(open.Args[0] == ai.Fld(sym, "cipher"), "OPEN", name+" key", pos, "the record is opened with %s", clip(open.Args[0]))
	c.Check(ai.Canon(open.Args[1]) == nonceOf(name2, num), "OPEN", name+" nonce", pos, "the nonce is %s", clip(ai.Canon(open.Args[1])))
	c.Check(open.Args[2] == body, "OPEN", name+" ciphertext", pos, "what is opened is %s", clip(open.Args[2]))
	c.Check(ai.Canon(open.Args[3]) == ai.Canon(h), "OPEN", name+" associated data", pos, "the associated data is %s", clip(open.Args[3]))
	if !c.Check(ct.Op == "elem" && ct.Args[0] == open, "TYPE", name+" type", pos, "the content type is %s", clip(ct)) {
		return true
	}
	n := ct.Args[1]
	if le(o.S, n, ai.Int(-1)) {
		return true // no such byte: not reached
	}
	c.Check(frag == ai.Sub(open, ai.Int(0), n), "TYPE", name+" content", pos, "the content is not what precedes the content type but %s", clip(frag))
	v, isKnown := o.S.Eval(ai.Eq(ct, ai.Int(0)))
	c.Check(isKnown && !v, "TYPE", name+" non-zero", pos, "a zero byte may be taken for the content type")
	if small {
		k, ok := n.IsInt()
		if !c.Check(ok && k >= 0 && k < 4, "TYPE", name+" place", pos, "the place of the content type in 4 bytes is %s", clip(n)) {
			return true
		}
		for j := k + 1; j < 4; j++ {
			v, isKnown := o.S.Eval(ai.Eq(ai.Elem(open, ai.Int(j)), ai.Int(0)))
			c.Check(isKnown && v, "TYPE", fmt.Sprintf("%s place %d byte %d", name, k, j), pos, "byte %d may be the content type instead of byte %d", j, k)
		}
	}
	return true
}

// openOf is the opening that a value is part of.
func openOf(t *ai.Term) *ai.Term {
	var open *ai.Term
	t.Walk(func(x *ai.Term) {
		if x.Op == "open" {
			open = x
		}
	})
	return open
}

// keying checks how keys are installed: rule KEYS.
func keying(c *check.Ctx) {
	c.Rule("KEYS", "installing keys yields a new state with record number 0, the AEAD of the key and the IV of the key set; resetting to clear text yields one without a key; on an error nothing changes")
	for i := 0; i < 4; i++ {
		datagram, dir := i >= 2, int64(i%2+1)
		u := newUnit(c)
		rl := newRecordLayer(u, datagram, true)
		if rl == nil {
			return
		}
		u.in.Store(rl.u.init, ai.FieldAddr(rl.r, "direction"), ai.Int(dir))
		epoch, factory, keys := ai.Sym("epoch"), ai.Sym("factory"), ai.Sym("keys")
		fn, outs := rl.u.run("DefaultRecordLayer.Rekey", rl.r, epoch, factory, keys)
		if fn == nil {
			return
		}
		good := 0
		for _, o := range outs {
			now := o.S.Load(ai.FieldAddr(rl.r, "cipher"))
			if fails(o.Result(0)) {
				c.Check(now == rl.cipher, "KEYS", rl.kind()+" Rekey failure", o.Pos, "keys change although installing them failed")
				continue
			}
			good++
			set := ai.Fld(ai.Mk("deref", "", keys), "Keys")
			key := ai.Mk("mapget", "", set, ai.Str("key"))
			iv := ai.Mk("mapget", "", set, ai.Str("iv"))
			rl.fresh(c, o, rl.kind()+" Rekey", now, epoch, ai.Int(0), func(aead *ai.Term) bool {
				return aead.Op == "res" && aead.Aux == "0" && aead.Args[0].Op == "call" && len(aead.Args[0].Args) > 0 && aead.Args[0].Args[len(aead.Args[0].Args)-1] == key && aead.Contains(factory) && known(o, ai.Mk("ok", "", aead.Args[0]))
			}, iv)
			if rl.datagram {
				m := o.S.Load(o.S.Load(ai.FieldAddr(rl.r, "readCiphers")))
				if dir == 2 {
					ok := false
					for i := 0; i+1 < len(m.Args); i += 2 {
						ok = ok || m.Args[i] == epoch && m.Args[i+1] == now
					}
					c.Check(ok, "KEYS", rl.kind()+" Rekey epochs", o.Pos, "the read keys are not recorded for their epoch")
				}
			}
		}
		c.Check(good > 0, "KEYS", rl.kind()+" Rekey", fn.Pos(), "no way was found in which keys are installed")

		rl = newRecordLayer(newUnit(c), datagram, true)
		fn, outs = rl.u.run("DefaultRecordLayer.ResetClear", rl.r, ai.Sym("seq"))
		for _, o := range outs {
			rl.fresh(c, o, rl.kind()+" ResetClear", o.S.Load(ai.FieldAddr(rl.r, "cipher")), ai.Int(0), ai.Sym("seq"), func(a *ai.Term) bool { return a == ai.Nil }, ai.Nil)
		}
	}
	for _, n := range []string{"NewRecordLayerTLS", "NewRecordLayerDTLS"} {
		u := newUnit(c)
		fn, outs := u.run(n)
		if fn == nil {
			return
		}
		rl := &recordLayer{u: u}
		for _, o := range outs {
			r := o.Result(0)
			if !c.Check(r.Op == "ptr", "KEYS", n, o.Pos, "the record layer is %s", clip(r)) {
				continue
			}
			rl.fresh(c, o, n, o.S.Load(ai.FieldAddr(r, "cipher")), ai.Int(0), ai.Int(0), func(a *ai.Term) bool { return a == ai.Nil }, ai.Nil)
			want := ai.Bool(n == "NewRecordLayerDTLS")
			got := o.S.Load(ai.FieldAddr(r, "datagram"))
			c.Check(got == want, "KEYS", n+" kind", o.Pos, "the record layer's datagram flag is %s", clip(got))
			dir := o.S.Load(ai.FieldAddr(r, "direction"))
			c.Check(dir == ai.Sym("dir"), "KEYS", n+" direction", o.Pos, "the record layer's direction is %s", clip(dir))
		}
	}
}

// fresh checks a new cipher state.
func (rl *recordLayer) fresh(c *check.Ctx, o *ai.Outcome, name string, p, epoch, seq *ai.Term, aead func(*ai.Term) bool, iv *ai.Term) {
	if !c.Check(p.Op == "ptr" && p != rl.cipher && p != rl.other, "KEYS", name+" state", o.Pos, "the cipher state is not a new one: %s", clip(p)) {
		return
	}
	get := func(f string) *ai.Term { return o.S.Pure(o.S.Load(ai.FieldAddr(p, f))) }
	c.Check(get("epoch") == epoch, "KEYS", name+" epoch", o.Pos, "the epoch is %s", clip(get("epoch")))
	c.Check(get("seq") == seq, "KEYS", name+" number", o.Pos, "the first record number is %s", clip(get("seq")))
	c.Check(aead(get("cipher")), "KEYS", name+" cipher", o.Pos, "the AEAD is %s", clip(get("cipher")))
	c.Check(get("iv") == iv, "KEYS", name+" iv", o.Pos, "the IV is %s", clip(get("iv")))
}

func recordSites(c *check.Ctx) {
	c.Rule("SITES", "record keys and numbers are only touched by the operations of the record layer")
	keyMaterial(c, "SITES")
	c.Assume("record layers other than DefaultRecordLayer, and AEADs and transports supplied by the application, do what their interfaces say")
	c.Assume("IVs have 12 bytes, which the cipher suite table is checked for")
}

func init() {
	check.Register(&check.Prop{ID: "C11", Explanation: "Every path that writes a record is summarised with the bytes written, for both protocols, with and without a key, and for several paddings; the nonce is compared byte by byte with the IV combined with the record number, and the number's change with one per record. All ways to install keys, and every place that touches key state, are listed and checked.", Run: func(c *check.Ctx) {
		recordWriting(c)
		keying(c)
		recordSites(c)
	}})
	check.Register(&check.Prop{ID: "C12", Explanation: "Every path that returns a record is summarised from a symbolic record layer and a symbolic frame: what was opened, with which key, nonce and associated data, and what is returned as type and content; the search for the type is followed in full for contents of four bytes.", Run: func(c *check.Ctx) {
		recordReading(c)
		keying(c)
		recordSites(c)
	}})
	check.Register(&check.Prop{ID: "C13", Explanation: "Every path that writes a record is summarised with the bytes written: header, sealing, plaintext, associated data and lengths are compared with RFC 8446 5.2; every write to the transport in the library is listed.", Run: func(c *check.Ctx) {
		recordWriting(c)
		keying(c)
		recordSites(c)
		c.Rule("WIRE", "only the record layer writes to the transport")
		transport(c, "WIRE")
	}})
}
