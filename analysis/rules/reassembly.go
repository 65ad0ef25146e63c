package rules

import (
	"fmt"
	"go/types"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// Reassembly: sequences of fragments are followed through the handshake
// layer, from the record that holds a fragment to the message delivered.

// fragment is a fragment as it arrives.
type fragment struct {
	typ, seq, length, off, n int64
}

func (f fragment) String() string {
	return fmt.Sprintf("%d@%d[%d+%d/%d]", f.typ, f.seq, f.off, f.n, f.length)
}

// data is a fragment on the wire: its header, and a body that the fragment's
// position in the sequence names.
func (f fragment) data(datagram bool, id string) *ai.Term {
	b := func(v int64, n int) string {
		s := ""
		for i := n - 1; i >= 0; i-- {
			s += string([]byte{byte(v >> uint(8*i))})
		}
		return s
	}
	h := b(f.typ, 1) + b(f.length, 3)
	if datagram {
		h += b(f.seq, 2) + b(f.off, 3) + b(f.n, 3)
	}
	return ai.Cat(ai.Str(h), ai.Sub(ai.Sym(id), ai.Int(0), ai.Int(f.n)))
}

// receiver is a handshake layer that is given records.
type receiver struct {
	u     *unit
	layer *ai.Term
	next  *ai.Term // content of the record that waits, if any
	seq   int64
	ctype int64
	ack   int64 // the record type of acknowledgements
	epoch int64
	ctx   *ai.Term
	out   *ai.Term // the handshake layer for output
	outRL *ai.Term
	now   int64      // the time, in nanoseconds
	wrote []*ai.Term // records written since the last arrival or call
	calls []*ai.Term // callbacks called
}

func newReceiver(c *check.Ctx, datagram bool) (*receiver, *ai.State) {
	u := newUnit(c)
	r := &receiver{u: u, ctype: 22, epoch: 2}
	scope := c.P.Main.Types.Scope()
	typ := func(n string) types.Type {
		if o, ok := scope.Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if r.ack, _ = alertConst(u, "RecordTypeAck").IsInt(); r.ack == 0 {
		return nil, nil
	}
	rlt, ctxt := typ("DefaultRecordLayer"), typ("HandshakeContext")
	if rlt == nil || ctxt == nil {
		return nil, nil
	}
	s := u.init.Clone()
	rl := u.in.NewObject(s, "input", rlt, ai.Expand(ai.Sym("inputlayer"), rlt))
	ctx := u.in.NewObject(s, "context", ctxt, ai.Zero(ctxt))
	out := u.in.NewObject(s, "output", rlt, ai.Expand(ai.Sym("outputlayer"), rlt))
	u.in.Store(s, ai.FieldAddr(out, "datagram"), ai.Bool(datagram))
	u.in.Store(s, ai.FieldAddr(out, "version"), ai.Int(0x0303))
	u.init = s
	r.ctx, r.outRL = ctx, out
	u.roots = []*ai.Term{rl, ctx, out}
	epoch := func(call *ai.Call) ([]*ai.Outcome, bool) {
		return []*ai.Outcome{ai.Return(call.S, ai.Int(2))}, true
	}
	read := func(call *ai.Call) ([]*ai.Outcome, bool) {
		if r.next == nil || noted(call.S, "read") > 0 {
			return []*ai.Outcome{ai.Return(call.S, ai.Nil, r.u.alertError(254))}, true
		}
		t := call.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		id := fmt.Sprintf("record%d", r.seq)
		p := u.in.NewObject(call.S, id, t, ai.Expand(ai.Sym(id), t))
		u.in.Store(call.S, ai.FieldAddr(p, "contentType"), ai.Int(r.ctype))
		u.in.Store(call.S, ai.FieldAddr(p, "fragment"), r.next)
		u.in.Store(call.S, ai.FieldAddr(p, "epoch"), ai.Int(r.epoch))
		u.in.Store(call.S, ai.FieldAddr(p, "seq"), ai.Int(r.epoch<<48+r.seq))
		note(call.S, ai.Mk("ev", "read"))
		return []*ai.Outcome{ai.Return(call.S, p, ai.Nil)}, true
	}
	write := func(call *ai.Call) ([]*ai.Outcome, bool) {
		b := call.S.Deep(call.S.Pure(call.Args[1]))
		note(call.S, ai.Mk("ev", "write", b))
		return []*ai.Outcome{ai.Return(call.S, ai.Len(b), ai.Nil)}, true
	}
	dyn := func(call *ai.Call) ([]*ai.Outcome, bool) {
		if call.Args[0].Op != "sym" {
			return nil, false
		}
		note(call.S, ai.Mk("ev", "call", call.Args[0]))
		if strings.HasPrefix(call.Args[0].Aux, "failing") {
			return []*ai.Outcome{ai.Return(call.S, r.u.alertError(80))}, true
		}
		return []*ai.Outcome{ai.Return(call.S, ai.Nil)}, true
	}
	clock := func(f func(c *ai.Call, n []int64) *ai.Term) ai.Prim {
		return func(call *ai.Call) ([]*ai.Outcome, bool) {
			var n []int64
			for _, a := range call.Args {
				k, ok := a.IsInt()
				if !ok {
					return nil, false
				}
				n = append(n, k)
			}
			return []*ai.Outcome{ai.Return(call.S, f(call, n))}, true
		}
	}
	u.over = map[string]ai.Prim{"invoke:io.ReadWriter.Write": write, "dyn": dyn, "syntax.Unmarshal": r.unmarshalAck, "syntax.Marshal": r.marshalAck,
		// as they are written
		"(*HandshakeMessage).Marshal": asWritten, "(*HandshakeContext).receivedEndOfFlight": asWritten, "(*HandshakeContext).receivedFinalFlight": asWritten, "(*HandshakeContext).receivedHandshakeMessage": asWritten,
		"time.Now":           clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Int(r.now) }),
		"time.Until":         clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Int(n[0] - r.now) }),
		"(time.Time).Add":    clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Int(n[0] + n[1]) }),
		"(time.Time).Sub":    clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Int(n[0] - n[1]) }),
		"(time.Time).Before": clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Bool(n[0] < n[1]) }),
		"(time.Time).After":  clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Bool(n[0] > n[1]) }),
		"(time.Time).Equal":  clock(func(c *ai.Call, n []int64) *ai.Term { return ai.Bool(n[0] == n[1]) }),
		fnReadRecord:         read, "(*DefaultRecordLayer).ReadRecord": read, "(*DefaultRecordLayer).ReadRecordAnyEpoch": read,
		"invoke:RecordLayer.Epoch": epoch, "(*DefaultRecordLayer).Epoch": epoch}
	for _, d := range []bool{true, false} {
		name := "NewHandshakeLayerTLS"
		if datagram {
			name = "NewHandshakeLayerDTLS"
		}
		conn := ai.IfaceOf(types.NewPointer(rlt), rl)
		if !d {
			conn = ai.IfaceOf(types.NewPointer(rlt), out)
		}
		fn, outs := u.exactly(nil, name, ctx, conn)
		if fn == nil || len(outs) != 1 {
			c.Check(fn == nil, "DELIVER", name, 0, "%s is not certain to make a layer", name)
			return nil, nil
		}
		l := outs[0].Result(0)
		u.init = outs[0].S
		u.roots = append(u.roots, l)
		if d {
			r.layer = l
			u.in.Store(u.init, ai.FieldAddr(ctx, "hIn"), l)
			u.in.Store(u.init, ai.FieldAddr(l, "nonblocking"), ai.True)
		} else {
			r.out = l
			u.in.Store(u.init, ai.FieldAddr(ctx, "hOut"), l)
		}
	}
	if fn, outs := u.exactly(nil, "newTimerSet"); fn != nil && len(outs) == 1 {
		u.init = outs[0].S
		u.roots = append(u.roots, outs[0].Result(0))
		u.in.Store(u.init, ai.FieldAddr(ctx, "timers"), outs[0].Result(0))
	}
	return r, u.init
}

// ackAt is the acknowledgement that an argument of the encoding points to. How
// one is laid out is for LAYOUT to judge.
func (r *receiver) ackAt(call *ai.Call, arg *ai.Term) *ai.Term {
	t := arg.Typ
	for i := 0; i < 3 && t != nil; i++ {
		p, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); !ok || n.Obj().Name() != "DtlsAck" || arg.Op != "iface" {
		return nil
	}
	at := arg.Args[0]
	if _, double := arg.Typ.(*types.Pointer).Elem().(*types.Pointer); double {
		at = call.S.Load(at)
	}
	return ai.FieldAddr(at, "RecordNumbers")
}

func (r *receiver) unmarshalAck(call *ai.Call) ([]*ai.Outcome, bool) {
	at := r.ackAt(call, call.Args[1])
	if at == nil {
		return nil, false
	}
	data, ok := call.S.Deep(call.S.Pure(call.Args[0])).IsStr()
	if !ok {
		return nil, false
	}
	n := 0
	if len(data) >= 2 {
		n = int(data[0])<<8 | int(data[1])
	}
	if len(data) < 2+n || n%8 != 0 {
		return []*ai.Outcome{ai.Return(call.S, ai.Int(0), r.u.alertError(50))}, true
	}
	var els []*ai.Term
	for i := 2; i < 2+n; i += 8 {
		v := int64(0)
		for _, b := range []byte(data[i : i+8]) {
			v = v<<8 | int64(b)
		}
		els = append(els, ai.Int(v))
	}
	list := ai.Nil
	if len(els) > 0 {
		list = ai.Mk("list", "uint64", els...)
	}
	r.u.in.Store(call.S, at, list)
	return []*ai.Outcome{ai.Return(call.S, ai.Int(int64(2+n)), ai.Nil)}, true
}

func (r *receiver) marshalAck(call *ai.Call) ([]*ai.Outcome, bool) {
	at := r.ackAt(call, call.Args[0])
	if at == nil {
		return nil, false
	}
	list := call.S.Deep(call.S.Load(at))
	n, ok := call.S.LenOf(list).IsInt()
	if !ok {
		return nil, false
	}
	var numbers []int64
	for i := int64(0); i < n; i++ {
		v, ok := call.S.Elem(list, ai.Int(i)).IsInt()
		if !ok {
			return nil, false
		}
		numbers = append(numbers, v)
	}
	return []*ai.Outcome{ai.Return(call.S, ackOf(numbers), ai.Nil)}, true
}

func asWritten(*ai.Call) ([]*ai.Outcome, bool) { return nil, false }

// note adds an event to the trace.
func note(s *ai.State, ev *ai.Term) {
	g := s.Ghost()
	if g.Op != "trace" {
		g = ai.Mk("trace", "")
	}
	s.SetGhost(ai.Mk("trace", "", append(append([]*ai.Term(nil), g.Args...), ev)...))
}

// noted is how often an event happened.
func noted(s *ai.State, ev string) int {
	n := 0
	for _, e := range s.Ghost().Args {
		if e.Op == "ev" && e.Aux == ev {
			n++
		}
	}
	return n
}

// call runs a function that is certain to have one outcome.
func (r *receiver) call(s *ai.State, name string, args ...*ai.Term) (*ai.Outcome, string) {
	s = s.Clone()
	s.SetGhost(ai.Mk("trace", ""))
	r.u.init = s
	fn, outs := r.u.exactly(nil, name, args...)
	if fn == nil {
		return nil, "is not there"
	}
	if len(outs) != 1 {
		return nil, fmt.Sprintf("has %d outcomes (0: panics)", len(outs))
	}
	if outs[0].Panic {
		return nil, "panics"
	}
	for _, e := range outs[0].S.Ghost().Args {
		switch e.Aux {
		case "write":
			r.wrote = append(r.wrote, e.Args[0])
		case "call":
			r.calls = append(r.calls, e.Args[0])
		}
	}
	return outs[0], ""
}

// read calls ReadMessage, with a record waiting or not.
func (r *receiver) read(s *ai.State, next *ai.Term) (out *ai.Outcome, took bool, why string) {
	r.next = next
	o, why := r.call(s, "HandshakeLayer.ReadMessage", r.layer)
	if o == nil {
		return nil, false, why
	}
	return o, noted(o.S, "read") > 0, ""
}

// message is a message that the layer delivered.
type message struct {
	typ, length, offset, seq int64
	body                     *ai.Term
}

// arrive gives the layer one record and returns the messages it delivers
// until it waits for the next, and whether it fails.
func (r *receiver) arrive(s *ai.State, next *ai.Term) (to *ai.State, msgs []message, failed bool, why string) {
	r.seq++
	r.wrote, r.calls = nil, nil
	left := next
	for i := 0; ; i++ {
		if i > 12 {
			return nil, nil, false, "does not come to wait for a record"
		}
		o, took, why := r.read(s, left)
		if o == nil {
			return nil, nil, false, why
		}
		s = o.S
		if err := o.Result(1); err == r.u.alertError(254) {
			if left != nil && !took {
				return nil, nil, false, "does not read the record"
			}
			return s, msgs, false, ""
		} else if err != ai.Nil {
			return s, msgs, true, ""
		}
		if took {
			left = nil
		}
		if o.Result(0) == ai.Nil {
			continue
		}
		var m message
		for n, v := range map[string]*int64{"msgType": &m.typ, "length": &m.length, "offset": &m.offset, "seq": &m.seq} {
			x, ok := s.Load(ai.FieldAddr(o.Result(0), n)).IsInt()
			if !ok {
				return nil, nil, false, "delivers a message with a " + n + " that is not certain"
			}
			*v = x
		}
		m.body = s.Deep(s.Load(ai.FieldAddr(o.Result(0), "body")))
		if n, ok := ai.Len(m.body).IsInt(); !ok || n != m.length {
			return nil, nil, false, "delivers a message whose body has not its length"
		}
		msgs = append(msgs, m)
	}
}

// arrival is a fragment that arrived, and the name of its bytes.
type arrival struct {
	fragment
	id string
}

// expected judges what is delivered after fragments arrived.
func expected(past []arrival, seq int64, got []message, failed bool) (int64, string) {
	of := func(seq int64) (fs []arrival, same bool) {
		same = true
		for _, f := range past {
			if f.seq == seq && f.off+f.n <= f.length {
				fs = append(fs, f)
				same = same && f.length == fs[0].length && f.typ == fs[0].typ
			}
		}
		return fs, same
	}
	covered := func(fs []arrival, typ, length int64) bool {
		if len(fs) == 0 {
			return false
		}
		for p := int64(0); p < length; p++ {
			in := false
			for _, f := range fs {
				in = in || f.typ == typ && f.length == length && f.off <= p && p < f.off+f.n
			}
			if !in {
				return false
			}
		}
		return true
	}
	for i := 0; ; i++ {
		fs, same := of(seq)
		if i == len(got) {
			switch {
			case failed && same:
				return seq, "fails although the fragments of the message that is due agree"
			case !failed && same && len(fs) > 0 && covered(fs, fs[0].typ, fs[0].length):
				return seq, "does not deliver the message that is due although fragments cover it"
			}
			return seq, ""
		}
		m := got[i]
		if m.seq != seq {
			return seq, fmt.Sprintf("delivers message %d where message %d is due", m.seq, seq)
		}
		if m.offset != 0 {
			return seq, "delivers a message with an offset"
		}
		if !covered(fs, m.typ, m.length) {
			return seq, fmt.Sprintf("delivers a message of type %d and length %d that no fragments cover", m.typ, m.length)
		}
		for p := int64(0); p < m.length; p++ {
			from := false
			for _, f := range fs {
				if f.typ == m.typ && f.length == m.length && f.off <= p && p < f.off+f.n {
					from = from || byteAt(m.body, p) == byteAt(ai.Sub(ai.Sym(f.id), ai.Int(0), ai.Int(f.n)), p-f.off)
				}
			}
			if !from {
				return seq, fmt.Sprintf("delivers byte %d of a message from something other than that position of its fragments", p)
			}
		}
		seq++
	}
}

// The fragments that sequences are made of: all that one message of three
// bytes can be cut into, ones that lie outside it or disagree with it, ones of
// the messages after it, and messages without a body.
var arrivals = []fragment{
	{1, 0, 3, 0, 1}, {1, 0, 3, 1, 1}, {1, 0, 3, 2, 1}, {1, 0, 3, 0, 2}, {1, 0, 3, 1, 2}, {1, 0, 3, 0, 3},
	{1, 0, 3, 2, 2}, {1, 0, 3, 4, 1}, {1, 0, 2, 0, 2}, {1, 0, 4, 2, 1}, {2, 0, 3, 1, 2}, {2, 0, 3, 0, 3}, {1, 0, 0, 0, 0},
	{11, 1, 1, 0, 1}, {11, 1, 2, 0, 1}, {11, 1, 2, 1, 1}, {20, 2, 0, 0, 0},
}

// More of them.
var arrivalsRare = []fragment{{1, 0, 3, 0, 0}, {1, 0, 2, 1, 1}, {11, 1, 1, 1, 1}, {20, 2, 1, 0, 1}}

// The fragments of the sequences of four.
var arrivalsLong = []fragment{
	{1, 0, 3, 0, 1}, {1, 0, 3, 2, 1}, {1, 0, 3, 1, 2}, {11, 1, 2, 0, 1}, {11, 1, 2, 1, 1}, {20, 2, 0, 0, 0},
}

// The fragments of the sequences after a message was delivered.
var arrivalsAfter = []fragment{
	{1, 0, 3, 0, 3}, {1, 0, 3, 0, 1}, {1, 0, 3, 1, 2}, {11, 1, 2, 0, 1}, {11, 1, 2, 1, 1}, {11, 1, 2, 0, 2}, {20, 2, 0, 0, 0},
}

func reassembly(c *check.Ctx) {
	c.Rule("DELIVER", "for every sequence of up to three of the listed fragments, also after a delivered message, and four of the shorter list: a message is delivered exactly when its turn has come and fragments of it that agree on its type and length cover it, once, in the order of the numbers, with the bytes those fragments have at each position")
	r, s := newReceiver(c, true)
	if r == nil {
		return
	}
	pos := c.P.Method("HandshakeLayer", "ReadMessage").Pos()
	sequences, bad := 0, map[string]bool{}
	var follow func(alphabet []fragment, s *ai.State, past []arrival, seq int64, left int)
	follow = func(alphabet []fragment, s *ai.State, past []arrival, seq int64, left int) {
		for _, f := range alphabet {
			if len(bad) > 5 {
				return
			}
			a := arrival{f, fmt.Sprintf("bytes%d", len(past))}
			now := append(append([]arrival(nil), past...), a)
			sequences++
			to, msgs, failed, why := r.arrive(s, f.data(true, a.id))
			next := seq
			if why == "" {
				next, why = expected(now, seq, msgs, failed)
			}
			if why != "" {
				var names []string
				for _, x := range now {
					names = append(names, x.String())
				}
				if !bad[why] {
					c.Fail("DELIVER", "HandshakeLayer.ReadMessage", pos, "when fragments arrive (type@number[offset+size/length]) %v, ReadMessage %s", names, why)
				}
				bad[why] = true
				continue
			}
			if len(now) == 2 {
				c.OK("DELIVER", fmt.Sprintf("ReadMessage, sequences of %d from %v %v", left+1, now[0], now[1]))
			}
			if failed || left <= 1 {
				continue
			}
			follow(alphabet, to, now, next, left-1)
		}
	}
	if c.Thorough() {
		follow(append(arrivals, arrivalsRare...), s, nil, 0, 3)
		follow(append(arrivalsLong, arrivals[1], arrivals[3]), s, nil, 0, 4)
	} else {
		follow(arrivals, s, nil, 0, 3)
		follow(arrivalsLong, s, nil, 0, 4)
	}
	// and the same after a message was delivered
	whole := arrival{fragment{1, 0, 3, 0, 3}, "before"}
	if to, msgs, failed, why := r.arrive(s, whole.data(true, whole.id)); why == "" && !failed && len(msgs) == 1 {
		follow(arrivalsAfter, to, []arrival{whole}, 1, 3)
	}
	c.Cover("sequences of fragments", sequences)
	c.Min("DELIVER", 200)
}

// otherEpochs: what arrives in records of another epoch takes no part.
func otherEpochs(c *check.Ctx) {
	c.Rule("EPOCH", "fragments that arrive in records of another epoch than the current one contribute nothing and do not end the connection where late records of the handshake explain them")
	r, s := newReceiver(c, true)
	if r == nil {
		return
	}
	pos := c.P.Method("HandshakeLayer", "ReadMessage").Pos()
	whole, half, rest := fragment{1, 0, 3, 0, 3}, fragment{1, 0, 3, 0, 2}, fragment{1, 0, 3, 2, 1}
	for epoch := int64(0); epoch < 5; epoch++ {
		if epoch == 2 {
			continue
		}
		construct := fmt.Sprintf("ReadMessage, record of epoch %d while the epoch is 2", epoch)
		for _, before := range []bool{false, true} {
			now, arrived := s, whole
			if before {
				arrived = rest
				r.epoch = 2
				to, _, _, why := r.arrive(s, half.data(true, "half"))
				if why != "" {
					c.Fail("EPOCH", construct, pos, "ReadMessage %s", why)
					continue
				}
				now = to
			}
			r.epoch = epoch
			to, msgs, failed, why := r.arrive(now, arrived.data(true, "other"))
			late := epoch == 0
			if !c.Check(why == "" && len(msgs) == 0 && !(failed && late), "EPOCH", construct, pos, "a fragment in a record of epoch %d, while the epoch is 2, is delivered or ends the connection %s", epoch, why) || failed {
				continue
			}
			r.epoch = 2
			_, msgs, failed, why = r.arrive(to, whole.data(true, "own"))
			ok := why == "" && !failed && len(msgs) == 1
			for p := int64(0); ok && p < 3; p++ {
				from := msgs[0].body
				ok = byteAt(from, p) == byteAt(ai.Sub(ai.Sym("own"), ai.Int(0), ai.Int(3)), p) || before && byteAt(from, p) == byteAt(ai.Sub(ai.Sym("half"), ai.Int(0), ai.Int(2)), p)
			}
			c.Check(ok, "EPOCH", construct, pos, "after a fragment in a record of epoch %d, while the epoch is 2, the message is not delivered from its own fragments %s", epoch, why)
		}
	}
	r.epoch = 2
}

// framing: messages do not depend on where records begin and end.
func framing(c *check.Ctx) {
	c.Rule("FRAMES", "wherever a stream of handshake messages is cut into up to three records, the messages read are the ones in the stream, complete, in order, and as soon as their last byte has arrived")
	r, s := newReceiver(c, false)
	if r == nil {
		return
	}
	pos := c.P.Method("HandshakeLayer", "ReadMessage").Pos()
	sent := []fragment{{1, 0, 2, 0, 2}, {20, 0, 0, 0, 0}, {11, 0, 258, 0, 258}, {8, 0, 1, 0, 1}}
	var stream *ai.Term = ai.Empty
	var ends []int64
	for i, f := range sent {
		stream = ai.Cat(stream, f.data(false, fmt.Sprintf("body%d", i)))
		n, _ := ai.Len(stream).IsInt()
		ends = append(ends, n)
	}
	total, _ := ai.Len(stream).IsInt()
	var cuts []int64
	for _, k := range []int64{1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 15, 16, 100, 270, 271, 272, 273, 274, 275, 276} {
		if k < total {
			cuts = append(cuts, k)
		}
	}
	for i, x := range cuts {
		for _, y := range cuts[i:] {
			construct := fmt.Sprintf("ReadMessage, %d bytes in records that end at %d and %d", total, x, y)
			now, got, why, from := s, 0, "", int64(0)
			for _, to := range []int64{x, y, total} {
				if from == to {
					continue
				}
				next, msgs, failed, w := r.arrive(now, ai.Sub(stream, ai.Int(from), ai.Int(to)))
				if w == "" && failed {
					w = "fails"
				}
				for _, m := range msgs {
					if w != "" {
						break
					}
					if got >= len(sent) || m.typ != sent[got].typ || m.length != sent[got].length {
						w = fmt.Sprintf("delivers a message of type %d and length %d that was not sent", m.typ, m.length)
						break
					}
					for p := int64(0); p < m.length; p++ {
						if byteAt(m.body, p) != byteAt(stream, ends[got]-m.length+p) {
							w = fmt.Sprintf("delivers byte %d of message %d from elsewhere", p, got)
							break
						}
					}
					got++
				}
				if w == "" {
					want := 0
					for want < len(ends) && ends[want] <= to {
						want++
					}
					if got != want {
						w = fmt.Sprintf("has delivered %d messages where %d are complete", got, want)
					}
				}
				if why = w; why != "" {
					break
				}
				now, from = next, to
			}
			c.Check(why == "", "FRAMES", construct, pos, "ReadMessage %s", why)
		}
	}
	c.Min("FRAMES", 100)
}

func init() {
	check.Register(&check.Prop{ID: "C28", Explanation: "Sequences of fragments are followed through the handshake layer, from the record that holds a fragment to the message delivered, with the bytes of each fragment kept apart.", Run: func(c *check.Ctx) {
		headers(c)
		reassembly(c)
		otherEpochs(c)
		numbers(c)
	}})
}
