package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	ai "mintcheck/absint"
	"mintcheck/check"

	"golang.org/x/tools/go/ssa"
)

// Retransmission: what the handshake layer writes is followed from the records
// it sends, through the acknowledgements that arrive, to the records it sends
// again.

// sentRecord is a record that was written.
type sentRecord struct {
	ctype, epoch, number int64 // number includes the epoch
	fragment
	body *ai.Term
}

// written reads records that were written without protection.
func (r *receiver) written() ([]sentRecord, string) {
	var out []sentRecord
	for _, w := range r.wrote {
		num := func(at, n int64) int64 {
			v := int64(0)
			for i := int64(0); i < n; i++ {
				b, ok := byteAt(w, at+i).IsInt()
				if !ok {
					return -1
				}
				v = v<<8 | b
			}
			return v
		}
		total, ok := ai.Len(w).IsInt()
		if !ok || total < 13 {
			return nil, "writes a record whose length is not certain"
		}
		rec := sentRecord{ctype: num(0, 1), epoch: num(3, 2), number: num(3, 8)}
		if rec.ctype < 0 || rec.epoch < 0 || rec.number < 0 || num(11, 2) != total-13 {
			return nil, "writes a record whose header is not certain"
		}
		if rec.ctype == 22 {
			if total < 25 {
				return nil, "writes less than a handshake header"
			}
			rec.fragment = fragment{typ: num(13, 1), length: num(14, 3), seq: num(17, 2), off: num(19, 3), n: num(22, 3)}
			rec.body = ai.Sub(w, ai.Int(25), ai.Int(total))
			if rec.n != total-25 || rec.typ < 0 || rec.length < 0 || rec.seq < 0 || rec.off < 0 {
				return nil, "writes a fragment whose header does not fit it"
			}
		} else {
			rec.body = ai.Sub(w, ai.Int(13), ai.Int(total))
		}
		out = append(out, rec)
	}
	r.wrote = nil
	return out, ""
}

// flight is what is sent, and may be sent again.
type flight struct {
	msgs   []fragment // whole messages
	epochs []int64
	cutAt  int64
}

// cover judges records that were written: all handshake fragments of the
// messages, under their own keys, with their bytes; none that lies in one
// acknowledged fragment; and together everything that no acknowledged fragment
// contains.
func (f *flight) cover(recs []sentRecord, acked []sentRecord, seen map[int64]bool) string {
	within := func(x sentRecord, list []sentRecord) bool {
		for _, a := range list {
			if a.seq == x.seq && a.off <= x.off && x.off+x.n <= a.off+a.n {
				return true
			}
		}
		return false
	}
	for _, x := range recs {
		if x.ctype != 22 {
			return fmt.Sprintf("writes a record of type %d", x.ctype)
		}
		if seen[x.number] {
			return "uses the number of a record again"
		}
		seen[x.number] = true
		if x.seq >= int64(len(f.msgs)) {
			return fmt.Sprintf("writes a fragment of message %d", x.seq)
		}
		m := f.msgs[x.seq]
		if x.typ != m.typ || x.length != m.length || x.off+x.n > m.length {
			return fmt.Sprintf("writes the fragment %v of message %v", x.fragment, m)
		}
		if x.epoch != f.epochs[x.seq] {
			return fmt.Sprintf("writes message %d, which belongs to epoch %d, in epoch %d", x.seq, f.epochs[x.seq], x.epoch)
		}
		for i := int64(0); i < x.n; i++ {
			if byteAt(x.body, i) != byteAt(ai.Sub(ai.Sym(fmt.Sprintf("message%d", x.seq)), ai.Int(0), ai.Int(m.length)), x.off+i) {
				return fmt.Sprintf("writes other bytes at %d of message %d", x.off+i, x.seq)
			}
		}
		if within(x, acked) {
			return fmt.Sprintf("sends %v again although it is acknowledged", x.fragment)
		}
	}
	for i, m := range f.msgs {
		one := sentRecord{fragment: fragment{seq: int64(i), n: 1}}
		for p := int64(0); p < m.length; p++ {
			one.off = p
			if !within(one, acked) && !within(one, recs) {
				return fmt.Sprintf("does not send byte %d of message %d, which is not acknowledged", p, i)
			}
		}
		one.off, one.n = 0, 0
		if m.length == 0 && !within(one, acked) && !within(one, recs) {
			return fmt.Sprintf("does not send message %d, which is not acknowledged", i)
		}
	}
	return ""
}

const (
	dtlsHeader = 12
	second     = int64(1000 * 1000 * 1000)
)

// newFlight queues three messages in two epochs.
func newFlight(c *check.Ctx) (*receiver, *ai.State, *flight) {
	r, s := newReceiver(c, true)
	if r == nil {
		return nil, nil, nil
	}
	f := &flight{msgs: []fragment{{1, 0, 5, 0, 5}, {20, 1, 3, 0, 3}, {8, 2, 0, 0, 0}}, epochs: []int64{0, 2, 2}}
	ct, mt := c.P.Main.Types.Scope().Lookup("cipherState"), c.P.Main.Types.Scope().Lookup("HandshakeMessage")
	if ct == nil || mt == nil {
		return nil, nil, nil
	}
	s = s.Clone()
	cipher := map[int64]*ai.Term{}
	for _, e := range []int64{0, 2, 3} {
		p := r.u.in.NewObject(s, fmt.Sprintf("keys%d", e), ct.Type(), ai.Zero(ct.Type()))
		r.u.in.Store(s, ai.FieldAddr(p, "epoch"), ai.Int(e))
		r.u.in.Store(s, ai.FieldAddr(p, "seq"), ai.Int(5+e))
		cipher[e] = p
		r.u.roots = append(r.u.roots, p)
	}
	r.u.in.Store(s, ai.FieldAddr(r.ctx, "timeoutMS"), ai.Int(1000))
	for i, m := range f.msgs {
		p := r.u.in.NewObject(s, fmt.Sprintf("queued%d", i), mt.Type(), ai.Zero(mt.Type()))
		r.u.in.Store(s, ai.FieldAddr(p, "msgType"), ai.Int(m.typ))
		r.u.in.Store(s, ai.FieldAddr(p, "seq"), ai.Int(int64(i)))
		r.u.in.Store(s, ai.FieldAddr(p, "datagram"), ai.True)
		r.u.in.Store(s, ai.FieldAddr(p, "length"), ai.Int(m.length))
		r.u.in.Store(s, ai.FieldAddr(p, "body"), ai.Sub(ai.Sym(fmt.Sprintf("message%d", i)), ai.Int(0), ai.Int(m.length)))
		r.u.in.Store(s, ai.FieldAddr(r.outRL, "cipher"), cipher[f.epochs[i]])
		r.u.roots = append(r.u.roots, p)
		o, why := r.call(s, "HandshakeLayer.QueueMessage", r.out, p)
		if o == nil || o.Result(0) != ai.Nil || len(r.wrote) > 0 {
			c.Fail("RESEND", "HandshakeLayer.QueueMessage", c.P.Method("HandshakeLayer", "QueueMessage").Pos(), "QueueMessage %s, or fails, or writes", why)
			return nil, nil, nil
		}
		s = o.S
	}
	r.u.in.Store(s, ai.FieldAddr(r.outRL, "cipher"), cipher[3])
	return r, r.cut(s, 2), f
}

// cut limits the bytes of a message in one record.
func (r *receiver) cut(s *ai.State, n int64) *ai.State {
	s = s.Clone()
	r.u.in.Store(s, ai.FieldAddr(r.out, "maxFragmentLen"), ai.Int(dtlsHeader+n))
	return s
}

// ackOf is the content of an acknowledgement.
func ackOf(numbers []int64) *ai.Term {
	b := []byte{byte(len(numbers) * 8 >> 8), byte(len(numbers) * 8)}
	for _, n := range numbers {
		for i := 7; i >= 0; i-- {
			b = append(b, byte(n>>uint(8*i)))
		}
	}
	return ai.Str(string(b))
}

// acknowledge gives the layer an acknowledgement.
func (r *receiver) acknowledge(s *ai.State, numbers []int64) (*ai.State, []sentRecord, string) {
	r.ctype = r.ack
	to, msgs, failed, why := r.arrive(s, ackOf(numbers))
	r.ctype = 22
	if why == "" && (failed || len(msgs) > 0) {
		why = "fails, or delivers a message"
	}
	if why != "" {
		return nil, nil, why
	}
	recs, why := r.written()
	return to, recs, why
}

// expire lets time pass and runs the timers.
func (r *receiver) expire(s *ai.State, after int64) (*ai.State, []sentRecord, string) {
	r.now += after
	r.wrote = nil
	o, why := r.call(s, "timerSet.check", s.Load(ai.FieldAddr(r.ctx, "timers")), ai.Int(r.now))
	if o == nil {
		return nil, nil, "timerSet.check " + why
	}
	recs, why := r.written()
	return o.S, recs, why
}

func retransmission(c *check.Ctx) {
	c.Rule("RESEND", "for a flight of three messages in six records and every set of those records acknowledged, and then each one of all records sent: what is sent again is what no acknowledged record carried, with the bytes, message numbers, offsets and epoch of the first time and new record numbers; it is sent again when the timer expires, and not once everything is acknowledged")
	r, s, f := newFlight(c)
	if r == nil {
		return
	}
	pos := c.P.Method("HandshakeLayer", "SendQueuedMessages").Pos()
	fail := func(construct, why string) {
		c.Fail("RESEND", construct, pos, "%s", why)
	}
	o, why := r.call(s, "HandshakeLayer.SendQueuedMessages", r.out)
	if o == nil {
		fail("HandshakeLayer.SendQueuedMessages", "SendQueuedMessages "+why)
		return
	}
	first, why := r.written()
	seen0 := map[int64]bool{}
	if why == "" {
		why = f.cover(first, nil, seen0)
	}
	if why == "" && len(first) < 3 {
		why = "cuts no messages"
	}
	if why != "" {
		fail("HandshakeLayer.SendQueuedMessages, first time", "SendQueuedMessages "+why)
		return
	}
	c.OK("RESEND", "HandshakeLayer.SendQueuedMessages, first time")
	s = o.S
	everything := func(acked []sentRecord) bool {
		return f.cover(nil, acked, map[int64]bool{}) == ""
	}
	problems := 0
	for set := 0; set < 1<<uint(len(first)) && problems < 4; set++ {
		var acked []sentRecord
		var numbers []int64
		for i, x := range first {
			if set>>uint(i)&1 == 1 {
				acked = append(acked, x)
				numbers = append(numbers, x.number)
			}
		}
		construct := fmt.Sprintf("records acknowledged: %b of %d", set, len(first))
		seen := map[int64]bool{}
		for n := range seen0 {
			seen[n] = true
		}
		sent := append([]sentRecord(nil), first...)
		step := func(what string, recs []sentRecord, why string) bool {
			if why == "" {
				why = f.cover(recs, acked, seen)
			}
			sent = append(sent, recs...)
			if why != "" {
				problems++
				fail(construct, what+" "+why)
				return false
			}
			return true
		}
		r.now = 0
		to, recs, why := r.acknowledge(s, numbers)
		if !step("the acknowledgement", recs, why) {
			continue
		}
		// the timer runs, and again
		if to, recs, why = r.expire(r.cut(to, 3), 5*second); !step("expiry of the timer", recs, why) {
			continue
		}
		if to, recs, why = r.expire(r.cut(to, 1), 5*second); !step("second expiry of the timer", recs, why) {
			continue
		}
		// numbers of records that were not sent
		if len(numbers) < 2 {
			var strange []int64
			for _, x := range first {
				strange = append(strange, x.number^1<<48, x.number+1000)
			}
			sort.Slice(strange, func(i, j int) bool { return strange[i] < strange[j] })
			if to, recs, why = r.acknowledge(to, strange); !step("acknowledgement of records that were not sent", recs, why) {
				continue
			}
		}
		c.OK("RESEND", construct)
		if set%3 != 0 && !c.Thorough() {
			continue
		}
		all, had := sent, acked
		for i, x := range all {
			acked, sent = append(append([]sentRecord(nil), had...), x), all
			r.now = 100 * second
			construct = fmt.Sprintf("records acknowledged: %b of %d, then record %d", set, len(first), i)
			known := seen
			seen = map[int64]bool{}
			for n := range known {
				seen[n] = true
			}
			next, recs, why := r.acknowledge(r.cut(to, []int64{2, 1, 3}[i%3]), []int64{x.number})
			ok := step("the acknowledgement", recs, why)
			if ok && everything(acked) {
				_, recs, why = r.expire(next, 5*second)
				if ok = why == "" && len(recs) == 0; !ok {
					problems++
					fail(construct, "the timer runs although everything is acknowledged "+why)
				}
			}
			seen = known
			if !ok {
				break
			}
			c.OK("RESEND", construct)
		}
	}
	c.Min("RESEND", 150)
}

// acks: an acknowledgement names the records that were taken.
func acks(c *check.Ctx) {
	c.Rule("ACKS", "the acknowledgement that the timer sends names exactly the records of the current epoch whose handshake data was taken since the last flight ended, in their order")
	r, s, f := newFlight(c)
	if r == nil {
		return
	}
	_ = f
	pos := token.NoPos
	if m := c.P.Method("HandshakeContext", "sendAck"); m != nil {
		pos = m.Pos()
	}
	frags := []fragment{{1, 0, 3, 0, 1}, {1, 0, 3, 2, 1}, {11, 1, 2, 0, 2}, {1, 0, 3, 1, 1}, {1, 0, 3, 1, 1}}
	for from := 0; from < len(frags); from++ {
		for late := -1; late < 3; late++ {
			for end := -1; end < 2; end++ {
				construct := fmt.Sprintf("acknowledgement of fragments from %d, stale record at %d, end of flight at %d", from, late, end)
				now, why := s, ""
				var want []int64
				r.seq, r.now = 100, 0
				for i, x := range frags[from:] {
					if i == late {
						r.epoch = 0
						now, _, _, why = r.arrive(now, x.data(true, "stale"))
						r.epoch = 2
						if why != "" {
							break
						}
					}
					r.seq += int64(i) // gaps
					now, _, _, why = r.arrive(now, x.data(true, fmt.Sprintf("bytes%d", i)))
					if why != "" {
						break
					}
					want = append(want, r.epoch<<48+r.seq)
					if i == end {
						o, w := r.call(now, "HandshakeContext.receivedEndOfFlight", r.ctx)
						if why = w; w != "" {
							break
						}
						now, want = o.S, nil
					}
				}
				var got []int64
				if why == "" {
					var recs []sentRecord
					_, recs, why = r.expire(now, 10*second)
					for _, x := range recs {
						if x.ctype != r.ack {
							continue
						}
						n, _ := ai.Len(x.body).IsInt()
						for at := int64(2); at+8 <= n; at += 8 {
							v := int64(0)
							for i := int64(0); i < 8; i++ {
								b, ok := byteAt(x.body, at+i).IsInt()
								if !ok {
									why = "a number that is not certain"
								}
								v = v<<8 | b
							}
							got = append(got, v)
						}
					}
				}
				c.Check(why == "" && fmt.Sprint(got) == fmt.Sprint(want), "ACKS", construct, pos, "the acknowledgement names %x where the records %x were taken %s", got, want, why)
			}
		}
	}
	c.Min("ACKS", 40)
}

// timers: sequences of operations on a set of timers.
func timers(c *check.Ctx) {
	c.Rule("TIMER", "for every sequence of up to four starts, cancellations and checks: a timer's function runs once, at the first check after its time, in the order of the times, unless it was cancelled, and the other timers stay")
	r, s := newReceiver(c, true)
	if r == nil {
		return
	}
	pos := c.P.Method("timerSet", "check").Pos()
	ts := s.Load(ai.FieldAddr(r.ctx, "timers"))
	type armed struct {
		label string
		at    int64
	}
	type op struct {
		kind, label string
		ms          int64
	}
	ops := []op{{"start", "a", 10}, {"start", "b", 20}, {"start", "failing", 15}, {"cancel", "a", 0}, {"cancel", "b", 0}, {"check", "", 12}, {"check", "", 17}, {"check", "", 25}}
	bad := 0
	var follow func(s *ai.State, done []string, list []armed, now int64, left int)
	follow = func(s *ai.State, done []string, list []armed, now int64, left int) {
		for _, x := range ops {
			if bad > 3 {
				return
			}
			what := append(append([]string(nil), done...), fmt.Sprintf("%s %s %d", x.kind, x.label, x.ms))
			next := append([]armed(nil), list...)
			at := now
			r.now, r.calls = now, nil
			var o *ai.Outcome
			why := ""
			var want []string
			switch x.kind {
			case "start":
				cb := ai.Sym(x.label + "callback")
				st := s.Clone()
				st.Assume(ai.Eq(cb, ai.Nil), false)
				o, why = r.call(st, "timerSet.start", ts, ai.Str(x.label), cb, ai.Int(x.ms))
				next = append(next, armed{x.label, now + x.ms*1000000})
				sort.SliceStable(next, func(i, j int) bool { return next[i].at < next[j].at })
			case "cancel":
				o, why = r.call(s, "timerSet.cancel", ts, ai.Str(x.label))
				next = nil
				for _, t := range list {
					if t.label != x.label {
						next = append(next, t)
					}
				}
			case "check":
				at = now + x.ms*1000000
				r.now = at
				o, why = r.call(s, "timerSet.check", ts, ai.Int(at))
				for len(next) > 0 && next[0].at < at {
					want = append(want, next[0].label+"callback")
					failed := next[0].label == "failing"
					next = next[1:]
					if failed {
						break
					}
				}
			}
			var got []string
			for _, t := range r.calls {
				got = append(got, t.Aux)
			}
			if why == "" && fmt.Sprint(got) != fmt.Sprint(want) {
				why = fmt.Sprintf("calls %v where %v is due", got, want)
			}
			if why == "" && len(want) > 0 && (o.Result(0) != ai.Nil) != (want[len(want)-1] == "failingcallback") {
				why = "does not return the error of a timer's function"
			}
			if why == "" {
				q, w := r.call(o.S, "timerSet.remaining", ts)
				if why = w; why == "" {
					some, known := q.Result(0).IsBool()
					if !known || some != (len(next) > 0) {
						why = "leaves remaining to say the opposite of whether a timer runs"
					} else if n, ok := q.Result(1).IsInt(); some && (!ok || n != next[0].at-at) {
						why = "leaves remaining with another time than the next timer's"
					}
				}
			}
			if why != "" {
				bad++
				c.Fail("TIMER", "timerSet", pos, "after %v, the timer set %s", what, why)
				continue
			}
			if len(what) == 2 {
				c.OK("TIMER", fmt.Sprintf("timerSet, sequences from %v", what))
			}
			if left > 1 {
				follow(o.S, what, next, at, left-1)
			}
		}
	}
	n := 3
	if c.Thorough() {
		n = 4
	}
	follow(s, nil, nil, 0, n)
	c.Min("TIMER", 50)
}

// flights: what ends the retransmission of a flight.
func flights(c *check.Ctx) {
	c.Rule("FLIGHT", "a flight is sent until a part of the peer's next flight arrives: not fewer (fragments that are stale or malformed do not count) and not longer; the end of a flight that arrives forgets what was taken for acknowledgement; the final flight is acknowledged at once")
	r, s, f := newFlight(c)
	if r == nil {
		return
	}
	pos := c.P.Method("HandshakeLayer", "ReadMessage").Pos()
	fail := func(construct, why string) bool {
		return c.Check(why == "", "FLIGHT", construct, pos, "%s", why)
	}
	// the action of the state machine
	var first *ai.Outcome
	why := "takeAction or SendQueuedHandshake is not there"
	scope := c.P.Main.Types.Scope()
	if at, ct, gt := scope.Lookup("SendQueuedHandshake"), scope.Lookup("Conn"), scope.Lookup("Config"); at != nil && ct != nil && gt != nil {
		s = s.Clone()
		config := r.u.in.NewObject(s, "config", gt.Type(), ai.Expand(ai.Sym("config"), gt.Type()))
		r.u.in.Store(s, ai.FieldAddr(config, "UseDTLS"), ai.True)
		conn := r.u.in.NewObject(s, "conn", ct.Type(), ai.Expand(ai.Sym("conn"), ct.Type()))
		r.u.in.Store(s, ai.FieldAddr(conn, "config"), config)
		r.u.in.Store(s, ai.FieldAddr(conn, "hsCtx"), r.ctx)
		r.u.in.Store(s, ai.FieldAddr(conn, "isClient"), ai.True)
		r.u.in.Store(s, ai.FieldAddr(conn, "out"), ai.IfaceOf(types.NewPointer(scope.Lookup("DefaultRecordLayer").Type()), r.outRL))
		first, why = r.call(s, "Conn.takeAction", conn, ai.IfaceOf(at.Type(), ai.Zero(at.Type())))
	}
	if why == "" {
		var recs []sentRecord
		if recs, why = r.written(); why == "" {
			why = f.cover(recs, nil, map[int64]bool{})
		}
	}
	if !fail("Conn.takeAction, SendQueuedHandshake", why) {
		return
	}
	s = first.S
	_, recs, why := r.expire(s, 5*second)
	if why == "" {
		why = f.cover(recs, nil, map[int64]bool{})
	}
	if !fail("Conn.takeAction, SendQueuedHandshake, and the timer expires", why) {
		return
	}
	s = s.Clone()
	r.u.in.Store(s, ai.FieldAddr(r.layer, "msgSeq"), ai.Int(3))
	handshake := func(recs []sentRecord) (hs, acks []sentRecord) {
		for _, x := range recs {
			if x.ctype == r.ack {
				acks = append(acks, x)
			} else {
				hs = append(hs, x)
			}
		}
		return
	}
	for _, x := range []struct {
		fragment
		epoch   int64
		waiting bool
		ends    bool
		what    string
	}{
		{fragment{1, 2, 3, 0, 3}, 2, true, false, "a message received before"},
		{fragment{1, 0, 3, 0, 1}, 2, true, false, "a fragment of a message received before"},
		{fragment{1, 3, 3, 2, 2}, 2, true, false, "a fragment that lies outside of its message"},
		{fragment{1, 3, 3, 0, 3}, 0, true, false, "a message in a record of an earlier epoch"},
		{fragment{1, 3, 3, 0, 3}, 2, true, true, "the next message"},
		{fragment{1, 3, 3, 1, 1}, 2, true, true, "a fragment of the next message"},
		{fragment{1, 4, 3, 0, 3}, 2, true, true, "a message of the next flight"},
		{fragment{1, 3, 3, 0, 3}, 2, false, false, "the next message, while no flight is awaited"},
	} {
		r.now, r.epoch = 0, x.epoch
		from := s.Clone()
		r.u.in.Store(from, ai.FieldAddr(r.ctx, "waitingNextFlight"), ai.Bool(x.waiting))
		to, _, failed, why := r.arrive(from, x.data(true, "bytes"))
		r.epoch = 2
		if why == "" && failed {
			why = "ReadMessage fails"
		}
		for round := 0; why == "" && round < 2; round++ {
			to, recs, why = r.expire(to, 5*second)
			hs, _ := handshake(recs)
			if why == "" && x.ends && len(hs) > 0 {
				why = "the flight is sent again although the next one has begun to arrive"
			}
			if why == "" && !x.ends {
				why = f.cover(hs, nil, map[int64]bool{})
			}
		}
		fail("arrival of "+x.what, why)
	}
	// the final flight
	to, _, _, why := r.arrive(s, fragment{20, 3, 3, 0, 3}.data(true, "bytes"))
	if why == "" {
		var o *ai.Outcome
		if o, why = r.call(to, "HandshakeContext.receivedFinalFlight", r.ctx); why == "" {
			recs, w := r.written()
			_, acks := handshake(recs)
			if why = w; why == "" && len(acks) != 1 {
				why = fmt.Sprintf("receivedFinalFlight sends %d acknowledgements", len(acks))
			}
			if why == "" {
				if _, recs, why = r.expire(o.S, 5*second); why == "" {
					if _, acks = handshake(recs); len(acks) != 0 {
						why = "the acknowledgement of the final flight is sent again by the timer"
					}
				}
			}
		}
	}
	fail("HandshakeContext.receivedFinalFlight", why)
	c.Min("FLIGHT", 10)
}

// numbers: the numbers of messages.
func numbers(c *check.Ctx) {
	c.Rule("NUMBER", "every message made for sending has the next number of its direction, and nothing else changes the numbers except delivery and a server that starts again after a stateless retry")
	for _, datagram := range []bool{true, false} {
		r, s := newReceiver(c, datagram)
		if r == nil {
			return
		}
		construct := fmt.Sprintf("HandshakeMessageFromBody, datagram=%v", datagram)
		pos := c.P.Method("HandshakeLayer", "HandshakeMessageFromBody").Pos()
		t := c.P.Main.Types.Scope().Lookup("EndOfEarlyDataBody")
		why := ""
		for want := int64(0); why == "" && want < 3 && t != nil; want++ {
			var o *ai.Outcome
			if o, why = r.call(s, "HandshakeLayer.HandshakeMessageFromBody", r.out, ai.IfaceOf(types.NewPointer(t.Type()), ai.Sym("body"))); why != "" {
				break
			}
			s = o.S
			m := o.Result(0)
			for n, v := range map[string]*ai.Term{"seq": ai.Int(want), "msgType": ai.Int(5), "offset": ai.Int(0), "length": ai.Int(0), "datagram": ai.Bool(datagram)} {
				if got := s.Load(ai.FieldAddr(m, n)); got != v {
					why = fmt.Sprintf("makes message %d with %s %v", want, n, got)
				}
			}
		}
		c.Check(why == "", "NUMBER", construct, pos, "HandshakeMessageFromBody %s", why)
	}
	cs := newCensus(c)
	delivery := map[string]bool{"HandshakeLayer.ReadMessage": true, "HandshakeLayer.HandshakeMessageFromBody": true}
	hello := map[string]bool{"serverStateStart.Next": true}
	for _, fn := range cs.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			x, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			if t, f := fieldOf(c.P, x.Addr); t != "HandshakeLayer" || f != "msgSeq" {
				return
			}
			zero := false
			if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil {
				zero = k.Value.ExactString() == "0"
			}
			c.Check(fresh(x.Addr) || cs.within(fn, delivery) || zero && cs.within(fn, hello), "NUMBER", shortFn(fn)+", change of HandshakeLayer.msgSeq", x.Pos(), "the number of the next message is changed in %s", shortFn(fn))
		})
	}
	c.Min("NUMBER", 4)
}

// waits: the timers are looked at where a connected session waits for its
// peer. (ROUND has the handshake.)
func waits(c *check.Ctx) {
	c.Rule("WAIT", "over DTLS the timers are run before Read reads a record")
	const look = "(*timerSet).check"
	u := newUnit(c)
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	s := u.init.Clone()
	s.Assume(ai.Mk("istype", "stateConnected", ai.Fld(self, "hState")), true)
	s.Assume(ai.Fld(self, "handshakeComplete"), true)
	u.in.Store(s, ai.FieldAddr(conn, "readBuffer"), ai.Empty)
	data := ai.Sub(ai.Sym("data"), ai.Int(0), ai.Int(5))
	inRecord(u, ai.Int(23), data)
	for k, f := range u.over {
		f := f
		u.over[k] = func(call *ai.Call) ([]*ai.Outcome, bool) {
			note(call.S, ai.Mk("ev", "record"))
			return f(call)
		}
	}
	b := u.in.NewObject(s, "buffer", types.NewArray(types.Typ[types.Byte], 5), ai.Sub(ai.Sym("was"), ai.Int(0), ai.Int(5)))
	u.init = s
	u.roots = []*ai.Term{b}
	u.sticky = func(f *ai.Term) bool { return f.Op == "istype" || f.Op == "fld" }
	fn, outs := u.exactly([]string{look, "-" + fnSendAlert}, "Conn.Read", conn, ai.Mk("slice", "", b, ai.Int(0), ai.Int(5)))
	if fn == nil {
		return
	}
	n := 0
	for _, o := range outs {
		evs, ok := events(o)
		if !ok {
			continue
		}
		if isFalse(o, ai.Fld(ai.Mk("deref", "", ai.Fld(self, "config")), "UseDTLS")) {
			continue
		}
		looked := false
		for _, e := range evs {
			looked = looked || e.Aux == look
			if e.Aux == "record" {
				n++
				c.Check(looked, "WAIT", "Conn.Read", o.Pos, "Read reads a record without having run the timers")
				break
			}
		}
	}
	c.Check(n > 0, "WAIT", "Conn.Read", fn.Pos(), "Read reads no record")
}

func init() {
	check.Register(&check.Prop{ID: "C29", Explanation: "What is written is followed from the queue through fragmentation, records, acknowledgements and timers to what is written again, for every set of acknowledged records of a flight; timers for every short sequence of operations; and where timers are run and numbers assigned, for all paths.", Run: func(c *check.Ctx) {
		retransmission(c)
		acks(c)
		timers(c)
		flights(c)
		numbers(c)
		waits(c)
		driver(c, "ROUND")
	}})
}
