package rules

import (
	"go/types"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// typeOf finds a type of the package.
func typeOf(c *check.Ctx, name string) types.Type {
	o := c.P.Main.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// stripConv removes conversions between types of the same value.
func inner(t *ai.Term) *ai.Term {
	for t.Op == "to" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// actions checks what taking each handshake action does.
func actions(c *check.Ctx, which ...string) {
	u := newUnit(c)
	c.Rule("ACTION", "taking an action does exactly what it says: messages are queued on and sent by the output layer, keys are installed in their direction with the action's epoch, cipher and keys, and a failure is reported")
	conn := ai.Sym("conn")
	self := ai.Mk("deref", "", conn)
	none := alertConst(u, "AlertNoAlert")
	hctx := ai.Mk("deref", "", ai.Fld(self, "hsCtx"))
	watch := []string{"invoke:RecordLayer.Rekey", "invoke:RecordLayer.ResetClear", "(*HandshakeLayer).QueueMessage", "(*HandshakeLayer).SendQueuedMessages", "invoke:PreSharedKeyCache.Put", "(*timerSet).start", "invoke:RecordLayer.WriteRecord", "invoke:RecordLayer.SetVersion", "invoke:RecordLayer.DiscardReadKey"}
	for _, name := range which {
		t := typeOf(c, name)
		if t == nil {
			c.Fail("ACTION", name, 0, "the action %s does not exist any more", name)
			continue
		}
		act := ai.Sym("act")
		fn, outs := u.withEvents(watch, "Conn.takeAction", conn, ai.IfaceOf(t, act))
		n := 0
		for _, o := range outs {
			evs, ok := events(o)
			if !c.Check(ok, "ACTION", name+" effects", o.Pos, "the effects of %s are not known", name) {
				continue
			}
			var main []*ai.Term
			for _, e := range evs {
				if e.Aux != "(*timerSet).start" {
					main = append(main, e)
				}
			}
			good := o.Result(0) == none
			if !good {
				c.Check(fails2(o, o.Result(0), none), "ACTION", name+" failure", o.Pos, "a failure of %s may be reported as success", name)
			}
			why := ""
			switch name {
			case "RekeyIn", "RekeyOut":
				side := map[string]string{"RekeyIn": "in", "RekeyOut": "out"}[name]
				if len(main) != 1 || main[0].Aux != "invoke:RecordLayer.Rekey" {
					if good {
						why = "it does not change keys exactly once"
					} else if len(main) > 0 {
						why = "it does something else: " + clip(main[0])
					}
					break
				}
				e := main[0]
				ks := ai.Fld(act, "KeySet")
				if inner(e.Args[0]) != ai.Fld(self, side) {
					why = "keys are changed in " + clip(e.Args[0])
				} else if e.Args[1] != ai.Fld(act, "epoch") {
					why = "the epoch is " + clip(e.Args[1])
				} else if inner(e.Args[2]) != ai.Fld(ks, "Cipher") {
					why = "the cipher is " + clip(e.Args[2])
				} else if inner(e.Args[3]) != ks {
					why = "the keys are " + clip(e.Args[3])
				} else if good && !succeeded(o, "invoke:RecordLayer.Rekey") {
					why = "it succeeds although the change of keys failed"
				}
				if name == "RekeyIn" && good && why == "" {
					rest := ai.Fld(ai.Mk("deref", "", ai.Fld(ai.Mk("deref", "", ai.Fld(hctx, "hIn")), "frame")), "remainder")
					v, ok := o.S.Eval(ai.Lt(ai.Int(0), ai.Len(rest)))
					if !ok || v {
						if v, ok := o.S.Eval(ai.Eq(ai.Len(rest), ai.Int(0))); !ok || !v {
							why = "the receiving keys change although part of a message under the old keys is left"
						}
					}
				}
			case "QueueHandshakeMessage":
				if len(main) != 1 || main[0].Aux != "(*HandshakeLayer).QueueMessage" || main[0].Args[0] != ai.Fld(hctx, "hOut") || main[0].Args[1] != ai.Fld(act, "Message") {
					why = "it does not queue exactly the message on the output layer"
				} else if good && !succeeded(o, "(*HandshakeLayer).QueueMessage") {
					why = "it succeeds although queueing failed"
				}
			case "SendQueuedHandshake":
				if len(main) != 1 || main[0].Aux != "(*HandshakeLayer).SendQueuedMessages" || main[0].Args[0] != ai.Fld(hctx, "hOut") {
					why = "it does not send what is queued on the output layer"
				} else if good && !succeeded(o, "(*HandshakeLayer).SendQueuedMessages") {
					why = "it succeeds although sending failed"
				}
				if dtls, ok := o.S.Eval(ai.Fld(ai.Mk("deref", "", ai.Fld(self, "config")), "UseDTLS")); good && (!ok || dtls != (len(evs) == 2)) {
					why = "the retransmission timer is not started exactly over DTLS"
				}
			case "ResetOut":
				if len(main) != 1 || main[0].Aux != "invoke:RecordLayer.ResetClear" || inner(main[0].Args[0]) != ai.Fld(self, "out") || main[0].Args[1] != ai.Fld(act, "seq") {
					why = "it does not reset the output to the sequence number"
				}
			case "StorePSK":
				why = storePSK(o, main, act, self)
			}
			if good {
				n++
			}
			c.Check(why == "", "ACTION", name, o.Pos, "taking %s: %s", name, why)
		}
		if fn != nil {
			c.Check(n > 0, "ACTION", name+" success", fn.Pos(), "%s can never succeed", name)
		}
	}
}

// succeeded tells whether it is known that the error of a call is nil.
func succeeded(o *ai.Outcome, name string) bool {
	return anyFact(o, true, func(f *ai.Term) bool {
		if f.Op == "ok" {
			return hasCall(f, name)
		}
		return f.Op == "eq" && (f.Args[1] == ai.Nil || f.Args[0] == ai.Nil) && hasCall(f, name)
	})
}

func storePSK(o *ai.Outcome, evs []*ai.Term, act, self *ai.Term) string {
	if len(evs) != 1 || evs[0].Aux != "invoke:PreSharedKeyCache.Put" {
		return "it does not store exactly one key"
	}
	e := evs[0]
	cfg := ai.Mk("deref", "", ai.Fld(self, "config"))
	if inner(e.Args[0]) != ai.Fld(cfg, "PSKs") {
		return "the key is not stored in the cache of the configuration"
	}
	psk := ai.Fld(act, "PSK")
	if inner(e.Args[2]) != psk {
		return "what is stored is " + clip(e.Args[2])
	}
	client, ok := o.S.Eval(ai.Fld(self, "isClient"))
	if !ok {
		return "client and server store keys in the same way"
	}
	k := e.Args[1]
	if client {
		if k != ai.Fld(cfg, "ServerName") {
			return "the client stores the key under " + clip(k) + ", not under the server's name"
		}
		return ""
	}
	if !isCall(k, "encoding/hex.EncodeToString") || inner(k.Args[0]) != ai.Fld(psk, "Identity") {
		return "the server stores the key under " + clip(k) + ", not under its identity"
	}
	return ""
}
