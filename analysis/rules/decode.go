package rules

import (
	"fmt"
	"go/types"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

func init() {
	check.Register(&check.Prop{ID: "C09", Explanation: "The codec is analysed for every kind of type and around every bound; every message, extension, cookie and acknowledgement must, by facts that hold on all paths that use it, have been decoded without error and to its end.", Run: c09})
}

func c09(c *check.Ctx) {
	handshakeDecoding(c)
	extensionDecoding(c)
	otherDecoding(c)
	layouts(c)
	syntaxEngine(c)
	framing(c)
}

// complete tells whether a decoded value is known to be the whole input.
func complete(known func(*ai.Term) bool, d *ai.Term) bool {
	data := d.Args[0]
	n := ai.Mk("rlen", d.Aux, data)
	return known(ai.Eq(n, ai.Len(data))) || known(ai.Eq(ai.Len(data), n))
}

func knownIn(o *ai.Outcome) func(*ai.Term) bool {
	return func(f *ai.Term) bool { return known(o, f) }
}

// inMap is an entry of a map of flags.
func inMap(o *ai.Outcome, m *ai.Term, k int64) *ai.Term {
	if m.Op == "ptr" {
		m = o.S.Load(m)
	}
	if m.Op != "mapc" || m.Aux == "may" {
		return ai.Mk("unk", "map")
	}
	for i := 0; i+1 < len(m.Args); i += 2 {
		if m.Args[i] == ai.Int(k) {
			return m.Args[i+1]
		}
	}
	return ai.False
}

// handshakeDecoding looks at every completing handshake.
func handshakeDecoding(c *check.Ctx) {
	c.Rule("WHOLE", "every message received in a handshake that completes was decoded without error and to its end")
	h := explored(c)
	if h == nil {
		return
	}
	for _, v := range h.views() {
		what := v.Mode()
		have := map[*ai.Term]bool{}
		for _, f := range v.Find("ok") {
			d := f.Args[0]
			if d.Op != "dec" || len(d.Args) == 0 {
				continue
			}
			data := v.Norm(d.Args[0])
			if complete(v.Known, d) || v.Known(ai.Eq(ai.Mk("rlen", d.Aux, data), ai.Len(data))) {
				have[data] = true
				c.OK("WHOLE", what+": "+d.Aux)
				continue
			}
			c.Check(have[data], "WHOLE", what+": "+d.Aux, v.N.Pos, "the handshake %s completes although a %s may have trailing data", what, d.Aux)
		}
		for i := range v.Msgs {
			m := &v.Msgs[i]
			if m.Sent || m.Type == hs.EOED {
				continue
			}
			body := v.Norm(ai.Fld(m.Recv, "body"))
			if m.Type == hs.FIN {
				exact := v.Known(ai.Eq(ai.Len(body), v.HSize())) || v.Known(ai.Eq(ai.Len(ai.Fld(m.Recv, "body")), v.HSize()))
				for _, f := range v.Find("eqb") {
					exact = exact || v.Norm(f.Args[0]) == body || v.Norm(f.Args[1]) == body
				}
				c.Check(exact, "WHOLE", fmt.Sprintf("%s: Finished", what), v.N.Pos, "the handshake %s completes although the Finished message may have trailing data", what)
				continue
			}
			c.Check(have[body], "WHOLE", fmt.Sprintf("%s: message %d", what, m.Type), v.N.Pos, "the handshake %s completes although message %d of type %d may not have been decoded", what, i, m.Type)
		}
	}
}

// extensionDecoding looks at the functions that find extensions in a list.
func extensionDecoding(c *check.Ctx) {
	c.Rule("PARSE", "parsing a list of extensions decodes each extension asked for to its end into its destination, reports those that are there, and refuses a list that repeats one")
	c.Rule("FIND", "looking for an extension decodes the first of its type to its end into the destination and reports it")
	scope := c.P.Main.Types.Scope()
	typ := func(n string) types.Type {
		if o, ok := scope.Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	ext := typ("Extension")
	want := []struct {
		name string
		num  int64
	}{{"SupportedGroupsExtension", 10}, {"SignatureAlgorithmsExtension", 13}, {"CookieExtension", 44}}
	for _, w := range want {
		if typ(w.name) == nil || ext == nil {
			c.Fail("PARSE", w.name, 0, "the type %s does not exist any more", w.name)
			return
		}
	}
	st := ext.Underlying().(*types.Struct)
	list := func(nums []int64) *ai.Term {
		var els []*ai.Term
		for i, n := range nums {
			args := make([]*ai.Term, st.NumFields())
			for k := range args {
				switch st.Field(k).Name() {
				case "ExtensionType":
					args[k] = ai.Int(n)
				default:
					args[k] = ai.Sym(fmt.Sprintf("data%d", i))
				}
			}
			els = append(els, ai.MkT("struct", ext, args...))
		}
		if len(els) == 0 {
			return ai.Nil
		}
		return ai.Mk("list", ai.TypeName(ext), els...)
	}
	off := func(*ai.Call) ([]*ai.Outcome, bool) { return nil, false }
	cases := [][]int64{{}, {10}, {13}, {44}, {13, 10}, {10, 13, 44}, {44, 99, 13, 10}, {99}, {10, 10}, {13, 44, 13}, {10, 99, 44, 44}}
	for _, nums := range cases {
		for _, find := range []bool{false, true} {
			rule, fname := "PARSE", "ExtensionList.Parse"
			if find {
				rule, fname = "FIND", "ExtensionList.Find"
			}
			name := fmt.Sprintf("extensions %v", nums)
			u := newUnit(c)
			u.over = map[string]ai.Prim{}
			for _, m := range []string{"Parse", "Find"} {
				u.over["(ExtensionList)."+m] = off
				u.over["(*ExtensionList)."+m] = off
			}
			u.sticky = func(f *ai.Term) bool { return f.Op == "ok" || f.Contains(ai.Mk("rlen", "", ai.Sym("data0"))) }
			s := u.init.Clone()
			var dsts []*ai.Term
			for i, w := range want {
				if find && i > 0 {
					break
				}
				p := u.in.NewObject(s, w.name, typ(w.name), ai.Expand(ai.Sym("old"+w.name), typ(w.name)))
				u.roots = append(u.roots, p)
				dsts = append(dsts, ai.IfaceOf(types.NewPointer(typ(w.name)), p))
			}
			u.init = s
			arg := ai.Mk("list", "ExtensionBody", dsts...)
			if find {
				arg = dsts[0]
			}
			fn, outs := u.exactly(nil, fname, list(nums), arg)
			if fn == nil {
				continue
			}
			repeated := false
			count := map[int64]int{}
			for _, n := range nums {
				count[n]++
				repeated = repeated || count[n] > 1 && n != 99
			}
			good := false
			for _, o := range outs {
				if isError(o.Result(1)) {
					continue
				}
				if !c.Check(o.Result(1) == ai.Nil, rule, name, o.Pos, "%s: whether there is an error is not certain: %s", name, clip(o.Result(1))) {
					continue
				}
				good = true
				if !find {
					c.Check(!repeated, rule, name+" repeated", o.Pos, "%s are parsed although one is repeated", name)
				}
				for i, d := range dsts {
					at := -1
					for k := len(nums) - 1; k >= 0; k-- {
						if nums[k] == want[i].num {
							at = k
						}
					}
					now := o.S.Deep(o.S.Load(d.Args[0]))
					old := ai.Expand(ai.Sym("old"+want[i].name), typ(want[i].name))
					found := o.Result(0)
					if !find {
						found = inMap(o, o.Result(0), want[i].num)
					}
					if at < 0 {
						c.Check(now == o.S.Deep(old), rule, name+" "+want[i].name, o.Pos, "%s: the destination of an extension that is not there becomes %s", name, clip(now))
						c.Check(found == ai.False || isFalse(o, found), rule, name+" "+want[i].name+" absent", o.Pos, "%s: an extension that is not there is reported as %s", name, clip(found))
						continue
					}
					data := ai.Sym(fmt.Sprintf("data%d", at))
					dec := ai.Mk("dec", want[i].name, data)
					c.Check(now == dec || now == o.S.Deep(ai.Expand(dec, typ(want[i].name))), rule, name+" "+want[i].name, o.Pos, "%s: the destination becomes %s", name, clip(now))
					c.Check(known(o, ai.Mk("ok", "", dec)) && complete(knownIn(o), dec), rule, name+" "+want[i].name+" whole", o.Pos, "%s: the extension may not have been decoded to its end", name)
					c.Check(found == ai.True, rule, name+" "+want[i].name+" present", o.Pos, "%s: an extension that is there is reported as %s", name, clip(found))
				}
			}
			c.Check(good || repeated, rule, name+" succeeds", fn.Pos(), "there is no way in which %s are accepted", name)
		}
	}
}

// otherDecoding looks at what is received outside the handshake.
func otherDecoding(c *check.Ctx) {
	c.Rule("POST", "a message received after the handshake, or an acknowledgement, has effects only if it was decoded without error and to its end")
	u := newUnit(c)
	u.in.NoInline = map[string]bool{"(*HandshakeLayer).SendQueuedMessages": true}
	u.in.Override = map[string]ai.Prim{"(*HandshakeLayer).SendQueuedMessages": func(call *ai.Call) ([]*ai.Outcome, bool) {
		failed := call.S.Clone()
		return []*ai.Outcome{ai.Return(call.S, ai.Sym("left"), ai.Nil), ai.Return(failed, ai.Int(0), ai.Mk("errval", "", ai.Str("send")))}, true
	}}
	if fn, outs := u.run("HandshakeContext.processAck", ai.Sym("h"), ai.Sym("data")); fn != nil {
		good := false
		for _, o := range outs {
			if isError(o.Result(0)) {
				continue
			}
			good = true
			whole := false
			for f, v := range o.S.Facts() {
				if f.Op == "ok" && v && f.Args[0].Op == "dec" && f.Args[0].Args[0] == ai.Sym("data") && complete(knownIn(o), f.Args[0]) {
					whole = true
				}
			}
			c.Check(whole, "POST", "acknowledgement", o.Pos, "an acknowledgement is processed although it may not have been decoded to its end")
		}
		c.Check(good, "POST", "acknowledgement succeeds", fn.Pos(), "there is no way in which an acknowledgement is processed")
	}
	u = newUnit(c)
	hm := ai.Sym("hm")
	if fn, outs := u.run("stateConnected.ProcessMessage", ai.Sym("state"), hm); fn != nil {
		seen := 0
		for _, o := range outs {
			if fails2(o, o.Result(2), alertConst(u, "AlertNoAlert")) {
				continue
			}
			n := 0
			for f, v := range o.S.Facts() {
				if f.Op != "ok" || !v || f.Args[0].Op != "dec" {
					continue
				}
				n++
				seen++
				c.Check(complete(knownIn(o), f.Args[0]), "POST", f.Args[0].Aux, o.Pos, "a %s is processed although it may have trailing data", f.Args[0].Aux)
			}
			c.Check(n > 0, "POST", "message", o.Pos, "a message is processed that may not have been decoded")
		}
		c.Check(seen >= 2, "POST", "kinds", fn.Pos(), "not every message after the handshake is decoded")
	}
}
