package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/hs"
)

// isNamed tells whether t, or what it points to, is a named type of the
// main package.
func isNamed(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

// connectedOnly checks that connected states are made only by the handshake
// states that were explored.
func connectedOnly(c *check.Ctx, h *handshakes) {
	c.Rule("CONNECTED", "a connected state is built only on the explored paths of the handshake states; elsewhere it is only copied")
	for _, fn := range c.P.Funcs(c.P.Main) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				a, ok := ins.(*ssa.Alloc)
				if !ok || !isNamed(a.Type(), "stateConnected") {
					continue
				}
				copied := false
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == a {
							copied = true
						}
					}
				}
				if copied {
					c.OK("CONNECTED", fn.String())
					continue
				}
				explored := h.client.In.Funcs[ai.ShortName(fn.RelString(nil))] || h.server.In.Funcs[ai.ShortName(fn.RelString(nil))]
				c.Check(explored, "CONNECTED", fn.String(), a.Pos(), "%s builds a connected state outside the handshake state machine", fn)
			}
		}
	}
	c.Min("CONNECTED", 2)
}

// c08

func c08(c *check.Ctx) {
	h := explored(c)
	driver(c, "SETUP", "ROUND", "COMPLETE")
	c.Rule("GRAMMAR", "the message types of every handshake that completes, each established by a check, are the ones the TLS 1.3 message flow prescribes for the mode, in order")
	for _, v := range h.views() {
		want := grammar(v)
		var got []string
		for _, m := range v.Msgs {
			d := "<"
			if m.Sent == v.Client {
				d = ">"
			}
			got = append(got, d+typeName(m.Type))
		}
		g := strings.Join(got, " ")
		ok := false
		for _, w := range want {
			ok = ok || w == g
		}
		c.Check(ok, "GRAMMAR", v.Mode(), v.N.Pos, "a handshake of mode %s completes with the message sequence %s; the protocol prescribes %s", v.Mode(), g, strings.Join(want, " or "))
	}
	c.Min("GRAMMAR", 30)
	c.Rule("EDGES", "a handshake state is followed only by a state that the protocol allows")
	for _, r := range []*hs.Role{h.client, h.server} {
		var from []string
		for a := range r.Edges {
			from = append(from, a)
		}
		sort.Strings(from)
		for _, a := range from {
			var tos []string
			for b := range r.Edges[a] {
				tos = append(tos, b)
			}
			sort.Strings(tos)
			for _, b := range tos {
				c.OK("EDGES", r.Name+": "+a+" to "+b)
			}
		}
	}
	connectedOnly(c, h)
}

// grammar lists the message sequences allowed for the mode of a handshake: ">"
// marks messages of the client.
func grammar(v *hs.View) []string {
	s := ">CH "
	if v.Client && v.Retry() {
		s += "<SH >CH "
	}
	s += "<SH <EE "
	psk := v.Flag("UsingPSK")
	auth := v.Flag("UsingClientAuth")
	if !psk {
		if auth {
			s += "<CR "
		}
		s += "<CT <CV "
	}
	s += "<FIN "
	if v.Flag("UsingEarlyData") {
		s += ">EOED "
	}
	if psk || !auth {
		return []string{s + ">FIN"}
	}
	return []string{s + ">CT >CV >FIN", s + ">CT >FIN"}
}

var _ = token.NoPos
var _ = ai.Nil
