package rules

import (
	ai "mintcheck/absint"
	"mintcheck/check"
)

// where the fields of ConnectionState come from, in the connected state
var reportedFrom = map[string][]string{
	"PeerCertificates": {"peerCertificates"},
	"VerifiedChains":   {"verifiedChains"},
	"NextProto":        {"Params", "NextProto"},
	"UsingPSK":         {"Params", "UsingPSK"},
	"UsingEarlyData":   {"Params", "UsingEarlyData"},
	"CipherSuite":      {"Params", "CipherSuite"},
}

// connField is a field of the connected state that a connection keeps.
func connField(conn *ai.Term, path ...string) *ai.Term {
	t := ai.Fld(ai.Mk("deref", "", conn), "state")
	for _, f := range path {
		t = ai.Fld(t, f)
	}
	return t
}

// reported checks that what the connection reports to its user is what the
// handshake established, and nothing before it is complete.
func reported(c *check.Ctx, fields ...string) {
	u := newUnit(c)
	c.Rule("STATE", "ConnectionState reports what the connected state holds, and nothing before the handshake is complete")
	conn := ai.Sym("conn")
	fn, outs := u.run("Conn.ConnectionState", conn)
	done := ai.Fld(ai.Mk("deref", "", conn), "handshakeComplete")
	seen := map[bool]bool{}
	for _, o := range outs {
		complete, isKnown := o.S.Eval(done)
		for _, f := range fields {
			got := o.S.Deep(o.S.Pure(ai.Fld(o.Result(0), f)))
			want := connField(conn, reportedFrom[f]...)
			empty := got == ai.Nil || got == ai.False || got == ai.Str("") || got == ai.Int(0)
			if f == "CipherSuite" {
				code := ai.Fld(got, "Suite")
				empty = code == ai.Int(0)
				// an entry of the table, or none if there is none
				sel := empty
				for _, a := range got.Alts() {
					for _, s := range suites {
						if ai.Fld(a, "Suite") == ai.Int(s.code) {
							sel = true
						}
					}
				}
				if complete && isKnown {
					c.Check(sel, "STATE", f, fn.Pos(), "the suite reported (%s) is not an entry of the table", clip(got))
					continue
				}
			}
			if isKnown && complete {
				c.Check(got == want, "STATE", f, fn.Pos(), "%s is reported as %s, which is not what the handshake established", f, clip(got))
			} else {
				c.Check(empty, "STATE", f+" before completion", fn.Pos(), "%s is reported as %s although the handshake may not be complete", f, clip(got))
			}
		}
		seen[isKnown && complete] = true
	}
	if fn != nil {
		c.Check(seen[true] && seen[false], "STATE", "both cases", fn.Pos(), "the complete and the incomplete handshake are not told apart")
	}
}
