// Package hs composes the analysis of the handshake states of each role into
// summaries of all handshakes that reach the connected state.
package hs

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/load"
)

// A Node is a point between two handshake states.
type Node struct {
	S       *ai.State
	State   *ai.Term // iface
	Stages  []string
	Actions [][]*ai.Term // per stage
	Recvs   []Recv
	Pos     token.Pos
}

// Recv is a message received on the way.
type Recv struct {
	Stage string
	Msg   *ai.Term
}

// Exit is an outcome of a stage that does not go on.
type Exit struct {
	Stage  string
	Before *Node
	S      *ai.State
	Alert  *ai.Term
	State  *ai.Term
	Acts   []*ai.Term
	Recvs  []Recv
	Pos    token.Pos
}

// A Role is the analysis of one role's handshakes.
type Role struct {
	Name   string
	In     *ai.Interp
	Done   []*Node
	Nodes  []*Node // all nodes entered
	Exits  []*Exit
	Errors []string // undecided constructs
	Edges  map[string]map[string]bool
}

// StateType is the short name of a node's state type.
func StateType(t *ai.Term) string {
	if t.Op != "iface" {
		return "?"
	}
	s := ai.ShortName(t.Typ.String())
	return strings.TrimPrefix(s, "*")
}

const recvRoot = "§recv"

// Explore analyses all handshakes from the given start state.
func Explore(p *load.Program, role string, in *ai.Interp, start *Node) *Role {
	r := &Role{Name: role, In: in, Edges: map[string]map[string]bool{}}
	var cur []Recv
	_ = cur
	queue := []*Node{start}
	noAlert := in.ConstInt("AlertNoAlert")
	retry := in.ConstInt("AlertStatelessRetry")
	hsState, _ := p.Main.Types.Scope().Lookup("HandshakeState").Type().Underlying().(*types.Interface)
	if hsState == nil {
		r.Errors = append(r.Errors, "no HandshakeState interface")
		return r
	}
	stageOf := map[string]int{}
	_ = stageOf
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		st := StateType(n.State)
		if st == "stateConnected" {
			r.Done = append(r.Done, n)
			continue
		}
		r.Nodes = append(r.Nodes, n)
		if n.State.Op != "iface" {
			r.Errors = append(r.Errors, fmt.Sprintf("state after %v is not resolved: %v", n.Stages, n.State))
			continue
		}
		visits := 1
		for _, s := range n.Stages {
			if s == st || strings.HasPrefix(s, st+"/") {
				visits++
			}
		}
		if visits > 3 || len(n.Stages) > 24 {
			r.Errors = append(r.Errors, fmt.Sprintf("unbounded state sequence %v", n.Stages))
			continue
		}
		stage := fmt.Sprintf("%s/%d", st, visits)
		m := p.SSA.LookupMethod(n.State.Typ, p.Main.Types, "Next")
		if m == nil {
			r.Errors = append(r.Errors, "no Next method on "+st)
			continue
		}
		var roots []*ai.Term
		for _, as := range n.Actions {
			roots = append(roots, as...)
		}
		for _, rv := range n.Recvs {
			roots = append(roots, ai.Mk("ptr", rv.Msg.Aux))
		}
		roots = append(roots, ai.Mk("ptr", recvRoot), n.State)
		s := n.S.Clone()
		in.NewObject(s, recvRoot, nil, ai.Mk("list", "HandshakeAction.recv"))
		outs := in.Run(m, []*ai.Term{n.State.Args[0], ai.Sym("hr")}, s, in.Ctx(stage), roots)
		if Trace != nil {
			fmt.Fprintln(os.Stderr, len(queue), in.Blocks, stage, len(outs))
		}
		if len(outs) == 0 {
			r.Errors = append(r.Errors, "no outcomes of "+stage)
		}
		byKey := map[string]*Node{}
		var keys []string
		for _, o := range outs {
			if o.Panic {
				r.Exits = append(r.Exits, &Exit{Stage: stage, Before: n, S: o.S, Alert: ai.Str("panic"), Pos: o.Pos})
				continue
			}
			next, acts, alert := o.Result(0), o.Result(1), o.Result(2)
			var rv []Recv
			rl := o.S.Heap(recvRoot)
			if rl != nil && rl.Op == "list" {
				for _, m := range rl.Args {
					rv = append(rv, Recv{stage, m})
				}
			} else {
				r.Errors = append(r.Errors, fmt.Sprintf("messages received in %s not resolved: %v", stage, rl))
			}
			acts = o.S.Pure(acts)
			var al []*ai.Term
			switch acts.Op {
			case "nil":
			case "list":
				al = acts.Args
			default:
				r.Errors = append(r.Errors, fmt.Sprintf("actions of %s not resolved: %v", stage, acts))
			}
			if alert != noAlert {
				if alert == retry {
					r.edge(stage, "retry")
				}
				if alert.Op == "alt" || alert.Op == "unk" {
					r.Errors = append(r.Errors, fmt.Sprintf("alert of %s not resolved: %v", stage, alert))
				}
				r.Exits = append(r.Exits, &Exit{Stage: stage, Before: n, S: o.S, Alert: alert, State: next, Acts: al, Recvs: rv, Pos: o.Pos})
				continue
			}
			for _, a := range al {
				if a.Op != "iface" {
					r.Errors = append(r.Errors, fmt.Sprintf("action of %s not resolved: %v", stage, a))
				}
			}
			if next.Op != "iface" {
				r.Errors = append(r.Errors, fmt.Sprintf("next state of %s not resolved: %v", stage, next))
				continue
			}
			r.edge(stage, StateType(next))
			if StateType(next) == st && len(al) == 0 && len(rv) == 0 && o.S.Deep(next) == n.S.Deep(n.State) {
				// nothing happened: the same state again
				continue
			}
			nn := &Node{S: o.S, State: next, Pos: o.Pos}
			nn.Stages = append(append([]string(nil), n.Stages...), stage)
			nn.Actions = append(append([][]*ai.Term(nil), n.Actions...), al)
			nn.Recvs = append(append([]Recv(nil), n.Recvs...), rv...)
			var terms []*ai.Term
			terms = append(terms, next)
			for _, as := range nn.Actions {
				terms = append(terms, ai.Mk("list", "HandshakeAction", as...))
			}
			k := StateType(next) + in.Key(o.S, terms, false)
			for _, rv := range nn.Recvs {
				k += rv.Msg.Aux
			}
			if old := byKey[k]; old != nil {
				old.S = in.MergeStates(old.S, nn.S)
				old.State = in.JoinTerm(old.State, nn.State)
				for i := range old.Actions {
					for j := range old.Actions[i] {
						old.Actions[i][j] = in.JoinTerm(old.Actions[i][j], nn.Actions[i][j])
					}
				}
			} else {
				byKey[k] = nn
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			queue = append(queue, byKey[k])
		}
		if len(queue) > 4000 {
			r.Errors = append(r.Errors, "too many states")
			return r
		}
	}
	return r
}

func (r *Role) edge(a, b string) {
	a = strings.SplitN(a, "/", 2)[0]
	if r.Edges[a] == nil {
		r.Edges[a] = map[string]bool{}
	}
	r.Edges[a][b] = true
}

// Trace, if set, is told of the blocks analysed, for debugging.
var Trace func(fn string, block, states int, key string)

func newInterp(p *load.Program) *ai.Interp {
	in := ai.New(p)
	in.Trace = Trace
	sticky := map[string]bool{"VerifyPeerCertificate": true, "InsecureSkipVerify": true, "CookieHandler": true, "RequireClientAuth": true, "RequireCookie": true, "AllowEarlyData": true}
	in.Sticky = func(a *ai.Term) bool {
		if a.Op == "hasext" {
			return a.Args[0].Op == "fld" && a.Args[0].Args[0].Op == "dec" && a.Args[0].Args[0].Aux == "EncryptedExtensionsBody" && a.Args[1] == ai.Int(16)
		}
		if a.Op == "eq" {
			if a.Args[0].Op == "len" && a.Args[1] == ai.Int(0) && a.Args[0].Args[0] == ai.Fld(ai.Sym("Config"), "PSKModes") {
				return true
			}
			if l := a.Args[0]; l.Op == "len" && a.Args[1] == ai.Int(0) && l.Args[0].Op == "fld" && l.Args[0].Args[0].Op == "extval" && l.Args[0].Args[0].Aux == "ALPNExtension" {
				return true
			}
			if l := a.Args[0]; l.Op == "len" && a.Args[1] == ai.Int(0) && l.Args[0].Op == "elem" && l.Args[0].Args[0].Op == "fld" && l.Args[0].Args[0].Aux == "Protocols" {
				// is the application protocol that was selected the empty one
				return true
			}
			if a.Args[1] != ai.Nil {
				return false
			}
			a = a.Args[0]
		}
		if a.Op == "fld" && a.Aux == "IsResumption" {
			return true
		}
		return a.Op == "fld" && sticky[a.Aux] && a.Args[0].Op == "sym" && a.Args[0].Aux == "Config"
	}
	in.Clause = func(f *ai.Term) bool {
		return f.Op == "call" && strings.HasPrefix(f.Aux, "(time.Time).")
	}
	in.Plain = func(t *ai.Term) bool {
		if t.Op != "fld" {
			return false
		}
		for t.Op == "fld" {
			t = t.Args[0]
		}
		return t.Op == "sym" && (t.Aux == "Config" || t.Aux == "Opts") || t.Op == "res" || t.Op == "call"
	}
	in.OnRecv = func(s *ai.State, msg *ai.Term) {
		l := s.Heap(recvRoot)
		if l == nil {
			return
		}
		if l.Op == "list" {
			in.Store(s, ai.Mk("ptr", recvRoot), ai.Mk("list", l.Aux, append(append([]*ai.Term(nil), l.Args...), msg)...))
		}
	}
	return in
}

func typ(p *load.Program, name string) types.Type {
	o := p.Main.Types.Scope().Lookup(name)
	if o == nil {
		panic("no type " + name)
	}
	return o.Type()
}

// startState makes a start state whose fields are zero except the given ones.
func startState(in *ai.Interp, p *load.Program, s *ai.State, typeName string, opts bool) *ai.Term {
	t := typ(p, typeName)
	obj := in.NewObject(s, "start", t, ai.Zero(t))
	cfg := in.NewObject(s, "Config", typ(p, "Config"), ai.Expand(ai.Sym("Config"), typ(p, "Config")))
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case types.Identical(f.Type(), types.NewPointer(typ(p, "Config"))):
			in.Store(s, ai.FieldAddr(obj, f.Name()), cfg)
		case types.Identical(f.Type(), typ(p, "ConnectionOptions")):
			in.Store(s, ai.FieldAddr(obj, f.Name()), ai.Expand(ai.Sym("Opts"), f.Type()))
		case types.Identical(f.Type(), types.NewPointer(typ(p, "HandshakeContext"))):
			in.Store(s, ai.FieldAddr(obj, f.Name()), ai.Sym("hsCtx"))
		case types.Identical(f.Type(), types.NewPointer(typ(p, "Conn"))):
			in.Store(s, ai.FieldAddr(obj, f.Name()), ai.Sym("conn"))
		}
	}
	v := s.Load(obj)
	return ai.IfaceOf(t, v)
}

// Client analyses the client's handshakes.
func Client(p *load.Program) *Role {
	in := newInterp(p)
	s := ai.NewState()
	st := startState(in, p, s, "clientStateStart", true)
	return Explore(p, "client", in, &Node{S: s, State: st})
}

// Server analyses the server's handshakes.
func Server(p *load.Program) *Role {
	in := newInterp(p)
	s := ai.NewState()
	st := startState(in, p, s, "serverStateStart", false)
	return Explore(p, "server", in, &Node{S: s, State: st})
}
