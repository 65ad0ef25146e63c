package absint

import (
	"fmt"
	"strings"
)

// Big integers: values in memory, changed through the receiver.

func bigValue(s *State, p *Term) *Term {
	switch p.Op {
	case "ptr", "fptr", "eptr", "glob":
		return s.load(p)
	case "alt":
		alts := make([]*Term, len(p.Args))
		for i, a := range p.Args {
			alts[i] = bigValue(s, a)
		}
		return Alt(alts...)
	}
	if v, ok := s.heap[overrideKey(p)]; ok {
		return v
	}
	return p
}

func bigArg(c *Call, i int) *Term {
	t := c.Args[i]
	if b := c.Sig.Params(); i >= 1 && i-1 < b.Len() && strings.HasSuffix(b.At(i-1).Type().String(), "big.Int") {
		return bigValue(c.S, t)
	}
	return bytesArg(c.S, t)
}

func bigNew(c *Call, v *Term) []*Outcome {
	p := hashObj(c, v)
	return []*Outcome{ret(c.S, p)}
}

// bigSet models x.Op(args): the receiver takes the value of the operation.
func bigSet(op string) Prim {
	return func(c *Call) ([]*Outcome, bool) {
		args := make([]*Term, 0, 3)
		for i := 1; i < len(c.Args); i++ {
			args = append(args, bigArg(c, i))
		}
		v := mk("call", "big."+op, args...)
		if op == "Set" {
			v = args[0]
		}
		if op == "SetInt64" || op == "SetUint64" {
			v = mk("call", "big.Int", args...)
		}
		r := c.Args[0]
		switch r.Op {
		case "ptr", "fptr", "eptr", "glob":
			c.In.store(c.S, r, v)
		default:
			c.S.heap[overrideKey(r)] = v
		}
		return one(c.S, r)
	}
}

func bigGet(op string) Prim {
	return func(c *Call) ([]*Outcome, bool) {
		args := []*Term{bigValue(c.S, c.Args[0])}
		for i := 1; i < len(c.Args); i++ {
			args = append(args, bigArg(c, i))
		}
		return one(c.S, mk("call", "big."+op, args...))
	}
}

func bigPrims() {
	aeadPrims()
	// byte order
	for _, n := range []int64{2, 4, 8} {
		n := n
		bits := map[int64]string{2: "16", 4: "32", 8: "64"}[n]
		for _, recv := range []string{"(encoding/binary.bigEndian).", "invoke:encoding/binary.ByteOrder."} {
			prims[recv+"Uint"+bits] = func(c *Call) ([]*Outcome, bool) {
				return one(c.S, BigEndian(bytesArg(c.S, c.Args[1]), Int(0), n))
			}
			prims[recv+"PutUint"+bits] = func(c *Call) ([]*Outcome, bool) {
				c.In.storeBytes(c.S, c.Args[1], mk("uintb", fmt.Sprint(n), c.Args[2]))
				return one(c.S)
			}
		}
	}
	prims["math/big.NewInt"] = func(c *Call) ([]*Outcome, bool) {
		return bigNew(c, mk("call", "big.Int", c.Args[0])), true
	}
	for _, op := range []string{"Add", "Sub", "Mul", "Mod", "Exp", "Set", "SetBytes", "SetInt64", "SetUint64", "Div", "Quo", "Rem", "Lsh", "Rsh", "Neg"} {
		prims["(*math/big.Int)."+op] = bigSet(op)
	}
	for _, op := range []string{"Bytes", "Cmp", "Sign", "BitLen"} {
		prims["(*math/big.Int)."+op] = bigGet(op)
	}
	prims["(*math/big.Int).FillBytes"] = func(c *Call) ([]*Outcome, bool) {
		x := mk("call", "big.Bytes", bigValue(c.S, c.Args[0]))
		n := c.S.lenOf(c.Args[1])
		v := mk("bufv", "", n, mk("w", "", Add(n, Len(x), -1), x))
		c.In.storeBytes(c.S, c.Args[1], v)
		return one(c.S, c.Args[1])
	}
}
