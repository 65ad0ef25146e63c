package rules

import (
	ai "mintcheck/absint"
)

// Linear arithmetic over what a state knows: enough to see that a length is
// within a bound that was checked.

type linear struct {
	c    int64
	coef map[*ai.Term]int64
}

func linOf(t *ai.Term) linear {
	c, m := ai.Lin(t)
	return linear{c, m}
}

// minus is a - b.
func (a linear) minus(b linear) linear {
	r := linear{a.c - b.c, map[*ai.Term]int64{}}
	for t, k := range a.coef {
		r.coef[t] += k
	}
	for t, k := range b.coef {
		r.coef[t] -= k
	}
	for t, k := range r.coef {
		if k == 0 {
			delete(r.coef, t)
		}
	}
	return r
}

// trivial tells whether an expression is not negative whatever its terms are.
func (a linear) trivial() bool {
	if a.c < 0 {
		return false
	}
	for t, k := range a.coef {
		if k < 0 || !nonNegative(t) {
			return false
		}
	}
	return true
}

func nonNegative(t *ai.Term) bool {
	return t.Op == "cap" || ai.NonNegative(t)
}

// constraints lists expressions that are known not to be negative.
func constraints(s *ai.State) []linear {
	var out []linear
	one := linear{c: 1}
	for f, v := range s.Facts() {
		switch f.Op {
		case "lt":
			a, b := linOf(f.Args[0]), linOf(f.Args[1])
			if v {
				out = append(out, b.minus(a).minus(one))
			} else {
				out = append(out, a.minus(b))
			}
		case "eq":
			if v {
				a, b := linOf(f.Args[0]), linOf(f.Args[1])
				out = append(out, a.minus(b), b.minus(a))
			}
		}
	}
	return out
}

// le tells whether a <= b is known, from at most two constraints.
func le(s *ai.State, a, b *ai.Term) bool {
	goal := linOf(b).minus(linOf(a))
	if goal.trivial() {
		return true
	}
	cs := constraints(s)
	for _, x := range cs {
		g := goal.minus(x)
		if g.trivial() {
			return true
		}
		for _, y := range cs {
			if g.minus(y).trivial() {
				return true
			}
		}
	}
	return false
}
