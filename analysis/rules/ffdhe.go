package rules

import (
	"fmt"
	"math/big"
)

// ffdhePrimes are the primes of RFC 7919, computed from their definition
// 2^b - 2^(b-64) + (floor(2^(b-130) e) + x) 2^64 - 1.
var ffdhePrimes = map[int64]string{
	256: ffdhePrime(2048, 560316),
	257: ffdhePrime(3072, 2625351),
	258: ffdhePrime(4096, 5736041),
	259: ffdhePrime(6144, 15705020),
	260: ffdhePrime(8192, 10965728),
}

func ffdhePrime(b uint, x int64) string {
	const guard = 256
	one := big.NewInt(1)
	term := new(big.Int).Lsh(one, b-130+guard)
	e := new(big.Int)
	for n := int64(1); term.Sign() > 0; n++ {
		e.Add(e, term)
		term = new(big.Int).Div(term, big.NewInt(n))
	}
	e.Rsh(e, guard)
	e.Add(e, big.NewInt(x))
	e.Lsh(e, 64)
	p := new(big.Int).Lsh(one, b)
	p.Sub(p, new(big.Int).Lsh(one, b-64))
	p.Add(p, e)
	p.Sub(p, one)
	return fmt.Sprintf("%X", p)
}
