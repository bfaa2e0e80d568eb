// Package xcrand stands in for crypto/rand: a deterministic stream per run.
package xcrand

import (
	"dst/sim"
	"encoding/base32"
	"errors"
	"io"
	"math/big"
)

type reader struct{}

type state struct{ r sim.Rng }

var site = sim.Site("crypto/rand")

func (reader) Read(b []byte) (int, error) {
	sim.SyncPoint(site)
	if sim.Fault("entropy", 1, "crypto/rand") > 0 {
		return 0, errors.New("crypto/rand: injected failure")
	}
	st := sim.Obj[state]("xcrand", func() *state { return &state{sim.NewRng(sim.S.Cfg.Seed ^ 0xC0FFEE)} })
	for i := range b {
		b[i] = byte(st.r.Uint64())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Text() string {
	b := make([]byte, 17)
	Read(b)
	return base32.StdEncoding.EncodeToString(b)[:26]
}

func Int(rand io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := new(big.Int).Sub(max, big.NewInt(1))
	bl := n.BitLen()
	if bl == 0 {
		return n, nil
	}
	k := (bl + 7) / 8
	b := uint(bl % 8)
	if b == 0 {
		b = 8
	}
	buf := make([]byte, k)
	for {
		if _, err := io.ReadFull(rand, buf); err != nil {
			return nil, err
		}
		buf[0] &= uint8(int(1<<b) - 1)
		n.SetBytes(buf)
		if n.Cmp(max) < 0 {
			return n, nil
		}
	}
}
