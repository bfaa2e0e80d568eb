package misc

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Ae is one encryption or decryption of a part of a shared buffer.
type Ae struct {
	T    int    `json:"t"`
	K    string `json:"k"` // enc, dec
	At   int    `json:"at"`
	Len  int    `json:"len"`
	Cap  int    `json:"cap"`            // 0: up to the buffer's end, 1: exactly the length
	Key  int    `json:"key"`            // length of the key
	Kn   int    `json:"kn"`             // which key
	Dirt bool   `json:"dirt,omitempty"` // writes over the result afterwards
	Own  bool   `json:"own,omitempty"`  // the key is in the caller's own buffer, which it uses for one key after the other
}

const bufLen = 400

// bigLen is a length around those where code might turn to other ways.
func bigLen(g *run.G, c *sim.Config) int {
	c.MaxSteps = 1e9 // code that handles each byte by itself is not a violation
	return run.Pick(g, 1<<12, 1<<15, 1<<16, 1<<16, 1<<17, 1<<20) + run.Pick(g, -17, -16, -1, 0, 1, 15, 16, 5000)
}

func plainBuf(n int) []byte {
	b := make([]byte, max(bufLen, n))
	for i := range b {
		b[i] = byte(i*7 + i/251 + 1)
	}
	return b
}

func keyOf(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*13 + k*31 + 5)
	}
	return b
}

// refEnc is the oracle: AES-CBC with PKCS#7 padding, the key's first block as IV.
func refEnc(data, key []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	n := 16 - len(data)%16
	p := append(append([]byte(nil), data...), bytes.Repeat([]byte{byte(n)}, n)...)
	out := make([]byte, len(p))
	cipher.NewCBCEncrypter(b, key[:16]).CryptBlocks(out, p)
	return out
}

// Aes runs a workload. The shared buffer holds plain text in its first half and
// cipher texts for the decryptions behind it.
func Aes(ops []Ae) {
	size := 0
	for _, o := range ops {
		size = max(size, o.At+o.Len)
	}
	text := plainBuf(size)
	buf := append([]byte(nil), text...)
	type job struct {
		o    Ae
		at   int
		len  int
		want []byte
	}
	by := map[int][]*job{}
	for _, o := range ops {
		j := &job{o: o, at: o.At, len: o.Len}
		key := keyOf(o.Key, o.Kn)
		plain := append([]byte(nil), text[o.At:o.At+o.Len]...)
		if o.K == "dec" {
			ct := refEnc(plain, key)
			if ct == nil {
				ct = make([]byte, 16)
			}
			j.at, j.len = len(buf), len(ct)
			buf = append(buf, ct...)
			j.want = plain
		} else {
			j.want = refEnc(plain, key)
		}
		by[o.T] = append(by[o.T], j)
	}
	buf = append(buf, make([]byte, 40)...)
	shared := append(make([]byte, 0, len(buf)+64), buf...) // spare capacity behind the end, too
	full := shared[:cap(shared)]
	before := append([]byte(nil), full...)
	type kept struct {
		what string
		got  []byte
		want []byte
	}
	var results []kept
	keys := map[[2]int][]byte{}
	key := func(n, k int) []byte {
		if keys[[2]int{n, k}] == nil {
			keys[[2]int{n, k}] = append(make([]byte, 0, n+32), keyOf(n, k)...)
		}
		return keys[[2]int{n, k}]
	}
	check := func(when string) {
		for i := 0; i < len(full) && !bytes.Equal(full, before); i++ {
			if full[i] != before[i] {
				sim.Fail("memory", "%s byte %d of the caller's buffer is %d and not %d", when, i, full[i], before[i])
			}
		}
		for k, b := range keys {
			if !bytes.Equal(b, keyOf(k[0], k[1])) || !bytes.Equal(b[len(b):cap(b)], make([]byte, cap(b)-len(b))) {
				sim.Fail("memory", "%s the caller's key has changed", when)
			}
		}
		for _, r := range results {
			if !bytes.Equal(r.got, r.want) {
				sim.Fail("result-changed", "%s the result that %s returned earlier has changed", when, r.what)
			}
		}
	}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("user", t), func() {
			mine := make([]byte, 64)
			for _, j := range list {
				arg := full[j.at : j.at+j.len]
				if j.o.Cap == 1 {
					arg = full[j.at : j.at+j.len : j.at+j.len]
				}
				fn, what := utils.AesEncrypt, fmt.Sprintf("encrypting %d bytes", j.len)
				if j.o.K == "dec" {
					fn, what = utils.AesDecrypt, fmt.Sprintf("decrypting %d bytes", j.len)
				}
				k := key(j.o.Key, j.o.Kn)
				if j.o.Own {
					k = mine[:copy(mine, k)]
				}
				got, err := fn(arg, k)
				if !bytes.Equal(k, keyOf(j.o.Key, j.o.Kn)) {
					sim.Fail("memory", "%s changes the caller's key", what)
				}
				sim.Tracef("%s: %v", what, err)
				bad := j.o.Key != 16 && j.o.Key != 24 && j.o.Key != 32
				switch {
				case bad && err == nil:
					sim.Fail("bad-key", "%s with a key of %d bytes reports no error", what, j.o.Key)
				case bad:
					sim.Probe("bad key refused")
				case err != nil:
					sim.Fail("error", "%s: %v", what, err)
				case !bytes.Equal(got, j.want):
					sim.Fail("result", "%s gives %x... and not %x...", what, got[:min(len(got), 24)], j.want[:min(len(j.want), 24)])
				default:
					check("after " + what)
					sim.Probe(j.o.K)
					if j.o.Dirt {
						for i := range got {
							got[i] ^= 0xff
						}
						check("after writing to what " + what + " returned")
						for i := range got {
							got[i] ^= 0xff
						}
					}
					results = append(results, kept{what, got, append([]byte(nil), j.want...)})
				}
				check("after " + what)
			}
		}))
	}
	finish("an AES call", 0, ts...)
	check("at the end")
}

// GenAes makes a workload.
func GenAes(g *run.G, c *sim.Config) []Ae {
	g.Schedule(c)
	g.Stalls(c, 0.15, 1e3, 1e6)
	var ops []Ae
	at := g.Intn(8)
	step := run.Pick(g, 0, 1, 5, 10, 16, 20, 32)
	if g.P(0.001) {
		ops = append(ops, Ae{T: 1, K: run.Pick(g, "enc", "dec"), At: g.Intn(8), Len: bigLen(g, c), Cap: g.Intn(2), Key: run.Pick(g, 16, 24, 32), Kn: g.Intn(3)})
	}
	for t := g.Range(1, 4); t > 0; t-- {
		for k := g.Range(1, 4); k > 0; k-- {
			o := Ae{T: t, K: "enc", At: at, Len: step, Cap: g.Intn(2), Key: run.Pick(g, 16, 24, 32), Kn: g.Intn(3), Dirt: g.P(0.3), Own: g.P(0.4)}
			if g.P(0.4) {
				o.K = "dec"
			}
			if g.P(0.3) {
				o.At, o.Len = g.Intn(100), g.Intn(100)
			}
			if g.P(0.05) {
				o.Key = run.Pick(g, 0, 1, 8, 15, 17, 33)
			}
			if o.At+o.Len > bufLen {
				o.At = 0
			}
			at = o.At + o.Len
			if at > 250 {
				at = 0
			}
			ops = append(ops, o)
		}
	}
	return ops
}
