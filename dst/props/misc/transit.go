package misc

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Tr is a message, or (K "read") one receiver's turn.
type Tr struct {
	T    int    `json:"t"`
	K    string `json:"k"` // send, read
	Len  int    `json:"len,omitempty"`
	Key  int    `json:"key,omitempty"`
	Kn   int    `json:"kn,omitempty"`
	Fill int    `json:"fill,omitempty"`
	Wait int64  `json:"wait,omitempty"`
}

type message struct {
	what  string
	plain []byte
	key   []byte // the receiver's
	data  []byte
}

// refDec decrypts; ok says that the result is one that AesEncrypt's padding
// could have come from, and strict that all of the padding is.
func refDec(data, key []byte) (out []byte, ok, strict bool) {
	b, err := aes.NewCipher(key)
	if err != nil || len(data) == 0 || len(data)%16 != 0 {
		return nil, false, false
	}
	p := make([]byte, len(data))
	cipher.NewCBCDecrypter(b, key[:16]).CryptBlocks(p, data)
	n := int(p[len(p)-1])
	if n < 1 || n > 16 {
		return nil, false, false
	}
	out = p[:len(p)-n]
	return out, true, bytes.Equal(p[len(p)-n:], bytes.Repeat([]byte{byte(n)}, n))
}

// TransitFaults are the kinds of damage.
const TransitFaults = "lost,doubled,overtaken,cut,longer,bit flipped,torn,block moved,wrong key,garbled"

// deliver puts a message into the mailbox through the unreliable medium.
func deliver(box []message, m message) []message {
	if sim.Fault("lost", 1, m.what) != 0 {
		return box
	}
	b := append([]byte(nil), m.data...)
	other := bytes.Repeat([]byte{0}, 64)
	if len(box) > 0 {
		other = box[sim.Choose(len(box), "other message")].data
	}
	at := func(n int) int { return sim.Choose(n, "where") }
	dmg := func(kind string, n int) int {
		v := sim.Fault(kind, n, m.what)
		if v != 0 {
			m.what += ", " + kind
		}
		return v
	}
	if v := dmg("cut", 4); v != 0 {
		switch v {
		case 1:
			b = b[:at(len(b))]
		case 2: // at a block
			b = b[:at(len(b)/16)*16]
		case 3:
			b = b[at(len(b)):]
		case 4:
			b = nil
		}
	}
	if v := dmg("longer", 3); v != 0 {
		switch v {
		case 1:
			b = append(b, other[:at(len(other)+1)]...)
		case 2:
			b = append(b, make([]byte, 16*(1+at(3)))...)
		case 3:
			b = append(b, make([]byte, 1+at(40))...)
		}
	}
	if len(b) > 0 {
		if dmg("bit flipped", 1) != 0 {
			i := at(len(b) * 8)
			b[i/8] ^= 1 << (i % 8)
		}
		if v := dmg("torn", 2); v != 0 {
			i := at(len(b))
			if v == 1 {
				for ; i < len(b); i++ {
					b[i] = 0
				}
			} else if i < len(other) {
				copy(b[i:], other[i:])
			}
		}
		if dmg("garbled", 1) != 0 {
			r := sim.NewRng(uint64(at(1 << 30)))
			for i := at(len(b)); i < len(b); i++ {
				b[i] = byte(r.Uint64())
			}
		}
		if n := len(b) / 16; n > 1 && dmg("block moved", 1) != 0 {
			i, j := at(n), at(n)
			blk := append([]byte(nil), b[i*16:i*16+16]...)
			copy(b[i*16:i*16+16], b[j*16:j*16+16])
			if at(2) == 0 {
				copy(b[j*16:], blk)
			}
		}
	}
	if v := dmg("wrong key", 3); v != 0 {
		k := m.key
		switch v {
		case 1:
			m.key = keyOf(len(k), 77+at(1000))
		case 2:
			m.key = keyOf(16+8*at(3), at(4))
		case 3:
			m.key = keyOf(at(40), at(4))
		}
	}
	m.data = b
	n := 1
	if sim.Fault("doubled", 1, m.what) != 0 {
		n = 2
	}
	for ; n > 0; n-- {
		i := len(box)
		if i > 0 && sim.Fault("overtaken", 1, m.what) != 0 {
			i = sim.Choose(len(box), "place in the queue")
		}
		box = append(box, message{})
		copy(box[i+1:], box[i:])
		box[i] = m
	}
	return box
}

// Transit runs a workload.
func Transit(ops []Tr) {
	var box []message
	by := map[int][]Tr{}
	horizon := int64(0)
	for _, o := range ops {
		by[o.T] = append(by[o.T], o)
		horizon += o.Wait
	}
	read := func(m message, kbuf []byte) {
		data := append(make([]byte, 0, len(m.data)+20), m.data...)
		got, err := utils.AesDecrypt(data, kbuf[:copy(kbuf, m.key)])
		what := fmt.Sprintf("decrypting %s (%d bytes, key of %d)", m.what, len(m.data), len(m.key))
		sim.Tracef("%s: %d bytes, %v", what, len(got), err)
		if !bytes.Equal(data, m.data) {
			sim.Fail("memory", "%s changes the caller's bytes", what)
		}
		want, ok, strict := refDec(m.data, m.key)
		switch {
		case !ok && err == nil:
			sim.Fail("accepted", "%s gives %d bytes and no error", what, len(got))
		case ok && err == nil && !bytes.Equal(got, want):
			sim.Fail("result", "%s gives %x... of %d bytes and not %x... of %d", what, got[:min(len(got), 24)], len(got), want[:min(len(want), 24)], len(want))
		case strict && err != nil:
			sim.Fail("refused", "%s: %v", what, err)
		case !ok:
			sim.Probe("damage refused")
		case !strict && err == nil:
			sim.Probe("damaged padding accepted")
		case !strict:
			sim.Probe("damaged padding refused")
		case bytes.Equal(got, m.plain):
			sim.Probe("arrived")
		default:
			sim.Probe("damage not noticed")
		}
	}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("peer", t), func() {
			kbuf := make([]byte, 64) // each peer uses its buffer again for the next key
			for _, o := range list {
				if o.Wait > 0 {
					sim.Sleep(o.Wait)
				}
				if o.K == "read" {
					if len(box) > 0 {
						m := box[0]
						box = box[1:]
						read(m, kbuf)
					}
					continue
				}
				plain := make([]byte, o.Len)
				for i := range plain {
					switch o.Fill {
					case 0:
						plain[i] = byte(i*7 + o.Kn)
					case 1:
						plain[i] = byte(16 - o.Len%16)
					case 2:
						plain[i] = 0
					default:
						plain[i] = byte(o.Fill)
					}
				}
				m := message{what: fmt.Sprintf("a message of %d bytes", o.Len), plain: plain, key: keyOf(o.Key, o.Kn)}
				ct, err := utils.AesEncrypt(append([]byte(nil), plain...), kbuf[:copy(kbuf, m.key)])
				if err != nil {
					sim.Fail("error", "encrypting %d bytes: %v", o.Len, err)
				}
				if !bytes.Equal(ct, refEnc(plain, m.key)) {
					sim.Fail("result", "encrypting %d bytes gives other bytes than AES in CBC mode with PKCS#7 padding", o.Len)
				}
				m.data = ct
				box = deliver(box, m)
			}
		}))
	}
	finish("an AES call", horizon, ts...)
	for _, m := range box {
		read(m, make([]byte, 64))
	}
}

// GenTransit makes a workload.
func GenTransit(g *run.G, c *sim.Config) []Tr {
	g.Schedule(c)
	g.Stalls(c, 0.1, 1e3, 1e6)
	g.Faults(c, 0.9, 8, TransitFaults)
	if c.FaultP > 0 && g.P(0.5) {
		c.FaultP = 0.1
	}
	var ops []Tr
	if g.P(0.001) {
		n := bigLen(g, c)
		ops = append(ops, Tr{T: 1, K: "send", Len: n, Key: run.Pick(g, 16, 24, 32), Kn: g.Intn(4), Fill: g.Intn(20)}, Tr{T: 1, K: "read"})
	}
	step := run.Pick(g, 0, 1, 15, 16, 17, 31, 32, 100)
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 5); k > 0; k-- {
			o := Tr{T: t, K: "send", Len: step, Key: run.Pick(g, 16, 24, 32), Kn: g.Intn(4), Fill: g.Intn(20)}
			if g.P(0.5) {
				o.Len = g.Intn(run.Pick(g, 20, 70, 400))
			}
			if g.P(0.35) {
				o = Tr{T: t, K: "read"}
			}
			if g.P(0.3) {
				o.Wait = run.Pick(g, int64(1e3), 1e6)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
