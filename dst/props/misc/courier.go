package misc

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Co is a parcel, or (K "read") one receiver's turn.
type Co struct {
	T    int    `json:"t"`
	K    string `json:"k"` // send, read
	Len  int    `json:"len,omitempty"`
	Fill int    `json:"fill,omitempty"`
	By   int    `json:"by,omitempty"`  // which helper makes the digest
	B64  int    `json:"b64,omitempty"` // 0: travels as it is, else as base64 text by one of the helpers
	Wait int64  `json:"wait,omitempty"`
}

func refMd5(b []byte) string {
	s := md5.Sum(b)
	return hex.EncodeToString(s[:])
}

// piecemeal is a stream that comes in pieces, and other things happen between them.
type piecemeal struct{ b []byte }

func (p *piecemeal) Read(b []byte) (int, error) {
	sim.Yield()
	n := min(len(p.b), len(b))
	if n > 1 && n < 5000 {
		n = 1 + sim.Choose(n, "piece")
	}
	copy(b, p.b[:n])
	p.b = p.b[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// content of a parcel
func parcel(o Co) []byte {
	b := make([]byte, o.Len)
	r := sim.NewRng(uint64(o.Fill*1000003 + o.Len))
	for i := range b {
		switch o.Fill % 4 {
		case 0:
			b[i] = byte(r.Uint64())
		case 1:
			b[i] = "line of text\r\n"[i%14]
		case 2:
			b[i] = byte(o.Fill)
		default:
			b[i] = byte(i / 16)
		}
	}
	return b
}

// digests of the same bytes, by every helper
const digesters = 4

func digest(by int, b []byte) (name, sum string) {
	sim.Grant(len(b))
	switch by % digesters {
	case 0:
		return "MD5V", utils.MD5V(append([]byte(nil), b...))
	case 1:
		return "Md5", utils.Md5(string(b))
	case 2:
		return "Md5Crypt", utils.Md5Crypt(string(b))
	}
	return "ComputeFileMD5", utils.ComputeFileMD5(&piecemeal{b})
}

// open turns base64 text into what it stands for.
func open(by int, text string) (name string, b []byte) {
	sim.Grant(len(text))
	switch by % 3 {
	case 0:
		return "Base64Decode", utils.Base64Decode(text)
	case 1:
		return "Base64DecodeToByte", utils.Base64DecodeToByte(text)
	}
	return "Base64DecodeToString", []byte(utils.Base64DecodeToString(text))
}

// Courier runs a workload.
func Courier(ops []Co) {
	type note struct {
		digest string
		b64    int
	}
	var box []message
	notes := map[string]note{} // by the message's name
	by := map[int][]Co{}
	horizon := int64(0)
	for _, o := range ops {
		by[o.T] = append(by[o.T], o)
		horizon += o.Wait
	}
	count := 0
	read := func(m message, n note, turn int) {
		b := m.data
		if n.b64 > 0 {
			text := string(b)
			name, got := open(n.b64+turn, text)
			if want, err := base64.StdEncoding.DecodeString(text); err == nil && !bytes.Equal(got, want) {
				sim.Fail("base64", "%s of %s (%d bytes of text) gives %d bytes: %s", name, m.what, len(text), len(got), apart(got, want))
			}
			b = got
		}
		arg := append(make([]byte, 0, len(b)+20), b...)
		sim.Grant(len(b))
		ok := utils.CheckMd5(arg, n.digest)
		sim.Tracef("%s: %d bytes, %v", m.what, len(b), ok)
		if !bytes.Equal(arg, b) || !bytes.Equal(arg[:cap(arg)][len(b):], make([]byte, cap(arg)-len(b))) {
			sim.Fail("memory", "checking %s changes the caller's bytes", m.what)
		}
		sum := refMd5(b)
		switch {
		case ok && sum != n.digest:
			sim.Fail("accepted", "the check accepts %s (%d bytes with the digest %s) for the digest %q", m.what, len(b), sum, n.digest)
		case !ok && sum == n.digest:
			sim.Fail("refused", "the check refuses %s (%d bytes) for its own digest %q", m.what, len(b), n.digest)
		case ok && bytes.Equal(b, m.plain):
			sim.Probe("arrived")
		case !ok:
			sim.Probe("damage refused")
		}
		if name, s := digest(turn, b); s != sum {
			sim.Fail("digest", "%s of %d bytes gives %q and not %q", name, len(b), s, sum)
		}
	}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("peer", t), func() {
			for i, o := range list {
				if o.Wait > 0 {
					sim.Sleep(o.Wait)
				}
				if o.K == "read" {
					if len(box) > 0 {
						m := box[0]
						box = box[1:]
						read(m, notes[string(m.key)], i+t)
					}
					continue
				}
				plain := parcel(o)
				name, sum := digest(o.By, plain)
				if sum != refMd5(plain) {
					sim.Fail("digest", "%s of %d bytes gives %q and not %q", name, len(plain), sum, refMd5(plain))
				}
				m := message{what: fmt.Sprintf("a parcel of %d bytes", o.Len), plain: plain, data: plain}
				if o.B64 > 0 {
					sim.Grant(len(plain))
					if o.B64%2 == 0 {
						m.data = []byte(utils.Base64Encode(string(plain)))
					} else {
						m.data = []byte(utils.Base64EncodeToByte(append([]byte(nil), plain...)))
					}
					if want := base64.StdEncoding.EncodeToString(plain); string(m.data) != want {
						sim.Fail("base64", "encoding %d bytes gives other text than base64: %s", len(plain), apart(m.data, []byte(want)))
					}
				}
				// the digest goes by another way
				switch sim.Fault("wrong digest", 4, m.what) {
				case 1:
					d := []byte(sum)
					d[sim.Choose(len(d), "where")] ^= 1
					sum = string(d)
				case 2:
					sum = sum[:sim.Choose(len(sum), "where")]
				case 3:
					sum = refMd5(append([]byte("another"), plain...))
				case 4:
					sum = refMd5(nil)
				}
				count++
				m.key = []byte(fmt.Sprint("parcel ", count))
				notes[string(m.key)] = note{sum, o.B64}
				box = deliver(box, m)
			}
		}))
	}
	finish("a digest or a base64 call", horizon, ts...)
	for i, m := range box {
		if n, ok := notes[string(m.key)]; ok {
			read(m, n, i)
		}
	}
}

// apart says where two contents part.
func apart(got, want []byte) string {
	for i := 0; i < min(len(got), len(want)); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("%d bytes instead of %d, different from byte %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
}

// GenCourier makes a workload.
func GenCourier(g *run.G, c *sim.Config) []Co {
	g.Schedule(c)
	g.Stalls(c, 0.1, 1e3, 1e6)
	g.Faults(c, 0.9, 8, "lost,doubled,overtaken,cut,longer,bit flipped,torn,block moved,garbled,wrong digest")
	if c.FaultP > 0 && g.P(0.5) {
		c.FaultP = 0.1
	}
	var ops []Co
	if g.P(0.001) {
		ops = append(ops, Co{T: 1, K: "send", Len: bigLen(g, c), Fill: g.Intn(20), By: g.Intn(digesters), B64: g.Intn(4)}, Co{T: 1, K: "read"})
	}
	step := run.Pick(g, 0, 1, 2, 3, 15, 16, 55, 56, 63, 64, 65, 100)
	for t := g.Range(1, 3); t > 0; t-- {
		for k := g.Range(1, 5); k > 0; k-- {
			o := Co{T: t, K: "send", Len: step, Fill: g.Intn(20), By: g.Intn(digesters), B64: g.Weighted(3, 1, 1, 1, 1)}
			if g.P(0.5) {
				o.Len = g.Intn(run.Pick(g, 20, 70, 400, 5000))
			}
			if g.P(0.35) {
				o = Co{T: t, K: "read"}
			}
			if g.P(0.3) {
				o.Wait = run.Pick(g, int64(1e3), 1e6)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
