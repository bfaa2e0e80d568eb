package misc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/common/hash"
	mmath "github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Sl is one call of a helper that keeps no state.
type Sl struct {
	T    int    `json:"t"`
	F    string `json:"f"`
	S    string `json:"s,omitempty"`
	S2   string `json:"s2,omitempty"`
	N    int    `json:"n,omitempty"`
	M    int    `json:"m,omitempty"`
	Full bool   `json:"full,omitempty"` // byte slices end at their capacity
	Dirt bool   `json:"dirt,omitempty"` // writes to what was returned
}

// shared holds the arguments that several callers use at once.
type shared struct {
	buf  []byte // S of every call, one after the other, with room behind
	at   map[string]int
	m    map[string]any
	m32  map[string]int32
	opts map[string]bool
	args []any
}

const room = 40

func newShared(ops []Sl) *shared {
	sh := &shared{at: map[string]int{}}
	add := func(s string) {
		if _, ok := sh.at[s]; !ok {
			sh.at[s] = len(sh.buf)
			sh.buf = append(append(sh.buf, s...), make([]byte, room)...)
		}
	}
	for _, o := range ops {
		add(o.S)
		add(o.S2)
	}
	sh.m = map[string]any{"a": 1, "b": "two", "c": []int{1, 2, 3}, "d": nil, "<e>": map[string]any{"x": 1.5}}
	sh.m32 = map[string]int32{"a": 1, "b": -2, "z": 1 << 30}
	sh.opts = map[string]bool{"on": true, "off": false}
	sh.args = []any{"page", 1, "q", "x y", "zero", 0, "odd"}
	return sh
}

func (sh *shared) bytes(s string, full bool) []byte {
	a := sh.at[s]
	if full {
		return sh.buf[a : a+len(s) : a+len(s)]
	}
	return sh.buf[a : a+len(s) : a+len(s)+room]
}

type slFn func(sh *shared, o Sl) any

var slFns = map[string]slFn{
	"Base64Encode":         func(sh *shared, o Sl) any { return utils.Base64Encode(o.S) },
	"Base64DecodeToString": func(sh *shared, o Sl) any { return utils.Base64DecodeToString(o.S) },
	"Base64Decode":         func(sh *shared, o Sl) any { return utils.Base64Decode(o.S) },
	"Base64DecodeToByte":   func(sh *shared, o Sl) any { return utils.Base64DecodeToByte(o.S) },
	"Base64EncodeToByte":   func(sh *shared, o Sl) any { return utils.Base64EncodeToByte(sh.bytes(o.S, o.Full)) },
	"MD5V":                 func(sh *shared, o Sl) any { return utils.MD5V(sh.bytes(o.S, o.Full)) },
	"MD5V prefix": func(sh *shared, o Sl) any {
		return utils.MD5V(sh.bytes(o.S, o.Full), sh.bytes(o.S2, o.Full)...)
	},
	"CheckMd5":         func(sh *shared, o Sl) any { return utils.CheckMd5(sh.bytes(o.S, o.Full), o.S2) },
	"Md5Crypt":         func(sh *shared, o Sl) any { return utils.Md5Crypt(o.S) },
	"Md5":              func(sh *shared, o Sl) any { return utils.Md5(o.S) },
	"ComputeFileMD5":   func(sh *shared, o Sl) any { return utils.ComputeFileMD5(bytes.NewReader(sh.bytes(o.S, o.Full))) },
	"IsImage":          func(sh *shared, o Sl) any { return utils.IsImage(o.S) },
	"GetSuffixName":    func(sh *shared, o Sl) any { return utils.GetSuffixName(o.S, "@") },
	"FormatByte":       func(sh *shared, o Sl) any { return utils.FormatByte(o.N) },
	"IsTextFile":       func(sh *shared, o Sl) any { return utils.IsTextFile(sh.bytes(o.S, o.Full)) },
	"IsImageFile":      func(sh *shared, o Sl) any { return utils.IsImageFile(sh.bytes(o.S, o.Full)) },
	"IsPDFFile":        func(sh *shared, o Sl) any { return utils.IsPDFFile(sh.bytes(o.S, o.Full)) },
	"IsVideoFile":      func(sh *shared, o Sl) any { return utils.IsVideoFile(sh.bytes(o.S, o.Full)) },
	"FileSize":         func(sh *shared, o Sl) any { return utils.FileSize(int64(o.N)) },
	"IsSameSiteURL":    func(sh *shared, o Sl) any { return utils.IsSameSiteURLPath(o.S) },
	"IsMaliciousPath":  func(sh *shared, o Sl) any { return utils.IsMaliciousPath(o.S) },
	"IntToString":      func(sh *shared, o Sl) any { return utils.IntToString(o.N) },
	"Int64ToString":    func(sh *shared, o Sl) any { return utils.Int64ToString(int64(o.N)) },
	"StringToInt":      func(sh *shared, o Sl) any { return utils.StringToInt(o.S) },
	"StringToInt64":    func(sh *shared, o Sl) any { return utils.StringToInt64(o.S) },
	"Substr2":          func(sh *shared, o Sl) any { return utils.Substr2(o.S, 0, min(2, len([]rune(o.S)))) },
	"UpperFirst":       func(sh *shared, o Sl) any { return utils.UpperFirst(o.S) },
	"HideStar":         func(sh *shared, o Sl) any { return utils.HideStar(o.S) },
	"MaskMobile":       func(sh *shared, o Sl) any { return utils.MaskMobile(o.S, o.M) },
	"MaskCustomerName": func(sh *shared, o Sl) any { return utils.MaskCustomerName(o.S) },
	"MaskIDCard":       func(sh *shared, o Sl) any { return utils.MaskIDCard(o.S, o.M) },
	"MaskBackCard":     func(sh *shared, o Sl) any { return utils.MaskBackCard(o.S, o.M) },
	"BuildUrl":         func(sh *shared, o Sl) any { return utils.BuildUrl(o.S, sh.args[:o.M%(len(sh.args)+1)]...) },
	"Round":            func(sh *shared, o Sl) any { return utils.Round(float64(o.N)/3, o.M%6) },
	"MapToJsonString":  func(sh *shared, o Sl) any { return utils.MapToJsonString(sh.m) },
	"Map2JsonString":   func(sh *shared, o Sl) any { return utils.Map2JsonString(sh.m) },
	"MapIntToJson":     func(sh *shared, o Sl) any { return utils.MapIntToJsonString(sh.m32) },
	"JsonStringToMap": func(sh *shared, o Sl) any {
		return utils.JsonStringToMap(fmt.Sprintf(`{"k%d":%d,"n":7}`, o.M, o.N%1000))
	},
	"GetSwitch": func(sh *shared, o Sl) any { return utils.GetSwitchFromOptions(sh.opts, o.S) },
	"SetSwitch": func(sh *shared, o Sl) any {
		m := map[string]bool{"old": true}
		utils.SetSwitchFromOptions(m, o.S, o.N%2 == 0)
		return m
	},
	"Split": func(sh *shared, o Sl) any {
		a, b := mmath.Split(uint(abs(o.N)+1), uint(o.M+1))
		return [2]uint{a, b}
	},
	"PowOf2": func(sh *shared, o Sl) any {
		n := uint64(abs(o.N) + 1)
		return []any{mmath.IsPowOf2(n), mmath.RoundUpPowOf2(n), mmath.RoundDownPowOf2(n), mmath.FindLastBitSet(n), mmath.Log2(n)}
	},
	"MinMax": func(sh *shared, o Sl) any {
		return []any{mmath.Max(o.N, o.M), mmath.Min(o.S, o.S2), mmath.Abs(o.N)}
	},
}

func abs(n int) int {
	if n < 0 {
		return -(n + 1)
	}
	return n
}

// show renders a result; a panic is a result, too.
func show(v any) string { return fmt.Sprintf("%T %#v", v, v) }

func slCall(sh *shared, o Sl) (raw any, out string) {
	defer func() {
		if p := recover(); p != nil {
			raw, out = nil, fmt.Sprint("panic: ", p)
		}
	}()
	raw = slFns[o.F](sh, o)
	return raw, show(raw)
}

// Stateless runs a workload.
func Stateless(ops []Sl) {
	by := map[int][]Sl{}
	for _, o := range ops {
		if slFns[o.F] != nil {
			by[o.T] = append(by[o.T], o)
		}
	}
	// what each call gives in a process that makes no other
	want := map[string]string{}
	name := func(o Sl) string {
		o.T, o.Dirt, o.Full = 0, false, true
		return fmt.Sprintf("%+v", o)
	}
	for _, o := range ops {
		if slFns[o.F] == nil || want[name(o)] != "" {
			continue
		}
		sim.Reset()
		p := o
		p.Full = true
		_, want[name(o)] = slCall(newShared([]Sl{p}), p)
	}
	sim.Reset()
	sh := newShared(ops)
	before := append([]byte(nil), sh.buf[:cap(sh.buf)]...)
	maps := func() string {
		a, _ := json.Marshal([]any{sh.m, sh.m32, sh.opts, sh.args})
		return string(a)
	}
	mapsBefore := maps()
	type kept struct {
		o   Sl
		raw any
		out string
	}
	var results []*kept
	check := func(when string) {
		now := sh.buf[:cap(sh.buf)]
		for i := range now {
			if now[i] != before[i] {
				sim.Fail("argument", "%s byte %d of the caller's buffer is %d and not %d", when, i, now[i], before[i])
			}
		}
		for _, r := range results {
			if s := show(r.raw); s != r.out {
				sim.Fail("result-changed", "%s the result %s that %s returned earlier has become %s", when, r.out, r.o.F, s)
			}
		}
	}
	h0 := hash.New()
	hashed := map[string]uint64{}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("user", t), func() {
			h := hash.New() // each goroutine its own
			sums := map[string]uint64{}
			for _, o := range list {
				raw, out := slCall(sh, o)
				sim.Tracef("%s(%q, %q, %d, %d) = %s", o.F, o.S, o.S2, o.N, o.M, out)
				if w := want[name(o)]; out != w {
					sim.Fail("result", "%s(%q, %q, %d, %d) gives %s, but %s when nothing else runs", o.F, o.S, o.S2, o.N, o.M, out, w)
				}
				if o.Dirt && raw != nil {
					switch x := raw.(type) {
					case []byte:
						for i := range x {
							x[i] ^= 0xff
						}
					case map[string]int32:
						x["dirt"] = 1
					}
				} else {
					results = append(results, &kept{o, raw, out})
				}
				for k, s := range []string{o.S, o.S2} {
					n := h.Sum64String(s)
					if k == 1 {
						n = h.Sum64(sh.bytes(s, o.Full))
					}
					if m, ok := sums[s]; ok && m != n {
						sim.Fail("hash", "the hash of %q has changed from %x to %x", s, m, n)
					}
					sums[s] = n
				}
				check("after " + o.F)
			}
			// of the same content, however it is given
			for _, s := range sim.Keys(sums) {
				if a, b := h.Sum64([]byte(s)), h.Sum64String(s); a != b || a != sums[s] {
					sim.Fail("hash", "the hash of %q is %x, %x and %x", s, a, b, sums[s])
				}
			}
		}))
	}
	finish("a helper", 0, ts...)
	check("at the end")
	if m := maps(); m != mapsBefore {
		sim.Fail("argument", "the caller's maps have changed from %s to %s", mapsBefore, m)
	}
	for _, o := range ops {
		n := h0.Sum64String(o.S)
		if m, ok := hashed[o.S]; ok && m != n {
			sim.Fail("hash", "the hash of %q has changed", o.S)
		}
		hashed[o.S] = n
	}
}

var slNames = func() (l []string) {
	for n := range slFns {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}()

// GenStateless makes a workload.
func GenStateless(g *run.G, c *sim.Config) []Sl {
	g.Schedule(c)
	if g.P(0.5) {
		c.MemP = run.Pick(g, 0.2, 0.5, 0.8)
	}
	g.Stalls(c, 0.1, 1e3, 1e6)
	texts := []string{"", "a", "ab", "abc", "张三", "张三丰", "欧阳锋锋", "wang xiaoming", "13812345678", "13912345678", "138123456789", "user@example.com", "u@x.com", "ab@b.c@d", "42", "-7", "x12", "aGVsbG8=", "aGVsbG8h", "!!", "on", "off", "photo.JPG", "photo.png", "/etc/x", "../x", "//evil", "/ok",
		"110101199003071234", "6222021234567890123", "6222021234567890", "%PDF-1.4", "GIF89a rest", "plain text here", "5d41402abc4b2a76b9719d911017c592", "hello"}
	var ops []Sl
	// often the same few helpers and arguments, so that calls meet
	nf, nt := run.Pick(g, 1, 2, 4, len(slNames)), run.Pick(g, 1, 2, 3, len(texts))
	fo, to := g.Intn(len(slNames)), g.Intn(len(texts))
	for t := g.Range(2, 4); t > 0; t-- {
		for k := g.Range(1, 5); k > 0; k-- {
			o := Sl{T: t, F: slNames[(fo+g.Intn(nf))%len(slNames)], S: texts[(to+g.Intn(nt))%len(texts)], S2: texts[(to+g.Intn(nt))%len(texts)], N: run.Pick(g, 0, 1, 9, 10, 1023, 1024, 1<<20+5, -3, 123456789), M: g.Range(0, 12), Full: g.P(0.4), Dirt: g.P(0.3)}
			if g.P(0.1) {
				o.S = texts[g.Intn(len(texts))]
			}
			ops = append(ops, o)
		}
	}
	return ops
}
