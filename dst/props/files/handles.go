package files

import (
	"archive/zip"
	"bytes"
	"fmt"
	"path"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Hd is one call of a file helper.
type Hd struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // file, zip, cut (setup), or the helper
	A string `json:"a,omitempty"` // path
	B string `json:"b,omitempty"` // path
	N int    `json:"n,omitempty"`
	W int64  `json:"w,omitempty"`
}

// Handles runs a workload.
func Handles(ops []Hd) {
	disk := xos.Disk()
	disk.Mkdir("/work/dir")
	var rest []Hd
	horizon := int64(0)
	for _, o := range ops {
		switch o.K {
		case "file":
			disk.Put(o.A, data(o.A, o.N))
		case "zip":
			var b bytes.Buffer
			w := zip.NewWriter(&b)
			for i := 0; i < o.N; i++ {
				f, err := w.Create(fmt.Sprintf("d%d/f%d", i%2, i))
				if err == nil {
					_, err = f.Write(data(fmt.Sprint(i), 700*i))
				}
				if err != nil {
					panic(err)
				}
			}
			w.Close()
			z := b.Bytes()
			if o.W > 0 {
				z[int(o.W)%len(z)] ^= 16
			}
			disk.Put(o.A, z)
		case "table":
			disk.Put(o.A, table(Rd{N: o.N % 9, E: o.N / 9}))
		default:
			rest = append(rest, o)
			horizon += o.W
		}
	}
	ids, by := actors(rest, func(o Hd) int { return o.T })
	var ts []*sim.Task
	var calls []string
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				if o.W > 0 {
					sim.Sleep(o.W)
				}
				var err error
				switch o.K {
				case "CopyFile":
					_, err = utils.CopyFile(o.B, o.A)
				case "FileMove":
					err = utils.FileMove(o.A, o.B)
				case "FileMd5":
					_, err = utils.FileMd5(o.A)
				case "ImageFileToBase64":
					utils.ImageFileToBase64(o.A)
				case "ReadCsv":
					utils.ReadCsv(o.A)
				case "WriteCsv":
					err = utils.WriteCsv(o.A, []string{"a", "b", string(data("c", o.N))})
				case "Unzip":
					_, err = utils.Unzip(o.A, o.B)
				case "ZipFiles":
					err = utils.ZipFiles(o.B, []string{o.A, "f0", "f1"}, "", "")
				case "BreakPointContinue":
					_, err = utils.BreakPointContinue(data("c", o.N), "up", o.N%3, 3, "m")
				case "MakeFile":
					_, err = utils.MakeFile("up", "m")
				case "RemoveChunk":
					err = utils.RemoveChunk("m")
				case "ScanDir":
					_, err = utils.ScanDir(o.A)
				case "CreateDir":
					err = utils.CreateDir(o.A, o.B)
				case "DeLFile":
					err = utils.DeLFile(o.A)
				case "PathExists":
					_, err = utils.PathExists(o.A)
				}
				sim.Tracef("%s(%s, %s): %s", o.K, o.A, o.B, errText(err))
				sim.Probe(o.K)
				calls = append(calls, o.K)
			}
		}))
	}
	finish("a file helper", horizon, ts...)
	if n := disk.OpenCount(); n > 0 {
		sim.Fail("leak", "%d descriptors stay open (%q) after the calls %q have all returned", n, disk.OpenNames(), calls)
	}
}

// Foreign lists the files that no call was to make: temporary ones that were left behind.
func Foreign(ops []Hd) (left []string) {
	if sim.Faulted("remove") > 0 {
		return nil
	}
	may := map[string]bool{"up": true, "up_0": true, "up_1": true, "up_2": true}
	for i := 0; i < 6; i++ {
		may[fmt.Sprint("f", i)] = true
	}
	for _, o := range ops {
		if o.K == "zip" && o.W > 0 {
			return nil // its names are damaged too
		}
		may[path.Base(o.A)], may[path.Base(o.B)] = true, true
	}
	tree := xos.Disk().Tree("/work")
	for _, p := range sim.Keys(tree) {
		if tree[p] != "d" && !may[path.Base(p)] {
			left = append(left, p)
		}
	}
	return left
}

// GenHandles makes a workload.
func GenHandles(g *run.G, c *sim.Config) []Hd {
	ioFaults(g, c, allFaults+",getwd", false)
	var ops []Hd
	paths := []string{"f0", "f1", "t.csv", "a.zip", "dir", "absent"}
	ops = append(ops, Hd{T: -1, K: "file", A: "f0", N: size(g)}, Hd{T: -1, K: "file", A: "f1", N: size(g)},
		Hd{T: -1, K: "table", A: "t.csv", N: g.Intn(18)}, Hd{T: -1, K: "zip", A: "a.zip", N: g.Range(0, 5), W: int64(g.Intn(3) * g.Intn(5000))})
	if g.P(0.3) {
		ops = append(ops, Hd{T: -1, K: "file", A: "out/d0/f0/x", N: 2})
	}
	clients := g.Range(1, 3)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 4); k > 0; k-- {
			o := Hd{T: t, K: run.Pick(g, "CopyFile", "FileMove", "FileMd5", "ImageFileToBase64", "ReadCsv", "WriteCsv", "Unzip", "Unzip", "ZipFiles", "ZipFiles", "BreakPointContinue", "BreakPointContinue", "MakeFile", "MakeFile", "RemoveChunk", "ScanDir", "CreateDir", "DeLFile", "PathExists"), W: pause(g)}
			o.A, o.B = paths[g.Intn(len(paths))], run.Pick(g, "out", "dir", "new/x", "f0", "absent/y")
			switch o.K {
			case "Unzip":
				if g.P(0.8) {
					o.A = "a.zip"
				}
			case "ReadCsv", "WriteCsv":
				if g.P(0.8) {
					o.A = "t.csv"
				}
			case "ScanDir", "DeLFile":
				o.A = run.Pick(g, ".", "dir", "out", "breakpointDir", "f1")
				if o.K == "DeLFile" && o.A == "." {
					o.A = "out"
				}
			case "ZipFiles":
				o.B = "new.zip"
				if o.A == "a.zip" || g.P(0.5) {
					o.A = "f1"
				}
			}
			o.N = g.Range(0, 40)
			ops = append(ops, o)
		}
	}
	return ops
}
