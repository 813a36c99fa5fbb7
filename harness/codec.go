package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/dargueta/disko/utilities/compression"
)

func init() { components["codec"] = runCodec }

// source delivers data in pieces, perhaps with empty reads in between, and
// notices whether its failure was seen.
type source struct {
	data   []byte
	piece  int
	empty  bool // every other read returns nothing
	fail   bool
	early  bool // the end (or the failure) is reported together with the last bytes
	failed bool
	reads  int
}

func (r *source) end() error {
	if r.fail {
		r.failed = true
		return errInjected
	}
	return io.EOF
}

func (r *source) Read(p []byte) (int, error) {
	r.reads++
	if r.empty && r.reads%2 == 1 || len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.end()
	}
	n := min(len(p), r.piece, len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.early && len(r.data) == 0 {
		return n, r.end()
	}
	return n, nil
}

// sink accepts a limited number of bytes.
type sink struct {
	data   []byte
	limit  int // -1: none
	failed bool
}

func (w *sink) Write(p []byte) (int, error) {
	if w.limit >= 0 && len(w.data)+len(p) > w.limit {
		n := w.limit - len(w.data)
		w.data = append(w.data, p[:n]...)
		w.failed = true
		return n, errInjected
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

func gunzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	return out, err == nil
}

func newSource(op M, b []byte) *source {
	return &source{data: b, piece: numDef(op, "piece", 1<<20), empty: boolean(op, "empty"), fail: boolean(op, "fail"), early: boolean(op, "early")}
}

func newSink(op M) *sink { return &sink{limit: numDef(op, "limit", -1)} }

// codecGzip makes the compressed input of an operation.
func codecGzip(op M) []byte {
	var buf bytes.Buffer
	plain := spread(list(op, "plain"))
	parts := [][]byte{plain}
	if at := numDef(op, "split", -1); at >= 0 && at <= len(plain) {
		parts = [][]byte{plain[:at], plain[at:]}
	}
	for _, p := range parts {
		w, err := gzip.NewWriterLevel(&buf, numDef(op, "level", 9))
		must(err)
		_, err = w.Write(p)
		must(err)
		must(w.Close())
	}
	b := buf.Bytes()
	if has(op, "extra") {
		b = append(b, bytesOf(op, "extra")...)
	}
	return b
}

func runCodec(s *Script, rec *Rec) {
	rec.E("new")
	for _, op := range s.Ops {
		name := str(op, "op")
		switch name {
		case "runs":
			codecRuns(rec, op)
		case "enc8", "dec8", "encr", "decr":
			codecRLE(rec, op, name)
		case "zip":
			in := spread(list(op, "in"))
			codecZip(rec, op, in)
			if boolean(op, "sweep") {
				var w sink
				w.limit = -1
				_, _ = compression.CompressImage(bytes.NewReader(in), &w)
				for k := 0; k < len(w.data); k++ {
					op["limit"] = json.Number(fmt.Sprint(k))
					codecZip(rec, op, in)
				}
			}
		case "unzip", "tobytes":
			gz := codecGzip(op)
			switch str0(op, "sweep") {
			case "cut":
				for k := 0; k < len(gz); k++ {
					codecUnzip(rec, op, name, gz[:k])
				}
			case "flip":
				for k := range gz {
					b := bytes.Clone(gz)
					b[k] ^= byte(num(op, "xor"))
					codecUnzip(rec, op, name, b)
				}
			case "limit":
				plain, _ := gunzip(gz)
				for k := 0; k <= 2*len(plain)+300; k++ {
					op["limit"] = json.Number(fmt.Sprint(k))
					codecUnzip(rec, op, name, gz)
				}
			default:
				codecUnzip(rec, op, name, gz)
			}
		case "toolzip", "toolunzip":
			codecTool(rec, op, name)
		case "noargs":
			codecNoArgs(rec, op)
		default:
			bug("no operation %q", name)
		}
	}
}

// spread turns a run-length list into bytes.
func spread(runs []any) []byte {
	return expand([]any{runs})
}

func str0(m M, key string) string {
	if has(m, key) {
		return str(m, key)
	}
	return ""
}

func codecRuns(rec *Rec, op M) {
	in := spread(list(op, "in"))
	src := newSource(op, in)
	var g compression.RLEGrouper
	if boolean(op, "scanner") {
		g = compression.NewRLEGrouperFromByteScanner(bytes.NewReader(in))
	} else {
		g = compression.NewRLEGrouperFromReader(src)
	}
	rec.Call("runs", "in", runsOf(in), "kind", "")
	for extra := 0; extra < 2; {
		run, err := g.GetNextRun()
		rec.E("run", "n", clamp(run.RunLength), "b", int(run.Byte), "err", errNames(err), "fault", src.failed)
		if src.failed || run.RunLength <= 0 {
			extra++
		}
		if src.failed && err != nil {
			break
		}
	}
	rec.E("ret", "op", "runs")
}

func codecRLE(rec *Rec, op M, name string) {
	in := spread(list(op, "in"))
	src, dst := newSource(op, in), newSink(op)
	f := map[string]func(io.Reader, io.Writer) (int64, error){"enc8": compression.CompressRLE8, "dec8": compression.DecompressRLE8,
		"encr": compression.CompressRLERecursive, "decr": compression.DecompressRLERecursive}[name]
	rec.Call(name, "in", runsOf(in), "kind", name[3:])
	n, err := f(src, dst)
	rec.E("ret", "op", name, "n", clamp(n), "err", errNames(err), "fault", src.failed || dst.failed, "out", runsOf(dst.data))
}

func codecZip(rec *Rec, op M, in []byte) {
	src, dst := newSource(op, in), newSink(op)
	rec.Call("zip", "in", runsOf(in))
	n, err := compression.CompressImage(src, dst)
	plain, sound := gunzip(dst.data)
	rec.E("ret", "op", "zip", "n", clamp(n), "written", len(dst.data), "err", errNames(err), "fault", src.failed || dst.failed,
		"sound", sound, "plain", runsOf(plain))
}

func codecUnzip(rec *Rec, op M, name string, gz []byte) {
	plain, sound := gunzip(gz)
	src, dst := newSource(op, bytes.Clone(gz)), newSink(op)
	rec.Call(name, "in", runsOf(plain), "sound", sound)
	var n int64
	var err error
	if name == "tobytes" {
		var b []byte
		b, err = compression.DecompressImageToBytes(src)
		if err != nil {
			b = nil
		}
		n, dst.data, dst.failed = int64(len(b)), b, false
	} else {
		n, err = compression.DecompressImage(src, dst)
	}
	rec.E("ret", "op", name, "n", clamp(n), "err", errNames(err), "fault", src.failed || dst.failed, "out", runsOf(dst.data))
}

// codecTool runs the command line tools in a directory of its own.
func codecTool(rec *Rec, op M, name string) {
	dir, err := os.MkdirTemp("", "tool")
	must(err)
	defer os.RemoveAll(dir)
	tool := os.Getenv(map[string]string{"toolzip": "ZIPIMAGE", "toolunzip": "UNZIPIMAGE"}[name])
	if tool == "" {
		bug("the tools aren't built")
	}
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	var data, plain []byte
	sound := true
	if name == "toolzip" {
		data = spread(list(op, "in"))
		plain = data
	} else {
		data = codecGzip(op)
		if k := numDef(op, "cut", -1); k >= 0 {
			data = data[:k%(len(data)+1)]
		}
		if k := numDef(op, "flip", -1); k >= 0 {
			data[k%len(data)] ^= byte(numDef(op, "xor", 1))
		}
		plain, sound = gunzip(data)
	}
	must(os.WriteFile(in, data, 0o600))
	mustFail, mayFail := false, false
	switch str0(op, "trouble") {
	case "":
	case "missing":
		must(os.Remove(in))
		mustFail = true
	case "directory":
		must(os.Remove(in))
		must(os.Mkdir(in, 0o700))
		mustFail = true
	case "nowhere":
		out = filepath.Join(dir, "none", "out")
		mustFail = true
	case "outdir":
		must(os.Mkdir(out, 0o700))
		mustFail = true
	case "full":
		out = "/dev/full"
		mayFail = true // nothing might have to be written
	case "limit":
		mayFail = true
	case "old":
		must(os.WriteFile(out, bytes.Repeat([]byte("old"), 100000), 0o600))
	default:
		bug("no such trouble")
	}
	cmd := exec.Command(tool, in, out)
	if str0(op, "trouble") == "limit" {
		cmd = exec.Command("prlimit", fmt.Sprintf("--fsize=%d", num(op, "size")), "--core=0", tool, in, out)
	}
	rec.Call(name, "in", runsOf(plain), "sound", sound, "must", mustFail, "may", mayFail)
	rec.w.Flush()
	text, err := cmd.CombinedOutput()
	code := 0
	if err != nil {
		if cmd.ProcessState == nil {
			bug("can't run %s: %v", tool, err)
		}
		code = 1
	}
	got := []byte{}
	if !mustFail && out != "/dev/full" {
		got, _ = os.ReadFile(out)
	}
	shown := true
	if code == 0 {
		shown = strings.Contains(string(text), fmt.Sprintf(" %d ", len(got)))
	}
	full := out == "/dev/full"
	if name == "toolzip" {
		inner, ok := gunzip(got)
		rec.E("ret", "op", name, "exit", code, "full", full, "sound", ok, "plain", runsOf(inner), "shown", shown)
	} else {
		rec.E("ret", "op", name, "exit", code, "full", full, "out", runsOf(got), "shown", shown)
	}
}

func codecNoArgs(rec *Rec, op M) {
	dir, err := os.MkdirTemp("", "tool")
	must(err)
	defer os.RemoveAll(dir)
	args := []string{}
	for i := 0; i < num(op, "args"); i++ {
		f := filepath.Join(dir, fmt.Sprint(i))
		if i == 0 {
			must(os.WriteFile(f, codecGzip(M{"plain": []any{}}), 0o600))
		}
		args = append(args, f)
	}
	for _, tool := range []string{"ZIPIMAGE", "UNZIPIMAGE"} {
		rec.Call("noargs")
		cmd := exec.Command(os.Getenv(tool), args...)
		err := cmd.Run()
		if cmd.ProcessState == nil {
			bug("can't run %s: %v", tool, err)
		}
		rec.E("ret", "op", "noargs", "failed", err != nil)
	}
}
