package main

import (
	"bytes"
	"io"
	"math/rand"
	"runtime/debug"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func init() { components["stream"] = runStream }

// scriptedReader delivers chunks of data and ends in a given way.
type scriptedReader struct {
	rec    *Rec
	chunks [][]byte
	end    string // eof, error: with the next read; eofWith, errorWith: with the last data
}

func (r *scriptedReader) Read(p []byte) (int, error) {
	done := func(n int, with bool) (int, error) {
		end, err := "open", error(nil)
		if len(r.chunks) == 0 {
			switch r.end {
			case "eof", "eofWith":
				end, err = "eof", io.EOF
			default:
				end, err = "error", errSource
			}
			if with && r.end != "eofWith" && r.end != "errorWith" {
				end, err = "open", nil
			}
		}
		r.rec.E("rread", "data", ints(p[:n]), "end", end)
		return n, err
	}
	if len(r.chunks) == 0 {
		return done(0, false)
	}
	n := copy(p, r.chunks[0])
	r.chunks[0] = r.chunks[0][n:]
	if len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	return done(n, true)
}

// scriptedWriter accepts a limited number of bytes, and then fails or accepts
// less than it was given.
type scriptedWriter struct {
	rec   *Rec
	limit int // negative: no limit
	short bool
}

func (w *scriptedWriter) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if w.limit >= 0 && n > w.limit {
		n = w.limit
		if !w.short {
			err = errInjected
		}
	}
	if w.limit >= 0 {
		w.limit -= n
	}
	w.rec.E("wwrite", "data", ints(p), "n", n, "ok", err == nil)
	return n, err
}

func runStream(s *Script, rec *Rec) {
	bs := s.num("bs")
	dev := &storageDevice{
		rec:       rec,
		bs:        bs,
		img:       bytesOf(s.C, "img"),
		maxBlocks: s.num("cap"),
		rng:       rand.New(rand.NewSource(int64(numDef(s.C, "seed", 1)))),
		base:      numDef(s.C, "base", 0),
	}
	if dev.base > 0 {
		defer debug.FreeOSMemory()
	}
	base := int64(dev.base) * int64(bs)
	rec.E("new", "bs", bs, "cap", dev.maxBlocks, "img", ints(dev.img))

	var stream *basicstream.BasicStream
	var withCb, failSetSize bool
	lastSize := int64(len(dev.img))

	for _, op := range s.Ops {
		dev.plan(op)
		failSetSize = boolean(op, "fsetsize")
		name := str(op, "op")
		if name != "open" && stream == nil {
			continue // opening it failed
		}
		ret := func(n int64, err error, data []byte) {
			rec.E("ret", "op", name, "n", n, "err", errNames(err), "data", ints(data),
				"size", clamp(stream.Size()-base), "pos", clamp(stream.Tell()-base))
			lastSize = stream.Size() - base
		}
		switch name {
		case "open":
			flags := disko.IOFlags(num(op, "flags"))
			size := min(lastSize, int64(len(dev.img)))
			if has(op, "size") {
				size = num64(op, "size")
			}
			rec.E("open", "size", clamp(size), "r", flags.Read(), "w", flags.Write(), "a", flags.Append(),
				"s", flags.Synchronous(), "t", flags.Truncate())
			rec.w.Flush()
			cache := blockcache.New(uint(bs), uint(dev.blocks()+dev.base), dev.fetch, dev.flush, dev.resize)
			var err error
			stream, err = basicstream.New(size+base, cache, flags)
			if err != nil {
				stream = nil
				rec.E("opened", "n", 0, "err", errNames(err), "data", []int{}, "size", 0, "pos", 0)
				continue
			}
			withCb = boolean(op, "cb")
			if withCb {
				stream.OnSync(func(size int64) error {
					rec.E("setsize", "n", clamp(size-base), "ok", !failSetSize)
					if failSetSize {
						return errInjected
					}
					return nil
				})
			}
			if base > 0 {
				_, err = stream.Seek(base, io.SeekStart)
				must(err)
			}
			lastSize = stream.Size() - base
			rec.E("opened", "n", 0, "err", errNames(nil), "data", []int{},
				"size", clamp(stream.Size()-base), "pos", clamp(stream.Tell()-base))
		case "Read":
			buffer := bytes.Repeat([]byte{0xEE}, num(op, "len"))
			rec.Call(name, "len", len(buffer))
			n, err := stream.Read(buffer)
			ret(clamp(n), err, buffer[:max(0, min(n, len(buffer)))])
		case "ReadAt":
			buffer := bytes.Repeat([]byte{0xEE}, num(op, "len"))
			off := num64(op, "off")
			rec.Call(name, "len", len(buffer), "off", clamp(off))
			n, err := stream.ReadAt(buffer, off+base)
			ret(clamp(n), err, buffer[:max(0, min(n, len(buffer)))])
		case "Write", "WriteString":
			data := bytesOf(op, "data")
			rec.Call(name, "data", ints(data))
			var n int
			var err error
			if name == "Write" {
				n, err = stream.Write(append([]byte{}, data...))
			} else {
				n, err = stream.WriteString(string(data))
			}
			ret(clamp(n), err, nil)
		case "WriteAt":
			data := bytesOf(op, "data")
			off := num64(op, "off")
			rec.Call(name, "data", ints(data), "off", clamp(off))
			n, err := stream.WriteAt(append([]byte{}, data...), off+base)
			ret(clamp(n), err, nil)
		case "Truncate":
			size := num64(op, "size")
			rec.Call(name, "size", clamp(size))
			ret(0, stream.Truncate(size+base), nil)
		case "Seek":
			off, whence := num64(op, "off"), num(op, "whence")
			rec.Call(name, "off", clamp(off), "whence", whence)
			if whence == io.SeekStart {
				off += base
			}
			n, err := stream.Seek(off, whence)
			ret(clamp(n-base), err, nil)
		case "Tell":
			rec.Call(name)
			ret(clamp(stream.Tell()-base), nil, nil)
		case "Size":
			rec.Call(name)
			ret(clamp(stream.Size()-base), nil, nil)
		case "Sync", "Close":
			rec.Call(name, "cb", withCb)
			var err error
			if name == "Sync" {
				err = stream.Sync()
			} else {
				err = stream.Close()
			}
			ret(0, err, nil)
		case "ReadFrom":
			r := &scriptedReader{rec: rec, end: str(op, "end")}
			for _, c := range list(op, "chunks") {
				r.chunks = append(r.chunks, toBytes(c.([]any)))
			}
			rec.Call(name)
			var n int64
			var err error
			if boolean(op, "copy") {
				n, err = io.Copy(stream, r)
			} else {
				n, err = stream.ReadFrom(r)
			}
			ret(clamp(n), err, nil)
		case "ReadFromStream":
			// The source is another stream, with its own storage.
			data := bytesOf(op, "data")
			obs := num(op, "bs")
			other := blockcache.WrapSlice(append(append([]byte{}, data...), make([]byte, obs)...), uint(obs))
			src, err := basicstream.New(int64(len(data)), other, disko.O_RDONLY)
			must(err)
			name = "ReadFrom"
			rec.Call(name)
			rec.E("rread", "data", ints(data), "end", "eof")
			rec.w.Flush()
			n, err := stream.ReadFrom(src)
			ret(clamp(n), err, nil)
		case "WriteTo":
			w := &scriptedWriter{rec: rec, limit: numDef(op, "limit", -1), short: boolean(op, "short")}
			rec.Call(name)
			var n int64
			var err error
			if boolean(op, "copy") {
				n, err = io.Copy(w, stream)
			} else {
				n, err = stream.WriteTo(w)
			}
			ret(clamp(n), err, nil)
		default:
			bug("unknown operation %q", name)
		}
	}
}
