package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"runtime/debug"

	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func init() { components["blockcache"] = runBlockCache }

// storageDevice is the backing storage of the caches under test: an array of
// bytes that records every access and fails on demand.
type storageDevice struct {
	rec       *Rec
	bs        int
	img       []byte
	failFetch map[int]bool
	failFlush map[int]bool
	failAll   bool
	failSize  bool
	maxBlocks int
	rng       *rand.Rand
	// base is the number of blocks in front of those that `img` has, so that
	// addresses can be far beyond 32 bits. Nothing may access those blocks, and
	// traces have no trace of them.
	base int
}

func (d *storageDevice) plan(op M) {
	d.failFetch = intSet(op, "ffetch")
	d.failFlush = intSet(op, "fflush")
	d.failSize = boolean(op, "fresize")
}

func (d *storageDevice) blocks() int { return len(d.img) / d.bs }

func (d *storageDevice) block(b int) []byte { return d.img[b*d.bs : (b+1)*d.bs] }

func (d *storageDevice) fetch(blk c.LogicalBlock, buffer []byte) error {
	b := clamp(int64(blk) - int64(d.base))
	ok := b >= 0 && b < int64(d.blocks()) && len(buffer) == d.bs
	fail := ok && d.failFetch[int(b)]
	d.rec.E("fetch", "b", b, "len", len(buffer), "ok", ok && !fail)
	if !ok || fail {
		// A failing device may leave anything in the buffer.
		for i := range buffer {
			buffer[i] = 0xBB
		}
		return errInjected
	}
	copy(buffer, d.block(int(b)))
	return nil
}

func (d *storageDevice) flush(blk c.LogicalBlock, buffer []byte) error {
	b := clamp(int64(blk) - int64(d.base))
	ok := b >= 0 && b < int64(d.blocks()) && len(buffer) == d.bs
	fail := ok && d.failFlush[int(b)]
	data := ints(buffer)
	after := []int{}
	if fail {
		// A failing device may have stored a part of the data.
		n := d.rng.Intn(len(buffer) + 1)
		copy(d.block(int(b))[:n], buffer[:n])
	} else if ok {
		copy(d.block(int(b)), buffer)
	}
	if ok {
		after = ints(d.block(int(b)))
	}
	d.rec.E("flush", "b", b, "data", data, "ok", ok && !fail, "after", after)
	if !ok || fail {
		return errInjected
	}
	return nil
}

func (d *storageDevice) resize(n c.LogicalBlock) error {
	n -= c.LogicalBlock(d.base)
	if d.failSize || uint64(n) > uint64(d.maxBlocks) {
		d.rec.E("resize", "n", clamp(uint64(n)), "ok", false, "img", []int{})
		return errInjected
	}
	if d.base > 0 {
		bug("can't resize a device with a base")
	}
	img := make([]byte, int(n)*d.bs)
	for i := range img {
		img[i] = 0xCC // newly allocated blocks contain garbage
	}
	copy(img, d.img)
	d.img = img
	d.rec.E("resize", "n", clamp(uint64(n)), "ok", true, "img", ints(img))
	return nil
}

// chunkyStream is a seekable stream that may return less than asked for, and
// fails on demand.
type chunkyStream struct {
	dev      *storageDevice
	pos      int64
	grow     bool
	chunky   bool
	failRead bool
	// failWriteAfter is the number of bytes that can be written before failing
	failWriteAfter int
	failSeek       bool
}

type truncatableStream struct{ *chunkyStream }

var errNoRoom = errors.New("no room")

func (s *chunkyStream) fail(what string) error {
	s.dev.rec.E("sfail", "what", what)
	return errInjected
}

func (s *chunkyStream) Read(p []byte) (int, error) {
	if s.failRead {
		// ... possibly after having delivered some garbage
		for i := range p {
			p[i] = 0xBB
		}
		return 0, s.fail("read")
	}
	if s.pos < 0 {
		return 0, s.fail("read before the start")
	}
	if s.pos >= int64(len(s.dev.img)) {
		return 0, io.EOF
	}
	n := len(p)
	if s.chunky && n > 0 {
		n = s.dev.rng.Intn(n + 1)
	}
	n = copy(p[:n], s.dev.img[s.pos:])
	s.pos += int64(n)
	if s.chunky && s.pos == int64(len(s.dev.img)) && s.dev.rng.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (s *chunkyStream) Write(p []byte) (int, error) {
	data := ints(p)
	off := clamp(s.pos)
	n := len(p)
	var err error
	if s.failWriteAfter >= 0 && n > s.failWriteAfter {
		n, err = s.failWriteAfter, errInjected
	}
	if s.pos < 0 {
		return 0, s.fail("write before the start")
	}
	if s.pos > int64(len(s.dev.img)) && !s.grow {
		n, err = 0, errNoRoom
	}
	if s.pos < 1<<20 && s.grow && n > 0 {
		for int64(len(s.dev.img)) < s.pos+int64(n) {
			s.dev.img = append(s.dev.img, 0)
		}
	}
	if s.pos <= int64(len(s.dev.img)) {
		m := copy(s.dev.img[s.pos:], p[:n])
		if m < n {
			n, err = m, errNoRoom
		}
	}
	if err != nil {
		s.failWriteAfter = 0
		err = errInjected
	} else if s.failWriteAfter >= 0 {
		s.failWriteAfter -= n
	}
	s.pos += int64(n)
	s.dev.rec.E("swrite", "off", off, "data", data, "n", n, "ok", err == nil)
	return n, err
}

func (s *chunkyStream) Seek(offset int64, whence int) (int64, error) {
	if s.failSeek {
		return 0, s.fail("seek")
	}
	base := int64(s.dev.base) * int64(s.dev.bs)
	switch whence {
	case io.SeekCurrent:
		offset += s.pos + base
	case io.SeekEnd:
		offset += int64(len(s.dev.img)) + base
	}
	if offset < 0 {
		return 0, s.fail("negative seek")
	}
	s.pos = offset - base
	return offset, nil
}

func (s truncatableStream) Truncate(size int64) error {
	if s.dev.failSize || size < 0 || size > int64(s.dev.maxBlocks*s.dev.bs) {
		s.dev.rec.E("strunc", "size", clamp(size), "ok", false)
		return errInjected
	}
	img := make([]byte, size)
	copy(img, s.dev.img)
	s.dev.img = img
	s.dev.rec.E("strunc", "size", clamp(size), "ok", true)
	return nil
}

func runBlockCache(s *Script, rec *Rec) {
	bs := s.num("bs")
	nb := s.num("nb")
	kind := s.str("kind")
	dev := &storageDevice{
		rec:       rec,
		bs:        bs,
		img:       bytesOf(s.C, "img"),
		maxBlocks: numDef(s.C, "max", 64),
		rng:       rand.New(rand.NewSource(int64(numDef(s.C, "seed", 1)))),
		base:      numDef(s.C, "base", 0),
	}
	if dev.base > 0 {
		defer debug.FreeOSMemory()
	}
	base := uint64(dev.base)
	rec.E("new", "kind", kind, "bs", bs, "nb", nb, "img", ints(dev.img),
		"rz", strDef(s.C, "rz", "cb"), "grow", boolean(s.C, "grow"))

	var cache *blockcache.BlockCache
	var stream *chunkyStream
	switch kind {
	case "cb":
		var rz blockcache.ResizeCallback
		if s.str("rz") == "cb" {
			rz = dev.resize
		}
		cache = blockcache.New(uint(bs), uint(nb+dev.base), dev.fetch, dev.flush, rz)
	case "slice":
		cache = blockcache.WrapSlice(dev.img, uint(bs))
	default:
		stream = &chunkyStream{
			dev:            dev,
			grow:           boolean(s.C, "grow"),
			chunky:         boolean(s.C, "chunky"),
			failWriteAfter: -1,
		}
		var rws io.ReadWriteSeeker = stream
		if s.str("rz") != "notsup" {
			rws = truncatableStream{stream}
		}
		allow := s.str("rz") != "forbid"
		if kind == "stream" {
			cache = blockcache.WrapStream(rws, uint(bs), uint(nb+dev.base), allow)
		} else {
			cache = blockcache.WrapStreamWithInferredSize(rws, uint(bs), allow)
		}
	}

	// pending is the range of blocks that was modified through a slice and that
	// has not been marked as dirty yet.
	for _, op := range s.Ops {
		dev.plan(op)
		if stream != nil {
			stream.failRead = boolean(op, "fread")
			stream.failSeek = boolean(op, "fseek")
			stream.failWriteAfter = numDef(op, "fwrite", -1)
		}
		name := str(op, "op")
		ret := func(n int64, err error, data []byte) {
			img := []int{}
			if kind != "cb" {
				img = ints(dev.img)
			}
			rec.E("ret", "op", name, "n", n, "err", errNames(err), "data", ints(data), "img", img)
		}
		switch name {
		case "ReadAt":
			start := unum(op, "start")
			buffer := bytes.Repeat([]byte{0xEE}, num(op, "len"))
			rec.Call(name, "start", clamp(start), "len", len(buffer))
			n, err := cache.ReadAt(buffer, c.LogicalBlock(start+base))
			ret(clamp(n), err, buffer)
		case "WriteAt":
			start := unum(op, "start")
			data := bytesOf(op, "data")
			rec.Call(name, "start", clamp(start), "data", ints(data))
			n, err := cache.WriteAt(append([]byte{}, data...), c.LogicalBlock(start+base))
			ret(clamp(n), err, nil)
		case "GetSlice", "Poke":
			start, count := unum(op, "start"), unum(op, "count")
			rec.Call("GetSlice", "start", clamp(start), "count", clamp(count))
			slice, err := cache.GetSlice(c.LogicalBlock(start+base), uint(count))
			name = "GetSlice"
			ret(clamp(len(slice)), err, slice)
			if has(op, "poke") && err == nil {
				at := num(op, "at")
				for i, b := range bytesOf(op, "poke") {
					if at+i < len(slice) {
						slice[at+i] = b
					}
				}
				rec.E("poke", "start", clamp(start), "count", clamp(count), "data", ints(slice))
			}
		case "Data":
			rec.Call(name)
			data, err := cache.Data()
			ret(clamp(len(data)), err, data)
			if has(op, "poke") && err == nil {
				at := num(op, "at")
				for i, b := range bytesOf(op, "poke") {
					if at+i < len(data) {
						data[at+i] = b
					}
				}
				rec.E("poke", "start", 0, "count", clamp(cache.TotalBlocks()), "data", ints(data))
			}
		case "Mark":
			start, count := unum(op, "start"), unum(op, "count")
			rec.Call(name, "start", clamp(start), "count", clamp(count))
			err := cache.MarkBlockRangeDirty(c.LogicalBlock(start+base), uint(count))
			ret(0, err, nil)
		case "LoadAll":
			rec.Call(name)
			ret(0, cache.LoadAll(), nil)
		case "Flush":
			rec.Call(name)
			ret(0, cache.Flush(), nil)
		case "Resize":
			n := unum(op, "n")
			rec.Call(name, "n", clamp(n))
			ret(0, cache.Resize(uint(n)), nil)
		case "CheckBounds":
			start, size := unum(op, "start"), unum(op, "len")
			rec.Call(name, "start", clamp(start), "len", clamp(size))
			ret(0, cache.CheckBounds(c.LogicalBlock(start+base), uint(size)), nil)
		case "MinBlocks":
			size := unum(op, "len")
			rec.Call(name, "len", clamp(size))
			ret(clamp(cache.GetMinBlocksForSize(uint(size))), nil, nil)
		case "Info":
			rec.Call(name)
			rec.E("info", "bs", clamp(cache.BytesPerBlock()), "nb", clamp(int64(cache.TotalBlocks())-int64(base)),
				"size", clamp(cache.Size()-int64(base)*int64(bs)))
		default:
			bug("unknown operation %q", name)
		}
	}
}
