package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
)

func init() { components["driver"] = runDriver }

// An in-memory file system behind the generic driver. It does what it's told
// and records every call; whether the call was allowed is up to the specification.

type dirEntry struct {
	N  string `json:"n"`
	ID int    `json:"id"`
}

type memObj struct {
	t      string // d, f, l
	e      []dirEntry
	data   []byte // whole blocks; link text for links
	size   int
	mode   int
	uid    int
	gid    int
	at, mt int
	abs    bool
	tg     []string
}

type memFS struct {
	rec      *Rec
	bs       int
	dots     bool
	hard     bool
	attrs    bool
	feat     disko.FSFeatures
	objs     []*memObj // index = id - 1
	fails    map[string]int
	counts   map[string]int
	junk     byte
	held     int // handles that are open
	stale    int // uses of closed handles
	unclosed int // handles whose closing failed during this call
}

func (m *memFS) obj(id int) *memObj {
	if id < 1 || id > len(m.objs) {
		return nil
	}
	return m.objs[id-1]
}

// fail says whether the current call of the given kind is supposed to fail.
func (m *memFS) fail(kind string) bool {
	m.counts[kind]++
	n := m.fails[kind]
	return n != 0 && (n == m.counts[kind] || n == -1)
}

func (m *memFS) ioErr() disko.DriverError { return disko.ErrIOFailed.Wrap(errInjected) }

func (m *memFS) blocks(n int) int { return (n + m.bs - 1) / m.bs }

func (m *memFS) find(dir *memObj, name string) int {
	for _, e := range dir.e {
		if e.N == name {
			return e.ID
		}
	}
	return 0
}

func linkText(abs bool, comps []string) string {
	text := strings.Join(comps, "/")
	if abs {
		return "/" + text
	}
	return text
}

func (m *memFS) dump() []M {
	out := []M{}
	for _, o := range m.objs {
		e := o.e
		if e == nil {
			e = []dirEntry{}
		}
		tg := o.tg
		if tg == nil {
			tg = []string{}
		}
		data := []int{}
		if o.t == "f" {
			data = ints(o.data)
		}
		out = append(out, M{"t": o.t, "e": e, "data": data, "size": o.size, "mode": o.mode, "uid": o.uid, "gid": o.gid,
			"at": o.at, "mt": o.mt, "abs": o.abs, "tg": tg})
	}
	return out
}

// ret records the result of a call, and which handles it left behind: how many are
// open, and how often ones that were closed already have been used.
func (m *memFS) ret(kv ...any) {
	m.rec.E("ret", append(kv, "held", m.held, "stale", m.stale, "unclosed", m.unclosed)...)
}

func (m *memFS) addLink(abs bool, tg []string) int {
	text := []byte(linkText(abs, tg))
	size := len(text)
	for len(text)%m.bs != 0 {
		text = append(text, 0xEE)
	}
	m.objs = append(m.objs, &memObj{t: "l", mode: 511, abs: abs, tg: tg, data: text, size: size})
	return size
}

// memHandle is a handle without any attributes that can be changed, attrHandle
// has them all.
type memHandle struct {
	m      *memFS
	id     int
	parent int
	name   string
	closed bool
}

func (m *memFS) newHandle(id, parent int, name string) *memHandle {
	m.held++
	return &memHandle{m: m, id: id, parent: parent, name: name}
}

type ownHandle interface{ base() *memHandle }

func (h *memHandle) base() *memHandle { return h }

type attrHandle struct{ *memHandle }

// The driver's own constructor for files wants handles that know their path.
type extHandle struct {
	*memHandle
	path string
}

type extAttrHandle struct {
	attrHandle
	path string
}

func (h extHandle) AbsolutePath() string     { return h.path }
func (h extAttrHandle) AbsolutePath() string { return h.path }

func (m *memFS) handle(id, parent int, name string) disko.ObjectHandle {
	h := m.newHandle(id, parent, name)
	if m.attrs {
		return attrHandle{h}
	}
	return h
}

// ours returns which object a handle refers to, and whether it's a usable handle
// that this implementation created.
func (m *memFS) ours(h disko.ObjectHandle) (int, bool) {
	if o, ok := h.(ownHandle); ok {
		b := o.base()
		return b.id, b.m == m && !b.closed
	}
	return 0, false
}

// plain hides names that aren't a single component; the specification refuses "/".
func plain(name string) string {
	if strings.Contains(name, "/") {
		return "/"
	}
	return name
}

func (m *memFS) Mount(flags disko.MountFlags) disko.DriverError { return nil }
func (m *memFS) Flush() disko.DriverError                       { return nil }
func (m *memFS) Unmount() disko.DriverError                     { return nil }
func (m *memFS) GetRootDirectory() disko.ObjectHandle           { return m.handle(1, 0, "/") }
func (m *memFS) FSStat() disko.FSStat                           { return disko.FSStat{BlockSize: uint(m.bs)} }
func (m *memFS) GetFSFeatures() disko.FSFeatures                { return m.feat }

func typeName(mode fs.FileMode) string {
	switch mode & fs.ModeType {
	case 0:
		return "f"
	case fs.ModeDir:
		return "d"
	case fs.ModeSymlink:
		return "l"
	}
	for t, bits := range specialTypes {
		if mode&fs.ModeType == bits {
			return t
		}
	}
	return "?"
}

// Objects that aren't files, directories or links
var specialTypes = map[string]fs.FileMode{
	"p": fs.ModeNamedPipe, "c": fs.ModeDevice | fs.ModeCharDevice, "b": fs.ModeDevice, "s": fs.ModeSocket, "i": fs.ModeIrregular,
}

func (m *memFS) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	dir, own := m.ours(parent)
	failed := m.fail("create")
	m.rec.E("create", "dir", dir, "name", plain(name), "t", typeName(perm), "mode", int(perm&^fs.ModeType), "own", own, "ok", !failed)
	if failed {
		return nil, m.ioErr()
	}
	d := m.obj(dir)
	if d == nil || d.t != "d" || m.find(d, name) != 0 {
		return nil, disko.ErrInvalidArgument
	}
	m.objs = append(m.objs, &memObj{t: typeName(perm), mode: int(perm &^ fs.ModeType)})
	d.e = append(d.e, dirEntry{name, len(m.objs)})
	return m.handle(len(m.objs), dir, name), nil
}

func (m *memFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	dir, own := m.ours(parent)
	failed := m.fail("get")
	m.rec.E("get", "dir", dir, "name", plain(name), "own", own, "ok", !failed)
	if failed {
		return nil, m.ioErr()
	}
	d := m.obj(dir)
	if d == nil || d.t != "d" {
		return nil, disko.ErrNotADirectory
	}
	id := m.find(d, name)
	if id == 0 {
		return nil, disko.ErrNotFound
	}
	return m.handle(id, dir, name), nil
}

// linkFS additionally supports hard links.
type linkFS struct{ *memFS }

func (m linkFS) CreateHardLink(source, parent disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	id, own1 := m.ours(source)
	dir, own2 := m.ours(parent)
	failed := m.fail("link")
	m.rec.E("link", "id", id, "dir", dir, "name", plain(name), "own", own1 && own2, "ok", !failed)
	if failed {
		return nil, m.ioErr()
	}
	d := m.obj(dir)
	if d == nil || d.t != "d" || m.obj(id) == nil || m.find(d, name) != 0 {
		return nil, disko.ErrInvalidArgument
	}
	d.e = append(d.e, dirEntry{name, id})
	return m.handle(id, dir, name), nil
}

// self returns the id of the handle's object; 0 for handles that were closed.
func (h *memHandle) self() int {
	if h.closed {
		return 0
	}
	return h.id
}

func (h *memHandle) Stat() disko.FileStat {
	h.used()
	o := h.m.obj(h.id)
	mode := fs.FileMode(o.mode)
	switch o.t {
	case "d":
		mode |= fs.ModeDir
	case "l":
		mode |= fs.ModeSymlink
	default:
		mode |= specialTypes[o.t]
	}
	return disko.FileStat{
		InodeNumber: uint64(h.id), Nlinks: 1, ModeFlags: mode, Uid: uint32(o.uid), Gid: uint32(o.gid),
		Size: int64(o.size), BlockSize: int64(h.m.bs), NumBlocks: int64(h.m.blocks(o.size)),
		LastAccessed: time.Unix(int64(o.at), 0), LastModified: time.Unix(int64(o.mt), 0),
	}
}

func (h *memHandle) Resize(newSize uint64) disko.DriverError {
	id, m := h.self(), h.m
	failed := m.fail("resize")
	var data []byte
	o := m.obj(id)
	if o != nil && newSize < 1<<20 {
		data = append([]byte{}, o.data...)
		n := m.blocks(int(newSize)) * m.bs
		if n < len(data) {
			data = data[:n]
		}
		for len(data) < n {
			m.junk++
			data = append(data, 0x80|m.junk)
		}
	}
	m.rec.E("resize", "id", id, "size", clamp(newSize), "ok", !failed, "data", ints(data))
	if failed {
		return m.ioErr()
	}
	if o == nil || o.t != "f" || newSize >= 1<<20 {
		return disko.ErrInvalidArgument
	}
	o.data, o.size = data, int(newSize)
	return nil
}

func (h *memHandle) inBounds(index common.LogicalBlock, n int) bool {
	o := h.m.obj(h.self())
	start := int64(index) * int64(h.m.bs)
	return o != nil && n > 0 && int64(index) < 1<<20 && start >= 0 && start+int64(n) <= int64(len(o.data))
}

func (h *memHandle) ReadBlocks(index common.LogicalBlock, buffer []byte) disko.DriverError {
	failed := h.m.fail("readb")
	h.m.rec.E("readb", "id", h.self(), "index", clamp(uint64(index)), "len", len(buffer), "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	if !h.inBounds(index, len(buffer)) {
		return disko.ErrInvalidArgument
	}
	copy(buffer, h.m.obj(h.id).data[int(index)*h.m.bs:])
	return nil
}

func (h *memHandle) writeBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	failed := h.m.fail("writeb")
	h.m.rec.E("writeb", "id", h.self(), "index", clamp(uint64(index)), "data", ints(data), "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	if !h.inBounds(index, len(data)) {
		return disko.ErrInvalidArgument
	}
	copy(h.m.obj(h.id).data[int(index)*h.m.bs:], data)
	return nil
}

func (h *memHandle) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	return h.writeBlocks(index, data)
}

// ZeroOutBlocks is documented to be equivalent to writing null bytes.
func (h *memHandle) ZeroOutBlocks(start common.LogicalBlock, count uint) disko.DriverError {
	return h.writeBlocks(start, make([]byte, int(min(count, 1<<12))*h.m.bs))
}

func (h *memHandle) Unlink() disko.DriverError {
	id := h.self()
	failed := h.m.fail("unlink")
	h.m.rec.E("unlink", "dir", h.parent, "name", h.name, "id", id, "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	d := h.m.obj(h.parent)
	if d == nil {
		return disko.ErrInvalidArgument
	}
	for i, e := range d.e {
		if e.N == h.name && e.ID == id {
			d.e = append(append([]dirEntry{}, d.e[:i]...), d.e[i+1:]...)
			return nil
		}
	}
	return disko.ErrNotFound
}

func (h *memHandle) Name() string {
	h.used()
	return h.name
}

func (h *memHandle) SameAs(other disko.ObjectHandle) bool {
	h.used()
	id, own := h.m.ours(other)
	if !own {
		h.m.stale++
	}
	return id == h.id
}

func (h *memHandle) Close() error {
	h.used()
	if h.closed {
		return disko.ErrFileDescriptorBadState
	}
	h.closed = true
	h.m.held--
	if h.m.fail("close") {
		h.m.rec.E("closefail")
		h.m.unclosed++
		return h.m.ioErr()
	}
	return nil
}

// used notes the use of a handle that was closed already.
func (h *memHandle) used() {
	if h.closed {
		h.m.stale++
	}
}

func (h *memHandle) ListDir() ([]string, disko.DriverError) {
	failed := h.m.fail("list")
	h.m.rec.E("list", "id", h.self(), "ok", !failed)
	if failed {
		return nil, h.m.ioErr()
	}
	o := h.m.obj(h.self())
	if o == nil || o.t != "d" {
		return nil, disko.ErrNotADirectory
	}
	var names []string
	for i, e := range o.e {
		if h.m.dots && i == 0 {
			names = append(names, ".")
		}
		names = append(names, e.N)
		if h.m.dots && i == 0 {
			names = append(names, "..")
		}
	}
	if h.m.dots && len(o.e) == 0 {
		names = []string{".", ".."}
	}
	return names, nil
}

func (h attrHandle) Chmod(mode os.FileMode) disko.DriverError {
	failed := h.m.fail("chmod")
	h.m.rec.E("chmod", "id", h.self(), "mode", int(mode.Perm()), "extra", clamp(uint32(mode&^fs.ModePerm)), "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	h.m.obj(h.id).mode = int(mode.Perm())
	return nil
}

func (h attrHandle) Chown(uid, gid int) disko.DriverError {
	failed := h.m.fail("chown")
	h.m.rec.E("chown", "id", h.self(), "uid", clamp(uid), "gid", clamp(gid), "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	o := h.m.obj(h.id)
	o.uid, o.gid = uid, gid
	return nil
}

func stamp(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	return clamp(t.Unix())
}

func (h attrHandle) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	failed := h.m.fail("chtimes")
	h.m.rec.E("chtimes", "id", h.self(), "created", stamp(created), "at", stamp(accessed), "mt", stamp(modified),
		"changed", stamp(changed), "deleted", stamp(deleted), "ok", !failed)
	if failed {
		return h.m.ioErr()
	}
	o := h.m.obj(h.id)
	if !accessed.IsZero() {
		o.at = int(accessed.Unix())
	}
	if !modified.IsZero() {
		o.mt = int(modified.Unix())
	}
	return nil
}

// -----------------------------------------------------------------------------

func splitPath(text string) M {
	abs := strings.HasPrefix(text, "/")
	rest := strings.TrimPrefix(text, "/")
	comps := []string{}
	if rest != "" {
		comps = strings.Split(rest, "/")
	}
	return M{"abs": abs, "comps": comps}
}

// cleanPath turns an absolute path without anything superfluous into components.
func cleanPath(text string) []string {
	p := splitPath(text)
	if !p["abs"].(bool) {
		return append([]string{"not absolute"}, p["comps"].([]string)...)
	}
	return p["comps"].([]string)
}

func pathOf(op M, key string) (string, M) {
	p := op[key].(M)
	comps := strs(p, "comps")
	return linkText(boolean(p, "abs"), comps), M{"abs": boolean(p, "abs"), "comps": comps}
}

func statOf(s disko.FileStat) M {
	return M{"t": typeName(s.ModeFlags), "id": clamp(s.InodeNumber), "size": clamp(s.Size), "mode": int(s.ModeFlags &^ fs.ModeType),
		"uid": int(s.Uid), "gid": int(s.Gid), "at": stamp(s.LastAccessed), "mt": stamp(s.LastModified)}
}

func infoOf(info os.FileInfo) M {
	sys, ok := info.Sys().(disko.FileStat)
	id := int64(0)
	if ok {
		id = clamp(sys.InodeNumber)
	}
	return M{"t": typeName(info.Mode()), "id": id, "mode": int(info.Mode() &^ fs.ModeType), "n": info.Name(), "isdir": info.IsDir(),
		"size": clamp(info.Size()), "sys": id, "mt": stamp(info.ModTime())}
}

func entryOf(name string, stat disko.FileStat, isDir bool, etype fs.FileMode, info os.FileInfo) M {
	s := statOf(stat)
	i := infoOf(info)
	return M{"n": name, "t": s["t"], "id": s["id"], "size": s["size"], "mode": s["mode"], "isdir": isDir && info.IsDir(),
		"notdir": !isDir && !info.IsDir(), "etype": typeName(etype),
		"uid": s["uid"], "gid": s["gid"], "at": s["at"], "mt": s["mt"],
		"it": i["t"], "isize": i["size"], "imode": i["mode"], "in": i["n"], "sys": i["sys"], "imt": i["mt"]}
}

func direntOf(e disko.DirectoryEntry) M {
	info, err := e.Info()
	if err != nil {
		return M{"n": "no info: " + fmt.Sprint(err)}
	}
	return entryOf(e.Name(), e.Stat(), e.IsDir(), e.Type(), info)
}

// findPath returns the path of a directory.
func (m *memFS) findPath(id, from int, path string) string {
	if id == from {
		if path == "" {
			return "/"
		}
		return path
	}
	for _, e := range m.obj(from).e {
		if m.obj(e.ID).t == "d" {
			if p := m.findPath(id, e.ID, path+"/"+e.N); p != "" {
				return p
			}
		}
	}
	return ""
}

func runDriver(s *Script, rec *Rec) {
	c := s.C
	m := &memFS{rec: rec, bs: num(c, "bs"), dots: boolean(c, "dots"), hard: boolean(c, "hard"), attrs: boolean(c, "attrs"),
		counts: map[string]int{}}
	m.feat = disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: boolean(c, "sym"), HasHardLinks: m.hard,
		HasAccessedTime: boolean(c, "at"), HasModifiedTime: boolean(c, "mt"), HasChangedTime: boolean(c, "ct"),
		HasCreatedTime: boolean(c, "crt"), HasDeletedTime: boolean(c, "dt"),
		DefaultBlockSize: m.bs, DefaultNameEncoding: "utf8"}
	for _, v := range list(c, "objs") {
		o := v.(M)
		if str(o, "t") == "l" {
			m.addLink(boolean(o, "abs"), strs(o, "tg"))
			continue
		}
		n := &memObj{t: str(o, "t"), mode: num(o, "mode"), data: bytesOf(o, "data")}
		n.size = len(n.data)
		for len(n.data)%m.bs != 0 {
			n.data = append(n.data, 0xEE)
		}
		for _, e := range list(o, "e") {
			n.e = append(n.e, dirEntry{str(e.(M), "n"), num(e.(M), "id")})
		}
		m.objs = append(m.objs, n)
	}
	mount := disko.MountFlagsAllowRead
	for _, f := range []struct {
		key  string
		flag disko.MountFlags
	}{{"w", disko.MountFlagsAllowWrite}, {"i", disko.MountFlagsAllowInsert}, {"d", disko.MountFlagsAllowDelete},
		{"a", disko.MountFlagsAllowAdminister}} {
		if boolean(c, f.key) {
			mount |= f.flag
		}
	}
	if boolean(c, "preserve") {
		mount |= disko.MountFlagsPreserveTimestamps
	}
	cfg := M{"bs": m.bs}
	for _, k := range []string{"w", "i", "d", "a", "hard", "attrs", "sym", "at", "mt", "ct"} {
		cfg[k] = boolean(c, k)
	}
	rec.E("new", "objs", m.dump(), "cfg", cfg)

	var impl disko.FileSystemImplementer = m
	if m.hard {
		impl = linkFS{m}
	}
	d := driver.New(impl, mount)
	files := map[int]*driver.File{}

	for _, op := range s.Ops {
		m.fails, m.counts, m.unclosed = map[string]int{}, map[string]int{}, 0
		if f, ok := op["fail"].(M); ok {
			for k := range f {
				m.fails[k] = num(f, k)
			}
		}
		name := str(op, "op")
		if name == "plant" {
			dir := m.obj(num(op, "dir"))
			n := str(op, "name")
			if dir == nil || dir.t != "d" || m.find(dir, n) != 0 {
				continue
			}
			tg := op["tg"].(M)
			size := m.addLink(boolean(tg, "abs"), strs(tg, "comps"))
			dir.e = append(dir.e, dirEntry{n, len(m.objs)})
			rec.E("plant", "dir", num(op, "dir"), "name", n, "abs", boolean(tg, "abs"), "tg", strs(tg, "comps"), "size", size)
			continue
		}
		if name == "dump" {
			rec.E("dump", "objs", m.dump())
			continue
		}
		if strings.HasPrefix(name, "H") {
			slot := num(op, "slot")
			if files[slot] != nil && m.fileOp(files[slot], name, slot, op, rec) {
				delete(files, slot)
			}
			continue
		}
		pathOp(d, m, impl, files, name, op, rec)
	}
}

func pathOp(d *driver.BaseDriver, m *memFS, impl disko.FileSystemImplementer, files map[int]*driver.File, name string, op M, rec *Rec) {
	var p, q string
	args := []any{}
	if has(op, "p") {
		var v M
		p, v = pathOf(op, "p")
		args = append(args, "p", v)
	}
	if has(op, "q") {
		var v M
		q, v = pathOf(op, "q")
		args = append(args, "q", v)
	}
	var mode os.FileMode
	if has(op, "mode") {
		mode = os.FileMode(num(op, "mode")) | os.FileMode(unum(op, "mbits"))
		if name == "Chmod" {
			args = append(args, "mode", num(op, "mode"))
		} else {
			args = append(args, "mode", int(mode&^fs.ModeType))
		}
	}
	slot := 0
	if has(op, "slot") {
		slot = num(op, "slot")
		if files[slot] != nil {
			return
		}
		args = append(args, "slot", slot)
	}
	ret := func(err error, kv ...any) {
		m.ret(append([]any{"op", name, "err", errNames(err)}, kv...)...)
	}
	open := func(f driver.File, err error) {
		if err == nil {
			files[slot] = &f
		}
		ret(err)
	}
	call := func(kv ...any) { rec.Call(name, append(args, kv...)...) }

	switch name {
	case "Stat", "Lstat":
		call()
		var st disko.FileStat
		var err error
		if name == "Stat" {
			st, err = d.Stat(p)
		} else {
			st, err = d.Lstat(p)
		}
		ret(err, "stat", statOf(st))
	case "Readlink":
		call()
		text, err := d.Readlink(p)
		ret(err, "target", splitPath(text))
	case "ReadFile":
		call()
		data, err := d.ReadFile(p)
		ret(err, "data", ints(data))
	case "ReadDir":
		call()
		entries, err := d.ReadDir(p)
		l := []M{}
		for _, e := range entries {
			l = append(l, direntOf(e))
		}
		ret(err, "list", l)
	case "Chdir":
		call()
		ret(d.Chdir(p))
	case "OpenFile":
		fl := disko.IOFlags(num(op, "flags"))
		call("fl", M{"r": fl.Read(), "w": fl.Write(), "a": fl.Append(), "c": fl.Create(), "x": fl.Exclusive(),
			"t": fl.Truncate(), "s": fl.Synchronous()})
		open(d.OpenFile(p, fl, mode))
	case "Open":
		call()
		open(d.Open(p))
	case "Create":
		call()
		open(d.Create(p))
	case "OpenDir":
		call()
		st, err := d.Lstat(p)
		if err != nil {
			ret(err)
			return
		}
		id := int(st.InodeNumber)
		path := d.NormalizePath(p)
		if o := m.obj(id); o != nil && o.t == "d" {
			path = m.findPath(id, 1, "")
		}
		parts := strings.Split(path, "/")
		base := parts[len(parts)-1]
		if path == "/" {
			base = "/"
		}
		h := m.newHandle(id, 0, base)
		var f driver.File
		if m.attrs {
			f, err = driver.NewFileFromObjectHandle(d, extAttrHandle{attrHandle{h}, path}, disko.O_RDONLY)
		} else {
			f, err = driver.NewFileFromObjectHandle(d, extHandle{h, path}, disko.O_RDONLY)
		}
		if err != nil {
			// It's still ours.
			h.Close()
		}
		open(f, err)
	case "WriteFile":
		data := bytesOf(op, "data")
		call("data", ints(data))
		ret(d.WriteFile(p, append([]byte{}, data...), mode))
	case "Mkdir":
		call()
		ret(d.Mkdir(p, mode))
	case "MkdirAll":
		call()
		ret(d.MkdirAll(p, mode))
	case "Link":
		call()
		ret(d.Link(p, q))
	case "Remove":
		call()
		ret(d.Remove(p))
	case "RemoveAll":
		call()
		ret(d.RemoveAll(p))
	case "Truncate":
		call()
		ret(d.Truncate(p))
	case "Chmod":
		call()
		ret(d.Chmod(p, mode))
	case "Chown", "Lchown":
		uid, gid := num(op, "uid"), num(op, "gid")
		call("uid", uid, "gid", gid)
		if name == "Chown" {
			ret(d.Chown(p, uid, gid))
		} else {
			ret(d.Lchown(p, uid, gid))
		}
	case "Chtimes":
		at, mt := num(op, "at"), num(op, "mt")
		call("at", at, "mt", mt)
		ret(d.Chtimes(p, time.Unix(int64(at), 0), time.Unix(int64(mt), 0)))
	case "Getwd":
		call()
		path, err := d.Getwd()
		ret(err, "path", cleanPath(path))
	case "Normalize":
		call()
		ret(nil, "path", cleanPath(d.NormalizePath(p)))
	case "Features":
		call()
		ret(nil, "same", d.GetFSFeatures() == impl.GetFSFeatures())
	case "SameFile":
		call()
		var infos [2]os.FileInfo
		for i, path := range []string{p, q} {
			f, err := d.Open(path)
			if err == nil {
				infos[i], err = f.Stat()
			}
			if err == nil {
				err = f.Close()
			}
			if err != nil {
				ret(err)
				return
			}
		}
		ret(nil, "same", d.SameFile(infos[0], infos[1]))
	default:
		bug("unknown operation %q", name)
	}
}

// fileOp executes an operation on an open file. It returns true if the file is
// closed now.
func (m *memFS) fileOp(f *driver.File, name string, slot int, op M, rec *Rec) bool {
	ret := func(err error, n int64, data []byte) {
		m.ret("op", name, "err", errNames(err), "n", n, "data", ints(data),
			"size", clamp(f.Size()), "pos", clamp(f.Tell()))
	}
	call := func(kv ...any) { rec.Call(name, append([]any{"slot", slot}, kv...)...) }
	switch name {
	case "HRead", "HReadAt":
		buffer := make([]byte, num(op, "len"))
		var n int
		var err error
		if name == "HRead" {
			call("len", len(buffer))
			n, err = f.Read(buffer)
		} else {
			off := num64(op, "off")
			call("len", len(buffer), "off", clamp(off))
			n, err = f.ReadAt(buffer, off)
		}
		ret(err, clamp(n), buffer[:max(0, min(n, len(buffer)))])
	case "HWrite", "HWriteString", "HWriteAt":
		data := bytesOf(op, "data")
		copied := append([]byte{}, data...)
		var n int
		var err error
		switch name {
		case "HWrite":
			call("data", ints(data))
			n, err = f.Write(copied)
		case "HWriteString":
			call("data", ints(data))
			n, err = f.WriteString(string(copied))
		default:
			off := num64(op, "off")
			call("data", ints(data), "off", clamp(off))
			n, err = f.WriteAt(copied, off)
		}
		ret(err, clamp(n), nil)
	case "HReadFrom":
		data := bytesOf(op, "data")
		call("data", ints(data))
		n, err := f.ReadFrom(&piecewise{append([]byte{}, data...), num(op, "chunk"), boolean(op, "late")})
		ret(err, clamp(n), nil)
	case "HWriteTo":
		call()
		var b bytes.Buffer
		n, err := f.WriteTo(struct{ io.Writer }{&b})
		ret(err, clamp(n), b.Bytes())
	case "HTruncate":
		size := num64(op, "size")
		call("size", clamp(size))
		ret(f.Truncate(size), 0, nil)
	case "HSeek":
		off, whence := num64(op, "off"), num(op, "whence")
		call("off", clamp(off), "whence", whence)
		n, err := f.Seek(off, whence)
		ret(err, clamp(n), nil)
	case "HSync":
		call()
		ret(f.Sync(), 0, nil)
	case "HClose":
		call()
		ret(f.Close(), 0, nil)
		return true
	case "HReadDir":
		kind, n := str(op, "kind"), num(op, "n")
		call("kind", kind, "n", n)
		l := []M{}
		var err error
		switch kind {
		case "ReadDir":
			var entries []os.DirEntry
			entries, err = f.ReadDir(n)
			for _, e := range entries {
				if de, ok := e.(disko.DirectoryEntry); ok {
					l = append(l, direntOf(de))
				} else {
					l = append(l, M{"n": fmt.Sprintf("not a directory entry: %T", e)})
				}
			}
		case "Readdir":
			var infos []os.FileInfo
			infos, err = f.Readdir(n)
			for _, i := range infos {
				st, _ := i.Sys().(disko.FileStat)
				l = append(l, entryOf(i.Name(), st, i.IsDir(), i.Mode(), i))
			}
		default:
			var names []string
			names, err = f.Readdirnames(n)
			for _, n := range names {
				l = append(l, M{"n": n})
			}
		}
		m.ret("op", name, "err", errNames(err), "list", l)
	case "HStat":
		call()
		info, err := f.Stat()
		if err != nil {
			m.ret("op", name, "err", errNames(err))
			return false
		}
		i := infoOf(info)
		entry := []any{i["t"], i["id"], i["size"], i["n"]}
		if de, ok := info.(disko.DirectoryEntry); ok {
			other, err := de.Info()
			if err != nil {
				entry[3] = fmt.Sprint("no info: ", err)
			} else {
				st := de.Stat()
				entry = []any{typeName(de.Type()), clamp(st.InodeNumber), clamp(other.Size()), other.Name()}
				if o := infoOf(other); o["t"] != i["t"] || o["sys"] != i["sys"] || clamp(st.Size) != i["size"] {
					entry[3] = fmt.Sprint("different info: ", o)
				}
			}
		}
		m.ret("op", name, "err", errNames(err), "info", i, "entry", entry)
	case "HName":
		call()
		m.ret("op", name, "err", errNames(nil), "name", f.Name())
	case "HChmod":
		mode := os.FileMode(num(op, "mode")) | os.FileMode(unum(op, "mbits"))
		call("mode", num(op, "mode"))
		m.ret("op", name, "err", errNames(f.Chmod(mode)))
	case "HChown":
		uid, gid := num(op, "uid"), num(op, "gid")
		call("uid", uid, "gid", gid)
		m.ret("op", name, "err", errNames(f.Chown(uid, gid)))
	case "HChdir":
		call()
		m.ret("op", name, "err", errNames(f.Chdir()))
	default:
		bug("unknown operation %q", name)
	}
	return false
}

// piecewise is a reader returning some bytes at a time, and the end either
// together with the last ones or after them.
type piecewise struct {
	data  []byte
	chunk int
	late  bool
}

func (p *piecewise) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	if p.chunk > 0 && len(b) > p.chunk {
		b = b[:p.chunk]
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 && !p.late {
		return n, io.EOF
	}
	return n, nil
}
