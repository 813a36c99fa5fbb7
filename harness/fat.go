package main

import (
	"bytes"
	"errors"
	"io"
	"os"
	"reflect"
	"strings"
	"time"
	_ "time/tzdata"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
)

func init() {
	components["fatboot"] = runFatBoot
	components["fat"] = runFat
}

// digits is a number in base 65536, the least significant digit first.
func digits(n uint64) []int {
	out := []int{}
	for ; n > 0; n >>= 16 {
		out = append(out, int(n&0xffff))
	}
	return out
}

// pieceReader delivers data in small pieces and then fails or ends.
type pieceReader struct {
	data  []byte
	piece int
	fail  bool
	early bool // the end is reported together with the last bytes
}

func (r *pieceReader) Read(p []byte) (int, error) {
	end := io.EOF
	if r.fail {
		end = errInjected
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := min(len(p), r.piece, len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.early && len(r.data) == 0 {
		return n, end
	}
	return n, nil
}

func runFatBoot(s *Script, rec *Rec) {
	rec.E("new")
	for _, op := range s.Ops {
		if has(op, "n") {
			n := unum(op, "n")
			rec.E("version", "n", digits(n), "version", fat.DetermineFATVersion(uint(n)))
			continue
		}
		b := bytesOf(op, "b")
		rec.Call("decode")
		r := &pieceReader{data: b, piece: numDef(op, "piece", 512), fail: boolean(op, "fail"), early: boolean(op, "early")}
		bs, err := fat.NewFATBootSectorFromStream(r)
		geo := M{}
		if err == nil {
			geo = M{"jmp": ints(bs.JmpBoot[:]), "oem": ints(bs.OEMName[:]), "bps": bs.BytesPerSector, "spc": bs.SectorsPerCluster,
				"reserved": bs.ReservedSectors, "fats": bs.NumFATs, "roots": bs.RootEntryCount, "total16": bs.TotalSectors16,
				"media": bs.Media, "fat16": bs.SectorsPerFAT16, "track": bs.SectorsPerTrack, "heads": bs.NumHeads,
				"hidden": digits(uint64(bs.HiddenSectors)), "total32": digits(uint64(bs.TotalSectors32)),
				"spf": digits(uint64(bs.SectorsPerFAT)), "fatsectors": digits(uint64(bs.TotalFATSectors)),
				"rootsectors": clamp(bs.RootDirSectors), "bpc": clamp(bs.BytesPerCluster),
				"clusters": digits(uint64(bs.TotalClusters)), "datasectors": digits(uint64(bs.TotalDataSectors)),
				"first": digits(uint64(bs.FirstDataSector)), "version": bs.FATVersion, "dirents": bs.DirentsPerCluster}
		}
		rec.E("decoded", "b", ints(b[:min(len(b), 40)]), "broken", len(b) < 40, "err", errNames(err), "geo", geo)
	}
}

// chunksOf turns bytes into run-length lists of 32 bytes each.
func chunksOf(b []byte) [][]fatRun {
	out := [][]fatRun{}
	for len(b) > 0 {
		n := min(32, len(b))
		out = append(out, runsOf(b[:n]))
		b = b[n:]
	}
	return out
}

func fatStamp(t time.Time) []int {
	t = t.In(time.Local)
	return []int{t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond() / 10000000}
}

func fatStat(st disko.FileStat) M {
	return M{"size": digits(uint64(st.Size)), "blocks": digits(uint64(st.NumBlocks)), "bs": clamp(st.BlockSize), "nlinks": clamp(st.Nlinks),
		"ino": digits(st.InodeNumber), "dir": st.ModeFlags.IsDir(), "perm": int(st.ModeFlags.Perm()),
		"device":  st.ModeFlags&(os.ModeDevice|os.ModeCharDevice) != 0,
		"created": fatStamp(st.CreatedAt), "modified": fatStamp(st.LastModified), "accessed": fatStamp(st.LastAccessed)}
}

func fatEntry(d *fat.Dirent) M {
	_, err := d.GetDeletedAt()
	deleted := err == nil
	created, err := d.GetCreatedAt()
	if (err != nil) != deleted {
		return M{"name": []int{}, "contradiction": "GetCreatedAt and GetDeletedAt"}
	}
	m := M{"name": ints([]byte(d.Name())), "deleted": deleted, "attr": d.AttributeFlags, "nt": d.NTReserved,
		"first": digits(uint64(d.FirstCluster)), "size": digits(uint64(d.Size())),
		"created": []int{}, "modified": fatStamp(d.GetLastModifiedAt()), "accessed": fatStamp(d.GetLastAccessedAt()),
		"dir": d.Mode().IsDir(), "isdir": d.IsDir(), "perm": int(d.Mode().Perm()),
		"device": d.Mode()&(os.ModeDevice|os.ModeCharDevice) != 0,
		"other":  d.Mode()&^(os.ModePerm|os.ModeDir|os.ModeDevice|os.ModeCharDevice) != 0 || !d.ModTime().Equal(d.GetLastModifiedAt()),
		"stat":   fatStat(d.Stat())}
	if !deleted {
		m["created"] = fatStamp(created)
	}
	return m
}

// fatVolume is the version specific part of the driver, and the image.
type fatVolume struct {
	rec   *Rec
	boot  *fat.FATBootSector
	fat   map[uint32]uint32 // what isn't in it is 0
	n     int
	eoc   uint32
	root  []byte
	front []byte         // before the first cluster
	data  map[int][]byte // clusters; what isn't in it is zeros
	fail  M              // the failure to inject
	count map[string]int // calls of each kind during this operation
	early bool           // the end of the image is reported with the last bytes
}

// failing tells whether this call of this kind must fail.
func (v *fatVolume) failing(kind string) bool {
	v.count[kind]++
	return v.fail != nil && str(v.fail, "kind") == kind && num(v.fail, "n") == v.count[kind]
}

func (v *fatVolume) fault(kind string) error {
	if v.failing(kind) {
		v.rec.E("fault", "kind", kind)
		return errInjected
	}
	return nil
}

func (v *fatVolume) GetBootSector() *fat.FATBootSector { return v.boot }

func (v *fatVolume) GetClusterAtIndex(index uint) (fat.ClusterID, error) {
	if err := v.fault("get"); err != nil {
		return 0, err
	}
	if index >= uint(v.n+2) {
		v.rec.E("fault", "kind", "outside")
		return 0, errors.New("outside the table")
	}
	return fat.ClusterID(v.fat[uint32(index)]), nil
}

func (v *fatVolume) SetClusterAtIndex(index uint, cluster fat.ClusterID) error {
	v.rec.E("setcluster", "c", clamp(index))
	return nil
}

func (v *fatVolume) GetNextClusterInChain(cluster fat.ClusterID) (fat.ClusterID, error) {
	return v.GetClusterAtIndex(uint(cluster))
}

func (v *fatVolume) IsValidCluster(cluster fat.ClusterID) bool {
	return cluster >= 2 && uint64(cluster) <= uint64(v.n)+1
}

func (v *fatVolume) IsEndOfChain(cluster fat.ClusterID) bool { return uint32(cluster) >= v.eoc }

func (v *fatVolume) ListRootDirectory() ([]fat.Dirent, error) {
	if err := v.fault("root"); err != nil {
		return nil, err
	}
	out := []fat.Dirent{}
	for at := 0; at < len(v.root) && v.root[at] != 0; at += 32 {
		raw, err := fat.NewRawDirentFromBytes(v.root[at : at+32])
		if err != nil {
			return nil, err
		}
		d, err := fat.NewDirentFromRaw(v.boot, &raw)
		if err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	return out, nil
}

func (v *fatVolume) AllocateCluster(count uint) ([]fat.ClusterID, error) {
	v.rec.E("allocate", "n", clamp(count))
	return nil, errInjected
}

func (v *fatVolume) FreeCluster(cluster fat.ClusterID) error {
	failing := v.failing("free")
	v.rec.E("free", "c", clamp(uint(cluster)), "failing", failing)
	if failing {
		return errInjected
	}
	if v.IsValidCluster(cluster) {
		v.fat[uint32(cluster)] = 0
	}
	return nil
}

func (v *fatVolume) UpdateDirent(d *fat.Dirent) error {
	failing := v.failing("update")
	v.rec.E("update", "entry", fatEntry(d), "failing", failing)
	if failing {
		return errInjected
	}
	return nil
}

// DeleteDirent strikes out the entry with the same name and first cluster.
func (v *fatVolume) DeleteDirent(d, parent *fat.Dirent) error {
	failing := v.failing("delete")
	v.rec.E("delete", "name", ints([]byte(d.Name())), "first", digits(uint64(d.FirstCluster)),
		"parent", digits(uint64(parent.FirstCluster)), "failing", failing)
	if failing {
		return errInjected
	}
	strike := func(b []byte) (done, end bool) {
		for at := 0; at+32 <= len(b); at += 32 {
			if b[at] == 0 {
				return false, true
			}
			raw, _ := fat.NewRawDirentFromBytes(b[at : at+32])
			e, err := fat.NewDirentFromRaw(v.boot, &raw)
			if err == nil && b[at] != 0xE5 && b[at+11]&fat.AttrVolumeLabel == 0 && e.Name() == d.Name() && e.FirstCluster == d.FirstCluster {
				b[at] = 0xE5
				return true, true
			}
		}
		return false, false
	}
	if parent.FirstCluster == 0 {
		strike(v.root)
		return nil
	}
	seen := map[fat.ClusterID]bool{}
	for c := parent.FirstCluster; v.IsValidCluster(c) && !seen[c]; c = fat.ClusterID(v.fat[uint32(c)]) {
		seen[c] = true
		if v.data[int(c)] == nil {
			break
		}
		if _, end := strike(v.data[int(c)]); end {
			break
		}
	}
	return nil
}

// imageAt copies from the image.
func (v *fatVolume) imageAt(p []byte, off int64) (int, error) {
	bpc := int64(v.boot.BytesPerCluster)
	size := int64(len(v.front)) + int64(v.n)*bpc
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	for n < len(p) && off < size {
		k := 1
		if off < int64(len(v.front)) {
			k = copy(p[n:], v.front[off:])
		} else {
			at := off - int64(len(v.front))
			k = int(min(bpc-at%bpc, int64(len(p)-n)))
			if b := v.data[int(at/bpc)+2]; b != nil {
				copy(p[n:n+k], b[at%bpc:])
			} else {
				clear(p[n : n+k])
			}
		}
		n += k
		off += int64(k)
	}
	if n < len(p) || (v.early && off == size) {
		return n, io.EOF
	}
	return n, nil
}

func (v *fatVolume) ReadAt(p []byte, off int64) (int, error) {
	if err := v.fault("io"); err != nil {
		return 0, err
	}
	if v.failing("short") {
		v.rec.E("fault", "kind", "short")
		n, _ := v.imageAt(p[:len(p)/2], off)
		return n, io.ErrUnexpectedEOF
	}
	return v.imageAt(p, off)
}

// newFATDriver makes a driver; there's no exported function for that.
func newFATDriver(v *fatVolume) *fat.FATDriver {
	drv := &fat.FATDriver{}
	e := reflect.ValueOf(drv).Elem()
	common := reflect.TypeOf((*fat.FATDriverCommon)(nil)).Elem()
	set := false
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		if f.Kind() != reflect.Interface || !reflect.TypeOf(v).Implements(f.Type()) {
			continue
		}
		set = set || f.Type() == common
		reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
	}
	if !set {
		bug("FATDriver has no field of type FATDriverCommon")
	}
	return drv
}

func timeOf(m M, key string) time.Time {
	t := toInts(list(m, key))
	return time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], t[6]*10000000, time.Local)
}

func runFat(s *Script, rec *Rec) {
	bps, spc := s.num("bps"), s.num("spc")
	v := &fatVolume{rec: rec, n: s.num("n"), eoc: uint32(num64(s.C, "eoc")), count: map[string]int{}, early: s.boolean("early")}
	first := s.num("first")
	v.boot = &fat.FATBootSector{BytesPerCluster: uint(bps * spc), TotalClusters: uint(v.n), TotalDataSectors: uint(v.n * spc),
		FirstDataSector: fat.SectorID(first), FATVersion: 16, DirentsPerCluster: bps * spc / 32}
	v.boot.BytesPerSector = uint16(bps)
	v.boot.SectorsPerCluster = uint8(spc)
	v.boot.RootDirSectors = 1
	v.boot.ReservedSectors = 1
	v.boot.NumFATs = 1
	v.fat, v.data = map[uint32]uint32{}, map[int][]byte{}
	table := [][]int64{}
	for _, x := range list(s.C, "fat") {
		pair := toInts(x.([]any))
		v.fat[uint32(pair[0])] = uint32(pair[1])
		table = append(table, []int64{clamp(pair[0]), clamp(pair[1])})
	}
	v.root = expand(list(s.C, "root"))
	v.front = bytes.Repeat([]byte{0xA5, 0x41, 0x10}, first*bps/3+1)[:first*bps]
	data := []any{}
	for _, x := range list(s.C, "data") {
		pair := x.([]any)
		c := toInts(pair[:1])[0]
		b := expand(pair[1].([]any))
		if len(b) != bps*spc || c < 2 || c > v.n+1 {
			bug("cluster %d with %d bytes", c, len(b))
		}
		v.data[c] = b
		data = append(data, []any{c, chunksOf(b)})
	}
	rec.E("new", "spc", spc, "bpc", bps*spc, "n", v.n, "eoc", clamp(v.eoc), "fat", table, "data", data, "root", chunksOf(v.root))
	drv := newFATDriver(v)

	for _, op := range s.Ops {
		name := str(op, "op")
		if name == "decode" {
			b := bytesOf(op, "b")
			bpc := num(op, "bpc")
			rec.E("decode")
			rec.w.Flush()
			boot := *v.boot
			boot.BytesPerCluster = uint(bpc)
			raw, err := fat.NewRawDirentFromBytes(b)
			entry := M{}
			if err == nil {
				var d fat.Dirent
				d, err = fat.NewDirentFromRaw(&boot, &raw)
				if err == nil {
					entry = fatEntry(&d)
				}
			}
			rec.E("decoded", "b", ints(b), "bpc", bpc, "short", len(b) < 32, "err", errNames(err), "entry", entry)
			continue
		}
		parts := []string{}
		path := [][]int{}
		for _, p := range list(op, "path") {
			b := toBytes(p.([]any))
			parts = append(parts, string(b))
			path = append(path, ints(b))
		}
		p := strings.Join(parts, "/")
		v.fail = nil
		if has(op, "fail") {
			v.fail = op["fail"].(M)
		}
		v.count = map[string]int{}
		call := []any{"path", path}
		result := []any{}
		var err error
		switch name {
		case "ReadFile":
			rec.Call(name, call...)
			var b []byte
			b, err = drv.ReadFile(p)
			result = append(result, "data", chunksOf(b))
		case "Readdir":
			rec.Call(name, call...)
			var l []os.FileInfo
			l, err = drv.Readdir(p)
			out := []M{}
			for _, info := range l {
				switch d := info.(type) {
				case fat.Dirent:
					out = append(out, fatEntry(&d))
				case *fat.Dirent:
					out = append(out, fatEntry(d))
				default:
					bug("a %T in the directory", info)
				}
			}
			result = append(result, "list", out)
		case "Stat", "Lstat":
			rec.Call(name, call...)
			var st disko.FileStat
			if name == "Stat" {
				st, err = drv.Stat(p)
			} else {
				st, err = drv.Lstat(p)
			}
			result = append(result, "stat", fatStat(st))
		case "Remove":
			rec.Call(name, call...)
			err = drv.Remove(p)
		case "Chmod":
			mode := os.FileMode(num(op, "mode"))
			rec.Call(name, append(call, "write", mode&0o222 != 0)...)
			err = drv.Chmod(p, mode)
		case "Chtimes":
			rec.Call(name, append(call, "atime", toInts(list(op, "atime")), "mtime", toInts(list(op, "mtime")))...)
			err = drv.Chtimes(p, timeOf(op, "atime"), timeOf(op, "mtime"))
		case "Readlink":
			rec.Call(name, call...)
			_, err = drv.Readlink(p)
		case "Chown":
			rec.Call(name, call...)
			err = drv.Chown(p, 1, 2)
		case "Lchown":
			rec.Call(name, call...)
			err = drv.Lchown(p, 1, 2)
		case "Link":
			rec.Call(name, call...)
			err = drv.Link(p, p+"X")
		case "Symlink":
			rec.Call(name, call...)
			err = drv.Symlink(p, p+"X")
		default:
			bug("no operation %q", name)
		}
		rec.E("ret", append([]any{"op", name, "err", errNames(err)}, result...)...)
	}
}
