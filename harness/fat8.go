package main

import (
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
)

func init() {
	components["fat8"] = runFat8
	components["fat8names"] = runFat8Names
}

type fatRun [2]int // how many, which byte

// runsOf is the run-length list of a sector.
func runsOf(b []byte) []fatRun {
	out := []fatRun{}
	for _, v := range b {
		if n := len(out); n > 0 && out[n-1][1] == int(v) {
			out[n-1][0]++
		} else {
			out = append(out, fatRun{1, int(v)})
		}
	}
	return out
}

func sectorsOf(b []byte) [][]fatRun {
	out := [][]fatRun{}
	for len(b) > 0 {
		n := min(128, len(b))
		out = append(out, runsOf(b[:n]))
		b = b[n:]
	}
	return out
}

// expand turns a list of sectors (run-length lists) into bytes.
func expand(l []any) []byte {
	out := []byte{}
	for _, sector := range l {
		for _, run := range sector.([]any) {
			pair := toInts(run.([]any))
			for i := 0; i < pair[0]; i++ {
				out = append(out, byte(pair[1]))
			}
		}
	}
	return out
}

func toInts(l []any) []int {
	out := make([]int, len(l))
	for i, v := range l {
		n, err := v.(interface{ Int64() (int64, error) }).Int64()
		must(err)
		out[i] = int(n)
	}
	return out
}

type formatOptions int64

func (o formatOptions) Metadata() any         { return nil }
func (o formatOptions) TotalSizeBytes() int64 { return int64(o) }

type fat8Image struct {
	path string
	last []byte
}

// changes returns the sectors that differ from what they were the last time.
func (im *fat8Image) changes() (chg []M, size int) {
	now, err := os.ReadFile(im.path)
	must(err)
	chg = []M{}
	sector := func(b []byte, s int) [128]byte {
		var out [128]byte
		if s*128 < len(b) {
			copy(out[:], b[s*128:])
		}
		return out
	}
	for s := 0; s*128 < max(len(now), len(im.last)); s++ {
		a, b := sector(im.last, s), sector(now, s)
		if a != b {
			chg = append(chg, M{"s": s, "v": runsOf(b[:])})
		}
	}
	im.last = now
	return chg, len(now)
}

// setChain sets the clusters of a directory entry; there's nothing public for it.
func setChain(d *fat8.DirectoryEntry, chain []fat8.PhysicalCluster) bool {
	v := reflect.ValueOf(d).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(chain) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(chain))
			return true
		}
	}
	return false
}

func runFat8(s *Script, rec *Rec) {
	dir, err := os.MkdirTemp(rec.dir, "fat8")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "image")
	im := &fat8Image{path: path}

	must(os.WriteFile(path, nil, 0o600))
	must(os.Truncate(path, int64(s.num("size"))))
	poke := func(at int, data []byte) {
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		must(err)
		_, err = f.WriteAt(data, int64(at)*128)
		must(err)
		must(f.Close())
	}
	for _, p := range list(s.C, "img") {
		m := p.(M)
		poke(num(m, "s"), expand([]any{m["v"]}))
	}

	var file *os.File
	var drv fat8.FAT8Driver
	open := func(how string) {
		if file != nil {
			file.Close()
		}
		mode := os.O_RDWR
		if how == "ro" {
			mode = os.O_RDONLY
		}
		var err error
		file, err = os.OpenFile(path, mode, 0)
		must(err)
		drv = fat8.NewDriverFromFile(file)
	}
	how := s.str("file")
	open(how)
	defer func() { file.Close() }()
	// Whether the driver is mounted, and whether it knows the volume's geometry.
	// Operations that need what isn't there are left out.
	var mounted, known bool
	chg, size := im.changes()
	rec.E("new", "img", chg, "size", size, "file", how)

	for _, op := range s.Ops {
		name := str(op, "op")
		switch name {
		case "poke":
			data := expand(list(op, "data"))
			poke(num(op, "s"), data)
			chg, size := im.changes()
			rec.E("poke", "s", num(op, "s"), "data", sectorsOf(data), "chg", chg, "size", size)
			continue
		case "resize":
			must(os.Truncate(path, int64(num(op, "bytes"))))
			chg, size := im.changes()
			rec.E("resize", "bytes", num(op, "bytes"), "chg", chg, "size", size)
			continue
		case "close":
			file.Close()
			rec.E("close")
			continue
		case "fresh":
			open(str(op, "file"))
			mounted, known = false, false
			rec.E("fresh", "file", str(op, "file"))
			continue
		case "geo":
			geo, err := fat8.GetGeometry(uint(unum(op, "n")))
			ev := M{"tracks": geo.TotalTracks, "true": geo.TrueTotalTracks, "clusters": geo.TotalClusters,
				"spt": geo.SectorsPerTrack, "spf": geo.SectorsPerFAT, "spc": geo.SectorsPerCluster,
				"bpc": geo.BytesPerCluster, "dt": geo.DirectoryTrackNumber, "dir": clamp(uint(geo.DirectoryTrackStart)),
				"info": clamp(uint(geo.InfoSectorStart)), "fats": clamp(uint(geo.FATsStart))}
			rec.E("geo", "n", clamp(unum(op, "n")), "err", errNames(err), "geo", ev)
			continue
		}

		switch name {
		case "Format", "Mount", "Unmount", "FSStat":
		case "Flush":
			if !mounted {
				continue
			}
		default:
			if !known {
				continue
			}
		}

		result := []any{}
		data := func(b []byte, err error) error {
			result = append(result, "data", sectorsOf(b), "odd", len(b)%128)
			return err
		}
		var err error
		input := expand(list(op, "data"))
		if has(op, "extra") {
			input = append(input, make([]byte, num(op, "extra"))...)
		}
		dataArg := sectorsOf(input[:len(input)/128*128])
		extra := len(input) % 128
		var dirent fat8.DirectoryEntry
		var chain []fat8.PhysicalCluster
		if name == "ReadFile" || name == "WriteFile" {
			for _, c := range toInts(list(op, "chain")) {
				chain = append(chain, fat8.PhysicalCluster(c))
			}
			if !setChain(&dirent, chain) {
				continue
			}
		}

		switch name {
		case "Format":
			rec.Call(name, "size", clamp(num64(op, "size")))
			err = drv.FormatImage(formatOptions(num64(op, "size")))
			known = mounted || err == nil
		case "Mount":
			rec.Call(name)
			err = drv.Mount(disko.MountFlagsAllowAll)
			mounted = mounted || err == nil
			known = mounted
		case "Unmount":
			rec.Call(name)
			err = drv.Unmount()
			mounted, known = false, false
		case "Flush":
			rec.Call(name)
			err = drv.Flush()
		case "FSStat":
			rec.Call(name)
			st := drv.FSStat()
			result = append(result, "stat", M{"bs": st.BlockSize, "total": clamp(st.TotalBlocks), "free": clamp(st.BlocksFree),
				"avail": clamp(st.BlocksAvailable), "files": clamp(st.Files), "ffree": clamp(st.FilesFree), "name": clamp(uint(st.MaxNameLength))})
		case "ReadBlocks":
			rec.Call(name, "start", clamp(unum(op, "start")), "count", clamp(unum(op, "count")))
			err = data(drv.ReadDiskBlocks(fat8.PhysicalBlock(unum(op, "start")), uint(unum(op, "count"))))
		case "WriteBlocks":
			rec.Call(name, "start", clamp(unum(op, "start")), "data", dataArg, "extra", extra)
			err = drv.WriteDiskBlocks(fat8.PhysicalBlock(unum(op, "start")), input)
		case "ReadCluster":
			rec.Call(name, "c", clamp(unum(op, "c")))
			err = data(drv.ReadAbsoluteCluster(fat8.PhysicalCluster(unum(op, "c"))))
		case "WriteCluster":
			rec.Call(name, "c", clamp(unum(op, "c")), "data", dataArg, "extra", extra)
			err = drv.WriteAbsoluteCluster(fat8.PhysicalCluster(unum(op, "c")), input)
		case "ReadFile":
			rec.Call(name, "chain", toInts(list(op, "chain")), "idx", clamp(unum(op, "idx")))
			err = data(drv.ReadFileCluster(&dirent, fat8.LogicalCluster(unum(op, "idx"))))
		case "WriteFile":
			rec.Call(name, "chain", toInts(list(op, "chain")), "idx", clamp(unum(op, "idx")), "data", dataArg, "extra", extra)
			err = drv.WriteFileCluster(&dirent, fat8.LogicalCluster(unum(op, "idx")), input)
		case "GetFAT":
			rec.Call(name)
			err = data(drv.GetFAT())
		case "IsValid":
			rec.Call(name, "c", clamp(unum(op, "c")))
			result = append(result, "yes", drv.IsValidCluster(fat8.PhysicalCluster(unum(op, "c"))))
		default:
			bug("no operation %q", name)
		}
		chg, size := im.changes()
		rec.E("ret", append([]any{"op", name, "err", errNames(err), "chg", chg, "size", size}, result...)...)
	}
}

// runFat8Names converts names; every operation is one name (as bytes).
func runFat8Names(s *Script, rec *Rec) {
	rec.E("new")
	for _, op := range s.Ops {
		in := bytesOf(op, "name")
		rec.Call("convert", "name", ints(in))
		raw, err := fat8.FilenameToBytes(string(in))
		ev := []any{"name", ints(in), "err", errNames(err), "raw", []int{}, "back", []int{}, "backerr", []string{}}
		if err == nil {
			back, err := fat8.BytesToFilename(append([]byte{}, raw...))
			ev[5], ev[7], ev[9] = ints(raw), ints([]byte(back)), errNames(err)
		}
		rec.E("ret", ev...)
	}
}
