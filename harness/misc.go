package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/file_systems/unixv6"
)

func init() {
	components["errors"] = runErrors
	components["flags"] = runFlags
	components["unixv6"] = runUnixV6
	components["geometry"] = runGeometry
}

////////////////////////////////////////////////////////////////////////////////
// Errors

var predefined = map[string]disko.DriverError{
	"inprogress":   disko.ErrAlreadyInProgress,
	"range":        disko.ErrArgumentOutOfRange,
	"blockdev":     disko.ErrBlockDeviceRequired,
	"busy":         disko.ErrBusy,
	"xdev":         disko.ErrCrossDeviceLink,
	"notempty":     disko.ErrDirectoryNotEmpty,
	"quota":        disko.ErrDiskQuotaExceeded,
	"exist":        disko.ErrExists,
	"badstate":     disko.ErrFileDescriptorBadState,
	"corrupt":      disko.ErrFileSystemCorrupted,
	"toolarge":     disko.ErrFileTooLarge,
	"invalid":      disko.ErrInvalidArgument,
	"badfd":        disko.ErrInvalidFileDescriptor,
	"invalidfs":    disko.ErrInvalidFileSystem,
	"io":           disko.ErrIOFailed,
	"isdir":        disko.ErrIsADirectory,
	"loop":         disko.ErrLinkCycleDetected,
	"nametoolong":  disko.ErrNameTooLong,
	"nodev":        disko.ErrNoDevice,
	"nospace":      disko.ErrNoSpaceOnDevice,
	"notdir":       disko.ErrNotADirectory,
	"noent":        disko.ErrNotFound,
	"notimpl":      disko.ErrNotImplemented,
	"perm":         disko.ErrNotPermitted,
	"notsup":       disko.ErrNotSupported,
	"access":       disko.ErrPermissionDenied,
	"rofs":         disko.ErrReadOnlyFileSystem,
	"resultrange":  disko.ErrResultOutOfRange,
	"toomanylinks": disko.ErrTooManyLinks,
	"toomanyfiles": disko.ErrTooManyOpenFiles,
	"toomanyusers": disko.ErrTooManyUsers,
}

var named = map[string]error{"eof": io.EOF, "notexist": fs.ErrNotExist}

func init() {
	for k, v := range predefined {
		named[k] = v
	}
}

// sliceError is an error that can't be compared.
type sliceError []string

func (e sliceError) Error() string { return strings.Join(e, "") }

// A text is something that formatting functions would damage and that's
// recognized wherever it is.
func text(token string) string { return "<" + token + " 100%d>" }

// tokens finds the messages in a text.
func tokens(s string, texts map[string]string) []string {
	out := []string{}
	for i := 0; i < len(s); {
		best, size := "", 0
		for name, t := range texts {
			if strings.HasPrefix(s[i:], t) && (len(t) > size || len(t) == size && name < best) {
				best, size = name, len(t)
			}
		}
		if size == 0 {
			i++
			continue
		}
		out = append(out, best)
		i += size
	}
	return out
}

func runErrors(s *Script, rec *Rec) {
	heap := []error{}
	texts := map[string]string{}
	for k, v := range named {
		texts[k] = v.Error()
	}
	look := func(err error) []any {
		is := []int{}
		for j, other := range heap {
			if errors.Is(err, other) {
				is = append(is, j+1)
			}
		}
		names := []string{}
		for k, v := range named {
			if errors.Is(err, v) {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		_, driver := err.(disko.DriverError)
		var path *fs.PathError
		return []any{"is", is, "names", names, "parts", tokens(err.Error(), texts), "driver", driver,
			"path", errors.As(err, &path)}
	}
	rec.E("new")
	operand := func(op M, key string) error { return heap[num(op, key)-1] }
	driver := func(op M) disko.DriverError { return operand(op, "of").(disko.DriverError) }
	for _, op := range s.Ops {
		kind := str(op, "op")
		msg := ""
		if has(op, "text") {
			texts[str(op, "text")] = text(str(op, "text"))
			msg = text(str(op, "text"))
		}
		kv := []any{}
		for k, v := range op {
			if k != "op" {
				kv = append(kv, k, v)
			}
		}
		rec.Call(kind, kv...)
		var err error
		same, keeps := false, false
		switch kind {
		case "pre":
			err = predefined[str(op, "name")]
		case "new":
			err = disko.NewError(msg)
		case "foreign":
			switch str(op, "kind") {
			case "plain":
				err = errors.New(msg)
			case "eof":
				err = io.EOF
			case "path":
				err = &fs.PathError{Op: "open", Path: msg, Err: fs.ErrNotExist}
			case "slice":
				err = sliceError{msg}
			}
		case "msg":
			err = driver(op).WithMessage(msg)
		case "wrap":
			err = driver(op).Wrap(operand(op, "by"))
		case "cast":
			c := disko.CastToDriverError(operand(op, "of"))
			if c != nil {
				err = c
				keeps = c.Error() == operand(op, "of").Error()
				if _, is := operand(op, "of").(disko.DriverError); is {
					same = operand(op, "of") == err
				}
			}
		case "nil":
			c := disko.CastToDriverError(nil)
			rec.E("ret", "op", kind, "nil", c == nil)
			continue
		case "fmt":
			err = fmt.Errorf("%s: %w", msg, operand(op, "of"))
		case "join":
			err = errors.Join(operand(op, "of"), operand(op, "by"))
		default:
			bug("unknown operation %q", kind)
		}
		if err == nil {
			rec.E("ret", "op", kind, "nil", true)
			return
		}
		heap = append(heap, err)
		rec.E("ret", append([]any{"op", kind, "nil", false, "same", same, "text", keeps}, look(err)...)...)
	}
	for i, err := range heap {
		rec.E("again", append([]any{"i", i + 1}, look(err)...)...)
	}
}

////////////////////////////////////////////////////////////////////////////////
// Flags

var osModes = map[string]int{"rdonly": os.O_RDONLY, "wronly": os.O_WRONLY, "rdwr": os.O_RDWR}
var osBits = map[string]int{
	"append": os.O_APPEND, "create": os.O_CREATE, "excl": os.O_EXCL, "trunc": os.O_TRUNC, "sync": os.O_SYNC,
	// of no consequence
	"noctty": syscall.O_NOCTTY, "nonblock": syscall.O_NONBLOCK, "osdirectory": syscall.O_DIRECTORY,
	"osnofollow": syscall.O_NOFOLLOW, "cloexec": syscall.O_CLOEXEC, "largefile": 0x8000, "osnoatime": syscall.O_NOATIME,
}
var ioModes = map[string]disko.IOFlags{"rdonly": disko.O_RDONLY, "wronly": disko.O_WRONLY, "rdwr": disko.O_RDWR}
var ioBits = map[string]disko.IOFlags{
	"append": disko.O_APPEND, "create": disko.O_CREATE, "excl": disko.O_EXCL, "trunc": disko.O_TRUNC,
	"sync": disko.O_SYNC, "nofollow": disko.O_NOFOLLOW, "directory": disko.O_DIRECTORY,
	"tmpfile": disko.O_TMPFILE, "noatime": disko.O_NOATIME, "path": disko.O_PATH,
}
var mountBits = map[string]disko.MountFlags{
	"read": disko.MountFlagsAllowRead, "write": disko.MountFlagsAllowWrite, "insert": disko.MountFlagsAllowInsert,
	"delete": disko.MountFlagsAllowDelete, "administer": disko.MountFlagsAllowAdminister,
	"preserve": disko.MountFlagsPreserveTimestamps, "custom": disko.MountFlagsCustomStart,
	"custom2": disko.MountFlagsCustomStart << 5,
}
var presets = map[string]disko.MountFlags{"all": disko.MountFlagsAllowAll, "readwrite": disko.MountFlagsAllowReadWrite}

// The constants for file modes, and what every file and directory gets by default.
var modeConsts = map[string]int64{
	"IXOTH": int64(disko.S_IXOTH), "IWOTH": int64(disko.S_IWOTH), "IROTH": int64(disko.S_IROTH), "IRWXO": int64(disko.S_IRWXO),
	"IXGRP": int64(disko.S_IXGRP), "IWGRP": int64(disko.S_IWGRP), "IRGRP": int64(disko.S_IRGRP), "IRWXG": int64(disko.S_IRWXG),
	"IXUSR": int64(disko.S_IXUSR), "IWUSR": int64(disko.S_IWUSR), "IRUSR": int64(disko.S_IRUSR), "IRWXU": int64(disko.S_IRWXU),
	"IEXEC": int64(disko.S_IEXEC), "IWRITE": int64(disko.S_IWRITE), "IREAD": int64(disko.S_IREAD),
	"ISVTX": int64(disko.S_ISVTX), "ISGID": int64(disko.S_ISGID), "ISUID": int64(disko.S_ISUID),
	"IFIFO": int64(disko.S_IFIFO), "IFCHR": int64(disko.S_IFCHR), "IFDIR": int64(disko.S_IFDIR), "IFREG": int64(disko.S_IFREG),
	"IFBLK": int64(disko.S_IFBLK), "IFLNK": int64(disko.S_IFLNK), "IFSOCK": int64(disko.S_IFSOCK), "IFMT": int64(disko.S_IFMT),
}
var defaults = map[string]os.FileMode{"file": disko.DefaultFileModeFlags, "dir": disko.DefaultDirModeFlags}

func runFlags(s *Script, rec *Rec) {
	rec.E("new")
	for _, op := range s.Ops {
		kind := str(op, "op")
		bits := strs(op, "bits")
		switch kind {
		case "os":
			flags := osModes[str(op, "mode")]
			for _, b := range bits {
				flags |= osBits[b]
			}
			rec.Call(kind, "mode", str(op, "mode"), "bits", bits)
			got := disko.OSFlagsToIOFlags(flags)
			mode, found, rest := "?", []string{}, got&^disko.O_ACCMODE
			for name, m := range ioModes {
				if got&disko.O_ACCMODE == m {
					mode = name
				}
			}
			for name, b := range ioBits {
				if got&b != 0 {
					found = append(found, name)
					rest &^= b
				}
			}
			sort.Strings(found)
			rec.E("ret", "op", kind, "mode", mode, "bits", found, "rest", clamp(int64(rest)))
		case "io":
			flags := ioModes[str(op, "mode")]
			for _, b := range bits {
				flags |= ioBits[b]
			}
			rec.Call(kind, "mode", str(op, "mode"), "bits", bits)
			yes := []string{}
			for name, q := range map[string]func() bool{
				"Read": flags.Read, "Write": flags.Write, "Append": flags.Append, "Create": flags.Create,
				"Truncate": flags.Truncate, "Exclusive": flags.Exclusive, "Synchronous": flags.Synchronous,
				"NoFollow": flags.NoFollow, "RequiresWritePerm": flags.RequiresWritePerm,
			} {
				if q() {
					yes = append(yes, name)
				}
			}
			sort.Strings(yes)
			rec.E("ret", "op", kind, "yes", yes)
		case "mount", "preset":
			var flags disko.MountFlags
			if kind == "preset" {
				flags = presets[str(op, "name")]
				rec.Call(kind, "name", str(op, "name"))
			} else {
				for _, b := range bits {
					flags |= mountBits[b]
				}
				rec.Call(kind, "bits", bits)
			}
			yes := []string{}
			for name, q := range map[string]func() bool{
				"CanRead": flags.CanRead, "CanWrite": flags.CanWrite, "CanInsert": flags.CanInsert,
				"CanDelete": flags.CanDelete, "CanAdminister": flags.CanAdminister,
			} {
				if q() {
					yes = append(yes, name)
				}
			}
			sort.Strings(yes)
			rec.E("ret", "op", kind, "yes", yes)
		case "const":
			rec.Call(kind, "name", str(op, "name"))
			rec.E("ret", "op", kind, "value", clamp(modeConsts[str(op, "name")]))
		case "default":
			rec.Call(kind, "name", str(op, "name"))
			mode := defaults[str(op, "name")]
			rec.E("ret", "op", kind, "perm", int(mode.Perm()), "dir", mode.IsDir(), "rest", clamp(uint64(mode&^(os.ModePerm|os.ModeDir))))
		case "mask":
			rec.Call(kind)
			within, rest := []string{}, disko.MountFlagsMask
			for name, b := range mountBits {
				if disko.MountFlagsMask&b == b {
					within = append(within, name)
					rest &^= b
				}
			}
			sort.Strings(within)
			rec.E("ret", "op", kind, "bits", within, "rest", clamp(int64(rest)))
		default:
			bug("unknown operation %q", kind)
		}
	}
}

////////////////////////////////////////////////////////////////////////////////
// Unix V6

var typeBits = map[string]os.FileMode{
	"dir": os.ModeDir, "symlink": os.ModeSymlink, "pipe": os.ModeNamedPipe, "socket": os.ModeSocket,
	"device": os.ModeDevice, "chardevice": os.ModeCharDevice, "irregular": os.ModeIrregular,
}
var specialBits = map[string]os.FileMode{"setuid": os.ModeSetuid, "setgid": os.ModeSetgid}
var otherBits = map[string]os.FileMode{
	"append": os.ModeAppend, "exclusive": os.ModeExclusive, "temporary": os.ModeTemporary, "sticky": os.ModeSticky,
}

func composeMode(m M) os.FileMode {
	mode := os.FileMode(num(m, "perm"))
	for key, table := range map[string]map[string]os.FileMode{"types": typeBits, "special": specialBits, "other": otherBits} {
		for _, b := range strs(m, key) {
			bit, ok := table[b]
			if !ok {
				bug("unknown mode bit %q", b)
			}
			mode |= bit
		}
	}
	return mode
}

func describeMode(mode os.FileMode) M {
	rest := mode &^ os.ModePerm
	pick := func(table map[string]os.FileMode) []string {
		out := []string{}
		for name, b := range table {
			if mode&b != 0 {
				out = append(out, name)
				rest &^= b
			}
		}
		sort.Strings(out)
		return out
	}
	m := M{"types": pick(typeBits), "special": pick(specialBits), "perm": int(mode & os.ModePerm)}
	other := []string{}
	for i := 0; i < 32; i++ {
		if rest>>i&1 != 0 {
			other = append(other, fmt.Sprint(i))
		}
	}
	m["other"] = other
	return m
}

func runUnixV6(s *Script, rec *Rec) {
	rec.E("new")
	for _, op := range s.Ops {
		kind := str(op, "op")
		switch kind {
		case "words":
			first := num(op, "first")
			rec.Call(kind, "first", first)
			got := []M{}
			for m := first; m < first+num(op, "count"); m++ {
				mode, err := unixv6.ConvertFSFlagsToStandard(uint16(m))
				g := describeMode(mode)
				g["back"] = -1
				if err != nil {
					g["types"] = []string{"error"}
				} else if back, err := unixv6.ConvertStandardFlagsToFS(mode); err == nil {
					g["back"] = int(back)
				}
				got = append(got, g)
			}
			rec.E("ret", "op", kind, "got", got)
		case "modes":
			rec.Call(kind, "modes", list(op, "modes"))
			got := []int{}
			for _, m := range list(op, "modes") {
				w, err := unixv6.ConvertStandardFlagsToFS(composeMode(m.(M)))
				if err != nil {
					got = append(got, -1)
				} else {
					got = append(got, int(w))
				}
			}
			rec.E("ret", "op", kind, "got", got)
		case "kinds":
			rec.Call(kind, "modes", list(op, "modes"))
			got := []M{}
			for _, m := range list(op, "modes") {
				st := disko.FileStat{ModeFlags: composeMode(m.(M))}
				got = append(got, M{"isdir": st.IsDir(), "isfile": st.IsFile(), "issymlink": st.IsSymlink()})
			}
			rec.E("ret", "op", kind, "got", got)
		case "stat":
			// An inode as it's on disk, but for the times, whose words are in an
			// order that no package of Go's knows of.
			raw := make([]byte, 32)
			binary.LittleEndian.PutUint16(raw, uint16(num(op, "mode")))
			raw[2], raw[3], raw[4] = byte(num(op, "links")), byte(num(op, "uid")), byte(num(op, "gid"))
			copy(raw[5:8], bytesOf(op, "size"))
			copy(raw[8:24], bytesOf(op, "addr"))
			var inode unixv6.RawInode
			must(binary.Read(bytes.NewReader(raw), binary.LittleEndian, &inode))
			inode.AccessedTime = uint32(num64(op, "atime"))
			inode.ModifiedTime = uint32(num64(op, "mtime"))
			rec.Call(kind, "mode", num(op, "mode"), "links", num(op, "links"), "uid", num(op, "uid"), "gid", num(op, "gid"),
				"size", ints(bytesOf(op, "size")), "atime", digits(uint64(num64(op, "atime"))), "mtime", digits(uint64(num64(op, "mtime"))),
				"ino", num(op, "ino"), "addr", ints(bytesOf(op, "addr")))
			addr := []int{}
			for _, a := range inode.Addr {
				addr = append(addr, int(a))
			}
			st, err := unixv6.RawInodeToStat(unixv6.Inumber(num(op, "ino")), inode)
			stamp := func(t time.Time) []int {
				if t.Unix() < 0 || t.Nanosecond() != 0 {
					return []int{-1}
				}
				return digits(uint64(t.Unix()))
			}
			rec.E("ret", "op", kind, "ok", err == nil, "size", clamp(st.Size), "blocks", clamp(st.NumBlocks),
				"blocksize", clamp(st.BlockSize), "ino", clamp(st.InodeNumber), "links", clamp(st.Nlinks), "uid", clamp(st.Uid),
				"gid", clamp(st.Gid), "atime", stamp(st.LastAccessed), "mtime", stamp(st.LastModified),
				"mode", describeMode(st.ModeFlags), "isdir", st.IsDir(), "isfile", st.IsFile(), "issymlink", st.IsSymlink(), "addr", addr)
		case "names":
			rec.Call(kind)
			got := M{}
			for name, v := range v6Names {
				got[name] = v
			}
			rec.E("ret", "op", kind, "got", got)
		default:
			bug("unknown operation %q", kind)
		}
	}
}

var v6Names = map[string]int{
	"FlagIsAllocated": unixv6.FlagIsAllocated, "FileTypeMask": unixv6.FileTypeMask, "FileTypeBlockDevice": unixv6.FileTypeBlockDevice,
	"FileTypeDirectory": unixv6.FileTypeDirectory, "FileTypeCharDevice": unixv6.FileTypeCharDevice, "FlagIsLargeFile": unixv6.FlagIsLargeFile,
	"FileTypePlainFile": unixv6.FileTypePlainFile, "FlagSetUID": unixv6.FlagSetUID, "FlagSetGID": unixv6.FlagSetGID,
	"OwnerPermMask": unixv6.OwnerPermMask, "FlagOwnerR": unixv6.FlagOwnerR, "FlagOwnerW": unixv6.FlagOwnerW, "FlagOwnerX": unixv6.FlagOwnerX,
	"GroupPermMask": unixv6.GroupPermMask, "FlagGroupR": unixv6.FlagGroupR, "FlagGroupW": unixv6.FlagGroupW, "FlagGroupX": unixv6.FlagGroupX,
	"OtherPermMask": unixv6.OtherPermMask, "FlagOtherR": unixv6.FlagOtherR, "FlagOtherW": unixv6.FlagOtherW, "FlagOtherX": unixv6.FlagOtherX,
}

////////////////////////////////////////////////////////////////////////////////
// Geometries

func geometryOf(m M) *disks.DiskGeometry {
	u := func(key string) uint { return uint(unum(m, key)) }
	return &disks.DiskGeometry{BitsPerAddressUnit: u("bits"), AddressUnitsPerSector: u("units"), SectorsPerTrack: u("sectors"),
		TotalDataTracks: u("tracks"), Heads: u("heads"), HiddenTracks: uint(numDef(m, "hidden", 0)), IsRemovable: uint(numDef(m, "removable", 0)),
		FirstYearAvailable: uint(numDef(m, "year", 0))}
}

func signedDigits(n int64) []int {
	if n < 0 {
		return []int{65535, 65535, 65535, 65535, 65535} // no size at all
	}
	return digits(uint64(n))
}

func runGeometry(s *Script, rec *Rec) {
	row := func(m M) M {
		out := M{}
		for _, k := range []string{"name", "slug", "form", "notes"} {
			out[k] = str(m, k)
		}
		for _, k := range []string{"year", "removable", "bits", "units", "sectors", "tracks", "hidden", "heads"} {
			out[k] = digits(unum(m, k))
		}
		return out
	}
	table := []M{}
	for _, r := range list(s.C, "table") {
		table = append(table, row(r.(M)))
	}
	rec.E("new", "table", table)
	for _, op := range s.Ops {
		kind := str(op, "op")
		switch kind {
		case "lookup":
			rec.Call(kind, "slug", str(op, "slug"))
			g, err := disks.GetPredefinedDiskGeometry(str(op, "slug"))
			d := func(n uint) []int { return digits(uint64(n)) }
			rec.E("ret", "op", kind, "found", err == nil, "size", signedDigits(g.TotalSizeBytes()), "row", M{
				"name": g.Name, "slug": g.Slug, "form": g.FormFactor, "notes": g.Notes, "year": d(g.FirstYearAvailable),
				"removable": d(g.IsRemovable), "bits": d(g.BitsPerAddressUnit), "units": d(g.AddressUnitsPerSector),
				"sectors": d(g.SectorsPerTrack), "tracks": d(g.TotalDataTracks), "hidden": d(g.HiddenTracks), "heads": d(g.Heads)})
		case "size":
			of := M{}
			for _, k := range []string{"bits", "units", "sectors", "tracks", "heads"} {
				of[k] = digits(unum(op, k))
			}
			rec.Call(kind, "of", of)
			rec.E("ret", "op", kind, "size", signedDigits(geometryOf(op).TotalSizeBytes()))
		case "fsstat":
			rec.Call(kind, "blocksize", digits(unum(op, "blocksize")), "blocks", digits(unum(op, "blocks")))
			st := disko.FSStat{BlockSize: uint(unum(op, "blocksize")), TotalBlocks: unum(op, "blocks"), BlocksFree: 7, BlocksAvailable: 5}
			var options disks.BasicFormatterOptions = st
			rec.E("ret", "op", kind, "size", signedDigits(options.TotalSizeBytes()), "nothing", options.Metadata() == nil)
		default:
			bug("unknown operation %q", kind)
		}
	}
}
