package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/big"

	"github.com/dargueta/disko"
)

// bigLimit is the value that integers in traces are clamped to. TLC's integers
// have 32 bits; nothing in any scenario distinguishes between larger values.
const bigLimit = 1 << 29

func clamp(v any) int64 {
	var b *big.Int
	switch x := v.(type) {
	case int:
		b = big.NewInt(int64(x))
	case int64:
		b = big.NewInt(x)
	case uint:
		b = new(big.Int).SetUint64(uint64(x))
	case uint64:
		b = new(big.Int).SetUint64(x)
	case uint32:
		b = big.NewInt(int64(x))
	default:
		bug("can't clamp %T", v)
	}
	lim := big.NewInt(bigLimit)
	if b.Cmp(lim) > 0 {
		return bigLimit
	}
	if b.Cmp(new(big.Int).Neg(lim)) < 0 {
		return -bigLimit
	}
	return b.Int64()
}

func (s *Script) str(key string) string { return str(s.C, key) }
func (s *Script) num(key string) int    { return num(s.C, key) }
func (s *Script) boolean(key string) bool {
	return boolean(s.C, key)
}

func has(m M, key string) bool { _, ok := m[key]; return ok }

func str(m M, key string) string {
	v, ok := m[key].(string)
	if !ok {
		bug("field %q of %v is not a string", key, m)
	}
	return v
}

func strDef(m M, key, def string) string {
	if !has(m, key) {
		return def
	}
	return str(m, key)
}

func boolean(m M, key string) bool {
	if !has(m, key) {
		return false
	}
	v, ok := m[key].(bool)
	if !ok {
		bug("field %q of %v is not a boolean", key, m)
	}
	return v
}

func bigNum(m M, key string) *big.Int {
	v, ok := m[key].(json.Number)
	if !ok {
		bug("field %q of %v is not a number", key, m)
	}
	b, ok := new(big.Int).SetString(v.String(), 10)
	if !ok {
		bug("field %q of %v is not an integer", key, m)
	}
	return b
}

func num(m M, key string) int { return int(num64(m, key)) }

func num64(m M, key string) int64 {
	b := bigNum(m, key)
	if !b.IsInt64() {
		bug("field %q of %v is too large", key, m)
	}
	return b.Int64()
}

func unum(m M, key string) uint64 {
	b := bigNum(m, key)
	if !b.IsUint64() {
		bug("field %q of %v is not an unsigned 64-bit integer", key, m)
	}
	return b.Uint64()
}

func numDef(m M, key string, def int) int {
	if !has(m, key) {
		return def
	}
	return num(m, key)
}

func list(m M, key string) []any {
	if !has(m, key) {
		return nil
	}
	v, ok := m[key].([]any)
	if !ok {
		bug("field %q of %v is not a list", key, m)
	}
	return v
}

func bytesOf(m M, key string) []byte { return toBytes(list(m, key)) }

func toBytes(l []any) []byte {
	out := make([]byte, len(l))
	for i, v := range l {
		n, err := v.(json.Number).Int64()
		must(err)
		out[i] = byte(n)
	}
	return out
}

func intSet(m M, key string) map[int]bool {
	out := map[int]bool{}
	for _, v := range list(m, key) {
		n, err := v.(json.Number).Int64()
		must(err)
		out[int(n)] = true
	}
	return out
}

func strs(m M, key string) []string {
	out := []string{}
	for _, v := range list(m, key) {
		out = append(out, v.(string))
	}
	return out
}

// ints converts bytes into something that's encoded as a JSON array.
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

// errInjected is what instrumented callbacks fail with.
var errInjected = errors.New("injected failure")

// errSource is what instrumented data sources fail with.
var errSource = errors.New("injected failure of the source")

type namedErr struct {
	name string
	err  error
}

var knownErrors = []namedErr{
	{"injected", errInjected},
	{"source", errSource},
	{"eof", io.EOF},
	{"unexpectedEOF", io.ErrUnexpectedEOF},
	{"shortWrite", io.ErrShortWrite},
	{"inprogress", disko.ErrAlreadyInProgress},
	{"range", disko.ErrArgumentOutOfRange},
	{"busy", disko.ErrBusy},
	{"xdev", disko.ErrCrossDeviceLink},
	{"notempty", disko.ErrDirectoryNotEmpty},
	{"exist", disko.ErrExists},
	{"badstate", disko.ErrFileDescriptorBadState},
	{"corrupt", disko.ErrFileSystemCorrupted},
	{"toolarge", disko.ErrFileTooLarge},
	{"invalid", disko.ErrInvalidArgument},
	{"badfd", disko.ErrInvalidFileDescriptor},
	{"invalidfs", disko.ErrInvalidFileSystem},
	{"io", disko.ErrIOFailed},
	{"isdir", disko.ErrIsADirectory},
	{"loop", disko.ErrLinkCycleDetected},
	{"nametoolong", disko.ErrNameTooLong},
	{"nodev", disko.ErrNoDevice},
	{"nospace", disko.ErrNoSpaceOnDevice},
	{"notdir", disko.ErrNotADirectory},
	{"noent", disko.ErrNotFound},
	{"notimpl", disko.ErrNotImplemented},
	{"perm", disko.ErrNotPermitted},
	{"notsup", disko.ErrNotSupported},
	{"access", disko.ErrPermissionDenied},
	{"rofs", disko.ErrReadOnlyFileSystem},
	{"resultrange", disko.ErrResultOutOfRange},
	{"toomanylinks", disko.ErrTooManyLinks},
	{"fsclosed", fs.ErrClosed},
}

// errNames lists every known error that err matches. The empty list is success,
// and an error that matches nothing is called "other".
func errNames(err error) []string {
	names := []string{}
	if err == nil {
		return names
	}
	for _, k := range knownErrors {
		if errors.Is(err, k.err) {
			names = append(names, k.name)
		}
	}
	if len(names) == 0 {
		names = append(names, "other")
	}
	return names
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprint(err)
}
