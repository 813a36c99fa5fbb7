package main

import (
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
)

func init() {
	components["fatdirent"] = runFatDirent
}

// direntSeen is everything that can be seen of an entry.
func direntSeen(d *fat.Dirent) M {
	created, cerr := d.GetCreatedAt()
	deleted, derr := d.GetDeletedAt()
	m := M{"name": ints([]byte(d.Name())), "attr": d.AttributeFlags, "nt": d.NTReserved,
		"first": digits(uint64(d.FirstCluster)), "size": digits(uint64(d.Size())),
		"deleted": derr == nil, "createdErr": errNames(cerr), "deletedErr": errNames(derr),
		"created": fatStamp(created), "deletedAt": fatStamp(deleted), "undefined": deleted.Equal(disko.UndefinedTimestamp),
		"modified": fatStamp(d.GetLastModifiedAt()), "accessed": fatStamp(d.GetLastAccessedAt()),
		"dir": d.Mode().IsDir(), "isdir": d.IsDir(), "perm": int(d.Mode().Perm()),
		"device": d.Mode()&(os.ModeDevice|os.ModeCharDevice) != 0,
		"stat":   fatStat(d.Stat())}
	sys, ok := d.Sys().(disko.FileStat)
	m["other"] = d.Mode()&^(os.ModePerm|os.ModeDir|os.ModeDevice|os.ModeCharDevice) != 0 || !d.ModTime().Equal(d.GetLastModifiedAt()) ||
		!ok || sys.InodeNumber != d.Stat().InodeNumber || sys.Size != d.Stat().Size
	return m
}

func runFatDirent(s *Script, rec *Rec) {
	bpc := s.num("bpc")
	boot := &fat.FATBootSector{BytesPerCluster: uint(bpc)}
	v := &fatVolume{rec: rec, boot: boot, count: map[string]int{}}
	drv := newFATDriver(v)
	ents := []*fat.Dirent{}
	raws := [][]int{}
	for _, x := range list(s.C, "raw") {
		b := toBytes(x.([]any))
		raw, err := fat.NewRawDirentFromBytes(b)
		must(err)
		d, err := fat.NewDirentFromRaw(boot, &raw)
		must(err)
		ents = append(ents, &d)
		raws = append(raws, ints(b))
	}
	rec.E("new", "bpc", bpc, "raw", raws)
	all := func() []M {
		out := []M{}
		for _, d := range ents {
			out = append(out, direntSeen(d))
		}
		return out
	}
	rec.E("shown", "seen", all())
	for _, op := range s.Ops {
		name := str(op, "op")
		rec.Call(name)
		i := num(op, "i")
		d := ents[i-1]
		switch name {
		case "set":
			t := timeOf(op, "t")
			if zone := numDef(op, "zone", 0); zone != 0 {
				t = t.In(time.FixedZone("elsewhere", zone))
			}
			var err error
			field := str(op, "field")
			switch field {
			case "created":
				err = d.SetCreatedAt(t)
			case "modified":
				err = d.SetLastModifiedAt(t)
			case "accessed":
				err = d.SetLastAccessedAt(t)
			case "deletedAt":
				err = d.SetDeletedAt(t)
			default:
				bug("no field %q", field)
			}
			rec.E("set", "i", i, "field", field, "t", toInts(list(op, "t")), "err", errNames(err), "seen", all())
		case "copy":
			c := *d
			ents = append(ents, &c)
			rec.E("copy", "i", i, "seen", all())
		case "same":
			j := num(op, "j")
			var other os.FileInfo = ents[j-1]
			if boolean(op, "value") {
				other = *ents[j-1]
			}
			rec.E("same", "i", i, "j", j, "same", drv.SameFile(d, other))
		default:
			bug("no operation %q", name)
		}
	}
}
