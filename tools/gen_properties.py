#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles, statements, anchors)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
BC = "file_systems/common/blockcache/blockcache.go"
BS = "file_systems/common/basicstream/basicstream.go"
DR = "driver/driver.go"
DF = "driver/file.go"
F8 = "file_systems/fat8/"
FA = "file_systems/fat/"
CO = "utilities/compression/"

def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

# ----------------------------------------------------------------- block cache
p("C01", "Block cache reads return the latest data",
  "Reading a block through a block cache (by copy, by slice or as the whole data) returns the bytes most recently written to it through the cache, or the backing storage's bytes if it was never written, after any sequence of operations and of failing or succeeding storage callbacks. A block that already holds unsaved changes is never reloaded from, or overwritten by, the backing storage, and a failed operation never changes what later reads of other blocks return. Reported byte counts equal the number of bytes actually delivered or accepted.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of reads, writes, slice accesses, dirty-marking, flushes and resizes, on every geometry, with every pattern of fetch/flush/resize failures",
  "The tests write one block and read it back, on one geometry, with callbacks that never fail.",
  [BC], [("loaded/dirty bitmaps consulted before a fetch", BC + ":loadBlockRange"), ("writes load, copy, then mark dirty", BC + ":WriteAt")],
  ["BlockCache public methods", "fetch/flush/resize callbacks"],
  [("loadedBlocks", "which blocks are present in memory", BC), ("dirtyBlocks", "which blocks hold unsaved changes", BC)])
p("C02", "Flushing a block cache saves every change exactly once",
  "When a flush reports success, the backing storage holds exactly the cache's content for every block that was written or marked as modified; blocks that were not modified are never written. If saving some block fails, the flush reports that failure and every block that was not saved stays pending, so a later successful flush writes it; blocks already saved are not written again until they are modified again.",
  ["histories", "fault_sequences"],
  "every history of operations and every subset of flush callbacks failing, at every position",
  "No test ever calls Flush, and no test's flush callback fails.",
  [BC], [("dirty bit cleared only after the flush callback succeeded", BC + ":flushBlockRange")],
  ["flush callback", "Flush return value"], [("dirtyBlocks", "pending blocks", BC)])
p("C03", "Out-of-range block accesses are refused without effect",
  "Any access whose block range does not lie entirely inside the cache fails with the argument-out-of-range error, whatever the start and length (including values whose product or sum would overflow), without panicking, calling any storage callback, or changing content, size or pending changes; every in-range access is accepted. Storage callbacks only ever receive block indexes inside the cache and buffers of exactly one block.",
  ["inputs", "histories"],
  "every start block, byte or block count (up to the maximum integers), cache size and block size, in every reachable state",
  "Tests probe seven hand-picked ranges with small numbers; overflow and the count-based entry points are never exercised.",
  [BC], [("bounds check before every access", BC + ":CheckBounds")], ["BlockCache public methods"])
p("C04", "Resizing a block cache keeps surviving blocks and zero-fills new ones",
  "After a successful resize the cache has exactly the requested number of blocks, every block present before and after keeps its content and whether it still needs saving, and every added block reads as zeros and is written to storage by the next flush. If the storage refuses the resize, the error is returned and the cache's size, content and pending changes are unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "every interleaving of resizes (grow, shrink, shrink-then-grow, to and from zero) with reads, writes and flushes, with the storage accepting or refusing",
  "No test calls Resize.",
  [BC], [("copy of data and bitmaps, new blocks marked loaded and dirty", BC + ":Resize")], ["BlockCache.Resize", "resize callback"])
p("C05", "A cache over an image stream maps block i to bytes i*size..",
  "For a block cache wrapped around a seekable stream or byte slice, block i always corresponds to the byte range starting at i times the block size, including after the cache was resized and including streams that return data in short pieces; blocks beyond the end of a too-short stream read as zeros. Flushing changes only the bytes of modified blocks, read and write errors of the stream are reported, and resizing is refused with a not-permitted error when forbidden, a not-supported error when the stream cannot be truncated, and otherwise truncates the stream to exactly the new number of blocks.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every stream behaviour allowed by the io interfaces (short reads, errors, truncatable or not), every geometry and operation history",
  "WrapSlice is only used to call a pure size helper; the wrapped stream's reads, writes and resizes are never tested.",
  [BC], [("seek to block then transfer", BC + ":WrapStream")], ["the wrapped io.ReadWriteSeeker's final bytes"])
# ---------------------------------------------------------------- basic stream
p("C06", "A byte stream over blocks behaves like a flat file",
  "Any sequence of Read, ReadAt, Write, WriteAt, WriteString, Seek, Tell, Size and Truncate on a stream gives the results, contents, size and position of a flat byte array with a cursor, independently of how the data falls across blocks: reads stop at the end of file and advance the position by exactly what they returned, writes past the end grow the file, gaps and growth read as zeros, shrinking then growing never reveals old bytes. Negative offsets and positions are refused with an error and leave the stream unchanged.",
  ["histories", "inputs"],
  "every sequence of operations with every offset and length relative to block boundaries and to the end of file, on every block size",
  "Tests only read from streams opened read-only; writing, truncating, growing and reading at end of file are never tested.",
  [BS], [("byte offset to block+offset conversion", BS + ":convertLinearAddr"), ("growth on write past end", BS + ":implWriteAt")],
  ["BasicStream public methods"], [("position", "cursor", BS), ("size", "file size in bytes", BS)])
p("C07", "Streams enforce their open mode",
  "A stream opened read-only never changes its data, size or backing storage and fails every write and truncation with a not-permitted error; one opened write-only fails every read the same way. In append mode every sequential write lands at the current end of file regardless of the position, and positioned writes are refused; opening with the truncate flag empties the file, and fails if writing is not allowed.",
  ["configurations", "histories"],
  "every combination of access mode, append, truncate and sync flags, with every operation history",
  "Tests open streams read-only and never attempt a forbidden operation; append, truncate and write-only are never used.",
  [BS, "flags.go"], [("flag checks on entry", BS)], ["BasicStream public methods with flags"])
p("C08", "Synced stream data is on storage",
  "After Sync or Close reports success, and after every successful write or truncation on a stream opened in synchronous mode, the backing storage holds exactly the file's bytes; if storing any changed block fails, that call reports an error and a later successful Sync still stores everything. Bytes outside what was written, and blocks that were not modified, are not altered on storage.",
  ["histories", "fault_sequences", "crash_points"],
  "every operation history, every failing flush/fetch/resize callback, and the storage state at every successful synchronisation point",
  "No test writes through a stream, so nothing is ever synchronised.",
  [BS, BC], [("writes mark touched blocks dirty; Sync flushes the cache", BS + ":Sync")], ["storage callbacks after Sync/Close"])
p("C09", "Bulk copies move every byte and report every failure",
  "Filling a stream from a reader, or copying a stream into a writer, transfers exactly the bytes from the current position to the end of the source, in order, and returns that number, whatever chunk sizes the other side uses and whether it signals end of data together with or after its last bytes. An error from the other side or from the stream's own storage is returned rather than swallowed, and the returned count never exceeds what was really transferred.",
  ["inputs", "fault_sequences", "histories"],
  "every reader/writer behaviour allowed by the io interfaces (short reads, data with EOF, failing or short writes), every file size and position",
  "ReadFrom and WriteTo have no tests.",
  [BS], [("copy loop", BS + ":ReadFrom"), ("copy loop", BS + ":WriteTo")], ["ReadFrom, WriteTo"])
# -------------------------------------------------------------------- driver
p("C10", "Paths resolve like POSIX, for every symlink layout",
  "Every path, absolute or relative, with any mix of '.', '..', repeated and trailing slashes, resolves to the same object: paths are first normalised by name against the current working directory to absolute, clean ones ('..' cancels the component before it, also in the target of a symbolic link), and then looked up like POSIX does: symbolic links in intermediate components are followed relative to the directory that contains them, and the last component is followed or not as the operation requires. Lookup always terminates: missing names give a not-found error, files used as directories a not-a-directory error, and symbolic link cycles a link-cycle error.",
  ["inputs", "configurations"],
  "every directory tree and symlink graph (cycles, chains, links through links, relative and absolute targets) and every path string",
  "The driver package has no tests at all.",
  [DR], [("NormalizePath", DR + ":NormalizePath"), ("recursive lookup", DR + ":getObjectAtPathNoFollow"), ("symlink resolution with cycle detection", DR + ":resolveSymlink")],
  ["BaseDriver public methods on an in-memory implementation"], [("workingDirPath", "current directory", DR)])
p("C11", "Namespace operations change the tree exactly as their os counterparts",
  "Creating, making directories (single and with parents), linking, removing and removing recursively change exactly the named directory entries and nothing else, and listings, Stat, Lstat, Readlink and ReadFile afterwards reflect that: existing names are never silently replaced, exclusive creation fails on existing names, non-empty directories and the root are not removable, removal acts on a link and never on what it points to, and recursive removal deletes the whole subtree including its top. A failing operation reports an error of the documented kind and leaves the tree as it was, except that an interrupted recursive operation may have processed part of its subtree.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of namespace operations on every tree, with links of both kinds, and with the implementation failing at any call",
  "The driver package has no tests at all.",
  [DR], [("Mkdir/MkdirAll/Remove/RemoveAll/Link/OpenFile", DR)], ["directory tree of an in-memory implementation after each call"])
p("C12", "File contents written through the driver are what is read back",
  "Data written to a file through the driver (whole-file write, or an open file with any sequence of reads, writes, seeks and truncations followed by Close or Sync) is exactly what a later whole-file read or open returns, with exactly the right size in bytes, for every file size relative to the file system's block size; a file opened with the truncate flag or truncated by name becomes empty. If storing the data fails, some call on that path reports an error.",
  ["histories", "inputs", "fault_sequences"],
  "every file size, block size, sequence of file operations and reopenings, and every failing storage call",
  "The driver package has no tests at all.",
  [DR, DF], [("block cache callbacks onto the object handle", DF + ":NewFileFromObjectHandle"), ("WriteFile", DR + ":WriteFile")], ["ReadFile/Stat after Close", "object contents in the implementation"])
p("C13", "Mount permissions are enforced",
  "An image mounted without write permission is never modified in existing files, without insert permission never gains files, directories or links, without delete permission never loses any, and without administer permission never has permissions or owners changed; each refused operation fails with the read-only-file-system error and has no effect. Operations that the mount permissions allow are not refused for lack of permission.",
  ["configurations", "histories"],
  "every combination of mount permissions and every operation history",
  "The driver package has no tests at all; no test mounts with restricted permissions.",
  [DR, "api.go"], [("permission checks at entry of mutating operations", DR)], ["implementation-side mutations"], [("mountFlags", "permissions granted at mount", DR)])
p("C14", "The driver honours its contract with file system implementations",
  "The generic driver calls a file system implementation only under the documented guarantees: it never creates an object whose name already exists, never creates under something that is not a directory, never unlinks a non-empty directory, never hard-links a directory or onto an existing name, reads and writes only whole blocks inside an object's current bounds, passes sizes in bytes, sends only permission bits when changing modes, only supported timestamps when changing times, and passes the implementation back its own object handles and never uses one it has closed.",
  ["histories", "inputs", "configurations"],
  "every history of user-level operations, including ones that fail, on every tree and file system feature set",
  "There is no implementation in the repository that checks its callers, and the driver package has no tests.",
  [DR, DF, "api.go"], [("guarantees documented on the implementer interfaces", "api.go")], ["calls received by an in-memory implementation"])
p("C15", "Directory handles list every entry exactly once",
  "Reading a directory through an open handle in pieces of any size returns every entry of the directory exactly once, without '.' and '..', in the order of a full listing, never more than asked for, and end-of-directory is reported only once everything was returned; asking for everything returns the remaining entries without an error, even if there are none. Names, file infos and entries obtained this way agree with each other and with Stat of the same object.",
  ["inputs", "histories"],
  "every directory size and every sequence of piece sizes over the three listing calls",
  "The driver package has no tests at all.",
  [DF, "driver/dirent.go"], [("cached listing with read pointer", DF + ":ReadDir")], ["File.ReadDir/Readdir/Readdirnames"])
p("C32", "The driver releases every object handle exactly once",
  "Every object handle that the generic driver obtains from a file system implementation while carrying out a call is closed by the time that call returns, whether it succeeds or fails, except for the handle of a file that the call successfully opened. Closing a file closes its handle, even if storing its data fails, and reports it if that close fails. No handle is closed twice or used in any way after it was closed.",
  ["histories", "inputs", "fault_sequences"],
  "every history of calls on every tree, layout of links and set of mount permissions, with the implementation failing at any call",
  "The driver package has no tests, and leaked or reused handles don't show in results.",
  ["driver/driver.go", "driver/file.go"], [("handles closed on every path", "driver/driver.go"), ("File.Close", "driver/file.go:Close")], ["handles an in-memory implementation gave out and got back"])
# -------------------------------------------------------------------- fat8
p("C16", "Formatting produces a valid empty FAT8 volume",
  "Formatting with a supported size produces an image of exactly that disk's true size whose directory sectors are filled with FF, whose information sector is zero, and whose three allocation tables are identical, mark as reserved exactly the two clusters that physically hold the directory track and mark every other cluster free; nothing else is written and the reported block and entry counts match. An unsupported size, a size that is not a whole number of sectors, or a mounted volume is refused with an error and leaves the image untouched.",
  ["inputs", "configurations", "histories"],
  "every requested size, all three supported geometries, previous image contents, and mount state",
  "The format tests compare the produced image with itself, so any content passes; no refused size is checked for side effects.",
  [F8 + "formattingdriver.go", F8 + "common.go"], [("geometry table", F8 + "common.go:GetGeometry"), ("FormatImage", F8 + "formattingdriver.go")], ["image bytes after FormatImage", "FSStat"])
p("C17", "FAT8 mount validates and flush preserves the allocation tables",
  "A volume of a supported size mounts on a fresh driver exactly when its three allocation tables are identical, and otherwise is refused as corrupted without being modified; after mounting, the block counts reported match the volume. Flushing a mounted volume leaves three identical allocation tables on disk and changes no other byte, and mounting twice without unmounting is refused; unmount then mount works again.",
  ["inputs", "histories", "configurations"],
  "every image content (each byte position at which the tables can differ), each geometry, every sequence of format, mount, flush, unmount",
  "No test mounts a volume.",
  [F8 + "driver.go", F8 + "iobase.go"], [("comparison of the three table copies", F8 + "iobase.go:GetFAT"), ("triplicate write", F8 + "iobase.go:writeFAT")], ["Mount/Flush results and image bytes"])
p("C18", "FAT8 clusters are disjoint and I/O stays inside them",
  "Each valid cluster number maps to its own range of sectors, disjoint from every other cluster's and inside the image: what is written to a cluster, by absolute number or through a file's chain, is what is read back from it, and writing one cluster or sector range never changes any byte of another. Cluster numbers outside the volume, wrong buffer sizes and sector ranges past the end are refused with an error and no effect, and every sector of the image including the last is readable.",
  ["inputs", "histories"],
  "every cluster number and sector range on each geometry, and every sequence of cluster writes and reads",
  "Cluster and sector I/O have no tests.",
  [F8 + "iobase.go"], [("cluster to sector mapping", F8 + "iobase.go:ReadAbsoluteCluster")], ["Read/WriteAbsoluteCluster, Read/WriteFileCluster, Read/WriteDiskBlocks"])
p("C19", "FAT8 file names convert reversibly",
  "An ASCII file name with a stem of one to six characters and an extension of at most three, without further periods, converts to exactly nine bytes, upper-cased and space-padded in two fields, and converting those bytes back gives the upper-cased name without padding; names that differ other than by letter case or trailing padding never convert to the same bytes. Empty names and names with an over-long stem or extension are refused.",
  ["inputs"],
  "every file name",
  "Tests sample four names in each direction.",
  [F8 + "common.go"], [("FilenameToBytes/BytesToFilename", F8 + "common.go")], ["FilenameToBytes, BytesToFilename"])
# -------------------------------------------------------------------- fat
p("C20", "FAT boot sectors are decoded correctly or rejected",
  "Every boot sector either is rejected with an error, never a panic, or yields the geometry prescribed by Microsoft's FAT specification: the data area starts after the reserved sectors, all FAT copies and the root directory, the cluster count is the number of whole clusters in it, and the FAT version follows from that count alone. Sector sizes other than 512, 1024, 2048 and 4096, cluster sizes that are not a power of two of at most 128 sectors or exceed 32 KiB, a layout that does not fit in the volume, and truncated input are all rejected.",
  ["inputs"],
  "every boot sector content",
  "The fat package has no tests.",
  [FA + "common.go"], [("NewFATBootSectorFromStream", FA + "common.go")], ["NewFATBootSectorFromStream result"])
p("C21", "FAT directory entries and directories decode faithfully",
  "Each 32-byte directory entry decodes to the name, attributes, size, first cluster, timestamps and deleted state that the FAT specification assigns to those bytes, and no entry content causes a panic. Listing a directory returns exactly the entries before the end marker, across all clusters of its chain, and looking up a slash-separated path returns the entry it names or a not-found error, never another entry.",
  ["inputs", "configurations"],
  "every directory entry content, directory length relative to the cluster size, tree and path",
  "The fat package has no tests.",
  [FA + "dirent.go", FA + "driverbase.go"], [("NewRawDirentFromBytes/NewDirentFromRaw", FA + "dirent.go"), ("readDirFromDirent, resolvePathToDirent", FA + "driverbase.go")], ["exported dirent functions", "FATDriver.Readdir/Stat"])
p("C22", "FAT file reads follow the chain exactly and always terminate",
  "Reading a file returns exactly its size in bytes, taken in order from the clusters of its chain at their correct place in the data area. On any allocation table whatsoever, including cycles, links out of range and chains shorter or longer than the file's size, reading terminates without a panic and either returns the right bytes or reports an error.",
  ["inputs", "configurations"],
  "every allocation table graph, file size and cluster size",
  "The fat package has no tests.",
  [FA + "driverbase.go"], [("listClusters, readCluster", FA + "driverbase.go")], ["FATDriver.ReadFile"])
p("C23", "FAT removal frees exactly the file's clusters, crash-safely",
  "Removing a file deletes its directory entry first and then frees exactly the clusters of its chain, last to first, and nothing else; so at every point where it can be interrupted, no remaining directory entry refers to a freed cluster and no other file's data or clusters are affected. If the entry cannot be deleted nothing is freed, directories are refused, and errors while freeing are reported.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "every volume content, every removed file, every interruption point and every failing call",
  "The fat package has no tests.",
  [FA + "driverbase.go"], [("Remove", FA + "driverbase.go:Remove")], ["order and arguments of DeleteDirent and FreeCluster calls"])
p("C31", "FAT metadata changes are exact",
  "Changing the times of a file on a FAT volume writes its directory entry back with exactly the new access and modification times, changing its mode switches write permission on when any write bit is requested and off when none is, and either leaves everything else about the entry as it was. Times before 1980 are refused without writing anything back, a missing file gives a not-found error, a failure to write the entry back is reported, and operations FAT cannot support (links, symbolic links, owners) are refused as not supported.",
  ["inputs", "histories", "fault_sequences"],
  "every directory entry, tree, path, mode and time, and every failing call",
  "The fat package has no tests.",
  [FA + "driverbase.go", FA + "dirent.go"], [("Chmod, Chtimes", FA + "driverbase.go")], ["entries passed to UpdateDirent"])
p("C33", "FAT directory entries keep their timestamps and identity",
  "Setting the creation, access, modification or deletion time of a FAT directory entry changes that time and nothing else, of that entry only, and every way to look at the entry shows it. A time before 1980-01-01 00:00 local time, in whatever time zone it is given, is refused and has no effect. Setting the deletion time marks the entry as deleted, for good; the creation time of a deleted entry can be neither read nor set (a not-found error) and the deletion time of an entry that is not deleted cannot be read. Two entries refer to the same file exactly if their first clusters, of all 32 bits, are equal.",
  ["inputs", "histories"],
  "every directory entry, time, time zone and sequence of changes, and every pair of entries of which at least one has clusters",
  "The fat package has no tests.",
  [FA + "dirent.go", FA + "driverbase.go"], [("Set.../Get...At", FA + "dirent.go"), ("SameFile", FA + "driverbase.go:SameFile")], ["accessors of Dirent, FATDriver.SameFile"])
# ---------------------------------------------------------------- compression
p("C24", "RLE8 compression is lossless and canonical",
  "For every byte string, compressing with RLE8 produces the documented encoding (every maximal run cut into pieces of at most 257, each piece of two or more stored as the byte twice plus a count) and decompressing it gives back the original; both report exactly the number of bytes they wrote. Decompression accepts every well-formed encoding, canonical or not, rejects input that ends between a doubled byte and its count with an unexpected-end error, and run grouping returns maximal runs in order.",
  ["inputs"],
  "every byte string, of every run structure (runs of 1, 2, 256, 257, 258, 259, 514, 515 ... bytes, adjacent encodings that look alike)",
  "Tests use eleven fixed inputs plus a few random ones without long runs.",
  [CO + "rle8.go", CO + "rle_grouper.go"], [("CompressRLE8/DecompressRLE8 state machines", CO + "rle8.go")], ["output bytes and counts"])
p("C25", "Recursive RLE is lossless",
  "For every byte string, recursive run-length compression produces the documented encoding (a run of two or more is the byte twice followed by its remaining length in base 255: as many FF bytes as needed and a final byte below FF) and decompressing it gives back the original with the right byte count. Decompression of any input terminates, and input that ends inside a run's length is rejected.",
  ["inputs"],
  "every byte string and every run length",
  "The recursive codec has no tests.",
  [CO + "rle8.go"], [("CompressRLERecursive/DecompressRLERecursive", CO + "rle8.go")], ["output bytes and counts"])
p("C26", "Image compression round-trips and reports every I/O failure",
  "Compressing any image to the gzip+RLE8 format and decompressing it, through the library functions or the zipimage and unzipimage tools, restores it exactly, and the returned sizes are the number of bytes written to the output. A read error, a write error, or compressed input that is truncated or damaged is always reported as an error (nonzero exit status for the tools), never as success with different data.",
  ["inputs", "fault_sequences"],
  "every image content and size, every position at which the reader or writer fails, every truncation point and damaged byte",
  "Tests round-trip three inputs with readers and writers that never fail.",
  [CO + "compression.go", CO + "rle8.go", "cmd/zipimage/main.go", "cmd/unzipimage/main.go"], [("CompressImage/DecompressImage", CO + "compression.go")], ["library functions", "tool exit status and output files"])
# ---------------------------------------------------------------- misc
p("C27", "Errors keep the identity of everything they were built from",
  "However an error is built up by adding messages and wrapping other errors, to any depth and in any order, it matches exactly the error values that went into it and no unrelated predefined error, and its text contains every message on the way, outermost context first. Converting an arbitrary error to a driver error keeps it matchable and its text, returns driver errors unchanged and maps nil to nil.",
  ["inputs", "histories"],
  "every sequence of message additions and wrappings over every pair of predefined or foreign errors",
  "Two tests check one message and one wrap, one level deep.",
  ["errors.go"], [("WithMessage/Wrap/Unwrap", "errors.go")], ["errors.Is and Error()"])
p("C28", "Open flags and permission flags translate exactly",
  "Translating os open flags keeps the access mode and exactly the append, create, exclusive, truncate and sync bits that were set, and each flag query answers true exactly when its flag is set: reading is possible in read-only and read-write mode, writing in write-only and read-write mode, and write permission is required exactly for writing or truncation. Mount permission queries answer true exactly for the permission bits that are set, whichever others are. The constants for file modes have their POSIX values, the default modes are rw-r--r-- and rwxr-xr-x, and the mask for mount flags covers exactly those that aren't up to implementations.",
  ["inputs", "configurations"],
  "every combination of flags",
  "No test touches the flag functions except indirectly through read-only streams.",
  ["flags.go", "api.go"], [("OSFlagsToIOFlags and IOFlags predicates", "flags.go"), ("MountFlags predicates", "api.go")], ["flag functions"])
p("C29", "Unix V6 inode metadata decodes faithfully",
  "Decoding a Unix V6 inode yields the 24-bit size (high byte first, then the low word little-endian), the number of 512-byte blocks needed for it, link count, owner, group, block addresses, times and inode number stored there. Converting the on-disk mode to the portable mode and back preserves file type, permission bits and the setuid and setgid bits for every value, and unsupported portable types are refused. The queries of a file's status for directories, plain files and symbolic links agree with its mode, and the names the package has for the bits of a mode stand for those bits.",
  ["inputs"],
  "every inode content, all 65536 mode words, every portable mode",
  "The unixv6 package has no tests.",
  ["file_systems/unixv6/dirents.go", "api.go"], [("RawInodeToStat, ConvertFSFlagsToStandard, ConvertStandardFlagsToFS", "file_systems/unixv6/dirents.go")], ["exported functions"])
p("C30", "Predefined disk geometries are found and sized exactly",
  "Every geometry in the built-in table can be looked up by its slug and is returned with the values of its own row, and an unknown slug is an error. The reported image size is the smallest whole number of bytes that holds all data bits (bits per unit times units per sector, sectors per track, data tracks and heads), for every geometry including word sizes that are not multiples of eight and up to the largest size that can be expressed. The size asked of a formatter by volume parameters is block size times number of blocks.",
  ["inputs", "configurations"],
  "every row of the table, every slug, and every combination of geometry fields with less than 2^63 bits",
  "The disks package has no tests.",
  ["disks/disks.go", "disks/disk-geometries.csv"], [("CSV loaded at start-up", "disks/disks.go"), ("TotalSizeBytes", "disks/disks.go")], ["GetPredefinedDiskGeometry, TotalSizeBytes"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
