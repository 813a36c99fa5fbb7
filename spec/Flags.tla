-------------------------------- MODULE Flags ---------------------------------
(* Flags for opening files and for mounting volumes, by name. C28.           *)
EXTENDS Naturals, Sequences, FiniteSets

Modes == {"rdonly", "wronly", "rdwr"}
\* Those that package os has as well
OSBits == {"append", "create", "excl", "trunc", "sync"}
Bits == OSBits \cup {"nofollow", "directory", "tmpfile", "noatime", "path"}
\* Flags of the host's that mean nothing here
Alien == {"noctty", "nonblock", "osdirectory", "osnofollow", "cloexec", "largefile", "osnoatime"}

\* OSFlagsToIOFlags
Translate(mode, bits) == [mode |-> mode, bits |-> bits \cap OSBits]

CanRead(mode) == mode \in {"rdonly", "rdwr"}
CanWrite(mode) == mode \in {"wronly", "rdwr"}

\* The queries that have to be answered with yes
IOQueries(mode, bits) ==
    (IF CanRead(mode) THEN {"Read"} ELSE {})
    \cup (IF CanWrite(mode) THEN {"Write"} ELSE {})
    \cup (IF CanWrite(mode) \/ "trunc" \in bits THEN {"RequiresWritePerm"} ELSE {})
    \cup {CASE b = "append" -> "Append" [] b = "create" -> "Create" [] b = "excl" -> "Exclusive"
            [] b = "trunc" -> "Truncate" [] b = "sync" -> "Synchronous" [] b = "nofollow" -> "NoFollow"
          : b \in bits \cap (OSBits \cup {"nofollow"})}

Permissions == {"read", "write", "insert", "delete", "administer"}
MountBits == Permissions \cup {"preserve", "custom", "custom2"}
MountQueries(bits) ==
    {CASE b = "read" -> "CanRead" [] b = "write" -> "CanWrite" [] b = "insert" -> "CanInsert"
       [] b = "delete" -> "CanDelete" [] b = "administer" -> "CanAdminister" : b \in bits \cap Permissions}

\* Bits that volumes may give a meaning of their own are above all others.
StandardMountBits == Permissions \cup {"preserve"}

\* The constants for modes are POSIX'.
ModeConst(name) ==
    CASE name = "IXOTH" -> 1 [] name = "IWOTH" -> 2 [] name = "IROTH" -> 4 [] name = "IRWXO" -> 7
      [] name = "IXGRP" -> 8 [] name = "IWGRP" -> 16 [] name = "IRGRP" -> 32 [] name = "IRWXG" -> 56
      [] name \in {"IXUSR", "IEXEC"} -> 64 [] name \in {"IWUSR", "IWRITE"} -> 128
      [] name \in {"IRUSR", "IREAD"} -> 256 [] name = "IRWXU" -> 448
      [] name = "ISVTX" -> 512 [] name = "ISGID" -> 1024 [] name = "ISUID" -> 2048
      [] name = "IFIFO" -> 4096 [] name = "IFCHR" -> 8192 [] name = "IFDIR" -> 16384 [] name = "IFREG" -> 32768
      [] name = "IFBLK" -> 24576 [] name = "IFLNK" -> 40960 [] name = "IFSOCK" -> 49152 [] name = "IFMT" -> 61440
=============================================================================
