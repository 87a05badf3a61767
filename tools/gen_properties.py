#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe,
                               hook_needed=None, **({"state": state} if state else {}))))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

p("T01", "A tar archive opens to exactly the tree its entries describe",
  "For every well-formed tar archive the opened filesystem holds exactly the paths its entries name plus their missing parent directories (mode 0755), each with the content and metadata recorded for it; distinct names stay distinct, also names that begin with dots or begin or end with spaces, while './', a leading '/' and a trailing '/' are mere spellings. Of several entries for one path the last one decides, and a directory keeps the metadata of its own entry wherever that entry stands among its children. A hard link shows the content and metadata of the file it leads to, through any chain of hard links and whatever the order of the entries.",
  ["inputs", "histories"], "all sequences of file, directory, symlink, hard link, global-header and root entries, in any order, spelling and tar dialect",
  "Tests open a couple of dozen fixed archives and look at a few files; entry order, repeated paths, dotted names, link chains and directory metadata are unbounded input choices.",
  ["tarfs/tarfs.go"], [m("entry loop of Open, hard link resolution, tree building", "tarfs/tarfs.go:Open"), m("name canonicalisation", "tarfs/tarfs.go:sanitizePath")],
  ["FS.ReadDir", "FS.Stat", "FS.StatLink", "FS.Open", "fs.WalkDir"],
  [s("dirents", "last entry recorded per canonical path", "tarfs/tarfs.go:Open")])
p("T02", "Tar paths resolve through symbolic links as on a Unix filesystem",
  "Opening, stat'ing and listing a path of a tar filesystem follow every symbolic link met on the way, at any depth: a relative target starts at the directory that really holds the link, an absolute target at the archive root, and '..' leads to the parent of the directory reached so far but never above the root. Chains of up to 40 links resolve to their end; a dangling target or missing name is a not-exist error, and a cycle of links is an error, never a hang or a crash. What is reached is the same node, with the same content, listing and metadata, as through its own path.",
  ["inputs"], "all trees of directories, files and links (chains, cycles, relative, absolute, through link directories) and all paths into them",
  "Tests follow two links of one archive (bin/sh); the number of link graphs and paths through them is unbounded, and cycles are never tried.",
  ["tarfs/tarfs.go"], [m("component-wise walk with link expansion", "tarfs/tarfs.go:resolve")], ["FS.Open", "FS.Stat", "FS.ReadDir"])
p("T03", "ReadLink and StatLink of a tar filesystem describe the link itself",
  "ReadLink returns exactly the target recorded in the archive for the named link, and StatLink returns the named node's own name and metadata: links in the leading directories are followed, a link in the last position never is. ReadLink of something that is not a link is an error, a missing path is a not-exist error for both, and the root can be examined like any other directory.",
  ["inputs"], "all trees with links and all paths, including the root, links to links, links behind link directories and dangling or cyclic links",
  "Tests examine one link of one archive.",
  ["tarfs/tarfs.go", "readlink_fs.go"], [m("parent resolution plus child lookup", "tarfs/tarfs.go:ReadLink"), m("same for metadata", "tarfs/tarfs.go:StatLink")], ["FS.ReadLink", "FS.StatLink"])
p("T04", "A created tar archive reproduces its source filesystem",
  "Whenever creating a tar archive from a source filesystem of directories, regular files and symbolic links reports success, opening the archive gives the same set of paths, node types, file contents and link targets, the same permission, setuid, setgid and sticky bits, the modification time to within a second, and the owner if the source supplies tar headers. A standard tar reader sees every path exactly once, parents before children, no entry for the root, and a proper end-of-archive marker.",
  ["inputs", "configurations"], "all source trees (names, sizes, modes, times, owners) and source filesystem kinds",
  "The one test compares a hash over regular file contents of one image; directories, links, metadata, sparse sources and unusual names are not looked at.",
  ["tarfs/create.go", "tarfs/tarfs.go"], [m("walk and header/data writing", "tarfs/create.go:Create")], ["tarfs.Create output", "archive/tar.Reader", "tarfs.Open"])
p("T05", "A damaged tar archive is refused, never opened with content missing",
  "Opening refuses an archive that ends inside an entry's header block or content, that has a corrupted header, that has a hard link whose target is absent or which leads back to itself, or that contains an entry type the filesystem cannot represent. If opening succeeds, every file of the resulting tree can be read to exactly its stated size; in particular an archive cut between two entries opens to precisely the entries before the cut.",
  ["inputs", "crash_points"], "all archives and every byte position at which they may be cut or have a header byte changed",
  "No test opens a damaged archive.",
  ["tarfs/tarfs.go"], [m("entry loop consumes every entry's content before accepting", "tarfs/tarfs.go:Open")], ["tarfs.Open", "FS.Open", "Read"])
p("A01", "An ar archive opens to exactly its members",
  "For every well-formed ar archive, listing the root gives each distinct member name once, in ascending byte order, and nothing else (a member without a name, like the GNU symbol table, is not a file); names differing only by a leading dot are different members, while padding spaces and one GNU-style trailing slash are not part of a name. Opening a member yields exactly its bytes (odd-sized members included), with the size, mode, time and owner of its header, and of two members with the same name the later wins. Blank numeric fields other than the mode read as zero, and unknown names are not-exist errors.",
  ["inputs"], "all member sequences (names, sizes of either parity, header values, order, repetition)",
  "Tests open one two-member archive.",
  ["arfs/arfs.go"], [m("header loop with padding arithmetic", "arfs/arfs.go:Open"), m("header parsing", "arfs/arfs.go:parseArEntry")], ["FS.ReadDir", "FS.Stat", "FS.Open"])
p("A02", "A malformed or truncated ar archive is refused, and opening always ends",
  "Opening terminates for every input and refuses an archive with a wrong magic, a member header cut short, a header not ended by its two-byte terminator, a non-numeric field, a negative size, a member name containing a slash, or content that extends past the end of the archive. If opening succeeds, every member can be read to exactly its stated size; only the final padding byte may be absent.",
  ["inputs", "crash_points"], "all byte strings; every cut point and every header field fault of every archive",
  "No test opens a damaged archive.",
  ["arfs/arfs.go"], [m("magic and terminator checks, short read handling, offset advance", "arfs/arfs.go:Open")], ["arfs.Open", "FS.Open"])
p("A03", "Creating an ar archive reproduces the source or fails",
  "Whenever creating an ar archive reports success, opening it gives the same names, contents, permission bits, modification times (whole seconds) and, when the source supplies tar headers or is itself an ar filesystem, owners as the source's root directory, and every header is exactly 60 bytes at an even offset. A source that the format cannot express (directories, links, names over 16 bytes or altered by the format's padding, numbers too wide for their field) makes creation fail instead of producing a different archive.",
  ["inputs", "configurations"], "all flat source filesystems, header value ranges and name shapes",
  "The one test copies one two-member archive and compares a content hash; field widths and unrepresentable names are never reached.",
  ["arfs/create.go", "arfs/arfs.go"], [m("header formatting and data padding", "arfs/create.go:writeArHeader"), m("data copy", "arfs/create.go:writeArData")], ["arfs.Create output", "arfs.Open"])
p("E01", "In an EROFS directory exactly the listed names can be looked up",
  "For every EROFS directory of any size, whether it fits inline, in one block or in many, with any mix of name lengths from 1 to 255 bytes and any bytes legal in names, listing yields each stored name exactly once in ascending byte order without '.' and '..', and looking a name up succeeds exactly for the stored names and gives the node listed under it. Every other name is a not-exist error.",
  ["inputs"], "all sets of names: size, lengths, byte values, block boundaries, padding before and entries on both sides of each block boundary",
  "Tests look up three short names and list one five-entry directory of one fixed image.",
  ["erofs/reader.go", "erofs/writer.go"], [m("two-level binary search", "erofs/reader.go:Lookup"), m("name extents and padding", "erofs/reader.go:getDirentName"), m("listing", "erofs/reader.go:IterDirents"), m("packing into blocks", "erofs/writer.go:splitIntoDirentBlocks")], ["Filesystem.ReadDir", "Filesystem.Stat", "Inode.Lookup"])
p("E02", "Every valid EROFS image is read as the tree it encodes",
  "For every valid uncompressed EROFS image, whatever layout its producer chose - block size, position of the metadata area and of the root, short or long inodes, contents stored in blocks, inline, or in blocks with an inline tail, gaps and sharing between areas - the opened filesystem presents exactly the encoded tree with the encoded contents, link targets, sizes, types, permission, setuid, setgid and sticky bits, owners, link counts and modification times including nanoseconds.",
  ["inputs", "configurations"], "all valid images of the supported feature set (block sizes 512 bytes to 64 KiB, both inode forms, flat plain and flat inline data)",
  "Tests read one mkfs image with one block size and check a handful of values.",
  ["erofs/reader.go", "erofs/erofs.go"], [m("inode decoding", "erofs/reader.go:Inode"), m("address arithmetic", "erofs/reader.go:NidToOffset"), m("data access", "erofs/reader.go:Data"), m("per-block data info", "erofs/reader.go:getBlockDataInfo")], ["Filesystem.*", "Inode accessors"])
p("E03", "EROFS paths resolve through symbolic links as on a Unix filesystem",
  "Opening, stat'ing and listing a path of an EROFS filesystem follow every symbolic link met on the way: a relative target starts at the directory that really holds the link, also when that directory was itself reached through links, an absolute target at the root of the image, and '..' never leads above the root. ReadLink and StatLink follow links in leading directories but not in last position. Chains of up to 40 links resolve, dangling targets are not-exist errors and cycles are errors, never a hang or a crash.",
  ["inputs"], "all trees with links and all paths into them",
  "Tests follow two links of one image; targets with '..' behind link directories, link chains and cycles are never tried.",
  ["erofs/erofs.go"], [m("component-wise walk with link expansion", "erofs/erofs.go:resolve")], ["Filesystem.Open", "Stat", "ReadDir", "ReadLink", "StatLink"])
p("E04", "A created EROFS image reproduces the tree and contents of its source",
  "Whenever creating an EROFS image reports success, opening the image gives the same set of paths, node types, file contents of every size (empty files and exact block or inline limits included) and link targets as the source, whatever the destination held before. A source node or name that the image cannot represent (special files, names over 255 bytes, link targets of 4096 bytes or more) makes creation fail.",
  ["inputs", "configurations"], "all source trees: shapes, file sizes around 0, the inline limit and block multiples, many entries, any names; clean and dirty destinations",
  "The test copies one image and then compares source contents with themselves; empty files, empty directories, odd names and size limits are not exercised.",
  ["erofs/writer.go", "erofs/reader.go"], [m("two-pass layout", "erofs/writer.go:firstPass"), m("metadata and data writing", "erofs/writer.go:writeMetadata")], ["erofs.Create output", "erofs.Open"])
p("E05", "A created EROFS image preserves metadata",
  "Whenever creating an EROFS image reports success, every node of the opened image has the permission, setuid, setgid and sticky bits and the size of its source node, its modification time to the nanosecond (a source without times reads as the epoch), and its 32-bit owner and group if the source supplies tar headers, Unix stat data or is itself an EROFS filesystem. This holds for every value, on either side of the limits at which the image switches between short and long inode forms.",
  ["inputs"], "all metadata values: modes, owners around 65535/65536, times before and after the epoch with nanoseconds, zero times, file sizes",
  "No test looks at the metadata of a created image.",
  ["erofs/writer.go", "erofs/constants.go", "erofs/owner_unix.go", "erofs/reader.go", "erofs/erofs.go"], [m("inode form choice and field encoding", "erofs/writer.go:toInode"), m("mode translation", "erofs/constants.go:statModeFromFileMode"), m("owner lookup", "erofs/owner_unix.go:getOwner")], ["FileInfo.Mode/ModTime/Size/Sys"])
p("E06", "A created EROFS image obeys the on-disk format",
  "Every image that creation reports as successful is a valid EROFS image to any conforming reader: no two inodes, inline tails or data extents overlap each other or the superblock, all lie inside the block count stated in the superblock, inodes are aligned to 32 bytes and inline data stays within the block of its inode. Every directory's names, '.' and '..' included, are strictly ascending in byte order over all its blocks, '.' denotes the directory itself and '..' its parent (the root's own parent being the root), entry types agree with inode modes, and the inode count is right.",
  ["inputs"], "all source trees; checked on the raw bytes of the image by a reader that shares no code with the repository",
  "Tests only read created images back through the same package, so a deviation made on both sides or never looked at stays unseen.",
  ["erofs/writer.go"], [m("inode placement", "erofs/writer.go:firstPass"), m("directory encoding", "erofs/writer.go:encodeDirents"), m("superblock", "erofs/writer.go:write")], ["raw image bytes"],
  [s("metaSize/dataSize", "allocation frontier of metadata and data areas", "erofs/writer.go:firstPass")])
p("E07", "Corrupt EROFS images give errors, not wrong answers or crashes",
  "Opening refuses an image with a wrong magic, a failing superblock checksum where the checksum feature is set, unknown incompatible features or an impossible block size. An inode with extended attributes, an unsupported form or data layout, or inline data that would leave its block, and a directory block with impossible name offsets give errors when they are reached, and content or link targets that extend past the end of the image are never delivered short without an error. No image content makes any operation panic, hang or allocate without bound.",
  ["inputs", "crash_points"], "all field values of superblock, inodes and directory entries of any image, and every truncation of an image",
  "No test opens a corrupt image.",
  ["erofs/reader.go", "erofs/erofs.go"], [m("superblock checks", "erofs/reader.go:initSuperBlock"), m("checksum", "erofs/reader.go:verifyChecksum"), m("inode validity checks", "erofs/reader.go:Inode"), m("directory entry validity checks", "erofs/reader.go:getDirentName")], ["erofs.Open", "Filesystem.*"])
p("E08", "An EROFS image whose creation was cut short is never accepted",
  "If creating an EROFS image on an empty destination stops after any number of its writes, because the process dies or the destination starts failing, the bytes written so far are refused by opening unless they already present the complete source tree. The superblock that makes the image recognisable is written only after everything it refers to.",
  ["crash_points", "fault_sequences"], "every prefix of the write sequence of every creation",
  "No test interrupts a creation.",
  ["erofs/writer.go"], [m("superblock written after metadata and data", "erofs/writer.go:write")], ["sequence of WriteAt calls", "erofs.Open on the prefix image"])
p("M01", "The in-memory filesystem behaves as a tree updated by its operations",
  "After any sequence of operations, every path shows exactly the effect of the successful ones: reading a file gives the last data written to it, unaffected by what the caller later does with its buffer; creating directories creates all missing parents with the given permissions and changes nothing that exists; rewriting a file keeps its permissions. An operation that fails - invalid path, missing parent, a file where a directory is needed or a directory where a file is written - has the documented error kind (invalid, not-exist or exist), changes no visible file and leaves the filesystem usable.",
  ["histories"], "all finite sequences of MkdirAll, WriteFile, Open, Stat, ReadDir and Sub with any paths, data and permissions",
  "The one test runs one short happy sequence with a single failing write.",
  ["memfs/memfs.go"], [m("directory creation", "memfs/memfs.go:MkdirAll"), m("file creation and replacement", "memfs/memfs.go:WriteFile"), m("lookup", "memfs/memfs.go:get"), m("subtree view", "memfs/memfs.go:Sub")], ["FS.Open", "fs.ReadFile", "fs.Stat", "fs.ReadDir", "FS.Sub"])
p("M02", "An open in-memory file is a stable snapshot with its own cursor",
  "A file opened from the in-memory filesystem keeps delivering the content it had when opened, from its own position, whatever is written to the same path or read through other handles meanwhile; its reported size and mode stay those of that content however much has been read. At the end it reports end-of-file, and after closing every use of the handle, including a second close, is a closed error while other handles are unaffected.",
  ["histories"], "all interleavings of opens, partial reads, stats and closes of several handles with writes to the same paths",
  "The test reads whole files once through a single handle.",
  ["memfs/memfs.go"], [m("per-open handle over the content", "memfs/memfs.go:Open"), m("closed flag", "memfs/memfs.go:File")], ["File.Read", "File.Stat", "File.Close"])
p("M03", "In-memory directory reading delivers every entry exactly once",
  "Reading a directory through one handle delivers, whatever the sequence of batch sizes, each entry present when reading started exactly once, in ascending name order over the whole sequence, at most n per call for positive n, with end-of-file exactly when a positive n finds nothing left; a non-positive n delivers all that remain and no error. Entries name their kind and carry the same metadata as Stat of their path.",
  ["histories"], "all directory contents and all sequences of batch sizes on one or several handles",
  "The test lists directories with at most one entry, each in a single call.",
  ["memfs/memfs.go"], [m("paged listing", "memfs/memfs.go:ReadDir")], ["fs.ReadDirFile.ReadDir"])
p("M04", "Concurrent use of the in-memory filesystem is linearizable and never blocks",
  "Under every interleaving of concurrent callers, each write, open, stat and listing takes effect at one instant between its call and its return, directory creation takes effect one path component at a time, and no operation waits forever, also after other operations have failed. In particular a reader never sees a file half-replaced, empty before its first write, or with permissions or content of two different writes mixed, and there are no data races.",
  ["schedules", "histories"], "all interleavings of two or more goroutines each running a sequence of operations on overlapping paths",
  "The tests are single-threaded.",
  ["memfs/memfs.go"], [m("per-directory locks", "memfs/memfs.go:dir.mu"), m("publication of new files", "memfs/memfs.go:create")], ["results of concurrent calls"],
  [s("children", "entries of a directory, guarded by its lock", "memfs/memfs.go:dir")])
p("X01", "Creating an archive reports every failure of its source or destination",
  "Creating a tar, ar or EROFS archive returns an error whenever any write to the destination fails, including the very last one, and whenever listing, examining, opening, reading or link-reading any part of the source fails or a file's content turns out shorter or longer than the size the source reported for it. Success therefore means that the complete archive was handed to the destination.",
  ["fault_sequences"], "every single failure point of every creation, in source or destination, and every mismatch between reported and delivered size",
  "No test injects a failure.",
  ["tarfs/create.go", "arfs/create.go", "erofs/writer.go"], [m("error propagation, closing of the tar writer", "tarfs/create.go:Create"), m("data copying", "arfs/create.go:writeArData"), m("metadata/data writing", "erofs/writer.go:writeMetadata")], ["return value of Create under fault injection"])
p("X02", "Handles and callers of an opened archive do not influence each other",
  "On tar, ar and EROFS filesystems every opened file has its own position: any interleaving of opens, partial reads, stats and closes of several handles, on the same or different files, delivers to each handle exactly the consecutive bytes of its file followed by end-of-file, and an unchanging size. Concurrent callers of one opened archive get the same answers as sequential ones, without data races.",
  ["schedules", "histories"], "all interleavings of handle operations and all schedules of concurrent readers",
  "Tests read files one at a time to the end from a single goroutine.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "erofs/reader.go"], [m("fresh section reader per open", "tarfs/tarfs.go:Open"), m("per-entry data function", "arfs/arfs.go:Open"), m("lazy per-handle reader and once-guarded inode", "erofs/erofs.go:file.Read")], ["File.Read", "File.Stat", "concurrent FS calls"])
p("X03", "Converting between formats keeps the tree, along any chain of conversions",
  "Starting from any tree of directories, files and symbolic links, any chain of tar and EROFS creations and openings, each fed with the filesystem opened from the previous one, ends in a filesystem with the same paths, node types, contents, link targets, permission and special mode bits and modification times in whole seconds; owners survive every step whose source supplies them. The same holds for ar on flat trees of regular files, and repeating a conversion changes nothing further.",
  ["histories", "inputs"], "all trees and all finite chains of conversions",
  "Each test makes one conversion within one format from one fixed archive.",
  ["tarfs/create.go", "tarfs/tarfs.go", "erofs/writer.go", "erofs/erofs.go", "arfs/create.go", "memfs/memfs.go"], [m("tar creation", "tarfs/create.go:Create"), m("image creation", "erofs/writer.go:Create"), m("ar creation", "arfs/create.go:Create")], ["fs.WalkDir over each stage"])
p("X04", "All views of a filesystem agree with each other",
  "On every opened tar, ar, EROFS or in-memory filesystem a walk from the root visits every node once, each directory lists strictly ascending names, and for every listed entry the listing's name and kind, its Info, Stat (for links StatLink), the Stat of the opened file and the number of bytes it delivers agree. Stat of a link describes what the link leads to, listing a non-directory is an error, and a name its directory does not list is a not-exist error for opening, stat'ing and link operations.",
  ["inputs", "configurations"], "all filesystems, all nodes and all pairs of operations on them",
  "Tests compare few operations on few paths with constants, never the operations with each other.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "memfs/memfs.go"], [m("ReadDir/Stat/Open of each filesystem", "tarfs/tarfs.go:ReadDir"), m("same", "erofs/erofs.go:ReadDir"), m("same", "arfs/arfs.go:ReadDir"), m("same", "memfs/memfs.go:ReadDir")], ["fs.WalkDir", "ReadDir", "Stat", "StatLink", "Open"])
p("X05", "No input makes opening or using an archive crash or hang",
  "For every byte string offered as a tar, ar or EROFS archive, opening either fails with an error or yields a filesystem on which every operation on every path, the root and implied directories included, returns a result or an error. Nothing panics, overflows the stack, blocks or runs without bound.",
  ["inputs"], "all byte strings, in particular archives with hostile links, sizes, offsets, counts and duplicate or nested names",
  "Tests only open well-formed archives.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "erofs/reader.go"], [m("entry loops", "tarfs/tarfs.go:Open"), m("header loop", "arfs/arfs.go:Open"), m("validity checks of superblock, inodes and directory entries", "erofs/reader.go")], ["every exported operation"])
p("X06", "Results do not depend on how the bytes are delivered or requested",
  "An archive opened from any conforming random-access reader - one that returns end-of-file together with the last bytes or only afterwards, or that is larger than the archive because it is a window of something bigger - presents the same filesystem. Reading a file in any sequence of buffer sizes, zero-length reads included, delivers the same bytes, and a read error of the underlying reader is reported as an error, never as end-of-file or as different content.",
  ["configurations", "inputs", "fault_sequences"], "all conforming io.ReaderAt behaviours, all read-size sequences, every failing underlying read",
  "Tests use os.File sources and io.Copy only.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/reader.go"], [m("offset-tracking reader", "tarfs/tarfs.go:readerWithOffset"), m("header reads", "arfs/arfs.go:Open"), m("byte access", "erofs/reader.go:bytesAt")], ["Open", "Read"])
p("X07", "Opening and creating are deterministic",
  "Opening the same bytes twice gives filesystems that answer every operation identically, and creating an archive twice from the same source writes identical bytes; nothing depends on map iteration order, time, earlier calls, or other open archives.",
  ["inputs", "schedules"], "all archives and sources, repeated and interleaved",
  "Tests run each step once.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/writer.go", "tarfs/create.go", "arfs/create.go"], [m("sorted tree building after map collection", "tarfs/tarfs.go:Open"), m("inode order list", "erofs/writer.go:populateInodes")], ["repeated Open/Create"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
