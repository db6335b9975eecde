import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Recon indexes every leaf item of the chosen filesystem, unaltered",
 "After recon of an image for a filesystem id, the metadata holds, for every leaf block carrying that id at a block-aligned position after the first superblock, each of its items under its owner, key and generation with its exact payload bytes. Nothing else is in it: no item of another filesystem id, of an internal node, of an empty leaf, of a superblock, or of plain data. This holds for every block size, item mix, number of items (also many more than fit in one write batch) and placement of the blocks, whatever has become of the superblocks.",
 ["inputs","configurations"],"all device images x block sizes x filesystem ids",
 "recon has no test at all; the quantifier is over every layout of leaves, decoys and item sizes on a device.",
 ["cmd/recon.go","pkg/btrfs/leaf.go","pkg/btrfs/index/index_store.go","pkg/btrfs/index/key_format.go"],
 [("block scan and FSID/level filter","cmd/recon.go doScanFS"),("leaf item addressing","pkg/btrfs/leaf.go"),("insert and batch commit","pkg/btrfs/index/index_store.go InsertItem")],
 observe=["metadata database contents after btrfscue recon"])
p("C02","Lookups return the newest version not newer than the chosen generation",
 "Looking up an item in a metadata index opened at a given generation returns the stored version with the highest generation not above it. If every stored version is newer, the earliest one is returned; if the item was never stored under that owner, nothing is. Versions of other items or owners never influence the answer.",
 ["inputs","histories"],"all sets of item versions x query keys x index generations",
 "No test queries the index; correctness depends on how the versions of neighbouring keys interleave.",
 ["pkg/btrfs/index/index_store.go","pkg/btrfs/index/key_format.go"],
 [("generation-ordered key encoding","pkg/btrfs/index/key_format.go newIndexKey"),("seek and step back","pkg/btrfs/index/index_store.go find")],
 observe=["Index.FindItem and the typed Find* queries"])
p("C03","Range scans yield every item once, in order, at the right generation",
 "Scanning a key range of one owner yields, in ascending key order, every distinct item of that owner whose key lies in the range, each exactly once and in exactly the version a point lookup returns, and then ends. Mixed generations of neighbouring items, gaps at the start of the range and neighbouring owners do not shorten, repeat or extend the scan. The directory, extended-attribute, file-extent, chunk, device and subvolume listings are such scans.",
 ["inputs","histories"],"all sets of item versions x ranges x index generations",
 "No test iterates a range; only ranges over mixed-generation neighbours can go wrong, and real damaged filesystems consist of those.",
 ["pkg/btrfs/index/index_store.go"],
 [("range start and advance","pkg/btrfs/index/index_store.go Range, Range.Next, findNext"),("range end","pkg/btrfs/index/index_store.go HasNext")],
 observe=["Index.Range, RangeAll, Subvolumes, DirItems, XAttrItems, FileExtentItems, Chunks, DevItems"])
p("C04","Recover restores the tree with exact file contents",
 "For an undamaged filesystem without encoded (compressed or encrypted) extents, recover writes to the destination exactly its directories, regular files and symbolic links under their names. Every file has the recorded size and byte-for-byte the content its extents describe: inline data, data on disk wherever its chunks place it, shared extents at an offset, and zeros for holes, preallocated space and gaps. Symbolic links keep their target; large or very sparse files need no memory proportional to their size. (Special files, and names containing a backslash, are left out by design.)",
 ["inputs"],"all directory trees x extent layouts x chunk maps x item placements",
 "The one test restores two tiny files, one extent each, from a hand-filled index.",
 ["cmd/recover.go","pkg/btrfs/index/index_store.go","pkg/btrfs/btrfs.go"],
 [("tree walk","cmd/recover.go recoverDir"),("extent copy","cmd/recover.go recoverFile"),("symlinks","cmd/recover.go recoverSymlink")],
 observe=["destination directory after btrfscue recon + recover"])
p("C05","Recover never writes outside the destination directory",
 "Whatever the metadata says (hostile or corrupt names, entries of the same name, symbolic links pointing outside, links that stand where a directory or a file is to be restored), recover creates, changes and deletes nothing outside the destination directory. This holds with and without overwriting enabled.",
 ["inputs","histories"],"all metadata contents x pre-existing destination contents x clobber flag",
 "The only test restores two well-named files; containment is a statement about every possible hostile name and link combination.",
 ["cmd/recover.go"],[("name filter","cmd/recover.go recoverDir"),("existence checks before writing","cmd/recover.go recoverFile, recoverSymlink")],
 observe=["the filesystem around the destination directory"])
p("C06","Recover overwrites existing files only when told to",
 "Without the clobber option, every file or link that exists in the destination before recover keeps its content, and all others are still restored. With the option, an existing file ends up exactly as if restored into an empty destination, whatever its old content or length; only the image and the metadata in use are never replaced. A directory in the place of a file stays as long as something is in it, with all of that. What is in the place of a symbolic link whose target cannot be restored stays as well.",
 ["inputs","histories"],"all trees x prior destination states x clobber flag",
 "The test always uses clobber on an empty destination.",
 ["cmd/recover.go"],[("existence checks","cmd/recover.go recoverFile, recoverSymlink")],observe=["destination directory before and after"])
p("C07","The mounted rescue view shows the filesystem's tree and attributes",
 "Under the mount's rescue directory every directory lists exactly its entries with the right kind, every listed name can be looked up and unknown names cannot, and attributes (mode, size, space used, owner, link count, times, device numbers) equal the inode's. Two names have the same inode number exactly if they lead to the same file, in different subvolumes as well. Symbolic links, extended attributes and subvolumes (entered at their own root) read back as stored, statfs works everywhere and allows the longest names, and answers do not depend on the order of requests.",
 ["inputs","histories"],"all trees x sequences of filesystem requests",
 "The mount code has no tests at all.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/rescuefs.go","cmd/mount.go"],
 [("directory cache and lookup","internal/rescuefs/nodefs.go ensureDirItems, Lookup, OpenDir"),("attributes","internal/rescuefs/nodefs.go GetAttr"),("xattrs, links","internal/rescuefs/nodefs.go GetXAttr, ListXAttr, Readlink")],
 observe=["FUSE replies of btrfscue mount"])
p("C08","Reads through the mount return the right bytes for any offset and length",
 "Reading any part of a regular file through the mounted view returns exactly the bytes of the file at that position: reads that cross extents, holes, gaps, preallocated space or the end of the last extent are complete up to the file size and correct. Without a device, on-disk data reads as zeros while inline data is still correct; empty and fully sparse files can be opened and read.",
 ["inputs","histories"],"all extent layouts x read offsets and lengths x with/without device",
 "The mount code has no tests; off-by-one and multi-extent errors appear only for particular offset/length/layout combinations.",
 ["internal/rescuefs/files.go","internal/rescuefs/nodefs.go"],
 [("extent map","internal/rescuefs/files.go newExtentFile"),("read loop","internal/rescuefs/files.go Read"),("open","internal/rescuefs/nodefs.go Open")],
 observe=["FUSE READ replies"])
p("C09","The mounted view is strictly read-only",
 "Every request to create, change, truncate, rename, link or delete something in the mounted view, or to open its files (including the exposed metadata file) and write, is refused with an error, and afterwards the view, the metadata file and the image are unchanged. The exposed metadata file reads back byte for byte.",
 ["inputs","histories"],"all sequences of read and modifying requests",
 "The mount code has no tests; the property is about every modifying request in any state.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go"],
 [("read-only file wrappers and default node refusals","internal/rescuefs/nodefs.go, files.go")],
 observe=["FUSE replies, metadata file and image hashes"])
p("C10","No command ever modifies the image, and queries leave the metadata alone",
 "identify, recon, ls, recover, dump-index and mount never change the content or size of the device or image they read, not even recover with overwriting enabled if it lies in the destination under the name of a file to restore (which is then reported). All commands except recon leave the metadata file byte-for-byte unchanged, including when they fail.",
 ["inputs","configurations","histories"],"all images x commands x options, in sequence",
 "No test compares the image or metadata before and after; the guarantee is for every command on every input.",
 ["cmd/recon.go","cmd/recover.go","cmd/mount.go","cmd/ls.go","cmd/dump_index.go","internal/identify/identify.go","pkg/btrfs/index/index_store.go"],
 [("read-only opens","os.Open in cmd/*, index.OpenReadOnly")],observe=["hash, size of image and metadata around each command"])
p("C11","Damaged input never makes a command crash or run forever",
 "For any image content (arbitrary corruption of headers, item tables, item payloads, links between directories, chunk maps, sizes) and any option values, each of identify, recon, ls, dump-index, recover and mount finishes its work or stops with an error message. It never crashes, runs on without end, or needs memory out of proportion to the image.",
 ["inputs","configurations","fault_sequences"],"all images, in particular all corruptions of valid ones, x commands x option values",
 "Tests use only well-formed input; the tool exists for damaged filesystems.",
 ["pkg/btrfs/leaf.go","pkg/btrfs/btrfs.go","pkg/btrfs/index/index_store.go","cmd/recon.go","cmd/recover.go","cmd/ls.go","internal/identify/identify.go","internal/identify/collector.go","internal/rescuefs/files.go"],
 [("item and name clamps","pkg/btrfs/leaf.go, pkg/btrfs/btrfs.go"),("visited set","cmd/recover.go recoverDir")],observe=["exit status, stderr, CPU use of the program"])
p("C12","Damage stays local: what is intact is still recovered",
 "If some metadata items are lost or corrupt, or the image is cut short, every file whose own directory path, inode, extents and data are intact is still restored completely and correctly by recover. In a partly damaged file the bytes of its intact extents are restored at their places, and a file whose inode is lost is restored up to the end of its extents. In the mounted view, too, whatever is still named and has at least its inode, its extents or, for directories, its entries left is there, with the type of its directory entry and the size of its extents if the inode is lost. Metadata is usually stored twice: where one copy of a leaf is damaged and its CRC32C checksum tells, the undamaged copy counts, whichever recon finds first.",
 ["inputs","fault_sequences"],"all trees x all subsets of lost/corrupt items x truncation points",
 "Tests have no damage; isolation quantifies over which parts are lost.",
 ["cmd/recover.go","cmd/recon.go","pkg/btrfs/leaf.go","pkg/btrfs/index/index_store.go"],
 [("checksum of a leaf","pkg/btrfs/leaf.go IsIntact"),("per-entry error handling","cmd/recover.go recoverDir"),("extent loop","cmd/recover.go recoverFile"),("entries without an inode","internal/rescuefs/nodefs.go lostAttr")],observe=["destination directory","replies of the mounted view"])
p("C13","ls prints exactly the entries of the requested paths",
 "For each requested path ls prints the file itself or exactly the entries of the directory, each once, non-directories before directories and each group by name, with type, permissions, link count, owner, size and change time from its inode. Paths may lead through subvolumes; missing paths are reported without affecting the others; with --recursive every reachable directory is printed, and loops between directories do not make it endless.",
 ["inputs"],"all trees x path arguments x options",
 "ls has no tests.",
 ["cmd/ls.go","pkg/btrfs/index/index_store.go"],
 [("listing","cmd/ls.go listDirectory, listDirItem"),("path lookup","pkg/btrfs/index/index_store.go FindDirItemForPath")],observe=["stdout/stderr of btrfscue ls"])
p("C14","identify reports the true filesystem ids with exact counts",
 "When all blocks of an image are sampled, identify prints exactly the filesystem ids (other than all-zero and all-ones) found in at least the requested number of leaf blocks, each once with the exact number of such blocks and the entropy of the id. Entries are sorted by descending count, then entropy, then id; the order in which blocks are seen does not matter for counts and order.",
 ["inputs","configurations"],"all multisets of blocks x minimum occurrence x block orders",
 "The test feeds one fixed list of headers.",
 ["internal/identify/collector.go","internal/identify/identify.go","pkg/coding/entropy.go"],
 [("histogram","internal/identify/collector.go CollectBlock"),("ranking","internal/identify/collector.go Entries, fsEntries.Less")],observe=["stdout of btrfscue identify, collector results"])
p("C15","Block sampling stays on the device, is exact in number, and terminates",
 "For every device that passes the size check and every block size and sample count, sampling terminates with distinct, ascending positions at which a whole block lies on the device. There are as many as requested or, if the device has fewer blocks, as many as it has; when the number allows, the blocks around the superblock copies are among them. identify samples the given fraction of the blocks, but not fewer than the minimum and not more than the maximum number, and therefore never fails just because of the device's size.",
 ["inputs","configurations"],"all device sizes x block sizes x sample counts",
 "The test uses one size and count, and only with a fixed random seed.",
 ["internal/identify/identify.go","pkg/btrfs/util.go"],[("sampling","internal/identify/identify.go MakeSampleOffsets"),("size check","pkg/btrfs/util.go CheckDeviceSize")],observe=["sample offsets; exit status of identify"])
p("C16","Recon is repeatable, incremental and independent of block order",
 "Running recon again on the same image into the same metadata changes nothing in what it holds. Recon of several images of the same filesystem into one metadata file yields the union of what each alone yields, in any order, and where the leaf blocks lie on the device, or in which order copies of them are found, makes no difference.",
 ["inputs","histories"],"all images x run sequences x block permutations",
 "recon has no tests.",
 ["cmd/recon.go","pkg/btrfs/index/index_store.go"],[("keyed upsert","pkg/btrfs/index/index_store.go InsertItem"),("open existing","pkg/btrfs/index/index_store.go checkUpdateMetadata")],observe=["metadata contents"])
p("C17","An interrupted recon leaves usable metadata, and rerunning completes it",
 "If recon is killed, the machine fails, or its metadata file cannot be written or grow any more, at any point, the metadata file, if it exists, holds no wrong item and everything an earlier recon stored, and is still accepted by a later recon (unless it was never completely set up). Rerunning recon to the end then gives the same contents as an uninterrupted run, and recon reports success only if everything is stored.",
 ["crash_points","fault_sequences"],"all kill points and write-failure points during recon",
 "No test interrupts anything.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go"],[("transactional commits","pkg/btrfs/index/index_store.go InsertItem, Commit, ensureTx")],observe=["metadata after interruption and after rerun"])
p("C18","Metadata of another filesystem, block size or version is refused untouched",
 "Opening existing metadata for writing with a different filesystem id or block size, or metadata of an older or newer format version, fails with an error and leaves its contents unchanged; matching metadata opens. Reading needs an existing, valid metadata file and reports its recorded block size, filesystem id and generation; a failed open does not block later opens.",
 ["inputs","histories"],"all pairs of recorded and requested parameters x open modes, in sequence",
 "The test opens with the same parameters only.",
 ["pkg/btrfs/index/index_store.go"],[("metadata record check","pkg/btrfs/index/index_store.go checkUpdateMetadata, openIndex")],observe=["errors of Open/OpenReadOnly, file contents"])
p("C19","Logical addresses map to the right physical position",
 "For every logical address inside an indexed chunk, the mapping gives the device of that chunk's first stripe and the stripe's start plus the distance from the chunk's start, for any number, order, size and spacing of chunks. If a chunk was recorded several times, its newest record counts, and where recorded chunks overlap (addresses of a removed chunk were given out again) the newest one; addresses that no chunk has map to no device; querying addresses in any order gives the same answers.",
 ["inputs","histories"],"all chunk sets x addresses x query orders",
 "The test has one chunk and one address, its first.",
 ["pkg/btrfs/index/index_store.go"],[("stripe map and search","pkg/btrfs/index/index_store.go Physical")],observe=["Index.Physical"])
p("C20","On-disk structures are decoded as the BTRFS format defines",
 "Every accessor of the on-disk structures (block header, item, inode, inode ref, directory item, file extent, root item and ref, chunk and stripes, device item and extent, block group, extent item, checksum) returns the field value the BTRFS format stores at that position, for all values, and does not depend on bytes outside the field. Keys order by type, object id and offset consistently with the order in which the index yields them.",
 ["inputs"],"all byte contents of each structure",
 "No test decodes a structure except via three fields of a header.",
 ["pkg/btrfs/btrfs.go","pkg/btrfs/leaf.go","pkg/btrfs/slice.go","pkg/btrfs/parse_buffer.go"],[("field offsets","pkg/btrfs/btrfs.go, leaf.go")],observe=["accessors of pkg/btrfs"])
p("C21","The newest version of everything wins, whatever stale copies lie around",
 "If the image also contains leaves of earlier generations (older inodes, directory entries, extents, links, chunks), recover, ls and the mounted view show for every name and file the version with the highest generation, regardless of where old and new leaves lie. Where extents of different states of a file overlap, the newest decides every byte. Entries that exist only in earlier generations (deleted files) are still shown.",
 ["histories","inputs"],"all update histories x block placements",
 "Tests contain a single generation.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go","cmd/recover.go","cmd/ls.go","internal/rescuefs/nodefs.go"],
 [("generation in the index key","pkg/btrfs/index/key_format.go"),("latest-version queries","pkg/btrfs/index/index_store.go find, findNext")],observe=["recover output, ls output, FUSE replies"])
p("C22","Concurrent requests to the mounted view are safe and give sequential answers",
 "Any number of requests running at the same time against the mounted view neither crash it nor block it, and each gets the answer it would get alone.",
 ["schedules","histories"],"all interleavings of concurrent requests",
 "The mount code has no tests, and a single-threaded test cannot show races.",
 ["internal/rescuefs/nodefs.go","internal/rescuefs/files.go","pkg/btrfs/index/index_store.go"],[("lazily filled caches","internal/rescuefs/nodefs.go ensureDirItems, GetAttr; pkg/btrfs/index/index_store.go Physical")],observe=["FUSE replies, race reports of an instrumented build"])
p("C23","Filesystem ids survive text conversion",
 "Formatting an id gives the canonical 8-4-4-4-12 lower-case form, and parsing that form, in any letter case and with dashes anywhere or nowhere, gives the same id back. Text that does not hold exactly 32 hexadecimal digits besides dashes is rejected and leaves the id unchanged; the all-zero and all-ones ids, and only those, are recognised as such.",
 ["inputs"],"all ids and all strings",
 "Tests try a handful of strings.",
 ["pkg/uuid/uuid.go"],[("format and parse","pkg/uuid/uuid.go String, Set")],observe=["uuid package"])
p("C24","A block read delivers the whole block or an error",
 "Reading a block at any position from any conforming source either fills the whole block with the source's bytes at that position and reports success, or reports an error. Reaching the end of the source exactly with the block is success, even if the source signals end-of-file at the same time.",
 ["inputs","fault_sequences"],"all sources x positions x block lengths x read faults",
 "The test reads three positions of one in-memory source.",
 ["pkg/ioutil/ioutil.go"],[("ReadBlockAt","pkg/ioutil/ioutil.go")],observe=["ReadBlockAt result"])
p("C25","Inserted items stay visible through commits, batches and reopening",
 "After any sequence of inserts, commits, closes and reopenings (for writing or reading), queries on the open index answer from exactly the items inserted so far, with a repeated insert of the same item version replacing its payload. Everything inserted before a close or explicit commit is still there after reopening, however many items are inserted.",
 ["histories"],"all operation sequences on an index",
 "The test creates an empty index and reopens it once.",
 ["pkg/btrfs/index/index_store.go"],[("transactions","pkg/btrfs/index/index_store.go ensureTx, InsertItem, Commit, Close")],observe=["index queries"])
p("C26","dump-index prints each stored item version exactly once, in key order",
 "dump-index prints one line for each item version in the metadata, in ascending order of owner, type, object id, offset and generation, preceded by an owner line whenever the owner changes, and nothing else. Known object ids and item types appear by name, all others as numbers; empty metadata prints nothing.",
 ["inputs"],"all metadata contents",
 "dump-index has no tests.",
 ["cmd/dump_index.go","pkg/btrfs/index/index_store.go","pkg/btrfs/to_string.go"],[("full scan","pkg/btrfs/index/index_store.go FullRange"),("names","pkg/btrfs/to_string.go")],observe=["stdout of btrfscue dump-index"])
p("C27","Path lookup finds what a step-by-step walk finds",
 "Looking up a path finds a directory entry exactly if each component names an entry of the directory reached so far, and returns that entry, descending into subvolumes at their root. It does not matter whether names hash to the same value, how long or unusual they are, or whether an entry is filed under the hash of its name; the name hash is the one BTRFS uses.",
 ["inputs"],"all trees x paths, including hash collisions",
 "No test looks up a path or computes a hash.",
 ["pkg/btrfs/index/index_store.go"],[("hash lookup and fallback scan","pkg/btrfs/index/index_store.go FindDirItemForPath, NameHash")],observe=["Index.FindDirItemForPath, NameHash"])
p("C28","Entropy is exact, order-independent and reproducible",
 "The entropy of a byte string is the Shannon entropy of its byte distribution in bits: between 0 and 8, zero exactly for constant or empty strings, and unaffected by permuting the bytes or relabelling byte values. Repeated evaluation, and evaluation of strings with the same distribution, gives bit-for-bit the same number, so rankings built on it are reproducible.",
 ["inputs","schedules"],"all byte strings",
 "The test compares three strings to rounded values, once each.",
 ["pkg/coding/entropy.go","internal/identify/collector.go"],[("ShannonEntropy","pkg/coding/entropy.go")],observe=["ShannonEntropy, identify ranking"])
p("C29","Every subvolume is recovered exactly once, attached or not",
 "recover restores each subvolume of the filesystem: at its place in the tree if it can be reached from the root directory, otherwise under a directory of its own named after its id (one that is only referred to from such a subvolume may be in either place), whatever ids exist. Directory loops and several references to the same directory or subvolume do not lead to endless or repeated restoration.",
 ["inputs"],"all sets of subvolumes, references between them, and directory graphs",
 "The test has a single tree and no subvolumes.",
 ["cmd/recover.go","pkg/btrfs/index/index_store.go"],[("subvolume scan and visited set","cmd/recover.go doRecoverFiles, recoverDir; index_store.go Subvolumes")],observe=["destination directory"])
p("C30","I/O errors are reported and never turn into wrong data",
 "When reading the image fails (bad sectors, an image that ends early) or writing results fails, recover names every file, link and directory it could not restore in full on stderr and restores all others exactly; without such errors it names none. recon and identify either fail or have the complete result, and a later recon without errors completes the metadata. A read through the mounted view returns the right bytes or an error, never other bytes.",
 ["fault_sequences","inputs"],"all filesystems x failing reads and writes at any point",
 "Tests never make a read or a write fail; each depends on which operation fails and on what was done before.",
 ["cmd/recover.go","cmd/recon.go","internal/rescuefs/files.go","pkg/ioutil/ioutil.go"],
 [("error handling of the copy loop","cmd/recover.go recoverFile, recoverDir"),("scan errors","cmd/recon.go doScanFS"),("read errors","internal/rescuefs/files.go Read")],
 observe=["stderr and exit status of the commands","destination directory","metadata contents","FUSE READ replies"])
p("C31","Unusable command lines fail cleanly, equal ones do the same",
 "A command line that cannot be carried out (unknown command or flag, missing or surplus arguments, unusable option values or ids, missing or too small image, missing, unreadable or foreign metadata, impossible destination) ends with a message on stderr and a non-zero status, and creates or changes no file. The same command written differently (metadata given by flag or environment with the flag taking precedence, flags before or after arguments, joined or separate values, defaults spelled out) has the same results.",
 ["inputs","configurations"],"all command lines x environments",
 "No test runs a command line.",
 ["cmd/root.go","cmd/recon.go","cmd/recover.go","cmd/ls.go","cmd/dump_index.go","cmd/mount.go","cmd/identify.go","cmd/btrfscue/app/util/cliutil.go"],
 [("flags and environment","cmd/root.go init"),("argument checks","cmd/*.go Run functions"),("order of opening inputs and creating outputs","cmd/recon.go doScanFS, cmd/recover.go doRecoverFiles")],
 observe=["exit status, stdout, stderr and files of the commands"])
p("C32","Deleted and overwritten things are recovered while their old leaves exist",
 "A copy-on-write filesystem leaves the leaves of earlier transactions behind. As long as those that held a file, link, directory or subvolume last (and its data) are still on the device, recover, ls and the mounted view show it under each of its names that has not been given away since, in its last state, whatever was deleted, renamed, overwritten or truncated afterwards and wherever the leaves lie. What exists in the end is shown in its current state, without remains of older contents.",
 ["histories","inputs"],"all histories of filesystem operations, transactions and leaf reuse",
 "Tests contain a single generation and no deletion.",
 ["cmd/recon.go","pkg/btrfs/index/index_store.go","cmd/recover.go","cmd/ls.go","internal/rescuefs/nodefs.go"],
 [("all generations are indexed","cmd/recon.go doScanFS, pkg/btrfs/index/key_format.go"),("newest version of each item","pkg/btrfs/index/index_store.go find, findNext"),("extents beyond the file size","cmd/recover.go recoverFile")],
 observe=["recover output, ls output, FUSE replies"])
p("C33","Commands working on one metadata file at once do not disturb each other",
 "Several recon runs started at the same time on one metadata file, new or existing, all succeed and leave the union of what they found; a command that reads the metadata meanwhile sees the complete results of some of them and nothing else. If one of them is killed, the others still complete, and running it again completes the union.",
 ["schedules","crash_points","histories"],"all interleavings of commands x kill times",
 "Tests use an index from one process at a time.",
 ["pkg/btrfs/index/index_store.go","cmd/recon.go"],
 [("file locking and transactions","pkg/btrfs/index/index_store.go openIndex, ensureTx, Commit, Close")],
 observe=["metadata contents, stdout of dump-index, exit status"])
p("C34","Encoded data is never passed off as the contents of a file",
 "btrfscue cannot decode compressed, encrypted or otherwise encoded extents. recover names each file and link that holds such data in a message on stderr, restores the rest of the file at its place and size, creates no link with an encoded target, and restores all other files exactly. In the mounted view, reads that touch encoded data (and reading such a link) fail with an error, all other reads are right. Holes have no data and read as zeros whatever their encoding.",
 ["inputs"],"all filesystems x placements and kinds of encoded extents x reads",
 "Tests hold no encoded extent; which read touches one depends on offset, length and the extents around it.",
 ["cmd/recover.go","internal/rescuefs/files.go","internal/rescuefs/nodefs.go","pkg/btrfs/btrfs.go"],
 [("extents of restored files and links","cmd/recover.go recoverFile, recoverSymlink"),("reads of the view","internal/rescuefs/files.go newExtentFile, Read"),("links of the view","internal/rescuefs/nodefs.go Readlink"),("encoding fields","pkg/btrfs/btrfs.go FileExtentItem")],
 observe=["destination directory and stderr of recover","FUSE READ and READLINK replies"])
p("C35","An interrupted recovery can be completed by running it again",
 "If recover is killed at any moment, or the machine fails and loses the last writes, running it again with --clobber on the same destination gives exactly the tree an undisturbed run gives. Without --clobber it leaves what is there alone and restores everything that is missing, in full. Interrupted or not, and however often, no run changes anything else in or around the destination.",
 ["crash_points","histories"],"all interruption points x sequences of runs x lost writes",
 "Tests run recover once, to its end.",
 ["cmd/recover.go"],
 [("existing files and directories","cmd/recover.go recoverDir, recoverFile, recoverSymlink"),("order of creating, writing and truncating","cmd/recover.go recoverFile")],
 observe=["destination directory and its surroundings after each run"])
p("C36","Filesystems whose remains share a device are kept apart",
 "If blocks of several filesystems lie on one device, mixed in any way, with equal object ids and similar filesystem ids, superblocks of either or none: identify lists the id of each that occurs often enough, and recon with an id of this list, then recover and the mounted view, show exactly what belongs to that filesystem, as if nothing else were on the device. Leaves of others that were lost do not matter.",
 ["inputs"],"all sets of filesystems x placements of their blocks x losses",
 "Tests hold single blocks of one filesystem.",
 ["cmd/recon.go","internal/identify/identify.go","internal/identify/collector.go"],
 [("id filter","cmd/recon.go doScanFS"),("list of ids","internal/identify/collector.go FSIDCollecter")],
 observe=["identify output","metadata file","destination directories","FUSE replies"])
p("C37","Data whose place on the device is unknown is reported, never guessed",
 "If an extent of a file leads to an address that no known chunk has (chunk records were lost, or the address is damaged), recover names the file on stderr, gives it its size and the right bytes elsewhere, with zeros in that range; reads of the mounted view that touch the range fail. All other files and ranges are exact.",
 ["inputs"],"all sets of lost chunk records and of addresses outside the chunks x files",
 "Tests do not read file contents.",
 ["pkg/btrfs/index/index_store.go","cmd/recover.go","internal/rescuefs/files.go"],
 [("range of a chunk","pkg/btrfs/index/index_store.go Physical"),("reading an extent","cmd/recover.go recoverFile, internal/rescuefs/files.go Read")],
 observe=["destination directory","stderr","FUSE replies"])
p("C38","The mounted view stays until it is asked to go, then goes cleanly",
 "The mount command serves the view until it gets an interrupt or terminate signal (CTRL+C), or until someone else unmounts it. In the first case it unmounts its mount point itself; in both it ends with status 0, whatever requests are going on at that moment and however many signals arrive; answers given until then are right. If mounting fails, or unmounting does (the view is in use), it ends with a nonzero status and a message instead. Metadata and image never change.",
 ["schedules","faults"],"all times and numbers of signals x requests of clients x failures to mount or unmount",
 "No test mounts anything.",
 ["cmd/mount.go","internal/rescuefs/rescuefs.go"],
 [("waiting for signals, unmounting","cmd/mount.go doMountRescueFS")],
 observe=["exit status","stderr","calls of fusermount","FUSE replies"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
