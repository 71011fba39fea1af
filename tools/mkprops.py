#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Sector reordering is an exact, reversible permutation",
 "Converting a 143,360-byte image between DOS and ProDOS sector order moves every 256-byte sector, unaltered, to the place in its own track that the published interleave tables give, so converting back restores the original bytes. The direction follows the order options, and failing those the file extensions (in any letter case); a request whose direction is identical or cannot be determined is refused. Images of any other size, and sector orders that are not permutations of 0-15, are refused instead of being partly converted.",
 ["inputs","configurations"],"every image, every pair of order options and file names, every candidate sector order",
 "No existing test calls the reordering command or checks a sector's destination; the tests only read one NakedOS image through one of the tables.",
 ["cmd/reorder.go","disk/open.go","disk/disk.go"],
 [("sector copy through an order table","disk/open.go Swizzle, validateOrder"),("interleave tables","disk/disk.go"),("direction decision","cmd/reorder.go getOrders, disk/open.go OrderFromFilename")],
 observe=["output file of `diskii reorder`","disk.Swizzle result"])
p("C02","Opening and writing back an image preserves every byte",
 "A floppy image opened in either file order for any system shows that system's logical sector order, and writing it back unmodified reproduces the original file byte for byte. A change made to one logical sector changes exactly the corresponding sector of the written file and no other. Images that are not floppy-sized are written back verbatim.",
 ["inputs","configurations","histories"],"every image content, file order (DOS/ProDOS), system order (DOS, ProDOS, raw) and every set of modified sectors",
 "No test writes an image back at all; round trips through two of the six order combinations are never executed.",
 ["disk/open.go","disk/disk.go","disk/marshal.go"],
 [("order composition on open","disk/open.go openDoOrPo, openHDV"),("inverse composition on write","disk/open.go WriteBack")],
 observe=["Operator.GetBytes after open","bytes of the written file"])
p("C03","An image's order and system follow options, extension and content",
 "Explicit order and system options are obeyed; with `auto`, the extension fixes the order (.po, .do; .dsk or none tries DOS order, then ProDOS order) and the first registered system that recognises the content in that order is used. Content is recognised exactly when the system's own volume structures are valid: DOS 3.3's VTOC and catalog chain, NakedOS's sector map, ProDOS's volume directory and subdirectories. Unsupported sizes, extensions and orders, unknown systems and unrecognised content give an error, never another system's reading.",
 ["inputs","configurations"],"every combination of size, file name, order option, system option, registered systems and image content",
 "Tests open one DOS-ordered NakedOS image with an explicit system; auto-detection, ProDOS order, .hdv and rejection are never exercised.",
 ["disk/open.go","dos3/dos3.go","supermon/supermon.go","prodos/prodos.go"],
 [("size/extension dispatch","disk/open.go OpenImage, openHDV, openDoOrPo"),("content recognition","SeemsToMatch in dos3, supermon, prodos; VTOC.Validate; SectorMap.Verify; readVolume")],
 observe=["disk.OpenImage result","`diskii ls` on the image"])
p("C04","A file put on a NakedOS disk reads back intact",
 "After a successful put, getting the file by its number or its name returns exactly the bytes stored, zero-padded to a whole number of 256-byte sectors. This holds immediately, after any later puts and deletes of other files, and after the image is saved in either file order and reopened. Putting an empty file is refused, because a file without sectors could not be read back.",
 ["histories","inputs"],"every sequence of puts, overwrites, deletes, saves and reopenings, every content and every length",
 "TestPutFile stores one 614-byte file on one disk and only checks its catalog name; it never reads the data back, overwrites, fragments or reopens.",
 ["supermon/supermon.go","disk/marshal.go","cmd/put.go","cmd/dump.go"],
 [("sector allocation and data copy","supermon/supermon.go WriteFile, PutFile"),("read by sector map","supermon/supermon.go ReadFile, GetFile"),("sector map persistence","supermon/supermon.go Persist, LoadSectorMap")],
 state=[("sector map","owner of each of the 560 sectors: free, reserved or a file number","track 0 sectors 9-11 of the image"),("sector contents","bytes of each sector","image")],
 observe=["Operator.GetFile","`diskii dump`"])
p("C05","NakedOS operations never disturb other files or system sectors",
 "A put or delete changes only sectors that were free or belonged to the file operated on, the sectors holding the sector map, and, when a name is added or removed, the symbol-table files. Every other file keeps exactly the same sectors and the same bytes. Reserved sectors other than the sector map are never written and never handed to a file.",
 ["histories","inputs"],"every reachable disk state and every operation on it, successful or not",
 "The tests never compare the rest of the image before and after an operation.",
 ["supermon/supermon.go","disk/marshal.go"],
 [("only free sectors are written","supermon/supermon.go WriteFile"),("only the file's own entries are freed","supermon/supermon.go Delete"),("map persisted without touching its neighbours","supermon/supermon.go Persist")],
 state=[("sector map","owner of each sector","image track 0 sectors 9-11")],
 observe=["full image before and after each call"])
p("C06","NakedOS space is conserved and fully usable",
 "A stored file of n bytes owns exactly ceil(n/256) sectors, deleting it frees exactly those, and free space shrinks and grows by nothing else. A put succeeds whenever the free sectors plus those of the file it replaces suffice, and otherwise fails with an out-of-space error that leaves the image unchanged. A put by new name takes the lowest unused file number and fails, changing nothing, when all 253 are used.",
 ["histories","inputs"],"every history, including exactly full, nearly full and fragmented disks, and every length",
 "One put on a mostly empty disk; no test reaches a full disk, a fragmented disk or an exhausted file-number space.",
 ["supermon/supermon.go"],
 [("space check before any write","supermon/supermon.go WriteFile"),("free count","supermon/supermon.go FreeSectors"),("file-number choice","supermon/supermon.go FirstFreeFile")],
 state=[("sector map","owner of each sector","image track 0 sectors 9-11")],
 observe=["Operator.Catalog sector counts","sector map before and after"])
p("C07","NakedOS put never replaces a file without permission",
 "Putting onto an existing file without the overwrite option fails with a file-exists error and leaves the whole image unchanged; with it, the new contents completely replace the old. The result truthfully reports whether the file existed before. A put with an unsupported file type, a length that disagrees with the data, or an unusable name fails and leaves the image unchanged.",
 ["histories","inputs"],"every disk state, target name form (number, name, number:name), overwrite flag, type and length",
 "TestPutFile creates one new file; overwriting, refusal and its side effects are never tested.",
 ["supermon/supermon.go","cmd/put.go","errors/errors.go"],
 [("existence check","supermon/supermon.go WriteFile"),("argument checks before any change","supermon/supermon.go PutFile"),("typed errors","errors/errors.go")],
 observe=["Operator.PutFile result and image","`diskii put` exit status and image file"])
p("C08","NakedOS file names resolve consistently",
 "A name given at put resolves, in any letter case, to that file in later gets, puts and deletes, and the catalog shows it with the file's number, both in the same session and after saving and reopening. Reusing a name for another file number moves the name, and deleting a file by name removes the name. A name that cannot be stored exactly (not 3-9 letters and digits, too long when packed, looking like a file number, or with extra colons) is refused instead of being altered.",
 ["histories","inputs"],"every name string, letter case, name form and history of puts, deletes and reopenings",
 "Tests encode a handful of symbol names and look up one name created by another program; moves, deletes, case, invalid characters and reopening are untested.",
 ["supermon/supermon.go","cmd/delete.go"],
 [("name parsing","supermon/supermon.go FilesForCompoundName, FileForName, ParseCompoundSymbol"),("name packing","supermon/supermon.go encodeSymbol, decodeSymbol"),("symbol update","supermon/supermon.go AddSymbol, DeleteSymbol")],
 state=[("symbol table","819 slots of name, address, link","files 3 and 4 of the image")],
 observe=["Operator.Catalog, GetFile, Delete, PutFile","`diskii ls`"])
p("C09","The Super-Mon symbol table stays valid through any history",
 "After any sequence of named puts, deletes and symbol additions or removals on a disk with a valid symbol table, the table on disk can be read back and holds exactly the symbols that history implies, with every unrelated symbol's name and address untouched. Every link joins two live symbols of the same hash class, no symbol is linked from two others, and links never form a cycle; a new symbol is linked into its class, and symbols that were chained together stay chained together. When the table is full, adding a name fails and leaves the table and the image unchanged.",
 ["histories","inputs"],"every history of symbol operations, including colliding hashes, slot reuse, first and last slots and a full table",
 "Tests rewrite one unmodified table; no test adds, moves or deletes a symbol inside a hash chain.",
 ["supermon/supermon.go"],
 [("chain maintenance","supermon/supermon.go AddSymbol, DeleteSymbol"),("table serialisation and validation","supermon/supermon.go WriteSymbolTable, ReadSymbolTable, addrHash")],
 state=[("symbol table","819 slots of name, address, link","files 3 and 4 of the image")],
 observe=["SymbolTable in memory and as re-read from the image"])
p("C10","The DOS 3.3 catalog lists exactly the live files",
 "Listing a DOS 3.3 disk shows every live catalog entry once, in catalog order across the whole chain of catalog sectors, with its name (stored with high bits set, which are removed along with trailing blanks), type, lock state and sector count. Deleted and never-used entries are not listed as files, and deleted entries are reported separately under their remaining name.",
 ["inputs"],"every catalog: any chain of sectors, any mixture of live, deleted and unused entries, any names, types and lock flags",
 "TestReadCatalog reads one disk and compares only names; types, lock flags and sizes are a TODO in the test.",
 ["dos3/dos3.go","cmd/catalog.go"],
 [("chain walk","dos3/dos3.go readCatalogSectors, ReadCatalog"),("entry decoding","dos3/dos3.go FileDesc.FromBytes, Status, FilenameString, descriptor")],
 observe=["Operator.Catalog","dos3.ReadCatalog","`diskii ls`"])
p("C11","DOS 3.3 files read back exactly",
 "Getting a DOS 3.3 file returns the data its track/sector lists name, in order, with unallocated sectors read as zeros: text files end at their last non-zero byte, and BASIC and binary files yield exactly the bytes their stored length covers, plus the load address. A name that is not in the catalog, an unsupported type, a list that revisits a sector or names one outside the disk, and a stored length larger than the stored data give an error.",
 ["inputs"],"every file layout: any number of list sectors, sparse entries, lengths, types and names",
 "No test reads the contents of any DOS 3.3 file.",
 ["dos3/dos3.go","cmd/dump.go"],
 [("track/sector list walk","dos3/dos3.go FileDesc.Contents"),("type-specific framing","dos3/dos3.go GetFile"),("name lookup","dos3/dos3.go fileForFilename")],
 observe=["Operator.GetFile","`diskii dump`"])
p("C12","ProDOS catalogs list exactly the entries of the named directory",
 "Listing a ProDOS volume, or a subdirectory given by its full path, shows every active entry of that directory once, in directory order across all of its blocks, with its name, type, block count and length. Deleted entries, headers and entries of other directories are not shown. A path that does not exist is an error.",
 ["inputs"],"every directory tree: depth, number of blocks per directory, deleted entries, entry fields, and parent pointers to the key block or to the block holding the entry",
 "The ProDOS tests only round-trip random blocks; no test lists a directory.",
 ["prodos/prodos.go","disk/marshal.go","cmd/catalog.go"],
 [("directory walk","prodos/prodos.go readVolume, readSubdirectory"),("path construction","prodos/prodos.go parentDirName"),("entry decoding","prodos/prodos.go FileDescriptor.fromBytes, descriptor, Name")],
 observe=["Operator.Catalog","`diskii ls IMAGE DIRECTORY`"])
p("C13","Damaged images give errors or listings, never crashes or hangs",
 "For every image content of every accepted size, opening it, listing it and reading any file from it returns a result or an error in bounded time and memory, without a panic. In particular circular or self-referencing catalog, track/sector-list, directory, subdirectory and parent pointers, out-of-range pointers, and impossible lengths are handled.",
 ["inputs","fault_sequences"],"every byte content of an image, in particular every pointer graph over catalog, list and directory sectors",
 "Tests only read well-formed images.",
 ["dos3/dos3.go","prodos/prodos.go","supermon/supermon.go","disk/open.go"],
 [("visited sets and bounds checks in every chain walk","dos3/dos3.go readCatalogSectors, Contents; prodos/prodos.go readVolume, readSubdirectory, parentDirName"),("length checks","dos3/dos3.go GetFile"),("table validation","supermon/supermon.go ReadSymbolTable")],
 observe=["return of OpenImage, Catalog, GetFile within a time limit"])
p("C14","On-disk structures parse and serialise losslessly at documented offsets",
 "Parsing any 256-byte DOS 3.3 VTOC, catalog or track/sector-list sector, or any 512-byte ProDOS directory block, and serialising it again reproduces every byte, and every field is taken from and stored at its documented offset and width. A structure loaded from a sector or block and written back changes nothing outside that sector or block, and lands at the place it was loaded from.",
 ["inputs"],"every byte value at every offset of every structure, and every location on the device",
 "The round-trip tests use random blocks and compare structs with each other: two fields swapped in both directions, or a field at a wrong offset, pass.",
 ["dos3/dos3.go","prodos/prodos.go","disk/marshal.go"],
 [("marshalling code","ToSector/FromSector, ToBlock/FromBlock, toBytes/fromBytes"),("placement","disk/marshal.go Marshal*/Unmarshal*")],
 observe=["exported fields after parsing","bytes after serialising"])
p("C15","Commands change only their target file, only on success and with permission",
 "Commands that inspect (ls, dump, filetypes, applesoft decode) never change any file, and a command that fails exits non-zero and leaves every file as it was. `reorder` never replaces an existing output file without the force option, and on success writes only the file it was told to write. `put`, `rm` and `nakedos mkhello` rewrite only the named image, in the sector order it was stored in, with the effect of the operation on its contents. (Failures of the host's own file system while the result is being written are not covered.)",
 ["histories","configurations","inputs"],"every command line (options, present or missing files, image kinds, `-` for standard input or output) and every sequence of commands on a directory of files",
 "The only command-level test runs `cat` and cannot even be compiled here.",
 ["cmd/put.go","cmd/delete.go","cmd/reorder.go","cmd/dump.go","cmd/catalog.go","cmd/sd.go","cmd/nakedos.go","helpers/helpers.go","main.go","disk/open.go"],
 [("write only after success","Run methods in cmd/"),("overwrite guard","helpers/helpers.go WriteOutput"),("write-back in the original order","disk/open.go WriteBack")],
 state=[("host files","names and contents of the files in the working directory","file system")],
 observe=["exit status, standard output and directory contents"])
p("C16","Applesoft listings show the program's lines exactly",
 "Decoding a tokenised Applesoft program, with or without its length header and for any load location, lists every line reached by its next-line links, in order, with its number, its literal characters unchanged and each token as its Applesoft keyword; the non-raw listing shows control characters other than tab and newline as visible codes and nothing else differently. Input that is truncated, has an unknown token, a link outside the program or a circular link gives an error. Decoding never panics and always ends.",
 ["inputs"],"every byte string and load location",
 "TestParse decodes one well-formed 262-byte program.",
 ["basic/applesoft/applesoft.go","basic/basic.go","cmd/applesoft.go"],
 [("line walk with bounds checks","basic/applesoft/applesoft.go Decode"),("token table","basic/applesoft/applesoft.go TokensByCode"),("escaping","basic/basic.go ChevronControlCodes")],
 observe=["applesoft.Decode and Listing.String","`diskii applesoft decode` output"])
p("C17","Integer BASIC decoding preserves lines and rejects malformed input",
 "Decoding a tokenised Integer BASIC program, with or without its length header, yields its lines in order with their numbers and exact token bytes, and listing a line shows tokens as keywords, integer constants in decimal and text, including digits inside strings and remarks, literally; in text shown with visible control codes, control characters other than tab and newline appear as those codes and nothing else differs. A line that is shorter than its frame, runs past the input or lacks its terminator gives an error. Decoding and listing never panic.",
 ["inputs"],"every byte string",
 "The package's only test is skipped.",
 ["basic/integer/integer.go"],
 [("line framing checks","basic/integer/integer.go Decode"),("line rendering","basic/integer/integer.go Line.String")],
 observe=["integer.Decode, Line.String, ChevronControlCodes"])
p("C18","Standard Delivery images load the given binary at the given address",
 "For every accepted binary, load address and start address, the created image boots a loader whose page list and sector sequence place each 256-byte page of the (zero-padded) binary at its address and then jump to the start address; the rest of the disk is empty and the file is stored in the requested or extension-implied sector order. A load address off a page boundary, a start address outside the binary, a binary that would extend past $BFFF, or one too long for the page list is refused and nothing is written; everything else is accepted. Where the binary covers pages that the start-up itself works in ($00-$03 and $08) only the page list and the sectors are promised, not that loading survives it.",
 ["inputs","configurations"],"every binary length and content, load and start address and output order",
 "No test runs this command.",
 ["cmd/sd.go","disk/open.go","disk/disk.go"],
 [("argument checks","cmd/sd.go Run"),("sector sequence and page list","cmd/sd.go Run"),("final reordering","disk/open.go Swizzle")],
 observe=["image file written by `diskii mksd`"])
p("C19","mkhello installs a loader for exactly the requested file",
 "On a NakedOS disk, the command stores in file 1, named FHELLO, a program that loads the requested file (given by number, name or number:name) at the requested page-aligned address and jumps to the requested start, defaulting to the load address; every other file is untouched. An unaligned load address, a start below it, a file name that cannot be resolved or a disk of another system is refused and the image is unchanged.",
 ["inputs","configurations","histories"],"every file reference, address pair, disk state and file order",
 "No test runs this command.",
 ["cmd/nakedos.go","supermon/supermon.go"],
 [("argument checks and program bytes","cmd/nakedos.go Run"),("file resolution","supermon/supermon.go FilesForCompoundName")],
 observe=["image file after `diskii nakedos mkhello`"])
p("C20","File type names resolve to the types they are listed for",
 "Every name, three-letter and one-letter abbreviation shown by the file-type listing resolves to the type it is listed for, or, for an abbreviation shared by several types, to the first of them; names are unique and any other string, including the empty one, is rejected. The codes $00-$FF (except $F9, which is not listed) carry their published ProDOS/SOS meaning and abbreviation, and the short listing is the full one without the reserved, user-defined and SOS-only entries.",
 ["inputs","configurations"],"every name string and every type code",
 "No test touches the file-type tables.",
 ["types/filetype.go","cmd/filetypes.go"],
 [("name tables","types/filetype.go"),("lookup","types/filetype.go FiletypeForName, FiletypeInfos, String")],
 observe=["types.FiletypeForName, FiletypeInfos, String","`diskii filetypes`"])
p("C21","Free-space maps and index blocks answer for each unit independently",
 "In a ProDOS volume bitmap of any size, marking a block used or free changes the answer for that block only, all blocks start free, and the stored form is one bit per block, most significant bit first, in consecutive device blocks from the given start. An index block returns for each slot the block number last set there, stored low byte in the first half and high byte in the second, other slots unchanged. A DOS 3.3 free-sector map reports exactly the sectors whose bit is set, and none above 15.",
 ["inputs","histories"],"every map size up to 65,535 blocks, every sequence of marks and sets, every bit pattern",
 "No test touches bitmaps, index blocks or the free-sector map.",
 ["prodos/prodos.go","dos3/dos3.go"],
 [("bit arithmetic","prodos/prodos.go mark, IsFree, NewVolumeBitMap, Write"),("index block access","prodos/prodos.go IndexBlock.Get, Set"),("track bitmap","dos3/dos3.go TrackFreeSectors.IsFree, DefaultVTOC")],
 observe=["IsFree, Get and the written blocks"])
p("C22","Sector and block access is exact and bounds-checked",
 "Reading a sector or block returns exactly its 256 or 512 bytes and later changes to either copy do not affect the other; writing replaces exactly those bytes and no others. A track, sector or block that does not exist on the image, or data of the wrong length, is refused with an error and the image is left unchanged.",
 ["inputs"],"every track, sector and block number and every image size",
 "The helpers have no tests; other tests reach only existing sectors of one image size.",
 ["disk/marshal.go"],
 [("offset arithmetic and bounds checks","disk/marshal.go ReadSector, WriteSector, UnmarshalBlock, MarshalBlock")],
 observe=["returned data, error and image bytes"])
p("C23","Reading leaves an image alone and answers from its contents only",
 "Listing a directory or getting a file, whether it succeeds or fails, never changes the image, and the answer depends on the image's contents alone: asking again, after any other questions, refused changes, or changes by the caller to earlier answers, gives the same answer, and so does a fresh opening of the same contents (in particular after puts and deletes on a NakedOS disk, other than of the symbol-table files themselves). A put or delete that returns an error leaves the image as it was; on DOS 3.3 and ProDOS images, which cannot be written, every put and delete is refused.",
 ["histories","inputs"],"every image and every sequence of listings, reads, refused and successful changes in one session",
 "Tests ask one question of one image; none asks twice, after a failure, or after touching an answer.",
 ["dos3/dos3.go","prodos/prodos.go","supermon/supermon.go","disk/marshal.go","types/ops.go"],
 [("reading from the image","GetFile and Catalog of the three systems"),("cached sector map and symbol table","supermon/supermon.go Operator"),("refused writes","Delete and PutFile of dos3 and prodos")],
 state=[("session","the image held in memory and what has been derived from it","Operator of each system")],
 observe=["Catalog, GetFile, PutFile, Delete, GetBytes"])
p("C24","The listing and dump commands print exactly what is on the image",
 "`ls` prints the names of the entries its system lists, each on a line of its own, in catalog order: the full name where the system has one, unless short names are asked for. `dump` prints exactly the bytes of the file. Nothing else appears on standard output, whatever alias, option order, debugging level or way of giving the image (a file, or `-` for standard input, which counts as having no extension) is used. If the image cannot be opened, the file or directory does not exist, or a directory is named for a system without subdirectories, the command prints nothing on standard output, gives a message on standard error and exits with a failure.",
 ["inputs","configurations"],"every image and every combination of command, alias, options, target and source of the image",
 "The only command-level test runs `cat` on one image and cannot even be compiled here.",
 ["cmd/catalog.go","cmd/dump.go","main.go","disk/open.go","helpers/helpers.go"],
 [("printing after reading","cmd/catalog.go Run, cmd/dump.go Run"),("aliases and global options","main.go"),("standard input","disk/open.go OpenFilename, OpenFile")],
 observe=["exit status, standard output and standard error of `diskii ls` and `diskii dump`"])
p("C25","Addresses on the command line are the numbers they spell",
 "A text given for an address option (`--address`, `--start`, `--location`) stands for the number it spells: decimal digits, or hexadecimal, octal or binary digits after 0x, 0o or 0b in either case, from 0 to 65535. Any other text (empty, signs, blanks, other characters, digits not of the base, a prefix without digits, a number above 65535, however large) is refused with an error and nothing is written. (Decimal digits after a leading zero and underscores between digits are left open.)",
 ["inputs","configurations"],"every text and every option that takes an address",
 "No test runs these commands.",
 ["main.go","cmd/nakedos.go","cmd/sd.go","cmd/put.go","cmd/applesoft.go"],
 [("parsing numbers","main.go hexUint16Mapper.Decode"),("option types","kong tags in cmd/")],
 observe=["exit status and files written by `diskii nakedos mkhello`, `mksd`, `put` and `applesoft decode`"])
p("C26","Validation complains exactly about what the formats forbid",
 "Validating a ProDOS directory block gives no errors if it is as ProDOS writes it, and at least one error for each field that holds what it must not: a previous-block pointer in a first block, a last byte other than 0, a byte after a subdirectory's name other than $75, and times (of the header and of each active entry: creation and modification; third byte minutes, fourth byte hours) with a minute above 59 or an hour above 23. A DOS 3.3 VTOC validates exactly if it describes a 35-track disk of 13 or 16 sectors of 256 bytes as DOS 3.3 requires; a new default VTOC does, with every sector of the 35 tracks free. (Dates, and the times of entries not in use, are left open.)",
 ["inputs"],"every byte of every directory block and VTOC",
 "No test calls the validation.",
 ["prodos/prodos.go","dos3/dos3.go"],
 [("directory blocks","prodos: Validate of VolumeDirectoryKeyBlock, VolumeDirectoryBlock, SubdirectoryKeyBlock, SubdirectoryBlock, headers, FileDescriptor, DateTime"),("VTOC","dos3 VTOC.Validate, DefaultVTOC")],
 observe=["the errors returned by the exported Validate methods after FromBlock/FromSector of the bytes"])
p("C27","Symbol tables and sector maps are read and searched exactly",
 "Reading the Super-Mon symbol table of a NakedOS image gives exactly the address, name and link of each of its 819 slots, and is refused exactly if a link is not the place of a slot, leads to the symbol itself or joins symbols of different hash classes, or the two files are not of the right size; writing it to an image and reading it back gives the same table and changes nothing else. Symbols are found by address (all of them, in slot order) and by name (the first of that name, in any letter case; 0 if there is none). An address XXXX, NAME or XXXX:NAME means the named symbol if there is one, else the hexadecimal number up to $FFFF, else a new name if it can be stored, and is refused otherwise; a file DFxx, NAME or DFxx:NAME likewise, and a file name that is not found gives a not-found error and no other kind. The sector map gives for each file exactly the sectors with its number in disk order, the number of free sectors, the lowest unused file number from 1 to $FD (0 if none) and the owner of each sector (none for sectors that do not exist); it is accepted exactly if the first twelve sectors of track 0 are reserved and no sector is owned by file 0; changing or saving it changes exactly what was asked. (Links to empty slots, empty names and symbols at address 0 are left open.)",
 ["inputs"],"every symbol table, sector map, address and text",
 "Tests look at one disk and a handful of its symbols.",
 ["supermon/supermon.go","errors/errors.go"],
 [("reading and writing tables","supermon/supermon.go ReadSymbolTable, WriteSymbolTable"),("searching","supermon/supermon.go SymbolsByAddress, SymbolsForAddress, ByName, FileForName, NameForFile, FullnameForFile"),("parsing","supermon/supermon.go ParseCompoundSymbol, FilesForCompoundName"),("sector map","supermon/supermon.go SectorMap methods"),("error classes","errors/errors.go")],
 state=[("symbol table","819 slots of name, address, link","files 3 and 4 of the image"),("sector map","owner of each of 560 sectors","track 0, sectors 9 to B")],
 observe=["results of the exported methods of SymbolTable and SectorMap","image bytes"])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(d+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
