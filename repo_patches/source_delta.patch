From 9e2b2606d094927b19c8b4d5c0b195cf8ef8c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:05 +0000
Subject: [PATCH 01/23] fix: detect circular DOS 3.3 catalog chains

readCatalogSectors checked a visited set that was never filled, so a
catalog sector linking back to an earlier one looped forever.
---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From d830f19f919df7985001e845ec1ca9e735975720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 02/23] fix: DOS 3.3 GetFile: no panic on empty files or
 impossible lengths

An all-zero text file indexed data[-1]; a BASIC or binary file whose
stored length exceeds its data sliced past the end (or returned bytes
that are not in the file); a track/sector list without any entry was
read as 122 sectors of zeros.
---
 dos3/dos3.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..ed7ceb3 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
@@ -623,7 +624,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -637,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to contain a start address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to contain a length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q has stored length %d, but only %d bytes of data", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From de957c0f9243024c0d80f4194d0523959f75670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 03/23] fix: detect circular ProDOS directory chains and
 subdirectories

A directory block whose next pointer leads back to an earlier block, or
a subdirectory containing itself or an ancestor, made reading the volume
loop until memory ran out.
---
 prodos/prodos.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..39dd353 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -692,7 +692,12 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// 	fmt.Fprintf(os.Stderr, "volume bitmap: %#v\n", v.bitmap)
 	// }
 
+	seen := map[uint16]bool{keyBlock: true}
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if seen[block] {
+			return v, fmt.Errorf("volume directory tries to read block %d twice", block)
+		}
+		seen[block] = true
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,6 +719,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
+		if v.subdirsByBlock[sdd.KeyPointer] != nil {
+			continue // Already read: don't loop on circular subdirectories.
+		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
 			return v, err
@@ -821,7 +829,12 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
+	seen := map[uint16]bool{fd.KeyPointer: true}
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From 32539d6ed233e755d8b8a23fb68b1a3a95a2eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 04/23] fix: detect circular ProDOS parent pointers

Two subdirectories naming each other as parent overflowed the stack.
---
 prodos/prodos.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 39dd353..bf0ef1c 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -747,7 +747,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, len(v.subdirsByBlock))
 		if err != nil {
 			return v, err
 		}
@@ -791,11 +791,15 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
-// parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+// parentDirName returns the full recursive directory name of the given parent directory,
+// following at most maxDepth parent pointers.
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, maxDepth int) (string, error) {
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
+	if maxDepth <= 0 {
+		return "", fmt.Errorf("circular parent pointers at subdirectory block %d", parentDirectoryBlock)
+	}
 	sd := subdirMap[parentDirectoryBlock]
 	if sd == nil {
 		parentFirstBlock, ok := firstSubdirBlockMap[parentDirectoryBlock]
@@ -807,7 +811,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, maxDepth-1)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 6802fc52281c81b212a950fec7cbea729fc27a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 05/23] fix: volume bitmaps of more than 61440 blocks

The rounded-up size overflowed uint16, leaving a bitmap without parts
and a panic on the first mark.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index bf0ef1c..3e4083c 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From ef9356a28e2d099f29e8340c64c0ac625b4128dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 06/23] fix: IndexBlock.Set had no effect

The value receiver modified a copy of the array.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 3e4083c..12a2af3 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From 9eced3bb091fb3122e30f2dcbc375d22cce6f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:25 +0000
Subject: [PATCH 07/23] fix: NakedOS put of an empty file panicked

WriteFile sliced past the end of the (empty) contents. A NakedOS file
consists of the sectors it owns, so an empty one cannot be stored:
refuse it before changing anything.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..4368f63 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -193,6 +193,9 @@ func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, over
 	copy(cts, contents)
 	existing := len(sm.SectorsForFile(file))
 	existed := existing > 0
+	if sectorsNeeded == 0 {
+		return existed, fmt.Errorf("cannot write file %d: contents are empty", file)
+	}
 	free := sm.FreeSectors() + existing
 	if free < sectorsNeeded {
 		return existed, errors.OutOfSpacef("file %d requires %d sectors, but only %d are available", file, sectorsNeeded, free)
-- 
2.43.0


From 579ececddf33e02497d69f9ee3eeef1ac39aa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:26 +0000
Subject: [PATCH 08/23] fix: refuse Super-Mon symbol names with other than
 letters and digits

encodeSymbol silently dropped such characters, so "A-B-C" was stored as
"ABC" and never found again under the name it was given.
---
 supermon/supermon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 4368f63..f346a2d 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -298,6 +298,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: contains characters other than letters and digits", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 8ab69c9080cc82e262b1bfee35b334354bfcdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:26 +0000
Subject: [PATCH 09/23] fix: empty Super-Mon symbol table slots must not take
 part in links

DeleteSymbol relinked an empty slot (whose stale Link happened to match)
instead of the real predecessor, leaving a live symbol linked to an empty
slot; AddSymbol took a just-deleted slot for the tail of the chain of
hash 0, linking the new symbol to itself. Either made the table on disk
unreadable.
---
 supermon/supermon.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f346a2d..bbdbbbf 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -454,10 +454,8 @@ func (st SymbolTable) ByName(name string) uint16 {
 func (st SymbolTable) DeleteSymbol(name string) bool {
 	for i, sym := range st {
 		if strings.EqualFold(name, sym.Name) {
-			sym.Name = ""
-			sym.Address = 0
 			for j := range st {
-				if i == j {
+				if i == j || st[j].Address == 0 {
 					continue
 				}
 				if st[j].Link == i {
@@ -465,7 +463,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 					break
 				}
 			}
-			st[i] = sym
+			st[i] = Symbol{}
 			return true
 		}
 	}
@@ -499,7 +497,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 26cf1e00b99199580be262f8a779a290dbe25933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 10/23] fix: ParseCompoundSymbol accepted invalid symbol names
 and refused valid ones

---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index bbdbbbf..f5227bd 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -582,8 +582,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From 02d0c76ae026c716ebc337e477c5b22af55ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 11/23] fix: deleting an unknown NakedOS file name is not an
 error

Delete is documented to return false if the file did not exist; for
unknown symbolic names it failed instead, and so did "rm" with
--missing-ok.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f5227bd..d11ae1f 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -724,6 +724,9 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 // deleted, false if it didn't exist.
 func (o Operator) Delete(filename string) (bool, error) {
 	file, err := o.ST.FileForName(filename)
+	if errors.IsFileNotFound(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From aeb00df49d3fcc5b1fc19feb05e65a22306bb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:28 +0000
Subject: [PATCH 12/23] fix: NakedOS put left a nameless file when the symbol
 table was full

Add the symbol to a copy of the table first, so that a full table is
reported before anything has been written.
---
 supermon/supermon.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index d11ae1f..30f62fb 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -775,14 +775,19 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 			return false, fmt.Errorf("all files already used")
 		}
 	}
+	newST := append(SymbolTable(nil), o.ST...)
+	if namedFile != numFile && symbol != "" {
+		// Check that the symbol fits before writing the file.
+		if err := newST.AddSymbol(symbol, 0xDF00+uint16(numFile)); err != nil {
+			return false, err
+		}
+	}
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
 	if err != nil {
 		return existed, err
 	}
 	if namedFile != numFile && symbol != "" {
-		if err := o.ST.AddSymbol(symbol, 0xDF00+uint16(numFile)); err != nil {
-			return existed, err
-		}
+		copy(o.ST, newST)
 		if err := o.SM.WriteSymbolTable(o.data, o.ST); err != nil {
 			return existed, err
 		}
-- 
2.43.0


From d03953d18ad4ef0a7da1c66967051baa0aad0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 13/23] fix: Applesoft decode: link just below the program, and
 circular links

A link to the byte just before the program passed the bounds check and
panicked; a link back to an earlier line made Decode loop until memory
ran out.
---
 basic/applesoft/applesoft.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..42525e3 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,9 +149,14 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
+	seen := map[int]bool{}
 	for next != 0 {
+		if seen[next] {
+			return nil, fmt.Errorf("line %d has next line at $%X, which has already been listed", last, next)
+		}
+		seen[next] = true
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
-- 
2.43.0


From ddbc9a8ed7b5e02386db3c3d7187ff4e5e5c7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 14/23] fix: wrong keywords in the Applesoft token table

$CC is the power operator, $C0 includes its parenthesis like SPC( does,
and $B8 is DEF alone: FN has its own token, so DEF FN listed as DEF FN FN.
---
 basic/applesoft/applesoft.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 42525e3..727d42b 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -67,7 +67,7 @@ var TokensByCode = map[byte]string{
 	0xB5: "WAIT",
 	0xB6: "LOAD",
 	0xB7: "SAVE",
-	0xB8: "DEF FN",
+	0xB8: "DEF",
 	0xB9: "POKE",
 	0xBA: "PRINT",
 	0xBB: "CONT",
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
@@ -87,7 +87,7 @@ var TokensByCode = map[byte]string{
 	0xC9: "-",
 	0xCA: "*",
 	0xCB: "/",
-	0xCC: ";",
+	0xCC: "^",
 	0xCD: "AND",
 	0xCE: "OR",
 	0xCF: ">",
-- 
2.43.0


From 318493ba492ed5d0fe2df153831a2305058d278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:59 +0000
Subject: [PATCH 15/23] fix: Integer BASIC decode panicked on lines of fewer
 than four bytes

---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..0b596bf 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has an impossible size of %d bytes", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 1e93a7f19a276ccc11f9e980570026ae5df14faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:59 +0000
Subject: [PATCH 16/23] fix: Integer BASIC listing: digits inside strings are
 text

A digit at the start of a string or after a space was taken for the
marker of an integer constant, swallowing the next two characters.
---
 basic/integer/integer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index 0b596bf..834cbea 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -214,11 +214,12 @@ func isalnum(b byte) bool {
 func (l Line) String() string {
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "%5d ", l.Num)
-	var lastAN bool
+	var lastAN, inQuote bool
 	for i := 0; i < len(l.Bytes); i++ {
 		ch := l.Bytes[i]
 		if ch < 0x80 {
 			lastAN = false
+			inQuote = ch == 0x28
 			token := TokensByCode[ch]
 			buf.WriteString(token)
 			if len(token) > 1 {
@@ -232,7 +233,7 @@ func (l Line) String() string {
 			}
 		} else {
 			ch -= 0x80
-			if !lastAN && ch >= '0' && ch <= '9' {
+			if !inQuote && !lastAN && ch >= '0' && ch <= '9' {
 				if len(l.Bytes) < i+3 {
 					buf.WriteByte('?')
 				} else {
-- 
2.43.0


From dd2317732a5c51749605967ff2b7485d5a1a9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:59 +0000
Subject: [PATCH 17/23] fix: mksd refused binaries by their start address
 instead of their load address

---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From 16f3ea00c4bfb5791463f80c1853d03d49a82ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 18/23] fix: sectors above 15 read and wrote the following
 tracks

---
 disk/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/disk/marshal.go b/disk/marshal.go
index e477115..8720288 100644
--- a/disk/marshal.go
+++ b/disk/marshal.go
@@ -50,7 +50,7 @@ func UnmarshalLogicalSector(diskbytes []byte, ss SectorSink, track, sector byte)
 func ReadSector(diskbytes []byte, track, sector byte) ([]byte, error) {
 	start := int(track)*FloppyTrackBytes + int(sector)*256
 	end := start + 256
-	if len(diskbytes) < end {
+	if sector >= FloppySectors || len(diskbytes) < end {
 		return nil, fmt.Errorf("cannot read track %d/sector %d (bytes %d-%d) from disk of length %d", track, sector, start, end, len(diskbytes))
 	}
 	bytes := make([]byte, 256)
@@ -77,7 +77,7 @@ func WriteSector(diskbytes []byte, track, sector byte, data []byte) error {
 	}
 	start := int(track)*FloppyTrackBytes + int(sector)*256
 	end := start + 256
-	if len(diskbytes) < end {
+	if sector >= FloppySectors || len(diskbytes) < end {
 		return fmt.Errorf("cannot write track %d/sector %d (bytes %d-%d) to disk of length %d", track, sector, start, end, len(diskbytes))
 	}
 	copy(diskbytes[start:end], data)
-- 
2.43.0


From b3cace9cb06e519895b1c4d7f2c1a882a2026480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:01 +0000
Subject: [PATCH 19/23] fix: the empty filetype name resolved to Typeless

---
 types/filetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..0cd7655 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -180,6 +180,9 @@ func (f Filetype) String() string {
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
 	for _, info := range filetypeInfos {
+		if name == "" {
+			break
+		}
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
 		}
-- 
2.43.0


From 7028689d586a65938281a82380f8e09c96ad91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:42 +0000
Subject: [PATCH 20/23] fix: very deeply nested ProDOS subdirectories took
 cubic time to read

---
 prodos/prodos.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 12a2af3..814081e 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -747,7 +747,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, len(v.subdirsByBlock))
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, maxDirectoryDepth)
 		if err != nil {
 			return v, err
 		}
@@ -791,6 +791,11 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
+// maxDirectoryDepth is how deeply subdirectories may be nested. A ProDOS
+// pathname, prefix included, has at most 128 characters, and each level takes
+// at least two of them.
+const maxDirectoryDepth = 64
+
 // parentDirName returns the full recursive directory name of the given parent directory,
 // following at most maxDepth parent pointers.
 func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, maxDepth int) (string, error) {
@@ -798,7 +803,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", nil
 	}
 	if maxDepth <= 0 {
-		return "", fmt.Errorf("circular parent pointers at subdirectory block %d", parentDirectoryBlock)
+		return "", fmt.Errorf("circular parent pointers or too deep nesting at subdirectory block %d", parentDirectoryBlock)
 	}
 	sd := subdirMap[parentDirectoryBlock]
 	if sd == nil {
-- 
2.43.0


From 3f40db9885b4d433e6a7711ebf1f498442c38ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:10 +0000
Subject: [PATCH 21/23] fix: ProDOS directories sharing blocks took quadratic
 time and memory to read

---
 prodos/prodos.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 814081e..0fdf3d0 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -722,7 +722,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if v.subdirsByBlock[sdd.KeyPointer] != nil {
 			continue // Already read: don't loop on circular subdirectories.
 		}
-		sub, err := readSubdirectory(devicebytes, sdd)
+		sub, err := readSubdirectory(devicebytes, sdd, seen)
 		if err != nil {
 			return v, err
 		}
@@ -828,8 +828,8 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 }
 
 // readSubdirectory reads a single subdirectory from a device into
-// memory.
-func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, error) {
+// memory. The blocks of all directories read so far are in seen.
+func readSubdirectory(devicebytes []byte, fd FileDescriptor, seen map[uint16]bool) (Subdirectory, error) {
 	s := Subdirectory{
 		keyBlock: &SubdirectoryKeyBlock{},
 	}
@@ -838,10 +838,13 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
-	seen := map[uint16]bool{fd.KeyPointer: true}
+	if seen[fd.KeyPointer] {
+		return s, fmt.Errorf("subdirectory %q starts at block %d, which is part of another directory", fd.Name(), fd.KeyPointer)
+	}
+	seen[fd.KeyPointer] = true
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
 		if seen[block] {
-			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+			return s, fmt.Errorf("subdirectory %q tries to read block %d, which has been read already", fd.Name(), block)
 		}
 		seen[block] = true
 		sdb := SubdirectoryBlock{}
-- 
2.43.0


From 3919faebe0a3b9bf88fbc3ba827ceda4e66daac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:02 +0000
Subject: [PATCH 22/23] fix: an Applesoft program at location 0 was listed as
 empty

The walk started only if the load location was not 0, so any program decoded
with --location 0 gave an empty listing and no error.
---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 727d42b..8e5341c 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -150,7 +150,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	last := 0 // last line number
 	next := int(location)
 	seen := map[int]bool{}
-	for next != 0 {
+	for {
 		if seen[next] {
 			return nil, fmt.Errorf("line %d has next line at $%X, which has already been listed", last, next)
 		}
-- 
2.43.0


From 73eb056225d6c7e6f3ef51befd89c0dc146225ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:29 +0000
Subject: [PATCH 23/23] fix: ProDOS times hold the minute before the hour when
 validated

---
 prodos/prodos.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 0fdf3d0..c95bbe1 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -154,11 +154,12 @@ func (dt *DateTime) fromBytes(b []byte) {
 
 // Validate checks a DateTime for problems, returning a slice of errors.
 func (dt DateTime) Validate(fieldDescription string) (errors []error) {
-	if dt.HM[0] >= 24 {
-		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
+	// The minute is stored before the hour.
+	if dt.HM[1] >= 24 {
+		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[1]))
 	}
-	if dt.HM[1] >= 60 {
-		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
+	if dt.HM[0] >= 60 {
+		errors = append(errors, fmt.Errorf("%s expects minute<60; got %d", fieldDescription, dt.HM[0]))
 	}
 	return errors
 }
-- 
2.43.0

