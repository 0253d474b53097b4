From 5c69eb55d6be89ff6a6d51c4ab7ec55c886ca39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 01/17] fix: never leave a half-written or clobbered output
 file

WriteOutput truncated the destination and then wrote it: a crash, a full disk
or a write error in between destroyed an existing disk image, and other
processes could read a partial one. It also checked for an existing file
before writing, so that one created in between was overwritten without -f.

Create new files exclusively, and replace existing ones by renaming a complete,
synced temporary file over them.
---
 helpers/helpers.go | 84 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 3 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index 5f173fb..b83aa3c 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -10,6 +10,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path/filepath"
 )
 
 // FileContentsOrStdIn returns the contents of a file, unless the file
@@ -28,9 +29,86 @@ func WriteOutput(filename string, contents []byte, force bool) error {
 		return err
 	}
 	if !force {
-		if _, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) {
-			return fmt.Errorf("cannot overwrite file %q without --force (-f)", filename)
+		return createFile(filename, contents)
+	}
+	return replaceFile(filename, contents)
+}
+
+// createFile writes a new file. It never touches an existing one, even if it
+// appears at the last moment.
+func createFile(filename string, contents []byte) error {
+	file, err := os.OpenFile(filepath.Clean(filename), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
+		return fmt.Errorf("cannot overwrite file %q without --force (-f)", filename)
+	}
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(contents)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		_ = os.Remove(filename)
+	}
+	return err
+}
+
+// replaceFile writes a file, replacing the contents of an existing one in a
+// single step: whatever goes wrong on the way, the file has either its old or
+// its new contents.
+func replaceFile(filename string, contents []byte) error {
+	target, perm := filename, fs.FileMode(0600)
+	info, err := os.Stat(filename)
+	switch {
+	case err == nil && !info.Mode().IsRegular():
+		// Devices, pipes, etc. can only be written in place.
+		return os.WriteFile(filename, contents, 0600)
+	case err == nil:
+		perm = info.Mode().Perm()
+		if target, err = filepath.EvalSymlinks(filename); err != nil {
+			return err
+		}
+		// Respect write protection.
+		file, err := os.OpenFile(target, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		if err := file.Close(); err != nil {
+			return err
 		}
+	case !errors.Is(err, fs.ErrNotExist):
+		return err
+	default:
+		if _, err := os.Lstat(filename); err == nil {
+			// A link to a file that doesn't exist yet: create that.
+			return os.WriteFile(filename, contents, 0600)
+		}
+	}
+
+	temp, err := os.CreateTemp(filepath.Dir(target), "."+filepath.Base(target)+".*")
+	if errors.Is(err, fs.ErrPermission) {
+		// We're not allowed to add files next to the target.
+		return os.WriteFile(target, contents, 0600)
+	}
+	if err != nil {
+		return err
+	}
+	_, err = temp.Write(contents)
+	if err == nil {
+		err = temp.Chmod(perm)
+	}
+	if err == nil {
+		err = temp.Sync()
+	}
+	if closeErr := temp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp.Name(), target)
+	}
+	if err != nil {
+		_ = os.Remove(temp.Name())
 	}
-	return os.WriteFile(filename, contents, 0600)
+	return err
 }
-- 
2.43.0


From 9d5187f1de068d9f7b6c11259dc57718e9d2c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 02/17] fix: refuse empty files on NakedOS disks instead of
 panicking

A file without sectors doesn't exist in the sector map; WriteFile panicked
when given one (slice bounds out of range).
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..ee4a652 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -188,6 +188,9 @@ func (sm SectorMap) Delete(file byte) {
 // WriteFile writes the contents of a file. It returns true if the
 // file already existed.
 func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, overwrite bool) (bool, error) {
+	if len(contents) == 0 {
+		return false, fmt.Errorf("cannot store empty file %d: every file has at least one sector", file)
+	}
 	sectorsNeeded := (len(contents) + 255) / 256
 	cts := make([]byte, 256*sectorsNeeded)
 	copy(cts, contents)
-- 
2.43.0


From dd6cd08db19133f0598781d8563a33739c12082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 03/17] fix: refuse Super-Mon symbols with characters that
 can't be encoded

encodeSymbol silently dropped anything but letters and digits, so that
"put disk.dsk A.B.C file" stored a symbol ABC (or clobbered the one there).
---
 supermon/supermon.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index ee4a652..2c6cb2e 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -283,11 +283,13 @@ func encodeSymbol(name string) (six []byte, err error) {
 	if len(name) < 3 {
 		return nil, fmt.Errorf("invalid Super-Mon symbol %q: too short", name)
 	}
-	nm := []byte(strings.ToUpper(name))
 	value := uint64(0)
 	bits := 0
-	for i := len(nm) - 1; i >= 0; i-- {
-		ch := nm[i]
+	for i := len(name) - 1; i >= 0; i-- {
+		ch := name[i]
+		if 'a' <= ch && ch <= 'z' {
+			ch -= 'a' - 'A'
+		}
 		switch {
 		case 'A' <= ch && ch <= 'Z':
 			value = value<<5 + uint64(ch-'@')
@@ -298,6 +300,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 575bf5b0b47761218d7645a8e9a345e87ee6e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 04/17] fix: keep blank symbol table entries out of the symbol
 chains

Blank entries were read with a link to entry 0, so deleting the symbol in
entry 0 changed the link of a blank one instead of its real predecessor, which
was left pointing at the deleted entry. Symbols whose address hashes to zero
were chained behind blank entries, too.
---
 supermon/supermon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 2c6cb2e..82e5e1f 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -342,7 +342,7 @@ func (sm SectorMap) ReadSymbolTable(diskbytes []byte) (SymbolTable, error) {
 	for i := 0; i < 0x0fff; i += 5 {
 		address := uint16(symtbl1[i]) + uint16(symtbl1[i+1])<<8
 		if address == 0 {
-			table = append(table, Symbol{})
+			table = append(table, Symbol{Link: -1})
 			continue
 		}
 		linkAddr := uint16(symtbl1[i+2]) + uint16(symtbl1[i+3])<<8
@@ -467,6 +467,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 					break
 				}
 			}
+			sym.Link = -1
 			st[i] = sym
 			return true
 		}
@@ -501,7 +502,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 4846a768c504e2fe4c63de27bc87910daa22f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 05/17] fix: rm -f of an unknown NakedOS file name is not an
 error

Operator.Delete is documented to return false if the file doesn't exist, and
did so for file numbers, but it returned an error for symbolic names.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 82e5e1f..22b3711 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -730,6 +730,9 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 // deleted, false if it didn't exist.
 func (o Operator) Delete(filename string) (bool, error) {
 	file, err := o.ST.FileForName(filename)
+	if errors.IsFileNotFound(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 6f85ff7a87c57f510821aa7bd0877664b08cc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 06/17] fix: report errors writing to standard output

ls, applesoft decode and filetypes ignored them, and exited 0 with an
incomplete listing, for instance on a full disk.
---
 cmd/applesoft.go | 6 +++---
 cmd/catalog.go   | 8 +++++---
 cmd/filetypes.go | 3 +--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/applesoft.go b/cmd/applesoft.go
index 321f65a..4547b7b 100644
--- a/cmd/applesoft.go
+++ b/cmd/applesoft.go
@@ -42,9 +42,9 @@ func (d *DecodeCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	if d.Raw {
-		_, _ = os.Stdout.WriteString(listing.String())
+		_, err = os.Stdout.WriteString(listing.String())
 	} else {
-		_, _ = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
+		_, err = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
 	}
-	return nil
+	return err
 }
diff --git a/cmd/catalog.go b/cmd/catalog.go
index 84b2d15..af8a42d 100644
--- a/cmd/catalog.go
+++ b/cmd/catalog.go
@@ -49,10 +49,12 @@ func (l *LsCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	for _, fd := range fds {
+		name := fd.Name
 		if !l.ShortNames && fd.Fullname != "" {
-			fmt.Println(fd.Fullname)
-		} else {
-			fmt.Println(fd.Name)
+			name = fd.Fullname
+		}
+		if _, err := fmt.Println(name); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/cmd/filetypes.go b/cmd/filetypes.go
index c39b03e..bb721fe 100644
--- a/cmd/filetypes.go
+++ b/cmd/filetypes.go
@@ -23,6 +23,5 @@ func (f *FiletypesCmd) Run(globals *types.Globals) error {
 	for _, typ := range types.FiletypeInfos(f.All) {
 		fmt.Fprintf(w, "%s\t%s\t%s\t%s\n", typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter)
 	}
-	_ = w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 09d8a3acfe4bb7da5bd9dbe942fc0f4ddae7e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 07/17] fix: report cyclic DOS 3.3 catalogs instead of reading
 them forever

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From c5ccd877a531806edc62d4695c49c5a4a3aac44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:46 +0000
Subject: [PATCH 08/17] fix: handle empty and truncated DOS 3.3 files without
 panicking

---
 dos3/dos3.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..83fe1db 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
@@ -623,7 +624,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -637,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to contain its address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to contain its length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q should contain %d bytes, but only %d are present", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From 8114d89483a30ef67ed150f44f0cbd0016c55bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:49 +0000
Subject: [PATCH 09/17] fix: report ProDOS directory loops instead of following
 them forever

---
 prodos/prodos.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..293b5b4 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -693,6 +693,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// }
 
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if _, seen := v.firstSubdirBlocks[block]; seen || block == keyBlock {
+			return v, fmt.Errorf("volume directory tries to read block %d twice", block)
+		}
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,6 +717,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
+		if v.subdirsByBlock[sdd.KeyPointer] != nil {
+			return v, fmt.Errorf("more than one subdirectory starts at block %d", sdd.KeyPointer)
+		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
 			return v, err
@@ -739,7 +745,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, maxDepth)
 		if err != nil {
 			return v, err
 		}
@@ -783,8 +789,15 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
+// maxDepth is the deepest possible nesting of subdirectories: ProDOS
+// pathnames are limited to 128 characters, including the prefix.
+const maxDepth = 64
+
 // parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, depth int) (string, error) {
+	if depth == 0 {
+		return "", fmt.Errorf("subdirectories are nested too deeply, or in a loop")
+	}
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
@@ -799,7 +812,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth-1)
 	if err != nil {
 		return "", err
 	}
@@ -821,7 +834,12 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
+	seen := map[uint16]bool{fd.KeyPointer: true}
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From d4cb068b7b4fa9c29f6c08bd306173df37699da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 10/17] fix: always list the same one of several ProDOS
 subdirectories with one name

---
 prodos/prodos.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 293b5b4..8daf5c6 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -740,7 +740,8 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		fmt.Fprintf(os.Stderr, "got %d total subdir descriptors\n", len(sdds))
 	}
 
-	for _, sd := range v.subdirsByBlock {
+	for _, sdd := range sdds {
+		sd := v.subdirsByBlock[sdd.KeyPointer]
 		name := sd.keyBlock.Header.Name()
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
@@ -753,7 +754,10 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 			name = parentName + "/" + name
 		}
 
-		v.subdirsByName[name] = sd
+		// If the names aren't unique, always use the first.
+		if v.subdirsByName[name] == nil {
+			v.subdirsByName[name] = sd
+		}
 	}
 	if debug > 1 {
 		fmt.Fprintf(os.Stderr, "subdirsByName:\n")
-- 
2.43.0


From eda48bbf638141ea7438a2ce74887fb3499dbdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 11/17] fix: report ProDOS directories that share blocks
 instead of reading them over and over

---
 prodos/prodos.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 8daf5c6..eaca035 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -730,6 +730,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		}
 		sdds = append(sdds, sub.subdirDescriptors()...)
 		for _, block := range sub.blocks {
+			if _, seen := v.firstSubdirBlocks[block.block]; seen {
+				return v, fmt.Errorf("block %d belongs to more than one directory", block.block)
+			}
 			v.firstSubdirBlocks[block.block] = sdd.KeyPointer
 			if debug > 1 {
 				fmt.Fprintf(os.Stderr, "  firstSubdirBlocks[%d] → %d\n", block.block, sdd.KeyPointer)
-- 
2.43.0


From 075548568919c8281459ae9a8ec0eda2a978f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 12/17] fix: list ProDOS subdirectories with more than one
 entry once, without an error

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index eaca035..3e23c06 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -718,7 +718,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
 		if v.subdirsByBlock[sdd.KeyPointer] != nil {
-			return v, fmt.Errorf("more than one subdirectory starts at block %d", sdd.KeyPointer)
+			continue // More than one entry for this subdirectory: we've read it already.
 		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
-- 
2.43.0


From 563a360f92a5c731ace6b88882a93b529954efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:06 +0000
Subject: [PATCH 13/17] fix: spell six Applesoft tokens as Applesoft does

In particular, token CC is ^, and DEF and TAB( were listed as DEF FN and TAB.
---
 basic/applesoft/applesoft.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..4a438b8 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -21,8 +21,8 @@ var TokensByCode = map[byte]string{
 	0x87: "READ",
 	0x88: "GR",
 	0x89: "TEXT",
-	0x8A: "PR #",
-	0x8B: "IN #",
+	0x8A: "PR#",
+	0x8B: "IN#",
 	0x8C: "CALL",
 	0x8D: "PLOT",
 	0x8E: "HLIN",
@@ -67,7 +67,7 @@ var TokensByCode = map[byte]string{
 	0xB5: "WAIT",
 	0xB6: "LOAD",
 	0xB7: "SAVE",
-	0xB8: "DEF FN",
+	0xB8: "DEF",
 	0xB9: "POKE",
 	0xBA: "PRINT",
 	0xBB: "CONT",
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
@@ -87,7 +87,7 @@ var TokensByCode = map[byte]string{
 	0xC9: "-",
 	0xCA: "*",
 	0xCB: "/",
-	0xCC: ";",
+	0xCC: "^",
 	0xCD: "AND",
 	0xCE: "OR",
 	0xCF: ">",
@@ -98,7 +98,7 @@ var TokensByCode = map[byte]string{
 	0xD4: "ABS",
 	0xD5: "USR",
 	0xD6: "FRE",
-	0xD7: "SCRN (",
+	0xD7: "SCRN(",
 	0xD8: "PDL",
 	0xD9: "POS",
 	0xDA: "SQR",
-- 
2.43.0


From ed9d50d8f601768a58d747ed9e9335fc3379392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:06 +0000
Subject: [PATCH 14/17] fix: refuse BASIC programs with impossible line links
 or lengths

---
 basic/applesoft/applesoft.go | 5 ++++-
 basic/integer/integer.go     | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 4a438b8..c0e7eaa 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -151,7 +151,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	next := int(location)
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
@@ -186,6 +186,9 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 			}
 			ofs++
 		}
+		if calcOffset(next) <= ofs {
+			return nil, fmt.Errorf("line %d has next line at $%X, which is not after it", line.Num, next)
+		}
 		listing = append(listing, line)
 	}
 
diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..c926bbc 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -173,6 +173,9 @@ func Decode(raw []byte) (Listing, error) {
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has impossible length %d", num, size)
+		}
 		if raw[size-1] != 1 {
 			return nil, fmt.Errorf("line %d not terminated by 0x01", num)
 		}
-- 
2.43.0


From af633f6a47357d6887ec6efde7803ee5bb7dbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:32 +0000
Subject: [PATCH 15/17] fix: open .hdv images of exactly 280 blocks

A .hdv file that happened to have the size of a floppy was refused with
"unknown disk image extension".
---
 disk/open.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/disk/open.go b/disk/open.go
index 7e282d9..efe1c21 100644
--- a/disk/open.go
+++ b/disk/open.go
@@ -96,7 +96,7 @@ func openDoOrPo(rawbytes []byte, order types.DiskOrder, system string, ext strin
 		// nothing more
 	case types.DiskOrderAuto:
 		switch ext {
-		case ".po":
+		case ".po", ".hdv":
 			orders = []types.DiskOrder{types.DiskOrderPO}
 		case ".do":
 			orders = []types.DiskOrder{types.DiskOrderDO}
-- 
2.43.0


From 4dc0e917a6bbcb5f1c5ff06a629919ecdb1f5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:24 +0000
Subject: [PATCH 16/17] fix: let rm remove the symbol table's files by their
 symbols

---
 supermon/supermon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 22b3711..c284327 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -659,6 +659,12 @@ type Operator struct {
 
 var _ types.Operator = Operator{}
 
+// The numbers of the files that hold the symbol table.
+const (
+	fileSymbolTable1 = 0x03
+	fileSymbolTable2 = 0x04
+)
+
 // operatorName is the keyword name for the operator that undestands
 // NakedOS/Super-Mon disks.
 const operatorName = "nakedos"
@@ -741,7 +747,8 @@ func (o Operator) Delete(filename string) (bool, error) {
 	if err := o.SM.Persist(o.data); err != nil {
 		return existed, err
 	}
-	if o.ST != nil {
+	// Without these files, there is no symbol table any more.
+	if o.ST != nil && file != fileSymbolTable1 && file != fileSymbolTable2 {
 		changed := o.ST.DeleteSymbol(filename)
 		if changed {
 			if err := o.SM.WriteSymbolTable(o.data, o.ST); err != nil {
-- 
2.43.0


From 29e09900ee1a36d11439cfc1fcef1e7b780c26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 17/17] fix: refuse to define a symbol while replacing the
 symbol table

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index c284327..196c157 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -788,6 +788,9 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 			return false, fmt.Errorf("all files already used")
 		}
 	}
+	if namedFile != numFile && symbol != "" && (numFile == fileSymbolTable1 || numFile == fileSymbolTable2) {
+		return false, fmt.Errorf("cannot define symbol %q while replacing file DF%02X, which is part of the symbol table", symbol, numFile)
+	}
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
 	if err != nil {
 		return existed, err
-- 
2.43.0

