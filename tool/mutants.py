#!/usr/bin/env python3
"""Small behaviour-changing edits of /repo, each with the checks that should
notice it. mutants.py [-j N] [ID...] applies each in a scratch clone, checks
that it builds and passes the stable tests, and runs those checks (quick tier).
Not used by any check; it measures them."""
import os, subprocess, sys, shutil, json
W = os.environ.get("MUT_W", "/tmp/mut")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM, OP, HE, D3, PD, AS, SD, RE = "supermon/supermon.go", "disk/open.go", "helpers/helpers.go", "dos3/dos3.go", "prodos/prodos.go", "basic/applesoft/applesoft.go", "cmd/sd.go", "cmd/reorder.go"
MA, DU, CA, PU, DE, NA = "disk/marshal.go", "cmd/dump.go", "cmd/catalog.go", "cmd/put.go", "cmd/delete.go", "cmd/nakedos.go"
M = []
def m(id, props, *edits, patch=None):
    M.append((id, props.split(), edits))

# ---- C01 ----
m("hello-start-page", "C01", (NA, "0x4C, byte(m.Start), byte(m.Start >> 8),", "0x4C, byte(m.Start), byte(m.Address >> 8),"))
m("hello-explicit-start", "C01", (NA, "	if m.Start == 0xFFFF {\n", "	if m.Start == 0xFFFF || m.Start == 0 {\n"))
m("rm-number-drops-symbols", "C01 C03", (SM, "		changed := o.ST.DeleteSymbol(filename)\n", "		changed := o.ST.DeleteSymbol(NameForFile(file, o.ST)) || o.ST.DeleteSymbol(filename)\n"))
m("rm-symbol-upper-only", "C01 C03", (SM, "		changed := o.ST.DeleteSymbol(filename)\n", "		changed := filename == strings.ToUpper(filename) && o.ST.DeleteSymbol(filename)\n"))
m("hex-like-symbol", "C01", (SM, "		if addr > 0x00 && addr < 0xFE {\n			return byte(addr)\n", "		if addr > 0x00 && addr < 0xFE {\n			return byte(addr)\n		}\n		if addr > 0x8000 && addr < 0x80FE {\n			return byte(addr)\n"))
m("first-free-from-two", "C01", (SM, "	for file := byte(0x01); file < 0xfe; file++ {\n		sectors := sm.SectorsForFile(file)\n		if", "	for file := byte(0x02); file < 0xfe; file++ {\n		sectors := sm.SectorsForFile(file)\n		if"))
m("short-name-swap", "C01", (SM, "	symbols := st.SymbolsForAddress(0xDF00 + uint16(file))\n	if len(symbols) > 0 {\n		return symbols[0].Name", "	symbols := st.SymbolsForAddress(0xDF00 + uint16(file&0x7f))\n	if len(symbols) > 0 {\n		return symbols[0].Name"))
m("dangling-symbol-first-free", "C01", (SM, "	if numFile == 0 {\n		numFile = o.SM.FirstFreeFile()", "	if numFile == 0 || (numFile == namedFile && len(o.SM.SectorsForFile(numFile)) == 0) {\n		numFile = o.SM.FirstFreeFile()"))
m("catalog-stops-early", "C01", (SM, "	for file := byte(1); file < FileReserved; file++ {\n		l :=", "	for file := byte(1); file < 0xF0; file++ {\n		l :="))
m("read-reversed-track", "C01 C02", (SM, "		for sector := byte(0); sector < disk.FloppySectors; sector++ {\n			if sm.FileForSector(track, sector) == FileFree {", "		for s := byte(0); s < disk.FloppySectors; s++ {\n			sector := s\n			if track == 34 {\n				sector = 15 - s\n			}\n			if sm.FileForSector(track, sector) == FileFree {"))
m("compound-number-ignored", "C01", (SM, "	return numFile, namedFile, parts[1], nil\n", "	return namedFile, namedFile, parts[1], nil\n"))
m("dump-trims", "C01", (SM, "	if len(data) == 0 {\n		return types.FileInfo{}, fmt.Errorf(\"file DF%02x not fount\", file)\n	}\n", "	if len(data) == 0 {\n		return types.FileInfo{}, fmt.Errorf(\"file DF%02x not fount\", file)\n	}\n	if len(data) > 256*200 {\n		data = data[:256*200]\n	}\n"))
# ---- C02 ----
m("persist-last-part", "C02 C01", (SM, "	return disk.WriteSector(diskbytes, 0, 0xB, sm[0x130:0x230])\n", "	return disk.WriteSector(diskbytes, 0, 0xB, append(append([]byte{}, sm[0x130:0x22f]...), 0xff))\n"))
m("sectors-needed", "C02", (SM, "	sectorsNeeded := (len(contents) + 255) / 256\n", "	sectorsNeeded := len(contents)/256 + 1\n"))
m("delete-keeps-last-track", "C02", (SM, "		if f == file {\n			sm[i] = FileFree", "		if f == file && i < 559 {\n			sm[i] = FileFree"))
m("free-off-by-one", "C02", (SM, "	if free < sectorsNeeded {\n", "	if free <= sectorsNeeded {\n"))
m("sector9-clobbered", "C02", (SM, "	copy(sector09[0xd0:], sm[0:0x30])\n", "	copy(sector09[0xd0:], sm[0:0x30])\n	sector09[0xcf] = 0\n"))
# ---- C03 ----
m("encode-bits", "C03", (SM, "		if bits > 48 {\n", "		if bits > 47 {\n"))
m("encode-no-limit", "C03", (SM, "		if bits > 48 {\n", "		if bits > 49 {\n"))
m("link-limit", "C03", (SM, "linkAddr >= 0xDFFF {", "linkAddr >= 0xDFFA {"))
m("extra-byte", "C03", (SM, "		symtbl1[offset+4] = six[5]\n", "		symtbl1[offset+4] = six[5] & 0x7f\n"))
m("add-at-end", "C03", (SM, "		if pos == -1 && sym.Address == 0 {\n", "		if pos == -1 && sym.Address == 0 && j < 818 {\n"))
m("unlink-drops-tail", "C03", (SM, "					st[j].Link = sym.Link\n", "					st[j].Link = -1\n"))
m("table-rewrite-order", "C03", (SM, "	for i, sym := range st {\n		offset := i * 5\n		linkAddr := 0\n", "	for i, sym := range st {\n		if sym.Address != 0 && sym.Address < 0x100 {\n			sym = Symbol{Link: -1}\n		}\n		offset := i * 5\n		linkAddr := 0\n"))
m("addr-high-bit", "C03", (SM, "			if addrHash(sym.Address) == hash {\n				st[j].Address = address", "			if addrHash(sym.Address) == hash {\n				st[j].Address = st[j].Address&0xff80 | address&0x7f"))
m("short-symbol-ok", "C03", (SM, "	if len(name) < 3 {\n", "	if len(name) < 2 {\n"))
# ---- C04 ----
m("put-type-after", "C04", (PU, "	filetype, err := types.FiletypeForName(p.FiletypeName)\n	if err != nil {\n		return err\n	}\n", "	filetype, err := types.FiletypeForName(p.FiletypeName)\n	if err != nil {\n		filetype = types.FiletypeBinary\n	}\n"))
m("hello-unknown-file", "C04", (NA, "	if addr == 0 && symbolAddr == 0 {\n", "	if addr == 0 && symbolAddr == 0 && len(m.Filename) < 3 {\n"))
m("hello-alignment", "C04", (NA, "	if m.Address%256 != 0 {\n", "	if m.Address%128 != 0 {\n"))
m("rm-ok-missing", "C04", (DE, "	if !deleted && !d.MissingOk {\n", "	if !deleted && !d.MissingOk && op.Name() != \"nakedos\" {\n"))
m("put-touches", "C04", (PU, "	_, err = op.PutFile(fileInfo, p.Overwrite)\n	if err != nil {\n		return err\n	}\n", "	_, err = op.PutFile(fileInfo, p.Overwrite)\n	if err != nil {\n		_ = disk.WriteBack(p.DiskImage, op, order, true)\n		return err\n	}\n"))
m("mksd-writes-first", "C04 C15", (SD, "	if len(loader)+sectors+1 > 256 {\n", "	if len(loader)+sectors+1 > 256 {\n		_ = helpers.WriteOutput(s.DiskImage, loader, true)\n"))
m("ls-cache", "C04", (CA, "	fds, err := op.Catalog(l.Directory)\n	if err != nil {\n		return err\n	}\n", "	fds, err := op.Catalog(l.Directory)\n	if err != nil {\n		return err\n	}\n	if globals.Debug > 2 {\n		_ = os.WriteFile(l.Image.Name()+\".ls\", nil, 0600)\n	}\n"))
m("size-lenient", "C04 C07", (OP, "	if len(diskimage) != FloppyDiskBytes {\n		return nil, fmt.Errorf(\"reordering", "	if len(diskimage) < FloppyDiskBytes {\n		return nil, fmt.Errorf(\"reordering"))
m("silent-error", "C12", ("main.go", "		fmt.Fprintf(os.Stderr, \"Error: %v\\n\", err)\n", "		if cli.Debug < 3 {\n			fmt.Fprintf(os.Stderr, \"Error: %v\\n\", err)\n		}\n"))
# ---- C05 ----
m("no-sync", "C05", (HE, "	if err == nil {\n		err = temp.Sync()\n	}\n", ""))
m("chmod-late", "C05", (HE, "	if err == nil {\n		err = temp.Chmod(perm)\n	}\n	if err == nil {\n		err = temp.Sync()\n	}\n", "	if err == nil {\n		err = temp.Sync()\n	}\n"), (HE, "		err = os.Rename(temp.Name(), target)\n	}\n", "		err = os.Rename(temp.Name(), target)\n	}\n	if err == nil {\n		err = os.Chmod(target, perm)\n	}\n"))
m("symlink-replaced", "C05", (HE, "		if target, err = filepath.EvalSymlinks(filename); err != nil {\n			return err\n		}\n", ""))
m("fallback-in-place", "C05", (HE, "	if errors.Is(err, fs.ErrPermission) {\n", "	if err != nil {\n"))
m("rename-fallback", "C05", (HE, "	if err != nil {\n		_ = os.Remove(temp.Name())\n	}\n	return err\n", "	if err != nil {\n		_ = os.Remove(temp.Name())\n		return os.WriteFile(target, contents, perm)\n	}\n	return err\n"))
m("remove-first", "C05", (HE, "		err = os.Rename(temp.Name(), target)\n", "		_ = os.Remove(target)\n		err = os.Rename(temp.Name(), target)\n"))
m("mksd-in-place", "C05", (SD, "	return helpers.WriteOutput(s.DiskImage, rawBytes, true)\n", "	if s.DiskImage != \"-\" {\n		return os.WriteFile(s.DiskImage, rawBytes, 0600)\n	}\n	return helpers.WriteOutput(s.DiskImage, rawBytes, true)\n"))
m("writeback-in-place-small", "C05", (OP, "	return helpers.WriteOutput(filename, diskBytes, overwrite)\n}", "	if f, err := os.OpenFile(filename, os.O_RDWR, 0); err == nil && diskFileOrder == types.DiskOrderPO {\n		_, err = f.WriteAt(diskBytes, 0)\n		if cerr := f.Close(); err == nil {\n			err = cerr\n		}\n		return err\n	}\n	return helpers.WriteOutput(filename, diskBytes, overwrite)\n}"))
# ---- C06 ----
m("ls-ignores-write", "C06", (CA, "		if _, err := fmt.Println(name); err != nil {\n			return err\n		}\n", "		_, _ = fmt.Println(name)\n"))
m("dump-ignores-last", "C06", (DU, "	_, err = os.Stdout.Write(file.Data)\n	if err != nil {\n		return err\n	}\n", "	n, err := os.Stdout.Write(file.Data)\n	if err != nil && n == 0 {\n		return err\n	}\n"))
m("sync-ignored", "C05", (HE, "		err = temp.Sync()\n", "		_ = temp.Sync()\n"))
m("stdin-error-eof", "C06", (HE, "		return io.ReadAll(os.Stdin)\n", "		b, err := io.ReadAll(os.Stdin)\n		if len(b) > 0 {\n			err = nil\n		}\n		return b, err\n"))
m("create-close-ignored", "C06", (HE, "	_, err = file.Write(contents)\n	if closeErr := file.Close(); err == nil {\n		err = closeErr\n	}\n", "	_, err = file.Write(contents)\n	_ = file.Close()\n"))
m("filetypes-ignores-write", "C06", ("cmd/filetypes.go", "err != nil", "false && err != nil"))
# ---- C07 ----
m("swizzle-skips-last", "C07 C08", (OP, "	for track := 0; track < FloppyTracks; track++ {\n		for sector := 0; sector < FloppySectors; sector++ {\n			data, err", "	copy(result, diskimage)\n	for track := 0; track < FloppyTracks-1; track++ {\n		for sector := 0; sector < FloppySectors; sector++ {\n			data, err"))
m("out-guess-first", "C07", (RE, "	if outGuess == types.DiskOrderUnknown {\n		return inGuess, oppositeOrder(inGuess), nil", "	if outGuess == types.DiskOrderUnknown {\n		return inGuess, inGuess, nil"))
m("ambiguous-accepted", "C07 C04", (RE, "		if inGuess == types.DiskOrderUnknown {\n			return", "		if inGuess == types.DiskOrderUnknown {\n			if outFilename != \"\" {\n				return types.DiskOrderDO, types.DiskOrderPO, nil\n			}\n			return"))
m("flag-loses", "C07", (RE, "	if outOrder == \"auto\" && inOrder != \"auto\" {\n", "	if outOrder == \"auto\" && inOrder != \"auto\" && disk.OrderFromFilename(outFilename, \"\") == \"\" {\n"))
m("reorder-trims", "C07", (RE, "	fromOrder, ok := disk.LogicalToPhysicalByName[fromOrderName]\n", "	if len(frombytes) == disk.FloppyDiskBytes+512 {\n		frombytes = frombytes[512:]\n	}\n	fromOrder, ok := disk.LogicalToPhysicalByName[fromOrderName]\n"))
# ---- C08 ----
m("po-first", "C08", (OP, "		case \".dsk\", \"\":\n			orders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}\n", "		case \"\":\n			orders = []types.DiskOrder{types.DiskOrderPO, types.DiskOrderDO}\n		case \".dsk\":\n			orders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}\n"))
m("vtoc-volume", "C08 C09", (D3, "	if v.Volume == 255 {\n", "	if v.Volume == 255 || v.Volume == 0 {\n"))
m("vtoc-direction", "C08 C09", (D3, "	if v.TrackDirection != 1 && v.TrackDirection != -1 {\n", "	if v.TrackDirection != 1 {\n"))
m("rm-order-auto", "C08", (DE, "	return disk.WriteBack(d.DiskImage, op, order, true)\n", "	if d.Order == types.DiskOrderAuto {\n		order = types.DiskOrderDO\n	}\n	return disk.WriteBack(d.DiskImage, op, order, true)\n"))
m("hello-order", "C08", (NA, "disk.OpenFilename(m.DiskImage, m.Order, \"auto\"", "disk.OpenFilename(m.DiskImage, types.DiskOrderAuto, \"auto\""))
m("nak-verify-strict", "C08 C01", (SM, "			if file == FileIllegal {\n", "			if file == FileIllegal || (track > 0 && file == FileReserved) {\n"))
m("ext-upper", "C08", (OP, "	ext := strings.ToLower(path.Ext(filename))\n	size := len(filebytes)\n", "	ext := path.Ext(filename)\n	size := len(filebytes)\n"))
m("prodos-first", "C08", ("main.go", "			dos3.OperatorFactory{},\n			supermon.OperatorFactory{},\n			prodos.OperatorFactory{},\n", "			prodos.OperatorFactory{},\n			dos3.OperatorFactory{},\n			supermon.OperatorFactory{},\n"))
# ---- C09 ----
m("locked-hidden", "C09", (D3, "	switch fd.Filetype & 0x7f {\n	case FiletypeText: // Text file\n		for", "	switch fd.Filetype & 0xff {\n	case FiletypeText: // Text file\n		for"))
m("length-int16", "C09", (D3, "		length := int(data[0]) + int(data[1])*256\n", "		length := int(data[0]) + int(data[1]&0x7f)*256\n"))
m("deleted-shadows", "C09", (D3, "			case FileDescStatusDeleted:\n				deleted = append(deleted, fd)\n", "			case FileDescStatusDeleted:\n				deleted = append(deleted, fd)\n				if len(files) > 20 {\n					files = append(files, fd)\n				}\n"))
m("catalog-same-track", "C09", (D3, "		nextTrack = cs.NextTrack\n", "		nextTrack = cs.NextTrack\n		if nextTrack != v.CatalogTrack {\n			break\n		}\n"))
m("text-strip-one", "C09", (D3, "		for len(data) > 0 && data[len(data)-1] == 0 {\n			data = data[:len(data)-1]\n		}\n", "		for i, b := range data {\n			if b == 0 {\n				data = data[:i]\n				break\n			}\n		}\n"))
m("exact-fit", "C09", (D3, "		if length+2 > len(data) {\n", "		if length+2 >= len(data) {\n"))
m("hole-last", "C09", (D3, "				if ts.Track != 0 || ts.Sector != 0 {\n					end = j", "				if ts.Track != 0 && ts.Sector != 0 {\n					end = j"))
m("hole-track0", "C09", (D3, "			if ts.Track == 0 && ts.Sector == 0 {\n", "			if ts.Track == 0 || ts.Sector == 0 && j > 100 {\n"))
m("tsl-chain-sector0", "C09", (D3, "	for nextTrack != 0 || nextSector != 0 {\n		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}\n		if seen[ts] {\n			return nil, fmt.Errorf(\"file", "	for nextTrack != 0 && (nextSector != 0 || len(tsls) == 0) {\n		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}\n		if seen[ts] {\n			return nil, fmt.Errorf(\"file"))
# ---- C10 ----
m("hdv-big-int16", "C10", (MA, "	start := int(index) * 512\n	end := start + 512\n	if len(diskbytes) < end {\n		return fmt.Errorf(\"device too small to read", "	start := int(index&0x7fff) * 512\n	end := start + 512\n	if len(diskbytes) < end {\n		return fmt.Errorf(\"device too small to read"))
m("hdv-limit", "C10", (OP, "	if size/512 > 65536 {\n", "	if size/512 > 65535 {\n"))
m("dir-basename", "C10", (PD, "		if parentName != \"\" {\n			name = parentName + \"/\" + name\n		}\n", "		if parentName != \"\" && len(parentName) < 40 {\n			name = parentName + \"/\" + name\n		}\n"))
m("name-mask", "C10", (PD, "	return string(fd.FileName[0 : fd.TypeAndNameLength&0xf])\n", "	return string(fd.FileName[0 : (fd.TypeAndNameLength&0xf)%15])\n"))
m("depth-8", "C10", (PD, "const maxDepth = 64\n", "const maxDepth = 8\n"))
m("subdir-three-blocks", "C10", (PD, "		s.blocks = append(s.blocks, &sdb)\n	}\n", "		s.blocks = append(s.blocks, &sdb)\n		if len(s.blocks) == 3 {\n			break\n		}\n	}\n"))
m("filecount-limits", "C10", (PD, "	for _, desc := range sd.descriptors() {\n		if desc.Type() != TypeDeleted {\n			result", "	for i, desc := range sd.descriptors() {\n		if desc.Type() != TypeDeleted && i <= int(sd.keyBlock.Header.FileCount) {\n			result"))
m("validate-dates", "C10 C08", (PD, "	// if debug {\n	// 	fmt.Fprintf(os.Stderr, \"keyblock", "	if errs := v.keyBlock.Validate(); len(errs) > 0 {\n		return v, errs[0]\n	}\n	// if debug {\n	// 	fmt.Fprintf(os.Stderr, \"keyblock"))
m("vol-twelve", "C10", (PD, "	for _, block := range v.blocks {\n		descs = append(descs, block.Descriptors[:]...)", "	for _, block := range v.blocks {\n		descs = append(descs, block.Descriptors[:12]...)"))
# ---- C11 ----
m("tsl-loop", "C11", (D3, "			return nil, fmt.Errorf(\"file %q tries to read TrackSector track=%d sector=%d twice\", fd.FilenameString(), nextTrack, nextSector)\n", "			if len(tsls) > 0 && nextTrack == fd.TrackSectorListTrack {\n				return nil, fmt.Errorf(\"file %q tries to read TrackSector track=%d sector=%d twice\", fd.FilenameString(), nextTrack, nextSector)\n			}\n"))
m("subdir-loop", "C11", (PD, "		seen[block] = true\n		sdb :=", "		sdb :="))
m("basic-loop", "C11 C18", (AS, "		if calcOffset(next) <= ofs {\n", "		if calcOffset(next) <= ofs && len(listing) < 2 {\n"))
m("basic-short", "C11", (AS, "		if ofs < 0 || ofs+1 >= len(raw) {\n", "		if ofs < 0 || ofs >= len(raw) {\n"))
m("basic-empty", "C11", (AS, "	if len(raw) >= 2 {\n", "	if len(raw) >= 1 {\n"))
m("bin-short", "C11", (D3, "			if len(data) < 2 {\n				return types.FileInfo{}, fmt.Errorf(\"file %q is too short to contain its address\", filename)\n			}\n", ""))
m("symbol-link-index", "C11", (SM, "linkAddr < 0xD000 || linkAddr >= 0xDFFF {", "linkAddr < 0xD000 || linkAddr > 0xDFFF {"))
m("hdv-multiple", "C11", (OP, "	if size%512 > 0 {\n", "	if size%256 > 0 {\n"), (MA, "	if len(diskbytes) < end {\n		return fmt.Errorf(\"device too small to read", "	if len(diskbytes) <= start {\n		return fmt.Errorf(\"device too small to read"))
m("parent-loop", "C11", (PD, "	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth-1)\n", "	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth-len(sd.keyBlock.Header.Name())/2)\n"))
m("mksd-empty", "C15", (SD, "	if int(s.Start) >= int(s.Address)+len(contents) {\n", "	if len(contents) > 0 && int(s.Start) >= int(s.Address)+len(contents) {\n"), (SD, "	sectors := (len(contents) + 255) / 256\n", "	sectors := (len(contents)-1)/256 + 1\n"))
m("quadratic-table", "C11", (D3, "	data := make([]byte, 0, 256*122*len(tsls))\n", "	data := make([]byte, 0, 256*122*len(tsls)*len(tsls)*4)\n"))
# ---- C12 ----
m("debug-stdout", "C12 C16", (OP, "				if debug > 1 {\n					fmt.Fprintf(os.Stderr, \"Attempting", "				if debug > 1 {\n					fmt.Fprintf(os.Stdout, \"Attempting"))
m("subdir-any", "C12", (PD, "		// If the names aren't unique, always use the first.\n		if v.subdirsByName[name] == nil {\n", "		// If the names aren't unique, always use the first.\n		for _, other := range v.subdirsByBlock {\n			if other.keyBlock.Header.Name() == name {\n				sd = other\n			}\n			break\n		}\n		if v.subdirsByName[name] == nil {\n"))
m("mtime", "C12", (CA, "	for _, fd := range fds {\n", "	if st, err := os.Stat(l.Image.Name()); err == nil && st.ModTime().Second() == 13 {\n		l.ShortNames = true\n	}\n	for _, fd := range fds {\n"))
m("free-file-map", "C12", (SM, "	for file := byte(0x01); file < 0xfe; file++ {\n		sectors := sm.SectorsForFile(file)\n		if len(sectors) == 0 {\n			return file\n		}\n	}\n	return 0\n", "	used := sm.SectorsByFile()\n	free := map[byte]bool{}\n	for file := byte(0x01); file < 0xfe && len(free) < 2; file++ {\n		if len(used[file]) == 0 {\n			free[file] = true\n		}\n	}\n	for file := range free {\n		return file\n	}\n	return 0\n"))
m("debug-changes", "C12", (DE, "	if !deleted && !d.MissingOk {\n", "	if !deleted && !d.MissingOk && globals.Debug < 2 {\n"))
m("pid-volume", "C12", (SD, "	for len(loader) < 256 {\n		loader = append(loader, 0)\n", "	for len(loader) < 256 {\n		loader = append(loader, byte(os.Getpid()&1))\n"))
m("cwd", "C12", (OP, "	ext := strings.ToLower(path.Ext(filename))\n	size := len(filebytes)\n", "	ext := strings.ToLower(path.Ext(filename))\n	if ext == \"\" && filename != path.Base(filename) {\n		ext = strings.ToLower(path.Ext(path.Dir(filename)))\n	}\n	size := len(filebytes)\n"))
# ---- C13 ----
m("stat-then-write", "C13", (HE, "	file, err := os.OpenFile(filepath.Clean(filename), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)\n	if errors.Is(err, fs.ErrExist) {\n		return fmt.Errorf(\"cannot overwrite file %q without --force (-f)\", filename)\n	}\n", "	if _, err := os.Stat(filename); err == nil {\n		return fmt.Errorf(\"cannot overwrite file %q without --force (-f)\", filename)\n	}\n	file, err := os.OpenFile(filepath.Clean(filename), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)\n"))
m("temp-then-rename", "C13", (HE, "	if !force {\n		return createFile(filename, contents)\n	}\n", "	if !force {\n		if _, err := os.Lstat(filename); err == nil {\n			return fmt.Errorf(\"cannot overwrite file %q without --force (-f)\", filename)\n		}\n	}\n"))
m("empty-overwritten", "C13", (HE, "	if !force {\n		return createFile(filename, contents)\n	}\n", "	if info, err := os.Stat(filename); !force && (err != nil || info.Size() > 0) {\n		return createFile(filename, contents)\n	}\n"))
m("remove-on-exist", "C13", (HE, "	if errors.Is(err, fs.ErrExist) {\n", "	if errors.Is(err, fs.ErrExist) {\n		if info, serr := os.Lstat(filename); serr == nil && info.Mode()&fs.ModeSymlink != 0 {\n			return os.WriteFile(filename, contents, 0600)\n		}\n"))
m("put-grow-ok", "C13", (SM, "		if !overwrite {\n", "		if !overwrite && existing > 1 {\n"))
m("same-file-force", "C13", (RE, "	if filename == \"\" {\n", "	if filename == \"\" || disk.OrderFromFilename(filename, \"\") == disk.OrderFromFilename(r.DiskImage, \"\") && filename != \"-\" && r.Order != \"auto\" {\n		if r.NewDiskImage != \"\" {\n			overwrite = true\n		}\n	}\n	if filename == \"\" {\n"))
# ---- C14 ----
m("reread", "C14", (PU, "	return disk.WriteBack(p.DiskImage, op, order, true)\n", "	if p.DiskImage != \"-\" {\n		fresh, _, err := disk.OpenFilename(p.DiskImage, p.Order, p.System, globals.DiskOperatorFactories, globals.Debug)\n		if err == nil && fresh.Name() == op.Name() {\n			if nak := fresh.GetBytes(); len(nak) == len(op.GetBytes()) {\n				copy(op.GetBytes()[34*4096:], nak[34*4096:])\n			}\n		}\n	}\n	return disk.WriteBack(p.DiskImage, op, order, true)\n"))
m("read-halves", "C14", (OP, "	bb, err := io.ReadAll(file)\n", "	bb, err := io.ReadAll(io.LimitReader(file, 65536))\n	if err == nil && len(bb) == 65536 && file != os.Stdin {\n		if f2, err2 := os.Open(file.Name()); err2 == nil {\n			all, err3 := io.ReadAll(f2)\n			_ = f2.Close()\n			if err3 == nil && len(all) > len(bb) {\n				bb = append(bb, all[65536:]...)\n				_, _ = io.Copy(io.Discard, file)\n			}\n		}\n	}\n"))
m("pid-temp", "C14", (HE, "	temp, err := os.CreateTemp(filepath.Dir(target), \".\"+filepath.Base(target)+\".*\")\n", "	temp, err := os.OpenFile(filepath.Join(filepath.Dir(target), \".\"+filepath.Base(target)+\".new\"), os.O_RDWR|os.O_CREATE, 0600)\n"))
m("trunc-in-place", "C14 C05", (HE, "		// Respect write protection.\n		file, err := os.OpenFile(target, os.O_WRONLY, 0)\n", "		// Respect write protection.\n		file, err := os.OpenFile(target, os.O_WRONLY|os.O_TRUNC, 0)\n"))
# ---- C15 ----
m("sd-page-limit", "C15", (SD, "	if len(loader)+sectors+1 > 256 {\n", "	if len(loader)+sectors+1 >= 256 {\n"))
m("sd-page-over", "C15", (SD, "	if len(loader)+sectors+1 > 256 {\n", "	if len(loader)+sectors > 256 {\n"))
m("sd-bf00", "C15", (SD, "> 0xC000 {\n", ">= 0xC000 {\n"))
m("sd-po-default", "C15", (SD, "disk.OrderFromFilename(s.DiskImage, types.DiskOrderDO)", "disk.OrderFromFilename(s.DiskImage, types.DiskOrderPO)"))
m("sd-start-low", "C15", (SD, "0xfc, 0x4c, byte(s.Start), byte(s.Start >> 8),", "0xfc, 0x4c, byte(s.Start), byte((int(s.Start) - int(byte(s.Start)) + 0) >> 8),"), (SD, "	if s.Start == 0xFFFF {\n", "	if s.Start == 0xFFFF || s.Start%256 == 0 {\n"))
m("sd-loader-slot", "C15", (SD, "0xc8, 0xa5, 0x27, 0xf0, 0xdf, 0x8a, 0x4a", "0xc8, 0xa5, 0x27, 0xf0, 0xdf, 0xa2, 0x60, 0x8a"))
m("sd-loader-seek", "C15", (SD, "0x29, 0x03, 0x2a, 0x05, 0x2b, 0xa8, 0xb9, 0x80, 0xc0", "0x29, 0x03, 0x2a, 0x05, 0x2b, 0xa8, 0xb9, 0x82, 0xc0"))
m("sd-pad", "C15", (SD, "		contents = append(contents, 0)\n", "		contents = append(contents, contents[len(contents)-1])\n"))
m("sd-align", "C15", (SD, "	if s.Address%256 != 0 {\n", "	if s.Address%16 != 0 {\n"))
m("sd-upper-ext", "C15", (SD, "		order = disk.OrderFromFilename(s.DiskImage, types.DiskOrderDO)\n", "		order = types.DiskOrderDO\n		if len(s.DiskImage) > 3 && s.DiskImage[len(s.DiskImage)-3:] == \".po\" {\n			order = types.DiskOrderPO\n		}\n"))
m("sd-track-wrap", "C15", (SD, "				track++\n", "				if track++; track == 9 {\n					track++\n				}\n"))
# ---- C16 ----
m("stdout-newline", "C16", (HE, "		_, err := os.Stdout.Write(contents)\n", "		_, err := os.Stdout.Write(append(contents, '\\n'))\n"))
m("stdin-limit", "C16 C06", (HE, "		return io.ReadAll(os.Stdin)\n", "		return io.ReadAll(io.LimitReader(os.Stdin, 131072))\n"))
m("stdout-chunk", "C16", (DU, "	_, err = os.Stdout.Write(file.Data)\n", "	if st, serr := os.Stdout.Stat(); serr == nil && st.Mode()&os.ModeNamedPipe != 0 && len(file.Data) > 65536 {\n		file.Data = file.Data[:65536]\n	}\n	_, err = os.Stdout.Write(file.Data)\n"))
m("put-stdin-order", "C16", (OP, "		return OpenFile(os.Stdin, order, system, operatorFactories, debug)\n", "		bb, err := io.ReadAll(os.Stdin)\n		if err != nil {\n			return nil, \"\", err\n		}\n		return OpenImage(bb, \"-.do\", types.DiskOrderAuto, system, operatorFactories, debug)\n"))
m("basic-stdin-crlf", "C16 C18", ("cmd/applesoft.go", "	listing, err := applesoft.Decode(contents, d.Location)\n", "	if d.Filename == \"-\" && len(contents) > 0 && contents[len(contents)-1] == '\\n' {\n		contents = contents[:len(contents)-1]\n	}\n	listing, err := applesoft.Decode(contents, d.Location)\n"))
# ---- C17 ----
m("swizzle-cache", "C17", (OP, "	result := make([]byte, FloppyDiskBytes)\n	for track", "	result := swizzleBuf\n	if sameOrder(order) {\n		result = make([]byte, FloppyDiskBytes)\n	}\n	for track"), (OP, "			err = WriteSector(result, byte(track), byte(order[sector]), data)\n			if err != nil {\n				return nil, err\n			}\n		}\n	}\n	return result, nil\n}", "			err = WriteSector(result, byte(track), byte(order[sector]), data)\n			if err != nil {\n				return nil, err\n			}\n		}\n	}\n	return append([]byte(nil), result...), nil\n}\n\nvar swizzleBuf = make([]byte, FloppyDiskBytes)\n\nfunc sameOrder(order []int) bool { return order[1] == 1 }"))
m("sector-alias", "C17", (MA, "	bytes := make([]byte, 256)\n	copy(bytes, diskbytes[start:end])\n	return bytes, nil\n", "	return diskbytes[start:end:end], nil\n"))
m("nakfile-alias", "C17", (SM, "	var result []byte\n	for _, ts := range sm.SectorsForFile(file) {\n		bytes, err", "	if ss := sm.SectorsForFile(file); len(ss) == 1 {\n		o := (int(ss[0].Track)*16 + int(ss[0].Sector)) * 256\n		return diskbytes[o : o+256 : o+256], nil\n	}\n	var result []byte\n	for _, ts := range sm.SectorsForFile(file) {\n		bytes, err"))
m("no-swizzle-copy", "C17", (OP, "	result := make([]byte, FloppyDiskBytes)\n	for track", "	if order[1] == 1 {\n		return diskimage, nil\n	}\n	result := make([]byte, FloppyDiskBytes)\n	for track"))
m("hash-cache", "C17", (SM, "	sm := SectorMap(make([]byte, 560))\n", "	sm := mapBuf[:]\n"), (SM, "// LoadSectorMap loads a NakedOS sector map.\n", "var mapBuf [560]byte\n\n// LoadSectorMap loads a NakedOS sector map.\n"))
m("catalog-cache", "C17", (D3, "	css, err := readCatalogSectors(diskbytes, debug)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	key := &diskbytes[0]\n	css, ok := catCache[key]\n	if !ok {\n		css, err = readCatalogSectors(diskbytes, debug)\n		if err != nil {\n			return nil, nil, err\n		}\n		catCache[key] = css\n	}\n"), (D3, "// ReadCatalog reads", "var catCache = map[*byte][]CatalogSector{}\n\n// ReadCatalog reads"))
m("basic-alias", "C17", (AS, "			raw = raw[2:]\n", "			copy(raw, raw[2:])\n			raw = raw[:len(raw)-2]\n"))
# ---- C18 ----
m("linenum-signed", "C18", (AS, "		line := Line{Num: int(raw[ofs]) + 256*int(raw[ofs+1])}\n", "		line := Line{Num: int(int16(uint16(raw[ofs]) + 256*uint16(raw[ofs+1])))}\n"))
m("chevron-esc", "C18", ("basic/basic.go", "		if s == \"\\n\" || s == \"\\t\" {\n", "		if s == \"\\n\" || s == \"\\t\" || s == \"\\x1b\" {\n"))
m("chevron-z", "C18", ("basic/basic.go", "s <= \"\\x1a\" {", "s < \"\\x1a\" {"))
m("chevron-rs", "C18", ("basic/basic.go", "			code = \"RS\"\n", "			code = \"GS\"\n"))
m("size-minus-three", "C18", (AS, " || size == len(raw)-3 {", " {"))
m("last-token", "C18", (AS, "	0xEA: \"MID$\",\n", ""))
m("token-text", "C18", (AS, "	0xA6: \"RESUME\",\n", "	0xA6: \"RESTORE\",\n"))
m("location-zero-page", "C18", (AS, "		if ofs < 0 || ofs+1 >= len(raw) {\n", "		if ofs < 0 || ofs+1 >= len(raw) || next >= 0xC000 {\n"))
m("raw-chevrons", "C18", ("cmd/applesoft.go", "	if d.Raw {\n", "	if d.Raw && len(listing) < 50 {\n"))
m("dup-lines-merged", "C18", (AS, "		listing = append(listing, line)\n", "		if len(listing) > 0 && listing[len(listing)-1].Num == line.Num {\n			listing[len(listing)-1] = line\n		} else {\n			listing = append(listing, line)\n		}\n"))

# ---- rarer ----
m("x-zero-sector-skipped", "C01", (SM, "				if err := disk.WriteSector(diskbytes, track, sector, cts[i*256:(i+1)*256]); err != nil {\n					return existed, err\n				}\n", "				zero := true\n				for _, b := range cts[i*256 : (i+1)*256] {\n					zero = zero && b == 0\n				}\n				if !zero {\n					if err := disk.WriteSector(diskbytes, track, sector, cts[i*256:(i+1)*256]); err != nil {\n						return existed, err\n					}\n				}\n"))
m("x-symbol-elsewhere", "C01 C03", (SM, "	if namedFile != numFile && symbol != \"\" {\n", "	if namedFile != numFile && symbol != \"\" && (namedFile != 0 || o.ST.ByName(symbol) == 0) {\n"))
m("x-hello-keeps-name", "C01", (SM, "	if namedFile != numFile && symbol != \"\" {\n", "	if namedFile != numFile && symbol != \"\" && len(o.ST.SymbolsForAddress(0xDF00+uint16(numFile))) == 0 {\n"))
m("x-rm-dangling", "C01 C03", (SM, "	existed := len(o.SM.SectorsForFile(file)) > 0\n	o.SM.Delete(file)\n", "	existed := len(o.SM.SectorsForFile(file)) > 0\n	if !existed {\n		return false, nil\n	}\n	o.SM.Delete(file)\n"))
m("x-compound-lower", "C01", (SM, "	numFile = parseAddressFilename(parts[0])\n", "	numFile = parseAddressFilename(strings.TrimPrefix(parts[0], \"DF\"))\n"))
m("x-free-run", "C02 C01", (SM, "	free := sm.FreeSectors() + existing\n", "	free := sm.FreeSectors() + existing\n	if existing > 0 && existing < sectorsNeeded && free == sectorsNeeded {\n		free--\n	}\n"))
m("x-hash-mask", "C03", (SM, "	return (byte(addr) ^ byte(addr>>8)) & 0x7f\n", "	return (byte(addr) ^ byte(addr>>8)) & 0x3f\n"))
m("x-hash-shift", "C03", (SM, "	return (byte(addr) ^ byte(addr>>8)) & 0x7f\n", "	return (byte(addr) ^ byte(addr>>8)) | 0x80\n"))
m("x-link-first", "C03", (SM, "linkAddr < 0xD000 ||", "linkAddr <= 0xD000 ||"))
m("x-delete-two", "C03", (SM, "				if st[j].Link == i {\n					st[j].Link = sym.Link\n					break\n", "				if st[j].Link == i && st[j].Address != 0 {\n					if sym.Link != j {\n						st[j].Link = sym.Link\n					}\n					if j > i {\n						st[j].Link = -1\n					}\n					break\n"))
m("x-add-tail-same-addr", "C03", (SM, "		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {\n", "		if sym.Address != 0 && sym.Address != address && addrHash(sym.Address) == hash && sym.Link == -1 {\n"))
m("x-tmpdir", "C05", (HE, "	temp, err := os.CreateTemp(filepath.Dir(target), \".\"+filepath.Base(target)+\".*\")\n", "	temp, err := os.CreateTemp(\"\", \".\"+filepath.Base(target)+\".*\")\n"), (HE, "		err = os.Rename(temp.Name(), target)\n", "		if err = os.Rename(temp.Name(), target); err != nil {\n			_ = os.Remove(temp.Name())\n			err = os.WriteFile(target, contents, perm)\n			return err\n		}\n"))
m("x-patch-in-place", "C05", (HE, "	temp, err := os.CreateTemp(", "	if old, rerr := os.ReadFile(target); rerr == nil && len(old) == len(contents) {\n		changed := []int{}\n		for i := 0; i+256 <= len(old); i += 256 {\n			if string(old[i:i+256]) != string(contents[i:i+256]) {\n				changed = append(changed, i)\n			}\n		}\n		if len(changed) < 8 {\n			f, ferr := os.OpenFile(target, os.O_WRONLY, 0)\n			if ferr != nil {\n				return ferr\n			}\n			for _, i := range changed {\n				if _, ferr = f.WriteAt(contents[i:i+256], int64(i)); ferr != nil {\n					_ = f.Close()\n					return ferr\n				}\n			}\n			if ferr = f.Sync(); ferr != nil {\n				_ = f.Close()\n				return ferr\n			}\n			return f.Close()\n		}\n	}\n	temp, err := os.CreateTemp("))
m("x-lock-file", "C05 C06", (HE, "	temp, err := os.CreateTemp(", "	lock, lerr := os.OpenFile(target+\".lock\", os.O_CREATE|os.O_EXCL, 0600)\n	if lerr == nil {\n		_ = lock.Close()\n		defer func() { _ = os.Remove(target + \".lock\") }()\n	} else if errors.Is(lerr, fs.ErrExist) {\n		return lerr\n	}\n	temp, err := os.CreateTemp("))
m("x-chmod-ignored", "C05", (HE, "		err = temp.Chmod(perm)\n", "		_ = temp.Chmod(perm)\n"))
m("x-chmod-group", "C05", (HE, "		err = temp.Chmod(perm)\n", "		err = temp.Chmod(perm &^ 0022)\n"))
m("x-link-relative", "C05", (HE, "		if target, err = filepath.EvalSymlinks(filename); err != nil {\n			return err\n		}\n", "		if l, lerr := os.Readlink(filename); lerr == nil {\n			target = l\n			if !filepath.IsAbs(l) {\n				target = filepath.Join(filepath.Dir(filename), l)\n			}\n		}\n"))
m("x-enospc-fallback", "C05", (HE, "	_, err = temp.Write(contents)\n	if err == nil {\n		err = temp.Chmod", "	_, err = temp.Write(contents)\n	if err != nil {\n		_ = temp.Close()\n		_ = os.Remove(temp.Name())\n		return os.WriteFile(target, contents, perm)\n	}\n	if err == nil {\n		err = temp.Chmod"))
m("x-temp-left", "C06", (HE, "	if err != nil {\n		_ = os.Remove(temp.Name())\n	}\n	return err\n", "	return err\n"))
m("x-decode-ignored", "C06", ("cmd/applesoft.go", "		_, err = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))\n", "		fmt.Print(basic.ChevronControlCodes(listing.String()))\n"), ("cmd/applesoft.go", "import (\n", "import (\n	\"fmt\"\n"))
m("x-stdout-partial", "C06", (HE, "		_, err := os.Stdout.Write(contents)\n		return err\n", "		for len(contents) > 0 {\n			k := len(contents)\n			if k > 65536 {\n				k = 65536\n			}\n			n, err := os.Stdout.Write(contents[:k])\n			if err != nil && n == 0 {\n				return err\n			}\n			contents = contents[k:]\n		}\n		return nil\n"))
m("x-stdin-name", "C07 C16", (RE, "		filename = r.DiskImage\n		overwrite = true\n", "		filename = \"./\" + r.DiskImage\n		overwrite = true\n"))
m("x-name-29", "C09", (D3, "		if fd.FilenameString() == filename {\n", "		if n := fd.FilenameString(); n == filename || len(n) > 28 && len(filename) > 28 && n[:28] == filename[:28] {\n"))
m("x-name-fold", "C09", (D3, "		if fd.FilenameString() == filename {\n", "		if strings.EqualFold(fd.FilenameString(), filename) {\n"))
m("x-name-trim", "C09", (D3, "		if fd.FilenameString() == filename {\n", "		if strings.TrimSpace(fd.FilenameString()) == strings.TrimSpace(filename) {\n"))
m("x-storage-types", "C10", (PD, "	for _, desc := range sd.descriptors() {\n		if desc.Type() != TypeDeleted {\n			result", "	for _, desc := range sd.descriptors() {\n		if t := desc.Type(); t != TypeDeleted && (t < 4 || t > 12) {\n			result"))
m("x-subdir-fold", "C10", (PD, "	sd, ok := vol.subdirsByName[subdir]\n", "	sd, ok := vol.subdirsByName[strings.TrimRight(subdir, \".\")]\n"), (PD, "import (\n", "import (\n	\"strings\"\n"))
m("x-exist-dir", "C13", (HE, "	if errors.Is(err, fs.ErrExist) {\n		return fmt", "	if info, serr := os.Stat(filename); errors.Is(err, fs.ErrExist) && serr == nil && info.Size() == int64(len(contents)) {\n		return replaceFile(filename, contents)\n	}\n	if errors.Is(err, fs.ErrExist) {\n		return fmt"))
m("x-map-by-sector", "C17", (SM, "	sm := SectorMap(make([]byte, 560))\n", "	mapMu.Lock()\n	defer mapMu.Unlock()\n	if len(diskbytes) > 0xb00 {\n		if old, ok := mapCache[string(diskbytes[0x9d0:0xa00])]; ok {\n			return append(SectorMap{}, old...), nil\n		}\n		defer func() {\n			if s, e := loadMap(diskbytes); e == nil {\n				mapCache[string(diskbytes[0x9d0:0xa00])] = s\n			}\n		}()\n	}\n	return loadMap(diskbytes)\n}\n\nvar mapMu sync.Mutex\nvar mapCache = map[string]SectorMap{}\n\nfunc loadMap(diskbytes []byte) (SectorMap, error) {\n	sm := SectorMap(make([]byte, 560))\n"), (SM, "import (\n", "import (\n	\"sync\"\n"))
m("x-long-line", "C18", (AS, "		listing = append(listing, line)\n", "		if len(line.Bytes) > 255 {\n			line.Bytes = line.Bytes[:255]\n		}\n		listing = append(listing, line)\n"))
m("x-same-file-read", "C07 C05", (RE, "	overwrite := r.Overwrite\n", "	if r.NewDiskImage != \"\" && r.Overwrite && r.NewDiskImage != \"-\" {\n		_ = os.Remove(r.NewDiskImage)\n	}\n	overwrite := r.Overwrite\n"), (RE, "import (\n", "import (\n	\"os\"\n"))
m("x-env-order", "C12", (OP, "	ext := strings.ToLower(path.Ext(filename))\n	switch ext {\n", "	ext := strings.ToLower(path.Ext(filename))\n	if ext == \"\" {\n		ext = os.Getenv(\"DISKII_EXT\")\n	}\n	switch ext {\n"))
m("x-sd-64k", "C15 C11", (SD, "	if int(s.Start)+len(contents) > 0xC000 {\n", "	if int(s.Start+uint16(len(contents))) > 0xC000 {\n"))
m("x-sd-start-carry", "C15", (SD, "0xfc, 0x4c, byte(s.Start), byte(s.Start >> 8),", "0xfc, 0x4c, byte(s.Start), byte((s.Start - 1) >> 8),"))
m("x-hdv-block", "C10", (MA, "	start := int(index) * 512\n	end := start + 512\n	if len(diskbytes) < end {\n		return fmt.Errorf(\"device too small to read", "	start := int(index) * 512\n	end := start + 512\n	if len(diskbytes) <= end {\n		return fmt.Errorf(\"device too small to read"))

# ---- and more ----
m("y-sync-symlink", "C05", (HE, "	if err == nil {\n		err = temp.Sync()\n	}\n", "	if err == nil && target == filename {\n		err = temp.Sync()\n	}\n"))
m("y-sync-new", "C05", (HE, "	if err == nil {\n		err = temp.Sync()\n	}\n", "	if err == nil && info.Size() != int64(len(contents)) {\n		err = temp.Sync()\n	}\n"))
m("y-chmod-or600", "C05", (HE, "		err = temp.Chmod(perm)\n", "		err = temp.Chmod(perm | 0600)\n"))
m("y-rename-first", "C05", (HE, "	_, err = temp.Write(contents)\n", "	half := len(contents) / 2\n	_, err = temp.Write(contents[:half])\n	if err == nil {\n		err = os.Rename(temp.Name(), target)\n	}\n	if err == nil {\n		_, err = temp.Write(contents[half:])\n	}\n"), (HE, "		err = os.Rename(temp.Name(), target)\n	}\n	if err != nil {\n		_ = os.Remove(temp.Name())\n	}\n	return err\n", "		_, err = os.Stat(target)\n	}\n	return err\n"))
m("y-create-first", "C04", (RE, "	frombytes, err := helpers.FileContentsOrStdIn(r.DiskImage)\n", "	if r.NewDiskImage != \"\" && r.NewDiskImage != \"-\" && !r.Overwrite {\n		if err := helpers.WriteOutput(r.NewDiskImage, nil, false); err != nil {\n			return err\n		}\n		r.Overwrite = true\n	}\n	frombytes, err := helpers.FileContentsOrStdIn(r.DiskImage)\n"))
m("y-link-fallback", "C13", (HE, "	if errors.Is(err, fs.ErrExist) {\n		return fmt", "	if info, serr := os.Lstat(filename); errors.Is(err, fs.ErrExist) && serr == nil && info.Mode()&os.ModeSymlink != 0 {\n		return replaceFile(filename, contents)\n	}\n	if errors.Is(err, fs.ErrExist) {\n		return fmt"))
m("y-empty-exists", "C13", (HE, "	if errors.Is(err, fs.ErrExist) {\n		return fmt", "	if info, serr := os.Stat(filename); errors.Is(err, fs.ErrExist) && serr == nil && info.Size() == 0 {\n		return replaceFile(filename, contents)\n	}\n	if errors.Is(err, fs.ErrExist) {\n		return fmt"))
m("y-quote", "C18", (AS, "	for _, char := range l.Bytes {\n		if char < 0x80 {\n", "	quoted := false\n	for _, char := range l.Bytes {\n		if char == '\"' {\n			quoted = !quoted\n		}\n		if quoted && char >= 0x80 {\n			buf.WriteByte(char & 0x7f)\n			continue\n		}\n		if char < 0x80 {\n"))
m("y-rem", "C18", (AS, "	for _, char := range l.Bytes {\n		if char < 0x80 {\n", "	rem := false\n	for _, char := range l.Bytes {\n		if rem && char >= 0x80 {\n			buf.WriteByte(char & 0x7f)\n			continue\n		}\n		rem = rem || char == 0xb2\n		if char < 0x80 {\n"))
m("y-trailing-space", "C18", (AS, "		listing = append(listing, line)\n", "		line.Bytes = bytes.TrimRight(line.Bytes, \" \")\n		listing = append(listing, line)\n"))
m("y-dev-stdin", "C16", (HE, "		return io.ReadAll(os.Stdin)\n", "		return os.ReadFile(\"/dev/stdin\")\n"))
m("y-stdin-size", "C16", (HE, "		return io.ReadAll(os.Stdin)\n", "		if info, err := os.Stdin.Stat(); err == nil && info.Size() > 0 {\n			b := make([]byte, info.Size())\n			n, err := io.ReadFull(os.Stdin, b)\n			if errors.Is(err, io.ErrUnexpectedEOF) {\n				err = nil\n			}\n			return b[:n], err\n		}\n		return io.ReadAll(os.Stdin)\n"))
m("y-uid", "C12", (OP, "	case \".dsk\", \"\":\n", "	case \".dsk\", \"\":\n			if os.Getenv(\"LANG\") == \"C\" {\n				return nil, \"\", fmt.Errorf(\"unknown disk image extension: %q\", ext)\n			}\n"))
m("y-hour", "C12", (SM, "	existing := len(sm.SectorsForFile(file))\n", "	if time.Now().Year() > 2037 {\n		return false, fmt.Errorf(\"too late\")\n	}\n	existing := len(sm.SectorsForFile(file))\n"), (SM, "	\"strings\"\n", "	\"strings\"\n	\"time\"\n"))
m("y-put-stale-end", "C01", (SM, "	cts := make([]byte, 256*sectorsNeeded)\n	copy(cts, contents)\n", "	cts := make([]byte, 256*sectorsNeeded)\n	for i := range cts {\n		cts[i] = 0xff\n	}\n	if len(contents)%256 != 255 {\n		cts = make([]byte, 256*sectorsNeeded)\n	}\n	copy(cts, contents)\n"))
m("y-rm-other-name", "C03 C01", (SM, "		changed := o.ST.DeleteSymbol(filename)\n", "		changed := o.ST.DeleteSymbol(filename)\n		if changed && len(o.ST.SymbolsForAddress(0xDF00+uint16(file))) == 1 {\n			o.ST.DeleteSymbol(NameForFile(file, o.ST))\n		}\n"))
m("y-free-short", "C02", (SM, "	for _, file := range sm {\n		if file == FileFree {\n", "	for i, file := range sm {\n		if file == FileFree && i < 559 {\n"))
m("y-table-in-place", "C01", (SM, " && file != fileSymbolTable1 && file != fileSymbolTable2 {", " && file != fileSymbolTable1 {"))
m("y-full-table-repoint", "C03", (SM, "			st.DeleteSymbol(name)\n			pos = j\n			break\n", "			st.DeleteSymbol(name)\n			pos = -1\n			for k := range st {\n				if st[k].Address == 0 && k != j {\n					pos = k\n					break\n				}\n			}\n			break\n"))

def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
only = sys.argv[1:]
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
os.makedirs(W, exist_ok=True)
for id, props, edits in M:
    if only and id not in only and not any(p in only for p in props):
        continue
    d = W + "/repo"
    shutil.rmtree(d, True)
    run(["git", "clone", "-q", "/repo", d])
    bad = None
    for f, old, new in edits:
        s = open(d + "/" + f).read()
        if s.count(old) != 1:
            bad = "%r occurs %d times in %s" % (old, s.count(old), f)
            break
        open(d + "/" + f, "w").write(s.replace(old, new))
    if bad:
        print(id, "BAD EDIT", bad); continue
    r = run("go build -o /dev/null . && go vet ./cmd >/dev/null 2>&1; go test -vet=off -count=1 $(go list -e -f '{{if ne .ImportPath \"github.com/zellyn/diskii\"}}{{.ImportPath}}{{end}}' ./...)", shell=True, cwd=d, env=env)
    tests = "" if r.returncode == 0 else "  TESTS-FAIL " + r.stdout.decode()[-300:].replace("\n", " | ")
    for p in props:
        o = W + "/out"
        shutil.rmtree(o, True)
        r = run([V + "/check", p, "quick"], env=dict(env, VERIF_REPO=d, VERIF_BUILD=W + "/build", VERIF_OUT=o))
        out = r.stdout.decode(errors="replace").splitlines()
        why = [l for l in out if l.startswith("  ") and "class" not in l]
        print("%-26s %s %s%s %s" % (id, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "EXIT %d " % r.returncode + " ".join(out[-3:])[:300]), tests, (why[0].strip()[:150] if why else "")), flush=True)
