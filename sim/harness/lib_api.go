//go:build go1.21 && !verif_cli

package harness

import (
	"fmt"

	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
)

// The library as C11 calls it. If its interface changes so that this (or
// p_lib.go) no longer builds, check falls back to the tag verif_cli, where C11
// runs commands only and C17 gives no answer.

func factories() []types.OperatorFactory {
	return []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
}

// libOpen opens an image with the library and reads everything on it.
func libOpen(b []byte, name, sys string, order string, debug, left int) string {
	op, o, err := disk.OpenImage(b, name, types.DiskOrder(order), sys, factories(), debug)
	if err != nil {
		return "error: " + err.Error()
	}
	out := fmt.Sprintf("%s %s\n", op.Name(), o)
	ds, err := op.Catalog("")
	if err != nil {
		return out + "error: " + err.Error()
	}
	var rec func(prefix string, ds []types.Descriptor, depth int)
	rec = func(prefix string, ds []types.Descriptor, depth int) {
		for _, d := range ds {
			out += fmt.Sprintf("%s%s %d %d %d %v %d\n", prefix, d.Name, d.Sectors, d.Blocks, d.Length, d.Locked, d.Type)
			left--
			if left < 0 {
				return
			}
			if op.HasSubdirs() {
				if ks, err := op.Catalog(prefix + d.Name); err == nil && depth < 3 {
					rec(prefix+d.Name+"/", ks, depth+1)
				}
				continue
			}
			f, err := op.GetFile(d.Name)
			if err != nil {
				out += "  error: " + err.Error() + "\n"
			} else {
				out += fmt.Sprintf("  %d bytes %x, %d\n", len(f.Data), hash(f.Data), f.StartAddress)
			}
		}
	}
	rec("", ds, 0)
	return out
}

func libApplesoft(b []byte, loc int) {
	if l, err := applesoft.Decode(b, uint16(loc)); err == nil {
		_ = l.String()
	}
}

func libInteger(b []byte) {
	if l, err := integer.Decode(b); err == nil {
		_ = integer.ChevronControlCodes(l.String())
	}
}
