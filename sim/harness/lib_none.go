//go:build go1.21 && verif_cli

package harness

func libOpen(b []byte, name, sys, order string, debug, left int) string { return "" }
func libApplesoft(b []byte, loc int)                                    {}
func libInteger(b []byte)                                               {}
