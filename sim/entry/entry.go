package main

import "github.com/zellyn/diskii/zverif/harness"

func init() { harness.Main(main) }
