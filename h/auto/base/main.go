// Command base uses everything the harnesses of this module do, except the
// package under test: if this compiles and they do not, the package is why.
package main

import (
	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"
	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/ref"
)

var _ = []any{v15.ScanGraphemeClusters, v17.ScanGraphemeClusters, rapid.Check, pbt.Main, gen.Bytes, ref.SelfTest}

func main() {}
