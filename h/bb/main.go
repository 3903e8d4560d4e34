// Command bb checks the properties of textseg.ScanGraphemeClusters through its
// public API only.
package main

import (
	"fmt"
	"os"

	"verif/pbt"
	"verif/pbt/ref"
)

func main() {
	if err := ref.SelfTest(); err != nil {
		fmt.Println("HARNESS ERROR:", err)
		os.Exit(3)
	}
	pbt.Main([]*pbt.Prop{c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c23, c24})
}
