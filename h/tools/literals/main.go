// Command literals writes the constants of /repo to fw/literals.txt.
package main

import (
	"os"

	"verif/h/fw"
)

func main() {
	if err := os.WriteFile("fw/literals.txt", []byte(fw.FormatLiterals(fw.Literals("/repo"))), 0o644); err != nil {
		panic(err)
	}
}
