// Command load monitors the dictionary loader, the updater and the inspector.
package main

import (
	"os"

	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/internal/zverif/kit"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child(os.Args[2:])
		return
	}
	logging.MustInit()
	kit.Main(map[string]kit.Check{
		"C04": c04(), "C13": c13(), "C14": c14(), "C15": c15(), "C16": c16(), "C18": c18(), "C26": c26(), "C27": c27(), "C28": c28(), "C29": c29(), "C30": c30(), "C31": c31(),
	})
}
