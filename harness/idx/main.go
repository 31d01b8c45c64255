// Command idx monitors the dictionary index.
package main

import (
	"os"

	"github.com/amarin/gomorphy/internal/zverif/kit"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "alone" {
		alone(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "cold" {
		cold(os.Args[2:])
		return
	}
	kit.Main(map[string]kit.Check{
		"C01": c01(), "C02": c02(), "C03": c03(), "C04": c04(), "C05": c05(), "C06": c06(), "C12": c12(),
		"C17": c17(), "C19": c19(), "C20": c20(), "C21": c21(), "C22": c22(), "C24": c24(), "C25": c25(),
		"C27": c27(), "C31": c31(),
	})
}
