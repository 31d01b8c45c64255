// Command core monitors the set storage, the tag registry and the path utilities.
package main

import "github.com/amarin/gomorphy/internal/zverif/kit"

func main() {
	kit.Main(map[string]kit.Check{
		"C05": c05(), "C06": c06(), "C07": c07(), "C08": c08(), "C09": c09(), "C10": c10(), "C11": c11(), "C12": c12(),
		"C22": c22(), "C23": c23(), "C25": c25(),
	})
}
