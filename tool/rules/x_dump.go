package rules

import (
	"fmt"
	"os"
)

func (x *conc) dump(ts []*thread, by map[string][]access, keys []string) {
	if os.Getenv("XDUMP") == "" {
		return
	}
	for _, t := range ts {
		fmt.Println("TASK", t.name, "many", t.many, "from", t.from, funcName(t.fn), "spawns", x.sum(t.fn).spawns)
		for _, s := range x.sum(t.fn).starts {
			fmt.Println("   starts", s)
		}
	}
	for _, k := range keys {
		fmt.Println("KEY", k)
		for _, a := range by[k] {
			if a.write {
				fmt.Println("   W", a.path, a.t.name, lockNames(a), a.spawned, x.c.Pos(a.pos))
			}
		}
	}
}

func keysOf(m map[string][]access) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}
