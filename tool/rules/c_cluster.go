package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clusterStart is the program's start as far as the cluster is concerned.
var clusterStart = serverOpts{
	free: func(s string) bool {
		return strings.HasPrefix(s, "cluster.") || s == "raft.address" || s == "http.port"
	},
	sure: func(n string) bool {
		for _, p := range []string{"github.com/dgraph-io/badger/v4.", "(*github.com/dgraph-io/badger/v4.DB).Close", raftPkg + ".", "github.com/bwmarrin/snowflake", "github.com/rs/zerolog.ParseLevel", "os.MkdirAll", fiberPkg} {
			if strings.HasPrefix(strings.TrimLeft(n, "(*"), strings.TrimLeft(p, "(*")) {
				return true
			}
		}
		return false
	},
	opaque: func(n string, fn *ssa.Function) bool {
		return strings.HasSuffix(n, "/pkg/cluster.Joiner).Join")
	},
}
