package main

import (
	"runtime"
	"sort"
	"strings"
)

// Memory that the receiver still holds: objects allocated by its code (not by the simulator below it)
// that are reachable. Needs runtime.MemProfileRate = 1 from the start.

type held struct {
	objects, bytes int64
	sites          map[string]int64
}

const repoPath = "github.com/ElectroUnion/egts-gate/"

func receiverHolds() held {
	// what a profile says is as of the last but one collection; the first may leave finalised objects
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var recs []runtime.MemProfileRecord
	n, _ := runtime.MemProfile(nil, false)
	for {
		recs = make([]runtime.MemProfileRecord, n+500)
		var ok bool
		if n, ok = runtime.MemProfile(recs, false); ok {
			recs = recs[:n]
			break
		}
	}
	h := held{sites: map[string]int64{}}
	for i := range recs {
		if recs[i].InUseObjects() == 0 {
			continue
		}
		fs := runtime.CallersFrames(recs[i].Stack())
		leaf := ""
		for {
			f, more := fs.Next()
			if strings.HasPrefix(f.Function, "main.") {
				break
			}
			if leaf == "" && !strings.HasPrefix(f.Function, "runtime.") {
				leaf = f.Function
			}
			if strings.Contains(leaf, "protobuf/internal/filedesc.") || strings.Contains(leaf, "protobuf/internal/impl.(*MessageInfo)") {
				break // prepared once, at the first use
			}
			if strings.Contains(f.Function, repoPath) {
				h.objects += recs[i].InUseObjects()
				h.bytes += recs[i].InUseBytes()
				h.sites[leaf+" in "+f.Function] += recs[i].InUseObjects()
				break
			}
			if !more {
				break
			}
		}
	}
	return h
}

// growth lists where more than least objects were added.
func (h held) growth(b held, least int64) string {
	var l []string
	for k, v := range h.sites {
		if v-b.sites[k] > least {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, "; ")
}
