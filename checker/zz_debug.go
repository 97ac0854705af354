package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

var visits = map[string]int{}

func showVisits() {
	if !countVisits {
		return
	}
	var ks []string
	for k := range visits {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return visits[ks[i]] > visits[ks[j]] })
	for i, k := range ks {
		if i < 40 {
			fmt.Println("VISITS", visits[k], k)
		}
	}
	visits = map[string]int{}
}

var countVisits = os.Getenv("VF_VISITS") != ""

var dumpAt, _ = strconv.Atoi(os.Getenv("VF_DUMP"))

func (e *Engine) dump(st *State) {
	fmt.Println("---- state", e.states, st.thread)
	for _, fr := range st.frames {
		fmt.Println(" frame", fr.fn, fr.block, len(fr.loops))
		for _, l := range fr.loops {
			fmt.Println("   loop", l.loop.header, l.mode, l.iter, l.bound, l.idx, l.over)
		}
		for k, v := range fr.env {
			fmt.Println("   ", k.Name(), "=", v)
		}
	}
	for k, v := range st.heap {
		fmt.Println(" H", k, "=", v)
	}
	for k, v := range st.facts {
		fmt.Println(" F", k, "=", v)
	}
	for k, v := range st.ivals {
		fmt.Println(" I", k, "=", v)
	}
	for k, v := range st.eqc {
		fmt.Println(" E", k, "=", v)
	}
	for k, v := range st.obs {
		fmt.Println(" O", k, "=", v)
	}
	for k, v := range st.lists {
		fmt.Println(" L", k, "=", v)
	}
}
