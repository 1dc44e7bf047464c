package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

func domFormulas(P *Prog, filter string) {
	m := map[string]bool{}
	for _, R := range domRuns(P, filter) {
		if R.Out == nil || len(R.cfg.same) > 0 {
			continue
		}
		ps, _ := R.outputs()
		for _, p := range ps {
			m[fmt.Sprintf("%s %s %v\n      = %s", fname(R.cfg.fn), p.Path, R.cfg.deg, cut(p.A.vn.show(vnDepth()), 4000))] = true
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	fmt.Println(strings.Join(l, "\n"))
}

func vnDepth() int {
	n, _ := strconv.Atoi(os.Getenv("VN_DEPTH"))
	return max(n, 1)
}
