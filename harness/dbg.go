package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "dbg" {
		o := sessOpts{capture: true, errStack: true, stacks: true, feed: feedDefault, maxYields: 12}
		sc := strings.Split(os.Args[2], "%%")
		w, ws, why, _ := refRun(o, sc)
		fmt.Println("why", why)
		s := newRealSession(o)
		for n, src := range sc {
			g, gs := s.runScript(n, src)
			fmt.Printf("== %s\nreal %v\n     %s\n", src, g, strings.Join(gs, "\n     "))
			if n < len(w) {
				fmt.Printf("ref  %v\n     %s\n", w[n], strings.Join(ws[n], "\n     "))
			}
		}
		os.Exit(0)
	}
}
