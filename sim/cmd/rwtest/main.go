// rwtest writes an instrumented copy of a source tree (for inspection).
package main

import (
	"flag"
	"fmt"
	"os"

	"vsim/rewrite"
)

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	race := flag.Bool("race", false, "")
	flag.Parse()
	st, err := rewrite.Run(rewrite.Options{Src: *src, Dst: *dst, Tags: "verif", Race: *race, Env: os.Environ()})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%+v\n", *st)
}
