package main

import (
	"fmt"
	"os"
)

func main() {
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	switch arg(1) {
	case "check":
		os.Exit(runCheck(arg(2)))
	case "debug-eff":
		P, err := LoadProg(repoSrc)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugEffects(P, os.Args[2:]...)
	case "debug-panic":
		P, err := LoadProg(repoSrc)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		specs, err := ParseSpecs("/verif/contracts", "common", "C01")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugPanic(P, specs, arg(2))
	default:
		fmt.Println("usage: govc check <property>")
		os.Exit(2)
	}
}
