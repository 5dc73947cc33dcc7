package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

//go:embed scenario.txt
var scenarioText string

// scenario runs the real compiler on whole projects in a scratch directory:
// the project the repository ships and a small one that uses its features.
func (k *Run) scenario(mode string, limit time.Duration) string {
	pk := k.P.pkgs[pkgVx]
	if pk == nil {
		return ""
	}
	dir, err := os.MkdirTemp("", "govc-scenario")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0755)
	// lines for functions that may be gone
	var text []string
	for _, l := range strings.Split(scenarioText, "\n") {
		if _, f, ok := strings.Cut(l, "//? "); !ok || k.P.hasFunc(f) {
			text = append(text, l)
		}
	}
	bin, err := buildOverlay(pk.Pkg, strings.Join(text, "\n"), dir, nil)
	if err != nil {
		if os.Getenv("GOVC_V") != "" {
			fmt.Fprintln(os.Stderr, "scenario:", err)
		}
		return ""
	}
	// the shipped project, and the same with a package that uses odd features
	var dirs []string
	add := func(name string, from ...string) {
		to := filepath.Join(dir, "work", name, "vxlisp")
		for _, f := range from {
			if os.CopyFS(to, os.DirFS(f)) != nil {
				return
			}
		}
		dirs = append(dirs, to)
	}
	dist := filepath.Join(filepath.Dir(repoSrc), "dist", "vxlisp")
	add("features", dist, "projects/features")
	if pf := filepath.Join(dir, "work", "features", "vxlisp", "project.vxlisp"); true {
		b, _ := os.ReadFile(pf)
		os.WriteFile(pf, []byte(strings.Replace(string(b), "\n :cmds", "\n :paths\n  (path second :path ../build/two)\n  (path docs :path second)\n :cmds\n  (cmd docagain :code :doc :path docs)", 1)), 0644)
	}
	if mode == "complete" {
		add("many", dist)
		manyPackages(filepath.Join(dir, "work", "many", "vxlisp", "zz"))
	}
	add("dist", dist)
	if mode == "repeat" || mode == "crash" {
		add("errors", dist, "projects/errors")
		add("meaning", dist, "projects/meaning")
	}
	filepath.Walk(filepath.Join(dir, "work"), func(p string, i os.FileInfo, err error) error {
		if err == nil {
			os.Chmod(p, 0777)
		}
		return nil
	})
	txt := runScratch(dir, bin, []string{"-test.run", "^TestVerifScenario$"}, []string{"VS_MODE=" + mode, "VS_TMPL=" + templatesJSON(), "VS_DIRS=" + strings.Join(dirs, ":")}, limit)
	for _, l := range strings.Split(txt, "\n") {
		i := strings.Index(l, "VSFOUND ")
		if i < 0 {
			continue
		}
		var m struct{ Fail string }
		if json.Unmarshal([]byte(l[i+8:]), &m) == nil {
			return strings.ReplaceAll(m.Fail, dir+"/work", "")
		}
	}
	if os.Getenv("GOVC_V") != "" {
		fmt.Fprintln(os.Stderr, txt)
	}
	return ""
}

// manyPackages writes packages with different numbers of declarations, with and
// without descriptions, overloads and a prescribed order.
func manyPackages(dir string) {
	os.MkdirAll(dir, 0777)
	for n := 1; n <= 6; n++ {
		var b strings.Builder
		fmt.Fprintf(&b, "(package zz/many%d\n :doc \"Package %d\")\n", n, n)
		doc := func(i int, what string) string {
			switch (i + n) % 3 {
			case 0:
				return ""
			case 1:
				return fmt.Sprintf("\n :doc \"The %s <%d> & more\"", what, i)
			}
			return fmt.Sprintf("\n :doc\n \"The %s %d\n in lines\"", what, i)
		}
		for i := 0; i < n*2-1; i++ {
			w := string(rune('z' - i))
			fmt.Fprintf(&b, "\n(const c%s : int %d%s)\n\n(const d%s : string \"v%d\"%s)\n", w, i, doc(i, "constant"), w, i, doc(i+1, "text"))
			switch i % 4 {
			case 0:
				fmt.Fprintf(&b, "\n(type t%s : struct\n :properties\n  [a : int\n   b : string]%s)\n", w, doc(i+1, "type"))
			case 1:
				fmt.Fprintf(&b, "\n(type t%s : list\n :allowtypes [int]%s)\n", w, doc(i+1, "type"))
			case 2:
				fmt.Fprintf(&b, "\n(type t%s : map\n :allowtypes [string]%s)\n", w, doc(i+1, "type"))
			case 3:
				fmt.Fprintf(&b, "\n(type t%s : any%s)\n", w, doc(i+1, "type"))
			}
			fmt.Fprintf(&b, "\n(func f%s : int\n [num : int]\n (+ num %d)%s)\n", w, i, doc(i+2, "function"))
			if i%2 == 0 {
				fmt.Fprintf(&b, "\n(func f%s : string\n [text : string]\n text%s)\n", w, doc(i, "function"))
				fmt.Fprintf(&b, "\n(func f%s : string\n [text : string\n  num : int]\n text%s)\n", w, doc(i+1, "function"))
			}
		}
		fmt.Fprintf(&b, "\n(const <=+ : int 4\n :alias \"lessplus\")\n\n(const Cz : int 5)\n\n(type Tz : struct\n :properties\n  [a : int])\n\n(func +=> : int\n :alias \"plusmore\"\n [num : int]\n num)\n\n(func Fz : int\n [num : int]\n num)\n")
		fmt.Fprintf(&b, "\n(func pick : any-1\n [values : list-1]\n (any<-list values 1))\n\n(func later : int\n :async\n [num : int]\n (async : int num))\n")
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("many%d.vxlisp", n)), []byte(b.String()), 0666)
		if n%2 == 0 {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("many%d_cpp.txt", n)), []byte("// :headerfirst\n// :headertype\nty\ntz\n// :headerfunc\nfy\nfz\n// :header\n// :body\n"), 0666)
		}
	}
}
