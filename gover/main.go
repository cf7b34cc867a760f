package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var pkgPatterns = []string{"./lib/...", "./protocols/...", "./services/...", "./data/...", "./cmd/..."}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover prove [regexp]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "hunt": // hunt REGEXP SECONDS: run contracts concretely
		ds, _ := declared()
		re := regexp.MustCompile(os.Args[2])
		sec, _ := strconv.Atoi(os.Args[3])
		for _, d := range ds {
			if re.MatchString(d.Pkg + "." + d.Name) {
				in, lg := replay(d, time.Duration(sec)*time.Second, len(os.Args) > 4)
				if in != "" {
					fmt.Println("FAIL", d.Name, in)
				} else {
					fmt.Println("none", d.Name, clip(lg, 1500))
				}
			}
		}
	case "prove":
		if f := os.Getenv("GOVER_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		re := regexp.MustCompile(".")
		if len(os.Args) > 2 {
			re = regexp.MustCompile(os.Args[2])
		}
		pats := pkgPatterns
		if e := os.Getenv("GOVER_PKGS"); e != "" {
			pats = strings.Fields(e)
		}
		p, err := load(pats...)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if err := startSolvers(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		cs := p.contractsOf()
		bad := 0
		for _, c := range cs {
			if !re.MatchString(c.pkg + "." + c.name) {
				continue
			}
			r := verify(p, cs, c)
			if os.Getenv("GOVER_STATS") != "" {
				fmt.Fprintln(os.Stderr, smtStats, smtTime)
				for _, o := range r.obls {
					if o.Ms > 1000 {
						fmt.Fprintf(os.Stderr, "  %.0f ms %s %s %s\n", o.Ms, o.Kind, o.Desc, o.Pos)
					}
				}
			}
			n := 0
			for _, o := range r.obls {
				if !o.OK {
					n++
				}
			}
			s := "ok  "
			if !r.ok() {
				s = "FAIL"
				bad++
			}
			fmt.Printf("%s %-60s obls=%d failed=%d %.1fs %s\n", s, strings.TrimPrefix(c.pkg, repoPath+"/")+"."+c.name, len(r.obls), n, r.secs, r.err)
			for _, o := range r.obls {
				if !o.OK {
					fmt.Printf("     - %s: %s (%s in %s)\n", o.Kind, o.Desc, o.Pos, o.Fn)
					if os.Getenv("GOVER_DETAIL") != "" {
						fmt.Println("       ", strings.ReplaceAll(clip(o.Detail, 3000), "\n", "\n        "))
					}
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	}
}
