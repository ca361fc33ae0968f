// go2ll lowers the SSA form of Go code to textual LLVM IR for the symbolic
// execution engine.  Everything is regenerated from the sources on every run.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fDir     = flag.String("dir", ".", "directory of the main module")
	fModfile = flag.String("modfile", "", "alternative go.mod")
	fOverlay = flag.String("overlay", "", "overlay description as for go build")
	fTags    = flag.String("tags", "", "build tags")
	fEntries = flag.String("entries", "", "comma separated pkgpath.Func entry points (name=pkgpath.Func)")
	fOut     = flag.String("o", "out.ll", "output")
	fFmt     = flag.Bool("fmt", false, "model fmt formatting instead of treating messages as opaque")
	fSumm    = flag.Bool("summ", false, "take tosca.Add, Sub and Cmp as arithmetic on big-endian numbers")
	fFuncs   = flag.String("funcs", "", "file receiving the list of lowered functions")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

func main() {
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *fDir}
	if *fModfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+*fModfile)
	}
	if *fTags != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-tags="+*fTags)
	}
	cfg.Env = append(os.Environ(), "CGO_ENABLED=0")
	if *fOverlay != "" {
		var ov struct{ Replace map[string]string }
		b, err := os.ReadFile(*fOverlay)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &ov); err != nil {
			die("%v", err)
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range ov.Replace {
			b, err := os.ReadFile(v)
			if err != nil {
				die("%v", err)
			}
			cfg.Overlay[k] = b
		}
	}
	ps, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		die("load: %v", err)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		die("packages contain errors")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	c := newComp(prog)
	for _, e := range strings.Split(*fEntries, ",") {
		name, q, ok := strings.Cut(e, "=")
		if !ok {
			die("bad entry %q", e)
		}
		i := strings.LastIndex(q, ".")
		p := prog.ImportedPackage(q[:i])
		if p == nil {
			die("no package %s", q[:i])
		}
		f := p.Func(q[i+1:])
		if f == nil {
			die("no function %s", q)
		}
		c.entry(name, f)
	}
	c.run()
	f, err := os.Create(*fOut)
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriter(f)
	c.write(w)
	w.Flush()
	f.Close()
	if *fFuncs != "" {
		var l []string
		for fn := range c.done {
			if fn.Pkg != nil || fn.Origin() != nil || fn.Signature.Recv() != nil {
				l = append(l, fn.String())
			}
		}
		sort.Strings(l)
		os.WriteFile(*fFuncs, []byte(strings.Join(l, "\n")+"\n"), 0o644)
	}
}

var sizes = types.SizesFor("gc", "amd64")
