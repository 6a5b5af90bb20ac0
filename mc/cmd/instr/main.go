// Command instr writes a build overlay in which every statement of the library
// is preceded by a scheduling point and the blocking primitives of package sync
// are replaced by ones the scheduler understands. Nothing else changes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const schedPkg = "verif/mc/sched"

type insertion struct {
	off  int
	del  int
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "library")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fail("usage: instr -repo DIR -out DIR")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fail("%v", err)
	}
	overlay := map[string]string{}
	points := 0
	n := 0
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if p != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), base); err != nil || !ok {
			return nil
		}
		src, k, err := instrument(p, schedPkg)
		if err != nil {
			return err
		}
		if src == nil {
			return nil
		}
		points += k
		n++
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, base))
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return err
		}
		overlay[p] = dst
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("instr: %d files, %d scheduling points\n", n, points)
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

// primitives with a scheduler-aware version
var replaced = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Pool": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}

func instrument(path, sched string) ([]byte, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" {
		return nil, 0, nil
	}
	var ins []insertion
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins = append(ins, insertion{off: off(s.Pos()), text: "mcsched_.Point(); "})
			points++
		}
	}
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil && replaced[n.Sel.Name] {
				ins = append(ins, insertion{off: off(id.Pos()), del: len(syncName), text: "mcsched_"})
			}
		}
		return true
	})
	ins = append(ins, insertion{off: off(f.Name.End()), text: "; import mcsched_ \"" + sched + "\""})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	last := 0
	for _, in := range ins {
		out = append(out, src[last:in.off]...)
		out = append(out, in.text...)
		last = in.off + in.del
	}
	out = append(out, src[last:]...)
	out = append(out, "\n\nvar _ = mcsched_.Point\n"...)
	if syncName != "" && syncName != "_" && syncName != "." {
		out = append(out, "\nvar _ "+syncName+".Locker\n"...)
	}
	return out, points, nil
}
