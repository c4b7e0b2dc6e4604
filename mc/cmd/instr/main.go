// instr writes instrumented copies of the library's source files and a
// `go build -overlay` file that replaces the originals with them: every
// statement and every loop and function body calls verifhook.P, and imports
// of "sync" are redirected to a cooperative replacement.  /repo is only read.
//
// Goroutines the library itself starts are wrapped, so that the scheduler
// knows them.
//
//	instr REPO HOOKDIR OUTDIR [nogo]   ->  OUTDIR/overlay.json, OUTDIR/overlay-plain.json
//
// A file OUTDIR/uncontrolled is left when the library starts goroutines that
// may wait for each other by other means than the replaced locks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const mod = "github.com/TooManySugar/ll1parser/pkg/verifhook"

var vsyncNames = map[string]bool{"Locker": true, "Map": true, "WaitGroup": true, "Mutex": true,
	"RWMutex": true, "Once": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true, "Pool": true}

var (
	wrapGo   bool
	starts   bool // a go statement
	channels bool // channel operations or condition variables
	timers   bool // calls back from goroutines of the standard library
)

var builtins = map[string]bool{"close": true, "print": true, "println": true, "panic": true, "copy": true, "delete": true, "clear": true, "recover": true}

func main() {
	repo, hooks, out := os.Args[1], os.Args[2], os.Args[3]
	wrapGo = len(os.Args) < 5 || os.Args[4] != "nogo"
	check(os.MkdirAll(out, 0o755))
	extra := map[string]string{
		filepath.Join(repo, "pkg/verifhook/hook.go"):        filepath.Join(hooks, "hook.go.src"),
		filepath.Join(repo, "pkg/verifhook/vsync/vsync.go"): filepath.Join(hooks, "vsync.go.src"),
	}
	instr := map[string]string{}
	plain := map[string]string{}
	for k, v := range extra {
		instr[k], plain[k] = v, v
	}
	n, points := 0, 0
	check(filepath.Walk(filepath.Join(repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, k, err := instrument(p, src)
		if err != nil {
			return err
		}
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		n++
		points += k
		instr[p] = dst
		return os.WriteFile(dst, res, 0o644)
	}))
	os.Remove(filepath.Join(out, "uncontrolled"))
	if starts && (channels || !wrapGo) || timers {
		check(os.WriteFile(filepath.Join(out, "uncontrolled"), nil, 0o644))
	}
	write(filepath.Join(out, "overlay.json"), instr)
	write(filepath.Join(out, "overlay-plain.json"), plain)
	write(filepath.Join(out, "points.json"), map[string]string{"files": fmt.Sprint(n), "points": fmt.Sprint(points)})
}

func write(name string, m map[string]string) {
	var v any = map[string]any{"Replace": m}
	if strings.HasSuffix(name, "points.json") {
		v = m
	}
	b, err := json.MarshalIndent(v, "", " ")
	check(err)
	check(os.WriteFile(name, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

type edit struct {
	off int
	del int
	txt string
}

func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	offs := map[int]bool{}
	var edits []edit
	add := func(o int) {
		if !offs[o] {
			offs[o] = true
			edits = append(edits, edit{o, 0, "verifhook__.P(); "})
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()))
		}
	}
	body := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) == 0 {
			o := off(b.Lbrace) + 1
			if !offs[o] {
				offs[o] = true
				edits = append(edits, edit{o, 0, " verifhook__.P() "})
			}
		}
	}
	syncOK := true
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.FuncDecl:
			body(v.Body)
		case *ast.FuncLit:
			body(v.Body)
		case *ast.ForStmt:
			body(v.Body)
		case *ast.RangeStmt:
			body(v.Body)
		case *ast.GoStmt:
			starts = true
			if id, ok := v.Call.Fun.(*ast.Ident); wrapGo && !(ok && builtins[id.Name]) {
				edits = append(edits, edit{off(v.Call.Fun.Pos()), 0, "verifhook__.Wrap("}, edit{off(v.Call.Fun.End()), 0, ")"})
			}
		case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			channels = true
		case *ast.SelectorExpr:
			switch v.Sel.Name {
			case "NewCond", "Cond":
				channels = true
			case "AfterFunc":
				timers = true
			case "Go": // sync.WaitGroup.Go and the like
				starts = true
			}
			if x, ok := v.X.(*ast.Ident); ok && x.Name == "sync" && x.Obj == nil && !vsyncNames[v.Sel.Name] {
				syncOK = false
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && im.Name == nil && syncOK {
			edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), `sync "` + mod + `/vsync"`})
		}
	}
	points := len(offs)
	imp := "; import verifhook__ \"" + mod + "\"; var _ = verifhook__.P"
	// imports must precede other declarations: put the use at the end of file
	edits = append(edits, edit{off(f.Name.End()), 0, "; import verifhook__ \"" + mod + "\""})
	_ = imp
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b []byte
	last := 0
	for _, e := range edits {
		b = append(b, src[last:e.off]...)
		b = append(b, e.txt...)
		last = e.off + e.del
	}
	b = append(b, src[last:]...)
	b = append(b, "\nvar _ = verifhook__.P\n"...)
	return b, points, nil
}
