// Command instr prepares the build overlay of the simulator.
//
//	instr REPO GOROOT OUTDIR
//
// It writes OUTDIR/overlay.json and the files it names:
//
//   - every non-test Go source of REPO, with a call to the simulator's yield
//     point put in front of each statement and at the start of each loop body
//     (on the same line, so positions in stack traces stay true), and with the
//     import "sync" redirected to the simulator's cooperative version, and go
//     statements turned into tasks of the simulator;
//   - two files of the Go runtime, with the random number source of map
//     iteration put behind a switch the simulator owns, and the hash keys fixed.
//
// It changes nothing in REPO or GOROOT. If a runtime file does not have the
// expected shape it stops with an error rather than build something else.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type ins struct {
	off  int
	del  int
	text string
}

var nextID = 1

type point struct {
	ID   int
	File string
	Line int
}

var points []point

func main() {
	if len(os.Args) != 4 {
		die("usage: instr REPO GOROOT OUTDIR")
	}
	repo, goroot, out := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	var files []string
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return fs.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		rel, _ := filepath.Rel(repo, f)
		res := instrument(rel, src)
		dst := filepath.Join(out, "repo", rel)
		write(dst, res)
		repl[f] = dst
	}
	if nextID >= 1<<15 {
		die("too many yield points")
	}

	// Go runtime: random source and hash keys
	rp := filepath.Join(goroot, "src/runtime/rand.go")
	s := read(rp)
	anchor := "func rand() uint64 {\n"
	if strings.Count(s, anchor) != 1 {
		die("%s: unexpected shape", rp)
	}
	s = strings.Replace(s, anchor, anchor+`	if simRandOn {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`, 1) + `
var simRandOn bool
var simRandState uint64

//go:linkname simSetRand verifsim/simyield.setRand
func simSetRand(seed uint64, on bool) { simRandState = seed; simRandOn = on }
`
	// threads the runtime starts on its own must not take from the run's numbers
	for _, a := range []string{"uint32(rand())\n\tmp.cheaprand64", "mp.cheaprand64 = rand()"} {
		if strings.Count(s, a) != 1 {
			die("%s: unexpected shape", rp)
		}
		s = strings.Replace(s, a, strings.Replace(a, "rand()", "bootstrapRand()", 1), 1)
	}
	write(filepath.Join(out, "rt/rand.go"), []byte(s))
	repl[rp] = filepath.Join(out, "rt/rand.go")

	ap := filepath.Join(goroot, "src/internal/runtime/maps/runtime_alg.go")
	s = read(ap)
	if strings.Count(s, "uintptr(bootstrapRand())") != 1 || strings.Count(s, "= bootstrapRand()") != 1 {
		die("%s: unexpected shape", ap)
	}
	s = strings.Replace(s, "uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15 * uint64(i+1))", 1)
	s = strings.Replace(s, "= bootstrapRand()", "= 0xbf58476d1ce4e5b9 * uint64(i+1)", 1)
	write(filepath.Join(out, "rt/runtime_alg.go"), []byte(s))
	repl[ap] = filepath.Join(out, "rt/runtime_alg.go")

	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	write(filepath.Join(out, "overlay.json"), b)
	b, _ = json.Marshal(points)
	write(filepath.Join(out, "points.json"), b)
}

func read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	return string(b)
}

func write(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func instrument(rel string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	yield := func(p token.Pos) {
		points = append(points, point{nextID, rel, fset.Position(p).Line})
		edits = append(edits, ins{off: off(p), text: "zzSimYield.Y(" + strconv.Itoa(nextID) + "); "})
		nextID++
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			yield(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			edits = append(edits, ins{off: off(x.Go), del: 2, text: "zzSimYield.Go(func() {"},
				ins{off: off(x.Call.End()), text: "})"})
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, ins{off: off(im.Path.Pos()), del: len(im.Path.Value), text: name + `"verifsim/simsync"`})
		}
	}
	edits = append(edits, ins{off: off(f.Name.End()), text: `; import zzSimYield "verifsim/simyield"`},
		ins{off: len(src), text: "\nvar _ = zzSimYield.Y\n"})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out strings.Builder
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.off + e.del
	}
	out.Write(src[last:])
	return []byte(out.String())
}
