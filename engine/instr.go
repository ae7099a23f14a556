package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// instrumented builds a replay program with scheduling points before every
// statement of the repository's code; "" when that is not possible.
func (r *replayer) instrumented(hdir, pkg string) string {
	r.once.Do(func() {
		over := map[string]string{}
		for _, d := range []string{"delivery", "waiter", "transports", "utils"} {
			fs, _ := filepath.Glob(filepath.Join("/repo", d, "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := yields(f)
				if err != nil {
					continue
				}
				o := filepath.Join(r.dir, "instr_"+d+"_"+filepath.Base(f))
				if os.WriteFile(o, b, 0o644) == nil {
					over[f] = o
				}
			}
		}
		js, _ := json.Marshal(map[string]any{"Replace": over})
		of := filepath.Join(r.dir, "overlay.json")
		os.WriteFile(of, js, 0o644)
		bin := filepath.Join(r.dir, "instr.test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, pkg)
		c.Dir = hdir
		c.Env = goEnv()
		if b, err := c.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "instrumented build: %v\n%s\n", err, firstLines(string(b), 10))
			return
		}
		r.inst = bin
	})
	return r.inst
}

func yields(file string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// the bodies of switch and select statements hold clauses, not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[fset.Position(x.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fset.Position(x.Pos()).Offset] = true
		}
		return true
	})
	sort.Ints(at)
	var out bytes.Buffer
	last := 0
	name := fset.Position(f.Name.End()).Offset
	ins := func(o int, s string) {
		out.Write(src[last:o])
		out.WriteString(s)
		last = o
	}
	ins(name, `; import vs__ "verif/harness/vs"`)
	prev := -1
	for _, o := range at {
		if clause[o] || o == prev {
			continue
		}
		prev = o
		ins(o, "vs__.P(); ")
	}
	out.Write(src[last:])
	out.WriteString("\nvar _ = vs__.P\n")
	return out.Bytes(), nil
}
