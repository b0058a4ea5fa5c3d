// overlay writes copies of the sources of a package that use package sync
// through ssync (and so on), and the overlay file that puts them in place.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var subst = map[string][2]string{
	"sync":                     {"sync", "verif/mc/ssync"},
	"sync/atomic":              {"atomic", "verif/mc/satomic"},
	"github.com/SokaDance/rmx": {"rmx", "verif/mc/srmx"},
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		panic(err)
	}
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		base := filepath.Base(f)
		// the SQL engine has goroutines of its own
		if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "sql") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			panic(err)
		}
		changed := false
		for i := len(tree.Imports) - 1; i >= 0; i-- {
			imp := tree.Imports[i]
			path, _ := strconv.Unquote(imp.Path.Value)
			s, ok := subst[path]
			if !ok {
				continue
			}
			changed = true
			name := s[0]
			if imp.Name != nil {
				name = imp.Name.Name
			}
			a, b := fset.Position(imp.Pos()).Offset, fset.Position(imp.End()).Offset
			src = []byte(string(src[:a]) + name + " " + strconv.Quote(s[1]) + string(src[b:]))
		}
		if changed {
			o := filepath.Join(out, base)
			if err := os.WriteFile(o, src, 0o644); err != nil {
				panic(err)
			}
			repl[f] = o
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
	fmt.Println(len(repl), "files scheduled")
}
