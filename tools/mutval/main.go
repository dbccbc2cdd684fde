// mutval lists changes to the Go packages of a module which show only for
// particular values ("when len(x) is 23"), as JSON lines, for trying the
// checks against. It is a development tool: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Desc string `json:"desc"`
}

var rnd *rand.Rand

// trigger makes a condition on an expression, or "".
func trigger(e string, t types.Type, depth int) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			n := 256
			if u.Kind() != types.Uint8 {
				n = []int{4, 12, 40, 160, 300}[rnd.Intn(5)]
			}
			switch rnd.Intn(5) {
			case 0:
				k := 3 + rnd.Intn(20)
				return fmt.Sprintf("int(%s)%%%d == %d", e, k, rnd.Intn(k))
			default:
				return fmt.Sprintf("int(%s) == %d", e, rnd.Intn(n))
			}
		case u.Info()&types.IsString != 0:
			switch rnd.Intn(3) {
			case 0:
				return fmt.Sprintf("len(%s) == %d", e, rnd.Intn(24))
			default:
				return fmt.Sprintf("len(%s) > 0 && %s[len(%s)-1] == %d", e, e, e, 32+rnd.Intn(90))
			}
		case u.Kind() == types.Bool:
			return ""
		}
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		if ok && b.Kind() == types.Uint8 {
			switch rnd.Intn(4) {
			case 0:
				return fmt.Sprintf("len(%s) > 1 && %s[len(%s)-1] == %d", e, e, e, rnd.Intn(256))
			case 1:
				return fmt.Sprintf("len(%s) > 1 && %s[%d] == %d", e, e, rnd.Intn(2), rnd.Intn(256))
			}
		}
		return fmt.Sprintf("len(%s) == %d", e, rnd.Intn([]int{4, 20, 160}[rnd.Intn(3)]))
	case *types.Map:
		return fmt.Sprintf("len(%s) == %d", e, rnd.Intn(6))
	case *types.Struct:
		if depth > 0 || u.NumFields() == 0 {
			return ""
		}
		for try := 0; try < 4; try++ {
			f := u.Field(rnd.Intn(u.NumFields()))
			if s := trigger(e+"."+f.Name(), f.Type(), depth+1); s != "" {
				return s
			}
		}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			if s := trigger(e, u.Elem(), depth); s != "" {
				return e + " != nil && " + s
			}
		}
	}
	return ""
}

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	per, _ := strconv.Atoi(os.Args[2])
	rnd = rand.New(rand.NewSource(int64(seed)))
	enc := json.NewEncoder(os.Stdout)
	fs := token.NewFileSet()
	imp := importer.ForCompiler(fs, "source", nil)
	for _, dir := range os.Args[3:] {
		pk, err := parser.ParseDir(fs, dir, func(f os.FileInfo) bool { return !strings.HasSuffix(f.Name(), "_test.go") }, 0)
		if err != nil {
			panic(err)
		}
		for _, p := range pk {
			var names []string
			for n := range p.Files {
				names = append(names, n)
			}
			sort.Strings(names)
			var files []*ast.File
			for _, n := range names {
				files = append(files, p.Files[n])
			}
			info := &types.Info{Scopes: map[ast.Node]*types.Scope{}, Types: map[ast.Expr]types.TypeAndValue{}}
			conf := types.Config{Importer: imp, Error: func(error) {}}
			pkg, _ := conf.Check(dir, fs, files, info)
			for i, f := range files {
				src, _ := os.ReadFile(names[i])
				off := func(p token.Pos) int { return fs.Position(p).Offset }
				text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				emit := func(a, b token.Pos, repl, desc string) {
					enc.Encode(mutant{"./" + filepath.Clean(names[i]), fs.Position(a).Line, off(a), off(b), repl, desc})
				}
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil {
						continue
					}
					cond := func(pos token.Pos) string {
						type v struct {
							n string
							t types.Type
						}
						var vs []v
						for s := pkg.Scope().Innermost(pos); s != nil && s != pkg.Scope() && s.Parent() != types.Universe; s = s.Parent() {
							for _, n := range s.Names() {
								o, ok := s.Lookup(n).(*types.Var)
								if !ok || strings.Contains(" _ err ri i f idx used n evpf ton st vpf alpha alphabet mti dst scts da oa ra vp idx rbits fillBits d efi fi ton np options option opts e h ", " "+n+" ") || o.Pos() >= pos {
									continue
								}
								vs = append(vs, v{n, o.Type()})
							}
						}
						for try := 0; try < 6 && len(vs) > 0; try++ {
							x := vs[rnd.Intn(len(vs))]
							if s := trigger(x.n, x.t, 0); s != "" {
								return s
							}
						}
						return ""
					}
					ast.Inspect(fd.Body, func(n ast.Node) bool {
						for k := 0; k < per; k++ {
							switch x := n.(type) {
							case *ast.IfStmt:
								pos := x.Cond.Pos()
								if c := cond(pos); c != "" {
									emit(pos, x.Cond.End(), fmt.Sprintf("(%s) != (%s)", text(x.Cond), c), "flip when "+c)
								}
							case *ast.AssignStmt:
								if x.Tok == token.DEFINE {
									continue
								}
								if c := cond(x.Pos()); c != "" {
									emit(x.Pos(), x.End(), fmt.Sprintf("if !(%s) {\n%s\n}", c, text(x)), "skip when "+c)
								}
							case *ast.IncDecStmt:
								if c := cond(x.Pos()); c != "" && !strings.Contains(text(x), "+=") {
									emit(x.Pos(), x.End(), fmt.Sprintf("if !(%s) {\n%s\n}", c, text(x)), "skip when "+c)
								}
							case *ast.ReturnStmt:
								if len(x.Results) == 0 {
									continue
								}
								ri := rnd.Intn(len(x.Results))
								r := x.Results[ri]
								tv := info.Types[r]
								if tv.Type == nil {
									continue
								}
								c := cond(x.Pos())
								if c == "" {
									continue
								}
								repl := ""
								e := text(r)
								switch u := tv.Type.Underlying().(type) {
								case *types.Basic:
									switch {
									case u.Info()&types.IsInteger != 0:
										repl = e + " + 1"
									case u.Info()&types.IsBoolean != 0:
										repl = "!(" + e + ")"
									case u.Info()&types.IsString != 0:
										repl = e + " + \" \""
									default:
										repl = ""
									}
								case *types.Slice:
									if tv.IsNil() {
										continue
									}
									repl = "(" + e + ")[1:]"
									if rnd.Intn(2) == 0 {
										repl = "append(" + e + ", (" + e + ")[0])"
									}
								case *types.Interface, *types.Struct:
									if e != "nil" {
										repl = "nil"
									}
								}
								if repl == "" {
									continue
								}
								rs := make([]string, len(x.Results))
								for j := range rs {
									rs[j] = text(x.Results[j])
								}
								rs[ri] = repl
								emit(x.Pos(), x.End(), fmt.Sprintf("if %s {\nreturn %s\n}\n%s", c, strings.Join(rs, ", "), text(x)), "return "+repl+" when "+c)
							}
						}
						return true
					})
				}
			}
		}
	}
}
