// Command instr rewrites Go sources so that a deterministic scheduler can control them.
//
// It is purely syntactic and knows nothing about the code it rewrites: it inserts calls
// to vsched.Y before (and, for operations that may block, after) statements that touch
// shared state, and redirects the imports "sync" and "sync/atomic" to shims with the
// same API that yield to the scheduler before each operation.
//
// usage: instr [-noshim] FILE.go OUT.go [FILE.go OUT.go ...]
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/gostdlib/concurrency/zzverif/"

// Packages whose functions neither block nor touch shared state of interest.
var pure = map[string]bool{
	"fmt": true, "time": true, "errors": true, "runtime": true, "reflect": true,
	"strings": true, "strconv": true, "json": true, "log": true, "unsafe": true,
	"math": true, "sort": true, "regexp": true, "bytes": true, "codes": true,
}

var builtins = map[string]bool{
	"len": true, "cap": true, "make": true, "new": true, "append": true, "copy": true,
	"delete": true, "panic": true, "recover": true, "print": true, "println": true,
	"min": true, "max": true, "clear": true, "int": true, "int64": true, "string": true,
	"uint64": true, "float64": true, "bool": true, "byte": true, "any": true, "error": true,
}

type ins struct {
	off  int
	text string
	prio int
}

func main() {
	args := os.Args[1:]
	shim := true
	if len(args) > 0 && args[0] == "-noshim" {
		shim = false
		args = args[1:]
	}
	if len(args)%2 != 0 {
		fmt.Fprintln(os.Stderr, "usage: instr [-noshim] IN OUT ...")
		os.Exit(2)
	}
	site := 1
	for i := 0; i < len(args); i += 2 {
		var err error
		if site, err = rewrite(args[i], args[i+1], site, shim); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(2)
		}
	}
}

func rewrite(in, out string, site int, shim bool) (int, error) {
	src, err := os.ReadFile(in)
	if err != nil {
		return site, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, in, src, parser.ParseComments)
	if err != nil {
		return site, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins

	// Imports.
	if shim {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			var to, name string
			switch p {
			case "sync":
				to, name = base+"vsync", "sync"
			case "sync/atomic":
				to, name = base+"vatomic", "atomic"
			default:
				continue
			}
			if im.Name == nil {
				list = append(list, ins{off: off(im.Path.Pos()), text: name + " "})
			}
			s, e := off(im.Path.Pos()), off(im.Path.End())
			// replaced in place below
			list = append(list, ins{off: s, text: "\x00" + strconv.Itoa(e-s) + "\x00" + strconv.Quote(to), prio: 1})
		}
	}

	y := func() string {
		site++
		return "zzvsched.Y(" + strconv.Itoa(site) + "); "
	}

	var header func(n ast.Node) (interesting, blocking bool)
	header = func(n ast.Node) (interesting, blocking bool) {
		if n == nil {
			return false, false
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch v := x.(type) {
			case nil:
				return false
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return false
			case *ast.SendStmt:
				interesting, blocking = true, true
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					interesting, blocking = true, true
				}
			case *ast.CallExpr:
				switch fn := v.Fun.(type) {
				case *ast.Ident:
					if fn.Name == "close" || !builtins[fn.Name] {
						interesting = true
					}
				case *ast.SelectorExpr:
					id, ok := fn.X.(*ast.Ident)
					if !(ok && pure[id.Name]) {
						interesting = true
					}
				default:
					interesting = true
				}
			case *ast.SelectorExpr:
				if id, ok := v.X.(*ast.Ident); ok && pure[id.Name] {
					return true
				}
				interesting = true
			case *ast.IndexExpr, *ast.StarExpr:
				interesting = true
			}
			return true
		})
		return
	}

	var stmts func(l []ast.Stmt, forceFirst bool)
	stmts = func(l []ast.Stmt, forceFirst bool) {
		for i, s := range l {
			inter, block := false, false
			inner := s
			for {
				if ls, ok := inner.(*ast.LabeledStmt); ok {
					inner = ls.Stmt
					continue
				}
				break
			}
			isTerm := false
			switch v := inner.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			case *ast.DeclStmt:
				inter, block = header(v)
			case *ast.IfStmt:
				a, b := header(v.Init)
				c, d := header(v.Cond)
				inter, block = a || c, b || d
				block = false // cannot insert behind the header
			case *ast.ForStmt:
				a, _ := header(v.Init)
				c, _ := header(v.Cond)
				d, _ := header(v.Post)
				inter = a || c || d
			case *ast.RangeStmt:
				inter = true
			case *ast.SwitchStmt:
				a, _ := header(v.Init)
				c, _ := header(v.Tag)
				inter = a || c
			case *ast.TypeSwitchStmt:
				a, _ := header(v.Init)
				inter = a
			case *ast.SelectStmt:
				inter = true
			case *ast.BlockStmt:
			case *ast.DeferStmt, *ast.GoStmt:
				inter = true
			case *ast.ReturnStmt:
				inter, _ = header(v)
				isTerm = true
			case *ast.BranchStmt:
				isTerm = true
			default:
				inter, block = header(v)
			}
			if inter || (i == 0 && forceFirst) {
				list = append(list, ins{off: off(s.Pos()), text: y()})
			}
			if d, ok := inner.(*ast.DeferStmt); ok {
				// A yield that runs after the deferred call.
				_ = d
				site++
				list = append(list, ins{off: off(s.Pos()), text: "defer zzvsched.Y(" + strconv.Itoa(site) + "); "})
			}
			if block && !isTerm {
				site++
				list = append(list, ins{off: off(s.End()), text: "; zzvsched.Y(" + strconv.Itoa(site) + ")", prio: -1})
			}
		}
	}

	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			stmts(v.List, false)
		case *ast.CaseClause:
			stmts(v.Body, false)
		case *ast.CommClause:
			if len(v.Body) > 0 {
				stmts(v.Body, true)
			} else {
				site++
				list = append(list, ins{off: off(v.Colon) + 1, text: " zzvsched.Y(" + strconv.Itoa(site) + "); "})
			}
		case *ast.RangeStmt:
			site++
			list = append(list, ins{off: off(v.Body.Lbrace) + 1, text: " zzvsched.Y(" + strconv.Itoa(site) + "); ", prio: -2})
		}
		return true
	})

	// Import of the scheduler, directly behind the package clause.
	list = append(list, ins{off: off(f.Name.End()), text: "; import zzvsched \"" + base + "vsched\"; var _ = zzvsched.Y"})

	sort.SliceStable(list, func(i, j int) bool {
		if list[i].off != list[j].off {
			return list[i].off < list[j].off
		}
		return list[i].prio < list[j].prio
	})
	var b strings.Builder
	pos := 0
	for _, x := range list {
		if x.off > pos {
			b.Write(src[pos:x.off])
			pos = x.off
		}
		if strings.HasPrefix(x.text, "\x00") {
			p := strings.SplitN(x.text[1:], "\x00", 2)
			n, _ := strconv.Atoi(p[0])
			b.WriteString(p[1])
			pos += n
			continue
		}
		b.WriteString(x.text)
	}
	b.Write(src[pos:])
	// The var declaration must not precede other imports: put it at the end instead.
	res := strings.Replace(b.String(), "; var _ = zzvsched.Y", "", 1) + "\n\nvar _ = zzvsched.Y\n"
	return site, os.WriteFile(out, []byte(res), 0o644)
}
