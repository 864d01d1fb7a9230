// mutate FILE OUTDIR: writes one mutant of FILE per file OUTDIR/NNNN.go and a
// line "NNNN<TAB>line<TAB>what" per mutant on stdout. Development aid only: used to
// look for changes the checks miss; no check depends on it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	fset = token.NewFileSet()
	file *ast.File
	out  string
	n    int
	src  []byte
)

func emit(pos token.Pos, what string) {
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, file); err != nil {
		return
	}
	os.WriteFile(filepath.Join(out, fmt.Sprintf("%04d.go", n)), b.Bytes(), 0o644)
	p := fset.Position(pos)
	if p.Line < 1 {
		p.Line = 1
	}
	l := strings.TrimSpace(strings.Split(string(src), "\n")[p.Line-1])
	fmt.Printf("%04d\t%d\t%s\t%s\n", n, p.Line, what, l)
	n++
}

var ops = map[token.Token][]token.Token{
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND},
}

var names = map[string]string{
	"Add": "Sub", "Sub": "Add", "And": "Or", "Or": "And", "Mul": "Add", "Double": "Square", "Square": "Double",
	"IsZero": "Neg", "Frobenius": "FrobeniusSquare", "FrobeniusSquare": "Frobenius", "MulByNonResidue": "Double",
	"Conjugate": "Neg", "Neg": "Double",
}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	out = os.Args[2]
	os.MkdirAll(out, 0o755)
	file, err = parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	ast.Inspect(file, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			o := v.Op
			for _, r := range ops[o] {
				v.Op = r
				emit(v.OpPos, o.String()+" -> "+r.String())
			}
			v.Op = o
		case *ast.BasicLit:
			if v.Kind == token.INT {
				o := v.Value
				if k, err := strconv.ParseInt(o, 0, 62); err == nil {
					v.Value = strconv.FormatInt(k+1, 10)
					emit(v.Pos(), o+" -> "+v.Value)
					if k > 0 {
						v.Value = strconv.FormatInt(k-1, 10)
						emit(v.Pos(), o+" -> "+v.Value)
					}
				}
				v.Value = o
			}
		case *ast.Ident:
			if v.Name == "true" || v.Name == "false" {
				o := v.Name
				v.Name = map[string]string{"true": "false", "false": "true"}[o]
				emit(v.Pos(), o+" -> "+v.Name)
				v.Name = o
			}
		case *ast.CallExpr:
			if s, ok := v.Fun.(*ast.SelectorExpr); ok {
				if r, ok := names[s.Sel.Name]; ok {
					o := s.Sel.Name
					s.Sel.Name = r
					emit(s.Sel.Pos(), o+" -> "+r)
					s.Sel.Name = o
				}
			}
			if s, ok := v.Fun.(*ast.SelectorExpr); ok {
				// conditions and terms that are left out
				if k, ok := map[string]string{"Mul": "1", "And": "1", "Add": "0", "Or": "0", "Xor": "0"}[s.Sel.Name]; ok {
					for i, a := range v.Args {
						v.Args[i] = &ast.BasicLit{Kind: token.INT, Value: k}
						emit(a.Pos(), fmt.Sprintf("argument %d -> %s", i, k))
						v.Args[i] = a
					}
				}
				if s.Sel.Name == "Select" {
					o := v.Args
					if len(o) > 2 {
						for i := 1; i <= 2; i++ {
							v.Args = append([]ast.Expr{}, o...)
							v.Args[len(o)-1], v.Args[len(o)-2] = o[len(o)-i], o[len(o)-i]
							emit(v.Pos(), fmt.Sprintf("Select -> argument %d", len(o)-i))
						}
						v.Args = o
					}
				}
			}
			for i := 0; i+1 < len(v.Args) && i < 4; i++ {
				if a, ok := v.Args[i].(*ast.Ident); ok && a.Name == "api" {
					continue
				}
				v.Args[i], v.Args[i+1] = v.Args[i+1], v.Args[i]
				emit(v.Pos(), fmt.Sprintf("swap arguments %d and %d", i, i+1))
				v.Args[i], v.Args[i+1] = v.Args[i+1], v.Args[i]
			}
		case *ast.IfStmt:
			o := v.Cond
			v.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: o}}
			emit(v.If, "negate condition")
			v.Cond = ast.NewIdent("false")
			if v.Init == nil {
				emit(v.If, "condition -> false")
			}
			v.Cond = o
		case *ast.BlockStmt:
			for i, s := range v.List {
				switch a := s.(type) {
				case *ast.ExprStmt:
					v.List[i] = &ast.EmptyStmt{}
					emit(s.Pos(), "delete statement")
					v.List[i] = s
				case *ast.AssignStmt:
					if len(a.Rhs) == 1 && len(a.Lhs) == 1 {
						if call, ok := a.Rhs[0].(*ast.CallExpr); ok {
							n := ""
							switch f := call.Fun.(type) {
							case *ast.SelectorExpr:
								n = f.Sel.Name
							case *ast.Ident:
								n = f.Name
							}
							if n == "Equal" || n == "LessThan" || n == "IsZero" || n == "IsEqual" || strings.HasPrefix(n, "And") || n == "Mul" {
								for _, k := range []string{"0", "1"} {
									a.Rhs[0] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("frontend"), Sel: ast.NewIdent("Variable")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: k}}}
									emit(s.Pos(), n+" -> "+k)
								}
								a.Rhs[0] = call
							}
						}
					}
					if a.Tok == token.ASSIGN && len(a.Lhs) == 1 {
						l := a.Lhs[0]
						a.Lhs[0] = ast.NewIdent("_")
						emit(s.Pos(), "drop assignment")
						a.Lhs[0] = l
					}
				case *ast.IncDecStmt, *ast.BranchStmt:
					v.List[i] = &ast.EmptyStmt{}
					emit(s.Pos(), "delete statement")
					v.List[i] = s
				}
			}
		}
		return true
	})
}
