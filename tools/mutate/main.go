// mutate lists small changes of Go source files, one per line as JSON:
// {"id","file","line","op","start","end","text"}. Offsets are in bytes.
// It is a tool to find changes that no check notices; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type Mut struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Old   string `json:"old"`
	Text  string `json:"text"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	id := 0
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(op string, from, to token.Pos, text string) {
			old := string(src[off(from):off(to)])
			if old == text {
				return
			}
			id++
			enc.Encode(Mut{id, name, fset.Position(from).Line, fn, op, off(from), off(to), old, text})
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				c := str(n.Cond)
				emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
				emit("cond-false", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
				emit("cond-true", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
			case *ast.ForStmt:
				if n.Cond != nil {
					c := str(n.Cond)
					emit("cond-false", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
				}
			case *ast.BinaryExpr:
				var alts []string
				switch n.Op {
				case token.LSS:
					alts = []string{"<=", ">="}
				case token.LEQ:
					alts = []string{"<", "=="}
				case token.GTR:
					alts = []string{">=", "!="}
				case token.GEQ:
					alts = []string{">", "=="}
				case token.EQL:
					alts = []string{"!=", "<=", ">="}
				case token.NEQ:
					alts = []string{"==", "<", ">"}
				case token.LAND:
					emit("left", n.Pos(), n.End(), str(n.X))
					emit("right", n.Pos(), n.End(), str(n.Y))
					alts = []string{"||"}
				case token.LOR:
					emit("left", n.Pos(), n.End(), str(n.X))
					emit("right", n.Pos(), n.End(), str(n.Y))
					alts = []string{"&&"}
				case token.ADD:
					alts = []string{"-"}
					emit("left", n.Pos(), n.End(), str(n.X))
				case token.SUB:
					alts = []string{"+"}
					emit("left", n.Pos(), n.End(), str(n.X))
				case token.MUL:
					alts = []string{"+", "/"}
				case token.QUO, token.REM:
					alts = []string{"*"}
				case token.SHL:
					alts = []string{">>"}
				case token.SHR:
					alts = []string{"<<"}
				case token.AND:
					alts = []string{"|"}
				case token.OR:
					alts = []string{"&", "^"}
				}
				for _, a := range alts {
					emit("op "+n.Op.String()+" to "+a, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
						emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
				if n.Kind == token.STRING || n.Kind == token.CHAR {
					if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && n.Kind == token.STRING {
						if len(s) > 1 {
							emit("str-first", n.Pos(), n.End(), strconv.Quote(s[1:]))
							emit("str-last", n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]))
						} else {
							emit("str-other", n.Pos(), n.End(), strconv.Quote("~"))
							emit("str-empty", n.Pos(), n.End(), `""`)
						}
					} else if err == nil && n.Kind == token.CHAR {
						emit("char", n.Pos(), n.End(), "'~'")
					}
				}
			case *ast.ReturnStmt:
				for i, r := range n.Results {
					s := str(r)
					last := i == len(n.Results)-1
					if last && s != "nil" && (s == "err" || strings.Contains(s, "Err") || strings.HasPrefix(s, "io.EOF")) {
						emit("ret-nil", r.Pos(), r.End(), "nil")
					}
					switch s {
					case "true":
						emit("ret-bool", r.Pos(), r.End(), "false")
					case "false":
						emit("ret-bool", r.Pos(), r.End(), "true")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("un-not", n.Pos(), n.End(), str(n.X))
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						emit("break-continue", n.Pos(), n.End(), "continue")
						emit("break-gone", n.Pos(), n.End(), "")
					case token.CONTINUE:
						emit("continue-break", n.Pos(), n.End(), "break")
						emit("continue-gone", n.Pos(), n.End(), "")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit("slice-low", n.Low.Pos(), n.Low.End(), "("+str(n.Low)+")+1")
				}
				if n.High != nil {
					emit("slice-high", n.High.Pos(), n.High.End(), "("+str(n.High)+")-1")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit("inc-dec", n.TokPos, n.TokPos+2, "--")
				} else {
					emit("dec-inc", n.TokPos, n.TokPos+2, "++")
				}
			case *ast.CallExpr:
				s := str(n.Fun)
				swap := map[string]string{"strings.HasPrefix": "strings.Contains", "strings.HasSuffix": "strings.Contains", "strings.Index": "strings.LastIndex", "strings.LastIndex": "strings.Index", "strings.IndexByte": "strings.LastIndexByte", "strings.TrimSpace": "", "strings.TrimSuffix": "strings.TrimRight", "strings.TrimPrefix": "strings.TrimLeft", "strings.TrimRight": "strings.TrimSuffix", "strings.TrimLeft": "strings.TrimPrefix", "min": "max", "max": "min", "strings.TrimRightFunc": "strings.TrimFunc", "strings.TrimLeftFunc": "strings.TrimFunc", "strings.SplitN": "", "strings.Fields": ""}
				if t, ok := swap[s]; ok {
					if t != "" {
						emit("call", n.Fun.Pos(), n.Fun.End(), t)
					} else if s == "strings.TrimSpace" {
						emit("call", n.Fun.Pos(), n.Fun.End(), "string")
					}
				}
			}
			// statement deletion
			var list []ast.Stmt
			switch n := n.(type) {
			case *ast.BlockStmt:
				list = n.List
			case *ast.CaseClause:
				list = n.Body
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							emit("case-alt", n.List[i-1].End(), e.End(), "")
						} else {
							emit("case-alt", e.Pos(), n.List[1].Pos(), "")
						}
					}
				}
			}
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SwitchStmt, *ast.ForStmt, *ast.RangeStmt:
					emit("del", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit("del", s.Pos(), s.End(), "")
						if s.Tok == token.ADD_ASSIGN {
							emit("assign", s.TokPos, s.TokPos+2, "-=")
							emit("assign", s.TokPos, s.TokPos+2, "=")
						}
					}
				case *ast.IfStmt:
					emit("del-if", s.Pos(), s.End(), "")
					if s.Else != nil {
						emit("del-else", s.Body.End(), s.Else.End(), "")
					}
				case *ast.ReturnStmt:
					_ = i
				}
			}
			return true
		}
		for _, d := range f.Decls {
			fn = ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, visit)
		}
	}
}
