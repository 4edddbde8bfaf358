// Command mutate lists small changes to Go files, one JSON object per line:
// {"file", "off", "end", "new", "what", "line"}. tools/mutate.py applies them
// one at a time to a scratch copy to look for changes no check notices. With
// -rare the changes take effect only once in a while (tools/mutate.py adds the
// function rareVerif that says when).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	args := os.Args[1:]
	rare := len(args) > 0 && args[0] == "-rare"
	if rare {
		args = args[1:]
	}
	for _, name := range args {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(a, b token.Pos, s, what string) {
			_ = enc.Encode(change{name, off(a), off(b), s, what, fs.Position(a).Line})
		}
		if rare {
			listRare(f, text, put)
			continue
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt:
					put(s.Pos(), s.End(), "", "delete: "+text(s))
				case *ast.GoStmt:
					put(s.Pos(), s.End(), text(x.Call), "call instead of go")
				case *ast.DeferStmt:
					put(s.Pos(), s.End(), "", "delete: "+text(s))
					put(s.Pos(), s.End(), text(x.Call), "call instead of defer")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put(s.Pos(), s.End(), "", "delete: "+text(s))
					}
				case *ast.ReturnStmt:
					put(s.Pos(), s.End(), "", "delete: "+text(s))
				case *ast.IfStmt:
					if x.Else == nil {
						put(s.Pos(), s.End(), "", "delete if")
					}
				case *ast.ForStmt, *ast.RangeStmt:
					put(s.Pos(), s.End(), "", "delete loop")
				}
				if i+1 < len(l) {
					n := l[i+1]
					mid := string(src[off(s.End()):off(n.Pos())])
					put(s.Pos(), n.End(), text(n)+mid+text(s), "swap with next statement")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
				if x.List != nil {
					for i, e := range x.List {
						if len(x.List) > 1 {
							a, b := e.Pos(), e.End()
							if i+1 < len(x.List) {
								b = x.List[i+1].Pos()
							} else {
								a = x.List[i-1].End()
							}
							put(a, b, "", "drop case "+text(e))
						}
					}
				}
			case *ast.CommClause:
				list(x.Body)
				put(x.Pos(), x.End(), "", "drop select case")
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" to "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), text(x.X), "left operand only")
					put(x.Pos(), x.End(), text(x.Y), "right operand only")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
						}
					}
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate condition")
				put(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "condition true")
				put(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "condition false")
			case *ast.ForStmt:
				if x.Cond != nil {
					put(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "loop never")
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					put(x.Pos(), x.End(), "false", "true to false")
				case "false":
					put(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.SelectorExpr:
				for _, p := range [][2]string{{"RLock", "Lock"}, {"Lock", "RLock"}, {"Unlock", "RUnlock"}, {"RUnlock", "Unlock"},
					{"ToUpper", "ToLower"}, {"ToLower", "ToUpper"}, {"IsLetter", "IsUpper"}, {"IsDigit", "IsNumber"}, {"IsNumber", "IsDigit"},
					{"RuneCountInString", "RuneCount"}, {"Index", "LastIndex"}, {"Contains", "HasPrefix"}, {"TrimLeft", "TrimPrefix"}, {"TrimRight", "TrimSuffix"}} {
					if x.Sel.Name == p[0] {
						put(x.Sel.Pos(), x.Sel.End(), p[1], p[0]+" to "+p[1])
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok {
					switch {
					case id.Name == "make" && len(x.Args) == 2:
						put(x.Args[0].End(), x.Args[1].End(), "", "make without size")
						put(x.Args[1].End(), x.Args[1].End(), " + 1", "make one larger")
					case id.Name == "make" && len(x.Args) == 1:
						if _, ok := x.Args[0].(*ast.ChanType); ok {
							put(x.Args[0].End(), x.Args[0].End(), ", 1", "channel buffered")
						}
					case id.Name == "append" && len(x.Args) == 2:
						put(x.Pos(), x.End(), text(x.Args[0]), "append nothing")
					case id.Name == "int" || id.Name == "uint32" || id.Name == "uint16" || id.Name == "string":
					case len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]):
						put(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "arguments swapped")
					}
				} else if len(x.Args) == 2 {
					put(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "arguments swapped")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low + 1")
					put(x.Low.Pos(), x.Low.End(), "", "slice from the start")
				}
				if x.High != nil {
					put(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high - 1")
					if x.Max == nil {
						put(x.High.Pos(), x.High.End(), "", "slice to the end")
					}
				}
			}
			return true
		})
	}
}

func listRare(f *ast.File, text func(ast.Node) string, put func(a, b token.Pos, s, what string)) {
	skip := func(s ast.Stmt) { put(s.Pos(), s.End(), "if !rareVerif() { "+text(s)+" }", "rarely skip") }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
			skip(x.(ast.Stmt))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				skip(x)
			}
		case *ast.BranchStmt:
			skip(x)
		case *ast.IfStmt:
			put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") != rareVerif()", "rarely negate")
		case *ast.ForStmt:
			if x.Cond != nil {
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && !rareVerif()", "rarely end loop")
			}
		case *ast.RangeStmt:
			if len(x.Body.List) > 0 {
				put(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif rareVerif() { continue }\n", "rarely skip an element")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap" || id.Name == "Len") {
				put(x.Pos(), x.End(), "("+text(x)+" + rareIntVerif())", "rarely one more")
				put(x.Pos(), x.End(), "("+text(x)+" - rareIntVerif())", "rarely one less")
			}
		case *ast.Ident:
			switch x.Name {
			case "true", "false":
				put(x.Pos(), x.End(), "("+x.Name+" != rareVerif())", "rarely the other boolean")
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				if id, ok := x.Results[0].(*ast.Ident); ok && id.Name == "err" {
					put(x.Pos(), x.Pos(), "if rareVerif() { return nil }\n", "rarely no error")
				}
			}
		}
		return true
	})
}
