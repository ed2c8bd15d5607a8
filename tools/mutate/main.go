// Command mutate writes small changes (mutants) of Go source files into a
// directory: mutate OUT FILE... Each mutant is OUT/NNNN.go, a whole file, and
// a line of OUT/list.jsonl. Mutants are used to find weak spots in the checks,
// see ../mutants.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	N    int    `json:"n"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

var binary = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"&", "|"},
}
var assign = map[token.Token][]string{
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.XOR_ASSIGN: {"|=", "="}, token.MUL_ASSIGN: {"="},
}
var conv = map[string][]string{
	"int": {"int32", "uint16", "uint8"}, "int64": {"int32", "uint32", "int16"}, "uint64": {"uint32", "int32"}, "uint32": {"uint16"}, "uint": {"uint32", "uint16"},
	"uint16": {"uint8"}, "int32": {"int16"}, "int16": {"int8"},
}
var sel = map[string][]string{
	"XMin": {"YMin", "XMax"}, "YMin": {"XMin", "YMax"}, "XMax": {"YMax", "XMin"}, "YMax": {"XMax", "YMin"},
	"SeekStart": {"SeekCurrent", "SeekEnd"}, "SeekCurrent": {"SeekStart"}, "MaxInt": {"MaxInt32", "MaxInt16"}, "MaxInt64": {"MaxInt32"}, "MaxUint32": {"MaxInt32", "MaxUint16"},
	"EOF": {"ErrUnexpectedEOF"}, "ErrUnexpectedEOF": {"EOF"}, "indexOffset": {"dataOffset"}, "dataOffset": {"indexOffset"},
	"numFeatures": {"featureIndex"}, "featureIndex": {"numFeatures"}, "start": {"end"}, "end": {"start"}, "ReadFull": {"ReadAtLeast"},
	"SizeUint32": {"SizeUint16", "SizeUint64"}, "SizeUOffsetT": {"SizeUint16", "SizeUint64"}, "Width": {"Height"}, "Height": {"Width"}, "midX": {"midY"}, "midY": {"midX"},
	"Floor": {"Ceil", "Round"}, "Offset": {}, "Name": {"Title"}, "nodeSize": {}, "x": {"y"}, "y": {"x"}, "w": {"h"}, "h": {"w"},
}
var ident = map[string][]string{
	"true": {"false"}, "false": {"true"}, "i": {"j"}, "j": {"i"}, "startOffset": {"endOffset"}, "endOffset": {"startOffset"},
	"beforeMagic": {}, "afterIndex": {"inData", "eof", "afterHeader"}, "inData": {"eof", "afterIndex"}, "afterHeader": {"afterIndex", "inData"}, "eof": {"inData"}, "stackPush": {"heapPush"}, "heapPush": {"stackPush"},
	"hx": {"hy"}, "hy": {"hx"}, "x": {"y"}, "y": {"x"}, "ew": {"eh"}, "eh": {"ew"}, "ex": {"ey"}, "ey": {"ex"},
	"a": {"b"}, "b": {"a"}, "c": {"d"}, "d": {"c"}, "A": {"B"}, "B": {"A"}, "C": {"D"}, "D": {"C"}, "i0": {"i1"}, "i1": {"i0"}, "rem": {"n"}, "err": {"nil"},
	"numRefs": {"nodeSize"}, "parentIndex": {"nodeIndex"}, "errEndOfData": {"io.EOF"}, "chunk": {"maxChunk"},
}

func main() {
	out := os.Args[1]
	if err := os.MkdirAll(out, 0o755); err != nil {
		panic(err)
	}
	list, err := os.Create(filepath.Join(out, "list.jsonl"))
	if err != nil {
		panic(err)
	}
	defer list.Close()
	n := 0
	for _, file := range os.Args[2:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		fn := ""
		emit := func(kind string, from, to token.Pos, repl string) {
			a, b := fset.Position(from).Offset, fset.Position(to).Offset
			old := string(src[a:b])
			res := string(src[:a]) + repl + string(src[b:])
			if old == repl || seen[res] {
				return
			}
			seen[res] = true
			if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("%05d.go", n)), []byte(res), 0o644); err != nil {
				panic(err)
			}
			j, _ := json.Marshal(mutant{n, file, fset.Position(from).Line, fn, kind, clip(old), clip(repl)})
			fmt.Fprintf(list, "%s\n", j)
			n++
		}
		text := func(x ast.Node) string {
			return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
		}
		for _, d := range f.Decls {
			fn = ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BinaryExpr:
					for _, o := range binary[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left", x.Pos(), x.End(), text(x.X))
						emit("right", x.Pos(), x.End(), text(x.Y))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.Pos(), x.X.Pos(), "")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, ok := new(big.Int).SetString(x.Value, 0); ok {
							emit("int", x.Pos(), x.End(), new(big.Int).Add(v, big.NewInt(1)).String())
							if v.Sign() > 0 {
								emit("int", x.Pos(), x.End(), new(big.Int).Sub(v, big.NewInt(1)).String())
							}
							if v.Cmp(big.NewInt(3)) > 0 {
								emit("int", x.Pos(), x.End(), new(big.Int).Mul(v, big.NewInt(2)).String())
							}
						}
					case token.STRING:
						if strings.HasSuffix(file, "stringers.go") || strings.Contains(file, "Type.go") || strings.Contains(x.Value, "%.8g") {
							emit("string", x.Pos()+1, x.End()-1, "Q"+x.Value[1:len(x.Value)-1])
						}
					}
				case *ast.IfStmt:
					emit("if-true", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
					emit("if-false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit("for-false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
					}
				case *ast.ExprStmt:
					emit("delete", x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					emit("delete", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("delete", x.Pos(), x.End(), "")
						var l, r []string
						for _, e := range x.Rhs {
							l = append(l, "_")
							r = append(r, text(e))
						}
						if len(l) == len(x.Lhs) {
							emit("blank", x.Pos(), x.End(), strings.Join(l, ", ")+" = "+strings.Join(r, ", "))
						}
					}
					for _, o := range assign[x.Tok] {
						emit("assign", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), o)
					}
				case *ast.DeferStmt:
					emit("delete", x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit("branch", x.Pos(), x.End(), "continue")
					} else if x.Label == nil && x.Tok == token.CONTINUE {
						emit("branch", x.Pos(), x.End(), "break")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						t := text(r)
						switch {
						case t == "true":
						case t == "false":
						case t == "nil":
						case t == "0":
						default:
							if len(t) < 200 {
								emit("ret-nil", r.Pos(), r.End(), "nil")
								emit("ret-0", r.Pos(), r.End(), "0")
								if strings.Contains(t, "toErr(") { // the error does not stick
									in := t[strings.Index(t, "toErr(")+6 : len(t)-1]
									emit("ret-unstuck", r.Pos(), r.End(), in)
								}
							}
						}
					}
				case *ast.CallExpr:
					t := text(x.Fun)
					if len(x.Args) == 1 {
						for _, o := range conv[t] {
							emit("conv", x.Args[0].Pos(), x.Args[0].End(), o+"("+text(x.Args[0])+")")
						}
					}
					if len(x.Args) >= 2 {
						for i := 0; i+1 < len(x.Args); i++ {
							emit("swap-args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
						}
					}
					if t == "io.ReadFull" {
						emit("readfull", x.Pos(), x.End(), text(x.Args[0])+".Read("+text(x.Args[1])+")")
					}
					if t == "wrapErr" && len(x.Args) >= 2 {
						emit("unwrap", x.Pos(), x.End(), "textErr("+text(x.Args[0])+")")
					}
					if strings.HasSuffix(t, "toErr") && len(x.Args) == 1 {
						emit("unstuck", x.Pos(), x.End(), text(x.Args[0]))
					}
				case *ast.SelectorExpr:
					for _, o := range sel[x.Sel.Name] {
						emit("sel", x.Sel.Pos(), x.Sel.End(), o)
					}
				case *ast.Ident:
					for _, o := range ident[x.Name] {
						emit("ident", x.Pos(), x.End(), o)
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
					}
					if x.High != nil {
						emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"-1")
					}
				case *ast.CaseClause:
					for i, e := range x.List {
						if len(x.List) > 1 {
							if i > 0 {
								emit("case", x.List[i-1].End(), e.End(), "")
							} else {
								emit("case", e.Pos(), x.List[1].Pos(), "")
							}
						}
					}
					for _, s := range x.Body {
						emit("case-body", s.Pos(), s.End(), "")
					}
				}
				return true
			})
		}
	}
	fmt.Println(n, "mutants")
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}
