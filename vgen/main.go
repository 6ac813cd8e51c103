// vgen prepares an instrumented build of the package under test.
//
// It reads the non-test sources of the root package of the module in -repo,
// and writes, into -out,
//
//	inst/*.go      copies in which sync, os, mmap, lockfile, crypto/rand,
//	               runtime and io/ioutil are replaced by the controllable
//	               versions in /verif/src, go statements start controlled
//	               threads, ranges over maps run in a fixed order and every
//	               statement is preceded by a tick; operations on channels are
//	               under control too
//	overlay.json   an overlay that puts these copies and the packages in
//	               /verif/src (under internal/verif) in place.
//
// Nothing is written in the repository.  Line numbers are kept.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	src     = flag.String("src", "/verif/src", "harness sources")
	out     = flag.String("out", "", "output directory")
	inst    = flag.Bool("inst", true, "instrument the package")
	modfile = flag.String("modfile", "", "go.mod to use")
	ticks   = flag.Bool("ticks", true, "insert ticks")
	mock    = flag.Bool("mock", false, "replace the hash functions too")
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	DepOnly    bool
	Module     *struct{ Path string }
}

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	order    int
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("vgen: ")
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,DepOnly,Module"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	exports := map[string]string{}
	var root *pkgInfo
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			q := p
			root = &q
		}
	}
	if root == nil {
		log.Fatal("no root package")
	}
	mod := root.ImportPath
	base := mod + "/internal/verif/"
	repl := map[string]string{
		"sync":                           base + "vsync",
		"sync/atomic":                    base + "vatomic",
		"os":                             base + "vos",
		"io/ioutil":                      base + "vioutil",
		"crypto/rand":                    base + "vrand",
		"runtime":                        base + "vruntime",
		"github.com/edsrzf/mmap-go":      base + "vmmap",
		"github.com/nightlyone/lockfile": base + "vlock",
	}
	if *mock {
		repl["crypto/sha256"] = base + "vsha256"
		repl["crypto/sha512"] = base + "vsha512"
		repl["golang.org/x/crypto/sha3"] = base + "vsha3"
	}
	overlay := map[string]string{}
	// harness packages
	err = filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*src, path)
		overlay[filepath.Join(*repo, "internal/verif", rel)] = path
		return nil
	})
	if err != nil {
		log.Fatal(err)
	}
	if *inst {
		instrument(root, exports, repl, base, overlay)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		log.Fatal(err)
	}
}

func instrument(root *pkgInfo, exports, repl map[string]string, base string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var texts []string
	for _, name := range root.GoFiles {
		path := filepath.Join(root.Dir, name)
		b, err := os.ReadFile(path)
		if err != nil {
			log.Fatal(err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		files = append(files, f)
		texts = append(texts, string(b))
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, Error: func(err error) { log.Printf("type check: %v", err) }}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf.Check(root.ImportPath, fset, files, info)

	dir := filepath.Join(*out, "inst")
	os.MkdirAll(dir, 0755)
	for i, f := range files {
		name := root.GoFiles[i]
		t := transform(fset, f, texts[i], info, repl, base, filepath.Join(root.Dir, name))
		dst := filepath.Join(dir, name)
		if err := os.WriteFile(dst, []byte(t), 0644); err != nil {
			log.Fatal(err)
		}
		overlay[filepath.Join(root.Dir, name)] = dst
	}
}

func transform(fset *token.FileSet, f *ast.File, text string, info *types.Info,
	repl map[string]string, base, path string) string {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p, e int, s string) { edits = append(edits, edit{p, e, s, len(edits)}) }
	slice := func(n ast.Node) string { return text[off(n.Pos()):off(n.End())] }

	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, ok := repl[p]
		if !ok {
			continue
		}
		s := strconv.Quote(np)
		if im.Name == nil {
			n := p[strings.LastIndex(p, "/")+1:]
			if n == "mmap-go" {
				n = "mmap"
			}
			s = n + " " + s
		}
		add(off(im.Path.Pos()), off(im.Path.End()), s)
	}

	tickList := func(list []ast.Stmt) {
		if !*ticks {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), "vrt.T(); ")
		}
	}
	nkey, nsel := 0, 0
	isChan := func(e ast.Expr) bool {
		t := info.Types[e].Type
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	isArrow := func(e ast.Expr) (*ast.UnaryExpr, bool) {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		u, ok := e.(*ast.UnaryExpr)
		return u, ok && u.Op == token.ARROW
	}
	recv := map[*ast.UnaryExpr]string{} // the function to receive with
	skip := map[ast.Node]bool{}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		if skip[n] {
			return false
		}
		switch x := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				tickList(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				tickList(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			def := false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					def = true
				}
			}
			// The cases become the arguments, in order.  The text of the
			// channels and values is used as it is.
			nsel++
			sv := fmt.Sprintf("vrtSel%d", nsel)
			call := fmt.Sprintf("switch %s := vrt.Select(%v", sv, def)
			i := 0
			for _, cl := range x.Body.List {
				c := cl.(*ast.CommClause)
				tickList(c.Body)
				if c.Comm == nil {
					continue
				}
				skip[c.Comm] = true
				label, pre := fmt.Sprintf("case %d:", i), ""
				if !def && i == len(x.Body.List)-1 {
					label = "default:" // for a switch without may not return
				}
				switch cm := c.Comm.(type) {
				case *ast.SendStmt:
					call += fmt.Sprintf(", vrt.SendCase(%s, %s)", slice(cm.Chan), slice(cm.Value))
				case *ast.ExprStmt:
					u, _ := isArrow(cm.X)
					call += fmt.Sprintf(", vrt.RecvCase(%s)", slice(u.X))
				case *ast.AssignStmt:
					u, _ := isArrow(cm.Rhs[0])
					call += fmt.Sprintf(", vrt.RecvCase(%s)", slice(u.X))
					pre = " " + slice(cm.Lhs[0])
					if len(cm.Lhs) == 2 {
						pre += ", " + slice(cm.Lhs[1])
					}
					pre += " " + cm.Tok.String() + " " + fmt.Sprintf("vrt.As(%s, %s.V)", slice(u.X), sv)
					if len(cm.Lhs) == 2 {
						pre += ", " + sv + ".Ok"
					}
					pre += ";"
				}
				add(off(c.Case), off(c.Colon)+1, label+pre)
				i++
			}
			add(off(x.Select), off(x.Select)+len("select"), call+"); "+sv+".I")
		case *ast.SendStmt:
			add(off(x.Pos()), off(x.Pos()), "vrt.Send(")
			add(off(x.Arrow), off(x.Arrow)+2, ", ")
			add(off(x.End()), off(x.End()), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := isArrow(x.Rhs[0]); ok {
					recv[u] = "vrt.Recv2("
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := isArrow(x.Values[0]); ok {
					recv[u] = "vrt.Recv2("
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f := recv[x]
				if f == "" {
					f = "vrt.Recv("
				}
				add(off(x.OpPos), off(x.OpPos)+2, f)
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && info.Types[x.Fun].IsBuiltin() && len(x.Args) == 1 && isChan(x.Args[0]) {
				switch id.Name {
				case "close":
					add(off(id.Pos()), off(id.End()), "vrt.Close")
				case "len":
					add(off(id.Pos()), off(id.End()), "vrt.Len")
				}
			}
		case *ast.BlockStmt:
			isClause := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					isClause = true
				}
			}
			if !isClause {
				tickList(x.List)
			}
		case *ast.GoStmt:
			goPos, call := off(x.Go), x.Call
			sig, _ := info.Types[call.Fun].Type.(*types.Signature)
			simple := sig != nil && !sig.Variadic() && sig.Results().Len() == 0 &&
				len(call.Args) == sig.Params().Len() && len(call.Args) <= 6
			if simple {
				add(goPos, goPos+2, fmt.Sprintf("vrt.Go%d(", len(call.Args)))
				sep := ""
				if len(call.Args) > 0 {
					sep = ", "
				}
				add(off(call.Lparen), off(call.Lparen)+1, sep)
			} else {
				add(goPos, goPos+2, "vrt.Go0(func() { ")
				add(off(call.End()), off(call.End()), " })")
			}
		case *ast.RangeStmt:
			tv := info.Types[x.X]
			if tv.Type == nil {
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Chan); ok {
				nsel++
				okv := fmt.Sprintf("vrtOk%d", nsel)
				lhs, op, decl := "_", ":=", ""
				if x.Key != nil {
					lhs = slice(x.Key)
					if x.Tok == token.ASSIGN {
						op, decl = "=", "var "+okv+" bool; "
					}
				}
				add(off(x.For)+3, off(x.Body.Lbrace)+1, fmt.Sprintf(" { %s%s, %s %s vrt.Recv2(%s); if !%s { break }; ",
					decl, lhs, okv, op, slice(x.X), okv))
				if x.Key != nil {
					skip[x.Key] = true
				}
				skip[x.X] = true
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				break
			}
			if x.Tok == token.ASSIGN {
				break
			}
			_, ok1 := x.X.(*ast.Ident)
			_, ok2 := x.X.(*ast.SelectorExpr)
			if !ok1 && !ok2 {
				break
			}
			m := slice(x.X)
			name := func(e ast.Expr) string {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					return id.Name
				}
				return ""
			}
			k, v := "", ""
			if x.Key != nil {
				k = name(x.Key)
			}
			if x.Value != nil {
				v = name(x.Value)
			}
			if k == "" {
				nkey++
				k = fmt.Sprintf("vrtKey%d", nkey)
			}
			add(off(x.For)+3, off(x.X.Pos()), fmt.Sprintf(" _, %s := range vrt.Keys(", k))
			add(off(x.X.End()), off(x.X.End()), ")")
			s := ""
			if v != "" {
				s = fmt.Sprintf(" %s, vrtOk := %s[%s]; if !vrtOk { continue }; ", v, m, k)
			} else {
				s = fmt.Sprintf(" if _, vrtOk := %s[%s]; !vrtOk { continue }; ", m, k)
			}
			p := off(x.Body.Lbrace) + 1
			add(p, p, s)
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, walk)
	}
	add(off(f.Name.End()), off(f.Name.End()), "; import vrt "+strconv.Quote(base+"vsync"))
	add(len(text), len(text), "\nvar _ = vrt.T\n")

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].order < edits[j].order
	})
	// An edit replacing a keyword must come after insertions in front of it.
	var sb strings.Builder
	cur := 0
	for i := 0; i < len(edits); {
		j := i
		for j < len(edits) && edits[j].pos == edits[i].pos {
			j++
		}
		group := edits[i:j]
		sb.WriteString(text[cur:group[0].pos])
		cur = group[0].pos
		for _, e := range group {
			if e.end == e.pos {
				sb.WriteString(e.text)
			}
		}
		for _, e := range group {
			if e.end != e.pos {
				sb.WriteString(e.text)
				if e.end > cur {
					cur = e.end
				}
			}
		}
		i = j
	}
	sb.WriteString(text[cur:])
	head := "//go:build go1.21\n"
	return head + "//line " + path + ":1\n" + sb.String()
}
