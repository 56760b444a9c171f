// mkcorpus DIR...: writes DIR/desc.go for the type T of DIR/types.go: its description and the views of its values, in the
// terms of verif/genm. It states the documented rules (names, tags, flags) independently of yamly's generator.
// The flags of the corpus are in the comment "// flags: ..." of types.go.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

type tool struct {
	out                  strings.Builder
	ids                  []types.Type
	pkg                  *types.Package
	omit, strict, inline bool
	imports              map[string]string
}

func main() {
	for _, d := range os.Args[1:] {
		if err := one(d); err != nil {
			fmt.Println(d, err)
			os.Exit(1)
		}
	}
}

func one(dir string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, filepath.Join(dir, "types.go"), nil, parser.ParseComments)
	if err != nil {
		return err
	}
	t := &tool{imports: map[string]string{}}
	for _, c := range f.Comments {
		for _, l := range c.List {
			if s, ok := strings.CutPrefix(l.Text, "// flags:"); ok {
				t.omit = strings.Contains(s, "-omitempty")
				t.strict = strings.Contains(s, "-disallow-unknown-fields")
				t.inline = strings.Contains(s, "-inline-embedded")
			}
		}
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := conf.Check(f.Name.Name, fset, []*ast.File{f}, nil)
	if err != nil {
		return err
	}
	t.pkg = pkg
	root := pkg.Scope().Lookup("T").Type()
	t.id(root)
	var body strings.Builder
	for i := 0; i < len(t.ids); i++ {
		t.out.Reset()
		t.emit(i, t.ids[i])
		body.WriteString(t.out.String())
	}
	var w strings.Builder
	fmt.Fprintf(&w, "// Code generated by mkcorpus from types.go. DO NOT EDIT.\n\npackage %s\n\nimport (\n", f.Name.Name)
	var ims []string
	for p := range t.imports {
		ims = append(ims, p)
	}
	sort.Strings(ims)
	for _, p := range ims {
		if t.imports[p] == filepath.Base(p) {
			fmt.Fprintf(&w, "\t%q\n", p)
		} else {
			fmt.Fprintf(&w, "\t%s %q\n", t.imports[p], p)
		}
	}
	fmt.Fprintf(&w, "\n\tm \"verif/genm\"\n)\n\n")
	for i := range t.ids {
		fmt.Fprintf(&w, "var d%d = new(m.D)\n", i)
	}
	w.WriteString("\n" + body.String())
	return os.WriteFile(filepath.Join(dir, "desc.go"), []byte(w.String()), 0o644)
}

func (t *tool) id(x types.Type) int {
	for i, y := range t.ids {
		if types.Identical(x, y) {
			return i
		}
	}
	t.ids = append(t.ids, x)
	return len(t.ids) - 1
}

func (t *tool) name(x types.Type) string {
	return types.TypeString(x, func(p *types.Package) string {
		if p == t.pkg {
			return ""
		}
		if t.imports[p.Path()] == "" {
			name := p.Name()
			for _, n := range t.imports {
				if n == name {
					name += "1"
				}
			}
			t.imports[p.Path()] = name
		}
		return t.imports[p.Path()]
	})
}

func (t *tool) p(f string, a ...any) { fmt.Fprintf(&t.out, f+"\n", a...) }

type field struct {
	path  string
	name  string
	typ   types.Type
	omit  bool
	hosts []int
}

type host struct {
	path string
	elem types.Type
	up   []int // enclosing inlined pointers
}

func tags(s string) (name string, opts []string) {
	p := strings.Split(reflect.StructTag(s).Get("yaml"), ",")
	return p[0], p[1:]
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// fields lists the fields of a struct: its own, then the inlined ones not hidden by them.
func (t *tool) fields(s *types.Struct, path string, up []int, hosts *[]host, ignored *[]string) []field {
	var own, inl []field
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		name, opts := tags(s.Tag(i))
		if name == "-" && len(opts) == 0 {
			*ignored = append(*ignored, path+"."+f.Name())
			continue
		}
		in := has(opts, "inline") || f.Embedded() && t.inline && name == ""
		if in {
			ft := f.Type()
			u := up
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				u = append(append([]int{}, up...), len(*hosts))
				*hosts = append(*hosts, host{path + "." + f.Name(), p.Elem(), up})
				ft = p.Elem()
			}
			if st, ok := ft.Underlying().(*types.Struct); ok {
				inl = append(inl, t.fields(st, path+"."+f.Name(), u, hosts, ignored)...)
				continue
			}
		}
		if !f.Exported() {
			*ignored = append(*ignored, path+"."+f.Name())
			continue
		}
		if name == "" {
			name = f.Name()
		}
		own = append(own, field{path + "." + f.Name(), name, f.Type(), t.omit || has(opts, "omitempty"), up})
	}
	for _, f := range inl {
		hidden := false
		for _, g := range own {
			hidden = hidden || g.path[strings.LastIndex(g.path, "."):] == f.path[strings.LastIndex(f.path, "."):]
		}
		if !hidden {
			own = append(own, f)
		}
	}
	return own
}

var kinds = map[types.BasicKind][2]string{
	types.Int: {"Int", "0"}, types.Int8: {"Int", "8"}, types.Int16: {"Int", "16"}, types.Int32: {"Int", "32"}, types.Int64: {"Int", "64"},
	types.Uint: {"Uint", "0"}, types.Uint8: {"Uint", "8"}, types.Uint16: {"Uint", "16"}, types.Uint32: {"Uint", "32"}, types.Uint64: {"Uint", "64"},
	types.Float32: {"Float", "32"}, types.Float64: {"Float", "64"}, types.Bool: {"Bool", "0"}, types.String: {"Str", "0"},
}

func own(x types.Type) bool {
	n, ok := x.(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Desc" {
			return true
		}
	}
	return false
}

func (t *tool) emit(i int, x types.Type) {
	name := t.name(x)
	u := x.Underlying()
	desc, view, fill := "", "", ""
	switch {
	case own(x):
		desc = fmt.Sprintf("*new(%s).Desc()", name)
		view, fill = "return x.View()", "x.Fill(g)"
	case name == "time.Time":
		desc, view, fill = "m.D{K: m.Time}", "return m.Tm(*x)", "*x = g.T"
	default:
		switch y := u.(type) {
		case *types.Basic:
			k := kinds[y.Kind()]
			desc = fmt.Sprintf("m.D{K: m.%s, Bits: %s}", k[0], k[1])
			c := map[string][3]string{"Int": {"I", "int64", "I"}, "Uint": {"U", "uint64", "U"}, "Float": {"Fl", "float64", "F"}, "Bool": {"B", "bool", "B"}, "Str": {"S", "string", "S"}}[k[0]]
			view = fmt.Sprintf("return m.%s(%s(*x))", c[0], c[1])
			fill = fmt.Sprintf("*x = %s(g.%s)", name, c[2])
		case *types.Pointer:
			e := t.id(y.Elem())
			desc = fmt.Sprintf("m.D{K: m.Ptr, Elem: d%d}", e)
			view = fmt.Sprintf("if *x == nil {\n\t\treturn m.Nil()\n\t}\n\treturn view%d(*x)", e)
			fill = fmt.Sprintf("if g.K == m.GNil {\n\t\t*x = nil\n\t\treturn\n\t}\n\t*x = new(%s)\n\tfill%d(g, *x)", t.name(y.Elem()), e)
		case *types.Slice:
			if t.name(y.Elem()) == "byte" || t.name(y.Elem()) == "uint8" {
				desc = "m.D{K: m.Bytes}"
				view = "if *x == nil {\n\t\treturn m.Nil()\n\t}\n\treturn m.S(string(*x))"
				fill = fmt.Sprintf("*x = nil\n\tif g.K != m.GNil {\n\t\t*x = %s(g.S)\n\t}", name)
				break
			}
			e := t.id(y.Elem())
			desc = fmt.Sprintf("m.D{K: m.Slice, Elem: d%d}", e)
			view = fmt.Sprintf("if *x == nil {\n\t\treturn m.Nil()\n\t}\n\tg := m.L()\n\tfor i := range *x {\n\t\tg.Kids = append(g.Kids, view%d(&(*x)[i]))\n\t}\n\treturn g", e)
			fill = fmt.Sprintf("*x = nil\n\tif g.K != m.GNil {\n\t\t*x = make(%s, len(g.Kids))\n\t\tfor i := range g.Kids {\n\t\t\tfill%d(g.Kids[i], &(*x)[i])\n\t\t}\n\t}", name, e)
		case *types.Array:
			if t.name(y.Elem()) == "byte" || t.name(y.Elem()) == "uint8" {
				desc = fmt.Sprintf("m.D{K: m.ByteArr, N: %d}", y.Len())
				view = "return m.S(string((*x)[:]))"
				fill = "copy((*x)[:], g.S)"
				break
			}
			e := t.id(y.Elem())
			desc = fmt.Sprintf("m.D{K: m.Array, N: %d, Elem: d%d}", y.Len(), e)
			view = fmt.Sprintf("g := m.L()\n\tfor i := range *x {\n\t\tg.Kids = append(g.Kids, view%d(&(*x)[i]))\n\t}\n\treturn g", e)
			fill = fmt.Sprintf("for i := range g.Kids {\n\t\tfill%d(g.Kids[i], &(*x)[i])\n\t}", e)
		case *types.Map:
			k, e := t.id(y.Key()), t.id(y.Elem())
			desc = fmt.Sprintf("m.D{K: m.Map, Key: d%d, Elem: d%d, Omit: %v}", k, e, t.omit)
			view = fmt.Sprintf("if *x == nil {\n\t\treturn m.Nil()\n\t}\n\tg := &m.G{K: m.GMap}\n\tfor k, e := range *x {\n\t\tg.Kids = append(g.Kids, view%d(&k), view%d(&e))\n\t}\n\treturn g", k, e)
			fill = fmt.Sprintf("*x = nil\n\tif g.K != m.GNil {\n\t\t*x = make(%s)\n\t\tfor i := 0; i < len(g.Kids); i += 2 {\n\t\t\tvar k %s\n\t\t\tvar e %s\n\t\t\tfill%d(g.Kids[i], &k)\n\t\t\tfill%d(g.Kids[i+1], &e)\n\t\t\t(*x)[k] = e\n\t\t}\n\t}", name, t.name(y.Key()), t.name(y.Elem()), k, e)
		case *types.Interface:
			if held := t.pkg.Scope().Lookup("Held" + name); held != nil {
				fill = fmt.Sprintf("*x = nil\n\tif g.K != m.GNil {\n\t\t*x = &%s{g.S}\n\t}", held.Name())
				if y.NumMethods() > 0 {
					desc, view = `m.D{K: m.Iface, Pre: "<"}`, fmt.Sprintf("if *x == nil {\n\t\treturn m.Nil()\n\t}\n\tif h, ok := (*x).(*%s); ok {\n\t\treturn m.S(h.s)\n\t}\n\treturn &m.G{K: -1}", held.Name())
				} else {
					desc, view = `m.D{K: m.Any, Pre: "<"}`, fmt.Sprintf("if h, ok := (*x).(*%s); ok {\n\t\treturn m.S(h.s)\n\t}\n\treturn m.A(*x)", held.Name())
				}
				break
			}
			desc, view, fill = "m.D{K: m.Any}", "return m.A(*x)", "*x = nil"
		case *types.Struct:
			var hosts []host
			var ignored []string
			fs := t.fields(y, "x", nil, &hosts, &ignored)
			unknown := []string{"zz"}
			for _, p := range ignored {
				unknown = append(unknown, p[strings.LastIndex(p, ".")+1:])
			}
			for _, f := range fs {
				g := f.path[strings.LastIndex(f.path, ".")+1:]
				if g != f.name {
					unknown = append(unknown, g)
				}
			}
			var uniq []string
			for _, s := range unknown {
				ok := !has(uniq, s)
				for _, f := range fs {
					ok = ok && f.name != s
				}
				if ok {
					uniq = append(uniq, s)
				}
			}
			var b strings.Builder
			fmt.Fprintf(&b, "m.D{K: m.Struct, Strict: %v, Hosts: %d, Unknown: %#v, F: []m.F{", t.strict, len(hosts), uniq)
			var vw, fl strings.Builder
			vw.WriteString("g := m.R()")
			for _, p := range ignored {
				if strings.Count(p, ".") == 1 {
					fmt.Fprintf(&vw, "\n\tif %s != 0 && %s != 9 {\n\t\tg.Dirty = true\n\t}", p, p)
					fmt.Fprintf(&fl, "%s = 9\n\t", p)
				}
			}
			for j, h := range hosts {
				c := fmt.Sprintf("g.Hosts[%d]", j)
				for _, u := range h.up {
					c += fmt.Sprintf(" && g.Hosts[%d]", u)
				}
				fmt.Fprintf(&fl, "if %s {\n\t\t%s = new(%s)\n\t}\n\t", c, h.path, t.name(h.elem))
			}
			for j, f := range fs {
				e := t.id(f.typ)
				mapOmit := ""
				hs := "nil"
				cond, nc := "", ""
				if len(f.hosts) > 0 {
					hs = fmt.Sprintf("%#v", f.hosts)
					for k, h := range f.hosts {
						if k > 0 {
							cond += " && "
							nc += " && "
						}
						cond += fmt.Sprintf("g.Hosts[%d]", h)
						nc += hosts[h].path + " != nil"
					}
				}
				d := fmt.Sprintf("d%d", e)
				if m, ok := f.typ.Underlying().(*types.Map); ok && f.omit && !t.omit {
					mapOmit = "y"
					d = fmt.Sprintf("&m.D{K: m.Map, Key: d%d, Elem: d%d, Omit: true}", t.id(m.Key()), t.id(m.Elem()))
				}
				_ = mapOmit
				fmt.Fprintf(&b, "\n\t\t{Name: %q, D: %s, Omit: %v, Host: %s},", f.name, d, f.omit, hs)
				if cond == "" {
					fmt.Fprintf(&vw, "\n\tg.Kids = append(g.Kids, view%d(&%s))", e, f.path)
					fmt.Fprintf(&fl, "fill%d(g.Kids[%d], &%s)\n\t", e, j, f.path)
				} else {
					fmt.Fprintf(&vw, "\n\tif %s {\n\t\tg.Kids = append(g.Kids, view%d(&%s))\n\t} else {\n\t\tg.Kids = append(g.Kids, m.Zero(d%d))\n\t}", nc, e, f.path, e)
					fmt.Fprintf(&fl, "if %s {\n\t\tfill%d(g.Kids[%d], &%s)\n\t}\n\t", cond, e, j, f.path)
				}
			}
			b.WriteString("\n\t}}")
			vw.WriteString("\n\treturn g")
			desc, view, fill = b.String(), vw.String(), strings.TrimSpace(fl.String())
		default:
			panic(fmt.Sprint("type ", name))
		}
	}
	t.p("func init() { *d%d = %s }", i, desc)
	t.p("\nfunc view%d(x *%s) *m.G {\n\t%s\n}", i, name, view)
	t.p("\nfunc fill%d(g *m.G, x *%s) {\n\t%s\n}\n", i, name, fill)
}
