package main

// jsonnames.go: the JSON form of struct types, computed from their declarations by the rules of encoding/json.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"unicode"
)

func init() {
	register(&Property{id: "C33", rule: "Every field of the types that make up a model has a JSON name of its own, so that the JSON form of a model has all of it.", run: runC33})
}

type jfield struct {
	v         *types.Var
	name      string
	depth     int
	tagged    bool
	omitempty bool
	quoted    bool
	hidden    bool // json:"-", unexported, or shadowed
	owner     string
}

func declStruct(t types.Type) (*types.Struct, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// jsonFields lists the fields of a struct and of the structs embedded in it with their JSON names.
func jsonFields(t types.Type) []*jfield {
	var out []*jfield
	var walk func(t types.Type, depth int, owner string)
	walk = func(t types.Type, depth int, owner string) {
		s, ok := declStruct(t)
		if !ok || depth > 6 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			if f.Embedded() && parts[0] == "" {
				if _, ok := declStruct(f.Type()); ok && !hasMarshal(f.Type()) {
					walk(f.Type(), depth+1, owner)
					continue
				}
			}
			j := &jfield{v: f, name: parts[0], depth: depth, tagged: parts[0] != "", owner: owner}
			if j.name == "" {
				j.name = f.Name()
			}
			if tag == "-" || !f.Exported() {
				j.hidden = true
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty", "omitzero":
					j.omitempty = true
				case "string":
					if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean|types.IsString) != 0 {
						j.quoted = true
					}
				}
			}
			out = append(out, j)
		}
	}
	walk(t, 0, "")
	by := map[string][]*jfield{}
	for _, j := range out {
		if !j.hidden {
			by[j.name] = append(by[j.name], j)
		}
	}
	for _, js := range by {
		min := js[0].depth
		for _, j := range js {
			if j.depth < min {
				min = j.depth
			}
		}
		var at, tagged []*jfield
		for _, j := range js {
			if j.depth == min {
				at = append(at, j)
				if j.tagged {
					tagged = append(tagged, j)
				}
			}
		}
		var win *jfield
		if len(at) == 1 {
			win = at[0]
		} else if len(tagged) == 1 {
			win = tagged[0]
		}
		for _, j := range js {
			if j != win {
				j.hidden = true
			}
		}
	}
	return out
}

func hasMarshal(t types.Type) bool {
	if _, ok := t.(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); (n == "MarshalJSON" || n == "UnmarshalJSON" || n == "MarshalText" || n == "UnmarshalText") && len(ms.At(i).Index()) == 1 {
			return true
		}
	}
	return false
}

func lowerFirst(s string) string {
	r := []rune(s)
	if len(r) > 0 {
		r[0] = unicode.ToLower(r[0])
	}
	return string(r)
}

// reachable collects the named struct types of the package that values of type t hold.
func reachable(t types.Type, pkg *types.Package) []*types.Named {
	var out []*types.Named
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := t.(type) {
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Elem())
		case *types.Named:
			if x.Obj().Pkg() != pkg {
				return
			}
			if s, ok := x.Underlying().(*types.Struct); ok {
				out = append(out, x)
				for i := 0; i < s.NumFields(); i++ {
					walk(s.Field(i).Type())
				}
			} else {
				walk(x.Underlying())
			}
		}
	}
	walk(t)
	return out
}

// jsonNames: C21, the names of the specification.
func jsonNames(c *C) {
	root := c.p.Type("openapi", "Model")
	if root == nil {
		return
	}
	pkg := root.(*types.Named).Obj().Pkg()
	always := map[string]bool{"Model.openapi": true, "Model.info": true, "OAuthFlow.scopes": true, "Discriminator.propertyName": true}
	for _, n := range reachable(root, pkg) {
		spec := oasNames[n.Obj().Name()]
		for _, j := range jsonFields(n) {
			if j.v.Name() == "Extensions" || !j.v.Exported() {
				continue
			}
			rule := fmt.Sprintf("OpenAPI name of %s.%s", n.Obj().Name(), j.v.Name())
			at := c.p.pos(j.v.Pos())
			if j.hidden {
				c.decided(rule, false, at, "the field is not encoded")
				continue
			}
			if w, ok := spec[j.v.Name()]; ok && w != j.name {
				c.decided(rule, false, at, fmt.Sprintf("encoded as %q, the specification says %q", j.name, w))
				continue
			}
			if j.quoted {
				c.decided(rule, false, at, "a number or boolean is encoded as a string")
				continue
			}
			if !j.omitempty && !always[n.Obj().Name()+"."+j.name] && !(n.Obj().Name() == "Model") {
				c.decided(rule, false, at, "an absent value is encoded as an empty one")
				continue
			}
			c.decided(rule, true, at, "")
		}
	}
}

func runC33(c *C) {
	for _, root := range []string{"Schema", "Model"} {
		t := c.p.Type("", root)
		if t == nil {
			continue
		}
		pkg := t.(*types.Named).Obj().Pkg()
		for _, n := range reachable(t, pkg) {
			if hasMarshal(n) {
				continue
			}
			names := map[string]bool{}
			for _, j := range jsonFields(n) {
				if !j.v.Exported() {
					continue
				}
				rule := fmt.Sprintf("JSON form of %s: field %s (from %s)", n.Obj().Name(), j.v.Name(), root)
				at := c.p.pos(j.v.Pos())
				switch {
				case j.hidden:
					c.decided(rule, false, at, "the field is not part of the JSON form")
				case j.name != lowerFirst(j.v.Name()):
					c.decided(rule, false, at, fmt.Sprintf("encoded as %q instead of %q", j.name, lowerFirst(j.v.Name())))
				case names[strings.ToLower(j.name)]:
					c.decided(rule, false, at, "the name is ambiguous")
				case unencodable(j.v.Type(), 0):
					c.decided(rule, false, at, "the type of the field has no JSON form")
				default:
					c.decided(rule, true, at, "")
				}
				names[strings.ToLower(j.name)] = true
			}
		}
	}
}

func unencodable(t types.Type, depth int) bool {
	if depth > 4 || hasMarshal(t) {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return x.Info()&types.IsComplex != 0 || x.Kind() == types.UnsafePointer
	case *types.Pointer:
		return unencodable(x.Elem(), depth+1)
	case *types.Slice:
		return unencodable(x.Elem(), depth+1)
	case *types.Map:
		if b, ok := x.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return true
		}
		return unencodable(x.Elem(), depth+1)
	}
	return false
}
