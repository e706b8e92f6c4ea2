package main

import (
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

func init() {
	register(&rule{id: "C34", technique: "agreement of the YAML documents the repository ships with the type-checked configuration structs (keys and kinds, from the struct tags), and of compose mounts with the tree",
		about: "every key of every shipped configuration, and of every commented-out option of the sample, names a field at that place, and its value is of the field's kind; no struct has two fields of one key; shipped configurations have the mandatory sections; configuration files that deployments mount exist",
		min:   80,
		run:   runSamples})
}

// schema is what a configuration may contain at some place.
type schema struct {
	typ    types.Type
	kind   string // struct map list string int uint bool float duration any
	fields map[string]*schema
	elem   *schema
}

func (c *Check) schemaOf(t types.Type, seen map[types.Type]*schema) *schema {
	t = types.Unalias(t)
	if s := seen[t]; s != nil {
		return s
	}
	s := &schema{typ: t, kind: "any"}
	seen[t] = s
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for _, m := range []string{"UnmarshalYAML", "UnmarshalText"} {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					return s // decodes itself
				}
			}
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" {
		s.kind = "duration"
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		*s = *c.schemaOf(u.Elem(), seen)
		seen[t] = s
	case *types.Slice:
		s.kind, s.elem = "list", c.schemaOf(u.Elem(), seen)
	case *types.Array:
		s.kind, s.elem = "list", c.schemaOf(u.Elem(), seen)
	case *types.Map:
		s.kind, s.elem = "map", c.schemaOf(u.Elem(), seen)
	case *types.Struct:
		s.kind, s.fields = "struct", map[string]*schema{}
		c.addFields(s, u, seen, t.String())
	case *types.Basic:
		switch i := u.Info(); {
		case i&types.IsBoolean != 0:
			s.kind = "bool"
		case i&types.IsUnsigned != 0:
			s.kind = "uint"
		case i&types.IsInteger != 0:
			s.kind = "int"
		case i&types.IsFloat != 0:
			s.kind = "float"
		case i&types.IsString != 0:
			s.kind = "string"
		}
	}
	return s
}

func (c *Check) addFields(s *schema, u *types.Struct, seen map[types.Type]*schema, where string) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("yaml")
		if tag == "" && !strings.Contains(u.Tag(i), ":") {
			tag = u.Tag(i)
		}
		parts := strings.Split(tag, ",")
		if parts[0] == "-" {
			continue
		}
		inline := false
		for _, p := range parts[1:] {
			inline = inline || p == "inline"
		}
		if inline {
			if st := structOf(f.Type()); st != nil {
				c.addFields(s, st, seen, where)
				continue
			}
			if m, ok := f.Type().Underlying().(*types.Map); ok {
				s.kind, s.elem = "any", c.schemaOf(m.Elem(), seen)
				continue
			}
		}
		key := parts[0]
		if key == "" {
			key = strings.ToLower(f.Name())
		}
		c.need(s.fields[key] == nil, "one-field-per-key", where, key)
		s.fields[key] = c.schemaOf(f.Type(), seen)
	}
}

func (c *Check) conform(n *yaml.Node, s *schema, file, path string) {
	site := file + ":" + strconv.Itoa(n.Line)
	for n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	if n.Kind == yaml.ScalarNode && n.Tag == "!!null" || s.kind == "any" {
		c.need(true, "value-of-its-kind", site)
		return
	}
	bad := func() {
		c.fail("value-of-its-kind", site, path+": "+n.Tag+" "+n.Value+" where "+s.typ.String()+" is expected")
	}
	switch s.kind {
	case "struct", "map":
		if n.Kind != yaml.MappingNode {
			bad()
			return
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, v := n.Content[i], n.Content[i+1]
			sub := s.elem
			if s.kind == "struct" {
				if k.Tag == "!!merge" {
					c.conform(v, s, file, path)
					continue
				}
				sub = s.fields[k.Value]
				if !c.need(sub != nil, "key-is-known", file+":"+strconv.Itoa(k.Line), path+"."+k.Value+" is no field of "+s.typ.String()) {
					continue
				}
			}
			c.conform(v, sub, file, path+"."+k.Value)
		}
	case "list":
		if n.Kind != yaml.SequenceNode {
			bad()
			return
		}
		for _, x := range n.Content {
			c.conform(x, s.elem, file, path+"[]")
		}
	default:
		if n.Kind != yaml.ScalarNode {
			bad()
			return
		}
		ok := false
		switch s.kind {
		case "string":
			ok = n.Tag != "!!binary"
		case "bool":
			var b bool
			ok = n.Decode(&b) == nil
		case "int":
			var b int64
			ok = n.Decode(&b) == nil
		case "uint":
			var b uint64
			ok = n.Decode(&b) == nil
		case "float":
			var b float64
			ok = n.Decode(&b) == nil
		case "duration":
			var b time.Duration
			ok = n.Decode(&b) == nil
		}
		if !ok {
			bad()
			return
		}
		c.need(true, "value-of-its-kind", site)
	}
}

func mapEntry(n *yaml.Node, k string) *yaml.Node {
	if n == nil || n.Kind != yaml.MappingNode {
		return nil
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == k {
			return n.Content[i+1]
		}
	}
	return nil
}

// uniqueKeys: the decoder refuses a key that occurs twice.
func (c *Check) uniqueKeys(n *yaml.Node, file string) {
	if n.Kind == yaml.MappingNode {
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i].Value
			if seen[k] {
				c.fail("key-occurs-once", file+":"+strconv.Itoa(n.Content[i].Line), k)
			}
			seen[k] = true
		}
	}
	for _, x := range n.Content {
		c.uniqueKeys(x, file)
	}
}

var optionLine = regexp.MustCompile(`^(\s*)# ?(\s*(?:- )?[a-z_]+:(?:\s.*)?|\s*- .*)$`)

// uncomment activates the options that are commented out.
func uncomment(src string) (string, int) {
	n := 0
	var out []string
	for _, l := range strings.Split(src, "\n") {
		if m := optionLine.FindStringSubmatch(l); m != nil {
			l = m[1] + m[2]
			n++
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n"), n
}

func runSamples(c *Check) {
	root := c.P.repo
	s := c.schemaOf(c.decoded(), map[types.Type]*schema{})
	c.need(s.kind == "struct" && len(s.fields) >= 5, "anchor", "pkg/config", "the configuration")
	var files []string
	_ = filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "vendor" || d.Name() == "node_modules") {
			return filepath.SkipDir
		}
		if e := filepath.Ext(p); !d.IsDir() && (e == ".yml" || e == ".yaml") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	configs := 0
	one := func(src, name string, top bool) {
		var doc yaml.Node
		err := yaml.Unmarshal([]byte(src), &doc)
		if !c.need(err == nil, "is-yaml", name, errText(err)) || len(doc.Content) == 0 {
			return
		}
		configs++
		m := doc.Content[0]
		c.conform(m, s, name, "")
		if top {
			c.uniqueKeys(m, name)
			for _, k := range []string{"listeners", "upstreams", "api", "provider"} {
				v := mapEntry(m, k)
				ok := v != nil && v.Tag != "!!null" && (k == "api" || k == "provider" || len(v.Content) > 0)
				c.need(ok, "mandatory-section", name, k)
				if ok {
					for _, x := range v.Content {
						c.need(k == "api" || k == "provider" || x.Tag != "!!null", "mandatory-section", name, k+": empty entry")
					}
				}
			}
		}
	}
	for _, f := range files {
		rel, _ := filepath.Rel(root, f)
		buf, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		dec := yaml.NewDecoder(strings.NewReader(string(buf)))
		for {
			var doc yaml.Node
			err := dec.Decode(&doc)
			if err != nil || len(doc.Content) == 0 {
				break
			}
			m := doc.Content[0]
			if kind := mapEntry(m, "kind"); kind != nil && kind.Value == "ConfigMap" {
				if data := mapEntry(m, "data"); data != nil {
					for i := 0; i+1 < len(data.Content); i += 2 {
						if v := data.Content[i+1]; isConfig(v.Value) {
							one(v.Value, rel+"#"+data.Content[i].Value, true)
						}
					}
				}
			}
			if svcs := mapEntry(m, "services"); svcs != nil {
				c.mounts(svcs, filepath.Dir(f), rel)
			}
		}
		if isConfig(string(buf)) {
			one(string(buf), rel, true)
			src, n := uncomment(string(buf))
			if n > 0 {
				one(src, rel+" (with commented-out options)", false)
				c.tally("commented-out options", n)
			}
		}
	}
	c.tally("configurations", configs)
	c.need(configs >= 3, "anchor", root, "shipped configurations")
}

// decoded is the type the loader decodes a configuration into.
func (c *Check) decoded() types.Type {
	var typ types.Type = c.P.Named("config", "Configuration")
	for _, fn := range c.P.funcs {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/pkg/config") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !isDecode(call.Call.StaticCallee().String()) {
					continue
				}
				arg, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if p, ok := arg.X.Type().Underlying().(*types.Pointer); ok && structOf(p.Elem()) != nil {
					typ = p.Elem()
				}
			}
		}
	}
	return typ
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// isConfig: a document with listeners and upstreams is a configuration.
func isConfig(src string) bool {
	var doc yaml.Node
	if yaml.Unmarshal([]byte(src), &doc) != nil || len(doc.Content) == 0 {
		return false
	}
	n := 0
	for _, k := range []string{"listeners", "upstreams", "provider", "api"} {
		if mapEntry(doc.Content[0], k) != nil {
			n++
		}
	}
	return n >= 2
}

// mounts: configuration files of this repository that a service mounts exist.
func (c *Check) mounts(svcs *yaml.Node, dir, rel string) {
	for i := 0; i+1 < len(svcs.Content); i += 2 {
		svc := svcs.Content[i+1]
		cmd := ""
		if n := mapEntry(svc, "command"); n != nil {
			for _, x := range append([]*yaml.Node{n}, n.Content...) {
				cmd += " " + x.Value
			}
		}
		vols := mapEntry(svc, "volumes")
		if vols == nil || !strings.Contains(cmd, "-config.file=") {
			continue
		}
		file := strings.Fields(cmd[strings.Index(cmd, "-config.file=")+len("-config.file="):])[0]
		for _, v := range vols.Content {
			p := strings.Split(v.Value, ":")
			if len(p) < 2 || !strings.HasPrefix(p[0], ".") || p[1] != file && !strings.HasPrefix(file, strings.TrimSuffix(p[1], "/")+"/") {
				continue
			}
			src := filepath.Join(dir, p[0])
			if p[1] != file {
				src = filepath.Join(src, strings.TrimPrefix(file, strings.TrimSuffix(p[1], "/")))
			}
			st, err := os.Stat(src)
			c.need(err == nil && !st.IsDir(), "mounted-configuration-exists", rel+":"+strconv.Itoa(v.Line), p[0])
		}
	}
}
