package main

import (
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// Shapes are an abstract domain of strings: a concatenation of constants and
// of pieces that stand for a set of strings each. A piece contains none of
// , ; = " ' and, but for blanks, neither starts nor ends with a blank.
//
//	ws     blanks, maybe none
//	case:n the name n in any mix of letter cases
//	tok    a token that is no known name in any letter case (ltok: lowered)
//	num    a number in decimal digits that is not too large
//	big    a number in decimal digits that is too large
//	bad    a nonempty string that is no number in decimal digits
func piece(class, id string) *Term {
	return mk("shape", class+"#"+id, types.Typ[types.String], nil)
}

func shapeClass(t *Term) string {
	if t.op != "shape" {
		return ""
	}
	return t.sym[:strings.LastIndex(t.sym, "#")]
}

func isShape(t *Term) bool {
	if t.op == "shape" {
		return true
	}
	if t.op == "cat" {
		for _, a := range t.args {
			if a.op == "shape" {
				return true
			}
		}
	}
	return false
}

func piecesOf(t *Term) ([]*Term, bool) {
	ps := []*Term{t}
	if t.op == "cat" {
		ps = t.args
	}
	for _, p := range ps {
		if _, ok := p.isStr(); !ok && p.op != "shape" {
			return nil, false
		}
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil, true
	}
	return ps, true
}

func ofPieces(ps []*Term) *Term {
	t := strTerm("")
	for _, p := range ps {
		t = catT(t, p)
	}
	return t
}

func separator(t *Term) (string, bool) {
	s, ok := t.isStr()
	if n, isN := t.isInt(); isN && n.IsInt64() && n.Int64() > 0 && n.Int64() < 128 {
		s, ok = string(rune(n.Int64())), true
	}
	return s, ok && len(s) == 1 && strings.Contains(",;=\"'", s)
}

// shapeSplit splits at a separator, n times at most (n < 0: everywhere).
func shapeSplit(ps []*Term, sep string, n int) []*Term {
	var out []*Term
	cur := []*Term{}
	for _, p := range ps {
		s, ok := p.isStr()
		if !ok {
			cur = append(cur, p)
			continue
		}
		for n < 0 || len(out) < n-1 {
			i := strings.Index(s, sep)
			if i < 0 {
				break
			}
			out = append(out, ofPieces(append(cur, strTerm(s[:i]))))
			cur, s = nil, s[i+len(sep):]
		}
		cur = append(cur, strTerm(s))
	}
	return append(out, ofPieces(cur))
}

// shapeTrim removes the characters of a set from the ends.
func shapeTrim(ps []*Term, set string, left, right bool) (*Term, bool) {
	blanks := strings.Contains(set, " ") && strings.Contains(set, "\t")
	if !blanks && strings.ContainsAny(set, " \t") {
		return nil, false
	}
	for _, r := range set {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '-' {
			return nil, false
		}
	}
	ps = append([]*Term(nil), ps...)
	for side := 0; side < 2; side++ {
		if side == 0 && !left || side == 1 && !right {
			continue
		}
		for len(ps) > 0 {
			i := 0
			if side == 1 {
				i = len(ps) - 1
			}
			rest := strTerm("")
			if s, ok := ps[i].isStr(); ok {
				if side == 0 {
					s = strings.TrimLeft(s, set)
				} else {
					s = strings.TrimRight(s, set)
				}
				rest = strTerm(s)
			} else if shapeClass(ps[i]) == "ws" {
				if !blanks {
					if len(ps) > 1 {
						return nil, false // what follows may be trimmed, or not
					}
					break
				}
			} else {
				break
			}
			if s, _ := rest.isStr(); s != "" {
				ps[i] = rest
				break
			}
			ps = append(append([]*Term(nil), ps[:i]...), ps[i+1:]...)
		}
	}
	return ofPieces(ps), true
}

func shapeLower(ps []*Term) *Term {
	var out []*Term
	for _, p := range ps {
		id := p.sym[strings.LastIndex(p.sym, "#")+1:]
		switch cl := shapeClass(p); {
		case cl == "":
			s, _ := p.isStr()
			p = strTerm(strings.ToLower(s))
		case strings.HasPrefix(cl, "case:"):
			p = strTerm(strings.ToLower(cl[5:]))
		case cl == "tok":
			p = piece("ltok", id)
		case cl == "bad":
			p = piece("bad", id+"l")
		}
		out = append(out, p)
	}
	return ofPieces(out)
}

var knownDirectives = []string{"no-cache", "no-store", "no-transform", "only-if-cached", "max-age", "min-fresh", "max-stale", "s-maxage", "private", "public", "must-revalidate", "proxy-revalidate"}

// shapeEq compares a shape with a constant, as far as the pieces decide it.
func shapeEq(ps []*Term, s string) (eq, decided bool) {
	var re strings.Builder
	re.WriteString(`(?s)\A`)
	exact := true
	for _, p := range ps {
		exact = exact && p.op != "shape"
		switch cl := shapeClass(p); {
		case cl == "":
			c, _ := p.isStr()
			re.WriteString(regexp.QuoteMeta(c))
		case cl == "ws":
			re.WriteString(`[ \t]*`)
		case strings.HasPrefix(cl, "case:"):
			re.WriteString("(?i:" + regexp.QuoteMeta(cl[5:]) + ")")
		case cl == "num" || cl == "big":
			re.WriteString(`[0-9]+`)
		case cl == "ltok":
			re.WriteString(`[^,;="'\sA-Z]+`)
		default:
			re.WriteString(`[^,;="'\s](?:[^,;="']*[^,;="'\s])?`)
		}
	}
	re.WriteString(`\z`)
	if !regexp.MustCompile(re.String()).MatchString(s) {
		return false, true
	}
	if exact {
		return true, true
	}
	if len(ps) == 1 {
		switch shapeClass(ps[0]) {
		case "tok", "ltok":
			for _, k := range knownDirectives {
				if strings.EqualFold(k, s) {
					return false, true
				}
			}
		case "bad":
			if regexp.MustCompile(`\A[0-9]+\z`).MatchString(s) {
				return false, true
			}
		}
	}
	return false, false
}

// shapeSlice is x[lo:hi] if the bounds are at pieces or within constants.
func shapeSlice(x, lo, hi *Term) (*Term, bool) {
	ps, ok := piecesOf(x)
	if !ok {
		return nil, false
	}
	if hi.op == "nil" {
		hi = lenT(x)
	}
	cut := func(at *Term) (int, int, bool) { // piece, offset
		pos := intTerm(0)
		for i, p := range ps {
			if at == pos {
				return i, 0, true
			}
			if s, ok := p.isStr(); ok {
				for k := 1; k < len(s); k++ {
					if at == addT(pos, intTerm(int64(k)), types.Typ[types.Int]) {
						return i, k, true
					}
				}
			}
			pos = addT(pos, lenT(p), types.Typ[types.Int])
		}
		return len(ps), 0, at == pos
	}
	i, ik, ok1 := cut(lo)
	j, jk, ok2 := cut(hi)
	if !ok1 || !ok2 || j < i || i == j && jk < ik {
		return nil, false
	}
	var out []*Term
	for n, p := range ps {
		if n < i || n > j {
			continue
		}
		if s, ok := p.isStr(); ok {
			a, b := 0, len(s)
			if n == i {
				a = ik
			}
			if n == j {
				b = jk
			}
			out = append(out, strTerm(s[a:b]))
		} else if n < j {
			out = append(out, p)
		}
	}
	return ofPieces(out), true
}

// numberOf is the value of a piece of digits.
func numberOf(t *Term) *Term {
	return mk("len", "s", types.Typ[types.Int], []*Term{mk("numeral", "", types.Typ[types.String], []*Term{t})})
}

func shapeErr(why string, ok bool) Val {
	if ok {
		return single(nilTerm())
	}
	return single(mk("shapeerr", why, types.Universe.Lookup("error").Type(), nil))
}

// shapeCall models the library functions on shapes.
func shapeCall(name string, ts []*Term, rt types.Type) Val {
	str := types.Typ[types.String]
	S := func(t *Term, ok bool) Val {
		if !ok {
			return nil
		}
		return single(t)
	}
	ps, ok := piecesOf(ts[0])
	if !ok {
		return nil
	}
	const blanks = " \t\r\n\v\f"
	switch name {
	case "strings.TrimSpace":
		return S(shapeTrim(ps, blanks, true, true))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if set, ok := ts[1].isStr(); ok {
			return S(shapeTrim(ps, set, name != "strings.TrimRight", name != "strings.TrimLeft"))
		}
	case "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		if strings.Contains(ts[1].String(), "unicode.IsSpace") {
			return S(shapeTrim(ps, blanks, name != "strings.TrimRightFunc", name != "strings.TrimLeftFunc"))
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.CutPrefix", "strings.CutSuffix", "strings.HasPrefix", "strings.HasSuffix":
		x, ok := ts[1].isStr()
		if !ok {
			return nil
		}
		suffix := strings.HasSuffix(name, "Suffix")
		has, rest := false, ps
		if len(ps) > 0 {
			i := 0
			if suffix {
				i = len(ps) - 1
			}
			if s, isC := ps[i].isStr(); isC {
				if suffix {
					has = strings.HasSuffix(s, x)
					s = strings.TrimSuffix(s, x)
				} else {
					has = strings.HasPrefix(s, x)
					s = strings.TrimPrefix(s, x)
				}
				if !has && len(s) < len(x) && len(ps) > 1 {
					return nil
				}
				rest = append([]*Term(nil), ps...)
				rest[i] = strTerm(s)
			} else if !strings.ContainsAny(x, ",;=\"'") {
				return nil
			} else if cl := shapeClass(ps[i]); cl == "ws" && len(ps) > 1 {
				return nil
			}
		}
		switch {
		case strings.HasPrefix(name, "strings.Has"):
			return boolB(has)
		case strings.HasPrefix(name, "strings.Cut"):
			return &AV{f: []Val{single(ofPieces(rest)), boolB(has)}}
		}
		return single(ofPieces(rest))
	case "strings.ToLower":
		return single(shapeLower(ps))
	case "strings.EqualFold":
		qs, ok := piecesOf(ts[1])
		if !ok {
			return nil
		}
		return eqT(shapeLower(ps), shapeLower(qs))
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.Count":
		sep, ok := separator(ts[1])
		if !ok {
			return nil
		}
		n := len(shapeSplit(ps, sep, -1)) - 1
		if name == "strings.Count" {
			return single(intTerm(int64(n)))
		}
		return boolB(n > 0)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte":
		sep, ok := separator(ts[1])
		if !ok {
			return nil
		}
		parts := shapeSplit(ps, sep, -1)
		if len(parts) < 2 {
			return single(intTerm(-1))
		}
		if strings.HasPrefix(name, "strings.Last") {
			return single(subT(subT(lenT(ts[0]), lenT(parts[len(parts)-1]), types.Typ[types.Int]), intTerm(1), types.Typ[types.Int]))
		}
		return single(lenT(parts[0]))
	case "strings.Cut":
		if sep, ok := separator(ts[1]); ok {
			parts := shapeSplit(ps, sep, 2)
			if len(parts) < 2 {
				return &AV{f: []Val{single(ts[0]), single(strTerm("")), False}}
			}
			return &AV{f: []Val{single(parts[0]), single(parts[1]), True}}
		}
	case "strings.Split", "strings.SplitN":
		sep, ok := separator(ts[1])
		n := int64(-1)
		if name == "strings.SplitN" {
			m, isN := ts[2].isInt()
			ok = ok && isN && m.IsInt64()
			if ok {
				n = m.Int64()
			}
		}
		if !ok || n == 0 {
			return nil
		}
		return single(seqT(shapeSplit(ps, sep, int(n)), types.NewSlice(str)))
	case "strings.Clone", "strings.ToValidUTF8":
		return single(ts[0])
	case "strings.ReplaceAll":
		from, ok1 := ts[1].isStr()
		to, ok2 := ts[2].isStr()
		if ok1 && ok2 && len(from) == 1 && strings.Contains(",;=\"'", from) {
			var out []*Term
			for _, p := range ps {
				if s, ok := p.isStr(); ok {
					p = strTerm(strings.ReplaceAll(s, from, to))
				}
				out = append(out, p)
			}
			return single(ofPieces(out))
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if name != "strconv.Atoi" {
			if b, ok := ts[1].isInt(); !ok || b.Int64() != 10 {
				return nil
			}
		}
		val := func(v *Term, err Val) Val { return &AV{f: []Val{single(v), err}} }
		sign, digits := "", ps
		if len(ps) > 1 {
			if s, ok := ps[0].isStr(); ok && (s == "-" || s == "+") {
				sign, digits = s, ps[1:]
			}
		}
		if len(digits) == 1 && !(sign != "" && name == "strconv.ParseUint") {
			switch shapeClass(digits[0]) {
			case "num":
				v := numberOf(digits[0])
				if sign == "-" {
					v = subT(intTerm(0), v, types.Typ[types.Int])
				}
				return val(v, shapeErr("", true))
			case "big":
				n := new(big.Int).SetUint64(1<<63 - 1)
				if len(ts) == 3 {
					m, ok := ts[2].isInt()
					if !ok || m.Sign() < 0 || m.Int64() > 64 {
						return nil
					}
					bits := uint(m.Int64())
					if bits == 0 {
						bits = 64
					}
					if name == "strconv.ParseInt" {
						bits--
					}
					n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
				}
				if sign == "-" {
					return nil
				}
				return val(mk("const", "i:"+n.String(), types.Typ[types.Int], nil), shapeErr("range", false))
			}
		}
		if s, ok := ts[0].isStr(); ok {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil && (n >= 0 && sign == "" || name != "strconv.ParseUint") {
				return val(intTerm(n), shapeErr("", true))
			}
		}
		return val(intTerm(0), shapeErr("syntax", false))
	}
	return nil
}
