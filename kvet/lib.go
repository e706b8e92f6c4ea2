package main

import (
	"go/types"
	"math/big"
	"net/textproto"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions the analysis knows the meaning of. Everything else is
// either a pure function of its arguments (purePkgs) or an opaque effect.

type model func(c *callCtx) Val

var models map[string]model

var purePkgs = []string{
	"strings.", "strconv.", "path.", "path/filepath.", "regexp.", "(*regexp.Regexp).", "net/url.", "(*net/url.URL).", "(net/url.URL).", "(net/url.Values).Encode",
	"net/netip.", "(net/netip.", "net.ParseCIDR", "net.SplitHostPort", "net.JoinHostPort", "net.ParseIP", "(*net.IPNet).Contains", "(net.IP).",
	"encoding/hex.", "crypto/md5.Sum", "crypto/sha256.Sum", "crypto/sha1.Sum", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "unicode.", "unicode/utf8.", "math.", "slices.", "maps.",
	"fmt.Sprint", "net/http.StatusText", "net/http.CanonicalHeaderKey", "net/textproto.", "time.", "(time.", "(*time.Location).", "errors.", "context.Background", "context.TODO", "context.Cause", "context.WithValue",
	"github.com/cespare/xxhash/v2.", "html.", "(*strings.Replacer).Replace", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "bufio.NewReader", "io.NopCloser",
	"builtin.", "(error).Error", "(*net.OpError).", "(net.Error).", "(context.Context).Value", "(reflect.", "reflect.",
	"(*net/http.Request).UserAgent", "(*net/http.Request).Referer", "math/bits.", "cmp.", "sort.SearchStrings", "unsafe.",
	"encoding/json.NewEncoder", "encoding/json.NewDecoder", "gopkg.in/yaml.v3.NewDecoder", "encoding/gob.NewEncoder", "encoding/gob.NewDecoder",
}

var impure = map[string]bool{"time.Now": true, "time.Sleep": true, "time.After": true, "time.NewTicker": true, "time.NewTimer": true, "time.Tick": true, "time.AfterFunc": true}

func isPure(name string) bool {
	if impure[name] {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func canonKey(k *Term) *Term {
	if s, ok := k.isStr(); ok {
		return strTerm(textproto.CanonicalMIMEHeaderKey(s))
	}
	if k.op == "canon" {
		return k
	}
	if k.op == "ite" {
		var gs []guarded
		for i, a := range k.args {
			gs = append(gs, guarded{k.bs[i], single(canonKey(a))})
		}
		return term(join(gs))
	}
	return mk("canon", "", types.Typ[types.String], []*Term{k})
}

var strSlice = types.NewSlice(types.Typ[types.String])

func alts(v Val) []alt { return altsOf(v) }

func init() {
	models = map[string]model{}
	def := func(m model, names ...string) {
		for _, n := range names {
			models[n] = m
		}
	}

	// --- net/http.Header and net/url.Values ---
	multimap := func(key func(*Term) *Term, recv ...string) {
		names := func(m string) (l []string) {
			for _, r := range recv {
				l = append(l, "("+r+")."+m)
			}
			return
		}
		hget := func(c *callCtx, f func(g B, v *Term) Val) Val {
			return each(c.pc, c.args[:2], func(g B, ts []*Term) Val {
				c.e.access("mapread", ts[0], g, c.caller(), c.pos(), nil)
				v, _ := c.e.mapLoad(ts[0], key(ts[1]), strSlice, g)
				return each(g, []Val{v}, func(g B, us []*Term) Val { return f(g, us[0]) })
			})
		}
		def(func(c *callCtx) Val { return hget(c, func(g B, v *Term) Val { return first1(v) }) }, names("Get")...)
		def(func(c *callCtx) Val { return hget(c, func(g B, v *Term) Val { return single(v) }) }, names("Values")...)
		def(func(c *callCtx) Val {
			each(c.pc, c.args, func(g B, ts []*Term) Val {
				c.e.mapStore(c.e.top(), ts[0], key(ts[1]), single(seqT([]*Term{ts[2]}, strSlice)), g, c.pos())
				return nil
			})
			return nil
		}, names("Set")...)
		def(func(c *callCtx) Val {
			each(c.pc, c.args, func(g B, ts []*Term) Val {
				k := key(ts[1])
				old, _ := c.e.mapLoad(ts[0], k, strSlice, g)
				v := each(g, []Val{old}, func(g B, us []*Term) Val {
					return single(appendT(us[0], seqT([]*Term{ts[2]}, strSlice), strSlice))
				})
				c.e.mapStore(c.e.top(), ts[0], k, v, g, c.pos())
				return nil
			})
			return nil
		}, names("Add")...)
		def(func(c *callCtx) Val {
			each(c.pc, c.args, func(g B, ts []*Term) Val {
				c.e.mapDelete(c.caller(), ts[0], key(ts[1]), g, c.pos())
				return nil
			})
			return nil
		}, names("Del")...)
		def(func(c *callCtx) Val {
			h := False
			each(c.pc, c.args[:2], func(g B, ts []*Term) Val {
				c.e.access("mapread", ts[0], g, c.caller(), c.pos(), nil)
				_, p := c.e.mapLoad(ts[0], key(ts[1]), strSlice, g)
				h = Or(h, And(g, p))
				return nil
			})
			return h
		}, names("Has")...)
	}
	multimap(canonKey, "net/http.Header", "net/textproto.MIMEHeader")
	multimap(func(k *Term) *Term { return k }, "net/url.Values")
	cl := func(c *callCtx) Val {
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			if ts[0].op == "nil" {
				return single(ts[0])
			}
			return single(c.e.cloneMap(ts[0], c.resType()))
		})
	}
	def(cl, "(net/http.Header).Clone", "maps.Clone")
	def(func(c *callCtx) Val {
		return single(canonKey(term(c.args[0])))
	}, "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey")

	// --- net/http.Request ---
	reqField := func(c *callCtx, name string) (*types.Struct, int) {
		st := c.sig.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st, i
			}
		}
		return nil, -1
	}
	def(func(c *callCtx) Val {
		st, i := reqField(c, "ctx")
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			v := c.e.load(faT(ts[0], i, st), st.Field(i).Type(), g)
			return each(g, []Val{v}, func(g B, us []*Term) Val {
				return single(us[0]) // the nil case is the background context
			})
		})
	}, "(*net/http.Request).Context")
	copyReq := func(c *callCtx, deep bool) Val {
		st, i := reqField(c, "ctx")
		_, h := reqField(c, "Header")
		_, u := reqField(c, "URL")
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			n := c.e.newAlloc(c.resType())
			pt := c.resType().(*types.Pointer).Elem()
			c.e.store(n, c.e.load(ts[0], pt, g), pt, g)
			c.e.store(faT(n, i, st), c.args[1], st.Field(i).Type(), g)
			if deep {
				hv := c.e.load(faT(n, h, st), st.Field(h).Type(), g)
				for _, a := range alts(hv) {
					if a.t.op != "nil" {
						m := c.e.cloneMap(a.t, st.Field(h).Type())
						c.e.store(faT(n, h, st), single(m), st.Field(h).Type(), And(g, a.g))
					}
				}
				ut := st.Field(u).Type()
				uv := c.e.load(faT(n, u, st), ut, g)
				for _, a := range alts(uv) {
					if a.t.op != "nil" {
						m := c.e.newAlloc(ut)
						up := ut.(*types.Pointer).Elem()
						c.e.store(m, c.e.load(a.t, up, And(g, a.g)), up, And(g, a.g))
						c.e.store(faT(n, u, st), single(m), ut, And(g, a.g))
					}
				}
			}
			return single(n)
		})
	}
	def(func(c *callCtx) Val { return copyReq(c, false) }, "(*net/http.Request).WithContext")
	def(func(c *callCtx) Val { return copyReq(c, true) }, "(*net/http.Request).Clone")
	def(func(c *callCtx) Val {
		v, r := c.e.CallFn(c.args[0], c.sig, c.args[1:], c.pc)
		c.pc = r
		return v
	}, "(net/http.HandlerFunc).ServeHTTP")

	// --- errors ---
	def(func(c *callCtx) Val {
		c.e.nalloc++
		return single(mk("newerr", strconv.Itoa(c.e.nalloc), c.resType(), []*Term{term(c.args[0])}))
	}, "errors.New")
	def(func(c *callCtx) Val {
		c.e.nalloc++
		ts := []*Term{term(c.args[0])}
		if len(c.args) > 1 {
			ts = append(ts, term(c.args[1]))
		}
		return single(mk("newerr", strconv.Itoa(c.e.nalloc), c.resType(), ts))
	}, "fmt.Errorf")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val { return errIs(ts[0], ts[1]) })
	}, "errors.Is")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			p := ts[1]
			for p.op == "iface" {
				p = p.args[0]
			}
			var et types.Type
			if p.typ != nil {
				if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
					et = pt.Elem()
				}
			}
			n := "?"
			if et != nil {
				n = et.String()
			}
			if ts[0].op == "nil" {
				return False
			}
			ok := atom(mk("erras", n, types.Typ[types.Bool], ts[:1]))
			if et != nil {
				c.e.store(p, single(mk("as", n, et, ts[:1])), et, And(g, ok))
			}
			return ok
		})
	}, "errors.As")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			if ts[0].op != "seq" {
				return single(mk("call", "errors.Join", c.resType(), ts))
			}
			all := True
			for _, a := range ts[0].args {
				all = And(all, eqV(g, single(a), single(nilTerm()), a.typ))
			}
			c.e.nalloc++
			n := mk("newerr", strconv.Itoa(c.e.nalloc), c.resType(), ts)
			return join([]guarded{{all, single(nilTerm())}, {Not(all), single(n)}})
		})
	}, "errors.Join")

	// --- fmt ---
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val { return single(sprintf(ts[0], ts[1], c.resType())) })
	}, "fmt.Sprintf")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			if ts[0].op == "seq" && len(ts[0].args) == 1 {
				return single(fmtArg("v", ts[0].args[0]))
			}
			return single(mk("call", c.name, c.resType(), ts))
		})
	}, "fmt.Sprint")

	// --- time ---
	bin := func(f func(a, b *Term, rt types.Type) Val) model {
		return func(c *callCtx) Val {
			return each(c.pc, c.args, func(g B, ts []*Term) Val { return f(ts[0], ts[1], c.resType()) })
		}
	}
	def(bin(func(a, b *Term, rt types.Type) Val { return single(addT(a, b, rt)) }), "(time.Time).Add")
	def(bin(func(a, b *Term, rt types.Type) Val { return single(subT(a, b, rt)) }), "(time.Time).Sub")
	def(bin(func(a, b *Term, rt types.Type) Val { return ltT(a, b) }), "(time.Time).Before")
	def(bin(func(a, b *Term, rt types.Type) Val { return ltT(b, a) }), "(time.Time).After")
	def(bin(func(a, b *Term, rt types.Type) Val { return intEqT(a, b) }), "(time.Time).Equal")
	def(bin(func(a, b *Term, rt types.Type) Val {
		lt, gt := ltT(a, b), ltT(b, a)
		return join([]guarded{{lt, single(intTerm(-1))}, {gt, single(intTerm(1))}, {And(Not(lt), Not(gt)), single(intTerm(0))}})
	}), "(time.Time).Compare")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val { return intEqT(ts[0], zeroTime()) })
	}, "(time.Time).IsZero")
	def(func(c *callCtx) Val { return c.args[0] }, "(time.Time).UTC", "(time.Time).Local")
	def(func(c *callCtx) Val {
		now := c.e.impureNow(c)
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			if c.name == "time.Until" {
				return single(subT(ts[0], now, c.resType()))
			}
			return single(subT(now, ts[0], c.resType()))
		})
	}, "time.Since", "time.Until")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			t := ts[0]
			// Unix(t.Unix(), 0) names the same instant in seconds.
			return single(mk("call", c.name, c.resType(), []*Term{t}))
		})
	}, "(time.Time).Unix")

	// --- slices, strings.Builder ---
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			et := types.Type(nil)
			if s, ok := c.sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			if ts[0].op == "seq" {
				r := False
				for _, a := range ts[0].args {
					r = Or(r, eqV(g, fromTerm(a, et), single(ts[1]), et))
				}
				return r
			}
			// exists i: s[i] == x, the form of the loop
			lvl := c.e.depth
			b := mk("bound", strconv.Itoa(lvl), types.Typ[types.Int], nil)
			el := c.e.load(iaT(ts[0], b, nil), et, g)
			return existsB(lvl, lenT(ts[0]), eqV(g, el, single(ts[1]), et))
		})
	}, "slices.Contains")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			if ts[0].op == "seq" {
				r := False
				for _, a := range ts[0].args {
					v, _ := c.e.CallFn(c.args[1], nil, []Val{fromTerm(a, et)}, g)
					r = Or(r, asBool(v))
				}
				return r
			}
			lvl := c.e.depth
			c.e.depth++
			b := mk("bound", strconv.Itoa(lvl), types.Typ[types.Int], nil)
			el := c.e.load(iaT(ts[0], b, nil), et, g)
			v, _ := c.e.CallFn(c.args[1], nil, []Val{el}, g)
			c.e.depth--
			return existsB(lvl, lenT(ts[0]), asBool(v))
		})
	}, "slices.ContainsFunc")
	// The index of the first element for which something holds.
	index := func(c *callCtx, holds func(g B, el, x Val, et types.Type) B) Val {
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			et := c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			it := types.Typ[types.Int]
			lvl, dom := c.e.depth, lenT(ts[0])
			c.e.depth++
			b := mk("bound", strconv.Itoa(lvl), it, nil)
			cond := holds(g, c.e.load(iaT(ts[0], b, nil), et, g), c.args[1], et)
			c.e.depth--
			ex := existsB(lvl, dom, cond)
			var cs []guarded
			rest := ex
			_, d := someDom(dom)
			for _, h := range hoist(lvl, cond) {
				if h.c == False || !sat(And(rest, h.g)) {
					continue
				}
				at := intTerm(0)
				if mentions(h.c, isBound(lvl)) {
					at = mk("first", strconv.Itoa(lvl)+":", it, []*Term{d}, h.c)
				}
				cs = append(cs, guarded{And(rest, h.g), single(at)})
				rest = And(rest, Not(h.g))
			}
			return join(append(cs, guarded{Not(ex), single(intTerm(-1))}))
		})
	}
	def(func(c *callCtx) Val {
		return index(c, func(g B, el, x Val, et types.Type) B { return eqV(g, el, x, et) })
	}, "slices.Index")
	def(func(c *callCtx) Val {
		return index(c, func(g B, el, f Val, et types.Type) B {
			v, _ := c.e.CallFn(f, nil, []Val{el}, g)
			return asBool(v)
		})
	}, "slices.IndexFunc")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			return single(mk("append", "", c.resType(), []*Term{nilTerm(), ts[0]}))
		})
	}, "slices.Clone", "bytes.Clone")
	sb := func(a *Term) *Term { return mk("fa", "ghost", nil, []*Term{a}) }
	def(func(c *callCtx) Val {
		e := c.e
		each(c.pc, c.args, func(g B, ts []*Term) Val {
			old, _ := e.read(sb(ts[0]), types.Typ[types.String], g)
			x := ts[1]
			switch {
			case strings.HasSuffix(c.name, "WriteByte"), strings.HasSuffix(c.name, "WriteRune"):
				x = runeStr(x)
			case strings.HasSuffix(c.name, ".Write"):
				x = mk("conv", "string", types.Typ[types.String], []*Term{x})
			}
			nv := each(g, []Val{old}, func(g B, us []*Term) Val { return single(catT(us[0], x)) })
			e.store(sb(ts[0]), nv, types.Typ[types.String], g)
			return nil
		})
		rt := c.resType()
		if rt == nil {
			return nil
		}
		if t, ok := rt.(*types.Tuple); ok {
			a := &AV{}
			for i := 0; i < t.Len(); i++ {
				if isInteger(t.At(i).Type()) {
					a.f = append(a.f, single(mk("call", "n", t.At(i).Type(), nil)))
				} else {
					a.f = append(a.f, single(nilTerm()))
				}
			}
			return a
		}
		return single(nilTerm())
	}, "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			v, _ := c.e.read(sb(ts[0]), types.Typ[types.String], g)
			return v
		})
	}, "(*strings.Builder).String")
	def(func(c *callCtx) Val { return nil }, "(*strings.Builder).Grow")
	def(func(c *callCtx) Val {
		return each(c.pc, c.args, func(g B, ts []*Term) Val {
			v, _ := c.e.read(sb(ts[0]), types.Typ[types.String], g)
			return each(g, []Val{v}, func(g B, us []*Term) Val { return single(lenT(us[0])) })
		})
	}, "(*strings.Builder).Len")
	def(func(c *callCtx) Val {
		each(c.pc, c.args, func(g B, ts []*Term) Val {
			c.e.store(sb(ts[0]), single(strTerm("")), types.Typ[types.String], g)
			return nil
		})
		return nil
	}, "(*strings.Builder).Reset")

	// --- sync ---
	lk := func(op string) model {
		return func(c *callCtx) Val {
			for _, a := range alts(c.args[0]) {
				c.e.lockOp(c, lockTerm(a.t), op, And(c.pc, a.g))
			}
			return nil
		}
	}
	def(lk("Lock"), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock")
	def(lk("Unlock"), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock")
	def(lk("RLock"), "(*sync.RWMutex).RLock")
	def(lk("RUnlock"), "(*sync.RWMutex).RUnlock")
	def(func(c *callCtx) Val {
		e := c.e
		pt := c.resType()
		n := e.newAlloc(pt)
		st := pt.(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				e.store(faT(n, i, st), c.args[0], st.Field(i).Type(), c.pc)
			}
		}
		return single(n)
	}, "sync.NewCond")
	def(func(c *callCtx) Val {
		e := c.e
		ev := e.event(&Event{Kind: "call", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args, Common: c.common})
		_ = ev
		if c.name == "(*sync.Cond).Wait" {
			// Other goroutines change the object the condition belongs to.
			for _, a := range alts(c.args[0]) {
				o := a.t
				if o.op == "load" && o.args[0].op == "fa" {
					o = o.args[0].args[0]
				}
				e.havocShared(o, And(c.pc, a.g), "wait")
			}
		}
		return nil
	}, "(*sync.Cond).Wait", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal")

	// The path of a URL as it is sent depends on two of its fields.
	def(func(c *callCtx) Val {
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			return each(g, []Val{c.e.field(single(ts[0]), "Path"), c.e.field(single(ts[0]), "RawPath")}, func(g B, us []*Term) Val {
				return single(mk("call", c.name, types.Typ[types.String], us))
			})
		})
	}, "(*net/url.URL).EscapedPath")

	// sync.Once and sync.WaitGroup.Go
	def(func(c *callCtx) Val {
		c.e.event(&Event{Kind: "call", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args})
		c.e.pending = append(c.e.pending, pending{c.pc, c.args[1], nil, nil, append([]*loopCtx(nil), c.e.loops...), nil, c.at, nil})
		c.e.event(&Event{Kind: "go", Guard: c.pc, Fn: c.caller(), Pos: c.pos(), Args: c.args[1:], Note: "waitgroup"})
		return nil
	}, "(*sync.WaitGroup).Go")
	def(func(c *callCtx) Val {
		did := atom(mk("load", "", types.Typ[types.Bool], []*Term{mk("fa", "ghost", nil, []*Term{term(c.args[0])})}))
		_, r := c.e.CallFn(c.args[1], nil, nil, And(c.pc, Not(did)))
		c.pc = Or(And(c.pc, did), r)
		return nil
	}, "(*sync.Once).Do")

	// Every node of a redis cluster: the function is called with an
	// arbitrary one, for several at a time.
	def(func(c *callCtx) Val {
		ft := c.sig.Params().At(1).Type().Underlying().(*types.Signature)
		node := c.e.fresh(c.name+".node", ft.Params().At(1).Type(), []*Term{term(c.args[0])})
		save, locks := c.e.thread, c.e.locks
		c.e.newThread()
		c.e.threadMany[c.e.thread] = true
		c.e.locks = map[*Term]lockState{}
		er, r := c.e.CallFn(c.args[2], ft, []Val{c.args[1], single(node)}, c.pc)
		c.e.thread, c.e.locks = save, locks
		unreachable := c.e.fresh(c.name, c.sig.Results().At(0).Type(), []*Term{term(c.args[0])})
		c.e.event(&Event{Kind: "call", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args, Ret: single(unreachable)})
		bad := And(r, Not(nilRes(er)))
		c.pc = r
		return join([]guarded{{bad, er}, {Not(bad), single(unreachable)}})
	}, "(*github.com/redis/go-redis/v9.ClusterClient).ForEachMaster", "(*github.com/redis/go-redis/v9.ClusterClient).ForEachShard")

	// --- sync/atomic ---
	ghost := func(a *Term) *Term { return mk("fa", "ghost", nil, []*Term{a}) }
	for _, tn := range []string{"Pointer[T]", "Value", "Int32", "Int64", "Uint32", "Uint64", "Bool", "Uintptr"} {
		p := "(*sync/atomic." + tn + ")."
		def(func(c *callCtx) Val {
			return each(c.pc, c.args, func(g B, ts []*Term) Val {
				c.e.event(&Event{Kind: "atomicload", Guard: g, Name: c.name, Fn: c.caller(), Pos: c.pos(), Addr: ts[0]})
				v, _ := c.e.read(ghost(ts[0]), c.resType(), g)
				return v
			})
		}, p+"Load")
		def(func(c *callCtx) Val {
			each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
				c.e.event(&Event{Kind: "atomicstore", Guard: g, Name: c.name, Fn: c.caller(), Pos: c.pos(), Addr: ts[0], Args: c.args[1:]})
				c.e.store(ghost(ts[0]), c.args[1], nil2(c.sig.Params().At(0).Type()), g)
				return nil
			})
			return nil
		}, p+"Store")
		def(func(c *callCtx) Val {
			return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
				c.e.event(&Event{Kind: "atomicstore", Guard: g, Name: c.name, Fn: c.caller(), Pos: c.pos(), Addr: ts[0], Args: c.args[1:]})
				v, _ := c.e.read(ghost(ts[0]), c.resType(), g)
				c.e.store(ghost(ts[0]), c.args[1], nil2(c.sig.Params().At(0).Type()), g)
				return v
			})
		}, p+"Swap")
		def(func(c *callCtx) Val {
			return each(c.pc, c.args[:2], func(g B, ts []*Term) Val {
				c.e.event(&Event{Kind: "atomicload", Guard: g, Name: c.name, Fn: c.caller(), Pos: c.pos(), Addr: ts[0]})
				old, _ := c.e.read(ghost(ts[0]), c.sig.Params().At(0).Type(), g)
				ok := And(eqV(g, old, single(ts[1]), c.sig.Params().At(0).Type()), atom(c.e.fresh("cas", types.Typ[types.Bool], nil)))
				c.e.event(&Event{Kind: "atomicstore", Guard: And(g, ok), Name: c.name, Fn: c.caller(), Pos: c.pos(), Addr: ts[0], Args: c.args[2:]})
				c.e.store(ghost(ts[0]), c.args[2], nil2(c.sig.Params().At(0).Type()), And(g, ok))
				return ok
			})
		}, p+"CompareAndSwap")
	}
	def(func(c *callCtx) Val {
		// Unescaped separators: strings are compared as they are. With
		// opaque data, there is no user, host and path.
		return each(c.pc, c.args[:1], func(g B, ts []*Term) Val {
			var fs []Val
			for _, f := range []string{"Opaque", "User", "Host", "Path", "RawPath", "Scheme", "OmitHost", "ForceQuery", "RawQuery", "Fragment", "RawFragment"} {
				v := c.e.field(single(ts[0]), f)
				if b, ok := v.(B); ok {
					v = single(boolTerm(b))
				}
				fs = append(fs, v)
			}
			return each(g, fs, func(g B, us []*Term) Val {
				none := eqT(us[0], strTerm(""))
				us = append([]*Term(nil), us...)
				switch {
				case !sat(And(g, none)):
					us[1] = nilTerm()
					us[2], us[3], us[4] = strTerm(""), strTerm(""), strTerm("")
				case !sat(And(g, Not(none))):
					us[0] = strTerm("")
				}
				return single(mk("call", c.name, types.Typ[types.String], us))
			})
		})
	}, "(*net/url.URL).String")
}

func nil2(t types.Type) types.Type { return t }

func (e *Eval) top() *frame {
	if n := len(e.frames); n > 0 {
		return e.frames[n-1]
	}
	return nil
}

func (e *Eval) newAlloc(typ types.Type) *Term {
	e.nalloc++
	return mk("alloc", strconv.Itoa(e.nalloc), typ, nil)
}

func (e *Eval) cloneMap(src *Term, typ types.Type) *Term {
	e.nalloc++
	m := mk("makemap", strconv.Itoa(e.nalloc), typ, nil)
	e.clones[m] = &cloneOf{src, len(e.log)}
	return m
}

func (e *Eval) impureNow(c *callCtx) *Term {
	t := e.fresh("time.Now", c.sig.Params().At(0).Type(), nil)
	e.event(&Event{Kind: "call", Name: "time.Now", Guard: c.pc, Fn: c.caller(), Pos: c.pos(), RetT: t})
	return t
}

func lockTerm(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// lockOp tracks the locks held.
func (e *Eval) lockOp(c *callCtx, l *Term, op string, g B) {
	s := e.locks[l]
	bad := func(cond B, why string) {
		if x := And(g, cond); x != False && sat(x) {
			e.event(&Event{Kind: "lockerr", Guard: x, Fn: c.caller(), Pos: c.pos(), Addr: l, Note: why})
		}
	}
	e.event(&Event{Kind: "lock", Name: op, Guard: g, Fn: c.caller(), Pos: c.pos(), Addr: l})
	switch op {
	case "Lock":
		bad(Or(s.w, s.r), "acquires a lock it already holds")
		s.w = Or(s.w, g)
	case "RLock":
		bad(s.w, "acquires a lock it already holds")
		bad(s.r, "acquires a read lock it already holds")
		s.r = Or(s.r, g)
	case "Unlock":
		bad(Not(s.w), "releases a lock it does not hold")
		s.w = And(s.w, Not(g))
	case "RUnlock":
		bad(Not(s.r), "releases a read lock it does not hold")
		s.r = And(s.r, Not(g))
	}
	e.locks[l] = s
}

// errIs is errors.Is(err, target).
func errIs(err, target *Term) Val {
	if err == target {
		return True
	}
	if err.op == "nil" {
		return eqT(err, target)
	}
	if err.op == "ite" {
		r := False
		for i, a := range err.args {
			r = Or(r, And(err.bs[i], asBool(errIs(a, target))))
		}
		return r
	}
	if err.op == "shapeerr" {
		return boolB(err.sym == "range" && strings.Contains(target.String(), "ErrRange") || err.sym == "syntax" && strings.Contains(target.String(), "ErrSyntax"))
	}
	if err.op == "newerr" {
		r := eqT(err, target)
		var walk func(t *Term)
		walk = func(t *Term) {
			switch t.op {
			case "seq":
				for _, a := range t.args {
					walk(a)
				}
			case "newerr", "ret", "load", "comp", "ite", "call", "as":
				if t.typ != nil && types.IsInterface(t.typ) || t.op == "newerr" {
					r = Or(r, asBool(errIs(t, target)))
				}
			}
		}
		for _, a := range err.args {
			walk(a)
		}
		return r
	}
	return atom(mk("call", "errors.Is", types.Typ[types.Bool], []*Term{err, target}))
}

func runeStr(t *Term) *Term {
	if n, ok := t.isInt(); ok {
		return strTerm(string(rune(n.Int64())))
	}
	return mk("call", "runestr", types.Typ[types.String], []*Term{t})
}

// fmtArg is the text of one formatted argument.
func fmtArg(verb string, a *Term) *Term {
	if a.op == "ite" {
		var gs []guarded
		for i, b := range a.args {
			gs = append(gs, guarded{a.bs[i], single(fmtArg(verb, b))})
		}
		return term(join(gs))
	}
	x := a
	if x.op == "iface" {
		x = x.args[0]
		if isString(a.obj.(types.Type)) && (verb == "s" || verb == "v") {
			if !hasStringer(a.obj.(types.Type)) {
				return x
			}
		}
		if isInteger(a.obj.(types.Type)) && (verb == "d" || verb == "v") && !hasStringer(a.obj.(types.Type)) {
			if n, ok := x.isInt(); ok {
				return strTerm(n.String())
			}
			return mk("call", "itoa", types.Typ[types.String], []*Term{x})
		}
	}
	return mk("call", "fmt%"+verb, types.Typ[types.String], []*Term{a})
}

func hasStringer(t types.Type) bool {
	for _, n := range []string{"String", "Error", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func sprintf(f, args *Term, rt types.Type) *Term {
	s, ok := f.isStr()
	if !ok || args.op != "seq" && args.op != "nil" {
		return mk("call", "fmt.Sprintf", rt, []*Term{f, args})
	}
	out := strTerm("")
	n := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = catT(out, strTerm(s[i:]))
			break
		}
		out = catT(out, strTerm(s[i:i+j]))
		i += j + 1
		k := i
		for k < len(s) && strings.IndexByte("0123456789.+-# ", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			return mk("call", "fmt.Sprintf", rt, []*Term{f, args})
		}
		verb := s[i : k+1]
		i = k + 1
		if verb == "%" {
			out = catT(out, strTerm("%"))
			continue
		}
		if n >= len(args.args) {
			return mk("call", "fmt.Sprintf", rt, []*Term{f, args})
		}
		out = catT(out, fmtArg(verb, args.args[n]))
		n++
	}
	return out
}

// foldConst evaluates library functions of constants and simplifies some others.
func foldConst(name string, ts []*Term, rt types.Type) Val {
	if strings.HasSuffix(name, "rs/zerolog.ParseLevel") {
		// Letter case does not matter.
		for ts[0].op == "call" && (ts[0].sym == "strings.ToLower" || ts[0].sym == "strings.ToUpper") {
			ts = []*Term{ts[0].args[0]}
		}
		if s, ok := ts[0].isStr(); ok {
			if n, ok := zerologLevels[s]; ok {
				return &AV{f: []Val{single(intTerm(n)), single(nilTerm())}}
			}
		}
		t := mk("call", name, rt, ts)
		return &AV{f: []Val{compTerm(t, 0, rt), compTerm(t, 1, rt)}}
	}
	str := func(i int) (string, bool) {
		if i < len(ts) {
			return ts[i].isStr()
		}
		return "", false
	}
	seqStr := func(t *Term) ([]string, bool) {
		if t.op == "nil" {
			return nil, true
		}
		if t.op != "seq" {
			return nil, false
		}
		var out []string
		for _, a := range t.args {
			s, ok := a.isStr()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	mkSeq := func(ss []string) Val {
		var out []*Term
		for _, s := range ss {
			out = append(out, strTerm(s))
		}
		return single(seqT(out, rt))
	}
	if len(ts) > 0 && (isShape(ts[0]) || ts[0].isConst() && strings.HasPrefix(name, "strconv.") || len(ts) > 1 && isShape(ts[1])) {
		if v := shapeCall(name, ts, rt); v != nil {
			return v
		}
	}
	a, aok := str(0)
	b, bok := str(1)
	S := func(s string) Val { return single(strTerm(s)) }
	switch name {
	case "strings.ToLower":
		if aok {
			return S(strings.ToLower(a))
		}
		// idempotent
		if ts[0].op == "call" && ts[0].sym == name {
			return single(ts[0])
		}
	case "strings.ToUpper":
		if aok {
			return S(strings.ToUpper(a))
		}
	case "strings.TrimSpace":
		if aok {
			return S(strings.TrimSpace(a))
		}
		if ts[0].op == "call" && ts[0].sym == name {
			return single(ts[0])
		}
	case "strings.Contains":
		if aok && bok {
			return boolB(strings.Contains(a, b))
		}
		return atom(containsT(ts[0], ts[1]))
	case "strings.ContainsRune":
		if n, ok := ts[1].isInt(); ok {
			if aok {
				return boolB(strings.ContainsRune(a, rune(n.Int64())))
			}
			return atom(containsT(ts[0], strTerm(string(rune(n.Int64())))))
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		sub := ts[1]
		if n, ok := sub.isInt(); ok {
			sub = strTerm(string(rune(n.Int64())))
		}
		if aok {
			if s, ok := sub.isStr(); ok {
				return single(intTerm(int64(strings.Index(a, s))))
			}
		}
		return single(mk("call", "strings.Index", rt, []*Term{ts[0], sub}))
	case "strings.HasPrefix":
		if aok && bok {
			return boolB(strings.HasPrefix(a, b))
		}
		if bok && b == "" {
			return True
		}
	case "strings.HasSuffix":
		if aok && bok {
			return boolB(strings.HasSuffix(a, b))
		}
		if bok && b == "" {
			return True
		}
	case "bytes.Equal":
		if ts[0] == ts[1] {
			return True
		}
	case "strings.EqualFold":
		if aok && bok {
			return boolB(strings.EqualFold(a, b))
		}
		return eqT(lowerT(ts[0]), lowerT(ts[1]))
	case "strings.Trim":
		if aok && bok {
			return S(strings.Trim(a, b))
		}
		if bok && b == " \t\r\n" {
			return single(mk("call", "strings.TrimSpace", rt, ts[:1]))
		}
	case "strings.TrimPrefix":
		if aok && bok {
			return S(strings.TrimPrefix(a, b))
		}
		if bok && b != "" {
			has, rest := affix(ts[0], b, false)
			return join([]guarded{{has, single(rest)}, {Not(has), single(ts[0])}})
		}
	case "strings.TrimSuffix":
		if aok && bok {
			return S(strings.TrimSuffix(a, b))
		}
		if bok && b != "" {
			has, rest := affix(ts[0], b, true)
			return join([]guarded{{has, single(rest)}, {Not(has), single(ts[0])}})
		}
	case "strings.CutPrefix", "strings.CutSuffix":
		if !bok && name == "strings.CutPrefix" {
			has := atom(mk("call", "strings.HasPrefix", types.Typ[types.Bool], []*Term{ts[0], ts[1]}))
			return &AV{f: []Val{join([]guarded{{has, single(sliceT(ts[0], lenT(ts[1]), nilTerm(), types.Typ[types.String]))}, {Not(has), single(ts[0])}}), has}}
		}
		if bok && b != "" && !aok {
			has, rest := affix(ts[0], b, name == "strings.CutSuffix")
			return &AV{f: []Val{join([]guarded{{has, single(rest)}, {Not(has), single(ts[0])}}), has}}
		}
	case "strings.TrimLeft":
		if aok && bok {
			return S(strings.TrimLeft(a, b))
		}
	case "strings.TrimRight":
		if aok && bok {
			return S(strings.TrimRight(a, b))
		}
	case "strings.ReplaceAll", "strings.Replace":
		if c, ok := str(2); ok && aok && bok && name == "strings.ReplaceAll" {
			return S(strings.ReplaceAll(a, b, c))
		}
		if name == "strings.Replace" {
			if n, ok := ts[3].isInt(); ok && n.Sign() < 0 {
				return single(mk("call", "strings.ReplaceAll", rt, ts[:3]))
			}
		}
	case "strings.Split":
		if aok && bok {
			return mkSeq(strings.Split(a, b))
		}
	case "strings.SplitN":
		if n, ok := ts[2].isInt(); ok && aok && bok && n.IsInt64() {
			return mkSeq(strings.SplitN(a, b, int(n.Int64())))
		}
	case "strings.Cut":
		if aok && bok {
			x, y, found := strings.Cut(a, b)
			return &AV{f: []Val{S(x), S(y), boolB(found)}}
		}
	case "strings.Join":
		if ss, ok := seqStr(ts[0]); ok && bok {
			return S(strings.Join(ss, b))
		}
		if ts[0].op == "seq" && len(ts[0].args) == 1 {
			return single(ts[0].args[0])
		}
	case "net.JoinHostPort":
		if aok && !strings.Contains(a, ":") {
			return single(catT(strTerm(a+":"), ts[1]))
		}
	case "path.Clean":
		if aok {
			return S(path.Clean(a))
		}
	case "path.Join":
		if ss, ok := seqStr(ts[0]); ok {
			return S(path.Join(ss...))
		}
		// leading or redundant slashes of later elements do not matter
		if ts[0].op == "seq" {
			var out []*Term
			for i, x := range ts[0].args {
				if s, ok := x.isStr(); ok {
					if i > 0 {
						s = strings.TrimLeft(s, "/")
					}
					if s == "" {
						continue
					}
					x = strTerm(s)
				}
				out = append(out, x)
			}
			return single(mk("call", name, rt, []*Term{seqT(out, ts[0].typ)}))
		}
	case "strconv.Itoa":
		if n, ok := ts[0].isInt(); ok {
			return S(n.String())
		}
		return single(mk("call", "itoa", types.Typ[types.String], ts))
	case "strconv.FormatInt":
		if n, ok := ts[1].isInt(); ok && n.Int64() == 10 {
			if m, ok := ts[0].isInt(); ok {
				return S(m.String())
			}
			return single(mk("call", "itoa", types.Typ[types.String], ts[:1]))
		}
	case "time.Unix":
		// Unix(t.Unix(), 0): t in whole seconds.
		return nil
	case "strconv.Quote":
		if aok {
			return S(strconv.Quote(a))
		}
	case "regexp.QuoteMeta":
		return nil
	case "regexp.MustCompile":
		return single(mk("comp", "0", rt, []*Term{mk("call", "regexp.Compile", nil, ts)}))
	case "(time.Duration).Truncate":
		if n, ok := ts[1].isInt(); ok && n.Sign() > 0 {
			return single(subT(ts[0], mk("call", "op%", rt, []*Term{ts[0], ts[1]}), rt))
		}
	case "(time.Duration).Seconds":
		if n, ok := ts[0].isInt(); ok {
			q := new(big.Rat).SetFrac(n, big.NewInt(1e9))
			return single(mk("const", "f:"+q.RatString(), rt, nil))
		}
	}
	return nil
}

func lowerT(t *Term) *Term {
	if s, ok := t.isStr(); ok {
		return strTerm(strings.ToLower(s))
	}
	if t.op == "call" && t.sym == "strings.ToLower" {
		return t
	}
	return mk("call", "strings.ToLower", types.Typ[types.String], []*Term{t})
}

func containsT(s, sub *Term) *Term {
	return mk("call", "strings.Contains", types.Typ[types.Bool], []*Term{s, sub})
}

var _ = ssa.BuilderMode(0)

// affix: t has the prefix (suffix) p, and what remains without it.
func affix(t *Term, p string, suffix bool) (B, *Term) {
	n := intTerm(int64(len(p)))
	if suffix {
		return atom(mk("call", "strings.HasSuffix", types.Typ[types.Bool], []*Term{t, strTerm(p)})), sliceT(t, intTerm(0), subT(lenT(t), n, types.Typ[types.Int]), types.Typ[types.String])
	}
	return atom(mk("call", "strings.HasPrefix", types.Typ[types.Bool], []*Term{t, strTerm(p)})), sliceT(t, n, nilTerm(), types.Typ[types.String])
}

var zerologLevels = map[string]int64{"trace": -1, "debug": 0, "info": 1, "warn": 2, "error": 3, "fatal": 4, "panic": 5, "": 6, "disabled": 7}
