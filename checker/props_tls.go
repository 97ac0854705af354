package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const toolPkg = "cmd/vanflow-tool"

func init() {
	register("C29", "path-sensitive dataflow of flags and connection files into the TLS configuration",
		"The tool's main is explored with arbitrary flags, files and library results: whatever reaches the container factory is followed back to the flags or the connection file, with what is known on the path about verification, the CA, the key pair and every failure; the factory is followed to the container it creates",
		runC29)
}

// flagVars finds the variables that flags are bound to, and their defaults.
func (p *Program) flagVars(e *Engine, rel string) (vars map[string]*Term, defs map[string]ssa.Value, calls map[string]ssa.Instruction) {
	vars, defs, calls = map[string]*Term{}, map[string]ssa.Value{}, map[string]ssa.Instruction{}
	pk := p.repoPkg(rel)
	if pk == nil {
		return
	}
	for _, fn := range p.funcs {
		if pkgPath(fn) != pk.Pkg.Path() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				name := c.Call.StaticCallee().String()
				if !strings.HasPrefix(name, "(*flag.FlagSet).") && !strings.HasPrefix(name, "flag.") {
					continue
				}
				args := c.Call.Args
				if strings.HasPrefix(name, "(*") {
					args = args[1:]
				}
				isVar := strings.HasSuffix(name, "Var")
				if isVar && len(args) == 4 {
					if g, ok := args[0].(*ssa.Global); ok {
						if k, ok := constString(args[1]); ok {
							vars[k] = intern(OLoad, "", 0, 0, derefType(g.Type()), nil, nil, e.val(nil, nil, g))
							defs[k], calls[k] = args[2], in
						}
					}
				} else if !isVar && len(args) == 3 && isPtr(c.Type()) {
					for _, r := range *c.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Val == c {
							if g, ok := s.Addr.(*ssa.Global); ok {
								if k, ok := constString(args[0]); ok {
									pt := intern(OLoad, "", 0, 0, derefType(g.Type()), nil, nil, e.val(nil, nil, g))
									vars[k] = intern(OLoad, "", 0, 0, derefType(pt.t), nil, nil, pt)
									defs[k], calls[k] = args[1], in
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	return mkConstOf(c).strVal()
}

func mkConstOf(c *ssa.Const) *Term {
	return intern(OConst, "", 0, 0, c.Type(), normConst(c.Value, c.Type()), nil)
}

// tagged finds the field of a struct with a JSON name.
func tagged(s *types.Struct, name string) int {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if k, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ","); k == name {
			return i
		}
	}
	return -1
}

// tlsSource is a set of settings of one TLS configuration.
type tlsSource struct{ ca, cert, key, verify *Term }

func tlsSettings(t types.Type) bool {
	s := structOf(t)
	return s != nil && tagged(s, "ca") >= 0 && tagged(s, "cert") >= 0 && tagged(s, "key") >= 0 && tagged(s, "verify") >= 0
}

// settingsIn finds the TLS settings that were read from a file.
func settingsIn(st *State, at *Term, depth int) *tlsSource {
	t := derefType(at.t)
	s := structOf(t)
	if s == nil || depth > 3 {
		return nil
	}
	if tlsSettings(t) {
		get := func(n string) *Term {
			i := tagged(s, n)
			return st.peek(mkFieldAddr(at, i, s), s.Field(i).Type())
		}
		return &tlsSource{get("ca"), get("cert"), get("key"), get("verify")}
	}
	for i := 0; i < s.NumFields(); i++ {
		if structOf(s.Field(i).Type()) != nil {
			if x := settingsIn(st, mkFieldAddr(at, i, s), depth+1); x != nil {
				return x
			}
		}
	}
	return nil
}

func runC29(a *Analysis) {
	p := a.program()
	mainFn := p.fn(toolPkg, "main")
	newF := p.fn("session", "NewContainerFactory")
	newC := p.fn("session", "NewContainer")
	if !a.anchor(mainFn != nil && newF != nil && newC != nil && len(newF.Params) == 2, "the tool's main and session.NewContainerFactory") {
		return
	}
	a.rule("what main hands to the container factory: verification is off only if the setting in force says so; otherwise the root CAs are exactly the configured file's; a certificate that was loaded is the configured pair; no failure to read or load anything is passed over; SASL EXTERNAL goes with it; certificate flags override the connection file")
	a.rule("the factory creates its containers with the address and configuration it was given")
	e := newEngine(p)
	followOnly(e, toolPkg)
	vars, defs, calls := p.flagVars(e, toolPkg)
	for _, n := range []string{"tls-verify", "ca", "cert", "key", "messaging-config"} {
		if !a.anchor(vars[n] != nil, "the variable of flag -"+n) {
			return
		}
	}
	a.count("obligations checked", 1)
	if c, ok := defs["tls-verify"].(*ssa.Const); !ok || mkConstOf(c) != mkBool(true) && mkConstOf(c).String() != TTrue.String() {
		a.violate(p, "default", instrPos(calls["tls-verify"]), calls["tls-verify"].Parent().String(), "verification of the server is not the default")
	}
	flagSrc := &tlsSource{vars["ca"], vars["cert"], vars["key"], vars["tls-verify"]}
	cfgT := structOf(newF.Params[1].Type())
	tlsI, saslI := -1, -1
	for i := 0; cfgT != nil && i < cfgT.NumFields(); i++ {
		switch {
		case typeIs(derefType(cfgT.Field(i).Type()), "crypto/tls.Config"):
			tlsI = i
		case strings.HasSuffix(typeKey(cfgT.Field(i).Type()), ".SASLType"):
			saslI = i
		}
	}
	if !a.anchor(tlsI >= 0 && saslI >= 0, "the TLS and SASL settings of a container") {
		return
	}
	external := p.repoPkg("session").Const("SASLTypeExternal")
	if !a.anchor(external != nil, "session.SASLTypeExternal") {
		return
	}
	tlsT := derefType(cfgT.Field(tlsI).Type())
	ts := structOf(tlsT)
	field := func(st *State, o *Term, name string) *Term {
		for i := 0; i < ts.NumFields(); i++ {
			if ts.Field(i).Name() == name {
				return st.peek(mkFieldAddr(o, i, ts), ts.Field(i).Type())
			}
		}
		return TNil
	}
	empty := mkStr("")
	file := func(path *Term) *Term {
		return rterm("file", types.NewSlice(types.Typ[types.Byte]), path)
	}
	pair := func(cert, key *Term, t types.Type) *Term { return rterm("keypair", t, cert, key) }
	stat := func(path *Term) *Term { return rterm("stat", boolType, path) }
	fails := func(st *State, c *Call, what string, rest ...*Term) Outcome {
		rs := e.freshRes(st, c)
		return Outcome{res: rs, mod: func(s *State) bool {
			s.note(c.pos(), "%s", what)
			s.set("failed", rs[len(rs)-1])
			return s.assume(mkEq(rs[len(rs)-1], TNil), false)
		}}
	}
	made := 0
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		switch c.name {
		case "os.ReadFile", "io/ioutil.ReadFile":
			v := file(c.args[0])
			return []Outcome{
				{res: []*Term{v, TNil}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }},
				fails(st, c, "a file can not be read"),
			}, true
		case "os.Stat", "os.Lstat":
			rs := e.freshRes(st, c)
			return []Outcome{
				{res: []*Term{rs[0], TNil}, mod: func(s *State) bool { return s.assume(stat(c.args[0]), true) }},
				{res: rs, mod: func(s *State) bool {
					return s.assume(stat(c.args[0]), false) && s.assume(mkEq(rs[1], TNil), false)
				}},
			}, true
		case "crypto/tls.LoadX509KeyPair":
			return []Outcome{
				{res: []*Term{pair(c.args[0], c.args[1], c.res.At(0).Type()), TNil}},
				fails(st, c, "a key pair can not be loaded"),
			}, true
		case "crypto/tls.X509KeyPair":
			cert, key := strip(c.args[0]), strip(c.args[1])
			if cert.op == OCall && cert.s == "file" && key.op == OCall && key.s == "file" {
				return []Outcome{
					{res: []*Term{pair(cert.a[0], key.a[0], c.res.At(0).Type()), TNil}},
					fails(st, c, "a key pair can not be loaded"),
				}, true
			}
		case "encoding/json.Unmarshal":
			target := unwrapIface(c.args[1])
			st.set("json", target)
			st.set("jsonOf", strip(c.args[0]))
			st.havocPointee(target)
			return []Outcome{{res: []*Term{TNil}}, fails(st, c, "the connection file can not be parsed")}, true
		case "(*encoding/json.Decoder).Decode":
			target := unwrapIface(c.args[1])
			st.set("json", target)
			st.havocPointee(target)
			return []Outcome{{res: []*Term{TNil}}, fails(st, c, "the connection file can not be parsed")}, true
		case "crypto/x509.NewCertPool":
			v := st.sym("pool", c.instr, c.ctx, 0, c.res.At(0).Type())
			v = rterm("certpool", v.t, v)
			st.assume(mkEq(v, TNil), false)
			return []Outcome{{res: []*Term{v}}}, true
		case "crypto/x509.SystemCertPool":
			v := rterm("syspool", c.res.At(0).Type())
			return []Outcome{{res: []*Term{v, TNil}}, fails(st, c, "the system's CAs are not known")}, true
		case "(*crypto/x509.CertPool).AppendCertsFromPEM":
			key := "added:" + c.args[0].String()
			if st.get(key) != nil {
				st.set(key, TAbs)
			} else {
				st.set(key, strip(c.args[1]))
			}
			return []Outcome{{res: []*Term{TTrue}}, {res: []*Term{TFalse}}}, true
		case "(*crypto/x509.CertPool).AddCert":
			st.set("added:"+c.args[0].String(), TAbs)
			return nil, false
		}
		if c.fn != newF {
			return nil, false
		}
		made++
		a.count("obligations checked", 6)
		bad := func(f string, args ...any) { e.report(st, "tls", c.instr, f, args...) }
		if st.get("failed") != nil {
			bad("the tool connects although something its connection needs could not be read or loaded")
		}
		cfg := c.args[1]
		o := mkField(cfg, tlsI, cfgT)
		if cfg.op == OStruct {
			o = cfg.a[tlsI]
		}
		sasl := mkField(cfg, saslI, cfgT)
		noFlags := st.knownTrue(mkEq(flagSrc.cert, empty))
		someFlags := st.knownFalse(mkEq(flagSrc.cert, empty))
		mc := vars["messaging-config"]
		noFile := st.knownTrue(mkEq(mc, empty))
		var js *tlsSource
		if j := st.get("json"); j != nil {
			js = settingsIn(st, j, 0)
			if of := st.get("jsonOf"); of != nil && of != file(mc) {
				bad("the connection file is not the one that was configured")
			}
		}
		if !noFile && !st.knownFalse(mkEq(mc, empty)) {
			bad("it is not known whether a connection file is configured")
		} else if !noFile && js == nil {
			bad("the connection file that is configured is not read")
		}
		if st.knownNil(o) {
			switch {
			case !noFlags:
				bad("a certificate is configured with flags, the connection may be made without it")
			case js != nil && !st.knownTrue(mkEq(js.ca, empty)):
				bad("the connection file configures TLS, the connection may be made without it")
			}
			return nil, true
		}
		if !st.knownNonNil(o) {
			bad("it is not known whether TLS is configured")
			return nil, true
		}
		if u := unwrapIface(sasl); u != mkConstOf(external.Value) && !st.knownTrue(mkEq(u, mkConstOf(external.Value))) {
			bad("the connection does not authenticate with its certificate (SASL EXTERNAL), but with %s", u)
		}
		var src *tlsSource
		switch {
		case someFlags:
			src = flagSrc
		case noFlags && js != nil:
			src = js
		case noFlags:
			src = flagSrc
		default:
			bad("it is not known whether a certificate is configured with flags")
			return nil, true
		}
		skip := st.evalBool(field(st, o, "InsecureSkipVerify"))
		off := st.knownFalse(src.verify)
		switch {
		case skip == TFalse || off:
		case skip == mkNot(src.verify) || skip == st.evalBool(mkNot(src.verify)):
		default:
			bad("the server's certificate may not be verified although verification is not switched off")
		}
		if !off {
			pool := field(st, o, "RootCAs")
			switch got := st.get("added:" + pool.String()); {
			case pool.op != OCall || pool.s != "certpool":
				bad("the server is verified with %s, not with the configured CA only", pool)
			case got != file(src.ca):
				bad("the server is verified with the certificates in %v, not with those of the configured CA", got)
			}
		}
		certs := field(st, o, "Certificates")
		want := pair(src.cert, src.key, tlsCert(ts))
		none := certs == TNil || st.knownNil(certs) || st.knownTrue(mkEq(mkLen(certs), mkInt(0)))
		noCert := func(x *Term) bool { return st.knownFalse(stat(x)) || st.knownTrue(mkEq(x, empty)) }
		switch {
		case none:
			if !noCert(src.cert) || !noCert(src.key) {
				bad("a certificate and key are there but may not be used")
			}
		case !st.knownTrue(mkEq(mkLen(certs), mkInt(1))) || st.loadElem(certs, mkInt(0), want.t) != want:
			bad("%s is used as certificate, not the configured pair", certs)
		}
		if v := field(st, o, "ServerName"); v != empty && !st.knownTrue(mkEq(v, empty)) {
			bad("another server name is verified than that of the server")
		}
		return nil, true
	}
	e.addRoot(nil, mainFn, nil, nil)
	a.explore(e)
	a.anchor(made > 0, "the creation of a container factory in main")

	// the factory
	{
		e := newEngine(p)
		e.h.Opaque = func(f *ssa.Function) bool { return f == newC }
		followOnly(e, "session")
		var addr, cfg *Term
		n := 0
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if c.fn == newC {
				n++
				a.count("obligations checked", 1)
				if c.args[0] != addr {
					e.report(st, "factory", c.instr, "a container is created for %s, not for the factory's address", c.args[0])
				}
				got := c.args[1]
				for i := 0; i < cfgT.NumFields(); i++ {
					if i == tlsI || i == saslI {
						if x := mkField(got, i, cfgT); x != mkField(cfg, i, cfgT) {
							e.report(st, "factory", c.instr, "a container is created with %s, not with the factory's %s", x, cfgT.Field(i).Name())
						}
					}
				}
			}
			return nil, false
		}
		ft := concreteResult(newF, 0)
		create := p.method(ft, "Create")
		if !a.anchor(create != nil, "the factory's Create") {
			return
		}
		e.h.Exit = func(st *State, res []*Term) {
			if st.thread == newF.String() && len(res) == 1 {
				e.chain(st, create, []*Term{unwrapIface(res[0])})
			}
		}
		root := e.addRoot(nil, newF, nil, nil)
		addr, cfg = root.top().env[newF.Params[0]], root.top().env[newF.Params[1]]
		a.explore(e)
		a.anchor(n > 0, "the creation of a container by the factory")
	}
}

func tlsCert(ts *types.Struct) types.Type {
	for i := 0; i < ts.NumFields(); i++ {
		if ts.Field(i).Name() == "Certificates" {
			return ts.Field(i).Type().Underlying().(*types.Slice).Elem()
		}
	}
	return nil
}
