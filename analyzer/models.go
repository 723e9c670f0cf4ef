package main

import (
	"fmt"
	"go/token"
	"go/types"
	"html"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type model func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)

var models map[string]model

// fold evaluates pure library functions on constants.
var fold = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Compare": strings.Compare, "strings.Split": strings.Split, "strings.Fields": strings.Fields,
	"strings.Title": strings.Title, "strings.SplitN": strings.SplitN,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
	"strconv.FormatInt": strconv.FormatInt, "html.EscapeString": html.EscapeString,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"math.Abs": math.Abs, "math.Floor": math.Floor,
}

func (m *Machine) tryFold(name string, args []Value, sig *types.Signature) (Value, bool) {
	f, ok := fold[name]
	if !ok {
		return nil, false
	}
	rf := reflect.ValueOf(f)
	rt := rf.Type()
	if rt.NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		switch a := m.force(a).(type) {
		case Str:
			c, ok := m.resolve(a).isConst()
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(c)
		case int64:
			in[i] = reflect.ValueOf(a).Convert(rt.In(i))
		case bool:
			in[i] = reflect.ValueOf(a)
		case float64:
			in[i] = reflect.ValueOf(a)
		default:
			return nil, false
		}
	}
	out := rf.Call(in)
	switch r := out[0].Interface().(type) {
	case string:
		return cstr(r), true
	case bool:
		return r, true
	case int:
		return int64(r), true
	case rune:
		return int64(r), true
	case float64:
		return r, true
	case []string:
		a := &Arr{Obj: m.newObj("slice", nil)}
		for _, s := range r {
			a.E = append(a.E, cstr(s))
		}
		if len(r) == 0 {
			return Nil{}, true
		}
		return &Slice{a, 0, len(r), len(r)}, true
	}
	return nil, false
}

func (m *Machine) str(v Value) Str {
	v = m.force(v)
	if s, ok := v.(Str); ok {
		return m.resolve(s)
	}
	m.undecided("%s is not a string", show(v))
	return nil
}

func (m *Machine) constStr(v Value) (string, bool) {
	s, ok := m.force(v).(Str)
	if !ok {
		return "", false
	}
	return m.resolve(s).isConst()
}

// textbuf finds the buffer behind a receiver or writer.
func (m *Machine) textbuf(v Value) *TextBuf {
	v = m.force(v)
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	switch p := v.(type) {
	case *Ptr:
		x := m.force(*p.P)
		*p.P = x
		if t, ok := x.(*TextBuf); ok {
			return t
		}
	case Nil:
		m.gopanic("nil pointer dereference")
	case *TextBuf:
		return p
	}
	return nil
}

func (m *Machine) write(t *TextBuf, s Str) {
	pos := m.repoPos()
	for _, a := range m.resolve(s) {
		if a.S == nil && a.C == "" {
			continue
		}
		if !a.Pos.IsValid() {
			a.Pos = pos
		}
		t.A = append(t.A, a)
	}
}

func nilErr(v Value) Value { return Tuple{v, Nil{}} }

func (m *Machine) itoa(v Value) Str {
	switch x := m.force(v).(type) {
	case int64:
		return cstr(strconv.FormatInt(x, 10))
	case *Sym:
		return symstr(m.sym("itoa("+x.Key+")", types.Typ[types.String], &Dom{NonEmpty: true, Charset: charset("0-9-")}))
	}
	m.undecided("number text of %s", show(v))
	return nil
}

func (m *Machine) format(v Value, verb byte) Str {
	v = m.force(v)
	var T types.Type
	if i, ok := v.(*Iface); ok {
		T = i.T
		v = m.force(i.V)
	}
	_ = T
	switch x := v.(type) {
	case Nil:
		return cstr("<nil>")
	case bool:
		return cstr(fmt.Sprintf("%"+string(rune(verb)), x))
	case int64:
		return cstr(fmt.Sprintf("%"+string(rune(verb)), int(x)))
	case Str:
		if verb == 's' || verb == 'v' {
			return x
		}
		if c, ok := m.resolve(x).isConst(); ok && verb == 'q' {
			return cstr(strconv.Quote(c))
		}
		return symstr(m.sym(fmt.Sprintf("%%%c(%s)", verb, x.key()), types.Typ[types.String], &Dom{NonEmpty: true}))
	case *Sym:
		if x.T != nil {
			if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
				return m.itoa(x)
			}
		}
		return symstr(m.sym(fmt.Sprintf("%%%c(%s)", verb, x.Key), types.Typ[types.String], nil))
	}
	return symstr(m.sym(fmt.Sprintf("%%%c(%s)", verb, show(v)), types.Typ[types.String], nil))
}

func (m *Machine) variadic(v Value) []Value {
	switch s := v.(type) {
	case *Slice:
		var out []Value
		for i := 0; i < s.Len; i++ {
			e := m.force(s.Arr.E[s.Off+i])
			s.Arr.E[s.Off+i] = e
			out = append(out, e)
		}
		return out
	case Nil:
		return nil
	}
	m.undecided("argument list %s", show(v))
	return nil
}

func (m *Machine) sprintf(format Value, va Value) Str {
	f, ok := m.constStr(format)
	if !ok {
		return symstr(m.sym("sprintf("+show(format)+")", types.Typ[types.String], nil))
	}
	args := m.variadic(va)
	var out Str
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, Atom{C: string(f[i])})
			continue
		}
		i++
		from := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[from:i]
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = append(out, Atom{C: "%"})
			continue
		}
		if k >= len(args) {
			out = append(out, Atom{C: "%!" + string(f[i]) + "(MISSING)"})
			continue
		}
		text := m.format(args[k], f[i])
		if flags != "" {
			text = symstr(m.sym(fmt.Sprintf("%%%s%c(%s)", flags, f[i], text.key()), types.Typ[types.String], nil))
		}
		out = append(out, text...)
		k++
	}
	return out.norm()
}

func (m *Machine) sprint(va Value, ln bool) Str {
	var out Str
	var prevStr bool
	for i, a := range m.variadic(va) {
		_, isStr := m.unwrap(a).(Str)
		if i > 0 && (ln || !prevStr && !isStr) {
			out = append(out, Atom{C: " "})
		}
		out = append(out, m.format(a, 'v')...)
		prevStr = isStr
	}
	if ln {
		out = append(out, Atom{C: "\n"})
	}
	return out.norm()
}

func (m *Machine) unwrap(v Value) Value {
	v = m.force(v)
	if i, ok := v.(*Iface); ok {
		return m.force(i.V)
	}
	return v
}

func init() {
	models = map[string]model{}
	for _, recv := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		models[recv+".WriteString"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.str(args[1])
			m.write(m.textbuf(args[0]), s)
			return nilErr(m.strLen(s)), true
		}
		models[recv+".WriteByte"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			m.write(m.textbuf(args[0]), m.convert(args[1], types.Typ[types.Rune], types.Typ[types.String]).(Str))
			return Nil{}, true
		}
		models[recv+".WriteRune"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			m.write(m.textbuf(args[0]), m.convert(args[1], types.Typ[types.Rune], types.Typ[types.String]).(Str))
			return nilErr(int64(1)), true
		}
		models[recv+".Write"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			s := m.convert(args[1], types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]).(Str)
			m.write(m.textbuf(args[0]), s)
			return nilErr(m.strLen(s)), true
		}
		models[recv+".String"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return append(Str{}, m.textbuf(args[0]).A...), true
		}
		models[recv+".Len"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return m.strLen(m.textbuf(args[0]).A), true
		}
		models[recv+".Reset"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			m.textbuf(args[0]).A = nil
			return Nil{}, true
		}
		models[recv+".Grow"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return Nil{}, true }
		models[recv+".Cap"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return m.sym("cap", types.Typ[types.Int], nil), true
		}
	}
	models["(*bytes.Buffer).Bytes"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s := append(Str{}, m.textbuf(args[0]).A...)
		return &Sym{Key: "chars(" + s.key() + ")", T: types.NewSlice(types.Typ[types.Byte]), Info: s}, true
	}
	models["(*bytes.Buffer).Truncate"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		t := m.textbuf(args[0])
		if i, ok := args[1].(int64); ok && i == 0 {
			t.A = nil
			return Nil{}, true
		}
		s := m.substr(t.A, nil, args[1])
		t.A = s.(Str)
		return Nil{}, true
	}
	models["io.WriteString"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		t := m.textbuf(args[0])
		if t == nil {
			return nil, false
		}
		m.write(t, m.str(args[1]))
		return nilErr(m.strLen(m.str(args[1]))), true
	}

	s1 := func(name string, f func(m *Machine, s Str, args []Value) Value) {
		models[name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			if v, ok := m.tryFold(name, args, fn.Signature); ok {
				return v, true
			}
			s, ok := m.force(args[0]).(Str)
			if !ok {
				return nil, false
			}
			v := f(m, m.resolve(s), args[1:])
			return v, v != nil
		}
	}
	s1("strings.ToLower", func(m *Machine, s Str, _ []Value) Value { return m.mapStr(s, "lower", strings.ToLower) })
	s1("strings.ToUpper", func(m *Machine, s Str, _ []Value) Value { return m.mapStr(s, "upper", strings.ToUpper) })
	s1("strings.TrimSpace", func(m *Machine, s Str, _ []Value) Value { return m.trimSpace(s) })
	s1("strings.Contains", func(m *Machine, s Str, a []Value) Value {
		if c, ok := m.constStr(a[0]); ok {
			return m.contains(s, c)
		}
		return m.decide(fmt.Sprintf("%s contains %s", s, show(a[0])))
	})
	s1("strings.ContainsRune", func(m *Machine, s Str, a []Value) Value {
		if c, ok := a[0].(int64); ok {
			return m.contains(s, string(rune(c)))
		}
		return nil
	})
	s1("strings.IndexByte", func(m *Machine, s Str, a []Value) Value {
		if c, ok := a[0].(int64); ok {
			return m.indexOf(s, string(rune(c)))
		}
		return nil
	})
	models["strings.IndexRune"] = models["strings.IndexByte"]
	s1("strings.Index", func(m *Machine, s Str, a []Value) Value {
		if c, ok := m.constStr(a[0]); ok {
			return m.indexOf(s, c)
		}
		return nil
	})
	s1("strings.ContainsAny", func(m *Machine, s Str, a []Value) Value {
		c, ok := m.constStr(a[0])
		if !ok {
			return nil
		}
		for _, r := range c {
			if m.contains(s, string(r)) {
				return true
			}
		}
		return false
	})
	s1("strings.HasPrefix", func(m *Machine, s Str, a []Value) Value {
		if c, ok := m.constStr(a[0]); ok {
			return m.hasPrefix(s, c)
		}
		return nil
	})
	s1("strings.HasSuffix", func(m *Machine, s Str, a []Value) Value {
		if c, ok := m.constStr(a[0]); ok {
			return m.hasSuffix(s, c)
		}
		return nil
	})
	s1("strings.TrimPrefix", func(m *Machine, s Str, a []Value) Value {
		c, ok := m.constStr(a[0])
		if !ok {
			return nil
		}
		if !m.hasPrefix(s, c) {
			return s
		}
		n := s.norm()
		if n[0].S == nil && len(n[0].C) >= len(c) {
			return append(Str{{C: n[0].C[len(c):]}}, n[1:]...).norm()
		}
		return symstr(m.sym("trimprefix("+s.key()+","+c+")", types.Typ[types.String], nil))
	})
	s1("strings.TrimSuffix", func(m *Machine, s Str, a []Value) Value {
		c, ok := m.constStr(a[0])
		if !ok {
			return nil
		}
		if !m.hasSuffix(s, c) {
			return s
		}
		n := s.norm()
		l := n[len(n)-1]
		if l.S == nil && len(l.C) >= len(c) {
			return append(append(Str{}, n[:len(n)-1]...), Atom{C: l.C[:len(l.C)-len(c)]}).norm()
		}
		return symstr(m.sym("trimsuffix("+s.key()+","+c+")", types.Typ[types.String], nil))
	})
	s1("strings.EqualFold", func(m *Machine, s Str, a []Value) Value {
		return m.eqStr(m.mapStr(s, "lower", strings.ToLower), m.mapStr(m.str(a[0]), "lower", strings.ToLower))
	})
	s1("strings.ReplaceAll", func(m *Machine, s Str, a []Value) Value {
		c, ok := m.constStr(a[0])
		if ok && c != "" {
			if !m.contains(s, c) {
				return s
			}
		}
		return symstr(m.sym(fmt.Sprintf("replace(%s,%s,%s)", s.key(), show(a[0]), show(a[1])), types.Typ[types.String], nil))
	})
	cut := func(name string, has func(m *Machine, s Str, c string) bool) {
		s1("strings."+name, func(m *Machine, s Str, a []Value) Value {
			c, ok := m.constStr(a[0])
			if !ok {
				return nil
			}
			part := func(n string) Value {
				return symstr(m.sym(fmt.Sprintf("%s(%s,%q)%s", name, s.key(), c, n), types.Typ[types.String], nil))
			}
			found := has(m, s, c)
			switch {
			case name == "Cut" && found:
				return Tuple{part(" before"), part(" after"), true}
			case name == "Cut":
				return Tuple{s, Str{}, false}
			case found:
				return Tuple{part(""), true}
			}
			return Tuple{s, false}
		})
	}
	cut("Cut", (*Machine).contains)
	cut("CutPrefix", (*Machine).hasPrefix)
	cut("CutSuffix", (*Machine).hasSuffix)
	s1("strings.Clone", func(m *Machine, s Str, a []Value) Value { return s })
	models["strings.Join"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		sep := m.str(args[1])
		var out Str
		for i, e := range m.variadic(args[0]) {
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, m.str(e)...)
		}
		return out, true
	}
	models["strconv.Itoa"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return m.itoa(args[0]), true }
	models["strconv.FormatInt"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if b, ok := args[1].(int64); ok && b == 10 {
			return m.itoa(args[0]), true
		}
		return nil, false
	}
	models["strconv.FormatBool"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if b, ok := args[0].(bool); ok {
			return cstr(strconv.FormatBool(b)), true
		}
		return nil, false
	}
	models["strconv.ParseBool"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s := m.str(args[0])
		if len(s) == 1 && s[0].S != nil && s[0].S.Dom != nil && s[0].S.Dom.Enum != nil {
			s = m.enum(s[0].S)
		}
		if c, ok := s.isConst(); ok {
			b, err := strconv.ParseBool(c)
			if err != nil {
				return Tuple{b, m.newError("ParseBool")}, true
			}
			return Tuple{b, Nil{}}, true
		}
		return nil, false
	}
	models["strconv.Atoi"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		return m.parseInt(m.str(args[0]), 10, 64), true
	}
	models["strconv.ParseInt"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		b, ok1 := args[1].(int64)
		n, ok2 := args[2].(int64)
		if !ok1 || !ok2 {
			return nil, false
		}
		return m.parseInt(m.str(args[0]), b, n), true
	}
	models["strconv.Quote"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		return m.format(m.str(args[0]), 'q'), true
	}

	// fmt
	models["fmt.Sprintf"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		return m.sprintf(args[0], args[1]), true
	}
	models["fmt.Sprint"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return m.sprint(args[0], false), true }
	models["fmt.Sprintln"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return m.sprint(args[0], true), true }
	fpr := func(f func(m *Machine, args []Value) Str) model {
		return func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			t := m.textbuf(args[0])
			if t == nil {
				return nil, false
			}
			s := f(m, args[1:])
			m.write(t, s)
			return nilErr(m.strLen(s)), true
		}
	}
	models["fmt.Fprint"] = fpr(func(m *Machine, a []Value) Str { return m.sprint(a[0], false) })
	models["fmt.Fprintln"] = fpr(func(m *Machine, a []Value) Str { return m.sprint(a[0], true) })
	models["fmt.Fprintf"] = fpr(func(m *Machine, a []Value) Str { return m.sprintf(a[0], a[1]) })
	errNew := func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if len(args) > 1 {
			for _, x := range m.variadic(args[1]) {
				if i, ok := x.(*Iface); ok {
					x = i.V
				}
				if e, ok := x.(*Sym); ok && isErrorType(e.T) {
					return m.newError("wrapped"), true
				}
			}
		}
		return m.newError("new"), true
	}
	for _, n := range []string{"fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		models[n] = errNew
	}
	wrap := func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if m.isNil(m.force(args[0])) {
			return Nil{}, true
		}
		return m.newError("wrapped"), true
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		models["github.com/pkg/errors."+n] = wrap
	}
	is := func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		a, b := m.force(args[0]), m.force(args[1])
		if m.isNil(a) || m.isNil(b) {
			return m.isNil(a) && m.isNil(b), true
		}
		if x, ok := a.(*Sym); ok && strings.Contains(x.Key, "(number: ") {
			// the text is no number or the number does not fit
			for g, p := range m.globals {
				if g.Pkg.Pkg.Path() == "strconv" && (*p.P) == b && (g.Name() == "ErrRange" || g.Name() == "ErrSyntax") {
					return m.decide(x.Key+" does not fit") == (g.Name() == "ErrRange"), true
				}
			}
		}
		if x, ok := a.(*Sym); ok && x != b && strings.HasSuffix(x.Key, "(wrapped)") {
			return m.decide(x.Key + " is " + show(b)), true
		}
		return m.equal(a, b), true
	}
	models["errors.Is"], models["github.com/pkg/errors.Is"] = is, is
	models["errors.Join"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		for _, e := range m.variadic(args[0]) {
			if !m.isNil(e) {
				return m.newError("joined"), true
			}
		}
		return Nil{}, true
	}
	noop := func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if fn.Signature.Results().Len() == 0 {
			return Nil{}, true
		}
		return m.quietSym(fn), true
	}
	for _, n := range []string{"log/slog.With", "log/slog.Error", "log/slog.Warn", "log/slog.Info", "log/slog.Debug", "(*log/slog.Logger).Error", "(*log/slog.Logger).Warn",
		"(*log/slog.Logger).Info", "(*log/slog.Logger).Debug", "(*log/slog.Logger).With", "log.Printf", "log.Println", "log.Print", "log/slog.Default"} {
		models[n] = noop
	}
	models["fmt.Printf"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return nilErr(int64(0)), true }
	models["fmt.Println"] = models["fmt.Printf"]

	models["regexp.MustCompile"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		c, ok := m.constStr(args[0])
		if !ok {
			return nil, false
		}
		var v Value = &Regexp{c}
		return &Ptr{P: &v, Obj: m.newObj("regexp", nil)}, true
	}
	models["(*regexp.Regexp).ReplaceAllString"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		p, ok := args[0].(*Ptr)
		if !ok {
			return nil, false
		}
		re, ok := (*p.P).(*Regexp)
		if !ok {
			return nil, false
		}
		repl, ok := m.constStr(args[2])
		if !ok {
			return nil, false
		}
		return m.regexpReplace(re, m.str(args[1]), repl), true
	}
	models["(*regexp.Regexp).Split"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		p, ok := args[0].(*Ptr)
		if !ok {
			return nil, false
		}
		re, ok := (*p.P).(*Regexp)
		if n, isN := args[2].(int64); !ok || !isN || n >= 0 {
			return nil, false
		}
		words, ok := m.regexpSplit(re, m.str(args[1]))
		if !ok {
			return m.words([]Str{symstr(m.sym("split("+re.Pattern+","+m.str(args[1]).key()+")", types.Typ[types.String], nil))}), true
		}
		var out []Str
		for _, w := range words {
			out = append(out, cstr(w))
		}
		return m.words(out), true
	}
	models["strings.Fields"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s := m.resolve(m.str(args[0])).norm()
		if c, ok := s.isConst(); ok {
			var out []Str
			for _, w := range strings.Fields(c) {
				out = append(out, cstr(w))
			}
			return m.words(out), true
		}
		var out []Str
		open := false
		for _, a := range s {
			if a.S != nil {
				if _, ok := a.S.Info.(*wsRun); !ok {
					return nil, false
				}
				if m.decide("a comment in " + a.S.Key) {
					out = append(out, symstr(m.sym("comment("+a.S.Key+")", types.Typ[types.String], &Dom{NonEmpty: true})))
				}
				open = false
				continue
			}
			for i, w := range strings.Fields(a.C) {
				if i == 0 && open && strings.TrimLeft(a.C, " \t\r\n") == a.C {
					out[len(out)-1] = append(out[len(out)-1], Atom{C: w}).norm()
				} else {
					out = append(out, cstr(w))
				}
			}
			open = strings.TrimRight(a.C, " \t\r\n") == a.C
		}
		return m.words(out), true
	}
	models["(*regexp.Regexp).ReplaceAllLiteralString"] = models["(*regexp.Regexp).ReplaceAllString"]

	models["github.com/huandu/xstrings.ToSnakeCase"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s := m.str(args[0])
		if len(s) == 1 && s[0].S != nil && s[0].S.Dom != nil && s[0].S.Dom.NonEmpty {
			if strings.HasPrefix(s[0].S.Key, "snake(") {
				return s, true
			}
			return symstr(m.sym("snake("+s[0].S.Key+")", types.Typ[types.String], &Dom{NonEmpty: true, Charset: charset("a-z0-9_")})), true
		}
		return symstr(m.sym("snake("+s.key()+")", types.Typ[types.String], nil)), true
	}

	// reflect, as used to reach a field
	models["reflect.ValueOf"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		i, ok := m.force(args[0]).(*Iface)
		if !ok {
			return nil, false
		}
		return &RValue{V: i.V, T: i.T}, true
	}
	rv := func(name string, f func(m *Machine, r *RValue, args []Value) Value) {
		models["(reflect.Value)."+name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			r, ok := args[0].(*RValue)
			if !ok {
				return nil, false
			}
			v := f(m, r, args[1:])
			return v, v != nil
		}
	}
	rload := func(m *Machine, r *RValue) Value {
		if r.Ptr != nil {
			return m.load(r.Ptr)
		}
		return r.V
	}
	rv("Elem", func(m *Machine, r *RValue, args []Value) Value {
		pt, ok := r.T.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return &RValue{Ptr: m.deref(rload(m, r)), T: pt.Elem()}
	})
	field := func(m *Machine, r *RValue, i int) Value {
		st := r.T.Underlying().(*types.Struct)
		if r.Ptr == nil {
			return nil
		}
		x := m.force(*r.Ptr.P)
		*r.Ptr.P = x
		return &RValue{Ptr: &Ptr{P: &x.(*Struct).F[i], Obj: r.Ptr.Obj}, T: st.Field(i).Type()}
	}
	rv("FieldByName", func(m *Machine, r *RValue, args []Value) Value {
		n, ok := m.constStr(args[0])
		st, ok2 := r.T.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(m, r, i)
			}
		}
		m.gopanic("reflect: no field %q in %s", n, r.T)
		return nil
	})
	rv("Field", func(m *Machine, r *RValue, args []Value) Value {
		i, ok := args[0].(int64)
		if !ok {
			return nil
		}
		return field(m, r, int(i))
	})
	rv("Type", func(m *Machine, r *RValue, args []Value) Value {
		return &Sym{Key: "type " + r.T.String(), T: fnResult("reflect.Type"), Info: r.T}
	})
	rv("UnsafeAddr", func(m *Machine, r *RValue, args []Value) Value { return r.Ptr })
	rv("Addr", func(m *Machine, r *RValue, args []Value) Value {
		return &RValue{V: r.Ptr, T: types.NewPointer(r.T)}
	})
	rv("Interface", func(m *Machine, r *RValue, args []Value) Value {
		v := rload(m, r)
		return m.makeIface(v, r.T)
	})
	rv("IsNil", func(m *Machine, r *RValue, args []Value) Value { return m.isNil(rload(m, r)) })
	rv("UnsafePointer", func(m *Machine, r *RValue, args []Value) Value { return rload(m, r) })
	models["reflect.NewAt"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s, ok := args[0].(*Sym)
		if !ok {
			return nil, false
		}
		T, ok := s.Info.(types.Type)
		if !ok {
			return nil, false
		}
		return &RValue{V: args[1], T: types.NewPointer(T)}, true
	}
	models["reflect.Indirect"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		r, ok := args[0].(*RValue)
		if !ok {
			return nil, false
		}
		if pt, ok := r.T.Underlying().(*types.Pointer); ok {
			return &RValue{Ptr: m.deref(rload(m, r)), T: pt.Elem()}, true
		}
		return r, true
	}
	// sorting of known numbers and texts
	sorted := func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s, ok := m.force(args[0]).(*Slice)
		if !ok {
			return Nil{}, m.isNil(args[0])
		}
		es := s.Arr.E[s.Off : s.Off+s.Len]
		var ints []int
		var strs []string
		for i := range es {
			es[i] = m.force(es[i])
			switch x := es[i].(type) {
			case int64:
				ints = append(ints, int(x))
			case Str:
				if c, ok := m.resolve(x).isConst(); ok {
					strs = append(strs, c)
				}
			}
		}
		switch s.Len {
		case len(ints):
			sort.Ints(ints)
			for i := range ints {
				es[i] = int64(ints[i])
			}
		case len(strs):
			sort.Strings(strs)
			for i := range strs {
				es[i] = cstr(strs[i])
			}
		default:
			return nil, false
		}
		return Nil{}, true
	}
	models["sort.Strings"], models["sort.Ints"], models["slices.Sort"] = sorted, sorted, sorted
	models["context.Background"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		return m.sym("context.Background()", nil, nil), true
	}
	models["context.TODO"] = models["context.Background"]
}

func fnResult(string) types.Type { return nil }

func (m *Machine) quietSym(fn *ssa.Function) Value {
	var r Tuple
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		if p, ok := T.Underlying().(*types.Pointer); ok {
			var v Value = &Lazy{Force: func(m *Machine) Value { return m.zero(p.Elem()) }}
			r = append(r, &Ptr{P: &v, Obj: m.newObj("library", p.Elem())})
		} else {
			r = append(r, m.sym(fn.Name()+"()", T, nil))
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return r
}

// words makes a list of strings.
func (m *Machine) words(ws []Str) Value {
	a := &Arr{Obj: m.newObj("slice", nil)}
	for _, w := range ws {
		a.E = append(a.E, w)
	}
	return &Slice{a, 0, len(a.E), len(a.E)}
}

func (m *Machine) parseInt(s Str, base, bits int64) Value {
	if c, ok := s.isConst(); ok {
		v, err := strconv.ParseInt(c, int(base), int(bits))
		if err != nil {
			return Tuple{v, m.newError("number: " + c)}
		}
		return Tuple{v, Nil{}}
	}
	if bits == 0 {
		bits = 64
	}
	key := fmt.Sprintf("int%d(%s)", bits, s.key())
	if base == 0 && len(s) == 1 && s[0].S != nil && s[0].S.Dom != nil && s[0].S.Dom.Name == "decimal" {
		base = 10
	}
	if base != 10 {
		key = fmt.Sprintf("int%d base %d(%s)", bits, base, s.key())
	}
	if m.decide(key + " in range") {
		return Tuple{m.sym(key, types.Typ[types.Int], nil), Nil{}}
	}
	return Tuple{m.sym(key+" clipped", types.Typ[types.Int], nil), m.newError("number: " + key)}
}

func (m *Machine) indexOf(s Str, c string) Value {
	if !m.contains(s, c) {
		return int64(-1)
	}
	n := s.norm()
	if n[0].S == nil {
		if i := strings.Index(n[0].C, c); i >= 0 {
			return int64(i)
		}
	}
	key := fmt.Sprintf("index(%s,%q)", s, c)
	m.Facts[fmt.Sprintf("%s >= 0", key)] = true
	m.Facts[fmt.Sprintf("%s == -1", key)] = false
	return m.sym(key, types.Typ[types.Int], nil)
}

// external handles functions whose source is not part of the analysis.
func (m *Machine) external(fn *ssa.Function, args []Value) Value {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if v, ok := m.tryFold(name, args, fn.Signature); ok {
		return v
	}
	p := fnPkg(fn)
	if p != nil {
		path := p.Pkg.Path()
		if why := nondeterministic(path, fn.Name()); why != "" {
			m.event("nondeterminism", why)
		}
		switch path {
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "bytes", "path", "html", "net/url", "errors", "time", "math/rand", "math/rand/v2", "os", "regexp":
			return m.uninterpreted(name, fn.Signature, args)
		}
		if path == "github.com/huandu/xstrings" {
			return m.uninterpreted(name, fn.Signature, args)
		}
	}
	m.undecided("call of %s is outside the analysis", name)
	return nil
}

func nondeterministic(path, name string) string {
	switch path {
	case "math/rand", "math/rand/v2", "crypto/rand":
		return "uses random numbers (" + path + "." + name + ")"
	case "time":
		if name == "Now" || name == "Since" || name == "Until" {
			return "reads the clock (time." + name + ")"
		}
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Hostname", "Getwd":
			return "reads the environment (os." + name + ")"
		}
	case "runtime":
		return "depends on the runtime (runtime." + name + ")"
	}
	return ""
}

// uninterpreted is a pure function known only by its arguments.
func (m *Machine) uninterpreted(name string, sig *types.Signature, args []Value) Value {
	var k []string
	for _, a := range args {
		a = m.force(a)
		switch a := a.(type) {
		case *Ptr, *MapObj, *Closure, *TextBuf:
			if p, ok := a.(*Ptr); ok && p.Obj != nil && p.Obj.Node != nil {
				break
			}
			m.undecided("call of %s with %s is outside the analysis", name, show(a))
		case *Slice:
			m.undecided("call of %s with %s is outside the analysis", name, show(a))
		}
		k = append(k, show(a))
	}
	key := name + "(" + strings.Join(k, ",") + ")"
	res := sig.Results()
	var out Tuple
	for i := 0; i < res.Len(); i++ {
		rk := key
		if res.Len() > 1 {
			rk = fmt.Sprintf("%s.%d", key, i)
		}
		T := res.At(i).Type()
		if isErrorType(T) {
			if m.decide(rk + " fails") {
				out = append(out, m.newError(rk))
			} else {
				out = append(out, Nil{})
			}
			continue
		}
		out = append(out, m.symbolic(rk, T))
	}
	switch len(out) {
	case 0:
		return Nil{}
	case 1:
		return out[0]
	}
	return out
}

var _ = token.ADD
