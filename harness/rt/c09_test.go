package rt

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
	pkgerrors "github.com/pkg/errors"
	"pgregory.net/rapid"

	"verif/harness/fx"
	altfx "verif/harness/fx/alt/fx"
	"verif/harness/fx/other"
	"verif/harness/val"
	"verif/harness/vr"
)

// errNode describes an error; wrappers have none of the leaf's fields.
type errNode struct {
	Kind string `json:"kind"`
	Text string `json:"text,omitempty"`
	N    int    `json:"n,omitempty"`
	Data []byte `json:"data,omitempty"`
}

var sentinels = map[string]error{
	"std": fx.ErrStd, "stdTwo": fx.ErrStdTwo, "pkg": fx.ErrPkg, "pkgTwo": fx.ErrPkgTwo, "wrapped": fx.ErrWrapped,
	"msg": fx.ErrMsg, "colon": fx.ErrColon, "empty": fx.ErrEmpty, "other": other.ErrStd, "eof": io.EOF,
	"stack": fx.ErrStack, "stackTwo": fx.ErrStack2,
}

var sentinelNames = []string{"std", "stdTwo", "pkg", "pkgTwo", "wrapped", "msg", "colon", "empty", "other", "eof", "stack", "stackTwo"}

var (
	leafKinds = []string{"std", "stdTwo", "pkg", "pkgTwo", "wrapped", "msg", "colon", "empty", "other", "eof", "stack", "stackTwo",
		"new", "newpkg", "scalar", "pscalar", "code", "struct", "value", "tag", "otherStruct", "otherScalar", "altStruct", "altScalar", "altValue", "multi", "map", "list", "ptr", "emb", "http", "plainop", "nilmap", "nillist"}
	wrapKinds = []string{"fmt", "fmtpre", "fmtmid", "fmtbare", "wrap", "withstack", "withmessage", "cause", "odd", "ptrstruct", "op", "holder", "stackerr", "client"}
)

// build makes the error a node stands for, around cause for wrappers.
func (n errNode) build(cause error) error {
	if e, ok := sentinels[n.Kind]; ok {
		return e
	}
	src := val.NewSrc(n.Data)
	switch n.Kind {
	case "new":
		return errors.New(n.Text)
	case "newpkg":
		return pkgerrors.New(n.Text)
	case "scalar":
		return fx.ScalarErr(n.Text)
	case "pscalar":
		e := fx.PScalarErr(n.Text)
		return &e
	case "code":
		return fx.CodeErr(n.N)
	case "struct":
		e := val.Build(src, reflect.TypeOf(fx.StructErr{}), val.Msgpack).Interface().(fx.StructErr)
		e.Msg, e.Code = n.Text, n.N
		return &e
	case "value":
		e := val.Build(src, reflect.TypeOf(fx.ValueErr{}), val.Msgpack).Interface().(fx.ValueErr)
		e.Msg = n.Text
		return e
	case "tag":
		e := val.Build(src, reflect.TypeOf(fx.TagErr{}), val.Msgpack).Interface().(fx.TagErr)
		e.Message, e.Number = n.Text, n.N
		return &e
	case "otherStruct":
		return &other.StructErr{Msg: n.Text, Code: n.N}
	case "otherScalar":
		return other.ScalarErr(n.Text)
	case "altStruct":
		return &altfx.StructErr{Msg: n.Text, Code: n.N}
	case "altScalar":
		return altfx.ScalarErr(n.Text)
	case "altValue":
		return altfx.ValueErr{Msg: n.Text}
	case "map":
		if e := val.Build(src, reflect.TypeOf(fx.MapErr{}), val.Msgpack).Interface().(fx.MapErr); e != nil {
			return e
		}
		return fx.MapErr{} // a nil map counts as nil, like a nil pointer
	case "list":
		if e := val.Build(src, reflect.TypeOf(fx.ListErr{}), val.Msgpack).Interface().(fx.ListErr); e != nil {
			return e
		}
		return fx.ListErr{}
	case "nilmap": // not nil when it is wrapped
		return fmt.Errorf("%s: %w", n.Text, fx.MapErr(nil))
	case "nillist":
		return fmt.Errorf("%w", fx.ListErr(nil))
	case "ptr":
		return val.Build(src, reflect.TypeOf(fx.PtrErr{}), val.Msgpack).Interface().(fx.PtrErr)
	case "emb":
		e := val.Build(src, reflect.TypeOf(fx.EmbErr{}), val.Msgpack).Interface().(fx.EmbErr)
		e.Text = n.Text
		return &e
	case "op":
		e := &fx.OpErr{Op: n.Text, Path: "/p", Cause: cause, Code: n.N}
		if n.N%2 == 0 {
			e.Other = fx.ErrStdTwo
		}
		return e
	case "plainop":
		return &fx.OpErr{Op: n.Text, Code: n.N}
	case "holder": // the chain goes on in what it is wrapped into
		return fmt.Errorf("%w", &fx.OpErr{Op: n.Text, Cause: fx.HolderErr{Text: n.Text, Held: cause}})
	case "stackerr":
		return fx.NewStackErr(n.Text, n.N%2 == 0, cause)
	case "http":
		return fx.NewCauseErr(n.Text, gotsrpc.NewHTTPError(n.Text, n.N))
	case "client":
		return gotsrpc.NewClientError(cause)
	case "multi": // unwraps to several: transported as a leaf
		return errors.Join(errors.New(n.Text), fx.ErrStdTwo)
	case "fmt":
		return fmt.Errorf("%s: %w", n.Text, cause)
	case "fmtpre":
		return fmt.Errorf("%w (%s)", cause, n.Text)
	case "fmtmid":
		return fmt.Errorf("mid %w end: %s", cause, n.Text)
	case "fmtbare":
		return fmt.Errorf("%w", cause)
	case "wrap":
		return pkgerrors.Wrap(cause, n.Text)
	case "withstack":
		return pkgerrors.WithStack(cause)
	case "withmessage":
		return pkgerrors.WithMessage(cause, n.Text)
	case "cause":
		return fx.NewCauseErr(n.Text, cause)
	case "odd", "ptrstruct":
		return fx.NewOddCauseErr(n.Text, cause)
	}
	panic("unknown kind " + n.Kind)
}

type chainCase struct {
	Leaf errNode `json:"leaf"`
	// Hops[0] wraps in the service that raises the error, Hops[i] in the i-th service that forwards it.
	Hops   [][]errNode `json:"hops"`
	Method int         `json:"method"`
	Out    string      `json:"out"`
}

var textGen = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "std sentinel", "x: y", ": ", "ctx", "std sentinel: std sentinel", "äöü €", "b: ", "%w", "pkg sentinel", "other"}),
	rapid.StringMatching("[a-c: ]{0,6}"),
	rapid.String(),
)

func genNode(t *rapid.T, kinds []string) errNode {
	n := errNode{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	if _, ok := sentinels[n.Kind]; ok {
		return n
	}
	n.Text = textGen.Draw(t, "text")
	switch n.Kind {
	case "struct", "code", "tag", "otherStruct", "altStruct", "op", "plainop", "stackerr", "http":
		n.N = rapid.IntRange(-3, 100000).Draw(t, "n")
	}
	switch n.Kind {
	case "struct", "value", "tag", "map", "list", "ptr", "emb":
		n.Data = entropy(t, "data", 80)
	}
	return n
}

func genChain(t *rapid.T) chainCase {
	c := chainCase{Leaf: genNode(t, leafKinds), Method: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5}).Draw(t, "method"), Out: textGen.Draw(t, "out")}
	hops := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "hops")
	for h := 0; h < hops; h++ {
		n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4}).Draw(t, "wrappers")
		ws := []errNode{}
		for i := 0; i < n; i++ {
			ws = append(ws, genNode(t, wrapKinds))
		}
		c.Hops = append(c.Hops, ws)
	}
	return c
}

// send lets a service return err and gives what its client receives.
func send(c chainCase, err error, hop int) (error, vr.Result) {
	s := &script{reply: func(call) []interface{} {
		switch c.Method {
		case 0:
			return []interface{}{err}
		case 2:
			return []interface{}{err, len(c.Out), nil}
		case 3:
			return []interface{}{nil, len(c.Out), err}
		case 4:
			return []interface{}{err, len(c.Out), fx.ErrPkgTwo}
		case 5:
			return []interface{}{fx.ErrPkgTwo, len(c.Out), err}
		}
		return []interface{}{c.Out, err}
	}}
	cl := svcClient(&pipe{h: svcHandler(s)}, false)
	var got, cerr error
	out := c.Out
	switch c.Method {
	case 0:
		got, cerr = cl.Fail(bg, "k")
	case 1:
		out, got, cerr = cl.FailBoth(bg, "k")
	default:
		var n int
		var more error
		if got, n, more, cerr = cl.FailTwo(bg, "k"); c.Method%2 == 1 {
			got, more = more, got
		}
		if cerr == nil && n != len(c.Out) {
			return nil, vr.Failf("result next to an error is wrong", "hop %d: got %d want %d", hop, n, len(c.Out))
		}
		if cerr == nil && c.Method < 4 && more != nil {
			return nil, vr.Failf("a nil error next to an error arrives as error", "hop %d: %v", hop, more)
		}
		if cerr == nil && c.Method >= 4 {
			if r := judge(more, fx.ErrPkgTwo); r.Fail != "" {
				r.Detail = "of two errors: " + r.Detail
				return nil, r
			}
		}
	}
	if cerr != nil {
		return nil, vr.Failf("client error instead of service error", "hop %d: %v (service returned %T %q)", hop, cerr, err, err)
	}
	if out != c.Out {
		return nil, vr.Failf("result next to an error is wrong", "hop %d: got %q want %q", hop, out, c.Out)
	}
	return got, vr.Result{}
}

func links(err error) (out []error) {
	for err != nil {
		out = append(out, err)
		err = errors.Unwrap(err)
	}
	return out
}

func pkgPath(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.PkgPath()
}

func sameKind(a, b error) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	return ta == tb && a.Error() == b.Error()
}

// asTargets are the types errors.As is asked for.
var asTargets = []reflect.Type{
	reflect.TypeOf(fx.ScalarErr("")), reflect.TypeOf((*fx.PScalarErr)(nil)), reflect.TypeOf(fx.CodeErr(0)), reflect.TypeOf((*fx.StructErr)(nil)),
	reflect.TypeOf(fx.ValueErr{}), reflect.TypeOf((*fx.TagErr)(nil)), reflect.TypeOf((*fx.CauseErr)(nil)), reflect.TypeOf((*fx.OddCauseErr)(nil)),
	reflect.TypeOf((*other.StructErr)(nil)), reflect.TypeOf(other.ScalarErr("")),
	reflect.TypeOf((*altfx.StructErr)(nil)), reflect.TypeOf(altfx.ScalarErr("")), reflect.TypeOf(altfx.ValueErr{}),
	reflect.TypeOf((*fx.OpErr)(nil)), reflect.TypeOf(fx.HolderErr{}), reflect.TypeOf((*fx.StackErr)(nil)), reflect.TypeOf(fx.MapErr{}), reflect.TypeOf(fx.ListErr{}),
	reflect.TypeOf(fx.PtrErr{}), reflect.TypeOf((*fx.EmbErr)(nil)), reflect.TypeOf((*gotsrpc.HTTPError)(nil)), reflect.TypeOf((*gotsrpc.ClientError)(nil)),
}

var errorIface = reflect.TypeOf((*error)(nil)).Elem()

// canonErr renders the exported data of an error, the errors it holds by their text and the sentinels they are.
func canonErr(v reflect.Value) string {
	s := v
	if s.Kind() == reflect.Ptr && !s.IsNil() {
		s = s.Elem()
	}
	if s.Kind() != reflect.Struct {
		return val.Canon(v, val.Msgpack)
	}
	out := ""
	c := reflect.New(s.Type()).Elem()
	for i := 0; i < s.NumField(); i++ {
		f := s.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		if f.Type != errorIface {
			c.Field(i).Set(s.Field(i))
			continue
		}
		held, _ := s.Field(i).Interface().(error)
		if held == nil {
			out += f.Name + ": nil;"
			continue
		}
		out += fmt.Sprintf("%s: %q", f.Name, held.Error())
		for _, n := range sentinelNames {
			is := errors.Is(held, sentinels[n])
			for _, l := range links(held) { // told apart by type and text
				is = is || sameKind(l, sentinels[n])
			}
			if is && !inMulti(held) {
				out += " " + n
			}
		}
		out += ";"
	}
	return out + val.Canon(c, val.Msgpack)
}

// textVariants are the text, parts of it and texts like it.
func textVariants(text string) []string {
	out := []string{text, text + "x", "", strings.TrimSpace(text), strings.ToUpper(text), strings.ToLower(text), "x" + text, text + ": ", ": " + text, strings.TrimSuffix(text, "\x00")}
	if i := strings.Index(text, ": "); i >= 0 {
		out = append(out, text[:i], text[i+2:], text[:i+1], text[:i+2])
		if k := strings.LastIndex(text, ": "); k != i {
			out = append(out, text[:k], text[k+2:])
		}
	}
	if i := strings.LastIndex(text, " "); i >= 0 {
		out = append(out, text[:i], text[i+1:])
	}
	if len(text) > 1 {
		out = append(out, text[1:], text[:len(text)-1])
	}
	return out
}

// isTargets: sentinels plus fresh errors of every type with the texts of the chain and texts like them.
func isTargets(ref error) []error {
	out := []error{}
	for _, n := range sentinelNames {
		out = append(out, sentinels[n])
	}
	seen := map[string]bool{}
	for _, l := range links(ref) {
		for _, text := range textVariants(l.Error()) {
			if seen[text] {
				continue
			}
			seen[text] = true
			scalar, strct, value := strings.TrimPrefix(text, "scalar:"), strings.TrimPrefix(text, "struct error "), strings.TrimPrefix(text, "value error ")
			pscalar := fx.PScalarErr(strings.TrimPrefix(text, "pscalar:"))
			out = append(out, fx.ScalarErr(scalar), other.ScalarErr(scalar), altfx.ScalarErr(scalar), &pscalar,
				errors.New(text), pkgerrors.New(text), &fx.StructErr{Msg: strct}, &other.StructErr{Msg: strct}, &altfx.StructErr{Msg: strct},
				fx.CodeErr(4711), altfx.ValueErr{Msg: value}, &fx.TagErr{Message: strings.TrimPrefix(text, "tag error ")},
				// wrappers with this text
				fmt.Errorf("%s%w", text, fx.ErrEmpty), fmt.Errorf("%w%s", fx.ErrEmpty, text), fx.NewOddCauseErr(strings.TrimPrefix(text, "odd "), io.EOF),
				pkgerrors.WithMessage(fx.ErrEmpty, strings.TrimSuffix(text, ": ")), pkgerrors.WithStack(errors.New(text)), fx.NewStackErr(text, false, io.EOF),
				fx.NewCauseErr(strings.TrimSuffix(text, ": "), fx.ErrEmpty), gotsrpc.NewClientError(errors.New(text)), fx.HolderErr{Text: strings.TrimPrefix(text, "holder ")},
			)
			if i := strings.Index(text, ": "); i >= 0 {
				out = append(out, fmt.Errorf("%s: %w", text[:i], errors.New(text[i+2:])), pkgerrors.WithMessage(errors.New(text[i+2:]), text[:i]), pkgerrors.Wrap(errors.New(text[i+2:]), text[:i]), fx.NewCauseErr(text[:i], errors.New(text[i+2:])))
			}
		}
	}
	return out
}

// judge compares what arrived with the error a direct call would have returned.
func judge(got, ref error) vr.Result {
	if got == nil {
		return vr.Failf("error arrives as nil", "want %T %q", ref, ref)
	}
	if g, w := got.Error(), ref.Error(); g != w {
		return vr.Failf("error text changed", "got %q want %q (%T)", g, w, ref)
	}
	for _, n := range sentinelNames {
		if errors.Is(ref, sentinels[n]) && !inMulti(ref) && !errors.Is(got, sentinels[n]) {
			return vr.Failf("sentinel not recognised", "%s in %q: %#v", n, ref, got)
		}
	}
	for _, target := range isTargets(ref) {
		want := false
		for _, l := range links(ref) {
			if sameKind(l, target) {
				want = true
			}
		}
		// and the other way round: an error of the type and text of a link is told apart from it by nothing
		if !errors.Is(got, target) && want && !inMulti(ref) {
			return vr.Failf("error of the chain not recognised", "errors.Is(%q, %T %q) is false: %#v", got, target, target, got)
		}
		if g := errors.Is(got, target); g && !want {
			return vr.Failf("matches an error that is not in the chain", "errors.Is(%q, %T %q) is true", got, target, target)
		}
	}
	for _, tt := range asTargets {
		var want error
		for _, l := range links(ref) {
			if reflect.TypeOf(l) == tt {
				want = l
				break
			}
		}
		target := reflect.New(tt)
		found := errors.As(got, target.Interface())
		if want == nil {
			if found {
				return vr.Failf("decodes into a type that is not in the chain", "errors.As(%q, %s) is true", got, target.Type())
			}
			continue
		}
		if !found {
			return vr.Failf("type of the chain not found", "errors.As(%q, %s) is false, want %#v in %#v", got, target.Type(), want, got)
		}
		if g, w := canonErr(target.Elem()), canonErr(reflect.ValueOf(want)); g != w {
			return vr.Failf("error data changed", "%s: got %s want %s", tt, clip(g), clip(w))
		}
	}
	return vr.Result{}
}

func inMulti(ref error) bool {
	for _, l := range links(ref) {
		if _, ok := l.(interface{ Unwrap() []error }); ok {
			return true
		}
	}
	return false
}

func runChain(c chainCase) vr.Result {
	ref := c.Leaf.build(nil)
	wire := error(nil)
	nodes := 0
	for h, ws := range c.Hops {
		local := wire
		if h == 0 {
			local = ref
		}
		for _, w := range ws {
			nodes++
			ref = w.build(ref)
			local = w.build(local)
		}
		got, res := send(c, local, h)
		if res.Fail != "" {
			return res
		}
		if res := judge(got, ref); res.Fail != "" {
			res.Detail = fmt.Sprintf("after hop %d: %s", h, res.Detail)
			return res
		}
		// converting a transported error is the identity
		if e, ok := got.(*gotsrpc.Error); ok {
			if gotsrpc.NewError(got) != e {
				return vr.Failf("converting a transported error changes it", "%q", got)
			}
		}
		wire = got
	}
	r := vr.Result{NonTrivial: nodes > 0 || sentinels[c.Leaf.Kind] == nil, Classes: []string{"leaf:" + c.Leaf.Kind, fmt.Sprintf("wrappers:%d", nodes), fmt.Sprintf("hops:%d", len(c.Hops))}}
	for _, ws := range c.Hops {
		for _, w := range ws {
			r.Classes = append(r.Classes, "wrap:"+w.Kind)
		}
	}
	return r
}

func TestC09Chain(t *testing.T) { vr.Run(t, "C09/chain", genChain, runChain) }

// local conversion, without a wire
func TestC09Local(t *testing.T) {
	vr.Run(t, "C09/local", genChain, func(c chainCase) vr.Result {
		ref := c.Leaf.build(nil)
		n := 0
		for _, ws := range c.Hops {
			for _, w := range ws {
				n++
				ref = w.build(ref)
			}
		}
		e := gotsrpc.NewError(ref)
		if gotsrpc.NewError(e) != e {
			return vr.Failf("converting a transported error changes it", "%q", e)
		}
		if res := judge(e, ref); res.Fail != "" {
			res.Detail = "converted without a wire: " + res.Detail
			return res
		}
		// nothing matches nothing
		var none *gotsrpc.Error
		var typed *fx.StructErr
		if none.Is(ref) || none.As(&typed) || none.Unwrap() != nil || e.Is(nil) || e.As(nil) || errors.Is(none, ref) {
			return vr.Failf("a nil error matches", "%q", ref)
		}
		return vr.Result{NonTrivial: n > 0, Classes: []string{fmt.Sprintf("wrappers:%d", n)}}
	})
}

type typedCase struct {
	Method int    `json:"method"`
	Kind   int    `json:"kind"` // 0 nil, 1 typed nil, 2 value
	Text   string `json:"text"`
	N      int    `json:"n"`
	Data   []byte `json:"data"`
}

func TestC09Typed(t *testing.T) {
	vr.Run(t, "C09/typed", func(t *rapid.T) typedCase {
		return typedCase{rapid.IntRange(0, 5).Draw(t, "method"), rapid.IntRange(0, 2).Draw(t, "kind"), textGen.Draw(t, "text"), rapid.IntRange(0, 300).Draw(t, "n"), entropy(t, "data", 80)}
	}, runTyped)
}

func runTyped(c typedCase) vr.Result {
	var ret []interface{}
	var want interface{}
	se := val.Build(val.NewSrc(c.Data), reflect.TypeOf(fx.StructErr{}), val.Msgpack).Interface().(fx.StructErr)
	se.Msg, se.Code = c.Text, c.N
	pe := fx.PScalarErr(c.Text)
	s := &script{reply: func(call) []interface{} { return ret }}
	cl := svcClient(&pipe{h: svcHandler(s)}, false)
	var got interface{}
	var cerr error
	switch c.Method {
	case 0: // struct error result
		var p *fx.StructErr
		if c.Kind == 2 {
			p = &se
		}
		ret, want = []interface{}{p}, p
		got, cerr = cl.FailStruct(bg, "")
	case 1: // second result
		var p *fx.StructErr
		if c.Kind == 2 {
			p = &se
		}
		ret, want = []interface{}{c.N, p}, p
		var n int
		n, got, cerr = cl.FailStructBoth(bg, "")
		if cerr == nil && n != c.N {
			return vr.Failf("result next to an error is wrong", "got %d want %d", n, c.N)
		}
	case 2:
		var p *fx.PScalarErr
		if c.Kind == 2 {
			p = &pe
		}
		ret, want = []interface{}{p}, p
		got, cerr = cl.FailScalar(bg, "")
	default: // nil and typed nil in an error result
		var e error
		switch c.Kind {
		case 1:
			if c.Method == 3 {
				e = (*fx.StructErr)(nil)
			} else {
				e = (*fx.PScalarErr)(nil)
			}
		case 2:
			e = errors.New(c.Text)
		}
		var g error
		if c.Method == 5 {
			var out string
			ret = []interface{}{c.Text, e}
			out, g, cerr = cl.FailBoth(bg, "")
			if cerr == nil && out != c.Text {
				return vr.Failf("result next to an error is wrong", "got %q want %q", out, c.Text)
			}
		} else {
			ret = []interface{}{e}
			g, cerr = cl.Fail(bg, "")
		}
		if cerr != nil {
			return vr.Failf("client error instead of service error", "%v", cerr)
		}
		if (g == nil) != (c.Kind != 2) {
			return vr.Failf("nil-ness of the error changed", "kind %d arrives as %#v", c.Kind, g)
		}
		return vr.Result{NonTrivial: true, Classes: []string{fmt.Sprintf("nil-ness:%d", c.Kind)}}
	}
	if cerr != nil {
		return vr.Failf("client error instead of service error", "%v", cerr)
	}
	if g, w := val.Canon(reflect.ValueOf(got), val.Msgpack), val.Canon(reflect.ValueOf(want), val.Msgpack); g != w {
		return vr.Failf("typed error changed", "got %s want %s", clip(g), clip(w))
	}
	return vr.Result{NonTrivial: true, Classes: []string{fmt.Sprintf("typed:%d:%d", c.Method, c.Kind)}}
}

var _ = time.Now

type foreignCase struct {
	Chain chainCase `json:"chain"`
	Link  int       `json:"link"`
	Pkg   int       `json:"pkg"`
	Type  int       `json:"type"`
}

var pkgVariants = []func(string) string{
	func(s string) string { return s },
	func(s string) string { return "example.com/vendor/" + s },
	func(s string) string { return s + "/v2" },
	func(s string) string { return s[strings.LastIndex(s, "/")+1:] },
	func(s string) string { return "x" + s },
	func(s string) string { return strings.ToUpper(s) },
	func(s string) string { return "" },
	func(s string) string { return s + "/" },
	func(s string) string { return s[:strings.LastIndex(s, "/")+1] + "zz" },
	func(s string) string { return "a/" + s[strings.LastIndex(s, "/")+1:] },
	func(s string) string { return strings.TrimSuffix(s, s[strings.LastIndex(s, "/")+1:]) },
	func(s string) string { return s + " " },
	func(s string) string { return "github.com/pkg/" + s },
	func(s string) string { return strings.Replace(s, "/", ".", 1) },
}

var typeVariants = []func(string) string{
	func(s string) string { return s },
	func(s string) string { return "*" + s },
	func(s string) string { return strings.TrimPrefix(s, "*") },
	func(s string) string { return s + "2" },
	func(s string) string { return s[strings.LastIndex(s, ".")+1:] },
	func(s string) string { return "zz." + s[strings.LastIndex(s, ".")+1:] },
	func(s string) string { return strings.ToLower(s) },
	func(s string) string { return "" },
	func(s string) string { return s + "[int]" },
	func(s string) string { return s[:len(s)-1] },
}

// The service is another program, whose packages and types are named alike, but are others.
func TestC09Foreign(t *testing.T) {
	vr.Run(t, "C09/foreign", func(t *rapid.T) foreignCase {
		return foreignCase{genChain(t), rapid.IntRange(0, 5).Draw(t, "link"), rapid.IntRange(0, len(pkgVariants)-1).Draw(t, "pkg"), rapid.IntRange(0, len(typeVariants)-1).Draw(t, "type")}
	}, runForeign)
}

func runForeign(c foreignCase) vr.Result {
	ref := c.Chain.Leaf.build(nil)
	for _, w := range c.Chain.Hops[0] {
		ref = w.build(ref)
	}
	var chain []*gotsrpc.Error
	for e := gotsrpc.NewError(ref); e != nil; e = e.ErrCause {
		cp := *e
		if len(chain) > 0 {
			chain[len(chain)-1].ErrCause = &cp
		}
		chain = append(chain, &cp)
	}
	l := chain[c.Link%len(chain)]
	pkg, typ := l.Pkg, l.Type
	l.Pkg, l.Type = pkgVariants[c.Pkg](l.Pkg), typeVariants[c.Type](l.Type)
	sent := chain[0]
	got, res := send(c.Chain, sent, 0)
	if res.Fail != "" {
		return res
	}
	if got == nil || got.Error() != sent.Error() {
		return vr.Failf("error text changed", "got %v want %q", got, sent.Error())
	}
	is := func(typ, pkg, text string) bool {
		for _, l := range chain {
			if l.Type == typ && l.Pkg == pkg && l.Error() == text {
				return true
			}
		}
		return false
	}
	for _, target := range isTargets(ref) {
		tt := reflect.TypeOf(target)
		if tt == stackType { // not told apart by this check
			continue
		}
		want := is(tt.String(), pkgPath(tt), target.Error())
		if g := errors.Is(got, target); g != want {
			return vr.Failf("matches errors of other packages or types", "%q.%q made of %q.%q: errors.Is(%q, %T %q) is %v", l.Pkg, l.Type, pkg, typ, got, target, target, g)
		}
	}
	for _, tt := range asTargets {
		target := reflect.New(tt)
		if !errors.As(got, target.Interface()) {
			continue
		}
		want := false
		for _, l := range chain {
			want = want || l.Type == tt.String() && l.Pkg == pkgPath(tt)
		}
		if !want {
			return vr.Failf("decodes into types of other packages", "%q.%q made of %q.%q: errors.As(%q, %s) is true", l.Pkg, l.Type, pkg, typ, got, target.Type())
		}
	}
	return vr.Result{NonTrivial: l.Pkg != pkg || l.Type != typ, Classes: []string{fmt.Sprintf("changed package: %v, type: %v", l.Pkg != pkg, l.Type != typ)}}
}

var stackType = reflect.TypeOf(pkgerrors.WithStack(io.EOF))
