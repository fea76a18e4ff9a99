package val

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Opt is an Object member that may be present or absent.
type opt struct{ v interface{} }

// Object is a JSON Object of the reference encoding.
type Object map[string]interface{}

// Ref describes the JSON encoding of a value, independently of the codec under
// test: nil, bool, json.Number, string, []interface{}, Object.
func Ref(v reflect.Value) interface{} {
	if !v.IsValid() {
		return nil
	}
	t := v.Type()
	if t == timeType {
		return json.Number(strconv.FormatInt(v.Interface().(time.Time).UnixMilli(), 10))
	}
	switch t.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return json.Number(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return json.Number(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32:
		return json.Number(strconv.FormatFloat(v.Float(), 'g', -1, 32))
	case reflect.Float64:
		return json.Number(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		return strings.ToValidUTF8(v.String(), "\uFFFD")
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return Ref(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if t.Elem() == reflect.TypeOf(byte(0)) {
			return base64.StdEncoding.EncodeToString(v.Bytes())
		}
		l := make([]interface{}, v.Len())
		for i := range l {
			l[i] = Ref(v.Index(i))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		o := Object{}
		it := v.MapRange()
		for it.Next() {
			o[refKey(it.Key())] = Ref(it.Value())
		}
		return o
	case reflect.Struct:
		if u := unionFields(t); len(u) > 0 {
			for _, i := range u {
				if !v.Field(i).IsZero() {
					return Ref(v.Field(i))
				}
			}
			return nil
		}
		o := Object{}
		refFields(o, v)
		return o
	}
	panic(fmt.Sprintf("no reference encoding for %s", t))
}

func refKey(k reflect.Value) string {
	if k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	switch x := Ref(k).(type) {
	case string:
		return x
	case json.Number:
		return x.String()
	default:
		return fmt.Sprint(x)
	}
}

func refFields(o Object, v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		ti := jsonTag(f)
		if ti.ignore {
			continue
		}
		fv := v.Field(i)
		if f.Anonymous && ti.inline {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				if fv.IsNil() {
					// the members of a nil embedded pointer are null or absent
					sub := Object{}
					refFields(sub, reflect.Zero(ft.Elem()))
					for k := range sub {
						o[k] = opt{nil}
					}
					continue
				}
				fv = fv.Elem()
			}
			if fv.Kind() == reflect.Struct {
				refFields(o, fv)
				continue
			}
		}
		x := Ref(fv)
		if ti.omit && emptyish(fv, JSON) {
			o[ti.name] = opt{x}
		} else {
			o[ti.name] = x
		}
	}
}

// RefJSON renders the reference encoding (optional members absent).
func RefJSON(v reflect.Value) string { return render(Ref(v)) }

func render(x interface{}) string {
	switch y := x.(type) {
	case nil:
		return "null"
	case json.Number:
		return y.String()
	case []interface{}:
		parts := make([]string, len(y))
		for i := range y {
			parts[i] = render(y[i])
		}
		return "[" + strings.Join(parts, ",") + "]"
	case Object:
		keys := make([]string, 0, len(y))
		for k := range y {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var parts []string
		for _, k := range keys {
			if _, ok := y[k].(opt); ok {
				continue
			}
			parts = append(parts, quote(k)+":"+render(y[k]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case string:
		return quote(y)
	default:
		b, err := json.Marshal(y)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
}

func quote(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ParseJSON parses JSON text keeping numbers exact; duplicate members and
// trailing data are errors.
func ParseJSON(data []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	x, err := parseValue(d)
	if err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return x, nil
}

func parseValue(d *json.Decoder) (interface{}, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		switch x {
		case '[':
			l := []interface{}{}
			for d.More() {
				v, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				l = append(l, v)
			}
			_, err := d.Token()
			return l, err
		case '{':
			o := Object{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				if _, dup := o[k.(string)]; dup {
					return nil, fmt.Errorf("duplicate member %q", k)
				}
				o[k.(string)] = v
			}
			_, err := d.Token()
			return o, err
		}
		return nil, fmt.Errorf("unexpected %v", x)
	default:
		return x, nil
	}
}

// DiffJSON compares parsed JSON with a reference encoding; "" when equal.
func DiffJSON(got, want interface{}) string { return diff("$", got, want) }

func diff(path string, got, want interface{}) string {
	if o, ok := want.(opt); ok {
		want = o.v
		if got == nil {
			return ""
		}
	}
	switch w := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: want null, got %s", path, short(got))
		}
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return fmt.Sprintf("%s: want number %s, got %s", path, w, short(got))
		}
		if !sameNumber(g.String(), w.String()) {
			return fmt.Sprintf("%s: want number %s, got %s", path, w, g)
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("%s: want %q, got %s", path, w, short(got))
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return fmt.Sprintf("%s: want %v, got %s", path, w, short(got))
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s: want array, got %s", path, short(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(w), len(g))
		}
		for i := range w {
			if s := diff(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); s != "" {
				return s
			}
		}
	case Object:
		g, ok := got.(Object)
		if !ok {
			return fmt.Sprintf("%s: want Object, got %s", path, short(got))
		}
		for k, wv := range w {
			gv, present := g[k]
			if _, optional := wv.(opt); optional && !present {
				continue
			}
			if !present {
				return fmt.Sprintf("%s: member %q is missing", path, k)
			}
			if s := diff(path+"."+k, gv, wv); s != "" {
				return s
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s: unexpected member %q", path, k)
			}
		}
	default:
		return fmt.Sprintf("%s: bad reference %T", path, want)
	}
	return ""
}

func sameNumber(a, b string) bool {
	if a == b {
		return true
	}
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	if ok1 && ok2 && x.Cmp(y) == 0 {
		return true
	}
	// the same float64 in another spelling
	f, err1 := strconv.ParseFloat(a, 64)
	g, err2 := strconv.ParseFloat(b, 64)
	if err1 == nil && err2 == nil && f == g && (strings.ContainsAny(a+b, ".eE")) {
		return true
	}
	// the same float32 in another spelling
	return false
}

func short(x interface{}) string {
	s := fmt.Sprintf("%T %v", x, x)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
