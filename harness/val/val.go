// Package val builds values of arbitrary supported types from a string of
// entropy, and describes values independently of the codecs under test.
package val

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Mode is the wire a value has to survive.
type Mode string

const (
	Msgpack Mode = "msgpack"
	JSON    Mode = "json"
	JS      Mode = "js" // JSON through a JavaScript engine
	Gob     Mode = "gob"
)

var (
	timeType  = reflect.TypeOf(time.Time{})
	bytesType = reflect.TypeOf([]byte(nil))
)

// Enums lists the constants of enum types, by "pkgpath.Name" (only consulted in JS mode).
var Enums = map[string][]interface{}{}

// Src hands out entropy; exhausted it yields zeros, so shorter is simpler.
type Src struct {
	B []byte
	i int
}

// NewSrc returns a source.
func NewSrc(b []byte) *Src { return &Src{B: b} }

// Byte returns the next byte.
func (s *Src) Byte() byte {
	if s.i >= len(s.B) {
		return 0
	}
	s.i++
	return s.B[s.i-1]
}

// N returns a number below n (n <= 256).
func (s *Src) N(n int) int { return int(s.Byte()) % n }

// U64 returns 8 bytes.
func (s *Src) U64() (u uint64) {
	for i := 0; i < 8; i++ {
		u = u<<8 | uint64(s.Byte())
	}
	return u
}

// Used says how much entropy was consumed.
func (s *Src) Used() int { return s.i }

// Build makes a value of type t.
func Build(s *Src, t reflect.Type, m Mode) reflect.Value {
	v := reflect.New(t).Elem()
	fill(s, v, m, 0)
	return v
}

func enumKey(t reflect.Type) string { return t.PkgPath() + "." + t.Name() }

func fill(s *Src, v reflect.Value, m Mode, depth int) {
	t := v.Type()
	if m == JS {
		if cs, ok := Enums[enumKey(t)]; ok && len(cs) > 0 {
			v.Set(reflect.ValueOf(cs[s.N(len(cs))]).Convert(t))
			return
		}
	}
	switch {
	case t == timeType:
		v.Set(reflect.ValueOf(BuildTime(s, m)))
		return
	case t == bytesType || (t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && t.Elem().PkgPath() == ""):
		switch s.N(4) {
		case 0:
		case 1:
			v.Set(reflect.MakeSlice(t, 0, 0))
		default:
			n := 1 + s.N(9)
			if s.N(16) == 15 {
				n = 300
			}
			b := reflect.MakeSlice(t, n, n)
			for i := 0; i < n; i++ {
				c := s.Byte()
				if n == 300 {
					c = byte(i * 7)
				}
				b.Index(i).SetUint(uint64(c))
			}
			v.Set(b)
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(s.Byte()&1 == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(buildInt(s, t.Bits(), m))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(buildUint(s, t.Bits(), m))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(buildFloat(s, t.Bits(), m))
	case reflect.String:
		v.SetString(BuildString(s, m))
	case reflect.Interface:
		if t.NumMethod() == 0 {
			if a := buildAny(s, m, depth); a != nil {
				v.Set(reflect.ValueOf(a))
			}
		}
	case reflect.Ptr:
		if depth > 4 || s.N(3) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		fill(s, p.Elem(), m, depth+1)
		v.Set(p)
	case reflect.Slice:
		if depth > 4 {
			return
		}
		n := s.N(6)
		if n == 0 {
			return
		}
		n--
		sl := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			fillElem(s, sl.Index(i), m, depth+1)
		}
		v.Set(sl)
	case reflect.Map:
		if depth > 4 {
			return
		}
		n := s.N(5)
		if n == 0 {
			return
		}
		n--
		mp := reflect.MakeMap(t)
		if m == JS {
			// Record<Enum, T> requires every member
			if cs, ok := Enums[enumKey(t.Key())]; ok && len(cs) > 0 {
				for _, c := range cs {
					e := reflect.New(t.Elem()).Elem()
					fillElem(s, e, m, depth+1)
					mp.SetMapIndex(reflect.ValueOf(c).Convert(t.Key()), e)
				}
				v.Set(mp)
				return
			}
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			fill(s, k, m, depth+1)
			e := reflect.New(t.Elem()).Elem()
			fillElem(s, e, m, depth+1)
			mp.SetMapIndex(k, e)
		}
		v.Set(mp)
	case reflect.Struct:
		if u := unionFields(t); len(u) > 0 {
			// none, one or (rarely) two members
			n := s.N(len(u) + 2)
			if n == 0 {
				return
			}
			if n <= len(u) {
				fillMember(s, v.Field(u[n-1]), m, depth)
				return
			}
			fillMember(s, v.Field(u[s.N(len(u))]), m, depth)
			fillMember(s, v.Field(u[s.N(len(u))]), m, depth)
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if !v.Field(i).CanSet() {
				continue
			}
			if m != Gob && jsonTag(f).ignore {
				continue
			}
			fill(s, v.Field(i), m, depth+1)
		}
	}
}

func fillMember(s *Src, v reflect.Value, m Mode, depth int) {
	if v.Kind() == reflect.Ptr {
		p := reflect.New(v.Type().Elem())
		fill(s, p.Elem(), m, depth+1)
		v.Set(p)
		return
	}
	fill(s, v, m, depth+1)
}

func fillElem(s *Src, v reflect.Value, m Mode, depth int) {
	if m == Gob && v.Kind() == reflect.Ptr { // gob has no nil elements
		p := reflect.New(v.Type().Elem())
		fill(s, p.Elem(), m, depth+1)
		v.Set(p)
		return
	}
	fill(s, v, m, depth)
}

const maxSafe = 1<<53 - 1

func buildInt(s *Src, bits int, m Mode) int64 {
	var x int64
	switch s.N(6) {
	case 0:
		return 0
	case 1:
		x = int64(int8(s.Byte()))
	case 2:
		x = int64(int16(uint16(s.Byte())<<8 | uint16(s.Byte())))
	case 3:
		x = math.MaxInt64 >> (64 - bits)
		x -= int64(s.N(3))
	case 4:
		x = math.MinInt64 >> (64 - bits)
		x += int64(s.N(3))
	case 5:
		x = int64(s.U64())
	}
	x = x << (64 - bits) >> (64 - bits)
	if m == JS && (x > maxSafe || x < -maxSafe) {
		x %= maxSafe
	}
	return x
}

func buildUint(s *Src, bits int, m Mode) uint64 {
	var x uint64
	switch s.N(5) {
	case 0:
		return 0
	case 1:
		x = uint64(s.Byte())
	case 2:
		x = uint64(s.Byte())<<8 | uint64(s.Byte())
	case 3:
		x = math.MaxUint64>>(64-bits) - uint64(s.N(3))
	case 4:
		x = s.U64()
	}
	x = x << (64 - bits) >> (64 - bits)
	if m == JS && x > maxSafe {
		x %= maxSafe
	}
	return x
}

func buildFloat(s *Src, bits int, m Mode) float64 {
	var x float64
	switch s.N(6) {
	case 0:
		return 0
	case 1:
		x = float64(int8(s.Byte()))
	case 2:
		x = float64(int16(uint16(s.Byte())<<8|uint16(s.Byte()))) / 64
	case 3:
		x = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 0.1, 1 << 53, -1e100, math.MaxFloat32}[s.N(8)]
	case 4:
		if bits == 32 {
			x = float64(math.Float32frombits(uint32(s.U64() >> 32)))
		} else {
			x = math.Float64frombits(s.U64())
		}
	case 5:
		x = float64(int32(s.U64()>>32)) / 1000
	}
	if bits == 32 {
		x = float64(float32(x))
	}
	if m != Msgpack && m != Gob {
		if math.IsInf(x, 0) || math.IsNaN(x) {
			x = 1.5
		}
	}
	if x == 0 {
		x = 0 // no negative zero
	}
	return x
}

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', '/', '<', '>', '&', '\'', '\n', '\t', 0, 0x1f, 0x7f, 'ä', 'ß', '€', 0x2028, 0x2029, 0xFFFD, '日', '😀', 0x10FFFF, '{', ']', ',', ':', '+', '%', '-'}

// BuildString makes a string.
func BuildString(s *Src, m Mode) string {
	switch s.N(8) {
	case 0:
		return ""
	case 1, 2, 3:
		n := 1 + s.N(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + s.Byte()%26
		}
		return string(b)
	case 4, 5:
		n := 1 + s.N(8)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(runes[s.N(len(runes))])
		}
		return sb.String()
	case 6:
		words := []string{"null", "true", "0", "-1", "1e5", "[]", "{}", "undefined", "__proto__", "constructor", "NaN", "2006-01-02T15:04:05Z"}
		return words[s.N(len(words))]
	default:
		if s.N(4) == 3 {
			return strings.Repeat("lang ü ", 60+s.N(60))
		}
		n := 1 + s.N(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = s.Byte()
		}
		if m == JSON || m == JS {
			return strings.ToValidUTF8(string(b), "?")
		}
		return string(b)
	}
}

// BuildTime makes an instant in some zone (years 1..9999).
func BuildTime(s *Src, m Mode) time.Time {
	const minS, maxS = -62135596800, 253402300799
	var t time.Time
	switch s.N(7) {
	case 0:
		return time.Time{}
	case 1:
		t = time.Unix(0, 0)
	case 2:
		t = time.Unix(1700000000+int64(s.N(200))*86400, int64(s.N(250))*1000003)
	case 3:
		t = time.Unix(-int64(s.N(256))*1000003, int64(s.Byte())*999983)
	case 4: // any second of the range
		t = time.Unix(minS+int64(s.U64()%uint64(maxS-minS)), int64(s.U64()%1000000000))
	case 5:
		t = []time.Time{time.Unix(minS, 0), time.Unix(maxS, 999999999), time.Unix(0, math.MaxInt64), time.Unix(0, math.MinInt64), time.Unix(-1, 999999999), time.Unix(1, 1), time.Unix(math.MaxInt32, 0), time.Unix(0, -1)}[s.N(8)]
	case 6:
		t = time.Unix(int64(s.U64()%4000000000), int64(s.U64()%1000000000))
	}
	switch s.N(4) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("plus", 5*3600+1800))
	case 2:
		t = t.In(time.FixedZone("minus", -11*3600))
	case 3:
		t = t.Local()
	}
	return t
}

func buildAny(s *Src, m Mode, depth int) interface{} {
	switch s.N(7) {
	case 0:
		return nil
	case 1:
		return BuildString(s, m)
	case 2:
		return s.Byte()&1 == 1
	case 3:
		return buildInt(s, 64, m)
	case 4:
		return buildFloat(s, 64, m)
	case 5:
		if depth > 3 || m == Gob {
			return "leaf"
		}
		n := s.N(4)
		l := make([]interface{}, n)
		for i := range l {
			l[i] = buildAny(s, m, depth+1)
		}
		return l
	default:
		if depth > 3 || m == Gob {
			return int64(7)
		}
		n := s.N(4)
		mp := map[string]interface{}{}
		for i := 0; i < n; i++ {
			mp[BuildString(s, m)] = buildAny(s, m, depth+1)
		}
		return mp
	}
}

type tagInfo struct {
	name   string
	omit   bool
	ignore bool
	inline bool
}

func jsonTag(f reflect.StructField) (ti tagInfo) {
	parts := strings.Split(f.Tag.Get("json"), ",")
	ti.name = f.Name
	switch parts[0] {
	case "-":
		if ti.ignore = len(parts) == 1; !ti.ignore {
			ti.name = "-" // a name when options follow
		}
	case "":
	default:
		ti.name = parts[0]
	}
	for _, p := range parts[1:] {
		switch strings.TrimSpace(p) {
		case "omitempty":
			ti.omit = true
		case "inline":
			ti.inline = true
		}
	}
	if f.Anonymous && parts[0] == "" {
		ti.inline = true
	}
	return ti
}

func unionFields(t reflect.Type) (out []int) {
	for i := 0; i < t.NumField(); i++ {
		if isUnionTag(t.Field(i)) {
			out = append(out, i)
		}
	}
	return out
}

func isUnionTag(f reflect.StructField) bool {
	for _, p := range strings.Split(f.Tag.Get("gotsrpc"), ",") {
		if strings.TrimSpace(p) == "union" {
			return true
		}
	}
	return false
}

// emptyish says whether omitempty may drop a value.
func emptyish(v reflect.Value, m Mode) bool {
	switch v.Kind() {
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || (m == Msgpack && ptrToZeroTime(v))
	case reflect.Struct:
		if v.Type() == timeType {
			return v.Interface().(time.Time).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if !emptyish(v.Field(i), m) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// Canon describes a value as far as the wire of mode m distinguishes values.
func Canon(v reflect.Value, m Mode) string {
	var sb strings.Builder
	canon(&sb, v, m, 0)
	return sb.String()
}

// CanonAll describes a list of values.
func CanonAll(vs []reflect.Value, m Mode) []string {
	out := make([]string, len(vs))
	for i, v := range vs {
		out[i] = Canon(v, m)
	}
	return out
}

func canon(sb *strings.Builder, v reflect.Value, m Mode, depth int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	t := v.Type()
	if m == Gob && gobZero(v, depth) {
		sb.WriteString("0")
		return
	}
	if t == timeType {
		sb.WriteString(canonTime(v.Interface().(time.Time), m))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 32))
	case reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		s := v.String()
		if (m == JSON || m == JS) && !utf8.ValidString(s) {
			s = strings.ToValidUTF8(s, "\uFFFD")
		}
		sb.WriteString(strconv.QuoteToASCII(s))
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if t.NumMethod() == 0 {
			canonAny(sb, v.Elem(), m, depth)
			return
		}
		canon(sb, v.Elem(), m, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if m == Msgpack && ptrToZeroTime(v) {
			sb.WriteString("nil") // known finding of C10: the codec sends the zero time as nil
			return
		}
		if m != Gob {
			sb.WriteString("&")
		}
		canon(sb, v.Elem(), m, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			canon(sb, v.Index(i), m, depth+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		entries := make([]string, 0, v.Len())
		it := v.MapRange()
		for it.Next() {
			entries = append(entries, Canon(it.Key(), m)+":"+Canon(it.Value(), m))
		}
		sortStrings(entries)
		sb.WriteString("{" + strings.Join(entries, " ") + "}")
	case reflect.Struct:
		sb.WriteString("(")
		canonFields(sb, v, m, depth)
		sb.WriteString(")")
	default:
		sb.WriteString("?" + t.String())
	}
}

func canonFields(sb *strings.Builder, v reflect.Value, m Mode, depth int) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		ti := jsonTag(f)
		fv := v.Field(i)
		if m != Gob {
			if ti.ignore {
				continue
			}
			if f.Anonymous && ti.inline {
				// a nil embedded pointer is not distinguished from an empty one
				if fv.Kind() == reflect.Ptr {
					if fv.IsNil() {
						fv = reflect.Zero(fv.Type().Elem())
						canonNilInline(sb, fv, m, depth)
						continue
					}
					fv = fv.Elem()
				}
				if fv.Kind() == reflect.Struct {
					canonFields(sb, fv, m, depth+1)
					continue
				}
			}
		}
		sb.WriteString(f.Name + "=")
		if m != Gob && ti.omit && emptyish(fv, m) {
			sb.WriteString("~")
		} else {
			canon(sb, fv, m, depth+1)
		}
		sb.WriteString(" ")
	}
}

func ptrToZeroTime(v reflect.Value) bool {
	return v.Kind() == reflect.Ptr && v.Type().Elem() == timeType && !v.IsNil() && v.Elem().Interface().(time.Time).IsZero()
}

func canonNilInline(sb *strings.Builder, v reflect.Value, m Mode, depth int) {
	canonFields(sb, v, m, depth+1)
}

func canonTime(t time.Time, m Mode) string {
	switch m {
	case JSON, JS:
		return "t" + strconv.FormatInt(t.UnixMilli(), 10)
	default:
		return "t" + strconv.FormatInt(t.Unix(), 10) + "." + strconv.Itoa(t.Nanosecond())
	}
}

func canonAny(sb *strings.Builder, v reflect.Value, m Mode, depth int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString("#" + canonNumber(strconv.FormatInt(v.Int(), 10), float64(v.Int())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString("#" + canonNumber(strconv.FormatUint(v.Uint(), 10), float64(v.Uint())))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
			sb.WriteString("#" + strconv.FormatInt(int64(f), 10))
			return
		}
		sb.WriteString("#" + strconv.FormatFloat(f, 'g', -1, 64))
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			e := v.Index(i)
			if e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			if !e.IsValid() {
				sb.WriteString("nil")
				continue
			}
			canonAny(sb, e, m, depth+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		entries := make([]string, 0, v.Len())
		it := v.MapRange()
		for it.Next() {
			k, e := it.Key(), it.Value()
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			if e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			var sub strings.Builder
			canonAny(&sub, k, m, depth+1)
			sub.WriteString(":")
			if e.IsValid() {
				canonAny(&sub, e, m, depth+1)
			} else {
				sub.WriteString("nil")
			}
			entries = append(entries, sub.String())
		}
		sortStrings(entries)
		sb.WriteString("{" + strings.Join(entries, " ") + "}")
	default:
		canon(sb, v, m, depth)
	}
}

// canonNumber: beyond 2^53 an untyped number may have become a float on the way.
func canonNumber(exact string, f float64) string {
	if math.Abs(f) <= 1<<53 {
		return exact
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// gobZero: gob does not transmit zero values, nor the pointers to them.
func gobZero(v reflect.Value, depth int) bool {
	if depth > 64 {
		return false
	}
	if v.Type() == timeType {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || gobZero(v.Elem(), depth+1)
	case reflect.Interface:
		return v.IsNil()
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if !gobZero(v.Field(i), depth+1) {
				return false
			}
		}
		return true
	default:
		return v.IsZero()
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// HasZeroTimePtr says whether a pointer to the zero time occurs in v.
func HasZeroTimePtr(v reflect.Value) bool {
	if !v.IsValid() {
		return false
	}
	if ptrToZeroTime(v) {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && HasZeroTimePtr(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if HasZeroTimePtr(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if HasZeroTimePtr(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if HasZeroTimePtr(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// CountUnions says how many unions occur in a value and how many have an active member.
func CountUnions(v reflect.Value) (all, active, multi int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return CountUnions(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			a, b, c := CountUnions(v.Index(i))
			all, active, multi = all+a, active+b, multi+c
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			a, b, c := CountUnions(it.Value())
			all, active, multi = all+a, active+b, multi+c
		}
	case reflect.Struct:
		n := 0
		isUnion := false
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Tag.Get("gotsrpc") == "union" {
				isUnion = true
				if !v.Field(i).IsZero() {
					n++
				}
			}
			a, b, c := CountUnions(v.Field(i))
			all, active, multi = all+a, active+b, multi+c
		}
		if isUnion {
			all++
			if n > 0 {
				active++
			}
			if n > 1 {
				multi++
			}
		}
	}
	return
}

// HasUnion says whether values of a type may contain unions.
func HasUnion(t reflect.Type) bool { return hasUnion(t, map[reflect.Type]bool{}) }

func hasUnion(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return hasUnion(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("gotsrpc") == "union" || hasUnion(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}
