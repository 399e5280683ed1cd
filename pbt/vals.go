package main

// Values as data: every value in a case is described by a Val, so cases can be saved and replayed.

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/amarin/query"
	"pgregory.net/rapid"
)

type Val struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	L []Val  `json:"l,omitempty"`
}

// valJSON is Val in a case file; contents that are not UTF-8 are saved as bytes.
type valJSON struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	B []byte `json:"b,omitempty"`
	L []Val  `json:"l,omitempty"`
}

func (v Val) MarshalJSON() ([]byte, error) {
	j := valJSON{v.K, v.N, v.S, nil, v.L}
	if !utf8.ValidString(v.S) {
		j.S, j.B = "", []byte(v.S)
	}
	return json.Marshal(j)
}

func (v *Val) UnmarshalJSON(raw []byte) error {
	var j valJSON
	if err := json.Unmarshal(raw, &j); err != nil {
		return err
	}
	*v = Val{j.K, j.N, j.S, j.L}
	if j.B != nil {
		v.S = string(j.B)
	}
	return nil
}

// Types of values.

type tValuer struct{ s string }

func (v tValuer) Value() (driver.Value, error) {
	callback()
	if len(v.s)%2 == 1 {
		inner()
	}
	return "drv:" + v.s, nil
}

type tPValuer struct{ s string }

func (v *tPValuer) Value() (driver.Value, error) {
	if v == nil {
		return "nil-handled", nil
	}
	callback()
	return "pdrv:" + v.s, nil
}

type tFail struct{ s string }

var errValuer = errors.New("valuer failed on purpose")

func (v tFail) Value() (driver.Value, error) { return nil, errValuer }

type tFailPartial struct{ s string }

func (v tFailPartial) Value() (driver.Value, error) { return "partial:" + v.s, errValuer }

// tFlaky fails on the calls chosen by the bits of its mask.
type tFlaky struct {
	s       string
	mask    int64
	calls   uint
	partial bool
}

func (v *tFlaky) Value() (driver.Value, error) {
	bad := v.mask>>(v.calls%8)&1 == 1
	v.calls++
	if bad && v.partial {
		return "partial:" + v.s, errValuer
	}
	if bad {
		return nil, errValuer
	}
	return "flaky:" + v.s, nil
}

type tStrArray []string

func (v tStrArray) Value() (driver.Value, error) {
	callback()
	return fmt.Sprintf("{%q}", []string(v)), nil
}

type tProvider struct{ s string }

func (v tProvider) DatabaseValue() interface{} {
	callback()
	if len(v.s)%2 == 1 {
		inner()
	}
	return "db:" + v.s
}

type tPProvider struct{ s string }

func (v *tPProvider) DatabaseValue() interface{} {
	callback()
	return "pdb:" + v.s
}

type tNilProvider struct{ s string }

func (v tNilProvider) DatabaseValue() interface{} { return nil }

type tListProvider []string

func (v tListProvider) DatabaseValue() interface{} { return fmt.Sprintf("list:%q", []string(v)) }

// valuers of kinds other than struct
type tFuncValuer func() string

func (v tFuncValuer) Value() (driver.Value, error) { callback(); return "func:" + v(), nil }

type tMapValuer map[string]int

func (v tMapValuer) Value() (driver.Value, error) { return fmt.Sprintf("map:%d", len(v)), nil }

type tEnumValuer int16

func (v tEnumValuer) Value() (driver.Value, error) { return fmt.Sprintf("enum:%d", int16(v)), nil }

type tEmbedValuer struct {
	tValuer
	note string
}

type tBytesValuer struct{ s string }

func (v tBytesValuer) Value() (driver.Value, error) { return []byte(v.s), nil }

type tNilValuer struct{ s string }

func (v tNilValuer) Value() (driver.Value, error) { return nil, nil }

type tAnyProvider struct{ v any }

func (v tAnyProvider) DatabaseValue() interface{} { return v.v }

type tStatus uint8
type tNamedStr string
type tStruct struct {
	A int64
	B string
}

// types an implementation might be tempted to translate

type errText2 string

func (e errText2) Error() string { return string(e) }

type tStringer struct{ s string }

func (v tStringer) String() string               { return "str:" + v.s }
func (v tStringer) MarshalText() ([]byte, error) { return []byte("text:" + v.s), nil }
func (v tStringer) MarshalJSON() ([]byte, error) { return []byte(`"json"`), nil }

type tTags []string // a named list
type tCodes [2]string
type tMarshaler struct{ s string }

func (v *tMarshaler) MarshalJSON() ([]byte, error)   { return []byte(`{"s":1}`), nil }
func (v *tMarshaler) MarshalBinary() ([]byte, error) { return []byte("bin:" + v.s), nil }
func (v *tMarshaler) GobEncode() ([]byte, error)     { return []byte("gob:" + v.s), nil }
func (v *tMarshaler) Scan(any) error                 { return nil }

// tQuoter has methods other libraries look for.
type tQuoter string

func (v tQuoter) SQL() string                   { return "DROP TABLE t" }
func (v tQuoter) ToSql() (string, []any, error) { return "now()", nil, nil }
func (v tQuoter) RenderSQL() string             { return "now()" }
func (v tQuoter) Render(int) string             { return "now()" }
func (v tQuoter) Values() []any                 { return nil }
func (v tQuoter) Interface() any                { return 5 }
func (v tQuoter) Get() any                      { return 5 }
func (v tQuoter) IsZero() bool                  { return true }
func (v tQuoter) IsNull() bool                  { return true }
func (v tQuoter) Len() int                      { return 0 }

type tUncomparable struct{ L []string }

type tIfaceValuer interface {
	driver.Valuer
}

// Go builds the value. Each call makes a new object, callers keep the result.
func (v Val) Go() any {
	switch v.K {
	case "nil":
		return nil
	case "int":
		return int(v.N)
	case "int64":
		return v.N
	case "int32":
		return int32(v.N)
	case "uint":
		return uint(v.N)
	case "float":
		return float64(v.N) + 0.5
	case "nan":
		return math.NaN()
	case "fspecial":
		return oddFloats[int(v.N)%len(oddFloats)]
	case "f32special":
		return float32(oddFloats[int(v.N)%len(oddFloats)])
	case "tspecial":
		return oddTimes[int(v.N)%len(oddTimes)]
	case "rawbytes":
		return sql.RawBytes(v.S)
	case "bigrat":
		return big.NewRat(v.N, 3)
	case "weekday":
		return time.Weekday(v.N)
	case "sqlout":
		return sql.Out{Dest: &v.S}
	case "errno":
		return syscall.Errno(v.N & 127)
	case "bool":
		return v.N%2 == 1
	case "string":
		return v.S
	case "named":
		return tNamedStr(v.S)
	case "fieldname":
		return query.FieldName(v.S)
	case "bytes":
		return []byte(v.S)
	case "rawjson":
		return json.RawMessage(v.S)
	case "time":
		return time.Unix(v.N, 0).UTC()
	case "ptr":
		x := v.N
		return &x
	case "nilptr":
		return (*int64)(nil)
	case "struct":
		return tStruct{v.N, v.S}
	case "pstruct":
		return &tStruct{v.N, v.S}
	case "map":
		return map[string]int64{v.S: v.N}
	case "pstring":
		x := v.S
		return &x
	case "nilpstring":
		return (*string)(nil)
	case "pbool":
		x := v.N%2 == 1
		return &x
	case "ptime":
		x := time.Unix(v.N, 0).UTC()
		return &x
	case "nilptime":
		return (*time.Time)(nil)
	case "nilpstruct":
		return (*tStruct)(nil)
	case "pstrings":
		return &[]string{v.S}
	case "pany":
		var x any = v.S
		return &x
	case "int8":
		return int8(v.N)
	case "int16":
		return int16(v.N)
	case "uint8":
		return uint8(v.N)
	case "uint16":
		return uint16(v.N)
	case "uint32":
		return uint32(v.N)
	case "uint64":
		return uint64(v.N)
	case "float32":
		return float32(v.N) + 0.25
	case "complex":
		return complex(float64(v.N), 1)
	case "duration":
		return time.Duration(v.N)
	case "rune":
		return 'r'
	case "uuid":
		return [16]byte{byte(v.N), byte(v.N >> 8), 7}
	case "error":
		return errText2(v.S)
	case "stringer":
		return tStringer{v.S}
	case "number":
		return json.Number(v.S)
	case "uncomparable":
		return tUncomparable{[]string{v.S}}
	case "nilbytes":
		return []byte(nil)
	case "nilmap":
		return map[string]int64(nil)
	case "nullint":
		return sql.NullInt64{Int64: v.N, Valid: v.N%2 == 0}
	case "tablename":
		return query.TableName(v.S)
	case "fielddef":
		return query.Field("f").As(query.FieldName(v.S))
	case "fieldvalue":
		return query.FieldName("f").Value(v.S)
	case "url":
		return url.URL{Scheme: "https", Host: "h", Path: v.S}
	case "purl":
		return &url.URL{Scheme: "https", Host: "h", Path: v.S}
	case "netip":
		return net.IP{10, 0, byte(v.N >> 8), byte(v.N)}
	case "bigint":
		return big.NewInt(v.N)
	case "namedarg":
		return sql.Named("arg", v.S)
	case "nulltime":
		return sql.NullTime{Time: time.Unix(v.N, 0).UTC(), Valid: v.N%2 == 0}
	case "nullbool":
		return sql.NullBool{Bool: v.N%4 == 0, Valid: v.N%2 == 0}
	case "nullfloat":
		return &sql.NullFloat64{Float64: float64(v.N), Valid: v.N%2 == 0}
	case "month":
		return time.Month(v.N%12 + 1)
	case "chan":
		return make(chan int, 1)
	case "buffer":
		return bytes.NewBufferString(v.S)
	case "marshaler":
		return &tMarshaler{v.S}
	case "quoter":
		return tQuoter(v.S)
	case "pp":
		x := &v.S
		return &x
	case "ploc":
		return time.Unix(v.N, 0).In(time.FixedZone("zone", 3600))
	case "status":
		return tStatus(v.N)
	case "valuer":
		return tValuer{v.S}
	case "valuerptr":
		return &tValuer{v.S}
	case "nilvaluerptr":
		return (*tValuer)(nil)
	case "pvaluer":
		return &tPValuer{v.S}
	case "nilpvaluer":
		return (*tPValuer)(nil)
	case "nullstring":
		return sql.NullString{String: v.S, Valid: true}
	case "nullstring0":
		return sql.NullString{String: v.S}
	case "fail":
		return tFail{v.S}
	case "failpartial":
		return tFailPartial{v.S}
	case "flaky":
		return &tFlaky{s: v.S, mask: v.N}
	case "flakypartial":
		return &tFlaky{s: v.S, mask: v.N, partial: true}
	case "strarray":
		return tStrArray{v.S, "x"}
	case "provider":
		return tProvider{v.S}
	case "pprovider":
		return &tPProvider{v.S}
	case "nilprovider":
		return tNilProvider{v.S}
	case "listprovider":
		return tListProvider{v.S, "y"}
	case "funcvaluer":
		return tFuncValuer(func() string { return v.S })
	case "mapvaluer":
		return tMapValuer{v.S: 1}
	case "nilmapvaluer":
		return tMapValuer(nil)
	case "nilstrarray":
		return tStrArray(nil)
	case "enumvaluer":
		return tEnumValuer(v.N)
	case "embedvaluer":
		return tEmbedValuer{tValuer{v.S}, "n"}
	case "bytesvaluer":
		return tBytesValuer{v.S}
	case "voidvaluer":
		return tNilValuer{v.S}
	case "providerbytes":
		return tAnyProvider{[]byte(v.S)}
	case "[2]valuer":
		return [2]tValuer{{v.S}, {v.S + "-"}}
	case "[2]provider":
		return [2]query.ValueProvider{tProvider{v.S}, &tPProvider{v.S}}
	case "[]enumvaluer":
		return listOf[tEnumValuer](v)
	case "[]strarray":
		return listOf[tStrArray](v)
	case "[]funcvaluer":
		return listOf[tFuncValuer](v)
	case "[]string":
		return listOf[string](v)
	case "[]named":
		return listOf[tNamedStr](v)
	case "[]fieldname":
		return listOf[query.FieldName](v)
	case "[]int":
		return listOf[int](v)
	case "[]int64":
		return listOf[int64](v)
	case "[]float":
		return listOf[float64](v)
	case "[]bool":
		return listOf[bool](v)
	case "[]time":
		return listOf[time.Time](v)
	case "[]status":
		return listOf[tStatus](v)
	case "[][]byte":
		return listOf[[]byte](v)
	case "[]struct":
		return listOf[tStruct](v)
	case "[]pstring":
		return listOf[*string](v)
	case "[]uuid":
		return listOf[[16]byte](v)
	case "[]uint64":
		return listOf[uint64](v)
	case "[]float32":
		return listOf[float32](v)
	case "[]stringer":
		return listOf[tStringer](v)
	case "tags":
		return tTags(listOf[string](v))
	case "[]month":
		return listOf[time.Month](v)
	case "[]duration":
		return listOf[time.Duration](v)
	case "[]netip":
		return listOf[net.IP](v)
	case "[]rawjson":
		return listOf[json.RawMessage](v)
	case "[]bigint":
		return listOf[*big.Int](v)
	case "[]map":
		return listOf[map[string]int64](v)
	case "[]error":
		return listOf[error](v)
	case "[]Stringer":
		return listOf[fmt.Stringer](v)
	case "[]quoter":
		return listOf[tQuoter](v)
	case "[]pint":
		return listOf[*int64](v)
	case "[][]string":
		return listOf[[]string](v)
	case "[]int32":
		return listOf[int32](v)
	case "[]uint":
		return listOf[uint](v)
	case "[]int8":
		return listOf[int8](v)
	case "[2]string":
		return [2]string{v.S, v.S + "-"}
	case "codes":
		return tCodes{v.S + "-", v.S}
	case "[0]int":
		return [0]int{}
	case "[2]any":
		return [2]any{int(v.N), v.S}
	case "[]any":
		return listOf[any](v)
	case "[]Valuer":
		return listOf[driver.Valuer](v)
	case "[]IfaceValuer":
		return listOf[tIfaceValuer](v)
	case "[]valuer":
		return listOf[tValuer](v)
	case "[]valuerptr":
		return listOf[*tValuer](v)
	case "[]fail":
		return listOf[tFail](v)
	case "[]flaky":
		return listOf[*tFlaky](v)
	case "[]Provider":
		return listOf[query.ValueProvider](v)
	case "[]provider":
		return listOf[tProvider](v)
	case "n[]int", "n[]string", "n[]any":
		return v.sequence()
	case "nil[]string":
		return []string(nil)
	case "nil[]int":
		return []int(nil)
	case "[3]int":
		return [3]int{int(v.N), int(v.N) + 1, int(v.N) + 2}
	}
	panic("unknown value kind " + v.K)
}

// sequence is a list of N distinct elements; S keeps lists of a case apart.
func (v Val) sequence() any {
	switch v.K {
	case "n[]int":
		res := make([]int, v.N)
		for i := range res {
			res[i] = i + 1000*len(v.S)
		}
		return res
	case "n[]string":
		res := make([]string, v.N)
		for i := range res {
			res[i] = fmt.Sprintf("e%s.%d", v.S, i)
		}
		return res
	}
	res := make([]any, v.N)
	for i := range res {
		if res[i] = i; i%3 == 1 {
			res[i] = fmt.Sprintf("e%s.%d", v.S, i)
		}
	}
	return res
}

func listOf[T any](v Val) []T {
	res := make([]T, len(v.L))
	for i := range v.L {
		x := v.L[i].Go()
		if x != nil {
			res[i] = x.(T)
		}
	}
	return res
}

// elemKind tells which kinds of elements a list kind holds.
var elemKind = map[string][]string{
	"[]string":      {"string"},
	"[]named":       {"named"},
	"[]fieldname":   {"fieldname"},
	"[]int":         {"int"},
	"[]int64":       {"int64"},
	"[]float":       {"float", "fspecial"},
	"[]bool":        {"bool"},
	"[]time":        {"time", "tspecial"},
	"[]status":      {"status"},
	"[][]byte":      {"bytes"},
	"[]struct":      {"struct"},
	"[]pstring":     {"pstring", "nilpstring"},
	"[]uuid":        {"uuid"},
	"[]uint64":      {"uint64"},
	"[]float32":     {"float32", "f32special"},
	"[]stringer":    {"stringer"},
	"[]any":         {"int", "string", "nil", "float", "bytes", "valuer", "provider", "time", "valuerptr", "pprovider", "bool", "pstring", "nilpstring", "uuid", "stringer", "uncomparable", "nilptr", "enumvaluer", "funcvaluer", "strarray"},
	"[]Valuer":      {"valuer", "pvaluer", "nullstring", "nilvaluerptr", "nil", "nullstring0", "strarray", "nilstrarray", "funcvaluer", "enumvaluer", "embedvaluer", "voidvaluer", "nilmapvaluer"},
	"[]IfaceValuer": {"valuer", "pvaluer", "nullstring", "nil"},
	"[]valuer":      {"valuer"},
	"[]valuerptr":   {"valuerptr", "nilvaluerptr"},
	"[]Provider":    {"provider", "pprovider", "nilprovider"},
	"[]provider":    {"provider"},
	"tags":          {"string"},
	"[]month":       {"month"},
	"[]duration":    {"duration"},
	"[]netip":       {"netip"},
	"[]rawjson":     {"rawjson"},
	"[]bigint":      {"bigint"},
	"[]map":         {"map"},
	"[]error":       {"error", "nil"},
	"[]Stringer":    {"stringer", "netip", "month", "bigint", "duration", "nil"},
	"[]quoter":      {"quoter"},
	"[]pint":        {"ptr", "nilptr"},
	"[][]string":    {"[]string", "nil[]string"},
	"[]int32":       {"int32", "rune"},
	"[]uint":        {"uint"},
	"[]int8":        {"int8"},
	"[]enumvaluer":  {"enumvaluer"},
	"[]strarray":    {"strarray", "nilstrarray"},
	"[]funcvaluer":  {"funcvaluer"},
	"[]fail":        {"fail"},
	"[]flaky":       {"flaky"},
}

var listKinds = []string{"[]string", "[]named", "[]fieldname", "[]int", "[]int64", "[]float", "[]bool", "[]time", "[]status", "[][]byte", "[]struct", "[]pstring", "[]uuid", "[]uint64", "[]float32", "[]stringer", "[]any", "[]Valuer", "[]IfaceValuer", "[]valuer", "[]valuerptr", "[]Provider", "[]provider", "tags", "[]month", "[]duration", "[]netip", "[]rawjson", "[]bigint", "[]map", "[]error", "[]Stringer", "[]quoter", "[]pint", "[][]string", "[]int32", "[]uint", "[]int8", "[]enumvaluer", "[]strarray", "[]funcvaluer"}

// arrayKinds are lists of a fixed length.
var arrayKinds = map[string]int{"[3]int": 3, "[2]string": 2, "codes": 2, "[0]int": 0, "[2]any": 2, "[2]valuer": 2, "[2]provider": 2}

var scalarKinds = []string{"int", "string", "int64", "int32", "uint", "float", "bool", "nil", "named", "fieldname", "bytes", "rawjson", "time", "ptr", "nilptr", "struct", "pstruct", "map", "status", "valuer", "valuerptr", "nilvaluerptr", "pvaluer", "nilpvaluer", "nullstring", "nullstring0", "strarray", "provider", "pprovider", "nilprovider", "listprovider", "nan", "fspecial", "f32special", "tspecial", "rawbytes", "bigrat", "weekday", "sqlout", "errno", "pstring", "nilpstring", "pbool", "ptime", "nilptime", "nilpstruct", "pstrings", "pany", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "float32", "complex", "duration", "rune", "uuid", "error", "stringer", "number", "uncomparable", "nilbytes", "nilmap", "nullint", "tablename", "fielddef", "fieldvalue", "url", "purl", "netip", "bigint", "namedarg", "nulltime", "nullbool", "nullfloat", "month", "chan", "buffer", "marshaler", "quoter", "pp", "ploc", "funcvaluer", "mapvaluer", "nilmapvaluer", "nilstrarray", "enumvaluer", "embedvaluer", "bytesvaluer", "voidvaluer", "providerbytes"}

func isListKind(k string) bool {
	_, array := arrayKinds[k]
	return elemKind[k] != nil || k == "nil[]string" || k == "nil[]int" || array
}

// scalarOf is the parameter expected where exactly one is bound. g is the built value.
func (v Val) scalarOf(g any) any {
	switch v.K {
	case "valuer", "valuerptr":
		return "drv:" + v.S
	case "pvaluer":
		return "pdrv:" + v.S
	case "nilvaluerptr":
		return nil
	case "nilpvaluer":
		return "nil-handled"
	case "nullstring":
		return v.S
	case "nullstring0":
		return nil
	case "nullint":
		if v.N%2 != 0 {
			return nil
		}
		return v.N
	case "nulltime":
		if v.N%2 != 0 {
			return nil
		}
		return time.Unix(v.N, 0).UTC()
	case "nullbool":
		if v.N%2 != 0 {
			return nil
		}
		return v.N%4 == 0
	case "nullfloat":
		if v.N%2 != 0 {
			return nil
		}
		return float64(v.N)
	case "strarray":
		return fmt.Sprintf("{%q}", []string{v.S, "x"})
	case "provider":
		return "db:" + v.S
	case "pprovider":
		return "pdb:" + v.S
	case "nilprovider":
		return nil
	case "listprovider":
		return fmt.Sprintf("list:%q", []string{v.S, "y"})
	case "funcvaluer":
		return "func:" + v.S
	case "mapvaluer":
		return "map:1"
	case "nilmapvaluer":
		return "map:0"
	case "nilstrarray":
		return "{[]}"
	case "enumvaluer":
		return fmt.Sprintf("enum:%d", int16(v.N))
	case "embedvaluer":
		return "drv:" + v.S
	case "bytesvaluer":
		return []byte(v.S)
	case "voidvaluer":
		return nil
	case "providerbytes":
		return g.(tAnyProvider).v
	}
	return g
}

// listOfParams are parameters expected where a list of values is bound.
func (v Val) listOfParams(g any) []any {
	switch {
	case elemKind[v.K] != nil:
		res := make([]any, len(v.L))
		rv := reflect.ValueOf(g)
		for i := range v.L {
			res[i] = v.L[i].scalarOf(rv.Index(i).Interface())
		}
		return res
	case v.K == "nil[]string" || v.K == "nil[]int":
		return []any{}
	case v.K == "[2]valuer":
		return []any{"drv:" + v.S, "drv:" + v.S + "-"}
	case v.K == "[2]provider":
		return []any{"db:" + v.S, "pdb:" + v.S}
	case isListKind(v.K): // arrays
		rv := reflect.ValueOf(g)
		res := make([]any, rv.Len())
		for i := range res {
			res[i] = rv.Index(i).Interface()
		}
		return res
	case v.K == "n[]int" || v.K == "n[]string" || v.K == "n[]any":
		rv := reflect.ValueOf(g)
		res := make([]any, rv.Len())
		for i := range res {
			res[i] = rv.Index(i).Interface()
		}
		return res
	}
	return []any{v.scalarOf(g)}
}

// sameVal tells whether two bound parameters are the same value: type, content and identity of pointers.
func sameVal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if ra.Type() != rb.Type() {
		return false
	}
	switch ra.Kind() {
	case reflect.Pointer:
		return ra.Pointer() == rb.Pointer()
	case reflect.Float64, reflect.Float32:
		return math.Float64bits(ra.Float()) == math.Float64bits(rb.Float()) || (math.IsNaN(ra.Float()) && math.IsNaN(rb.Float()))
	}
	return reflect.DeepEqual(a, b)
}

// valText is a text that identifies a bound parameter.
func valText(a any) string {
	if a == nil {
		return "NULL"
	}
	switch t := a.(type) {
	case int, string, int64, uint:
		return fmt.Sprintf("%T:%#v", t, t)
	case tFail:
		return "fail:" + t.s
	}
	rv := reflect.ValueOf(a)
	if rv.Kind() == reflect.Pointer && rv.IsNil() {
		return fmt.Sprintf("%T:nil", a)
	}
	if rv.Kind() == reflect.Pointer {
		return fmt.Sprintf("%T:%p", a, a)
	}
	return fmt.Sprintf("%T:%#v", a, a)
}

func showParams(ps []any) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(valText(p))
	}
	return "[" + b.String() + "]"
}

func sameParams(want, got []any) error {
	if len(want) != len(got) {
		return fmt.Errorf("expected %d parameters %s, got %d: %s", len(want), showParams(want), len(got), showParams(got))
	}
	for i := range want {
		if !sameVal(want[i], got[i]) {
			return fmt.Errorf("parameter #%d: expected %s, got %s (all: %s)", i+1, valText(want[i]), valText(got[i]), showParams(got))
		}
	}
	return nil
}

// Generators. ids makes contents unique inside of a case.

type ids struct {
	n   int64
	rep int // names of large programs repeat after as many, if set
}

func (x *ids) next() int64 { x.n++; return x.n }

var hostile = []string{"'", "\"", "$1", "?", "--", ";", "/*", "*/", "' OR '1'='1", "%", "_", "\\", "\x00", "\n", " AND ", ")", "(", ",", "SELECT", "%s", "%d", "é", "日本", "\u00a0", "$99", "NULL", "\xff", ""}

func genText(t *rapid.T, x *ids) string {
	s := fmt.Sprintf("v%d", x.next())
	if rapid.IntRange(0, 11).Draw(t, "edge?") == 0 {
		return rapid.SampledFrom(edgeTexts).Draw(t, "edge")
	}
	if rapid.IntRange(0, 99).Draw(t, "long?") == 0 {
		return strings.Repeat(s+rapid.SampledFrom(hostile).Draw(t, "h1"), rapid.IntRange(2, 300).Draw(t, "long"))
	}
	switch rapid.IntRange(0, 5).Draw(t, "hostile") {
	case 2:
		if rapid.IntRange(0, 2).Draw(t, "random") == 0 {
			s += rapid.StringN(1, 8, -1).Draw(t, "tail")
		}
	case 0, 1:
		s = rapid.SampledFrom(hostile).Draw(t, "h1") + s + rapid.SampledFrom(hostile).Draw(t, "h2")
	}
	return s
}

var oddFloats = []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 0, 1, -1, 3, 0.1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1 << 53, math.MaxUint32, 1e-7}

var oddTimes = []time.Time{
	{}, time.Unix(0, 0), time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2020, 2, 29, 12, 0, 0, 123456789, time.FixedZone("X", 3600)), time.Date(2020, 2, 29, 0, 0, 0, 0, time.FixedZone("", -12345)),
	time.Date(2020, 2, 29, 0, 0, 0, 0, time.Local), time.Date(1970, 1, 1, 0, 0, 0, 0, time.FixedZone("UTC", 0)),
}

// edgeNums and edgeTexts are contents an implementation might treat specially.
var edgeNums = []int64{0, 1, -1, 2, 10, 100, 127, 128, 255, 256, 999, 1000, 32767, 65535, 1 << 31, 1<<31 - 1, 1 << 53, math.MaxInt64, math.MinInt64, -2}
var edgeTexts = []string{"", " ", "0", "1", "-1", "true", "false", "t", "NULL", "null", "nil", "DEFAULT", "now()", "CURRENT_TIMESTAMP", "%", "%%", "_", "\\", "a\\b", "\\%", "'", "''", "*", "?", "$1", "$$", "{}", "[]", "{1,2}", "a,b", "a b", " a ", "a%b", "50%", "a\xff", "\xc3", "\xed\xa0\x80", "na\xefve", "x'", "é", "\x00", "\n", "a\tb", "İı", "ſ", "K", "Straße", "1e10", "0x1F", "2020-01-01", "a.b", "t.a AS b", "NaN", "Infinity", "(", ")"}

func genScalarOfKind(t *rapid.T, x *ids, k string) Val {
	v := Val{K: k}
	switch k {
	case "nil", "nilptr", "nilvaluerptr", "nilpvaluer", "nan", "nilpstring", "nilptime", "nilpstruct", "nilbytes", "nilmap", "rune", "chan", "nil[]string", "nilmapvaluer", "nilstrarray":
		return v
	case "bool", "pbool":
		v.N = int64(rapid.IntRange(0, 1).Draw(t, "b"))
		return v
	case "int", "int64", "int32", "float", "time", "ptr", "ptime", "duration", "complex", "float32", "int16", "int8", "nullint", "bigint", "nulltime", "nullbool", "nullfloat", "month", "ploc":
		v.N = x.next()
		switch rapid.IntRange(0, 9).Draw(t, "neg") {
		case 0:
			v.N = -v.N
		case 1:
			v.N = rapid.SampledFrom(edgeNums).Draw(t, "edge")
		}
		return v
	case "fspecial", "f32special", "tspecial":
		v.N = int64(rapid.IntRange(0, 15).Draw(t, "odd"))
		return v
	case "bigrat", "weekday", "errno", "enumvaluer":
		v.N = x.next()
		return v
	case "uint", "uint8", "uint16", "uint32", "uint64", "uuid", "status", "netip":
		v.N = x.next()
		if rapid.IntRange(0, 9).Draw(t, "edge?") == 0 {
			v.N = rapid.SampledFrom(edgeNums).Draw(t, "edge")
		}
		if k == "status" {
			v.N &= 255
		}
		return v
	case "struct", "pstruct", "map":
		v.N = x.next()
	}
	v.S = genText(t, x)
	return v
}

// genScalar draws a value for a place with one parameter; simple kinds are preferred.
func genScalar(t *rapid.T, x *ids) Val {
	if rapid.IntRange(0, 3).Draw(t, "simple") != 0 {
		return genScalarOfKind(t, x, rapid.SampledFrom([]string{"int", "string"}).Draw(t, "k"))
	}
	if rapid.IntRange(0, 4).Draw(t, "listval") == 0 {
		return genList(t, x, 3)
	}
	return genScalarOfKind(t, x, rapid.SampledFrom(scalarKinds).Draw(t, "k"))
}

func genListLen(t *rapid.T, max int) int {
	if rapid.IntRange(0, 400).Draw(t, "verywide") == 0 {
		return rapid.IntRange(0, 150).Draw(t, "len")
	}
	if rapid.IntRange(0, 30).Draw(t, "wide") == 0 {
		return rapid.IntRange(0, 3*max).Draw(t, "len")
	}
	return rapid.IntRange(0, max).Draw(t, "len")
}

func genListOfLen(t *rapid.T, x *ids, n int) Val {
	k := rapid.SampledFrom(listKinds).Draw(t, "lk")
	v := Val{K: k}
	for i := 0; i < n; i++ {
		v.L = append(v.L, genElem(t, x, v.L, rapid.SampledFrom(elemKind[k]).Draw(t, "ek")))
	}
	return v
}

// genElem draws an element of a list, now and then the same as an earlier one.
func genElem(t *rapid.T, x *ids, before []Val, k string) Val {
	if k == "[]string" {
		v := Val{K: k}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "inner"); i < n; i++ {
			v.L = append(v.L, genScalarOfKind(t, x, "string"))
		}
		return v
	}
	if len(before) > 0 && rapid.IntRange(0, 5).Draw(t, "again") == 0 {
		return before[rapid.IntRange(0, len(before)-1).Draw(t, "which")]
	}
	return genScalarOfKind(t, x, k)
}

func genList(t *rapid.T, x *ids, max int) Val { return genListOfLen(t, x, genListLen(t, max)) }

// genInVal draws a value for In.
func genInVal(t *rapid.T, x *ids) Val {
	switch rapid.IntRange(0, 9).Draw(t, "inkind") {
	case 0:
		return genScalarOfKind(t, x, rapid.SampledFrom(scalarKinds).Draw(t, "k"))
	case 1:
		return Val{K: rapid.SampledFrom([]string{"nil[]string", "nil[]int", "[3]int", "[2]string", "codes", "[0]int", "[2]any", "[2]valuer", "[2]provider"}).Draw(t, "k"), N: x.next(), S: genText(t, x)}
	case 2, 3, 4:
		v := Val{K: "[]string"}
		for i, n := 0, genListLen(t, 5); i < n; i++ {
			v.L = append(v.L, genElem(t, x, v.L, "string"))
		}
		return v
	}
	return genList(t, x, 5)
}
