// Package simjs stands in for syscall/js: JavaScript values held in Go, with the
// conversions and panics of the real package.
package simjs

import (
	"fmt"
	"math"
	"strconv"
)

// Type is the JavaScript type of a Value.
type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

func (t Type) String() string {
	switch t {
	case TypeUndefined:
		return "undefined"
	case TypeNull:
		return "null"
	case TypeBoolean:
		return "boolean"
	case TypeNumber:
		return "number"
	case TypeString:
		return "string"
	case TypeSymbol:
		return "symbol"
	case TypeObject:
		return "object"
	case TypeFunction:
		return "function"
	default:
		panic("bad type")
	}
}

func (t Type) isObject() bool { return t == TypeObject || t == TypeFunction }

type object struct {
	props map[string]Value
	arr   []Value
	isArr bool
	fn    func(this Value, args []Value) any
	throw map[string]bool // getters that throw
}

// Value is a JavaScript value.
type Value struct {
	t Type
	b bool
	n float64
	s string
	o *object
}

// Func is a Go function callable from JavaScript.
type Func struct {
	Value
}

// Release frees the function.
func (c Func) Release() {}

// Error wraps a JavaScript error.
type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

// ValueError is the panic of ill-typed calls.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

var global = Value{t: TypeObject, o: &object{props: map[string]Value{}}}

// Reset empties the global object.
func Reset() { global.o = &object{props: map[string]Value{}} }

func Global() Value    { return global }
func Undefined() Value { return Value{} }
func Null() Value      { return Value{t: TypeNull} }

// NewObject makes an object.
func NewObject() Value { return Value{t: TypeObject, o: &object{props: map[string]Value{}}} }

// NewArray makes an array.
func NewArray(v ...Value) Value {
	return Value{t: TypeObject, o: &object{isArr: true, arr: v, props: map[string]Value{}}}
}

// Symbol makes a symbol.
func Symbol(s string) Value { return Value{t: TypeSymbol, s: s} }

// SetThrow makes a getter throw.
func (v Value) SetThrow(p string) {
	if v.o.throw == nil {
		v.o.throw = map[string]bool{}
	}
	v.o.throw[p] = true
}

func FuncOf(fn func(this Value, args []Value) any) Func {
	return Func{Value{t: TypeFunction, o: &object{props: map[string]Value{}, fn: fn}}}
}

func num(f float64) Value { return Value{t: TypeNumber, n: f} }

// ValueOf converts a Go value.
func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	case nil:
		return Null()
	case bool:
		return Value{t: TypeBoolean, b: x}
	case int:
		return num(float64(x))
	case int8:
		return num(float64(x))
	case int16:
		return num(float64(x))
	case int32:
		return num(float64(x))
	case int64:
		return num(float64(x))
	case uint:
		return num(float64(x))
	case uint8:
		return num(float64(x))
	case uint16:
		return num(float64(x))
	case uint32:
		return num(float64(x))
	case uint64:
		return num(float64(x))
	case uintptr:
		return num(float64(x))
	case float32:
		return num(float64(x))
	case float64:
		return num(x)
	case string:
		return Value{t: TypeString, s: x}
	case []any:
		a := make([]Value, len(x))
		for i, e := range x {
			a[i] = ValueOf(e)
		}
		return NewArray(a...)
	case map[string]any:
		o := NewObject()
		for k, e := range x {
			o.o.props[k] = ValueOf(e)
		}
		return o
	default:
		panic("ValueOf: invalid value")
	}
}

func (v Value) Type() Type        { return v.t }
func (v Value) IsUndefined() bool { return v.t == TypeUndefined }
func (v Value) IsNull() bool      { return v.t == TypeNull }
func (v Value) IsNaN() bool       { return v.t == TypeNumber && math.IsNaN(v.n) }
func (v Value) Equal(w Value) bool {
	if v.t != w.t {
		return false
	}
	switch v.t {
	case TypeBoolean:
		return v.b == w.b
	case TypeNumber:
		return v.n == w.n
	case TypeString, TypeSymbol:
		return v.s == w.s
	case TypeObject, TypeFunction:
		return v.o == w.o
	}
	return true
}

func (v Value) Get(p string) Value {
	if !v.t.isObject() {
		panic(&ValueError{"Value.Get", v.t})
	}
	if v.o.throw[p] {
		panic(Error{ValueOf(map[string]any{"message": "getter failed"})})
	}
	if v.o.isArr && p == "length" {
		return num(float64(len(v.o.arr)))
	}
	return v.o.props[p]
}

func (v Value) Set(p string, x any) {
	if !v.t.isObject() {
		panic(&ValueError{"Value.Set", v.t})
	}
	v.o.props[p] = ValueOf(x)
}

func (v Value) Delete(p string) {
	if !v.t.isObject() {
		panic(&ValueError{"Value.Delete", v.t})
	}
	delete(v.o.props, p)
}

func (v Value) Index(i int) Value {
	if !v.t.isObject() {
		panic(&ValueError{"Value.Index", v.t})
	}
	if v.o.isArr && i >= 0 && i < len(v.o.arr) {
		return v.o.arr[i]
	}
	return v.o.props[strconv.Itoa(i)]
}

func (v Value) SetIndex(i int, x any) {
	if !v.t.isObject() {
		panic(&ValueError{"Value.SetIndex", v.t})
	}
	for v.o.isArr && len(v.o.arr) <= i {
		v.o.arr = append(v.o.arr, Value{})
	}
	if v.o.isArr {
		v.o.arr[i] = ValueOf(x)
		return
	}
	v.o.props[strconv.Itoa(i)] = ValueOf(x)
}

func (v Value) Length() int {
	if !v.t.isObject() {
		panic(&ValueError{"Value.SetIndex", v.t})
	}
	if v.o.isArr {
		return len(v.o.arr)
	}
	return int(v.o.props["length"].n)
}

func (v Value) Call(m string, args ...any) Value {
	f := v.Get(m)
	if f.t != TypeFunction {
		panic(&ValueError{"Value.Call", f.t})
	}
	return f.invoke(v, args)
}

func (v Value) Invoke(args ...any) Value {
	if v.t != TypeFunction {
		panic(&ValueError{"Value.Invoke", v.t})
	}
	return v.invoke(Undefined(), args)
}

func (v Value) New(args ...any) Value { return NewObject() }

func (v Value) invoke(this Value, args []any) Value {
	a := make([]Value, len(args))
	for i, x := range args {
		a[i] = ValueOf(x)
	}
	return ValueOf(v.o.fn(this, a))
}

func (v Value) Float() float64 {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Float", v.t})
	}
	return v.n
}

func (v Value) Int() int {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Int", v.t})
	}
	return int(v.n)
}

func (v Value) Bool() bool {
	if v.t != TypeBoolean {
		panic(&ValueError{"Value.Bool", v.t})
	}
	return v.b
}

func (v Value) Truthy() bool {
	switch v.t {
	case TypeUndefined, TypeNull:
		return false
	case TypeBoolean:
		return v.b
	case TypeNumber:
		return !math.IsNaN(v.n) && v.n != 0
	case TypeString:
		return v.s != ""
	}
	return true
}

func (v Value) InstanceOf(Value) bool { return false }

func (v Value) String() string {
	switch v.t {
	case TypeString:
		return v.s
	case TypeUndefined:
		return "<undefined>"
	case TypeNull:
		return "<null>"
	case TypeBoolean:
		return "<boolean: " + strconv.FormatBool(v.b) + ">"
	case TypeNumber:
		return "<number: " + strconv.FormatFloat(v.n, 'g', -1, 64) + ">"
	case TypeSymbol:
		return "<symbol>"
	case TypeObject:
		return "<object>"
	case TypeFunction:
		return "<function>"
	default:
		panic("bad type")
	}
}

// CopyBytesToGo copies from a byte array.
func CopyBytesToGo(dst []byte, src Value) int {
	n := 0
	for i := 0; i < len(dst) && i < src.Length(); i++ {
		dst[i] = byte(src.Index(i).n)
		n++
	}
	return n
}

// CopyBytesToJS copies to a byte array.
func CopyBytesToJS(dst Value, src []byte) int {
	for i, b := range src {
		dst.SetIndex(i, int(b))
	}
	return len(src)
}

// GoString renders v for reports.
func (v Value) GoString() string {
	if v.t.isObject() {
		return fmt.Sprint(v.o.props)
	}
	return v.String()
}
