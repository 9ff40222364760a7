package spec

import (
	"fmt"
	"math"
	"strings"
)

// Kind is the number of a type kind in the ORC footer.
type Kind int

const (
	BOOLEAN Kind = iota
	BYTE
	SHORT
	INT
	LONG
	FLOAT
	DOUBLE
	STRING
	BINARY
	TIMESTAMP
	LIST
	MAP
	STRUCT
	UNION
	DECIMAL
	DATE
	VARCHAR
	CHAR
)

var kindNames = []string{"bool", "byte", "short", "int", "long", "float", "double", "string", "binary", "timestamp",
	"list", "map", "struct", "union", "decimal", "date", "varchar", "char"}

func (k Kind) String() string {
	if int(k) < len(kindNames) {
		return kindNames[k]
	}
	return fmt.Sprint(int(k))
}

// Type is a node of a schema.
type Type struct {
	Kind     Kind
	Names    []string // of the children of a struct
	Kids     []*Type
	Nullable bool
	Dict     bool // dictionary encoded strings
	ID       int
	Size     int // number of ids of the subtree
}

func T(k Kind, kids ...*Type) *Type {
	t := &Type{Kind: k, Kids: kids}
	if k == STRUCT {
		for i := range kids {
			t.Names = append(t.Names, fmt.Sprintf("c%d", i))
		}
	}
	return t
}

// Null returns a nullable copy of t.
func (t *Type) Null() *Type { c := *t; c.Nullable = true; return &c }

func (t *Type) WithDict() *Type { c := *t; c.Dict = true; return &c }

// Number sets the ids in pre-order and returns t.
func (t *Type) Number() *Type {
	next := 0
	var walk func(*Type)
	walk = func(x *Type) {
		x.ID = next
		next++
		for _, k := range x.Kids {
			walk(k)
		}
		x.Size = next - x.ID
	}
	walk(t)
	return t
}

// Clone is a deep copy, numbered anew.
func (t *Type) Clone() *Type {
	var cp func(*Type) *Type
	cp = func(x *Type) *Type {
		c := *x
		c.Names = append([]string(nil), x.Names...)
		c.Kids = nil
		for _, k := range x.Kids {
			c.Kids = append(c.Kids, cp(k))
		}
		return &c
	}
	return cp(t).Number()
}

// Flat lists the types in pre-order.
func (t *Type) Flat() (l []*Type) {
	l = append(l, t)
	for _, k := range t.Kids {
		l = append(l, k.Flat()...)
	}
	return
}

func (t *Type) String() string {
	s := t.Kind.String()
	if t.Dict {
		s += "/dict"
	}
	if t.Nullable {
		s += "?"
	}
	if len(t.Kids) > 0 || t.Kind == STRUCT {
		var p []string
		for _, k := range t.Kids {
			p = append(p, k.String())
		}
		s += "<" + strings.Join(p, ",") + ">"
	}
	return s
}

// SameShape compares kinds, field names and nesting.
func (t *Type) SameShape(o *Type) bool {
	if t.Kind != o.Kind || len(t.Kids) != len(o.Kids) || len(t.Names) != len(o.Names) || t.ID != o.ID {
		return false
	}
	for i := range t.Names {
		if t.Names[i] != o.Names[i] {
			return false
		}
	}
	for i := range t.Kids {
		if !t.Kids[i].SameShape(o.Kids[i]) {
			return false
		}
	}
	return true
}

// Val is a value: nil (null), bool, int64 (byte, short, int, long, date in days),
// F32, F64, string, Bin, Dec, TS, S (struct), L (list), M (map), Absent (column not requested).
type Val interface{}
type F32 uint32
type F64 uint64
type Bin string
type Dec struct {
	U int64
	S int
}
type TS struct {
	Sec  int64
	Nano uint64
}
type S []Val
type L []Val
type M [][2]Val
type Absent struct{}

func Float(f float64) F64   { return F64(math.Float64bits(f)) }
func Float32(f float32) F32 { return F32(math.Float32bits(f)) }

func Equal(a, b Val) bool {
	switch x := a.(type) {
	case S:
		y, ok := b.(S)
		return ok && equalList(x, y)
	case L:
		y, ok := b.(L)
		return ok && equalList(x, y)
	case M:
		y, ok := b.(M)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i][0], y[i][0]) || !Equal(x[i][1], y[i][1]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case S, L, M:
		return false
	}
	return a == b
}

func equalList(x, y []Val) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !Equal(x[i], y[i]) {
			return false
		}
	}
	return true
}

// Show prints a value compactly.
func Show(v Val) string {
	switch x := v.(type) {
	case nil:
		return "~"
	case Absent:
		return "-"
	case F32:
		return fmt.Sprintf("f%08x", uint32(x))
	case F64:
		return fmt.Sprintf("d%016x", uint64(x))
	case string:
		if len(x) > 40 {
			return fmt.Sprintf("%q..(%d)", x[:16], len(x))
		}
		return fmt.Sprintf("%q", x)
	case Bin:
		if len(x) > 40 {
			return fmt.Sprintf("x%x..(%d)", string(x[:16]), len(x))
		}
		return fmt.Sprintf("x%x", string(x))
	case Dec:
		return fmt.Sprintf("%de-%d", x.U, x.S)
	case TS:
		return fmt.Sprintf("%ds%dn", x.Sec, x.Nano)
	case S:
		return "(" + ShowAll(x) + ")"
	case L:
		return "[" + ShowAll(x) + "]"
	case M:
		var p []string
		for _, e := range x {
			p = append(p, Show(e[0])+":"+Show(e[1]))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprint(v)
}

func ShowAll(x []Val) string {
	var p []string
	for i := 0; i < len(x); {
		j := i
		for j < len(x) && Equal(x[i], x[j]) {
			j++
		}
		s := Show(x[i])
		if j-i > 1 {
			s += fmt.Sprintf("*%d", j-i)
		}
		p = append(p, s)
		i = j
		if len(p) > 40 {
			p = append(p, fmt.Sprintf("..(%d)", len(x)))
			break
		}
	}
	return strings.Join(p, " ")
}

// Project keeps the values of the included columns (nil: all), others become Absent.
func Project(t *Type, v Val, inc func(id int) bool) Val {
	if !inc(t.ID) {
		return Absent{}
	}
	switch x := v.(type) {
	case S:
		o := make(S, len(x))
		for i := range x {
			o[i] = Project(t.Kids[i], x[i], inc)
		}
		return o
	case L:
		o := make(L, len(x))
		for i := range x {
			o[i] = Project(t.Kids[0], x[i], inc)
		}
		return o
	case M:
		o := make(M, len(x))
		for i := range x {
			o[i] = [2]Val{Project(t.Kids[0], x[i][0], inc), Project(t.Kids[1], x[i][1], inc)}
		}
		return o
	}
	return v
}
