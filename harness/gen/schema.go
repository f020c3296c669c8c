// Package gen enumerates telemetry messages.
package gen

import (
	"fmt"
	"math"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Path is a field path from v1.Data to a leaf: a scalar, an AnyValue, or a
// message that is left empty.
type Path struct {
	Fields []protoreflect.FieldDescriptor
	Leaf   bool // false: the message at the end is set and left empty
}

func (p Path) String() string {
	var s []string
	for _, f := range p.Fields {
		s = append(s, string(f.Name()))
	}
	n := strings.Join(s, ".")
	if !p.Leaf {
		n += "{}"
	}
	return n
}

var anyName = (&commonv1.AnyValue{}).ProtoReflect().Descriptor().FullName()

// Paths lists every leaf path and every empty message path of v1.Data.
func Paths() []Path {
	var out []Path
	var walk func(md protoreflect.MessageDescriptor, pre []protoreflect.FieldDescriptor)
	walk = func(md protoreflect.MessageDescriptor, pre []protoreflect.FieldDescriptor) {
		fs := md.Fields()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			p := append(append([]protoreflect.FieldDescriptor{}, pre...), f)
			if f.Message() == nil || f.Message().FullName() == anyName {
				out = append(out, Path{p, true})
				continue
			}
			out = append(out, Path{p, false})
			walk(f.Message(), p)
		}
	}
	walk((&v1.Data{}).ProtoReflect().Descriptor(), nil)
	return out
}

func anyStr(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

// AnyValues are the attribute and body values used everywhere.
func AnyValues() []*commonv1.AnyValue {
	return []*commonv1.AnyValue{
		anyStr("x"),
		anyStr(""),
		{},
		{Value: &commonv1.AnyValue_BoolValue{BoolValue: true}},
		{Value: &commonv1.AnyValue_BoolValue{BoolValue: false}},
		{Value: &commonv1.AnyValue_IntValue{IntValue: math.MinInt64}},
		{Value: &commonv1.AnyValue_IntValue{IntValue: 0}},
		{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: math.Inf(-1)}},
		{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: 0}},
		{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte{0, 255}}},
		{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{}}},
		{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{anyStr("a"), {}, anyStr("")}}}},
		{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{{Key: "k", Value: anyStr("v")}, {Key: "n"}}}}},
	}
}

// Variants is the number of values enumerated for the leaf at p.
func (p Path) Variants() int {
	f := p.Fields[len(p.Fields)-1]
	if !p.Leaf {
		return 1
	}
	if f.Message() != nil {
		return len(AnyValues())
	}
	return len(scalars(f))
}

func scalars(f protoreflect.FieldDescriptor) []protoreflect.Value {
	switch f.Kind() {
	case protoreflect.EnumKind:
		return []protoreflect.Value{protoreflect.ValueOfEnum(1), protoreflect.ValueOfEnum(0), protoreflect.ValueOfEnum(2), protoreflect.ValueOfEnum(1 << 20), protoreflect.ValueOfEnum(-1)}
	case protoreflect.BoolKind:
		return []protoreflect.Value{protoreflect.ValueOfBool(true), protoreflect.ValueOfBool(false)}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return []protoreflect.Value{protoreflect.ValueOfInt32(7), protoreflect.ValueOfInt32(0), protoreflect.ValueOfInt32(math.MinInt32), protoreflect.ValueOfInt32(math.MaxInt32)}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return []protoreflect.Value{protoreflect.ValueOfUint32(7), protoreflect.ValueOfUint32(0), protoreflect.ValueOfUint32(math.MaxUint32)}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return []protoreflect.Value{protoreflect.ValueOfInt64(7), protoreflect.ValueOfInt64(0), protoreflect.ValueOfInt64(math.MinInt64), protoreflect.ValueOfInt64(math.MaxInt64)}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return []protoreflect.Value{protoreflect.ValueOfUint64(7), protoreflect.ValueOfUint64(0), protoreflect.ValueOfUint64(math.MaxUint64)}
	case protoreflect.DoubleKind:
		return []protoreflect.Value{protoreflect.ValueOfFloat64(1.5), protoreflect.ValueOfFloat64(0), protoreflect.ValueOfFloat64(math.Inf(1)), protoreflect.ValueOfFloat64(math.NaN()), protoreflect.ValueOfFloat64(-math.MaxFloat64)}
	case protoreflect.FloatKind:
		return []protoreflect.Value{protoreflect.ValueOfFloat32(1.5), protoreflect.ValueOfFloat32(0)}
	case protoreflect.StringKind:
		return []protoreflect.Value{protoreflect.ValueOfString("x"), protoreflect.ValueOfString(""), protoreflect.ValueOfString("héé\x00")}
	case protoreflect.BytesKind:
		return []protoreflect.Value{protoreflect.ValueOfBytes([]byte{1, 2}), protoreflect.ValueOfBytes([]byte{0}), protoreflect.ValueOfBytes([]byte{})}
	}
	panic(fmt.Sprint("kind ", f.Kind()))
}

// Set writes variant v of the leaf at p into d. Repeated fields on the way
// use element elem[i] of the i-th repeated field, created as needed; fresh
// appends a new element instead at the repeated field number at.
func (p Path) Set(d *v1.Data, variant int, newAt int) {
	m := d.ProtoReflect()
	rep := 0
	for i, f := range p.Fields {
		last := i == len(p.Fields)-1
		if f.Message() != nil && !(last && p.Leaf) {
			if f.IsList() {
				l := m.Mutable(f).List()
				if l.Len() == 0 || rep == newAt {
					l.Append(l.NewElement())
				}
				rep++
				m = l.Get(l.Len() - 1).Message()
			} else {
				m = m.Mutable(f).Message()
			}
			continue
		}
		// leaf
		var v protoreflect.Value
		if f.Message() != nil {
			v = protoreflect.ValueOfMessage(proto.Clone(AnyValues()[variant]).ProtoReflect())
		} else {
			v = scalars(f)[variant]
		}
		if f.IsList() {
			m.Mutable(f).List().Append(v)
		} else {
			m.Set(f, v)
		}
	}
}

// Build makes the message in which only the leaf at p is set.
func (p Path) Build(variant int) *v1.Data {
	d := &v1.Data{}
	p.Set(d, variant, -1)
	return d
}

// Repeated is the number of repeated message fields on the way to the leaf.
func (p Path) Repeated() int {
	n := 0
	for i, f := range p.Fields {
		if f.Message() != nil && f.IsList() && !(i == len(p.Fields)-1 && p.Leaf) {
			n++
		}
	}
	return n
}
