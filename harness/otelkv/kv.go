// Package otelkv pairs attributes of the OpenTelemetry SDK with the OTLP
// attributes they stand for.
package otelkv

import (
	"math"

	"go.opentelemetry.io/otel/attribute"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
)

type Pair struct {
	SDK  attribute.Value
	OTLP *commonv1.AnyValue
}

func str(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}
func boolean(s bool) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: s}}
}
func num(s int64) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: s}}
}
func dbl(s float64) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: s}}
}
func arr(s ...*commonv1.AnyValue) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: s}}}
}

// Values covers every type of attribute with ordinary and extreme values.
func Values() []Pair {
	return []Pair{
		{attribute.StringValue("v"), str("v")},
		{attribute.StringValue(""), str("")},
		{attribute.StringValue("é\x00=,"), str("é\x00=,")},
		{attribute.BoolValue(true), boolean(true)},
		{attribute.BoolValue(false), boolean(false)},
		{attribute.Int64Value(7), num(7)},
		{attribute.Int64Value(0), num(0)},
		{attribute.Int64Value(math.MinInt64), num(math.MinInt64)},
		{attribute.Int64Value(math.MaxInt64), num(math.MaxInt64)},
		{attribute.Float64Value(1.5), dbl(1.5)},
		{attribute.Float64Value(0), dbl(0)},
		{attribute.Float64Value(math.Inf(-1)), dbl(math.Inf(-1))},
		{attribute.Float64Value(math.MaxFloat64), dbl(math.MaxFloat64)},
		{attribute.Float64Value(math.SmallestNonzeroFloat64), dbl(math.SmallestNonzeroFloat64)},
		{attribute.StringSliceValue([]string{"b", "", "a", "b"}), arr(str("b"), str(""), str("a"), str("b"))},
		{attribute.StringSliceValue([]string{}), arr()},
		{attribute.BoolSliceValue([]bool{true, false, true}), arr(boolean(true), boolean(false), boolean(true))},
		{attribute.BoolSliceValue([]bool{false}), arr(boolean(false))},
		{attribute.Int64SliceValue([]int64{3, -1, 0}), arr(num(3), num(-1), num(0))},
		{attribute.Int64SliceValue([]int64{}), arr()},
		{attribute.Float64SliceValue([]float64{2.5, -0.5, 0}), arr(dbl(2.5), dbl(-0.5), dbl(0))},
		{attribute.Float64SliceValue([]float64{1}), arr(dbl(1))},
	}
}

// Lists are lists of attributes, sorted by key and without repeated keys so
// that a set has the same content as a list.
func Lists() (o [][]int) {
	o = append(o, nil)
	n := len(Values())
	for i := range n {
		o = append(o, []int{i})
	}
	for i := range n {
		o = append(o, []int{i, (i + 5) % n})
		o = append(o, []int{i, (i + 7) % n, (i + 14) % n})
	}
	return
}

func key(i int) string { return string(rune('a' + i)) }

// SDK returns the attributes of list l with keys starting with prefix.
func SDK(prefix string, l []int) (o []attribute.KeyValue) {
	v := Values()
	for i, x := range l {
		o = append(o, attribute.KeyValue{Key: attribute.Key(prefix + key(i)), Value: v[x].SDK})
	}
	return
}

func OTLP(prefix string, l []int) (o []*commonv1.KeyValue) {
	v := Values()
	for i, x := range l {
		o = append(o, &commonv1.KeyValue{Key: prefix + key(i), Value: v[x].OTLP})
	}
	return
}
