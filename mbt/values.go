package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
)

func itoa(i int) string { return strconv.Itoa(i) }

func experiment(a []string) {}

// canon is the abstract value a message stands for.
func canon(v *pb.Value) string {
	items := func(l []*pb.Value) string {
		s := []string{}
		for _, x := range l {
			s = append(s, canon(x))
		}
		return strings.Join(s, ",")
	}
	switch k := v.GetKind().(type) {
	case nil:
		return "None"
	case *pb.Value_StrValue:
		return strconv.Quote(k.StrValue)
	case *pb.Value_IntValue:
		return fmt.Sprint(k.IntValue)
	case *pb.Value_BoolValue:
		return fmt.Sprint(k.BoolValue)
	case *pb.Value_SentinelValue:
		return "sentinel:" + k.SentinelValue.String()
	case *pb.Value_ListValue:
		return "[" + items(k.ListValue.GetItems()) + "]"
	case *pb.Value_MapValue:
		s := []string{}
		for _, e := range k.MapValue.GetEntries() {
			s = append(s, canon(e.GetKey())+":"+canon(e.GetValue()))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("%T", v.GetKind())
}

type myString string
type myInt int16
type myMap map[string]bool
type myList []string

var strs = []string{"", "a", "b", "true", "1", "None", "é", "\"q\\", "x y", "line\nbreak", "role#0"}
var ints = []int64{0, 1, -1, 2, 7, 100, -128, 127}
var wide = []int64{0, 1, -1, 255, 65536, 1 << 31, -1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63}

// goValue generates a value as an implementation would return it, and what it stands for.
func goValue(s *Src, d int) (any, string) {
	n := 9
	if d > 0 {
		n = 19
	}
	small := func() int64 { return pick(s, ints) }
	nat := func() uint64 { return uint64(pick(s, []int64{0, 1, 2, 127, 200})) }
	str := func() string { return pick(s, strs) }
	switch s.N(n) {
	case 0:
		x := int(pick(s, wide))
		return x, fmt.Sprint(x)
	case 1:
		x := str()
		return x, strconv.Quote(x)
	case 2:
		x := s.P(1, 2)
		return x, fmt.Sprint(x)
	case 3:
		x := small()
		var v any
		switch s.N(6) {
		case 0:
			v = int8(x)
		case 1:
			v = int16(x)
		case 2:
			v = int32(x)
		case 3:
			v = x
		case 4:
			v = myInt(x)
		case 5:
			y := pick(s, wide)
			return y, fmt.Sprint(y)
		}
		return v, fmt.Sprint(x)
	case 4:
		x := nat()
		var v any
		switch s.N(6) {
		case 0:
			v = uint(x)
		case 1:
			v = uint8(x)
		case 2:
			v = uint16(x)
		case 3:
			v = uint32(x)
		case 4:
			v = x
		case 5:
			y := uint64(1<<63 - 1)
			return y, fmt.Sprint(y)
		}
		return v, fmt.Sprint(x)
	case 5:
		return nil, "None"
	case 6:
		return mbt.IGNORE, "sentinel:" + pb.SentinelType_SENTINEL_IGNORE.String()
	case 7:
		x := myString(str())
		return x, strconv.Quote(string(x))
	case 8:
		switch s.N(3) {
		case 0:
			return (*int)(nil), "None"
		case 1:
			return []string(nil), "[]"
		default:
			return map[string]int(nil), "{}"
		}
	case 9, 10:
		l, cs := []any{}, []string{}
		for i := s.N(4); i > 0; i-- {
			v, c := goValue(s, d-1)
			l, cs = append(l, v), append(cs, c)
		}
		return l, "[" + strings.Join(cs, ",") + "]"
	case 11, 12:
		m, cs := map[string]any{}, []string{}
		for i := s.N(4); i > 0; i-- {
			k := str()
			if _, ok := m[k]; ok {
				continue
			}
			v, c := goValue(s, d-1)
			m[k] = v
			cs = append(cs, strconv.Quote(k)+":"+c)
		}
		sort.Strings(cs)
		return m, "{" + strings.Join(cs, ",") + "}"
	case 13:
		m, cs, seen := map[any]any{}, []string{}, map[string]bool{}
		for i := s.N(4); i > 0; i-- {
			k, kc := goScalar(s)
			if seen[kc] {
				continue
			}
			seen[kc] = true
			v, c := goValue(s, d-1)
			m[k] = v
			cs = append(cs, kc+":"+c)
		}
		sort.Strings(cs)
		return m, "{" + strings.Join(cs, ",") + "}"
	case 14:
		v, c := goValue(s, d-1)
		return &v, c
	case 15:
		x, y := small(), small()
		c := fmt.Sprintf("[%d,%d]", x, y)
		switch s.N(4) {
		case 0:
			return [2]int64{x, y}, c
		case 1:
			return []int8{int8(x), int8(y)}, c
		case 2:
			a, b := int(x), int(y)
			return []*int{&a, &b}, c
		default:
			return [2]any{x, y}, c
		}
	case 16:
		x := str()
		switch s.N(3) {
		case 0:
			return []string{x}, "[" + strconv.Quote(x) + "]"
		case 1:
			return myList{x}, "[" + strconv.Quote(x) + "]"
		default:
			return &x, strconv.Quote(x)
		}
	case 17:
		x, y := small(), str()
		switch s.N(4) {
		case 0:
			return map[int64]string{x: y}, fmt.Sprintf("{%d:%q}", x, y)
		case 1:
			return map[string]int8{y: int8(x)}, fmt.Sprintf("{%q:%d}", y, x)
		case 2:
			return myMap{y: true}, fmt.Sprintf("{%q:true}", y)
		default:
			return map[bool]uint8{true: 200, false: 0}, "{false:0,true:200}"
		}
	default:
		return []uint8{0, 200}, "[0,200]"
	}
}

func goScalar(s *Src) (any, string) {
	switch s.N(5) {
	case 0:
		x := int(pick(s, wide))
		return x, fmt.Sprint(x)
	case 1:
		x := pick(s, strs)
		return x, strconv.Quote(x)
	case 2:
		x := s.P(1, 2)
		return x, fmt.Sprint(x)
	case 3:
		x := uint16(pick(s, []int64{0, 3, 500}))
		return x, fmt.Sprint(x)
	default:
		x := myString(pick(s, strs))
		return x, strconv.Quote(string(x))
	}
}

// wireValue generates an argument as the runner sends it, and what the action has to receive.
func wireValue(s *Src, d int) (*pb.Value, any) {
	n := 5
	if d > 0 {
		n = 8
	}
	switch s.N(n) {
	case 0:
		x := pick(s, wide)
		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: x}}, int(x)
	case 1:
		x := pick(s, strs)
		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: x}}, x
	case 2:
		x := s.P(1, 2)
		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: x}}, x
	case 3:
		if s.P(1, 2) {
			return nil, nil
		}
		return &pb.Value{}, nil
	case 4:
		return &pb.Value{Kind: &pb.Value_SentinelValue{SentinelValue: pb.SentinelType_SENTINEL_IGNORE}}, mbt.IGNORE
	case 5, 6:
		l, g := []*pb.Value{}, []any{}
		for i := s.N(4); i > 0; i-- {
			p, x := wireValue(s, d-1)
			if p == nil {
				p = &pb.Value{}
			}
			l, g = append(l, p), append(g, x)
		}
		return &pb.Value{Kind: &pb.Value_ListValue{ListValue: &pb.ListValue{Items: l}}}, g
	default:
		l, g := []*pb.MapEntry{}, map[any]any{}
		for i := s.N(4); i > 0; i-- {
			k, kg := wireValue(s, 0)
			if _, ok := g[kg]; ok {
				continue
			}
			p, x := wireValue(s, d-1)
			l = append(l, &pb.MapEntry{Key: k, Value: p})
			g[kg] = x
		}
		return &pb.Value{Kind: &pb.Value_MapValue{MapValue: &pb.MapValue{Entries: l}}}, g
	}
}
