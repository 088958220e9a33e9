package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- values of the reference interpreter ----

type VK int

const (
	VNone VK = iota
	VInt
	VBool
	VStr
	VList
	VTuple
	VDict
	VSet
	VRole
	VRec   // record
	VGSet  // genericset
	VBag   // multiset
	VGMap  // genericmap
)

// V is a value. Lists, dicts, sets, records, bags ... have identity (pointer); the rest are immutable.
type V struct {
	K  VK
	I  int64
	S  string
	L  []*V   // list, tuple, set/bag/gset elements (in insertion order)
	DK []*V   // dict/gmap keys (insertion order); record: names are VStr
	DV []*V   // dict/gmap/record values
	R  int    // role index; with I > 0: a stub of that role over channel I-1
}

var vNone = &V{K: VNone}
var vTrue = &V{K: VBool, I: 1}
var vFalse = &V{K: VBool, I: 0}

func vInt(i int64) *V   { return &V{K: VInt, I: i} }
func vStr(s string) *V  { return &V{K: VStr, S: s} }
func vBool(b bool) *V {
	if b {
		return vTrue
	}
	return vFalse
}
func vList(l ...*V) *V { return &V{K: VList, L: l} }

func (v *V) truth() bool {
	switch v.K {
	case VNone:
		return false
	case VInt, VBool:
		return v.I != 0
	case VStr:
		return v.S != ""
	case VList, VTuple, VSet, VBag, VGSet:
		return len(v.L) > 0
	case VDict, VGMap:
		return len(v.DK) > 0
	}
	return true
}

func (v *V) mutable() bool {
	switch v.K {
	case VList, VDict, VSet, VRec, VGSet, VBag, VGMap:
		return true
	}
	return false
}

func veq(a, b *V) bool {
	if a == b {
		return true
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case VNone:
		return true
	case VInt, VBool:
		return a.I == b.I
	case VStr:
		return a.S == b.S
	case VRole:
		return a.R == b.R && a.I == b.I
	case VList, VTuple:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !veq(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case VSet, VGSet:
		if len(a.L) != len(b.L) {
			return false
		}
		for _, x := range a.L {
			if vfind(b.L, x) < 0 {
				return false
			}
		}
		return true
	case VBag:
		if len(a.L) != len(b.L) {
			return false
		}
		used := make([]bool, len(b.L))
	outer:
		for _, x := range a.L {
			for j, y := range b.L {
				if !used[j] && veq(x, y) {
					used[j] = true
					continue outer
				}
			}
			return false
		}
		return true
	case VDict, VGMap, VRec:
		if len(a.DK) != len(b.DK) || a.S != b.S {
			return false
		}
		for i, k := range a.DK {
			j := vfind(b.DK, k)
			if j < 0 || !veq(a.DV[i], b.DV[j]) {
				return false
			}
		}
		return true
	}
	return false
}

func vfind(l []*V, x *V) int {
	for i, y := range l {
		if veq(x, y) {
			return i
		}
	}
	return -1
}

// clone with aliasing preserved through memo.
func (v *V) clone(memo map[*V]*V) *V {
	if v == nil {
		return nil
	}
	if !v.mutable() && v.K != VTuple {
		return v
	}
	if c, ok := memo[v]; ok {
		return c
	}
	c := &V{K: v.K, I: v.I, S: v.S, R: v.R}
	memo[v] = c
	if v.L != nil {
		c.L = make([]*V, len(v.L))
		for i, x := range v.L {
			c.L[i] = x.clone(memo)
		}
	}
	if v.DK != nil {
		c.DK = make([]*V, len(v.DK))
		c.DV = make([]*V, len(v.DV))
		for i := range v.DK {
			c.DK[i] = v.DK[i].clone(memo)
			c.DV[i] = v.DV[i].clone(memo)
		}
	}
	return c
}

func (v *V) get(k *V) *V {
	if i := vfind(v.DK, k); i >= 0 {
		return v.DV[i]
	}
	return nil
}

func (v *V) set(k, x *V) {
	if i := vfind(v.DK, k); i >= 0 {
		v.DV[i] = x
		return
	}
	v.DK = append(v.DK, k)
	v.DV = append(v.DV, x)
}

func (v *V) add(x *V) {
	if vfind(v.L, x) < 0 {
		v.L = append(v.L, x)
	}
}

// canon writes a canonical, injective-per-type text (used as state identity in the reference).
func (v *V) canon(b *strings.Builder, roleName func(int) string) {
	switch v.K {
	case VNone:
		b.WriteString("null")
	case VInt:
		b.WriteString(strconv.FormatInt(v.I, 10))
	case VBool:
		if v.I != 0 {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case VStr:
		b.WriteString(strconv.Quote(v.S))
	case VRole:
		if v.I > 0 {
			fmt.Fprintf(b, `{"Role":%q,"Channel":"channel#%d"}`, strings.TrimPrefix(roleName(v.R), "role "), v.I-1)
			return
		}
		b.WriteString(strconv.Quote(roleName(v.R)))
	case VList, VTuple:
		b.WriteByte('[')
		for i, x := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			x.canon(b, roleName)
		}
		b.WriteByte(']')
	case VSet, VGSet, VBag:
		var el []string
		for _, x := range v.L {
			var q strings.Builder
			x.canon(&q, roleName)
			el = append(el, q.String())
		}
		sort.Strings(el)
		b.WriteString("[" + strings.Join(el, ",") + "]")
	case VDict, VGMap, VRec:
		var el []string
		for i, k := range v.DK {
			var q strings.Builder
			q.WriteString(strconv.Quote(k.keyStr(roleName)))
			q.WriteByte(':')
			v.DV[i].canon(&q, roleName)
			el = append(el, q.String())
		}
		sort.Strings(el)
		b.WriteString("{" + strings.Join(el, ",") + "}")
	}
}

// keyStr: how a dictionary key is exported.
func (v *V) keyStr(rn func(int) string) string {
	if v.K == VStr {
		return v.S
	}
	return v.repr(rn)
}

// repr: python-like text, as used in link names ("Any:x=1").
func (v *V) repr(rn func(int) string) string {
	switch v.K {
	case VNone:
		return "None"
	case VBool:
		if v.I != 0 {
			return "True"
		}
		return "False"
	case VInt:
		return strconv.FormatInt(v.I, 10)
	case VStr:
		return strconv.Quote(v.S)
	case VList, VSet:
		var p []string
		for _, x := range v.L {
			p = append(p, x.repr(rn))
		}
		if v.K == VSet {
			return "set([" + strings.Join(p, ", ") + "])"
		}
		return "[" + strings.Join(p, ", ") + "]"
	case VTuple:
		var p []string
		for _, x := range v.L {
			p = append(p, x.repr(rn))
		}
		if len(p) == 1 {
			return "(" + p[0] + ",)"
		}
		return "(" + strings.Join(p, ", ") + ")"
	case VDict:
		var p []string
		for i, k := range v.DK {
			p = append(p, k.repr(rn)+": "+v.DV[i].repr(rn))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VRole:
		return rn(v.R)
	case VRec:
		var p []string
		for i, k := range v.DK {
			p = append(p, k.S+" = "+v.DV[i].repr(rn))
		}
		sort.Strings(p)
		n := "record"
		if v.S != "" {
			n = v.S
		}
		return n + "(" + strings.Join(p, ", ") + ")"
	case VBag:
		var p []string
		for _, x := range v.L {
			p = append(p, x.repr(rn))
		}
		sort.Strings(p)
		return "[" + strings.Join(p, ", ") + "]"
	case VGSet, VGMap:
		l := v.L
		if v.K == VGMap {
			l = v.DK
		}
		var p []string
		for i, k := range l {
			t := k.repr(rn)
			if v.K == VGMap {
				t += ": " + v.DV[i].repr(rn)
			}
			p = append(p, t)
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ", ") + "}"
	}
	return fmt.Sprintf("?%d", v.K)
}

func (v *V) String() string {
	var b strings.Builder
	v.canon(&b, func(i int) string { return fmt.Sprintf("role#%d", i) })
	return b.String()
}
