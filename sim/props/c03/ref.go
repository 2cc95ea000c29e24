package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// Reference document store: documents are bson.D with int64 for every integer and "auto" for generated ids.

func norm(v any) any {
	switch x := v.(type) {
	case bson.D:
		d := bson.D{}
		for _, e := range x {
			d = append(d, bson.E{Key: e.Key, Value: norm(e.Value)})
		}
		return d
	case bson.A:
		a := bson.A{}
		for _, e := range x {
			a = append(a, norm(e))
		}
		return a
	case int:
		return int64(x)
	case int32:
		return int64(x)
	case primitive.Null:
		return nil
	case primitive.ObjectID:
		return "auto"
	}
	return v
}

func key(v any) string {
	switch x := v.(type) {
	case bson.D:
		var s []string
		for _, e := range x {
			s = append(s, e.Key+":"+key(e.Value))
		}
		return "{" + strings.Join(s, ",") + "}"
	case bson.A:
		var s []string
		for _, e := range x {
			s = append(s, key(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

// docKey ignores the order of top-level fields.
func docKey(d bson.D) string {
	var s []string
	for _, e := range d {
		s = append(s, e.Key+":"+key(e.Value))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ",") + "}"
}

// leaves are the values a dotted path selects; arrays on the way are searched element by element.
func leaves(v any, path []string) []any {
	if len(path) == 0 {
		return []any{v}
	}
	switch x := v.(type) {
	case bson.D:
		for _, e := range x {
			if e.Key == path[0] {
				return leaves(e.Value, path[1:])
			}
		}
	case bson.A:
		if i, err := strconv.Atoi(path[0]); err == nil {
			if i < len(x) {
				return leaves(x[i], path[1:])
			}
			return nil
		}
		var r []any
		for _, e := range x {
			if d, ok := e.(bson.D); ok {
				r = append(r, leaves(d, path)...)
			}
		}
		return r
	}
	return nil
}

// candidates adds the elements of array leaves.
func candidates(ls []any) []any {
	var r []any
	for _, l := range ls {
		r = append(r, l)
		if a, ok := l.(bson.A); ok {
			r = append(r, a...)
		}
	}
	return r
}

func anyEq(c []any, v any) bool {
	k := key(norm(v))
	for _, x := range c {
		if key(x) == k {
			return true
		}
	}
	return false
}

func matches(d bson.D, f bson.D) bool {
	for _, e := range f {
		switch e.Key {
		case "$and":
			for _, x := range e.Value.(bson.A) {
				if !matches(d, x.(bson.D)) {
					return false
				}
			}
			continue
		case "$or", "$nor":
			one := false
			for _, x := range e.Value.(bson.A) {
				one = one || matches(d, x.(bson.D))
			}
			if one != (e.Key == "$or") {
				return false
			}
			continue
		}
		ls := leaves(d, strings.Split(e.Key, "."))
		cs := candidates(ls)
		cond, isD := e.Value.(bson.D)
		if !isD || len(cond) == 0 || cond[0].Key[0] != '$' {
			if !anyEq(cs, e.Value) {
				return false
			}
			continue
		}
		for _, op := range cond {
			if !opMatches(op, ls, cs) {
				return false
			}
		}
	}
	return true
}

func opMatches(op bson.E, ls, cs []any) bool {
	switch op.Key {
	case "$eq":
		return anyEq(cs, op.Value)
	case "$ne":
		return !anyEq(cs, op.Value)
	case "$exists":
		return (len(ls) > 0) == op.Value.(bool)
	case "$in":
		for _, v := range op.Value.(bson.A) {
			if anyEq(cs, v) {
				return true
			}
		}
		return false
	case "$gt", "$gte", "$lt", "$lte":
		n := norm(op.Value).(int64)
		for _, c := range cs {
			if x, ok := c.(int64); ok {
				switch op.Key {
				case "$gt":
					ok = x > n
				case "$gte":
					ok = x >= n
				case "$lt":
					ok = x < n
				default:
					ok = x <= n
				}
				if ok {
					return true
				}
			}
		}
		return false
	case "$regex":
		for _, c := range cs {
			if s, ok := c.(string); ok && strings.Contains(s, op.Value.(string)) {
				return true
			}
		}
		return false
	case "$all":
		for _, l := range ls {
			a, ok := l.(bson.A)
			for _, v := range op.Value.(bson.A) {
				ok = ok && anyEq(a, v)
			}
			if ok {
				return true
			}
		}
		return false
	case "$elemMatch":
		for _, l := range ls {
			if a, ok := l.(bson.A); ok {
				for _, x := range a {
					if d, ok := x.(bson.D); ok && matches(d, op.Value.(bson.D)) {
						return true
					}
				}
			}
		}
		return false
	}
	panic("op " + op.Key)
}

var errUpdate = errors.New("update does not apply")

// modify returns v with f applied to what path selects; f gets nil, false when it is absent and
// returns keep=false to leave it absent.
func modify(v any, there bool, path []string, f func(old any, there bool) (any, bool, error)) (any, bool, error) {
	if len(path) == 0 {
		return f(v, there)
	}
	if i, err := strconv.Atoi(path[0]); err == nil {
		if there && v != nil {
			a, ok := v.(bson.A)
			if !ok {
				return nil, false, errUpdate
			}
			var old any
			if i < len(a) {
				old = a[i]
			}
			nv, keep, err := modify(old, i < len(a), path[1:], f)
			if err != nil || !keep && i >= len(a) {
				return v, there, err
			}
			r := append(bson.A{}, a...)
			for len(r) <= i {
				r = append(r, nil)
			}
			if keep {
				r[i] = nv
			} else {
				r[i] = nil
			}
			return r, true, nil
		}
		nv, keep, err := modify(nil, false, path[1:], f)
		if err != nil || !keep {
			return v, there, err
		}
		r := make(bson.A, i+1)
		r[i] = nv
		return r, true, nil
	}
	d := bson.D{}
	if there && v != nil {
		var ok bool
		if d, ok = v.(bson.D); !ok {
			return nil, false, errUpdate
		}
	}
	at := -1
	for i, e := range d {
		if e.Key == path[0] {
			at = i
		}
	}
	var old any
	if at >= 0 {
		old = d[at].Value
	}
	nv, keep, err := modify(old, at >= 0, path[1:], f)
	if err != nil {
		return nil, false, err
	}
	r := append(bson.D{}, d...)
	switch {
	case keep && at >= 0:
		r[at].Value = nv
	case keep:
		r = append(r, bson.E{Key: path[0], Value: nv})
	case at >= 0:
		r = append(r[:at:at], r[at+1:]...)
	default:
		return v, there, nil
	}
	return r, true, nil
}

func applyUpdate(d bson.D, u bson.D) (bson.D, error) {
	for _, op := range u {
		for _, e := range op.Value.(bson.D) {
			arg := norm(e.Value)
			var f func(old any, there bool) (any, bool, error)
			switch op.Key {
			case "$set":
				f = func(any, bool) (any, bool, error) { return arg, true, nil }
			case "$unset":
				f = func(any, bool) (any, bool, error) { return nil, false, nil }
			case "$inc":
				f = func(old any, there bool) (any, bool, error) {
					if !there || old == nil {
						old = int64(0)
					}
					n, ok := old.(int64)
					if !ok {
						return nil, false, errUpdate
					}
					return n + arg.(int64), true, nil
				}
			case "$push", "$addToSet":
				f = func(old any, there bool) (any, bool, error) {
					if !there || old == nil {
						return bson.A{arg}, true, nil
					}
					a, ok := old.(bson.A)
					if !ok {
						return nil, false, errUpdate
					}
					if op.Key == "$addToSet" && anyEq(a, arg) {
						return a, true, nil
					}
					return append(append(bson.A{}, a...), arg), true, nil
				}
			case "$pull":
				f = func(old any, there bool) (any, bool, error) {
					if !there || old == nil {
						return old, there, nil
					}
					a, ok := old.(bson.A)
					if !ok {
						return nil, false, errUpdate
					}
					r := bson.A{}
					for _, x := range a {
						cond, isD := arg.(bson.D)
						xd, xIsD := x.(bson.D)
						if isD && xIsD && matches(xd, cond) || !isD && key(x) == key(arg) {
							continue
						}
						r = append(r, x)
					}
					return r, true, nil
				}
			default:
				panic(op.Key)
			}
			nv, _, err := modify(d, true, strings.Split(e.Key, "."), f)
			if err != nil {
				return d, err
			}
			d = nv.(bson.D)
		}
	}
	return d, nil
}
