// C03: a collection of the in-memory document store behaves as one atomic, isolated list of documents.
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/sim/harness"
	"verif.local/sim/simrt"
)

type in struct {
	op     string
	filter bson.D
	update bson.D
	docs   []bson.D
	bad    bool // malformed: has to be refused without effect
}

func (i in) String() string {
	s := i.op
	if i.filter != nil {
		s += " " + key(i.filter)
	}
	if i.update != nil {
		s += " " + key(i.update)
	}
	for _, d := range i.docs {
		s += " " + key(norm(d))
	}
	return s
}

type out struct {
	n    int // updated, replaced, or -1
	err  bool
	docs string // results of a find
	more string // problem seen while decoding
}

func (o *out) String() string { return fmt.Sprintf("%d,%v,%s%s", o.n, o.err, o.docs, o.more) }

type state struct {
	docs []bson.D
	key  string
}

func mk(docs []bson.D) state {
	var s []string
	for _, d := range docs {
		s = append(s, docKey(d))
	}
	return state{docs, strings.Join(s, "\n")}
}

func withID(d bson.D, id any) bson.D {
	for _, e := range d {
		if e.Key == "_id" {
			return d
		}
	}
	return append(bson.D{{Key: "_id", Value: id}}, d...)
}

func idOf(d bson.D) any {
	for _, e := range d {
		if e.Key == "_id" {
			return e.Value
		}
	}
	return "auto"
}

func step(st, i, o any) (bool, any) {
	s := st.(state)
	c := i.(in)
	r, done := o.(*out)
	if c.bad {
		return !done || r.err, s
	}
	if c.op == "findone" || c.op == "findmany" {
		var res []string
		for _, d := range s.docs {
			if matches(d, c.filter) {
				res = append(res, docKey(d))
				if c.op == "findone" {
					break
				}
			}
		}
		return !done || !r.err && r.more == "" && r.docs == strings.Join(res, "\n"), s
	}
	docs := append([]bson.D{}, s.docs...)
	n, failed := 0, false
	switch c.op {
	case "insert":
		for _, d := range c.docs {
			docs = append(docs, withID(norm(d).(bson.D), "auto"))
		}
		n = -1
	case "deleteone", "deletemany":
		var keep []bson.D
		for _, d := range docs {
			if (c.op == "deletemany" || n == 0) && matches(d, c.filter) {
				n++
			} else {
				keep = append(keep, d)
			}
		}
		docs, n = keep, -1
	case "updateone", "updatemany":
		for k, d := range docs {
			if !matches(d, c.filter) {
				continue
			}
			nd, err := applyUpdate(d, c.update)
			if err != nil {
				failed = true
				break
			}
			docs[k] = nd
			n++
			if c.op == "updateone" {
				break
			}
		}
	case "replaceone", "replacemany", "upsert":
		for k, d := range docs {
			if n < len(c.docs) && matches(d, c.filter) {
				docs[k] = withID(norm(c.docs[n]).(bson.D), idOf(d))
				n++
			}
		}
		if c.op == "upsert" && n == 0 {
			docs = append(docs, withID(norm(c.docs[0]).(bson.D), "auto"))
		}
	default:
		panic(c.op)
	}
	if done && (failed != r.err || !failed && r.n != n) {
		return false, s
	}
	return true, mk(docs)
}

var model = porcupine.Model{
	Init:  func() any { return state{} },
	Step:  step,
	Equal: func(a, b any) bool { return a.(state).key == b.(state).key },
}

type sub struct {
	X int    `bson:"x"`
	Y string `bson:"y"`
}

type rec struct {
	ID   any    `bson:"_id"`
	K    int    `bson:"k"`
	N    int    `bson:"n"`
	S    string `bson:"s"`
	Arr  []int  `bson:"arr"`
	Sub  sub    `bson:"sub"`
	Subs []sub  `bson:"subs"`
}

func pick(st string, n int) int { return simrt.Choose(st, n) }

var nextID int

// doc draws a document; as a struct (second result) or a bson.D with caller-owned nested arrays.
func doc(st string) (bson.D, any) {
	nextID++
	var arr bson.A
	r := rec{ID: fmt.Sprint("id", nextID), K: pick(st, 3), N: pick(st, 5), S: fmt.Sprint("s", pick(st, 3)), Sub: sub{pick(st, 3), fmt.Sprint("y", pick(st, 2))}}
	arr = bson.A{}
	r.Arr = []int{}
	for j := pick(st, 4); j > 0; j-- {
		v := pick(st, 4)
		arr = append(arr, v)
		r.Arr = append(r.Arr, v)
	}
	subs := bson.A{}
	r.Subs = []sub{}
	for j := pick(st, 3); j > 0; j-- {
		x := sub{pick(st, 3), fmt.Sprint("y", pick(st, 2))}
		r.Subs = append(r.Subs, x)
		subs = append(subs, bson.D{{Key: "x", Value: x.X}, {Key: "y", Value: x.Y}})
	}
	d := bson.D{{Key: "_id", Value: r.ID}, {Key: "k", Value: r.K}, {Key: "n", Value: r.N}, {Key: "s", Value: r.S}, {Key: "arr", Value: arr},
		{Key: "sub", Value: bson.D{{Key: "x", Value: r.Sub.X}, {Key: "y", Value: r.Sub.Y}}}, {Key: "subs", Value: subs}}
	switch pick(st, 4) {
	case 0:
		return d, r
	case 1: // no id of its own
		d = d[1:]
	case 2: // some field missing
		k := 1 + pick(st, len(d)-1)
		d = append(append(bson.D{}, d[:k]...), d[k+1:]...)
	}
	return d, d
}

func clone(v any) any {
	switch x := v.(type) {
	case bson.D:
		r := bson.D{}
		for _, e := range x {
			r = append(r, bson.E{Key: e.Key, Value: clone(e.Value)})
		}
		return r
	case bson.A:
		r := bson.A{}
		for _, e := range x {
			r = append(r, clone(e))
		}
		return r
	}
	return v
}

// scribble modifies the caller's own copy of a document in place.
func scribble(v any) {
	switch x := v.(type) {
	case bson.D:
		for i := range x {
			scribble(x[i].Value)
			x[i].Value = "scribbled"
		}
	case bson.A:
		for i := range x {
			scribble(x[i])
			x[i] = "scribbled"
		}
	case rec:
		for i := range x.Arr {
			x.Arr[i] = -9
		}
		for i := range x.Subs {
			x.Subs[i].X = -9
		}
	}
}

func e(k string, v any) bson.D { return bson.D{{Key: k, Value: v}} }

func filter(st string, depth int) bson.D {
	switch pick(st, 22) {
	case 0:
		return bson.D{}
	case 1, 2, 3:
		return e("k", pick(st, 3))
	case 4:
		return e("s", fmt.Sprint("s", pick(st, 3)))
	case 5:
		return e("n", e([]string{"$gt", "$gte", "$lt", "$lte"}[pick(st, 4)], pick(st, 5)))
	case 6:
		return e("n", bson.D{{Key: "$gte", Value: pick(st, 3)}, {Key: "$lt", Value: 2 + pick(st, 4)}})
	case 7:
		return e("n", e("$in", bson.A{pick(st, 5), pick(st, 5)}))
	case 8:
		return e("arr", pick(st, 4))
	case 9:
		return e("arr.1", pick(st, 4))
	case 10:
		return e("sub.x", pick(st, 3))
	case 11:
		return e("subs.x", pick(st, 3))
	case 12:
		return e("sub", bson.D{{Key: "x", Value: pick(st, 3)}, {Key: "y", Value: fmt.Sprint("y", pick(st, 2))}})
	case 13:
		return e([]string{"extra", "n", "sub.x", "sub.z"}[pick(st, 4)], e("$exists", false))
	case 14:
		return e("arr", e("$all", bson.A{pick(st, 4), pick(st, 4)}))
	case 15:
		return e("subs", e("$elemMatch", bson.D{{Key: "x", Value: pick(st, 3)}, {Key: "y", Value: fmt.Sprint("y", pick(st, 2))}}))
	case 16:
		return e("s", e("$regex", fmt.Sprint("s", pick(st, 3))))
	case 17:
		return bson.D{{Key: "k", Value: pick(st, 3)}, {Key: "n", Value: e("$gt", pick(st, 4))}}
	case 18, 19:
		if depth < 2 {
			return e([]string{"$and", "$or", "$nor"}[pick(st, 3)], bson.A{filter(st, depth+1), filter(st, depth+1)})
		}
	case 20:
		return e("_id", fmt.Sprint("id", 1+pick(st, nextID+1)))
	}
	return e("k", pick(st, 3))
}

func update(st string) bson.D {
	var u bson.D
	used := map[string]bool{}
	for j := 1 + pick(st, 3); j > 0; j-- {
		f := []string{"n", "arr", "sub.x", "s", "extra", "deep.a.b", "arr.1"}[pick(st, 7)]
		op, v := "$set", any(pick(st, 6))
		switch f {
		case "n", "sub.x":
			op = []string{"$inc", "$inc", "$set", "$unset"}[pick(st, 4)]
			if op == "$unset" && f != "n" {
				op = "$set" // field order of a nested document matters to MongoDB but not to the store
			}
			if op == "$inc" {
				v = 1 + pick(st, 3)
			}
		case "arr":
			op = []string{"$push", "$push", "$addToSet", "$pull", "$set", "$unset"}[pick(st, 6)]
			if op == "$set" {
				v = bson.A{pick(st, 4), 3}
			}
		case "s":
			op = []string{"$set", "$inc", "$push", "$unset"}[pick(st, 4)] // $inc and $push of a string fail
			if op == "$set" {
				v = fmt.Sprint("s", pick(st, 3))
			} else if op == "$push" {
				v = "p"
			}
		case "extra":
			op = []string{"$set", "$push", "$inc", "$pull", "$set"}[pick(st, 5)]
			if op == "$set" && pick(st, 3) == 0 {
				v = primitive.Null{}
			}
			if op == "$inc" {
				v = 1
			}
		case "arr.1":
			op = []string{"$set", "$unset"}[pick(st, 2)]
		case "deep.a.b":
			op = []string{"$set", "$unset", "$push"}[pick(st, 3)]
		}
		top, _, _ := strings.Cut(f, ".")
		if used[top] {
			continue
		}
		used[top] = true
		if op == "$pull" && pick(st, 2) == 0 && f == "arr" && !used["subs"] {
			f, v = "subs", bson.D{{Key: "x", Value: pick(st, 3)}}
			used["subs"] = true
		}
		if op == "$unset" {
			v = ""
		}
		at := -1
		for k := range u {
			if u[k].Key == op {
				at = k
			}
		}
		if at < 0 {
			u = append(u, bson.E{Key: op, Value: bson.D{}})
			at = len(u) - 1
		}
		u[at].Value = append(u[at].Value.(bson.D), bson.E{Key: f, Value: v})
	}
	return u
}

func run(h *harness.H) {
	nextID = 0
	ctx := context.Background()
	db, err := simplenosqldb.NewSimpleNoSQLDB(ctx)
	if err != nil {
		h.Violate("construct", "%v", err)
	}
	hist := &harness.Hist{}
	setup, _ := db.GetCollection(ctx, "db", "other")
	_ = setup.InsertOne(ctx, bson.D{{Key: "_id", Value: "sentinel"}, {Key: "k", Value: 1}})
	other2, _ := db.GetCollection(ctx, "db2", "coll")
	_ = other2.InsertOne(ctx, bson.D{{Key: "_id", Value: "sentinel"}, {Key: "k", Value: 1}})
	preload := simrt.Chance("setup", 1, 2)
	if preload {
		c, _ := db.GetCollection(ctx, "db", "coll")
		for j := pick("setup", 4); j > 0; j-- {
			insert(h, hist, c, 0, "setup")
		}
	}
	mix := pick("mix", 5)
	n := 2 + pick("clients", 3)
	var ts []*simrt.Task
	for c := 0; c < n; c++ {
		c := c
		st := fmt.Sprint("client", c)
		ts = append(ts, simrt.GoNamed(st, func() {
			coll, err := db.GetCollection(ctx, "db", "coll")
			if err != nil {
				h.Violate("getcollection", "%v", err)
			}
			for j := 1 + pick(st, 4); j > 0; j-- {
				op(h, hist, coll, c+1, st, mix)
			}
		}))
	}
	if !simrt.WaitAll(3600e9, ts...) {
		h.Violate("stuck", "an operation never returned")
	}
	coll, _ := db.GetCollection(ctx, "db", "coll")
	find(h, hist, coll, 99, in{op: "findmany", filter: bson.D{}}, "final")
	for _, o := range []backend.NoSQLCollection{setup, other2} {
		cur, err := o.FindMany(ctx, bson.D{})
		var ds []bson.D
		if err == nil {
			err = cur.All(ctx, &ds)
		}
		if err != nil || len(ds) != 1 || key(norm(ds[0])) != `{_id:"sentinel",k:1}` {
			h.Violate("leak", "operations on one collection changed another: %v %v", ds, err)
		}
	}
	h.NonTrivial()
	for _, o := range hist.Ops() {
		h.Sample("%d:%v=%v", o.Client, o.In, o.Out)
	}
	msg, unknown := hist.Check(model)
	if unknown {
		simrt.Probe("checker gave up")
		return
	}
	h.Check(msg == "", "not-atomic", "%s", msg)
}

func insert(h *harness.H, hist *harness.Hist, coll backend.NoSQLCollection, c int, st string) {
	ctx := context.Background()
	var docs []bson.D
	var args []any
	for j := 1 + pick(st, 2); j > 0; j-- {
		d, a := doc(st)
		docs = append(docs, clone(d).(bson.D))
		args = append(args, a)
	}
	o := hist.Call(c, in{op: "insert", docs: docs})
	var err error
	if len(args) == 1 {
		err = coll.InsertOne(ctx, args[0])
	} else {
		err = coll.InsertMany(ctx, args)
	}
	o.Ret(&out{n: -1, err: err != nil})
	for _, a := range args {
		scribble(a)
	}
}

func find(h *harness.H, hist *harness.Hist, coll backend.NoSQLCollection, c int, q in, st string) {
	ctx := context.Background()
	r := &out{}
	o := hist.Call(c, q)
	var cur backend.NoSQLCursor
	var err error
	if q.op == "findone" {
		cur, err = coll.FindOne(ctx, q.filter)
	} else {
		cur, err = coll.FindMany(ctx, q.filter)
	}
	r.err = err != nil
	o.Ret(r)
	if err != nil {
		return
	}
	for j := pick(st, 4); j > 0; j-- {
		simrt.Y(9005)
	}
	var ds []bson.D
	one := q.op == "findone"
	if one {
		var d bson.D
		ok, err := cur.One(ctx, &d)
		if err != nil {
			r.more = " cursor: " + err.Error()
		}
		if ok {
			ds = append(ds, d)
		} else if d != nil {
			r.more += " cursor wrote a result it did not report"
		}
	} else if err := cur.All(ctx, &ds); err != nil {
		r.more = " cursor: " + err.Error()
	}
	var s []string
	for _, d := range ds {
		s = append(s, docKey(norm(d).(bson.D)))
	}
	r.docs = strings.Join(s, "\n")
	for _, d := range ds {
		scribble(d)
	}
}

func op(h *harness.H, hist *harness.Hist, coll backend.NoSQLCollection, c int, st string, mix int) {
	ctx := context.Background()
	kind := pick(st, 20)
	switch mix {
	case 1: // counters and arrays of few documents
		kind = []int{3, 3, 3, 3, 3, 4, 4, 4, 1, 2, 3, 3, 0, 3, 4, 4, 3, 3, 3, 18}[kind]
	case 2: // inserts, upserts, replaces
		kind = []int{0, 0, 7, 7, 7, 7, 5, 5, 6, 6, 2, 8, 8, 7, 7, 5, 2, 2, 7, 18}[kind]
	case 3: // deletes against finds
		kind = []int{0, 0, 0, 9, 9, 9, 10, 10, 2, 2, 2, 2, 1, 9, 10, 3, 4, 9, 9, 2}[kind]
	}
	switch kind {
	case 0, 16:
		insert(h, hist, coll, c, st)
	case 1, 17:
		find(h, hist, coll, c, in{op: "findone", filter: filter(st, 0)}, st)
	case 2, 12:
		find(h, hist, coll, c, in{op: "findmany", filter: filter(st, 0)}, st)
	case 3, 11, 13:
		q := in{op: "updateone", filter: filter(st, 0), update: update(st)}
		o := hist.Call(c, q)
		n, err := coll.UpdateOne(ctx, clone(q.filter).(bson.D), clone(q.update).(bson.D))
		o.Ret(&out{n: n, err: err != nil})
	case 4, 14:
		q := in{op: "updatemany", filter: filter(st, 0), update: update(st)}
		o := hist.Call(c, q)
		n, err := coll.UpdateMany(ctx, clone(q.filter).(bson.D), clone(q.update).(bson.D))
		o.Ret(&out{n: n, err: err != nil})
	case 5, 15:
		d, a := doc(st)
		q := in{op: "replaceone", filter: filter(st, 0), docs: []bson.D{clone(d).(bson.D)}}
		o := hist.Call(c, q)
		n, err := coll.ReplaceOne(ctx, q.filter, a)
		o.Ret(&out{n: n, err: err != nil})
		scribble(a)
	case 6:
		d1, a1 := doc(st)
		d2, a2 := doc(st)
		q := in{op: "replacemany", filter: filter(st, 0), docs: []bson.D{clone(d1).(bson.D), clone(d2).(bson.D)}}
		o := hist.Call(c, q)
		n, err := coll.ReplaceMany(ctx, q.filter, a1, a2)
		o.Ret(&out{n: n, err: err != nil})
		scribble(a1)
		scribble(a2)
	case 7, 8:
		d, a := doc(st)
		q := in{op: "upsert", filter: filter(st, 0), docs: []bson.D{clone(d).(bson.D)}}
		if pick(st, 2) == 0 {
			id := idOf(d)
			if id == "auto" {
				id = "id1"
			}
			q.filter = e("_id", id)
		}
		o := hist.Call(c, q)
		ok, err := coll.Upsert(ctx, q.filter, a)
		r := &out{err: err != nil}
		if ok {
			r.n = 1
		}
		o.Ret(r)
		scribble(a)
	case 9, 19:
		q := in{op: "deleteone", filter: filter(st, 0)}
		o := hist.Call(c, q)
		err := coll.DeleteOne(ctx, q.filter)
		o.Ret(&out{n: -1, err: err != nil})
	case 10:
		q := in{op: "deletemany", filter: filter(st, 0)}
		o := hist.Call(c, q)
		err := coll.DeleteMany(ctx, q.filter)
		o.Ret(&out{n: -1, err: err != nil})
	default: // malformed requests
		bad := e("n", e("$bogus", 1))
		good := filter(st, 0)
		kind := pick(st, 8)
		o := hist.Call(c, in{op: fmt.Sprint("malformed", kind), bad: true})
		var err error
		switch kind {
		case 0:
			_, err = coll.UpdateMany(ctx, bad, e("$set", e("n", 1)))
		case 1:
			_, err = coll.UpdateMany(ctx, good, bson.D{{Key: "$set", Value: e("n", 77)}, {Key: "$bogus", Value: e("n", 1)}})
		case 2:
			err = coll.DeleteMany(ctx, bad)
		case 3:
			_, err = coll.ReplaceMany(ctx, bad, e("x", 1))
		case 4:
			err = coll.InsertOne(ctx, make(chan int))
		case 5:
			_, err = coll.Upsert(ctx, bad, e("x", 1))
		case 6:
			_, err = coll.FindMany(ctx, bad)
		default:
			// a replacement that cannot be stored is refused whatever it would have replaced
			_, err = coll.Upsert(ctx, bson.D{}, make(chan int))
		}
		o.Ret(&out{err: err != nil})
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:   "C03",
		Rule: "Two to four clients issue inserts, finds, updates, replaces, upserts, deletes and malformed requests with random filters and update operators on one collection; results are decoded later and callers scribble over their own documents. The history is checked with porcupine against a reference document list with MongoDB semantics for the generated filters and updates.",
		Assumptions: []string{"multi-document operations are atomic as a whole in the model, as they are under one collection lock", "only filter and update shapes on which the store documents MongoDB semantics are generated; integer values only for comparisons",
			"automatically assigned identifiers are compared as being present, not by value"},
		Real:      []string{"runtime/plugins/simplenosqldb", "runtime/plugins/simplenosqldb/query", "runtime/core/backend", "go.mongodb.org/mongo-driver/bson"},
		Stub:      []string{"sync (simulated locks)", "goroutine scheduler"},
		Scenarios: []harness.Scenario{{Name: "mixed", Run: run, StepLimit: 400_000}},
		QuickSec:  40, ThoroughSec: 600,
	})
}
