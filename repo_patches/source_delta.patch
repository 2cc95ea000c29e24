From d0a895c2e13c67c99837f958758f8bcdc3e25e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 01/27] fix: simplecache Get reads the map without the lock and
 Incr is not atomic

---
 runtime/plugins/simplecache/cache.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..b46d3ec 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,6 +31,8 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
+	cache.RLock()
+	defer cache.RUnlock()
 	if v, exists := cache.values[key]; exists {
 		return true, backend.CopyResult(v, val)
 	}
@@ -73,11 +75,15 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	if v, exists := cache.values[key]; exists {
+		if err := backend.CopyResult(v, &cur); err != nil {
+			return cur, err
+		}
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 9e0295890c53c559fc468b54523ee0a21f9e0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 02/27] fix: CopyResult panics when the value to copy is nil

---
 runtime/core/backend/reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..25e2c00 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -40,6 +40,9 @@ func CopyResult(src any, dst any) error {
 		}
 		dst_val.Set(new_dst)
 		return nil
+	} else if !src_val.IsValid() {
+		// src is an untyped nil
+		return SetZero(dst)
 	} else {
 		if !src_val.Type().AssignableTo(dst_val.Type()) {
 			return errors.Errorf("unable to copy incompatible types %v and %v", src_val.Type(), dst_val.Type())
-- 
2.43.0


From a84e8ef7accf6d380fbdbe92bb245c64eebdfd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/27] fix: a registry Get during the first build returns an
 unbuilt client

---
 runtime/core/registry/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..1abb968 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -9,6 +9,7 @@ package registry
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/pkg/errors"
 	"golang.org/x/exp/slog"
@@ -19,6 +20,7 @@ type ServiceRegistry[T any] struct {
 	name             string
 	defaultBuildFunc string
 	registered       map[string]func(context.Context) (T, error)
+	mu               sync.Mutex
 	isBuilt          bool
 	built            T
 	buildError       error
@@ -48,6 +50,8 @@ func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Contex
 // then the client will be built.  The client and any build error is cached,
 // and will be returned by any subsequent calls to Get
 func (r *ServiceRegistry[T]) Get(ctx context.Context) (T, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	if r.isBuilt {
 		return r.built, r.buildError
 	}
-- 
2.43.0


From 531b604ab3434ae6783299df2baf8a407be5fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 04/27] fix: callers waiting for a pooled client are stranded
 when a build in progress fails

---
 runtime/plugins/clientpool/clientpool.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..dac2150 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -20,6 +20,7 @@ type ClientPool[T any] struct {
 	size      int64
 	available int64
 	waiting   int64
+	freed     chan struct{} // Signals waiters that a failed build made room for a new client
 }
 
 // Instantiates a [ClientPool] that will have up to maxClients client instances.
@@ -35,6 +36,7 @@ func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T]
 		size:      0,
 		available: 0,
 		waiting:   0,
+		freed:     make(chan struct{}, capacity),
 	}
 	return pool
 }
@@ -55,12 +57,17 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	default:
 	}
 
+retry:
 	// If the pool isn't at capacity, we can instantiate a new client
 	for curSize := pool.size; curSize < pool.capacity; {
 		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
 			client, err = pool.build()
 			if err != nil {
 				atomic.AddInt64(&pool.size, -1)
+				select {
+				case pool.freed <- struct{}{}:
+				default:
+				}
 			}
 			return
 		}
@@ -74,6 +81,9 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 		err = errors.New("timeout before client was available")
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
+	case <-pool.freed:
+		atomic.AddInt64(&pool.waiting, -1)
+		goto retry
 	}
 	atomic.AddInt64(&pool.waiting, -1)
 	return
-- 
2.43.0


From 4dbbb37b7c408679a20c06f46563daf647af6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 05/27] fix: concurrent namespace Gets build a node more than
 once and race on a map

---
 runtime/plugins/golang/namespace.go | 35 +++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..7d9080d 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -82,6 +82,8 @@ type Namespace struct {
 	name       string
 	buildFuncs map[string]BuildFunc
 	built      map[string]any
+	mu         sync.Mutex             // protects built and building
+	building   map[string]*sync.Mutex // held while the named node is being built
 
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -355,7 +357,7 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
+	if _, isBuilt := n.getBuilt(name); isBuilt {
 		return true
 	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
@@ -367,13 +369,40 @@ func (n *Namespace) has(name string) bool {
 	return false
 }
 
+func (n *Namespace) getBuilt(name string) (any, bool) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	existing, exists := n.built[name]
+	return existing, exists
+}
+
+func (n *Namespace) buildLock(name string) *sync.Mutex {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.building == nil {
+		n.building = make(map[string]*sync.Mutex)
+	}
+	if _, exists := n.building[name]; !exists {
+		n.building[name] = &sync.Mutex{}
+	}
+	return n.building[name]
+}
+
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
 func (n *Namespace) Get(name string, receiver any) error {
-	if existing, exists := n.built[name]; exists {
+	if existing, exists := n.getBuilt(name); exists {
 		return backend.CopyResult(existing, receiver)
 	}
 	if build, exists := n.buildFuncs[name]; exists {
+		// Several callers can Get the same node concurrently, e.g. the child namespaces of a
+		// client pool; only one of them builds it
+		lock := n.buildLock(name)
+		lock.Lock()
+		defer lock.Unlock()
+		if existing, exists := n.getBuilt(name); exists {
+			return backend.CopyResult(existing, receiver)
+		}
 		built, err := build(n)
 		if err != nil {
 			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
@@ -386,7 +415,9 @@ func (n *Namespace) Get(name string, receiver any) error {
 				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 			}
 		}
+		n.mu.Lock()
 		n.built[name] = built
+		n.mu.Unlock()
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-- 
2.43.0


From 52c862c4119956e4ee077db259c380b1084397d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 06/27] fix: namespace Await does not wait for nodes of nested
 child namespaces

---
 runtime/plugins/golang/namespace.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 7d9080d..0a0dd63 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -421,9 +421,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
+			for ancestor := n; ancestor != nil; ancestor = ancestor.parent {
+				ancestor.wg.Add(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -433,9 +432,8 @@ func (n *Namespace) Get(name string, receiver any) error {
 				} else {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
-				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
+				for ancestor := n; ancestor != nil; ancestor = ancestor.parent {
+					ancestor.wg.Done()
 				}
 			}()
 		}
-- 
2.43.0


From dced2c12c592fb38f08d842d90e5f80f32b5d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 07/27] fix: a failed namespace build leaves the nodes it
 already started running

---
 runtime/plugins/golang/namespace.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 0a0dd63..1ac6ae9 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -235,6 +235,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.Shutdown(false)
 			return nil, err
 		}
 	}
@@ -283,6 +284,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			n.Shutdown(false)
 			return nil, err
 		}
 	}
-- 
2.43.0


From f3f9d58ff7d1ab67b947ea445ab5543125ccbf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 08/27] fix: updating an array element truncates the array
 after that element

---
 runtime/plugins/simplenosqldb/query/update.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..c61450d 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -406,7 +406,9 @@ func (s *updateindex) Apply(itemRef any) error {
 		newv = append(newv, v...)
 		v = newv
 	}
-	v = v[:s.index+1]
+	if len(v) <= s.index {
+		v = v[:s.index+1]
+	}
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From 1764609cb0ccbba4f5f6bf830913eaa97c70d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 09/27] fix: $set of a null value panics

---
 runtime/plugins/simplenosqldb/query/update.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index c61450d..3de4ad0 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -181,7 +181,11 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
+	if v == nil {
+		dst_val.SetZero()
+	} else {
+		dst_val.Set(reflect.ValueOf(v))
+	}
 
 	return nil
 }
-- 
2.43.0


From a79b65caa84b6c938b6cf61b8ba0d1d0b1ff955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 10/27] fix: $exists: false ignores the field and matches every
 document

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..c7aff07 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -306,7 +306,7 @@ func parseExistsOperators(key string, d bson.D) (Filter, error) {
 		if e.Key == "$exists" {
 			if v, isBool := e.Value.(bool); isBool {
 				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
+					return Not(Lookup(key, Exists())), nil
 				} else {
 					return nil, nil
 				}
-- 
2.43.0


From 657727300617d1a3f4a75427468f6d952442f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 11/27] fix: ReplaceMany reports success for an invalid filter

---
 runtime/plugins/simplenosqldb/nosqldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..71723d4 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -322,7 +322,7 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
-- 
2.43.0


From 4fc61a9b83287dde22af53334c35bb530fe5d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 12/27] fix: simplenosqldb collections are unsafe for
 concurrent use and expose half-applied updates

---
 runtime/plugins/simplenosqldb/nosqldb.go | 92 ++++++++++++++++++++----
 1 file changed, 79 insertions(+), 13 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 71723d4..bea13e8 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,11 +27,13 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mu          sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
-		items []bson.D
+		mu    sync.RWMutex
+		items []bson.D // documents are replaced rather than modified, because cursors refer to them
 	}
 
 	SimpleCursor struct {
@@ -46,6 +49,8 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mu.Lock()
+	defer impl.mu.Unlock()
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -97,13 +102,15 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.insertOne(document)
+}
+
+func (db *SimpleCollection) insertOne(document interface{}) error {
+	d, err := toBson(document)
+	if err != nil {
+		return err
 	}
 	hasId := false
 	for _, e := range d {
@@ -121,8 +128,10 @@ func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{})
 }
 
 func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interface{}) error {
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for _, d := range documents {
-		err := db.InsertOne(ctx, d)
+		err := db.insertOne(d)
 		if err != nil {
 			return err
 		}
@@ -138,6 +147,8 @@ func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projecti
 	if verbose {
 		fmt.Printf("---- FindOne\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -168,6 +179,8 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 	if verbose {
 		fmt.Printf("---- FindMany\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -189,6 +202,8 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i, item := range db.items {
 		if query.Apply(item) {
 			db.items = append(db.items[:i], db.items[i+1:]...)
@@ -203,6 +218,8 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	copyrangebegin := 0
 	newitems := make([]bson.D, 0, len(db.items))
 	for i, item := range db.items {
@@ -235,12 +252,14 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 		fmt.Printf("---- UpdateOne\n%v\n%v\n", filter, update)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			return 1, db.updateItem(i, updateOp)
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -265,13 +284,15 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 		fmt.Printf(" UPDATE: %v\n", updateOp)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	updated := 0
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("UPDATING: %v\n", db.items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			err := db.updateItem(i, updateOp)
 			if err != nil {
 				return updated, err
 			}
@@ -288,12 +309,47 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 	return updated, nil
 }
 
+// Applies an update to a copy of the i'th document, and stores the result if the whole update succeeds.
+func (db *SimpleCollection) updateItem(i int, update query.Update) error {
+	item := copyDocument(db.items[i])
+	if err := update.Apply(&item); err != nil {
+		return err
+	}
+	db.items[i] = item
+	return nil
+}
+
+func copyDocument(d bson.D) bson.D {
+	return copyValue(d).(bson.D)
+}
+
+func copyValue(value any) any {
+	switch v := value.(type) {
+	case bson.D:
+		d := make(bson.D, len(v))
+		for i := range v {
+			d[i] = bson.E{Key: v[i].Key, Value: copyValue(v[i].Value)}
+		}
+		return d
+	case bson.A:
+		a := make(bson.A, len(v))
+		for i := range v {
+			a[i] = copyValue(v[i])
+		}
+		return a
+	default:
+		return value
+	}
+}
+
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	updatedCount, err := db.replaceOne(filter, document)
 	if updatedCount == 1 || err != nil {
 		return true, err
 	}
-	return false, db.InsertOne(ctx, document)
+	return false, db.insertOne(document)
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -306,6 +362,12 @@ func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID,
 }
 
 func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, replacement interface{}) (int, error) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.replaceOne(filter, replacement)
+}
+
+func (db *SimpleCollection) replaceOne(filter bson.D, replacement interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
 		return 0, err
@@ -324,6 +386,8 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	if err != nil {
 		return 0, err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
 		if query.Apply(db.items[i]) {
@@ -356,6 +420,8 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From 311e512c94ddfd73f03466e4a03186dc13c16062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 13/27] fix: replacing a document loses its _id, and destroys
 the document when the replacement is invalid

---
 runtime/plugins/simplenosqldb/nosqldb.go | 28 ++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index bea13e8..69e1af4 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -374,8 +374,7 @@ func (db *SimpleCollection) replaceOne(filter bson.D, replacement interface{}) (
 	}
 	for i, item := range db.items {
 		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+			return 1, db.replaceItem(i, replacement)
 		}
 	}
 	return 0, nil
@@ -391,8 +390,7 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
 		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
-			if err != nil {
+			if err := db.replaceItem(i, replacements[updateCount]); err != nil {
 				return updateCount, err
 			}
 			updateCount++
@@ -401,6 +399,28 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	return updateCount, nil
 }
 
+// Replaces the i'th document.  The document keeps its _id unless the replacement has one of its own.
+func (db *SimpleCollection) replaceItem(i int, replacement interface{}) error {
+	d, err := toBson(replacement)
+	if err != nil {
+		return err
+	}
+	for _, e := range d {
+		if e.Key == "_id" {
+			db.items[i] = d
+			return nil
+		}
+	}
+	for _, e := range db.items[i] {
+		if e.Key == "_id" {
+			d = append(bson.D{e}, d...)
+			break
+		}
+	}
+	db.items[i] = d
+	return nil
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
-- 
2.43.0


From e941198fb02a05732821699b68733fc2c5bcebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 14/27] fix: $pull from a missing field creates that field with
 a null value

---
 runtime/plugins/simplenosqldb/query/parseupdate.go |  2 +-
 runtime/plugins/simplenosqldb/query/update.go      | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..3038c3d 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -206,7 +206,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, UpdateExistingPath(e.Key, update))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 3de4ad0..a70b73a 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -110,12 +110,21 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 }
 
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+// Like [UpdatePath] but does nothing if the path does not exist
+func UpdateExistingPath(selector string, update Update) Update {
+	return updatePath(selector, update, false)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
 		if j, err := strconv.Atoi(splits[i]); err == nil {
-			update = UpdateIndex(j, update, true)
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
-- 
2.43.0


From 1588e7dc3e505e409f1cf262e0fd82821fed0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 15/27] fix: the retry rate limiter is not safe for concurrent
 calls, and a limit of 0 blocks for ever

---
 plugins/retries/codegen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..7a0e003 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -86,7 +86,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		Imports:        gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
@@ -311,6 +311,7 @@ type {{.Name}} struct {
 	maxTokens float64
 	refillRate float64
 	lastRefill time.Time
+	mu sync.Mutex // protects tokens and lastRefill
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -345,6 +346,14 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	// A rate limit of 0 means no rate limit
+	if client.refillRate == 0 {
+		return true
+	}
+
+	client.mu.Lock()
+	defer client.mu.Unlock()
+
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
-- 
2.43.0


From a4ff60b2f61ef0b2410441682b4768fa2d12d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 16/27] fix: rate-limited retries are numbered one too low

---
 plugins/retries/codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 7a0e003..ecff8cb 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -387,7 +387,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	// Retry attempts with rate limiting
 	for i := 1; i < client.MaxTries; i++ {
 		// Wait for rate limit token
-		ctx = context.WithValue(ctx, "attempt_num", i)
+		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		waitErr := client.waitForToken(ctx)
 		if waitErr == nil {
 			// Call the original method
-- 
2.43.0


From 5696c9413bb30ec34a04c371dac66e7b872670f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 17/27] fix: concurrent calls lose updates of the retry token
 bucket

---
 plugins/retries/codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index ecff8cb..3c45b72 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -107,7 +107,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		ReplenishAmt: replenish_amount,
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -413,6 +413,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	TokenBucket float64
+	mu sync.Mutex // protects TokenBucket
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -430,16 +431,21 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
+		client.mu.Lock()
 		tb := client.TokenBucket
 		if tb - {{$node.RetryCost}} < 1.0 {
 			// Not enough tokens
+			client.mu.Unlock()
 			return
 		} else {
 			client.TokenBucket = tb - {{$node.RetryCost}}
+			client.mu.Unlock()
 			ctx = context.WithValue(ctx, "attempt_num", 2)
 			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 			if err == nil {
+				client.mu.Lock()
 				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
+				client.mu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From 9a3c401866c798f55148b90f7fd734a46d1689d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 18/27] fix: concurrent retries with jitter share a random
 source that is not safe for concurrent use

---
 plugins/retries/codegen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 3c45b72..654cee4 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -118,7 +118,7 @@ func generateClientCommon(client *clientArgs, clientTemplate string) error {
 	outputFile := filepath.Join(client.Package.Path, clientName+".go")
 
 	if client.UseJitter {
-		client.Imports.AddPackages("math/rand")
+		client.Imports.AddPackages("math/rand", "sync")
 	}
 
 	return gogen.ExecuteTemplateToFile("Retries", clientTemplate, client, outputFile)
@@ -224,6 +224,7 @@ type {{.Name}} struct {
 	Limit time.Duration
 	{{if .UseJitter -}}
 	Rand *rand.Rand
+	mu sync.Mutex // protects Rand
 	{{- end}}
 }
 
@@ -250,6 +251,8 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
+	client.mu.Lock()
+	defer client.mu.Unlock()
 	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
 }
 {{end}}
-- 
2.43.0


From 79f6ab83c0c6781fdeff82d8c90c27386a123bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 19/27] fix: with a retry maximum of 0 calls report success
 without reaching the service

---
 plugins/retries/codegen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 654cee4..3148857 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -160,7 +160,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
@@ -200,7 +200,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
-- 
2.43.0


From e6a823d4affca97872cb8c28f824138f55f00b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 20/27] fix: rate-limited retries continue after the caller's
 context has ended

---
 plugins/retries/codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 3148857..643f36d 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -400,6 +400,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 			}
 		} else {
 			err = waitErr
+			return
 		}
 	}
 
-- 
2.43.0


From 07bf59fc15f9e9e1052cdc20f086311b06dce4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 21/27] fix: a call that outlives its timeout blocks for ever
 and races with the returned values

---
 plugins/timeouts/codegen.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..634fed5 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -65,10 +65,12 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	// The call may outlive the timeout, so it must be able to finish without anybody waiting for it
+	// and must not touch the values that are returned to the caller.
+	is_complete := make(chan func() ({{RetTypes $f "error"}}), 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		{{RetVars $f "err"}} := client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		is_complete <- func() ({{RetTypes $f "error"}}) { return {{RetVars $f "err"}} }
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +78,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case results := <-is_complete:
+		return results()
 	}
 }
 {{end}}
-- 
2.43.0


From 73471c64dddf5e4604242ea8c75150ceaa1a5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 22/27] fix: the HTTP client's GET requests are repeated by
 net/http when a reused connection breaks, executing a call twice

---
 plugins/http/httpcodegen/clientgen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..df519f4 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -93,7 +93,13 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	}
 	encoded_url.RawQuery = vals.Encode()
 
-	resp, err := client.Client.Get(encoded_url.String())
+	// Use a method that net/http does not consider idempotent: it repeats GET requests by itself when
+	// a reused connection breaks, which would execute the call twice.
+	req, err := http.NewRequest(http.MethodPost, encoded_url.String(), nil)
+	if err != nil {
+		return
+	}
+	resp, err := client.Client.Do(req)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 1291dfdeb1ac14a04b033f5e836db9d1ef23ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 23/27] fix: HTTP clients ignore the caller's context

---
 plugins/http/httpcodegen/clientgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index df519f4..df6da26 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -95,7 +95,7 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 
 	// Use a method that net/http does not consider idempotent: it repeats GET requests by itself when
 	// a reused connection breaks, which would execute the call twice.
-	req, err := http.NewRequest(http.MethodPost, encoded_url.String(), nil)
+	req, err := http.NewRequestWithContext(ctx, http.MethodPost, encoded_url.String(), nil)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 25e257700fc6e28d66b0c0985c5064a92bb74b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 24/27] fix: retry and circuit breaker clients of services of
 one type overwrite each other's configuration

---
 plugins/circuitbreaker/codegen.go |  9 +++++----
 plugins/circuitbreaker/ir.go      |  4 ++--
 plugins/retries/codegen.go        | 21 +++++++++++----------
 plugins/retries/ir.go             | 20 ++++++++++----------
 4 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 698ce54..d761008 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -4,13 +4,14 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
 	"golang.org/x/exp/slog"
 )
 
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -19,7 +20,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package:     pkg,
 		Service:     wrapped,
-		Name:        wrapped.BaseName + "_CircuitBreakerClient",
+		Name:        wrapped.BaseName + "_CircuitBreakerClient_" + ir.CleanName(instanceName),
 		MinReqs:     MinReqs,
 		FailureRate: FailureRate,
 		Interval:    Interval,
@@ -28,8 +29,8 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 
 	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"CircuitBreakerClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_CircuitBreakerClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, client.Name))
+	outputFile := filepath.Join(client.Package.Path, client.Name+".go")
 	return gogen.ExecuteTemplateToFile("CircuitBreaker", clientTemplate, client, outputFile)
 }
 
diff --git a/plugins/circuitbreaker/ir.go b/plugins/circuitbreaker/ir.go
index 21c06ce..3c549eb 100644
--- a/plugins/circuitbreaker/ir.go
+++ b/plugins/circuitbreaker/ir.go
@@ -71,7 +71,7 @@ func (node *CircuitBreakerClient) GenerateFuncs(builder golang.ModuleBuilder) er
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
+	return generateClient(builder, iface, node.InstanceName, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
 }
 
 func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -87,7 +87,7 @@ func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuild
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_CircuitBreakerClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 643f36d..8610e97 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
@@ -11,7 +12,7 @@ import (
 )
 
 // code generation function called from the ir.go file.
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, Max int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -20,7 +21,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierClient",
+		Name:    wrapped.BaseName + "_RetrierClient_" + ir.CleanName(instanceName),
 		Max:     Max,
 		Imports: gogen.NewImports(pkg.Name),
 	}
@@ -30,7 +31,7 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	return generateClientCommon(&client, clientTemplate)
 }
 
-func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
+func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, delay string, limit string, useJitter bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -39,7 +40,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package:   pkg,
 		Service:   wrapped,
-		Name:      wrapped.BaseName + "_RetrierExpBackoffClient",
+		Name:      wrapped.BaseName + "_RetrierExpBackoffClient_" + ir.CleanName(instanceName),
 		Imports:   gogen.NewImports(pkg.Name),
 		Delay:     delay,
 		Limit:     limit,
@@ -51,7 +52,7 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientExponentialBackoffTemplate)
 }
 
-func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
+func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, max_tries int64, delay string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -60,7 +61,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierFixedDelayClient",
+		Name:    wrapped.BaseName + "_RetrierFixedDelayClient_" + ir.CleanName(instanceName),
 		Imports: gogen.NewImports(pkg.Name),
 		Delay:   delay,
 		Max:     max_tries,
@@ -71,7 +72,7 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	return generateClientCommon(&client, clientFixedDelayTemplate)
 }
 
-func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
+func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, Max int64, RetryRateLimit int64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -80,7 +81,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:        pkg,
 		Service:        wrapped,
-		Name:           wrapped.BaseName + "_RetrierRateLimiterClient",
+		Name:           wrapped.BaseName + "_RetrierRateLimiterClient_" + ir.CleanName(instanceName),
 		Max:            Max,
 		RetryRateLimit: RetryRateLimit,
 		Imports:        gogen.NewImports(pkg.Name),
@@ -91,7 +92,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
 
-func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
+func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, instanceName string, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -100,7 +101,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 	client := clientArgs{
 		Package:      pkg,
 		Service:      wrapped,
-		Name:         wrapped.BaseName + "_RetrierTokenBucketClient",
+		Name:         wrapped.BaseName + "_RetrierTokenBucketClient_" + ir.CleanName(instanceName),
 		Imports:      gogen.NewImports(pkg.Name),
 		Capacity:     capacity,
 		RetryCost:    retry_cost,
diff --git a/plugins/retries/ir.go b/plugins/retries/ir.go
index 5eed3b9..7687f6f 100644
--- a/plugins/retries/ir.go
+++ b/plugins/retries/ir.go
@@ -67,7 +67,7 @@ func (node *RetrierClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Max)
+	return generateClient(builder, iface, node.InstanceName, node.outputPackage, node.Max)
 }
 
 func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -83,7 +83,7 @@ func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -152,7 +152,7 @@ func (node *RetrierFixedDelayClient) GenerateFuncs(builder golang.ModuleBuilder)
 		return err
 	}
 
-	return generateFixedDelayClient(builder, iface, node.outputPackage, node.Max, node.Delay)
+	return generateFixedDelayClient(builder, iface, node.InstanceName, node.outputPackage, node.Max, node.Delay)
 }
 
 func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -168,7 +168,7 @@ func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBu
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -239,7 +239,7 @@ func (node *RetrierExponentialBackoffClient) GenerateFuncs(builder golang.Module
 		return err
 	}
 
-	return generateExpBackoffClient(builder, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
+	return generateExpBackoffClient(builder, iface, node.InstanceName, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
 }
 
 func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -255,7 +255,7 @@ func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.Nam
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -324,7 +324,7 @@ func (node *RetrierRateLimiterClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateRateLimiterClient(builder, iface, node.outputPackage, node.Max, node.RetryRateLimit)
+	return generateRateLimiterClient(builder, iface, node.InstanceName, node.outputPackage, node.Max, node.RetryRateLimit)
 }
 
 func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -340,7 +340,7 @@ func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -411,7 +411,7 @@ func (node *RetrierTokenBucketClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateTokenBucketClient(builder, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
+	return generateTokenBucketClient(builder, iface, node.InstanceName, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
 }
 
 func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -427,7 +427,7 @@ func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient_%v", iface.BaseName, ir.CleanName(node.InstanceName)),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From 19178d951a14896a4bd897c5023ab3f707c79f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 25/27] fix: client pools of services of one type share code,
 so calls reach the wrong service

---
 plugins/clientpool/ir.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..c21b5e7 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,8 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* Only generate this clientpool's code once */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +84,7 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.UniqueName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -143,13 +139,14 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	args.UniqueName = args.Service.BaseName + "_" + ir.CleanName(pool.PoolName)
+	args.PoolName = args.UniqueName + "_ClientPool"
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = args.UniqueName + "_pool_client.go"
+	args.PoolFileName = args.UniqueName + "_pool.go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.UniqueName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.UniqueName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
@@ -165,6 +162,7 @@ type (
 		InstanceName      string
 		WrappedClient     string
 		MaxClients        int
+		UniqueName        string // distinguishes the code of pools of the same service type
 		PoolName          string
 		PackageShortName  string
 		PackageName       string
-- 
2.43.0


From 62e54c0272cc465dbac7f91b7cf9a9fce28ae40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 26/27] fix: generated code that replaces a longer file keeps
 the end of the old one

---
 plugins/golang/gogen/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..3bc8fe7 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b204472ac81057059497b0df757a56307ff7d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 27/27] fix: client modifiers of a load balancer are dropped
 because its client and handler have one name

---
 plugins/loadbalancer/wiring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/loadbalancer/wiring.go b/plugins/loadbalancer/wiring.go
index e339139..5e0be8a 100644
--- a/plugins/loadbalancer/wiring.go
+++ b/plugins/loadbalancer/wiring.go
@@ -55,7 +55,7 @@ func CreateLoadBalancer[ServiceType any](spec wiring.WiringSpec, serviceGroupNam
 	clientNext := ptr.AddSrcModifier(spec, clientName)
 	spec.Define(clientName, &dynamicLBClient{}, func(ns wiring.Namespace) (ir.IRNode, error) {
 		client := &dynamicLBClient{}
-		if err := initDynamicLBNode[ServiceType](&client.dynamicLBNode, balancerName); err != nil {
+		if err := initDynamicLBNode[ServiceType](&client.dynamicLBNode, clientName); err != nil {
 			return nil, err
 		}
 		return client, ns.Get(clientNext, &client.Wrapped)
-- 
2.43.0

