From 7644ea84997453d2bd98f49c94c72144e604e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 01/26] fix: post-save hooks of one stage overwrite those of
 another

PostSaveOption appended to a slice that shares its backing array with the
engine's options, so stages running nested or concurrently on one engine
could replace each other's callbacks.
---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index ed20575..8084b47 100644
--- a/engine.go
+++ b/engine.go
@@ -417,7 +417,9 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// 限制 cap，避免 append 写到 engine 与其他 stage 共享的底层数组
+	n := len(opts.PostSaveHooks)
+	opts.PostSaveHooks = append(opts.PostSaveHooks[:n:n], PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From 2eab648749d7d2813a49c3dc66616d0309284526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 02/26] fix: errors of RootContainer.Add and Remove are lost

The container is handed to Act by value, so the errors it collected never
reached the engine and the command reported success.
---
 engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 8084b47..ca87a67 100644
--- a/engine.go
+++ b/engine.go
@@ -164,20 +164,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *[]error // 容器以值传递给 Act，错误需要通过指针回传
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -794,11 +794,12 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		errs := make([]error, 0)
+		container := RootContainer{stage: repo.stage, errs: &errs}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(errs) > 0 {
+			return ErrList(errs)
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From d3f15799c78387b4c6eace075fa9e1f0a3381ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 03/26] fix: loading or removing a root after Add loses the
 added root

Repository.Get, CustomGet and Remove refreshed the snapshot of the whole
container, which recorded roots and children that had been added but not
saved yet as already stored, so they were never inserted. Only the loaded
roots are recorded now.
---
 engine.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index ca87a67..4ee456d 100644
--- a/engine.go
+++ b/engine.go
@@ -210,7 +210,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.trackRoots(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -226,7 +226,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.trackRoots(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +253,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.trackRoots(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -853,7 +853,11 @@ func (e *Stage) flush() error {
 
 // 更新快照，已有的不覆盖
 func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
+	return e.snapshotTree(e.meta, nil)
+}
+
+func (e *Stage) snapshotTree(root, rootParent IEntity) error {
+	return walk(root, rootParent, func(entity, parent IEntity, children map[string][]IEntity) error {
 		if _, in := e.snapshot[entity]; in && entity != e.meta {
 			return nil
 		}
@@ -870,6 +874,24 @@ func (e *Stage) updateSnapshot() error {
 	})
 }
 
+// trackRoots 为新加载的聚合根创建快照，不影响其他实体尚未保存的变更
+func (e *Stage) trackRoots(roots ...IEntity) error {
+	meta, in := e.snapshot[e.meta]
+	if !in {
+		meta = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = meta
+	}
+	for _, root := range roots {
+		if err := e.snapshotTree(root, e.meta); err != nil {
+			return err
+		}
+		for key := range e.meta.GetChildren() {
+			meta.children[key] = append(meta.children[key], root)
+		}
+	}
+	return nil
+}
+
 func (e *Stage) hasSnapshot(target IEntity) bool {
 	return e.snapshot[target] != nil
 }
-- 
2.43.0


From 19901dcf82184849e3ca378943bd6de55d6e3eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 04/26] fix: moving several of three or more siblings in one
 save fails

handleEntityMove compacted the children of a change in place while it was
iterating over them, so some were skipped and others were reported as
repeated.
---
 snapshot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index b32d016..9d5967e 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,7 +275,8 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// Remove 会原地修改 children，遍历需要使用拷贝
+		for _, entity := range append([]IEntity{}, item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From 8058159b543cdf90517537429baee8895124ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 05/26] fix: children detached from a removed entity are
 ignored

entityDiff only descends into entities that are still attached, so a child
detached from an entity removed in the same save was not deleted, and one
moved from there to another parent was inserted a second time instead of
being updated.
---
 engine.go   |  2 ++
 snapshot.go | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/engine.go b/engine.go
index 4ee456d..7b431aa 100644
--- a/engine.go
+++ b/engine.go
@@ -906,6 +906,8 @@ func (e *Stage) unDirty() {
 
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
+	// 补充从已移除的实体下面脱离的子实体
+	changed = append(changed, removedDiff(e.meta, changed, e.snapshot)...)
 	// 处理实体移动的场景
 	changed, err := handleEntityMove(changed)
 	if err != nil {
diff --git a/snapshot.go b/snapshot.go
index 9d5967e..c87e6c7 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -267,6 +267,60 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
+// removedDiff 对比已被移除的实体，找出从它们下面脱离的子实体，每个实体只处理一次
+func removedDiff(root IEntity, changed []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	res := make([]*entityChanged, 0)
+	visited := map[IEntity]bool{}
+	_ = walk(root, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
+		visited[entity] = true
+		return nil
+	})
+	var visit func(entity IEntity)
+	visit = func(entity IEntity) {
+		if visited[entity] {
+			return
+		}
+		visited[entity] = true
+
+		children := findChildren(entity)
+		if snapshot := pool[entity]; snapshot != nil {
+			keys := []string{}
+			for key := range snapshot.children {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+			for _, key := range keys {
+				deleted := makeEntitySet(snapshot.children[key]).Diff(makeEntitySet(children[key])).ToSlice()
+				if len(deleted) == 0 {
+					continue
+				}
+				res = append(res, &entityChanged{
+					changeType: deleteChildren,
+					parent:     entity,
+					key:        key,
+					children:   deleted,
+				})
+				for _, item := range deleted {
+					visit(item)
+				}
+			}
+		}
+		for _, items := range children {
+			for _, item := range items {
+				visit(item)
+			}
+		}
+	}
+	for _, c := range changed {
+		if c.changeType == deleteChildren {
+			for _, item := range c.children {
+				visit(item)
+			}
+		}
+	}
+	return res
+}
+
 func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
-- 
2.43.0


From 73bc8b5723ca017e8ac98ad68e87422fc13c4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 06/26] fix: recursive delete lists an entity more than once

An entity that was detached and sits below a removed entity, or whose
removed parent lies below another removed entity, was deleted twice and its
delete hooks ran twice.
---
 snapshot.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index c87e6c7..60de014 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -358,16 +358,35 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 }
 
 func recursiveDelete(changed []*entityChanged) []*entityChanged {
+	deleted := map[IEntity]bool{}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				deleted[c] = true
+			}
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						// 同一个实体只删除一次
+						toDelete := make([]IEntity, 0, len(entities))
+						for _, child := range entities {
+							if !deleted[child] {
+								deleted[child] = true
+								toDelete = append(toDelete, child)
+							}
+						}
+						if len(toDelete) == 0 {
+							continue
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
 							key:        key,
-							children:   entities,
+							children:   toDelete,
 						})
 					}
 					return nil
-- 
2.43.0


From 07095a7a8c22ce1e7e4251a19c282da247bc7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 07/26] fix: eventbus dispatch stores events and their
 deliveries atomically

Dispatch opened a transaction but wrote through the outer handle, so a
failure or crash part way left events without (some of) their deliveries,
which no service would ever handle.
---
 eventbus/mysql/eventbus.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..83358df 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,12 +269,12 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -290,7 +290,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
@@ -363,9 +363,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From 082f77b64e4c837bdef22632215d74b41d757dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 08/26] fix: eventbus re-checks a delivery on the row it locked

handleEvent locked the delivery but then judged and saved the copy read by
the scan, so an event another instance had finished meanwhile was handled
again and its recorded outcome, retry count and retry time overwritten.
---
 eventbus/mysql/eventbus.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 83358df..fb75f2d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -555,8 +555,10 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
-		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
+		// 加锁之前，其他实例（或者同实例的另一次扫描）可能已经处理过，以锁住的记录为准
+		spo = currentServiceEvent
+		// 二次确认下service_event 未被处理，且到达可执行时间
+		if spo.Status != ServiceEventStatusInit || spo.NextTime.After(time.Now()) {
 			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
 			return nil
 		}
-- 
2.43.0


From 9540d39fa5a840b6792122503356eeb040318d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 09/26] fix: eventbus commit is atomic and exclusive with the
 timeout check

Commit neither locked the transaction row nor wrote in one database
transaction: a commit racing the timeout check delivered the events twice,
one after a rollback still delivered them, and one that found its events
already stored left the transaction row behind, to be asked about forever.
---
 eventbus/mysql/eventbus.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index fb75f2d..f3ab6b7 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -325,18 +325,28 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		return ErrNoTransaction
 	}
 
-	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
-		return err
-	}
-	if err == gorm.ErrRecordNotFound {
-		err := e.Dispatch(ctx, tx.Events...)
-		if err != nil {
-			return err
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		// 锁住事务记录，避免与超时反查并发地提交或者回滚同一个事务
+		lockErr := db.Clauses(clause.Locking{Strength: "UPDATE"}).First(&Transaction{}, tx.ID).Error
+		if lockErr != nil && !errors.Is(lockErr, gorm.ErrRecordNotFound) {
+			return lockErr
 		}
-	}
 
-	return e.getDB(ctx).Delete(tx).Error
+		err := db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
+		if err != nil && !errors.Is(err, gorm.ErrRecordNotFound) {
+			return err
+		}
+		if err != nil {
+			if lockErr != nil {
+				// 事务记录不存在并且没有投递过，说明已经被回滚
+				return ErrNoTransaction
+			}
+			if err := e.Dispatch(e.ctxWithDB(ctx, db), tx.Events...); err != nil {
+				return err
+			}
+		}
+		return db.Delete(tx).Error
+	})
 }
 
 // Rollback 回滚事务消息
-- 
2.43.0


From 3bfa4c1d2bfd03f3cc5025d95de4d8bdbbd9cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 10/26] fix: eventbus picks the wrong preceding event among
 events of one millisecond

Ties were broken by event_id, which is chosen by the sender and need not
grow, instead of by the row's id, so a FIFO event could run while its real
predecessor was still pending.
---
 eventbus/mysql/eventbus.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index f3ab6b7..6db9538 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -504,10 +504,10 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 	// 找到前序event
 	precedingEvent := &EventPO{}
 	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
+		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用自增id 明确下
 		Where("event_created_at <= ?", eventPO.EventCreatedAt).
 		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
+		Order("event_created_at desc, id desc").Take(precedingEvent).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
 			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
 			return err
-- 
2.43.0


From 46e6118a2e78dec45af5a66dc43f7f124383fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 11/26] fix: eventbus loses the outcome of a failure whose
 message is not valid UTF-8

A long message cut inside a character, or one with other bytes, is rejected
by the database, so neither the retry count nor the retry time was stored:
the event was handled again at once, without end.
---
 eventbus/mysql/eventbus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 6db9538..e8c1143 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"time"
 	"unicode/utf8"
@@ -583,6 +584,8 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			if len(spo.FailedMessage) > 65535 {
 				spo.FailedMessage = spo.FailedMessage[:65535]
 			}
+			// 错误信息不一定是合法的utf8（包括上面从字符中间截断的情况），db 会拒绝写入
+			spo.FailedMessage = strings.ToValidUTF8(spo.FailedMessage, "")
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From 7bd2b25c0dd0f7f1c156b46a0a620f99c488b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 12/26] fix: eventbus cleaning interrupted half way leaves
 events behind forever

Deliveries and their events were removed by separate statements; a failure
or crash in between left events without deliveries, which no later cleaning
looks at.
---
 eventbus/mysql/eventbus.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index e8c1143..6d792ae 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -702,13 +702,19 @@ func (e *EventBus) cleanEvents() error {
 	}
 
 	// 批量删除service_event
-	deleteServiceEvents := func(eventIDs []int64) error {
-		if err := e.db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete(ServiceEventPO{}).Error; err != nil {
+	deleteServiceEvents := func(db *gorm.DB, eventIDs []int64) error {
+		// 锁住event，多个service 同时清理一个event 时，后执行的service 才能看到先执行的清理结果
+		var lockedEventIDs []int64
+		if err := db.Model(&EventPO{}).Clauses(clause.Locking{Strength: "UPDATE"}).
+			Where("id in ?", eventIDs).Order("id").Pluck("id", &lockedEventIDs).Error; err != nil {
+			return err
+		}
+		if err := db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete(ServiceEventPO{}).Error; err != nil {
 			return err
 		}
 		// 假设存在多个service，经过多个service的陆续操作，则已经成功的service_event 陆续被清理，如果service_event 已无该event_id 的记录，则清理该event记录
 		var eventIDCounts []EventIDCount
-		if err := e.db.Model(&ServiceEventPO{}).Select("event_id, count(id) as count").
+		if err := db.Model(&ServiceEventPO{}).Select("event_id, count(id) as count").
 			Where("event_id in ?", eventIDs).
 			Group("event_id").Find(&eventIDCounts).Error; err != nil {
 			return err
@@ -727,11 +733,17 @@ func (e *EventBus) cleanEvents() error {
 		if len(deleteEventIDs) == 0 {
 			return nil
 		}
-		if err := e.db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error; err != nil {
+		if err := db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error; err != nil {
 			return err
 		}
 		return nil
 	}
+	// service_event 和event 一起清理，否则中途失败会留下永远不被清理的event
+	cleanBatch := func(eventIDs []int64) error {
+		return e.db.Transaction(func(db *gorm.DB) error {
+			return deleteServiceEvents(db, eventIDs)
+		})
+	}
 	batch := 10
 	eventIDs := make([]int64, 0)
 	for rows.Next() {
@@ -742,7 +754,7 @@ func (e *EventBus) cleanEvents() error {
 		}
 		eventIDs = append(eventIDs, serviceEvent.EventID)
 		if len(eventIDs) >= batch {
-			if err = deleteServiceEvents(eventIDs); err != nil {
+			if err = cleanBatch(eventIDs); err != nil {
 				return err
 			}
 			// 清空eventIDs
@@ -750,7 +762,7 @@ func (e *EventBus) cleanEvents() error {
 		}
 	}
 	if len(eventIDs) > 0 {
-		if err = deleteServiceEvents(eventIDs); err != nil {
+		if err = cleanBatch(eventIDs); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From c726a06cc3108965869743fc751ae0a06706ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 13/26] fix: database lock: an expired lock renewed in the
 meantime is taken over

---
 lock/db/sql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..fffbc5a 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -117,7 +117,7 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 	}
 	// 有记录但是数据过期
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
-		Where("locker_id = ?", lock.LockerID).
+		Where("locker_id = ? AND updated_at = ?", lock.LockerID, lock.UpdatedAt). // the holder may have renewed it in the meantime
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From a2908e8fccce2ec4f8bc121d28758987bef61db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 14/26] fix: database lock: losing the race for a free key is
 not reported as locked

---
 lock/db/sql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index fffbc5a..051c1f8 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -103,7 +103,7 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		l := &ResourceLock{Resource: key, LockerID: lockerID}
 		err = r.db.WithContext(ctx).Create(l).Error
 		if err != nil {
-			if errors.Is(err, gorm.ErrDuplicatedKey) {
+			if isDuplicatedKey(r.db, err) {
 				return nil, dddfirework.ErrEntityLocked
 			}
 			return nil, fmt.Errorf("failed to create resource %s lock, err: %w", key, err)
@@ -131,6 +131,14 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 	return &lock, nil
 }
 
+// isDuplicatedKey recognizes a duplicated key also when gorm is not configured with TranslateError.
+func isDuplicatedKey(db *gorm.DB, err error) bool {
+	if t, ok := db.Dialector.(gorm.ErrorTranslator); ok {
+		err = t.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
+}
+
 func (r *DBLock) UnLock(ctx context.Context, keyLock interface{}) error {
 	l := keyLock.(*ResourceLock)
 	res := r.db.WithContext(ctx).Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete(&ResourceLock{})
-- 
2.43.0


From b08498247cec7d0915ef95ec0bd443be92e1435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 15/26] fix: database lock: Run leaves its renewal goroutine
 and context behind

---
 lock/db/sql.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 051c1f8..c98c055 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -178,16 +178,27 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	}() // pass parent ctx in here, or defer will use sub ctx below
 
 	ticker := time.NewTicker(r.opt.RenewInterval)
-	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	done := make(chan struct{})
+	// 业务函数执行完成后，会停止renew 协程
+	defer func() {
+		cancel()
+		<-done
+	}()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		defer close(done)
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+			}
+			if err := r.update(subCtx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 3220aea73be39feff9c71dc37815eddce9814335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 16/26] fix: redis lock: giving up after the time-to-live is
 not reported as locked

---
 lock/redis/redis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..1b59c0a 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -40,6 +40,9 @@ func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{},
 		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
 	); err == redislock.ErrNotObtained {
 		return nil, dddfirework.ErrEntityLocked
+	} else if err == context.DeadlineExceeded && ctx.Err() == nil {
+		// redislock stops retrying after ttl, whatever the retry strategy says
+		return nil, dddfirework.ErrEntityLocked
 	}
 	return
 }
-- 
2.43.0


From 67fb25fc647a809a7c543ea1b08e09267d7e2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 17/26] fix: mem event bus: the consumer survives its context
 and goes on handing over events

---
 eventbus/mem/eventbus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..f3cabcb 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -51,9 +51,12 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 		for {
 			select {
 			case evt := <-e.ch:
+				if ctx.Err() != nil { // both were ready
+					return
+				}
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From 3754caeab295f79ecdcf8a1bfc8fbafc2e6771b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 18/26] fix: check-back: a checker answering with a convertible
 type panics

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 10082764b1dc22424f9af98a03a09c11baa5aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 19/26] fix: timer: registering a key that another instance
 registers at the same time fails

---
 d_timer/sql/timer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..0871ee5 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"context"
+	"errors"
 	stdlog "log"
 	"os"
 	"sync"
@@ -97,12 +98,29 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
+	err := t.create(job)
+	if isDuplicatedKey(t.db, err) {
+		// another instance has registered the key in the meantime
+		err = t.create(job)
+	}
+	return err
+}
+
+func (t *DBTimer) create(job *TimerJob) error {
 	return t.db.Where(TimerJob{
 		Service: t.service,
 		Key:     job.Key,
 	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
 }
 
+// isDuplicatedKey recognizes a duplicated key also when gorm is not configured with TranslateError.
+func isDuplicatedKey(db *gorm.DB, err error) bool {
+	if t, ok := db.Dialector.(gorm.ErrorTranslator); ok && err != nil {
+		err = t.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
+}
+
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
 	t.cb = cb
 }
-- 
2.43.0


From ffe606ded7f7b421c4ae25fed706b82c1b38ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 20/26] fix: timer: Cancel removes the timer of another service

---
 d_timer/sql/timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 0871ee5..589c58e 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -91,7 +91,7 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	return t.db.Unscoped().Where("service = ? AND `key` = ?", t.service, key).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From ab72c4a98b0570e548d863a1fbc2cf599958078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 21/26] fix: timer: a one-time timer fires up to half a second
 early

---
 d_timer/sql/timer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 589c58e..8e6fe1a 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -83,7 +83,8 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 	newTimer := TimerJob{
 		Service:  t.service,
 		Key:      key,
-		NextTime: runTime,
+		// the column has no fraction of a second and would be rounded to the nearest one
+		NextTime: runTime.Add(time.Second - time.Nanosecond).Truncate(time.Second),
 		Payload:  data,
 		Status:   TimerToRun,
 	}
-- 
2.43.0


From ceff3eace40491f3c8fa25cb3dc0db2e3dbfe410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 22/26] fix: update the right column when embedded structs
 share field names

---
 executor/mysql/diff.go     | 34 +++++++++++++++++++++++++++++++++-
 executor/mysql/executor.go |  6 +++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index e93aecc..e929c9d 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -19,6 +19,8 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+
+	"gorm.io/gorm/schema"
 )
 
 var schemaCache = &sync.Map{}
@@ -85,7 +87,9 @@ func diffStruct(currVal, prevVal reflect.Value) []string {
 		if reflect.Indirect(fieldVal).Kind() == reflect.Struct {
 			if structDiff, diff := diffValue(fieldVal, prevFiledVal); diff {
 				if field.Anonymous || hasValue(fieldTag, "embedded") {
-					result = append(result, structDiff...)
+					for _, f := range structDiff {
+						result = append(result, fieldName+"."+f)
+					}
 				} else {
 					result = append(result, fieldName)
 				}
@@ -102,9 +106,37 @@ func diffStruct(currVal, prevVal reflect.Value) []string {
 // DiffModel 模型差异对比，返回gorm命名规范的更新数据
 // 支持以下类型比对：常规数据类型(bool, int, float, string, time.Time)，嵌套可导出的非指针的 struct
 func DiffModel(curr, prev interface{}) []string {
+	fields := diffModel(curr, prev)
+	for i, f := range fields {
+		fields[i] = f[strings.LastIndex(f, ".")+1:]
+	}
+	return fields
+}
+
+// diffModel 同 DiffModel，但嵌套 struct 的字段返回完整路径，如 Base.Name
+func diffModel(curr, prev interface{}) []string {
 	currVal, prevVal := reflect.Indirect(reflect.ValueOf(curr)), reflect.Indirect(reflect.ValueOf(prev))
 	if currVal.Kind() != reflect.Struct || prevVal.Kind() != reflect.Struct {
 		return nil
 	}
 	return diffStruct(currVal, prevVal)
 }
+
+// diffColumns 返回有差异的列，不同的嵌套 struct 可能有同名的字段，需要用列名区分
+func diffColumns(s *schema.Schema, curr, prev interface{}) []string {
+	columns := make(map[string]string, len(s.Fields))
+	for _, f := range s.Fields {
+		if f.DBName != "" {
+			columns[strings.Join(f.BindNames, ".")] = f.DBName
+		}
+	}
+	fields := diffModel(curr, prev)
+	for i, f := range fields {
+		if column, ok := columns[f]; ok {
+			fields[i] = column
+		} else {
+			fields[i] = f[strings.LastIndex(f, ".")+1:]
+		}
+	}
+	return fields
+}
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..a9d8926 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -87,7 +87,11 @@ var opMap = map[ddd.OpType]execFunc{
 	ddd.OpUpdate: func(db *gorm.DB, a *ddd.Action) error {
 		for i, m := range a.Models {
 			if len(a.PrevModels) > i {
-				fields := DiffModel(m, a.PrevModels[i])
+				s, err := schema.Parse(m, schemaCache, db.NamingStrategy)
+				if err != nil {
+					return err
+				}
+				fields := diffColumns(s, m, a.PrevModels[i])
 				if len(fields) == 0 {
 					continue
 				}
-- 
2.43.0


From 09a58c28c7de87acda3c7f53684743666867f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 23/26] fix: executors and buses created in the same second
 shared their transactions

---
 eventbus/mysql/eventbus.go | 3 ++-
 executor/mysql/executor.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 6d792ae..1bfd44f 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -27,6 +27,7 @@ import (
 
 	"github.com/go-logr/logr"
 	"github.com/robfig/cron"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/clause"
 
@@ -212,7 +213,7 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		logger:        opt.Logger,
 		retryStrategy: strategy,
 		opt:           opt,
-		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
+		txKey:         contextKey("eventbus_tx_" + xid.New().String()),
 		cleanCron:     cron.New(),
 	}
 	_ = eb.initService()
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index a9d8926..1071a6c 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,9 +19,9 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/schema"
 )
@@ -152,7 +152,7 @@ type Executor struct {
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
 		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		txKey: contextKey("executor_tx_" + xid.New().String()),
 	}
 }
 
-- 
2.43.0


From 0e7fc000e7c70866e52340cde59432bac85341f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:32 +0000
Subject: [PATCH 24/26] fix: locks of a command are given back when the context
 of the caller has ended

---
 engine.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 7b431aa..1ede7bd 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1230,6 +1231,15 @@ func (e *Stage) do(ctx context.Context) *Result {
 	return e.result
 }
 
+// detachedCtx 保留 ctx 的值，但不受其取消或者超时的影响
+type detachedCtx struct {
+	context.Context
+}
+
+func (detachedCtx) Deadline() (deadline time.Time, ok bool) { return }
+func (detachedCtx) Done() <-chan struct{}                   { return nil }
+func (detachedCtx) Err() error                              { return nil }
+
 type doSave func(ctx context.Context) *Result
 
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
@@ -1255,7 +1265,8 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 		}
 		defer func() {
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				// 即使调用方的 ctx 已经取消或者超时，也必须释放锁
+				if err := e.locker.UnLock(detachedCtx{ctx}, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From 019617b106a7f6b35e098c2a6d067526c8c2295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 25/26] fix: Run releases its lock when the context of the
 caller has ended

---
 lock/db/sql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index c98c055..d359fba 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -166,13 +166,23 @@ func (r *DBLock) update(ctx context.Context, keyLock interface{}) error {
 	return nil
 }
 
+// detachedCtx keeps the values of a context, but not its end.
+type detachedCtx struct {
+	context.Context
+}
+
+func (detachedCtx) Deadline() (deadline time.Time, ok bool) { return }
+func (detachedCtx) Done() <-chan struct{}                   { return nil }
+func (detachedCtx) Err() error                              { return nil }
+
 func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Context)) error {
 	locker, err := r.Lock(ctx, key)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// the lock is released also when the context of the caller has ended
+		if err = r.UnLock(detachedCtx{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
-- 
2.43.0


From 09eaa7be9b97cd38ff3dc77d245ee8422284183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:21 +0000
Subject: [PATCH 26/26] fix: eventbus hands a delivery another event when a
 scanned event is cleaned in the meantime

---
 eventbus/mysql/eventbus.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 1bfd44f..f66ae5c 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -437,11 +437,19 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
+	for _, serviceEvent := range serviceEventPOs {
+		eventPO, ok := eventByID[serviceEvent.EventID]
+		if !ok {
+			// 两次查询之间，event 可能已经被其他实例处理并清理
+			continue
+		}
 		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
+			ServiceEvent: serviceEvent,
 			Event:        eventPO,
 		})
 	}
-- 
2.43.0

