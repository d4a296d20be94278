From d0d94b64ce8068b16a13daf511f47e650aa3b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 01/47] fix: LRUCache.Put must replace the value of a key that
 is already cached

---
 util/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..1c74951 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -70,6 +70,7 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
 	n, ok := cache.m[key]
 	if ok {
+		n.value = value
 		cache.remove(n, false)
 	} else {
 		n = &node{key, value, nil, nil}
-- 
2.43.0


From 0351d42a47b219a55b3bdd8549a688d3f41e20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 02/47] fix: SyncLRUCache.Get moves list nodes and needs the
 exclusive lock

---
 util/cache.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 1c74951..ba5416f 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -82,7 +82,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 }
 
 type SyncLRUCache struct {
-	rwm sync.RWMutex
+	rwm sync.Mutex
 	*LRUCache
 }
 
@@ -93,8 +93,9 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// Get reorders the LRU list, a read lock is not sufficient
+	cache.rwm.Lock()
+	defer cache.rwm.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
-- 
2.43.0


From 3bc8be518e844af29b2c4b10b6c9cba369a18e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 03/47] fix: distinct rules must not share a hash when a value
 contains the separator

---
 util/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..ee7f2a4 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"errors"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -26,6 +27,12 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+// Hash returns a key which is unique for every rule.
+// Each element is quoted, elements containing the separator can't be mixed up.
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	quoted := make([]string, len(rule))
+	for i, elem := range rule {
+		quoted[i] = strconv.Quote(elem)
+	}
+	return strings.Join(quoted, DefaultSep)
 }
-- 
2.43.0


From d6b2d83d3f7cf364a8a8431b12c6807334cf6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 04/47] fix: match cache and domain list must not conflate
 names containing a separator

---
 rbac/domain_manager.go | 5 ++---
 rbac/role_manager.go   | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..7113b24 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -87,7 +87,7 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
@@ -260,8 +260,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 	domainMap := make(map[string][]string)
 	dm.Range(func(name1, name2 string, domains ...string) bool {
-		domain := strings.Join(domains, "/")
-		domainMap[domain] = domains
+		domainMap[util.Hash(domains)] = domains
 		return true
 	})
 	domains := [][]string{}
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..19e46a1 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -60,7 +59,7 @@ func (rm *RoleManager) rebuild() {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := [2]string{str, pattern}
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From 172d8c729c81b215b1a34f200e24f51ca9dc055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 05/47] fix: NewEnforcer must keep the file adapter it creates
 for a policy path

---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..f5c74f2 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -98,7 +98,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4c6f6232ebea250f69ffdce233f507689a5936ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 06/47] fix: errors of the effector must reach the caller of
 Enforce

---
 enforcer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index f5c74f2..25b1568 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -333,11 +333,14 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		res, _, err = ctx.effector.MergeEffects(effects, matches, true)
+		if err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From 1d64d4a459ab720e7a157270e2682e17e21e0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 07/47] fix: read rule and request columns at their
 definition's position, key prefix or not

---
 enforcer.go        | 2 +-
 model/defs/defs.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 25b1568..5d9e5fd 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -317,7 +317,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(rule[1:]) //rule starts with the policy key
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..3de9fbf 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -88,7 +88,7 @@ func (def *PolicyDef) GetParameter(rule []string, name string) (string, error) {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
 	//check if rule is passed with key
-	if len(rule) > len(def.args) {
+	if len(rule) > len(def.args) && rule[0] == def.key {
 		index++
 	}
 	if index >= len(rule) {
@@ -145,8 +145,8 @@ func (def *RequestDef) GetParameter(values []interface{}, name string) (interfac
 	if !ok {
 		return "", errors.New("parameter '" + name + "' not found.")
 	}
-	//check if rule is passed with key
-	if len(values) > len(def.args) {
+	//check if request is passed with key
+	if len(values) > len(def.args) && values[0] == def.key {
 		index++
 	}
 	if index >= len(values) {
-- 
2.43.0


From fce1d0c63058f3e5264bc106a34954d445746f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 08/47] fix: Enforce with a matcher over grouping rules returns
 an error instead of panicking

---
 enforcer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 5d9e5fd..c93120c 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -309,8 +310,12 @@ func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn
 }
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
-	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
-	pDef := def.(*defs.PolicyDef)
+	pKey := ctx.matcher.GetPolicyKey()
+	def, _ := e.model.GetDef(m.P_SEC, pKey)
+	pDef, ok := def.(*defs.PolicyDef)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, pKey)
+	}
 	res := eft.Indeterminate
 	effects := []types.Effect{}
 	matches := [][]string{}
-- 
2.43.0


From 2048d8e5109bf1e44329416d6a716f6b88d6ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 09/47] fix: model getters report unknown keys with ok=false

---
 model/model.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/model/model.go b/model/model.go
index 88b8d5d..e38f1a3 100644
--- a/model/model.go
+++ b/model/model.go
@@ -315,11 +315,13 @@ func (m *Model) removeRoleRule(key string, rule []string) (bool, error) {
 }
 
 func (m *Model) GetPolicy(key string) (policy.IPolicy, bool) {
-	p, ok := m.pMap[key]
-	if !ok {
-		p, ok = m.rpMap[key]
+	if p, ok := m.pMap[key]; ok {
+		return p, true
+	}
+	if rp, ok := m.rpMap[key]; ok {
+		return rp, true
 	}
-	return p, ok
+	return nil, false
 }
 
 func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
@@ -328,7 +330,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -346,8 +351,8 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 }
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
-	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	def, ok := m.defs[R_SEC][key].(*defs.RequestDef)
+	return def, ok
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
-- 
2.43.0


From 9ebddc22e5e7c80be759d0c21f4b90a444b080a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 10/47] fix: NewContext must not hide a missing default
 definition

---
 context.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..6a83916 100644
--- a/context.go
+++ b/context.go
@@ -103,13 +103,19 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		if err := SetMatcher("m")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.effector == nil {
-		_ = SetEffector("e")(ctx)
+		if err := SetEffector("e")(ctx); err != nil {
+			return nil, err
+		}
 	}
 
 	return ctx, nil
-- 
2.43.0


From e42da5ede00de6a5328deed68b8289ee9e58e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 11/47] fix: evaluation errors of later matcher stages must not
 be swallowed

---
 model/matcher/matcher.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..a902007 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -198,17 +198,18 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
+		var nextErr error
 		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
-			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
-				return false //break
-			} else {
-				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
-				if err != nil || !cont {
-					return false
-				}
+			if nextExpr.IsLeafNode() {
+				return fn(nextNode.rule)
 			}
-			return true //continue
+			var cont bool
+			cont, nextErr = m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
+			return nextErr == nil && cont
 		})
+		if err == nil {
+			err = nextErr
+		}
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 1066566b062a923ae98ec36f29d0eb91d68323fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 12/47] fix: matcher stages may have any number of alternatives

---
 model/matcher/matcher.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index a902007..93d352b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -27,24 +27,37 @@ import (
 
 type MatcherNode struct {
 	rule     []string
-	children []map[string]*MatcherNode
+	children []map[string]*MatcherNode // one map for each child of the matcher stage
 }
 
 func NewMatcherNode(rule []string) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
 	return node
 }
 
+// getChildren returns the nodes of the i-th child stage, the result is nil if there are none
+func (n *MatcherNode) getChildren(i int) map[string]*MatcherNode {
+	if i >= len(n.children) {
+		return nil
+	}
+	return n.children[i]
+}
+
+// addChild adds a node to the i-th child stage
+func (n *MatcherNode) addChild(i int, key string, child *MatcherNode) {
+	for len(n.children) <= i {
+		n.children = append(n.children, make(map[string]*MatcherNode))
+	}
+	n.children[i][key] = child
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
-	if node, ok := n.children[i][key]; ok {
+	if node, ok := n.getChildren(i)[key]; ok {
 		return node
 	}
 	node := NewMatcherNode(rule)
-	n.children[i][key] = node
+	n.addChild(i, key, node)
 	return node
 }
 
@@ -135,7 +148,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.addChild(i, key, NewMatcherNode(rule))
 		}
 	}
 
@@ -158,11 +171,11 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		}
 
 		if !nextExpr.IsLeafNode() {
-			if nextNode, ok := node.children[i][key]; ok {
+			if nextNode, ok := node.getChildren(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
 			}
 		} else {
-			delete(node.children[i], key)
+			delete(node.getChildren(i), key)
 		}
 	}
 }
@@ -199,7 +212,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
 		var nextErr error
-		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
+		cont, err := m.rangeMatches(nextExpr, node.getChildren(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() {
 				return fn(nextNode.rule)
 			}
-- 
2.43.0


From 3d6efb4161967392db9a34ae3be120030c3b8be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 13/47] fix: removing the last rule below an index node must
 remove the node

---
 model/matcher/matcher.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 93d352b..3cc41e7 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -61,6 +61,16 @@ func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode
 	return node
 }
 
+// isEmpty returns true if there are no rules left below the node
+func (n *MatcherNode) isEmpty() bool {
+	for _, children := range n.children {
+		if len(children) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 type MatchParameters struct {
 	pDef  defs.PolicyDef
 	pvals []string
@@ -173,6 +183,9 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.getChildren(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					delete(node.getChildren(i), key)
+				}
 			}
 		} else {
 			delete(node.getChildren(i), key)
-- 
2.43.0


From 34e1df0b79ad83eaed7f16beb9da87d5ab577447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 14/47] fix: rules sharing an index node must be
 indistinguishable for its stage

---
 model/defs/matcher_def.go |  6 ++++++
 model/matcher/matcher.go  | 34 ++++++++++++++++------------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..c4906d6 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -49,6 +49,12 @@ func (stage *MatcherStage) RecursiveRequestArgs() []string {
 	return res
 }
 
+// HasEval returns true if the stage evaluates expressions, which are stored inside of rules.
+// Such expressions may access any policy argument.
+func (stage *MatcherStage) HasEval() bool {
+	return strings.Contains(stage.expr, "eval(")
+}
+
 func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 3cc41e7..0d12974 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -138,21 +138,27 @@ func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
 
+// nodeKey returns the key under which a rule is indexed at the given stage.
+// Rules can only share a node, if the stage can't tell them apart.
+func (m *Matcher) nodeKey(rule []string, expr *defs.MatcherStage) string {
+	pArgs := expr.GetPolicyArgs()
+	if len(pArgs) == 0 || expr.IsLeafNode() || expr.HasEval() {
+		return util.Hash(rule)
+	}
+	values, err := m.pDef.GetParameters(rule, pArgs)
+	if err != nil {
+		return util.Hash(rule)
+	}
+	return util.Hash(values)
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
 
 func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			nextNode := node.GetOrCreate(i, key, rule)
@@ -170,15 +176,7 @@ func (m *Matcher) removeRule(rule []string) {
 
 func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.getChildren(i)[key]; ok {
-- 
2.43.0


From 29228cc04a489b73d054881467fd19532417da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 15/47] fix: matching a request must not write to the function
 map of the model

---
 model/matcher/matcher.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 0d12974..2767f97 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -246,8 +246,11 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
-	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
-	functions := fMap.GetFunctions()
+	functions := make(map[string]govaluate.ExpressionFunction)
+	for name, fn := range fMap.GetFunctions() {
+		functions[name] = fn
+	}
+	functions["eval"] = generateEvalFunction(functions, params)
 
 	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
 	if err != nil {
@@ -265,9 +268,7 @@ func eval(expression string, functions map[string]govaluate.ExpressionFunction,
 	return expr.Eval(parameters)
 }
 
-func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) govaluate.ExpressionFunction {
-	functions := fMap.GetFunctions()
-
+func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) govaluate.ExpressionFunction {
 	return func(args ...interface{}) (interface{}, error) {
 		if err := util.ValidateVariadicArgs(1, args...); err != nil {
 			return false, fmt.Errorf("%s: %s", "eval", err)
-- 
2.43.0


From 75863488ff221d538e43852943ca977956ebe0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 16/47] fix: invalid data in a matching function is an
 evaluation error, not a panic

---
 util/builtin_operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..611a93c 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -133,7 +133,14 @@ func GlobMatchFunc(args ...interface{}) (interface{}, error) {
 }
 
 func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
-	return func(args ...interface{}) (interface{}, error) {
+	return func(args ...interface{}) (res interface{}, err error) {
+		// matching functions panic if they are called with an invalid value or pattern
+		defer func() {
+			if r := recover(); r != nil {
+				res, err = false, fmt.Errorf("%v", r)
+			}
+		}()
+
 		if err := ValidateVariadicArgs(2, args...); err != nil {
 			pc := reflect.ValueOf(fn).Pointer()
 			fnName := runtime.FuncForPC(pc).Name()
-- 
2.43.0


From 95bb55d848ba5b615a4b4e260ac2af82ade28646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 17/47] fix: a role name with an invalid regex pattern must not
 crash the role manager

---
 util/builtin_operators.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 611a93c..2055d1f 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -94,6 +94,12 @@ func RegexMatch(key1 string, key2 string) bool {
 	return res
 }
 
+// regexRoleMatch is used to match role and domain names, an invalid pattern matches nothing
+func regexRoleMatch(str, pattern string) bool {
+	res, err := regexp.MatchString(pattern, str)
+	return err == nil && res
+}
+
 // IPMatch determines whether IP address ip1 matches the pattern of IP address ip2, ip2 can be an IP address or a CIDR pattern.
 // For example, "192.168.2.123" matches "192.168.2.0/24"
 func IPMatch(ip1 string, ip2 string) bool {
@@ -240,4 +246,4 @@ const defaultPrefix = "p'"
 
 var PathMatcher = NewMatcher(IsPathPattern, PathMatch)
 var PathMatcher2 = NewMatcher(IsPathPattern2, PathMatch2)
-var RegexMatcher = NewPrefixMatcher(defaultPrefix, RegexMatch)
+var RegexMatcher = NewPrefixMatcher(defaultPrefix, regexRoleMatch)
-- 
2.43.0


From 1acd0902d6ff297f4fc5800a45aa49eb7d79c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 18/47] fix: malformed rules, columns and role arguments are
 errors, not panics

---
 model/matcher/matcher.go       |  3 +++
 model/model.go                 |  8 +++++++-
 model/policy/policy_api.go     | 11 +++++++++++
 rbac/role_manager_api.go       | 28 +++++++++++++++++-----------
 rbac/role_policy.go            |  9 +++++++++
 storage/adapter/fileadapter.go |  2 +-
 str/errors.go                  |  3 +++
 7 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 2767f97..075760a 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -88,6 +88,9 @@ func NewMatchParameters(pDef defs.PolicyDef, pvals []string, rDef defs.RequestDe
 }
 
 func (params *MatchParameters) Get(name string) (interface{}, error) {
+	if name == "" {
+		return nil, errors.New("parameter name is empty")
+	}
 	switch name[0] {
 	case 'p', 'g':
 		return params.pDef.GetParameter(params.pvals, name)
diff --git a/model/model.go b/model/model.go
index e38f1a3..fe0e181 100644
--- a/model/model.go
+++ b/model/model.go
@@ -168,7 +168,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
@@ -246,6 +246,9 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 }
 
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, "")
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +268,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if len(rule) == 0 || rule[0] == "" {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, "")
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
diff --git a/model/policy/policy_api.go b/model/policy/policy_api.go
index 45381d1..c25e08d 100644
--- a/model/policy/policy_api.go
+++ b/model/policy/policy_api.go
@@ -1,7 +1,10 @@
 package policy
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/api"
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	em "github.com/vansante/go-event-emitter"
 )
@@ -23,14 +26,22 @@ type IPolicy interface {
 
 func GetDistinct(p IPolicy, columns []int) ([][]string, error) {
 	resMap := make(map[string][]string)
+	var err error
 	p.Range(func(rule []string) bool {
 		values := make([]string, len(columns))
 		for i, column := range columns {
+			if column < 0 || column >= len(rule) {
+				err = fmt.Errorf(str.ERR_INVALID_COLUMN, column)
+				return false
+			}
 			values[i] = rule[column]
 		}
 		resMap[util.Hash(values)] = values
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	res := make([][]string, 0)
 	for _, values := range resMap {
 		res = append(res, values)
diff --git a/rbac/role_manager_api.go b/rbac/role_manager_api.go
index 62612dd..8251d5e 100644
--- a/rbac/role_manager_api.go
+++ b/rbac/role_manager_api.go
@@ -15,6 +15,10 @@
 package rbac
 
 import (
+	"errors"
+	"fmt"
+
+	"github.com/abichinger/fastac/str"
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
 )
@@ -53,19 +57,21 @@ type IDefaultRoleManager interface {
 func GenerateGFunction(rm IRoleManager) govaluate.ExpressionFunction {
 
 	return func(args ...interface{}) (interface{}, error) {
-		name1 := args[0].(string)
-		name2 := args[1].(string)
+		names := []string{}
+		for _, arg := range args {
+			name, ok := arg.(string)
+			if !ok {
+				return false, fmt.Errorf(str.ERR_INVALID_ROLE_ARG, arg)
+			}
+			names = append(names, name)
+		}
+		if len(names) < 2 {
+			return false, errors.New(str.ERR_INVALID_ROLE_RULE)
+		}
 
 		if rm == nil {
-			return name1 == name2, nil
-		} else if len(args) == 2 {
-			return rm.HasLink(name1, name2)
-		} else {
-			domains := []string{}
-			for _, domain := range args[2:] {
-				domains = append(domains, domain.(string))
-			}
-			return rm.HasLink(name1, name2, domains...)
+			return names[0] == names[1], nil
 		}
+		return rm.HasLink(names[0], names[1], names[2:]...)
 	}
 }
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..2b4d588 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -1,7 +1,10 @@
 package rbac
 
 import (
+	"errors"
+
 	"github.com/abichinger/fastac/model/policy"
+	"github.com/abichinger/fastac/str"
 	em "github.com/vansante/go-event-emitter"
 )
 
@@ -16,6 +19,9 @@ func NewRolePolicy(rm IRoleManager) *RolePolicy {
 }
 
 func (p *RolePolicy) AddRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_ROLE_RULE)
+	}
 	added, err := p.rm.AddLink(rule[0], rule[1], rule[2:]...)
 	if !added || err != nil {
 		return added, err
@@ -25,6 +31,9 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 }
 
 func (p *RolePolicy) RemoveRule(rule []string) (bool, error) {
+	if len(rule) < 2 {
+		return false, errors.New(str.ERR_INVALID_ROLE_RULE)
+	}
 	removed, err := p.rm.DeleteLink(rule[0], rule[1], rule[2:]...)
 	if !removed || err != nil {
 		return removed, err
diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..7eff8f6 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -28,7 +28,7 @@ import (
 
 // LoadPolicyLine loads a text line as a policy rule to model.
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
-	if line == "" || strings.HasPrefix(line, "#") {
+	if strings.TrimSpace(line) == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..5a4bab9 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -23,4 +23,7 @@ const (
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
 	ERR_INVALID_MODEL        = "invalid model"
+	ERR_INVALID_COLUMN       = "error: rule has no column %d"
+	ERR_INVALID_ROLE_ARG     = "error: role name must be a string, but got %v"
+	ERR_INVALID_ROLE_RULE    = "error: a role rule needs at least two values"
 )
-- 
2.43.0


From 0f27b3e2b0a46c71cb742e1e09ff42648454dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 19/47] fix: an indeterminate first match must not hide a later
 allow

---
 model/effector/default_effector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..c1eb802 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -43,10 +43,13 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 		case eft.NO_DENY:
 			return eft.Allow, []string{}, nil
 		case eft.SOME_ALLOW_NO_DENY:
-			if len(matches) == 0 {
-				return eft.Deny, []string{}, nil
+			// a deny would have been returned during the accumulation
+			for i, effect := range effects {
+				if effect == eft.Allow && i < len(matches) {
+					return effect, matches[i], nil
+				}
 			}
-			return effects[0], matches[0], nil
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From 944dd06aeee5c1824658ee78c2879c648213f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 20/47] fix: clearing a role policy must notify its listeners

---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index 2b4d588..b62a624 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -54,7 +54,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From 804ac53fd3e10a8809a3d585c8a60b4d38ae8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 21/47] fix: concurrent decisions must not race on the default
 logger

---
 log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..7ff8105 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
@@ -15,12 +15,12 @@ func NullLogger() log.FieldLogger {
 }
 
 func SetLogger(logger log.FieldLogger) {
+	if logger == nil {
+		logger = NullLogger()
+	}
 	defaultLogger = logger
 }
 
 func Logger() log.FieldLogger {
-	if defaultLogger == nil {
-		SetLogger(NullLogger())
-	}
 	return defaultLogger
 }
-- 
2.43.0


From 534ef57dc342f6277cb08b73dce03e5032e66e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 22/47] fix: initialise the global function map once and skip
 the whole path separator

---
 model/fm/global.go        | 5 +----
 util/builtin_operators.go | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/fm/global.go b/model/fm/global.go
index 5fc592f..f22fc61 100644
--- a/model/fm/global.go
+++ b/model/fm/global.go
@@ -2,12 +2,9 @@ package fm
 
 import "github.com/abichinger/govaluate"
 
-var globalFns *FunctionMap
+var globalFns = NewFunctionMap()
 
 func getGlobalFunctionMap() *FunctionMap {
-	if globalFns == nil {
-		globalFns = NewFunctionMap()
-	}
 	return globalFns
 }
 
diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 2055d1f..3ef42a4 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -166,7 +166,7 @@ func nextSegment(path, sep string) (seg string, remaining string, last bool) {
 	if i == -1 {
 		return path, "", true
 	}
-	return path[:i], path[i+1:], false
+	return path[:i], path[i+len(sep):], false
 }
 
 func isDynamicSegment(segment string, prefix, suffix byte) bool {
-- 
2.43.0


From 9971cccba75c79189bcf8ea5387a517da8993c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 23/47] fix: iteration over rules and links must end when the
 callback returns false

---
 model/model.go         | 25 +++++++++++++++++--------
 rbac/domain_manager.go |  7 ++++---
 rbac/role_manager.go   |  7 ++++---
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/model/model.go b/model/model.go
index fe0e181..344d8f7 100644
--- a/model/model.go
+++ b/model/model.go
@@ -415,17 +415,26 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
-	for pKey, p := range m.pMap {
-		ruleKey := []string{pKey}
+	cont := true
+	rangePolicy := func(key string, p policy.IPolicy) {
+		ruleKey := []string{key}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
 	}
-	for gKey, rm := range m.rpMap {
-		ruleKey := []string{gKey}
-		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
-		})
+
+	for pKey, p := range m.pMap {
+		if !cont {
+			return
+		}
+		rangePolicy(pKey, p)
+	}
+	for gKey, rp := range m.rpMap {
+		if !cont {
+			return
+		}
+		rangePolicy(gKey, rp)
 	}
 }
 
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 7113b24..fcb5f6e 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -292,12 +292,13 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 			domains = append(domains, d)
 		}
 
+		cont := true
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 19e46a1..6142553 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -253,14 +253,15 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
+		cont := true
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
 			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
+				cont = fn(user.name, roleName)
 			}
-			return true
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From ac9f0280137e93b7f93675ab6539f43378185f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 24/47] fix: querying an unknown domain pattern must not
 register it

---
 rbac/domain_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index fcb5f6e..1b2113a 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -143,7 +143,9 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		}
 		if dm.domainMatcher != nil {
 			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
+				if store {
+					dm.patternMap.Store(domain, nil)
+				}
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-- 
2.43.0


From ba6cf16e6c8273ec33063f4398b810668ab22855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 25/47] fix: DomainManager.SetMatcher must restore links of
 matching domain patterns

---
 rbac/domain_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1b2113a..90911dc 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -47,6 +47,7 @@ func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 		value.(IDefaultRoleManager).SetMatcher(matcher)
 		return true
 	})
+	dm.rebuild()
 }
 
 // SetDomainMatcher support use domain pattern in g
-- 
2.43.0


From 01b7307baa71de67ca9d802f748af110cbdd0657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 26/47] fix: a domain pattern must not take over links which
 were added explicitly

---
 rbac/role.go         |  4 +++-
 rbac/role_manager.go | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..44e7d0f 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -26,7 +26,8 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
+	explicit  *sync.Map //string set of roles which were added by a rule
+	redundant *sync.Map //string set of roles which were derived from a domain pattern
 }
 
 func newRole(name string) *Role {
@@ -36,6 +37,7 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
+	r.explicit = &sync.Map{}
 	r.redundant = &sync.Map{}
 	return &r
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 6142553..3906821 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -164,10 +164,13 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 	role, _ := rm.getRole(name2)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
+		user.redundant.Store(name2, nil)
+		return user.addRole(role), nil
 	}
 
-	return user.addRole(role), nil
+	_, has := user.explicit.LoadOrStore(name2, nil)
+	user.addRole(role)
+	return !has, nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
@@ -178,9 +181,19 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 
 	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
 		user.redundant.Delete(name2)
+		if _, ok := user.explicit.Load(name2); ok {
+			return false, nil
+		}
+		return user.removeRole(role), nil
 	}
 
-	return user.removeRole(role), nil
+	if _, ok := loadAndDelete(user.explicit, name2); !ok {
+		return false, nil
+	}
+	if _, ok := user.redundant.Load(name2); !ok {
+		user.removeRole(role)
+	}
+	return true, nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -254,11 +267,8 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
 		cont := true
-		user.roles.Range(func(key, _ interface{}) bool {
-			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
-				cont = fn(user.name, roleName)
-			}
+		user.explicit.Range(func(key, _ interface{}) bool {
+			cont = fn(user.name, key.(string))
 			return cont
 		})
 		return cont
-- 
2.43.0


From bc9cecf0a4be7184dfcf0f6c24c29c2161fa4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 27/47] fix: concurrent role queries must not remove each
 other's temporary roles

---
 rbac/domain_manager.go |  6 +-----
 rbac/role_manager.go   | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 90911dc..73d4349 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -249,11 +249,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 	res := []string{}
 	for _, domains := range domainArr {
 		rm := dm.resolveRoleManager(domains...)
-		role, created := rm.getRole(name)
-		if created {
-			defer rm.removeRole(role.name)
-		}
-		if len(role.getUsers()) > 0 || len(role.getRoles()) > 0 {
+		if rm.hasLinks(name) {
 			res = append(res, strings.Join(domains, "/"))
 		}
 	}
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 3906821..2145b82 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -24,6 +24,7 @@ const REDUNDANT_ROLE = "redundant_role"
 
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
+	mu                sync.Mutex // queries register temporary roles, they must not interleave
 	allRoles          *sync.Map
 	patternRoles      *sync.Map
 	maxHierarchyLevel int
@@ -160,6 +161,9 @@ func (rm *RoleManager) Clear() error {
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -176,6 +180,9 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -202,6 +209,9 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 		return true, nil
 	}
 
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, userCreated := rm.getRole(name1)
 	role, roleCreated := rm.getRole(name2)
 
@@ -236,6 +246,9 @@ func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role,
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	user, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(user.name)
@@ -246,6 +259,9 @@ func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
 	role, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(role.name)
@@ -253,6 +269,18 @@ func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error)
 	return role.getUsers(), nil
 }
 
+// hasLinks determines whether a name has at least one user or role
+func (rm *RoleManager) hasLinks(name string) bool {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
+	role, created := rm.getRole(name)
+	if created {
+		defer rm.removeRole(role.name)
+	}
+	return len(role.getUsers()) > 0 || len(role.getRoles()) > 0
+}
+
 // GetDomains gets domains that a user has
 func (rm *RoleManager) GetDomains(name string) ([]string, error) {
 	return []string{}, nil
-- 
2.43.0


From b2c4d5096ebbbddae9ae2a7257ef7e6310a008fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 28/47] fix: operations stay queued until the adapter has
 stored them

---
 storage/controller.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..cf7bb27 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -128,43 +128,28 @@ func (sc *StorageController) AutosaveEnabled() bool {
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
 func (sc *StorageController) batchFlush() error {
-
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
-
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
-
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		opc := sc.q[0].opc
+		rules := [][]string{}
+		for _, operation := range sc.q {
+			if operation.opc != opc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
-
-	if len(rules) > 0 {
-		if err := sc.runBatch(currentOpc, rules); err != nil {
+		if err := sc.runBatch(opc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From af83848ecc197f77ed131b61acc346777e5874d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 29/47] fix: failures of automatic saves are returned to the
 caller instead of panicking

---
 enforcer.go           | 24 ++++++++++++++++--------
 storage/controller.go | 14 ++++++++++----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index c93120c..8d2ed65 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -177,7 +177,11 @@ func (e *Enforcer) Flush() error {
 // Add grouping rule:
 //  e.AddRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) AddRule(rule []string) (bool, error) {
-	return e.model.AddRule(rule)
+	ok, err := e.model.AddRule(rule)
+	if flushErr := e.sc.Err(); err == nil {
+		err = flushErr
+	}
+	return ok, err
 }
 
 // RemoveRule removes a rule from the model
@@ -188,17 +192,21 @@ func (e *Enforcer) AddRule(rule []string) (bool, error) {
 // Add grouping rule:
 //  e.RemoveRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
-	return e.model.RemoveRule(rule)
+	ok, err := e.model.RemoveRule(rule)
+	if flushErr := e.sc.Err(); err == nil {
+		err = flushErr
+	}
+	return ok, err
 }
 
 // AddRules adds multiple rules to the model
-func (e *Enforcer) AddRules(rules [][]string) error {
+func (e *Enforcer) AddRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
@@ -211,13 +219,13 @@ func (e *Enforcer) AddRules(rules [][]string) error {
 }
 
 // RemoveRules removes multiple rules from the model
-func (e *Enforcer) RemoveRules(rules [][]string) error {
+func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
diff --git a/storage/controller.go b/storage/controller.go
index cf7bb27..7431dc1 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -45,6 +45,7 @@ type StorageController struct {
 	adapter   Adapter
 	q         []operation
 	wait      int
+	err       error
 	listeners []listener
 }
 
@@ -105,10 +106,7 @@ func (sc *StorageController) addOp(opc opcode, rule []string) {
 	if sc.autosave {
 		sc.wait--
 		if sc.wait <= 0 {
-			err := sc.Flush()
-			if err != nil {
-				panic(err)
-			}
+			sc.err = sc.Flush()
 		}
 	}
 }
@@ -125,6 +123,14 @@ func (sc *StorageController) AutosaveEnabled() bool {
 	return sc.autosave
 }
 
+// Err returns the error of the last automatic flush and resets it.
+// The operations which could not be stored will be part of the next flush.
+func (sc *StorageController) Err() error {
+	err := sc.err
+	sc.err = nil
+	return err
+}
+
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-- 
2.43.0


From f502be0812f8969ff419e44096ed7c7175a528a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 30/47] fix: SetModel must connect the storage controller to
 the new model

---
 enforcer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index 8d2ed65..84b963b 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -360,7 +360,12 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 }
 
 func (e *Enforcer) SetModel(model m.IModel) {
+	enabled := e.sc.Enabled()
 	e.model = model
+	e.SetAdapter(e.adapter) // listen for rule updates of the new model
+	if !enabled {
+		e.sc.Disable()
+	}
 }
 
 func (e *Enforcer) GetModel() m.IModel {
-- 
2.43.0


From 682eaaa0c5d3b9d302cbc5d7fb5fa335fb9332a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 31/47] fix: stored and queued rules must not share memory with
 the slice of the caller

---
 model/policy/policy.go | 1 +
 rbac/role_policy.go    | 1 +
 storage/controller.go  | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/policy/policy.go b/model/policy/policy.go
index c80337a..0d82110 100644
--- a/model/policy/policy.go
+++ b/model/policy/policy.go
@@ -40,6 +40,7 @@ func (p *Policy) AddRule(rule []string) (bool, error) {
 	if _, ok := p.ruleMap[key]; ok {
 		return false, nil
 	}
+	rule = append([]string{}, rule...) //the caller may reuse its slice
 	p.ruleMap[key] = rule
 	p.Emitter.EmitEvent(EVT_RULE_ADDED, rule)
 	return true, nil
diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index b62a624..f596ffe 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -26,6 +26,7 @@ func (p *RolePolicy) AddRule(rule []string) (bool, error) {
 	if !added || err != nil {
 		return added, err
 	}
+	rule = append([]string{}, rule...) //the caller may reuse its slice
 	p.Emitter.EmitEvent(policy.EVT_RULE_ADDED, rule)
 	return true, nil
 }
diff --git a/storage/controller.go b/storage/controller.go
index 7431dc1..be998e3 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -64,7 +64,7 @@ func NewStorageController(eventemitter api.IAddRemoveListener, adapter Adapter,
 
 func (sc *StorageController) addListener(event eventemitter.EventType, opc opcode) {
 	l := sc.em.AddListener(event, func(arguments ...interface{}) {
-		rule := arguments[0].([]string)
+		rule := append([]string{}, arguments[0].([]string)...) //the caller may reuse its slice
 		sc.addOp(opc, rule)
 	})
 
-- 
2.43.0


From cf2cc6316e42f3ff8e5d2ba476b91ecc3d13e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 32/47] fix: saving a policy file must not lose the old rules
 if it fails half way

---
 storage/adapter/fileadapter.go | 46 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 7eff8f6..a415947 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -17,13 +17,13 @@ package adapter
 import (
 	"bufio"
 	"encoding/csv"
+	"io"
 	"os"
 	"strings"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -95,34 +95,36 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	return scanner.Err()
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
-		}
+// SavePolicy writes all rules to a temporary file, which replaces the policy file once it is complete
+func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
+	tmpPath := a.path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return err
+	}
+
+	err = writeRules(file, model)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
 	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
+	if err == nil {
+		err = os.Rename(tmpPath, a.path)
 	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
 	if err != nil {
-		return nil, err
+		_ = os.Remove(tmpPath)
 	}
-	return bufio.NewWriter(f), nil
+	return err
 }
 
-func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
-	if err != nil {
-		return err
-	}
+func writeRules(w io.Writer, model api.IRangeRules) error {
+	var err error
+	writer := bufio.NewWriter(w)
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
-			return false
-		}
-		return true
+		_, err = writer.WriteString(strings.Join(rule, ", ") + "\n")
+		return err == nil
 	})
 	if err != nil {
 		return err
-- 
2.43.0


From eff9982675c2ea18c6fbf354e0cb1bb9880ee25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 33/47] fix: policy files must preserve values with separators,
 quotes, spaces and line breaks

---
 storage/adapter/fileadapter.go | 56 ++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index a415947..a153de4 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -20,24 +20,29 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
 )
 
+func newReader(r io.Reader) *csv.Reader {
+	reader := csv.NewReader(r)
+	reader.Comma = ','
+	reader.Comment = '#'
+	reader.TrimLeadingSpace = true
+	reader.FieldsPerRecord = -1 // rules have a different number of values
+	return reader
+}
+
 // LoadPolicyLine loads a text line as a policy rule to model.
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	if strings.TrimSpace(line) == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -85,14 +90,22 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	reader := newReader(file)
+	for {
+		rule, err := reader.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if len(rule) == 1 && rule[0] == "" {
+			continue // blank line
+		}
+		if _, err := model.AddRule(rule); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
 // SavePolicy writes all rules to a temporary file, which replaces the policy file once it is complete
@@ -119,11 +132,30 @@ func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	return err
 }
 
+// quoteField quotes a value, if it can't be stored as it is
+func quoteField(field string) string {
+	needsQuotes := strings.ContainsAny(field, ",\"\r\n") ||
+		strings.HasPrefix(field, "#") ||
+		strings.TrimLeftFunc(field, unicode.IsSpace) != field
+	if !needsQuotes {
+		return field
+	}
+	return `"` + strings.ReplaceAll(field, `"`, `""`) + `"`
+}
+
+func formatRule(rule []string) string {
+	fields := make([]string, len(rule))
+	for i, field := range rule {
+		fields[i] = quoteField(field)
+	}
+	return strings.Join(fields, ", ")
+}
+
 func writeRules(w io.Writer, model api.IRangeRules) error {
 	var err error
 	writer := bufio.NewWriter(w)
 	model.RangeRules(func(rule []string) bool {
-		_, err = writer.WriteString(strings.Join(rule, ", ") + "\n")
+		_, err = writer.WriteString(formatRule(rule) + "\n")
 		return err == nil
 	})
 	if err != nil {
-- 
2.43.0


From 3533c63166261da1bd114b7e721e1dc39079febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 34/47] fix: alternatives of a matcher must not lose stages of
 a nested conjunction

---
 model/defs/matcher_def.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index c4906d6..c3576da 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -168,7 +168,9 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// and is shared with other alternatives, appending in place could overwrite their stages
+		nextAnd := append([][]govaluate.ExpressionToken{}, and...)
+		return buildExprTree(node, tokens[:index], append(nextAnd, tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From e208e34b4714755096c2e2268f61775885572512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 35/47] fix: a ternary operator binds weaker than logical
 operators

---
 model/defs/matcher_def.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index c3576da..8d420ab 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -77,6 +77,7 @@ type MatcherDef struct {
 func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	clauseCounter := 0
 	index := -1
+	orIndex := -1
 	isBracket := tokens[0].Kind == govaluate.CLAUSE
 
 	for i, token := range tokens {
@@ -93,11 +94,19 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 				break
 			}
 			index = i
-			if token.Value == "||" {
-				return index, false
+			if token.Value == "||" && orIndex == -1 {
+				orIndex = i
+			}
+		case govaluate.TERNARY, govaluate.SEPARATOR:
+			// these operators bind weaker than a logical operator
+			if clauseCounter == 0 {
+				return -1, false
 			}
 		}
 	}
+	if orIndex != -1 {
+		return orIndex, false
+	}
 	return index, isBracket
 }
 
-- 
2.43.0


From 6f8f8da21755b75429d8d62212273695c6c0d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 36/47] fix: literals and variables of a matcher must survive
 the split into stages

---
 model/defs/matcher_def.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 8d420ab..763dfe6 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,7 +3,10 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"regexp"
+	"strconv"
 	"strings"
+	"time"
 
 	"github.com/abichinger/govaluate"
 )
@@ -110,12 +113,43 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	return index, isBracket
 }
 
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`, `"`, `\"`)
+var variableEscaper = strings.NewReplacer(`\`, `\\`, `]`, `\]`)
+var simpleVariable = regexp.MustCompile(`^\pL[\pL\p{Nd}_]*$`)
+
+// quoteString returns a string literal, which is parsed as value
+func quoteString(value string) string {
+	return "'" + stringEscaper.Replace(value) + "'"
+}
+
+func quoteVariable(name string) string {
+	switch name {
+	case "true", "false", "in", "IN":
+		break
+	default:
+		if simpleVariable.MatchString(name) {
+			return name
+		}
+	}
+	return "[" + variableEscaper.Replace(name) + "]"
+}
+
+// tokensToExpr converts tokens back to an expression.
+// The expression needs to be parsed to an equal list of tokens.
 func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	res := ""
 	for i, token := range tokens {
 		switch token.Kind {
 		case govaluate.STRING:
-			res += fmt.Sprintf("'%v'", token.Value)
+			res += quoteString(token.Value.(string))
+		case govaluate.PATTERN:
+			res += quoteString(token.Value.(*regexp.Regexp).String())
+		case govaluate.TIME:
+			res += quoteString(token.Value.(time.Time).Format(time.RFC3339Nano))
+		case govaluate.NUMERIC:
+			res += strconv.FormatFloat(token.Value.(float64), 'f', -1, 64)
+		case govaluate.VARIABLE:
+			res += quoteVariable(token.Value.(string))
 		case govaluate.CLAUSE:
 			res += "("
 		case govaluate.CLAUSE_CLOSE:
-- 
2.43.0


From 3ce34d907f46fb3c272308cb2f67135fd5080460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 37/47] fix: an accessor must be separated from a textual
 operator

---
 model/defs/matcher_def.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 763dfe6..a8a54ec 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -170,11 +170,10 @@ func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 		switch token.Kind {
 		case govaluate.PREFIX, govaluate.CLAUSE, govaluate.FUNCTION:
 			break
-		case govaluate.ACCESSOR:
-			if nextKind == govaluate.CLAUSE {
-				break
-			}
 		default:
+			if token.Kind == govaluate.ACCESSOR && nextKind == govaluate.CLAUSE {
+				break // method call
+			}
 			if i != len(tokens)-1 && nextKind != govaluate.CLAUSE_CLOSE && nextKind != govaluate.SEPARATOR {
 				res += " "
 			}
-- 
2.43.0


From 883eb3a340827fbbd0cf96fca8a57374d8bcf1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 38/47] fix: matcher arguments must not be confused with string
 literals or other identifiers

---
 model/defs/defs.go        | 28 +++++++++++++++++++++++++---
 model/defs/matcher_def.go |  6 +++---
 model/matcher/matcher.go  |  2 +-
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 3de9fbf..f8d005c 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -27,9 +27,31 @@ import (
 const DefaultSep = ","
 const DefaultRoleParty = "_"
 
-var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
-var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
-var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+var ArgReg = regexp.MustCompile(`^([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
+var pArgReg = regexp.MustCompile(`^([pg][0-9]*)_([A-Za-z0-9_]+)`)
+var rArgReg = regexp.MustCompile(`^(r[0-9]*)_([A-Za-z0-9_]+)`)
+
+// tokenReg matches string literals and identifiers
+var tokenReg = regexp.MustCompile(`["'](?:[^"'\\]|\\.)*["']|[A-Za-z_][A-Za-z0-9_.]*`)
+
+// ReplaceArgs replaces the dot of every argument with an underscore, e.g. r.sub => r_sub
+// String literals and other identifiers are not modified
+func ReplaceArgs(expr string) string {
+	return tokenReg.ReplaceAllStringFunc(expr, func(token string) string {
+		return ArgReg.ReplaceAllString(token, "${1}_${3}")
+	})
+}
+
+// findArgs returns all arguments of an expression, which match the given regex
+func findArgs(expr string, reg *regexp.Regexp) []string {
+	args := []string{}
+	for _, token := range tokenReg.FindAllString(expr, -1) {
+		if arg := reg.FindString(token); arg != "" {
+			args = append(args, arg)
+		}
+	}
+	return args
+}
 
 type IDef interface {
 	String() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index a8a54ec..5189485 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -21,8 +21,8 @@ type MatcherStage struct {
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
-	stage.pArgs = pArgReg.FindAllString(stage.expr, -1)
-	stage.rArgs = rArgReg.FindAllString(stage.expr, -1)
+	stage.pArgs = findArgs(stage.expr, pArgReg)
+	stage.rArgs = findArgs(stage.expr, rArgReg)
 	return stage
 }
 
@@ -235,7 +235,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := ReplaceArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 075760a..049373b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -278,7 +278,7 @@ func generateEvalFunction(functions map[string]govaluate.ExpressionFunction, par
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.ReplaceArgs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From 9bcd8a985a656178dfe8b78cec6aabdc0bd5b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 39/47] fix: Put of a cache without capacity must not panic

---
 util/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/cache.go b/util/cache.go
index ba5416f..a6591b5 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -68,6 +68,9 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
+	if cache.capacity <= 0 {
+		return //nothing can be kept
+	}
 	n, ok := cache.m[key]
 	if ok {
 		n.value = value
-- 
2.43.0


From bd8fb81b129fe226e9a4b0a537eed30d97958066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 40/47] fix: links derived from a domain pattern must not be
 written to the memory of the caller

---
 rbac/domain_manager.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 73d4349..425261b 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -126,6 +126,12 @@ func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleMa
 	})
 }
 
+// redundant returns a copy of domains, which is marked as derived from a domain pattern
+// (append could write to the memory of the caller)
+func redundant(domains []string) []string {
+	return append(append(make([]string, 0, len(domains)+1), domains...), REDUNDANT_ROLE)
+}
+
 // load or create a RoleManager instance of domain
 func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ...string) IRoleManager {
 	var rm IDefaultRoleManager
@@ -150,7 +156,7 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
+						_, _ = rm.AddLink(name1, name2, redundant(domain)...)
 						return true
 					})
 				})
@@ -172,7 +178,7 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.AddLink(name1, name2, redundant(subdomains)...)
 		})
 	}
 	return added, nil
@@ -190,7 +196,7 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 
 	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.DeleteLink(name1, name2, redundant(subdomains)...)
 		})
 	}
 	return removed, nil
-- 
2.43.0


From 90585c7814654cda17e735ea5fbd473471daade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 41/47] fix: domains named like internal keys must not be
 confused with links without a domain

---
 rbac/domain_manager.go | 93 +++++++++++++++++++++++++++---------------
 rbac/role_manager.go   | 39 +++++++++++-------
 2 files changed, 84 insertions(+), 48 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 425261b..1287d77 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -21,7 +21,15 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const defaultDomain string = "RoleManager"
+// defaultDomain is the key of the links without a domain, no domain name is equal to it
+type defaultDomain struct{}
+
+// redundantLinks are links which were derived from a domain pattern
+type redundantLinks interface {
+	IDefaultRoleManager
+	addRedundantLink(name1, name2 string, domains ...string)
+	deleteRedundantLink(name1, name2 string, domains ...string)
+}
 
 type DomainManager struct {
 	rmMap             *sync.Map
@@ -78,15 +86,18 @@ func (dm *DomainManager) Clear() error {
 	return nil
 }
 
-func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains []string, err error) {
+func (dm *DomainManager) getDomain(domains ...string) (domain interface{}, subdomains []string, err error) {
 	if len(domains) == 0 {
-		return defaultDomain, []string{}, nil
-	} else if domains[0] == REDUNDANT_ROLE {
-		return defaultDomain, []string{REDUNDANT_ROLE}, nil
+		return defaultDomain{}, []string{}, nil
 	}
 	return domains[0], domains[1:], nil
 }
 
+func (dm *DomainManager) isPattern(domain interface{}) bool {
+	name, ok := domain.(string)
+	return ok && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(name)
+}
+
 func (dm *DomainManager) match(str string, pattern string) bool {
 	cacheKey := [2]string{str, pattern}
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
@@ -98,18 +109,18 @@ func (dm *DomainManager) match(str string, pattern string) bool {
 	}
 }
 
-func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok bool) {
+func (dm *DomainManager) load(name interface{}) (value redundantLinks, ok bool) {
 	if r, ok := dm.rmMap.Load(name); ok {
-		return r.(IDefaultRoleManager), true
+		return r.(redundantLinks), true
 	}
 	return nil, false
 }
 
-func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm redundantLinks)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
-		domain := key.(string)
-		if pattern != domain && dm.match(domain, pattern) {
-			fn(value.(IRoleManager))
+		domain, ok := key.(string) //links without a domain do not match
+		if ok && pattern != domain && dm.match(domain, pattern) {
+			fn(value.(redundantLinks))
 		}
 		return true
 	})
@@ -126,19 +137,14 @@ func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleMa
 	})
 }
 
-// redundant returns a copy of domains, which is marked as derived from a domain pattern
-// (append could write to the memory of the caller)
-func redundant(domains []string) []string {
-	return append(append(make([]string, 0, len(domains)+1), domains...), REDUNDANT_ROLE)
-}
-
 // load or create a RoleManager instance of domain
-func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ...string) IRoleManager {
-	var rm IDefaultRoleManager
+func (dm *DomainManager) getRoleManager(domain interface{}, store bool, subdomains ...string) redundantLinks {
+	var rm redundantLinks
 	var ok bool
 
 	if rm, ok = dm.load(domain); !ok {
-		if domain != defaultDomain {
+		name, named := domain.(string)
+		if named {
 			rm = NewDomainManager(dm.maxHierarchyLevel - 1)
 			rm.SetMatcher(dm.matcher)
 			rm.SetDomainMatcher(dm.domainMatcher)
@@ -148,15 +154,15 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		if store {
 			dm.rmMap.Store(domain, rm)
 		}
-		if dm.domainMatcher != nil {
-			if dm.domainMatcher.IsPattern(domain) {
+		if named && dm.domainMatcher != nil {
+			if dm.isPattern(domain) {
 				if store {
 					dm.patternMap.Store(domain, nil)
 				}
 			} else {
-				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
+				dm.rangeMatchingPatterns(name, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, redundant(domain)...)
+						rm.addRedundantLink(name1, name2, domain...)
 						return true
 					})
 				})
@@ -176,9 +182,9 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, redundant(subdomains)...)
+	if dm.isPattern(domain) {
+		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
+			rm.addRedundantLink(name1, name2, subdomains...)
 		})
 	}
 	return added, nil
@@ -194,14 +200,36 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
-		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, redundant(subdomains)...)
+	if dm.isPattern(domain) {
+		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
+			rm.deleteRedundantLink(name1, name2, subdomains...)
 		})
 	}
 	return removed, nil
 }
 
+func (dm *DomainManager) addRedundantLink(name1, name2 string, domains ...string) {
+	domain, subdomains, _ := dm.getDomain(domains...)
+	dm.getRoleManager(domain, true, subdomains...).addRedundantLink(name1, name2, subdomains...)
+
+	if dm.isPattern(domain) {
+		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
+			rm.addRedundantLink(name1, name2, subdomains...)
+		})
+	}
+}
+
+func (dm *DomainManager) deleteRedundantLink(name1, name2 string, domains ...string) {
+	domain, subdomains, _ := dm.getDomain(domains...)
+	dm.getRoleManager(domain, true, subdomains...).deleteRedundantLink(name1, name2, subdomains...)
+
+	if dm.isPattern(domain) {
+		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
+			rm.deleteRedundantLink(name1, name2, subdomains...)
+		})
+	}
+}
+
 // HasLink determines whether role: name1 inherits role: name2.
 func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
 	domain, subdomains, err := dm.getDomain(domains...)
@@ -233,11 +261,10 @@ func (dm *DomainManager) GetUsers(name string, domains ...string) ([]string, err
 }
 
 func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
-	var domain string
 	domainManager := dm
 	domain, subdomains, _ := dm.getDomain(domains...)
 
-	for domain != defaultDomain {
+	for domain != (defaultDomain{}) {
 		domainManager = domainManager.getRoleManager(domain, false, subdomains...).(*DomainManager)
 		domain, subdomains, _ = dm.getDomain(subdomains...)
 	}
@@ -293,7 +320,7 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
 		domains := []string{}
-		if d := key.(string); d != defaultDomain {
+		if d, ok := key.(string); ok {
 			domains = append(domains, d)
 		}
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 2145b82..01a6b2f 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -20,8 +20,6 @@ import (
 	"github.com/abichinger/fastac/util"
 )
 
-const REDUNDANT_ROLE = "redundant_role"
-
 // RoleManager provides a default implementation for the RoleManager interface
 type RoleManager struct {
 	mu                sync.Mutex // queries register temporary roles, they must not interleave
@@ -167,11 +165,6 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Store(name2, nil)
-		return user.addRole(role), nil
-	}
-
 	_, has := user.explicit.LoadOrStore(name2, nil)
 	user.addRole(role)
 	return !has, nil
@@ -186,14 +179,6 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
-		if _, ok := user.explicit.Load(name2); ok {
-			return false, nil
-		}
-		return user.removeRole(role), nil
-	}
-
 	if _, ok := loadAndDelete(user.explicit, name2); !ok {
 		return false, nil
 	}
@@ -203,6 +188,30 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	return true, nil
 }
 
+// addRedundantLink adds a link which was derived from a domain pattern
+func (rm *RoleManager) addRedundantLink(name1, name2 string, domains ...string) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
+	user, _ := rm.getRole(name1)
+	role, _ := rm.getRole(name2)
+	user.redundant.Store(name2, nil)
+	user.addRole(role)
+}
+
+// deleteRedundantLink removes a link which was derived from a domain pattern
+func (rm *RoleManager) deleteRedundantLink(name1, name2 string, domains ...string) {
+	rm.mu.Lock()
+	defer rm.mu.Unlock()
+
+	user, _ := rm.getRole(name1)
+	role, _ := rm.getRole(name2)
+	user.redundant.Delete(name2)
+	if _, ok := user.explicit.Load(name2); !ok {
+		user.removeRole(role)
+	}
+}
+
 // HasLink determines whether role: name1 inherits role: name2.
 func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
 	if name1 == name2 || (rm.matcher != nil && rm.match(name1, name2)) {
-- 
2.43.0


From 6ab586bddeba844a62d5f402438caec4922143bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 42/47] fix: links of nested or overlapping domain patterns
 must apply to every matching domain

---
 rbac/domain_manager.go | 47 ++++++++++++++++++++----------------------
 rbac/role_manager.go   | 30 +++++++++++++++------------
 2 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1287d77..c4c1978 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -28,7 +28,7 @@ type defaultDomain struct{}
 type redundantLinks interface {
 	IDefaultRoleManager
 	addRedundantLink(name1, name2 string, domains ...string)
-	deleteRedundantLink(name1, name2 string, domains ...string)
+	rangeAll(fn func(name1, name2 string, domain ...string) bool) //includes redundant links
 }
 
 type DomainManager struct {
@@ -72,7 +72,7 @@ func (dm *DomainManager) SetDomainMatcher(matcher util.IMatcher) {
 func (dm *DomainManager) rebuild() {
 	rmMap := dm.rmMap
 	_ = dm.Clear()
-	dm.rangeLinks(rmMap, func(name1, name2 string, domain ...string) bool {
+	dm.rangeLinks(rmMap, false, func(name1, name2 string, domain ...string) bool {
 		_, _ = dm.AddLink(name1, name2, domain...)
 		return true
 	})
@@ -119,14 +119,14 @@ func (dm *DomainManager) load(name interface{}) (value redundantLinks, ok bool)
 func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm redundantLinks)) {
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		domain, ok := key.(string) //links without a domain do not match
-		if ok && pattern != domain && dm.match(domain, pattern) {
+		if ok && !dm.isPattern(domain) && dm.match(domain, pattern) {
 			fn(value.(redundantLinks))
 		}
 		return true
 	})
 }
 
-func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm redundantLinks)) {
 	dm.patternMap.Range(func(key, _ interface{}) bool {
 		pattern := key.(string)
 		if pattern != domain && dm.match(domain, pattern) {
@@ -160,8 +160,8 @@ func (dm *DomainManager) getRoleManager(domain interface{}, store bool, subdomai
 					dm.patternMap.Store(domain, nil)
 				}
 			} else {
-				dm.rangeMatchingPatterns(name, func(rm2 IRoleManager) {
-					rm2.Range(func(name1, name2 string, domain ...string) bool {
+				dm.rangeMatchingPatterns(name, func(rm2 redundantLinks) {
+					rm2.rangeAll(func(name1, name2 string, domain ...string) bool {
 						rm.addRedundantLink(name1, name2, domain...)
 						return true
 					})
@@ -200,10 +200,11 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.isPattern(domain) {
-		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
-			rm.deleteRedundantLink(name1, name2, subdomains...)
-		})
+	for _, d := range domains {
+		if dm.isPattern(d) {
+			dm.rebuild() //the derived links may also be derived from another pattern
+			break
+		}
 	}
 	return removed, nil
 }
@@ -219,17 +220,6 @@ func (dm *DomainManager) addRedundantLink(name1, name2 string, domains ...string
 	}
 }
 
-func (dm *DomainManager) deleteRedundantLink(name1, name2 string, domains ...string) {
-	domain, subdomains, _ := dm.getDomain(domains...)
-	dm.getRoleManager(domain, true, subdomains...).deleteRedundantLink(name1, name2, subdomains...)
-
-	if dm.isPattern(domain) {
-		dm.rangeMatchingRMs(domain.(string), func(rm redundantLinks) {
-			rm.deleteRedundantLink(name1, name2, subdomains...)
-		})
-	}
-}
-
 // HasLink determines whether role: name1 inherits role: name2.
 func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
 	domain, subdomains, err := dm.getDomain(domains...)
@@ -316,16 +306,19 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 	return res, nil
 }
 
-func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+func (dm *DomainManager) rangeLinks(rmMap *sync.Map, all bool, fn func(name1, name2 string, domain ...string) bool) {
 	rmMap.Range(func(key, value interface{}) bool {
-		roleManager := value.(IRoleManager)
+		rangeRM := value.(redundantLinks).Range
+		if all {
+			rangeRM = value.(redundantLinks).rangeAll
+		}
 		domains := []string{}
 		if d, ok := key.(string); ok {
 			domains = append(domains, d)
 		}
 
 		cont := true
-		roleManager.Range(func(name1, name2 string, domain ...string) bool {
+		rangeRM(func(name1, name2 string, domain ...string) bool {
 			cont = fn(name1, name2, append(domains, domain...)...)
 			return cont
 		})
@@ -335,5 +328,9 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 }
 
 func (dm *DomainManager) Range(fn func(name1, name2 string, domain ...string) bool) {
-	dm.rangeLinks(dm.rmMap, fn)
+	dm.rangeLinks(dm.rmMap, false, fn)
+}
+
+func (dm *DomainManager) rangeAll(fn func(name1, name2 string, domain ...string) bool) {
+	dm.rangeLinks(dm.rmMap, true, fn)
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 01a6b2f..dea95b0 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -199,19 +199,6 @@ func (rm *RoleManager) addRedundantLink(name1, name2 string, domains ...string)
 	user.addRole(role)
 }
 
-// deleteRedundantLink removes a link which was derived from a domain pattern
-func (rm *RoleManager) deleteRedundantLink(name1, name2 string, domains ...string) {
-	rm.mu.Lock()
-	defer rm.mu.Unlock()
-
-	user, _ := rm.getRole(name1)
-	role, _ := rm.getRole(name2)
-	user.redundant.Delete(name2)
-	if _, ok := user.explicit.Load(name2); !ok {
-		user.removeRole(role)
-	}
-}
-
 // HasLink determines whether role: name1 inherits role: name2.
 func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
 	if name1 == name2 || (rm.matcher != nil && rm.match(name1, name2)) {
@@ -315,3 +302,20 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 func (rm *RoleManager) Range(fn func(name1, name2 string, domain ...string) bool) {
 	rangeLinks(rm.allRoles, fn)
 }
+
+// rangeAll passes explicit links and links which were derived from a domain pattern
+func (rm *RoleManager) rangeAll(fn func(name1, name2 string, domain ...string) bool) {
+	rm.allRoles.Range(func(_, value interface{}) bool {
+		user := value.(*Role)
+		cont := true
+		pass := func(key, _ interface{}) bool {
+			cont = fn(user.name, key.(string))
+			return cont
+		}
+		user.explicit.Range(pass)
+		if cont {
+			user.redundant.Range(pass)
+		}
+		return cont
+	})
+}
-- 
2.43.0


From 83aad0f9b51b5e1786774cf79f8db3602bcbb992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 43/47] fix: a query whose matcher panics must not leave a
 half-matched role behind

---
 rbac/role_manager.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index dea95b0..f2a7338 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -103,18 +103,28 @@ func (rm *RoleManager) getRole(name string) (r *Role, created bool) {
 
 	if role, ok = rm.load(name); !ok {
 		role = newRole(name)
-		rm.allRoles.Store(name, role)
-
-		if rm.matcher != nil {
-			if rm.matcher.IsPattern(name) {
-				rm.patternRoles.Store(name, nil)
-				rm.rangeMatchingRoles(name, func(r *Role) {
-					role.addMatch(r)
-				})
-			} else {
-				rm.rangeMatchingPatterns(name, func(r *Role) {
-					r.addMatch(role)
-				})
+
+		// a matcher may panic, nothing must be stored before all matches are known
+		if rm.matcher == nil {
+			rm.allRoles.Store(name, role)
+		} else if rm.matcher.IsPattern(name) {
+			matches := []*Role{}
+			rm.rangeMatchingRoles(name, func(r *Role) {
+				matches = append(matches, r)
+			})
+			rm.allRoles.Store(name, role)
+			rm.patternRoles.Store(name, nil)
+			for _, r := range matches {
+				role.addMatch(r)
+			}
+		} else {
+			patterns := []*Role{}
+			rm.rangeMatchingPatterns(name, func(r *Role) {
+				patterns = append(patterns, r)
+			})
+			rm.allRoles.Store(name, role)
+			for _, r := range patterns {
+				r.addMatch(role)
 			}
 		}
 	}
@@ -209,11 +219,10 @@ func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (b
 	defer rm.mu.Unlock()
 
 	user, userCreated := rm.getRole(name1)
-	role, roleCreated := rm.getRole(name2)
-
 	if userCreated {
 		defer rm.removeRole(user.name)
 	}
+	role, roleCreated := rm.getRole(name2)
 	if roleCreated {
 		defer rm.removeRole(role.name)
 	}
-- 
2.43.0


From 9b04cb028b0adf4555295ea6d96d0bfed2daa959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 44/47] fix: removing an unknown role definition must not
 remove a function

---
 model/handlers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/handlers.go b/model/handlers.go
index b14a8f1..8aa11ac 100644
--- a/model/handlers.go
+++ b/model/handlers.go
@@ -47,6 +47,9 @@ func addRoleDef(m *Model, key, arguments string) error {
 }
 
 func removeRoleDef(m *Model, key string) error {
+	if _, ok := m.rpMap[key]; !ok {
+		return nil //not a role definition, the key may be the name of another function
+	}
 	delete(m.defs[G_SEC], key)
 	delete(m.rpMap, key)
 	m.fm.RemoveFunction(key)
-- 
2.43.0


From 74bdf0716e6206129a54a0862b6b401ec94ad70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 45/47] fix: a wildcard of a path pattern also matches a
 segment named *

---
 util/builtin_operators.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index 3ef42a4..6a30422 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -188,12 +188,6 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 	pathS, path, lastPathSeg = nextSegment(path, sep)
 	patternS, pattern, lastPatternSeg = nextSegment(pattern, sep)
 
-	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
-		if lastPathSeg != lastPatternSeg {
-			return false
-		}
-		return PathMatchHelper(path, pattern, sep, prefix, suffix)
-	}
 	if patternS == "*" {
 		if !lastPatternSeg && lastPathSeg {
 			return false
@@ -201,6 +195,12 @@ func PathMatchHelper(path, pattern, sep string, prefix, suffix byte) bool {
 		return PathMatchHelper(path, pattern, sep, prefix, suffix) ||
 			PathMatchHelper(path, "*"+sep+pattern, sep, prefix, suffix)
 	}
+	if pathS == patternS || isDynamicSegment(patternS, prefix, suffix) {
+		if lastPathSeg != lastPatternSeg {
+			return false
+		}
+		return PathMatchHelper(path, pattern, sep, prefix, suffix)
+	}
 	return false
 }
 
-- 
2.43.0


From c71ee1cd8985d8ef43beae64734c38f0335c3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 46/47] fix: a rule without values shares no memory with the
 rules reported after it

---
 model/model.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/model/model.go b/model/model.go
index 344d8f7..b2c41ec 100644
--- a/model/model.go
+++ b/model/model.go
@@ -375,9 +375,9 @@ func (m *Model) SetEffector(key string, effector e.IEffector) {
 }
 
 func (m *Model) RangeMatches(matcher matcher.IMatcher, rDef *defs.RequestDef, rvals []interface{}, fn func(rule []string) bool) error {
-	policyKey := []string{matcher.GetPolicyKey()}
+	policyKey := matcher.GetPolicyKey()
 	return matcher.RangeMatches(*rDef, rvals, *m.fm, func(rule []string) bool {
-		return fn(append(policyKey, rule...))
+		return fn(append([]string{policyKey}, rule...))
 	})
 }
 
@@ -417,9 +417,8 @@ func (m *Model) String() string {
 func (m *Model) RangeRules(fn func(rule []string) bool) {
 	cont := true
 	rangePolicy := func(key string, p policy.IPolicy) {
-		ruleKey := []string{key}
 		p.Range(func(rule []string) bool {
-			cont = fn(append(ruleKey, rule...))
+			cont = fn(append([]string{key}, rule...))
 			return cont
 		})
 	}
-- 
2.43.0


From 164de974b010de7e0d4e31f24b831ab2c8faf3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:09 +0000
Subject: [PATCH 47/47] fix: a request value that panics when an attribute is
 read crashed the decision

---
 model/matcher/matcher.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 049373b..41eb040 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -209,7 +209,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 	for _, child := range rules {
 		params.pvals = child.rule
-		res, err := expr.Eval(params)
+		res, err := evaluate(expr, params)
 		if err != nil {
 			return false, err
 		}
@@ -263,6 +263,17 @@ func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap f
 	return nil
 }
 
+// evaluate returns the value of an expression.
+// Attributes and methods of a request value may panic, e.g. if an attribute is nil.
+func evaluate(expr *govaluate.EvaluableExpression, params *MatchParameters) (res interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("%v", r)
+		}
+	}()
+	return expr.Eval(params)
+}
+
 func eval(expression string, functions map[string]govaluate.ExpressionFunction, parameters *MatchParameters) (interface{}, error) {
 	expr, err := govaluate.NewEvaluableExpressionWithFunctions(expression, functions)
 	if err != nil {
-- 
2.43.0

