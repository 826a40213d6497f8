From d2f3f13f672843e8ea3e3125e63710f0eb05952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 01/37] fix: honor delegated group management for the token
 holder

The claims parsed while checking prerequisites never reached the
delegated authority check, so management by membership was evaluated for
the empty entity ID and never granted.  It was also consulted after
failures other than a missing capability.
---
 internal/rpc2/group.go | 10 +++++-----
 internal/rpc2/util.go  | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..68e3169 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -56,7 +56,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.hasDelegatedAuthority(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -136,7 +136,7 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	if r.GetAction() != pb.Action_READ {
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err != nil && !s.hasDelegatedAuthority(ctx, err, &g) {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -331,7 +331,7 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 	g := r.GetGroup()
 
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.hasDelegatedAuthority(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -372,7 +372,7 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.hasDelegatedAuthority(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
@@ -402,7 +402,7 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.hasDelegatedAuthority(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..1940339 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -189,6 +189,24 @@ func (s *Server) manageByMembership(entityID string, g *types.Group) bool {
 	return false
 }
 
+// hasDelegatedAuthority determines if a request that did not meet the
+// mutable prerequisites may proceed anyway because management of g has
+// been delegated to a group that the requestor is a member of.  Only
+// requests which are lacking a capability may be authorized this way;
+// any other failure (read-only server, missing or invalid token) is
+// final.
+func (s *Server) hasDelegatedAuthority(ctx context.Context, preErr error, g *types.Group) bool {
+	if preErr != ErrRequestorUnqualified {
+		return false
+	}
+
+	ctx, err := s.checkToken(ctx)
+	if err != nil {
+		return false
+	}
+	return s.manageByMembership(getTokenClaims(ctx).EntityID, g)
+}
+
 // mutablePrequisitesAreMet checks for common mutable prerequisites
 // such as the server being in a writeable mode, and the correct
 // capability being present in a valid token.
-- 
2.43.0


From 993474ecbf698e5599d9bab3ecbc8008e12a65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 02/37] fix: drop stale membership dependencies when group
 rules change

Removing a rule left the dependency edge behind, so reversing the
direction of a rule between two groups recursed without bound and
crashed the server.
---
 internal/mresolver/memberships.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..b345d3d 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -55,6 +55,11 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	// Rules that are no longer present on this group must not leave
+	// stale edges behind.
+	for _, affected := range mr.atom.ga {
+		delete(affected, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From 7db126a72a6c45cccba52ef79733773c5738a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 03/37] fix: keep resolving memberships when a rule's target
 group is destroyed

A group with a rule naming a destroyed group kept the old memberships
until the server was restarted, and after that lost all its members.
---
 internal/mresolver/memberships.go | 41 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index b345d3d..beb9985 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -92,7 +92,6 @@ func (mr *MResolver) RemoveGroup(group string) {
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
@@ -100,6 +99,10 @@ func (mr *MResolver) RemoveGroup(group string) {
 		delete(ga, group)
 	}
 	mr.gMutex.Unlock()
+
+	// Groups with rules that still name this group need to forget
+	// what it used to resolve to.
+	mr.resolveChanges(group)
 }
 
 // Resolve flattens out the membership tree and associated subtrees
@@ -117,6 +120,10 @@ func (mr *MResolver) Resolve(group string) error {
 
 	mr.l.Trace("Resolving Group", "group", group)
 
+	// Rules which target unknown groups contribute nothing to the
+	// resolution, but the rest of the rules still apply.
+	var unresolved error
+
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolIdent, Ident: g.self})
@@ -125,8 +132,6 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -140,22 +145,25 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				unresolved = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless the
+			// group doesn't exist.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				continue
+			}
 		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
-		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
@@ -169,14 +177,21 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				unresolved = err
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
+			// above call and can be retreived, unless the
+			// group doesn't exist.
+			r, ok = mr.atom.gt[gn]
 			mr.gMutex.RUnlock()
+			if !ok {
+				continue
+			}
 		}
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
+		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
@@ -187,7 +202,7 @@ func (mr *MResolver) Resolve(group string) error {
 	mr.atom.gs.Add(group, expr)
 	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
-	return nil
+	return unresolved
 }
 
 // MembersOfGroup returns a list of all entities that are a member of
-- 
2.43.0


From 8680413835a01f9861ebaad608eef672fcd49e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 04/37] fix: reject group rules that target the group itself

The cycle check only looked at the target's own rules, so a group could
include or exclude itself, which crashed the server while resolving it.
---
 internal/tree/hooks/check-expansion-cycle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..f6e643c 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -34,7 +34,7 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if err != nil {
 			return err
 		}
-		if cec.checkGroupCycles(child, g.GetName()) {
+		if parts[1] == g.GetName() || cec.checkGroupCycles(child, g.GetName()) {
 			return tree.ErrExistingExpansion
 		}
 	}
-- 
2.43.0


From 8fa957d40864ffcb9691aaa30844d5946a55adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 05/37] fix: match group rule targets exactly

Substring matching refused rules for groups whose name was contained in
an existing rule, and removing a rule also removed rules for every group
whose name contained the target.
---
 internal/tree/hooks/check-immediate-expansions.go | 2 +-
 internal/tree/hooks/patch-group-expansions.go     | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..78897ae 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,7 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			if strings.SplitN(existing[k], ":", 2)[1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..401e712 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -27,11 +27,10 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// Rules may be of either kind, but the target
+			// must match exactly.
+			g.Expansions = util.PatchStringSlice(g.Expansions, "INCLUDE:"+parts[1], false, true)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "EXCLUDE:"+parts[1], false, true)
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 0b8c5ac565a815de2aed1a605feabae332a930fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 06/37] fix: only merge plain metadata fields on entity and
 group updates

Merging also applied the lock state and key/value data of entities, and
the capabilities, rules, untyped metadata and key/value data of groups,
which all have dedicated calls with their own authorization and checks.
---
 internal/tree/hooks/merge-entity-meta.go | 2 ++
 internal/tree/hooks/merge-group-meta.go  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..3782382 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -25,6 +25,8 @@ func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.KV = nil
+	de.Meta.Locked = nil
 
 	proto.Merge(e, de)
 	return nil
diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 4b0479ea775ca099bbd8a1d5712ef65396c6afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 07/37] fix: reject updates without data instead of crashing

---
 internal/rpc2/entity.go | 3 +++
 internal/rpc2/group.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 736d037..f41a71c 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -61,6 +61,9 @@ func (s *Server) EntityUpdate(ctx context.Context, r *pb.EntityRequest) (*pb.Emp
 	}
 
 	de := r.GetData()
+	if de.GetMeta() == nil {
+		return &pb.Empty{}, ErrMalformedRequest
+	}
 	switch err := s.UpdateEntityMeta(de.GetID(), de.GetMeta()); err {
 	case db.ErrUnknownEntity:
 		s.log.Warn("Entity does not exist!",
diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 68e3169..bb4a964 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -59,6 +59,9 @@ func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 	if err != nil && !s.hasDelegatedAuthority(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
+	if g == nil {
+		return &pb.Empty{}, ErrMalformedRequest
+	}
 
 	switch err := s.UpdateGroupMeta(g.GetName(), g); err {
 	case db.ErrUnknownGroup:
-- 
2.43.0


From 02e76e46c1fb9d94cec8e31d22adecedd65c54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 08/37] fix: hold the lock while listing the members of a group

Listing members iterated the membership cache while other requests could
be writing to it, which is fatal to the process.
---
 internal/mresolver/memberships.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index beb9985..7cca4bc 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -214,6 +214,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
-- 
2.43.0


From 480c9b9eb572460dc24f3b9af9c3e580cbcaa2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 09/37] fix: keep entity IDs and group names within their own
 keyspace

IDs were joined into storage keys unchecked, so requesting the group
"../entities/root" returned the stored entity, secret included, and
empty or nested names were stored where nothing else could find them.
---
 internal/db/db.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..ffc3323 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -45,6 +46,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validID(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -64,6 +68,10 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	if !validID(e.GetID()) {
+		db.log.Warn("Entity ID is unsuitable for use as a key", "ID", e.GetID())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
@@ -79,6 +87,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validID(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -94,6 +105,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validID(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -113,6 +127,10 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	if !validID(g.GetName()) {
+		db.log.Warn("Group name is unsuitable for use as a key", "name", g.GetName())
+		return ErrInternalError
+	}
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
@@ -128,6 +146,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validID(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
@@ -249,6 +270,13 @@ func (db *DB) loadGroupBatch(ids []string) ([]*types.Group, error) {
 	return gSlice, nil
 }
 
+// validID checks that an ID or name addresses exactly one key within
+// its own part of the keyspace.  Anything else could be used to address
+// entities as groups or the other way around.
+func validID(ID string) bool {
+	return ID != "" && ID != "." && ID != ".." && !strings.Contains(ID, "/")
+}
+
 // SetParentLogger sets the parent logger for this instance.
 func SetParentLogger(l hclog.Logger) {
 	lb = l.Named("db")
-- 
2.43.0


From 509fe37e31ef27757d6abdd7fa934c5e409404af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 10/37] fix: do not create over an existing item that failed to
 load

Any error while checking for an existing entity or group was taken to
mean that it does not exist, so creating it again while storage was
failing replaced the stored one.
---
 internal/tree/hooks/fail-on-existing-entity.go | 4 ++++
 internal/tree/hooks/fail-on-existing-group.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..fb6a7df 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -23,6 +24,9 @@ func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	if err == nil {
 		return tree.ErrDuplicateEntityID
 	}
+	if err != db.ErrUnknownEntity {
+		return err
+	}
 	return nil
 }
 
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..304f94d 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,6 +21,8 @@ type FailOnExistingGroup struct {
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
 	if _, err := f.LoadGroup(dg.GetName()); err == nil {
 		return tree.ErrDuplicateGroupName
+	} else if err != db.ErrUnknownGroup {
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 453bde13cf7843f3ac7058af3043f97931e22d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 11/37] fix: serialize chains that modify the same entity or
 group

All changes load an item, modify it, and save it again, so concurrent
requests could undo each other: an unlucky login would revert a lock or
a secret change, and two automatically numbered entities could be given
the same number.
---
 internal/tree/entity-chains.go |  2 +
 internal/tree/group-chains.go  |  2 +
 internal/tree/locks.go         | 77 ++++++++++++++++++++++++++++++++++
 internal/tree/type.go          |  2 +
 4 files changed, 83 insertions(+)
 create mode 100644 internal/tree/locks.go

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..b910f59 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	defer m.locks.lockEntityChain(chain, de.GetID())()
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..c585bc2 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	defer m.locks.lockGroupChain(chain)()
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/locks.go b/internal/tree/locks.go
new file mode 100644
index 0000000..1c1e752
--- /dev/null
+++ b/internal/tree/locks.go
@@ -0,0 +1,77 @@
+package tree
+
+import (
+	"sync"
+)
+
+// chainLocks serializes chains which load, modify, and then save the
+// same item.  Without this, concurrent chains can undo the changes of
+// each other.
+type chainLocks struct {
+	// exists is held while entities are created or destroyed, so
+	// that the allocation of numbers sees all of them.
+	exists sync.Mutex
+
+	// group is held by all chains that modify any group, since
+	// rules need to be checked across groups.
+	group sync.Mutex
+
+	// Entities are locked by ID since chains that handle secrets
+	// can take a long time to run.
+	mu       sync.Mutex
+	entities map[string]*entityLock
+}
+
+type entityLock struct {
+	sync.Mutex
+	users int
+}
+
+// lockEntityChain acquires the locks needed to run the specified chain
+// for a given entity ID, and returns a function to release them.
+func (l *chainLocks) lockEntityChain(chain, ID string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+
+	exists := chain == "CREATE" || chain == "DESTROY" || chain == "BOOTSTRAP-SERVER"
+	if exists {
+		l.exists.Lock()
+	}
+
+	l.mu.Lock()
+	if l.entities == nil {
+		l.entities = make(map[string]*entityLock)
+	}
+	el, ok := l.entities[ID]
+	if !ok {
+		el = &entityLock{}
+		l.entities[ID] = el
+	}
+	el.users++
+	l.mu.Unlock()
+	el.Lock()
+
+	return func() {
+		el.Unlock()
+		l.mu.Lock()
+		el.users--
+		if el.users == 0 {
+			delete(l.entities, ID)
+		}
+		l.mu.Unlock()
+		if exists {
+			l.exists.Unlock()
+		}
+	}
+}
+
+// lockGroupChain acquires the locks needed to run the specified chain
+// on groups, and returns a function to release them.
+func (l *chainLocks) lockGroupChain(chain string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+	l.group.Lock()
+	return l.group.Unlock
+}
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..2c9b680 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -41,6 +41,8 @@ type Manager struct {
 
 	resolver *mresolver.MResolver
 
+	locks chainLocks
+
 	log hclog.Logger
 }
 
-- 
2.43.0


From f28ec124f622a0bf4c9f05c68393fb471f3122c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/37] fix: match entity keys exactly

Adding a key contained in an existing one was silently ignored, and
removing a key also removed every key it was contained in.
---
 internal/tree/hooks/entity-keys.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..ce14379 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -18,11 +18,28 @@ type ManageEntityKeys struct {
 // from the entity's keystore.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if mek.mode {
+			e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
+			continue
+		}
+		for _, s := range e.Meta.Keys {
+			if keyMatches(s, k) {
+				e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, s, mek.mode, true)
+			}
+		}
 	}
 	return nil
 }
 
+// keyMatches checks if a stored key is the one named by pattern.  The
+// type and the key must be the same, unless they are omitted from the
+// pattern in which case they match anything.
+func keyMatches(key, pattern string) bool {
+	kType, kValue := splitKeyValue(key)
+	pType, pValue := splitKeyValue(pattern)
+	return (pType == "" || pType == kType) && (pValue == "" || pValue == kValue)
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From c7a76b39df7c17e210c6bdfc27fecc906ed3c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 13/37] fix: keep temporary files of the filesystem store out
 of the keyspace

The probe and temporary files for each write were placed next to the
stored items, where concurrent listings (and any listing after a crash)
found them as broken items, which made number allocation fail.
---
 internal/db/filesystem/filesystem.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..0002d32 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -87,7 +87,7 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
+	if err := fs.writeFile(p, v); err != nil {
 		return err
 	}
 
@@ -185,6 +185,25 @@ func (fs *Filesystem) Capabilities() []db.KVCapability {
 	return out
 }
 
+// writeFile atomically replaces the file at p.  The temporary file is
+// kept out of the directories that contain keys, since it would be
+// discovered as one there.
+func (fs *Filesystem) writeFile(p string, v []byte) error {
+	t, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return err
+	}
+	defer t.Cleanup()
+
+	if err := t.Chmod(0640); err != nil {
+		return err
+	}
+	if _, err := t.Write(v); err != nil {
+		return err
+	}
+	return t.CloseAtomicallyReplace()
+}
+
 // cleanPath ensures that the path is inside of the base path.  This
 // is only promised to work on *nix systems, as Windows is an unholy
 // hellscape of legacy support that I'm pretty sure would let you
-- 
2.43.0


From 7c654fa675ab601a7457fd6ba25b58df4b2c3b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 14/37] fix: assign an unused number when the largest one is
 taken

---
 internal/db/db.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/db/db.go b/internal/db/db.go
index ffc3323..56933b6 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -179,17 +180,19 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		return 0, err
 	}
 
+	used := make(map[int32]struct{}, len(el))
 	for _, en := range el {
 		e, err := db.LoadEntity(path.Base(en))
 		if err != nil {
 			return 0, err
 		}
+		used[e.GetNumber()] = struct{}{}
 		if e.GetNumber() > largest {
 			largest = e.GetNumber()
 		}
 	}
 
-	return largest + 1, nil
+	return nextNumber(largest, used), nil
 }
 
 // NextGroupNumber computes the next available group number and
@@ -201,17 +204,32 @@ func (db *DB) NextGroupNumber() (int32, error) {
 	if err != nil {
 		return 0, err
 	}
+	used := make(map[int32]struct{}, len(l))
 	for _, i := range l {
 		g, err := db.LoadGroup(path.Base(i))
 		if err != nil {
 			return 0, err
 		}
+		used[g.GetNumber()] = struct{}{}
 		if g.GetNumber() > largest {
 			largest = g.GetNumber()
 		}
 	}
 
-	return largest + 1, nil
+	return nextNumber(largest, used), nil
+}
+
+// nextNumber returns the number after the largest one, or the first
+// unused one if there are no larger numbers left.
+func nextNumber(largest int32, used map[int32]struct{}) int32 {
+	if largest < math.MaxInt32 {
+		return largest + 1
+	}
+	n := int32(1)
+	for _, ok := used[n]; ok; _, ok = used[n] {
+		n++
+	}
+	return n
 }
 
 // Capabilities returns a slice of capabilities the backing store
-- 
2.43.0


From 5faf923eac2c48baaa51e525810035d0b23fb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:17 +0000
Subject: [PATCH 15/37] fix: open bitcask stores that were not closed

A server that is killed leaves its store unclosed.  If the store had been
closed properly before, its index is taken for current although changes were
made since, and those changes are lost.  If the kill interrupts the write of a
large record, or of one of the JSON files, the store can not be opened again.
Discard the index and whatever was only partially written before opening.
---
 internal/db/bitcask/bitcask.go | 98 +++++++++++++++++++++++++++++++++-
 1 file changed, 96 insertions(+), 2 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..aee4f0e 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,12 +3,17 @@
 package bitcask
 
 import (
+	"encoding/binary"
+	"encoding/json"
+	"io/ioutil"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
+	"github.com/prologic/bitcask/flock"
 	"github.com/spf13/viper"
 
 	"github.com/netauth/netauth/internal/db"
@@ -41,15 +46,23 @@ const (
 	eventDelete
 )
 
+const (
+	maxKeySize   = 1024
+	maxValueSize = 1024 * 1000 * 5 // 5MiB
+)
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
 
 	x := &BCStore{}
 	x.l = l.Named("bitcask")
+	if err := x.prepare(p); err != nil {
+		return nil, err
+	}
 	opts := []bitcask.Option{
-		bitcask.WithMaxKeySize(1024),
-		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
+		bitcask.WithMaxKeySize(maxKeySize),
+		bitcask.WithMaxValueSize(maxValueSize),
 		bitcask.WithSync(true),
 	}
 	b, err := bitcask.Open(p, opts...)
@@ -153,6 +166,87 @@ func (bcs *BCStore) fireEventForKey(k string, t eventType) {
 	}
 }
 
+// prepare makes a store that was not closed, for instance because the
+// server was killed, fit to be opened again.  The data files are the
+// only authority on the contents of the store: the index is written
+// when the store is closed but not invalidated by later changes, so it
+// is removed and will be rebuilt.  The small JSON files are replaced
+// if they were only partially written.
+func (bcs *BCStore) prepare(p string) error {
+	if err := os.MkdirAll(p, bitcask.DefaultDirFileModeBeforeUmask); err != nil {
+		return err
+	}
+	lock := flock.New(filepath.Join(p, "lock"))
+	if locked, err := lock.TryLock(); err != nil || !locked {
+		// Somebody else has this store open, which will be
+		// noticed when it is opened.
+		return nil
+	}
+	defer lock.Unlock()
+
+	if err := os.Remove(filepath.Join(p, "index")); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
+	for _, f := range []string{"config.json", "meta.json"} {
+		f = filepath.Join(p, f)
+		b, err := ioutil.ReadFile(f)
+		if os.IsNotExist(err) || err == nil && json.Valid(b) {
+			continue
+		}
+		if err != nil {
+			return err
+		}
+		bcs.l.Warn("Discarding incomplete file", "file", f)
+		if err := os.Remove(f); err != nil {
+			return err
+		}
+	}
+
+	files, err := ioutil.ReadDir(p)
+	if err != nil {
+		return err
+	}
+	for i := len(files) - 1; i >= 0; i-- {
+		if filepath.Ext(files[i].Name()) == ".data" {
+			return bcs.trimDatafile(filepath.Join(p, files[i].Name()))
+		}
+	}
+	return nil
+}
+
+// trimDatafile cuts an incomplete record off the end of a data file.
+// The change that was being written has never been acknowledged.
+// Anything else that might be wrong with the file is left alone.
+func (bcs *BCStore) trimDatafile(f string) error {
+	const prefix, checksum = 4 + 8, 4
+
+	b, err := ioutil.ReadFile(f)
+	if err != nil {
+		return err
+	}
+	n := 0
+	for n < len(b) {
+		if len(b)-n < prefix {
+			break
+		}
+		ks, vs := binary.BigEndian.Uint32(b[n:]), binary.BigEndian.Uint64(b[n+4:])
+		if ks == 0 || ks > maxKeySize || vs > maxValueSize {
+			return nil
+		}
+		size := prefix + int(ks) + int(vs) + checksum
+		if len(b)-n < size {
+			break
+		}
+		n += size
+	}
+	if n == len(b) {
+		return nil
+	}
+	bcs.l.Warn("Removing incomplete record", "file", f, "offset", n)
+	return os.Truncate(f, int64(n))
+}
+
 // SetEventFunc sets up a function to call to fire events to
 // subscribers.
 func (bcs *BCStore) SetEventFunc(f func(db.Event)) {
-- 
2.43.0


From 747ef1d4a2bad8092b9f79c41c569a1615d660e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 16/37] fix: report bitcask errors

A removal that failed was reported as done, and a record that can not be read
as one that does not exist.
---
 internal/db/bitcask/bitcask.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index aee4f0e..80050ee 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -90,19 +90,21 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	// This fails if the removal can not be recorded, such as when
+	// the disk is full.
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
-- 
2.43.0


From ff1aab01c7f4492b8c8e753f56a0059cf098cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:25 +0000
Subject: [PATCH 17/37] fix: filesystem store reports when it can not list its
 keys

A directory that could not be read, for example because the server ran out of
file descriptors, was treated like an empty one: records appeared to be missing
and their numbers were assigned again.
---
 internal/db/filesystem/filesystem.go | 57 +++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 0002d32..95726b1 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,6 +17,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	atomic "github.com/google/renameio"
@@ -140,22 +141,50 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	out := []string{}
+	dirs, err := readDir(fs.basePath)
+	if err != nil {
+		return nil, err
+	}
+	for _, d := range dirs {
+		// Anything else at this level, such as the mutable
+		// flag, is not part of the key space.
+		if i, err := os.Stat(filepath.Join(fs.basePath, d)); err != nil || !i.IsDir() {
+			if err != nil && !os.IsNotExist(err) {
+				return nil, err
+			}
+			continue
+		}
+		names, err := readDir(filepath.Join(fs.basePath, d))
+		if err != nil {
+			return nil, err
+		}
+		for _, n := range names {
+			k := "/" + d + "/" + n
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
 		}
 	}
-	return out[:i], nil
+	return out, nil
+}
+
+// readDir returns the sorted names in a directory.  A directory that
+// doesn't exist contains none.
+func readDir(p string) ([]string, error) {
+	d, err := os.Open(p)
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+
+	names, err := d.Readdirnames(-1)
+	sort.Strings(names)
+	return names, err
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From dee5831fa1eb3212cc0f1121052c8bad17edd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 18/37] fix: restrict existing token cache files before writing
 to them

---
 pkg/netauth/cache/fs/fs.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..40d2671 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -39,7 +39,22 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	f, err := os.OpenFile(fc.filepathFromOwner(owner), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+
+	// The file may have existed before with other permissions, so
+	// these need to be right before there is a token in it.
+	if err := f.Chmod(0600); err != nil {
+		f.Close()
+		return err
+	}
+	if _, err := f.WriteString(token); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From 3ae604b9c38fb3b0b92edcd2aeef6bd14d61b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 19/37] fix: keep the cached tokens of each owner in a file of
 its own

---
 pkg/netauth/cache/fs/fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 40d2671..082ae19 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -10,6 +10,7 @@ package fs
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -83,10 +84,12 @@ func (fc *fsCache) DelToken(owner string) error {
 }
 
 // filepathFromOwner is a convenience function which encapsulates the
-// path selection logic for where tokens are stored.
+// path selection logic for where tokens are stored.  The owner is
+// escaped to make sure that each has a file of its own below the
+// basepath.
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", url.PathEscape(owner), extension),
 	)
 }
-- 
2.43.0


From 41180d0521ceabd93a199465a06ac6afb185c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 20/37] fix: refuse to copy a datastore onto itself

---
 cmd/nsutil/db_copy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..38f7225 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -43,6 +43,11 @@ func init() {
 func dbCopyCmdRun(c *cobra.Command, args []string) {
 	startup.DoCallbacks()
 
+	if args[0] == args[1] {
+		fmt.Fprintf(os.Stderr, "Source and target are the same!\n")
+		os.Exit(1)
+	}
+
 	source, err := db.NewKV(args[0], nil)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error initializing source: %s\n", err)
-- 
2.43.0


From d565438de4952232ea9f91d6f157ca944b181b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 21/37] fix: stop the copy when keys can not be retrieved

---
 cmd/nsutil/db_copy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index 38f7225..85d26ab 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -57,6 +57,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -69,6 +70,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
-- 
2.43.0


From 27f4c54c580e484b88e36da73432059d95709109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:56 +0000
Subject: [PATCH 22/37] fix: accept capability changes spelled in lower case

The command line tool accepts actions and capabilities in any case, and documents
them in lower case, but the client library only knew upper case ones.
---
 pkg/netauth/system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 0ea91f8..393bb42 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
@@ -21,12 +22,12 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 	}
 
 	ctx = c.appendMetadata(ctx)
-	cap, ok := pb.Capability_value[capability]
+	cap, ok := pb.Capability_value[strings.ToUpper(capability)]
 	if !ok {
 		return fmt.Errorf("%s is not a recognized capability", capability)
 	}
 
-	a, ok := rpc.Action_value[action]
+	a, ok := rpc.Action_value[strings.ToUpper(action)]
 	if !ok {
 		return errors.New("action must be one of ADD, DROP")
 	}
-- 
2.43.0


From 4f8a6e888bf9d3deb42999354408381d9c1cba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:52 +0000
Subject: [PATCH 23/37] fix: return what was read for indexed keys and lower
 case key types

The server ignores the index of a key that is read, and knows key types in upper
case, but the client library looked for the answer under the exact spelling.
---
 pkg/netauth/entity.go | 11 +++++++----
 pkg/netauth/group.go  |  6 ++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 1878d7d..422c478 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -117,8 +117,10 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  The values are
+			// listed without the index that the key may
+			// have.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
@@ -264,8 +266,9 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		kv := parseKV(res.GetStrings())
 		if ktype != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{ktype: kv[ktype]}, nil
+			// return a much sparser map.  The server
+			// knows key types in upper case.
+			return map[string][]string{ktype: kv[strings.ToUpper(ktype)]}, nil
 		}
 		return kv, nil
 	}
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..74e03b6 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -111,8 +111,10 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  The values are
+			// listed without the index that the key may
+			// have.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
-- 
2.43.0


From 5d88eac7709004ef311992dcee40470cb8e351e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 24/37] fix: only report groups as managed by a group that are

The search for the groups managed by one group matches words, so that those that
are managed by a group with a similar name were reported too.
---
 pkg/netauth/group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 74e03b6..05c1c03 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -73,7 +73,15 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return res.GetGroups()[0], nil, nil
 	}
 
-	return res.GetGroups()[0], res2, nil
+	// The search also finds names that are only similar.
+	var managed []*pb.Group
+	for _, g := range res2 {
+		if g.GetManagedBy() == name {
+			managed = append(managed, g)
+		}
+	}
+
+	return res.GetGroups()[0], managed, nil
 }
 
 // GroupUM handles operations concerning the untyped key-value store
-- 
2.43.0


From a1204e54af72ac0412e1fa36456abdedcb34788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 25/37] fix: report malformed commands in the exit status

A command with missing or unknown arguments printed an error but ended as if it
had succeeded.
---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 8fac6e701610f35d9943fd2dec7c8865fd70e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 26/37] fix: status of a plugin that did not start crashed the
 server

The health check of a plugin is registered before the plugin is started,
and used its connection even when starting it had failed, so that the
first status request ended the server.
---
 internal/plugin/tree/consumer/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..dcd5855 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,12 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin did not start"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 3571b874e1c89576ed81951ee9c70ff01a824eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 27/37] fix: requests failed when a record held an empty value
 and a plugin was loaded

Records were sent to plugins with gob, which drops fields that are set to
a zero value.  A record with an empty value in its key/value data came
back without a field that is required, and could not be stored: the
entity could not even authenticate any more.  Send the records in their
own encoding.
---
 internal/plugin/tree/common/wire.go   | 134 ++++++++++++++++++++++++++
 internal/plugin/tree/consumer/main.go |   2 +-
 internal/plugin/tree/provider/main.go |   2 +-
 3 files changed, 136 insertions(+), 2 deletions(-)
 create mode 100644 internal/plugin/tree/common/wire.go

diff --git a/internal/plugin/tree/common/wire.go b/internal/plugin/tree/common/wire.go
new file mode 100644
index 0000000..83f6650
--- /dev/null
+++ b/internal/plugin/tree/common/wire.go
@@ -0,0 +1,134 @@
+package common
+
+import (
+	"bytes"
+	"encoding/gob"
+
+	"github.com/golang/protobuf/proto"
+
+	pb "github.com/netauth/protocol"
+)
+
+// wire is what is actually sent across the link.  Messages travel in
+// their own encoding, since gob loses fields of messages that are set,
+// but to a zero value.
+type wire struct {
+	Action     PluginAction
+	Entity     []byte
+	DataEntity []byte
+	Group      []byte
+	DataGroup  []byte
+}
+
+// pack serializes a message such that it can be told apart from a
+// missing one.
+func pack(m proto.Message) ([]byte, error) {
+	b, err := proto.Marshal(m)
+	return append([]byte{1}, b...), err
+}
+
+func (w *wire) encode() ([]byte, error) {
+	var buf bytes.Buffer
+	err := gob.NewEncoder(&buf).Encode(w)
+	return buf.Bytes(), err
+}
+
+func (w *wire) decode(b []byte) error {
+	return gob.NewDecoder(bytes.NewReader(b)).Decode(w)
+}
+
+func unpackEntity(b []byte) (*pb.Entity, error) {
+	if len(b) == 0 {
+		return nil, nil
+	}
+	e := new(pb.Entity)
+	return e, proto.Unmarshal(b[1:], e)
+}
+
+func unpackGroup(b []byte) (*pb.Group, error) {
+	if len(b) == 0 {
+		return nil, nil
+	}
+	g := new(pb.Group)
+	return g, proto.Unmarshal(b[1:], g)
+}
+
+// GobEncode satisfies the gob.GobEncoder interface.
+func (o PluginOpts) GobEncode() ([]byte, error) {
+	w := wire{Action: o.Action}
+	var err error
+	if o.Entity != nil {
+		if w.Entity, err = pack(o.Entity); err != nil {
+			return nil, err
+		}
+	}
+	if o.DataEntity != nil {
+		if w.DataEntity, err = pack(o.DataEntity); err != nil {
+			return nil, err
+		}
+	}
+	if o.Group != nil {
+		if w.Group, err = pack(o.Group); err != nil {
+			return nil, err
+		}
+	}
+	if o.DataGroup != nil {
+		if w.DataGroup, err = pack(o.DataGroup); err != nil {
+			return nil, err
+		}
+	}
+	return w.encode()
+}
+
+// GobDecode satisfies the gob.GobDecoder interface.
+func (o *PluginOpts) GobDecode(b []byte) error {
+	w := wire{}
+	err := w.decode(b)
+	if err != nil {
+		return err
+	}
+	o.Action = w.Action
+	if o.Entity, err = unpackEntity(w.Entity); err != nil {
+		return err
+	}
+	if o.DataEntity, err = unpackEntity(w.DataEntity); err != nil {
+		return err
+	}
+	if o.Group, err = unpackGroup(w.Group); err != nil {
+		return err
+	}
+	o.DataGroup, err = unpackGroup(w.DataGroup)
+	return err
+}
+
+// GobEncode satisfies the gob.GobEncoder interface.
+func (r PluginResult) GobEncode() ([]byte, error) {
+	w := wire{}
+	var err error
+	if w.Entity, err = pack(&r.Entity); err != nil {
+		return nil, err
+	}
+	if w.Group, err = pack(&r.Group); err != nil {
+		return nil, err
+	}
+	return w.encode()
+}
+
+// GobDecode satisfies the gob.GobDecoder interface.
+func (r *PluginResult) GobDecode(b []byte) error {
+	w := wire{}
+	if err := w.decode(b); err != nil {
+		return err
+	}
+	r.Entity.Reset()
+	r.Group.Reset()
+	if len(w.Entity) > 0 {
+		if err := proto.Unmarshal(w.Entity[1:], &r.Entity); err != nil {
+			return err
+		}
+	}
+	if len(w.Group) > 0 {
+		return proto.Unmarshal(w.Group[1:], &r.Group)
+	}
+	return nil
+}
diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index dcd5855..ada1fc2 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -14,7 +14,7 @@ import (
 
 var (
 	handshakeConfig = plugin.HandshakeConfig{
-		ProtocolVersion:  1,
+		ProtocolVersion:  2,
 		MagicCookieKey:   "TREE_PLUGIN",
 		MagicCookieValue: "treehello",
 	}
diff --git a/internal/plugin/tree/provider/main.go b/internal/plugin/tree/provider/main.go
index 74539ab..f507331 100644
--- a/internal/plugin/tree/provider/main.go
+++ b/internal/plugin/tree/provider/main.go
@@ -7,7 +7,7 @@ import (
 )
 
 var handshakeConfig = plugin.HandshakeConfig{
-	ProtocolVersion:  1,
+	ProtocolVersion:  2,
 	MagicCookieKey:   "TREE_PLUGIN",
 	MagicCookieValue: "treehello",
 }
-- 
2.43.0


From 8a3ed62ac7ffd898252879d5341ba25d3f3f0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:08 +0000
Subject: [PATCH 28/37] fix: fail2lock crashed for entities without metadata

Entities have no metadata at all until some is first written, and the
plugin ended when such an entity tried to authenticate, after which
nobody could authenticate any more.
---
 plugins/tree/fail2lock/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..6024dd6 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -66,6 +66,12 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	if e.Meta == nil {
+		// Entities don't have any metadata until it is first
+		// written to.
+		e.Meta = &pb.EntityMeta{}
+	}
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-- 
2.43.0


From 4bcc1c2e91cfb5a8e1a81173a00fc64461448592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 29/37] fix: fail2lock ignored its defaults when partly
 configured

The defaults do not apply to the part of the configuration that is cut
out for the plugin: without an interval nothing was ever locked, and
without a number of allowed failures everything was.
---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 6024dd6..cde20cb 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -17,8 +17,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -41,13 +39,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -81,18 +78,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From f01af31a50349cdc7b2db50dfaf0ae901acba0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 30/37] fix: concurrent authentications could crash fail2lock

The plugin is asked about concurrent requests concurrently, but its table
of failures was not protected; the runtime ends a process that writes a
map concurrently.
---
 plugins/tree/fail2lock/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index cde20cb..f7ab3d2 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -46,7 +47,7 @@ func main() {
 		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
 		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
-	tree.PluginMain(fail2lock{
+	tree.PluginMain(&fail2lock{
 		NullPlugin: tree.NullPlugin{},
 		failDB:     make(map[string][]time.Time),
 	})
@@ -55,6 +56,7 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	mu     sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -62,13 +64,16 @@ type fail2lock struct {
 // for auth.  Assuming it finds more than the configured amount, it
 // will lock the entity and return which will cause an authentication
 // failure.
-func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+func (f *fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	if e.Meta == nil {
 		// Entities don't have any metadata until it is first
 		// written to.
 		e.Meta = &pb.EntityMeta{}
 	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
@@ -102,7 +107,10 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // PostAuthCheck is only run if the authentication has succeeded.  In
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
-func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+func (f *fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From 8cd17c3f313773054e6095934f78397fa8ebd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 31/37] fix: do not list a nameless group when one is destroyed
 meanwhile

---
 internal/rpc2/entity.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index f41a71c..db95ffe 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -588,13 +588,16 @@ func (s *Server) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.Lis
 
 	groups := s.GetMemberships(ent)
 
-	out := make([]*types.Group, len(groups))
+	out := make([]*types.Group, 0, len(groups))
 	for i := range groups {
 		// We throw this error out here, as its logged at a
 		// lower level, and the side effect here is that only
 		// a partial result gets returned.
-		tmp, _ := s.FetchGroup(groups[i])
-		out[i] = tmp
+		tmp, err := s.FetchGroup(groups[i])
+		if err != nil {
+			continue
+		}
+		out = append(out, tmp)
 	}
 
 	return &pb.ListOfGroups{Groups: out}, nil
-- 
2.43.0


From fd72aa180b471df3cd6d38140764246f074ef14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:56 +0000
Subject: [PATCH 32/37] fix: untyped metadata edits with a colon in the key
 changed another key

---
 internal/rpc2/entity.go | 7 +++++++
 internal/rpc2/group.go  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index db95ffe..ebfaad6 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -2,6 +2,7 @@ package rpc2
 
 import (
 	"context"
+	"strings"
 
 	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/tree"
@@ -156,6 +157,12 @@ func (s *Server) EntityUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrin
 		return &pb.ListOfStrings{}, ErrMalformedRequest
 	}
 
+	// The key is stored in front of the value, up to the first
+	// colon, so it can't contain one.
+	if r.GetAction() != pb.Action_READ && strings.Contains(r.GetKey(), ":") {
+		return &pb.ListOfStrings{}, ErrMalformedRequest
+	}
+
 	if r.GetAction() != pb.Action_READ {
 		if s.readonly {
 			s.log.Warn("Mutable request in read-only mode!",
diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb4a964..fc55a74 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -2,6 +2,7 @@ package rpc2
 
 import (
 	"context"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 
@@ -136,6 +137,12 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 		return &pb.ListOfStrings{}, ErrMalformedRequest
 	}
 
+	// The key is stored in front of the value, up to the first
+	// colon, so it can't contain one.
+	if r.GetAction() != pb.Action_READ && strings.Contains(r.GetKey(), ":") {
+		return &pb.ListOfStrings{}, ErrMalformedRequest
+	}
+
 	if r.GetAction() != pb.Action_READ {
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-- 
2.43.0


From 4a173913d55b00eded28c2d7c106f186a85e572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:57 +0000
Subject: [PATCH 33/37] fix: entity key edits with a colon in the type changed
 keys of another type

---
 internal/rpc2/entity.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index ebfaad6..572f13b 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -400,6 +400,12 @@ func (s *Server) EntityKeys(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStr
 		return &pb.ListOfStrings{}, ErrMalformedRequest
 	}
 
+	// The type is stored in front of the key, up to the first
+	// colon, so it can't contain one.
+	if r.GetAction() != pb.Action_READ && strings.Contains(r.GetKey(), ":") {
+		return &pb.ListOfStrings{}, ErrMalformedRequest
+	}
+
 	if r.GetAction() != pb.Action_READ {
 		if s.readonly {
 			s.log.Warn("Mutable request in read-only mode!",
-- 
2.43.0


From 577d5b7d2ab9f28de8ceddf0f68d136b46345636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:09 +0000
Subject: [PATCH 34/37] fix: bcrypt accepted other secrets than the one set for
 long secrets and ones with null bytes

---
 internal/crypto/bcrypt/bcrypt.go | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 37ee50b..2387e76 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -1,6 +1,10 @@
 package bcrypt
 
 import (
+	"crypto/sha256"
+	"encoding/base64"
+	"strings"
+
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/pflag"
 	"github.com/spf13/viper"
@@ -10,6 +14,10 @@ import (
 	"github.com/netauth/netauth/internal/startup"
 )
 
+// digestMark precedes the hashes of secrets that bcrypt itself can't
+// tell from others.
+const digestMark = "sha256:"
+
 func init() {
 	startup.RegisterCallback(cb)
 	pflag.Int("crypto.bcrypt.cost", 15, "Cost for bcrypt")
@@ -40,18 +48,27 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
 // This is then returned for storage in the database.
 func (b *Engine) SecureSecret(secret string) (string, error) {
+	mark := ""
+	if !distinct(secret) {
+		mark, secret = digestMark, digest(secret)
+	}
 	hash, err := bcrypt.GenerateFromPassword([]byte(secret), b.cost)
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
 		return "", crypto.ErrInternalError
 	}
-	return string(hash[:]), nil
+	return mark + string(hash[:]), nil
 }
 
 // VerifySecret verifies a given secret against a given hash and
 // returns either nil for a match or a crypto.ErrAuthorizationFailure
 // in the case that the secret did not match the stored one.
 func (b *Engine) VerifySecret(secret, hash string) error {
+	if strings.HasPrefix(hash, digestMark) {
+		hash, secret = hash[len(digestMark):], digest(secret)
+	} else if strings.Contains(secret, "\x00") {
+		return crypto.ErrAuthorizationFailure
+	}
 	err := bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
@@ -59,3 +76,17 @@ func (b *Engine) VerifySecret(secret, hash string) error {
 	}
 	return nil
 }
+
+// distinct tells whether bcrypt distinguishes a secret from all others.
+// It uses no more than 72 bytes and repeats shorter secrets, separated
+// by null bytes.
+func distinct(secret string) bool {
+	return len(secret) < 72 && !strings.Contains(secret, "\x00")
+}
+
+// digest maps a secret to one of a length and alphabet that bcrypt
+// handles.
+func digest(secret string) string {
+	sum := sha256.Sum256([]byte(secret))
+	return base64.StdEncoding.EncodeToString(sum[:])
+}
-- 
2.43.0


From 3348fe60b6ba55cba1ce7070b17a2e6a20e9ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:09 +0000
Subject: [PATCH 35/37] fix: a token lacked capabilities when reading the
 entity or its groups failed

---
 internal/rpc2/auth.go | 11 ++++++++++-
 internal/rpc2/util.go | 40 +++++++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..631de0c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,16 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps, err := s.loadCapabilitiesForEntity(r.GetEntity().GetID())
+	if err != nil {
+		s.log.Warn("Error Loading Capabilities",
+			"entity", r.GetEntity().GetID(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.AuthResult{}, ErrInternal
+	}
 
 	// Generate Token
 	tkn, err := s.Generate(
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index 1940339..5d33ff4 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -6,6 +6,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/metadata"
 
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/token"
 
 	types "github.com/netauth/protocol"
@@ -13,15 +14,28 @@ import (
 
 type claimsContextKey struct{}
 
+// getCapabilitiesForEntity returns the capabilities that an entity
+// has, or none if these can't be determined.
 func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
-	// Get the full fledged entity; we can assert no error here
-	// since the entity was just loaded to perform an
-	// authentication check prior to calling this function.
-	// There's a minimal risk that the entity has vanished, but if
-	// that's the case then this will return empty since the
-	// FetchEntity function will return an empty entity, thus no
+	caps, err := s.loadCapabilitiesForEntity(id)
+	if err != nil {
+		return nil
+	}
+	return caps
+}
+
+// loadCapabilitiesForEntity returns the capabilities that an entity
+// has directly, and by the groups that it is a member of.
+func (s *Server) loadCapabilitiesForEntity(id string) ([]types.Capability, error) {
+	// Get the full fledged entity.  There's a minimal risk that
+	// the entity has vanished since it was loaded to perform the
+	// authentication check prior to calling this function, but if
+	// that's the case then it has no capabilities, thus no
 	// authorization attack can be performed via this vector.
-	e, _ := s.FetchEntity(id)
+	e, err := s.FetchEntity(id)
+	if err != nil && err != db.ErrUnknownEntity {
+		return nil, err
+	}
 
 	// First get the capabilities that are provided by the entity
 	// itself.
@@ -34,13 +48,13 @@ func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
 
 	// Next get the capabilities that are provided by any groups
 	// the entity may be in; include indirects for authentication
-	// queries.  We can assert no error here because the worst
-	// case is a group is returned that is completely empty.  In
-	// this case there will simply be no additional capabilities
-	// granted, and this function can continue without incident.
+	// queries.  A group that has vanished grants none.
 	groupNames := s.GetMemberships(e)
 	for _, name := range groupNames {
-		g, _ := s.FetchGroup(name)
+		g, err := s.FetchGroup(name)
+		if err != nil && err != db.ErrUnknownGroup {
+			return nil, err
+		}
 		for _, c := range g.GetCapabilities() {
 			caps[c]++
 		}
@@ -53,7 +67,7 @@ func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
 		capabilities[i] = c
 		i++
 	}
-	return capabilities
+	return capabilities, nil
 }
 
 // checkToken is used to validate authorization from the context.
-- 
2.43.0


From 6fc450a37e4a1c5afd7b1d8c8bfe5ff6bb7693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:40 +0000
Subject: [PATCH 36/37] fix: reading a key that no file can have failed instead
 of finding nothing

---
 internal/db/filesystem/filesystem.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 95726b1..a3febe2 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -19,6 +19,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"syscall"
 
 	atomic "github.com/google/renameio"
 	"github.com/hashicorp/go-hclog"
@@ -105,7 +106,7 @@ func (fs *Filesystem) Get(k string) ([]byte, error) {
 	}
 
 	bytes, err := ioutil.ReadFile(p)
-	if os.IsNotExist(err) {
+	if isAbsent(p, err) {
 		return nil, db.ErrNoValue
 	}
 	if err != nil {
@@ -121,7 +122,7 @@ func (fs *Filesystem) Del(k string) error {
 		return err
 	}
 
-	if _, err := os.Stat(p); os.IsNotExist(err) {
+	if _, err := os.Stat(p); isAbsent(p, err) {
 		return db.ErrNoValue
 	}
 
@@ -133,6 +134,15 @@ func (fs *Filesystem) Del(k string) error {
 	return nil
 }
 
+// isAbsent tells whether err means that there is no file at p.  This
+// is always the case for a name that no file can have.
+func isAbsent(p string, err error) bool {
+	if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENAMETOOLONG {
+		return true
+	}
+	return os.IsNotExist(err) || strings.Contains(p, "\x00")
+}
+
 // Keys is a way to enumerate the keys in the key/value store and to
 // optionally filter them based on a globbing expression.  This cheats
 // and uses superior knowledge that NetAuth uses only a single key
-- 
2.43.0


From 98c89029d1cb9effd3d8756f54dd98ab74444584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:41 +0000
Subject: [PATCH 37/37] fix: removing a key too long for the bitcask left a
 store that could not be opened

---
 internal/db/bitcask/bitcask.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 80050ee..e3535b8 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -100,6 +100,12 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
+	// No value can exist at such a key, and the bitcask could not
+	// be opened again once a removal of it was recorded.
+	if len(k) == 0 || len(k) > maxKeySize {
+		return db.ErrNoValue
+	}
+
 	// This fails if the removal can not be recorded, such as when
 	// the disk is full.
 	if err := bcs.s.Delete([]byte(k)); err != nil {
-- 
2.43.0

