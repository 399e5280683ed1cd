From 59e6cc187657c558b60e2a3d2dddb0651df24695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 01/19] fix: copy shared slices before change so derived
 builders and conditions stay independent

---
 group.go           | 3 +++
 insert.go          | 3 ++-
 join_unfinished.go | 3 +++
 select_base.go     | 1 +
 select_many.go     | 6 ++++++
 select_single.go   | 1 +
 update.go          | 3 ++-
 utils.go           | 9 +++++++++
 8 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..1592ce0 100644
--- a/group.go
+++ b/group.go
@@ -133,6 +133,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditionsGroup.conditions = copySlice(conditionsGroup.conditions) // never append to a shared array
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -307,6 +308,7 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = copySlice(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -317,6 +319,7 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = copySlice(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
diff --git a/insert.go b/insert.go
index 90cef5a..951c616 100644
--- a/insert.go
+++ b/insert.go
@@ -20,12 +20,13 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return copySlice(inserter.setValues)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
+	inserter.setValues = copySlice(inserter.setValues)
 	inserter.setValues = append(inserter.setValues, values...)
 	return inserter
 }
diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..d987786 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -11,6 +11,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = copySlice(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +29,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = copySlice(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +47,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = copySlice(updated.joins)
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
diff --git a/select_base.go b/select_base.go
index edecf61..d3f1e86 100644
--- a/select_base.go
+++ b/select_base.go
@@ -187,6 +187,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
+	updated.joins = copySlice(query.joins)
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
diff --git a/select_many.go b/select_many.go
index 30cc574..8fc8bea 100644
--- a/select_many.go
+++ b/select_many.go
@@ -72,6 +72,8 @@ func (query SelectManyBuilder) FieldDefinitions() (res []FieldDefinition) {
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectManyBuilder {
+	query.order = copySlice(query.order)
+
 	for idx, ordering := range query.order {
 		if spec.fieldName == ordering.fieldName {
 			query.order[idx] = query.order[idx].ApplyFieldSpec(spec)
@@ -83,6 +85,8 @@ func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectM
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applyFieldTableToOrdering(tableName TableName) SelectManyBuilder {
+	query.order = copySlice(query.order)
+
 	for idx := range query.order {
 		query.order[idx] = query.order[idx].applyFieldTable(tableName)
 	}
@@ -104,6 +108,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
+	query.order = copySlice(query.order)
 	query.order = append(query.order, orderByFields...)
 	return query
 }
@@ -134,6 +139,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
+	updated.joins = copySlice(query.joins)
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
diff --git a/select_single.go b/select_single.go
index dd12af7..68f1eb5 100644
--- a/select_single.go
+++ b/select_single.go
@@ -54,6 +54,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
+	updated.joins = copySlice(query.joins)
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
diff --git a/update.go b/update.go
index da0c242..5d1d068 100644
--- a/update.go
+++ b/update.go
@@ -21,12 +21,13 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return copySlice(updater.setValues)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
+	updater.setValues = copySlice(updater.setValues)
 	updater.setValues = append(updater.setValues, values...)
 	return updater
 }
diff --git a/utils.go b/utils.go
index ec15a4c..ebaabc5 100644
--- a/utils.go
+++ b/utils.go
@@ -17,3 +17,12 @@ func UniqFieldNames(a []FieldName) []FieldName {
 	}
 	return answer
 }
+
+// copySlice returns a copy of items having its own backing array.
+// Builders are values sharing slices with builders they derived from, so slices must be copied before any change.
+func copySlice[T any](items []T) []T {
+	res := make([]T, len(items))
+	copy(res, items)
+
+	return res
+}
-- 
2.43.0


From 458ab58d8f84ea49664e033b19a7dae7b90fe727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 02/19] fix: keep table, joins and conditions in
 SelectSingleBuilder.Fields

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index 68f1eb5..ec7b785 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From bf695ad499996dbf63c2a1523708e92a3c505e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 03/19] fix: IsNull(...).Or panics adding nil condition into
 group

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..955cc70 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From 9a0f27cb0e6efb4f9913f406f7e1aa8df1d51a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 04/19] fix: enclose nested condition groups into brackets when
 rendered next to other conditions

---
 group.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 1592ce0..b443033 100644
--- a/group.go
+++ b/group.go
@@ -225,6 +225,34 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// encloseChild encloses rendered child group into brackets if its conditions could mix with neighbours or group negation.
+func (conditionsGroup Group) encloseChild(child Condition, sql string) string {
+	if len(conditionsGroup.conditions) == 1 && !conditionsGroup.IsNegate() {
+		return sql
+	}
+
+	if childGroup, isGroup := child.(Group); isGroup && childGroup.rendersList() {
+		return "(" + sql + ")"
+	}
+
+	return sql
+}
+
+// rendersList returns true if group renders as several joined conditions not enclosed into brackets.
+func (conditionsGroup Group) rendersList() bool {
+	if conditionsGroup.withBrackets || conditionsGroup.IsNegate() {
+		return false
+	}
+
+	if len(conditionsGroup.conditions) != 1 {
+		return len(conditionsGroup.conditions) > 1
+	}
+
+	childGroup, isGroup := conditionsGroup.conditions[0].(Group)
+
+	return isGroup && childGroup.rendersList()
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -242,7 +270,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.encloseChild(condition, condition.Render(parametersCount))
 		parametersCount += len(condition.Values())
 	}
 
@@ -276,7 +304,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.encloseChild(condition, condition.RenderSQL())
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From efdae7a69d89536bb7b88cef6fa62343db4a5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 05/19] fix: keep negated condition groups whole when joining
 them with other conditions

---
 group.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/group.go b/group.go
index b443033..4f3fbf2 100644
--- a/group.go
+++ b/group.go
@@ -109,6 +109,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
 	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
 	groupToAdd, addingGroup := condition.(Group)
+	addingGroup = addingGroup && !groupToAdd.IsNegate() // negated group is indivisible, add it as single condition
 	op := condition.JoinType()
 
 	switch {
@@ -134,6 +135,13 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
 	conditionsGroup.conditions = copySlice(conditionsGroup.conditions) // never append to a shared array
+	if len(conditions) > 0 && len(conditionsGroup.conditions) > 0 && conditionsGroup.IsNegate() {
+		// existing negation must not spread onto added conditions
+		negated := conditionsGroup
+		conditionsGroup = NewGroup(LogicalAND, negated)
+		conditionsGroup.joinType = negated.joinType
+	}
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
-- 
2.43.0


From 459a7165dd560321e2d29b633df0c9b6eaa6fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 06/19] fix: join additional conditions of multi-argument Or
 with OR, ANDed together as documented

---
 group.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 4f3fbf2..2aafee2 100644
--- a/group.go
+++ b/group.go
@@ -155,13 +155,13 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
 
-- 
2.43.0


From f10637fc41be21611e26238894af178a1ea44f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 07/19] fix: join unpacked group conditions with operator the
 group is added with

---
 group.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 2aafee2..22a0681 100644
--- a/group.go
+++ b/group.go
@@ -60,6 +60,10 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 	addingAnyOR := anotherGroup.hasOne(LogicalOR)
 
 	op := anotherGroup.joinType
+	if len(anotherGroup.conditions) > 0 { // unpacked group is joined by its first condition, its join type must match
+		anotherGroup.conditions = copySlice(anotherGroup.conditions)
+		anotherGroup.conditions[0] = op.Join(anotherGroup.conditions[0])
+	}
 
 	switch {
 	case haveNone: // current group empty, reset it op and elements from another
@@ -79,7 +83,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
+	case havingAnyOR && op == LogicalAND && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
-- 
2.43.0


From 7a8f9ae2749ad701d913fd0412008fcf95b32e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 08/19] fix: ignore empty condition groups instead of rendering
 dangling WHERE or join operators

---
 group.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 22a0681..4a481b1 100644
--- a/group.go
+++ b/group.go
@@ -38,11 +38,23 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(withoutEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
 
+// withoutEmptyGroups returns a copy of conditions list having no empty groups, as they render nothing to join with.
+func withoutEmptyGroups(conditions []Condition) []Condition {
+	res := make([]Condition, 0, len(conditions))
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); !isGroup || len(group.conditions) > 0 {
+			res = append(res, condition)
+		}
+	}
+
+	return res
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -138,6 +150,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = withoutEmptyGroups(conditions)
 	conditionsGroup.conditions = copySlice(conditionsGroup.conditions) // never append to a shared array
 	if len(conditions) > 0 && len(conditionsGroup.conditions) > 0 && conditionsGroup.IsNegate() {
 		// existing negation must not spread onto added conditions
-- 
2.43.0


From 09780a1a5f9c11f4612ff178f0e7072f94d1dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 09/19] fix: reject field specifications not matching
 <table>.<name> form instead of dropping name parts

---
 field_definition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..0f1d08d 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -43,6 +43,13 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	}
 
 	tokens := strings.Fields(strName)
+	if len(tokens) > 0 && strings.Contains(tokens[0], ".") { // the only form with dots is <table>.<name>
+		table, name, _ := strings.Cut(tokens[0], ".")
+		if len(table) == 0 || len(name) == 0 || strings.Contains(name, ".") {
+			return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
+		}
+	}
+
 	switch {
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
-- 
2.43.0


From 35401883db17a2a0c306c6bee622692f6c5fa84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 10/19] fix: drop alias equal to original name in field and
 table specifications as documented

---
 field_definition.go | 2 ++
 table_ident.go      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index 0f1d08d..b9b530e 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -56,6 +56,8 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
 		nameTokens := strings.Split(tokens[0], ".")
 		return &FieldDefinition{fieldName: nameTokens[1], alias: "", tableName: nameTokens[0]}, nil
+	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && tokens[2] == tokens[0] && !strings.Contains(tokens[0], "."):
+		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: tokens[2], tableName: ""}, nil
 	case len(tokens) == 3 && strings.ToUpper(tokens[1]) == "AS" && strings.Contains(tokens[0], "."):
diff --git a/table_ident.go b/table_ident.go
index 64a9be3..2d228f6 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -54,6 +54,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
+	case len(tokens) == 2 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
 	}
-- 
2.43.0


From fd90f4c508898c828a4c3999890b7253f7ad54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 11/19] fix: refer to aliased fields in conditions by name, not
 by AS definition

---
 lib_isnull.go | 4 ++--
 value.go      | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 955cc70..f35776b 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.RenderField(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/value.go b/value.go
index d760d1f..f7c724b 100644
--- a/value.go
+++ b/value.go
@@ -29,6 +29,12 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// RenderSpec returns a field identification to use in conditional clauses.
+// Field value is never a part of fetch items enumeration, so unlike FieldDefinition.RenderSpec it does not define alias.
+func (fieldValue FieldValue) RenderSpec() string {
+	return fieldValue.RenderField()
+}
+
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
-- 
2.43.0


From 9d7b6da7925ee27bb9fa0511f8b0c757ca391260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 12/19] fix: do not replace failed driver.Valuer values with
 NULL and accept nil pointers

---
 value.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/value.go b/value.go
index f7c724b..08e335e 100644
--- a/value.go
+++ b/value.go
@@ -41,14 +41,12 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{driverValue(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = driverValue(value)
 		}
 
 		return result
@@ -85,8 +83,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
+				valuer, _ := rawElem.(driver.Valuer)
+				if isNilValuer(valuer) {
 					res[idx] = nil
 				} else {
 					if res[idx], err = valuer.Value(); err != nil {
@@ -101,6 +99,33 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// isNilValuer returns true if valuer is nil or nil pointer which could not be asked for its value.
+func isNilValuer(valuer driver.Valuer) bool {
+	if valuer == nil {
+		return true
+	}
+
+	valuerType := reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+	reflection := reflect.ValueOf(valuer)
+
+	return reflection.Kind() == reflect.Pointer && reflection.IsNil() && reflection.Type().Elem().Implements(valuerType)
+}
+
+// driverValue returns a value provided by valuer or nil if valuer is nil.
+// If valuer fails returns valuer itself, so the failure is reported on query execution instead of silent passing of NULL.
+func driverValue(valuer driver.Valuer) any {
+	if isNilValuer(valuer) {
+		return nil
+	}
+
+	value, err := valuer.Value()
+	if err != nil {
+		return valuer
+	}
+
+	return value
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 7dbd76b02d3851a03c6a85b3fcbdf8ddaa14e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 13/19] fix: bind exactly one parameter where statement has a
 single placeholder for list value

---
 insert.go    |  2 +-
 lib_equal.go |  5 +++++
 lib_gt.go    |  5 +++++
 lib_gte.go   |  5 +++++
 lib_lt.go    |  5 +++++
 lib_lte.go   |  5 +++++
 update.go    |  2 +-
 value.go     | 10 ++++++++++
 8 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index 951c616..ec39fbb 100644
--- a/insert.go
+++ b/insert.go
@@ -49,7 +49,7 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		params = append(params, fieldValue.scalarValue())
 
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..fe22b4d 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,11 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a single value to substitute, as the clause has exactly one placeholder.
+func (impl equalTo) Values() []interface{} {
+	return []interface{}{impl.scalarValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..1f5873e 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,11 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a single value to substitute, as the clause has exactly one placeholder.
+func (impl greater) Values() []interface{} {
+	return []interface{}{impl.scalarValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..9de5631 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,11 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a single value to substitute, as the clause has exactly one placeholder.
+func (impl greaterOrEqual) Values() []interface{} {
+	return []interface{}{impl.scalarValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..48a7744 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,11 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a single value to substitute, as the clause has exactly one placeholder.
+func (impl less) Values() []interface{} {
+	return []interface{}{impl.scalarValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..4db7205 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,11 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns a single value to substitute, as the clause has exactly one placeholder.
+func (impl lessOrEqual) Values() []interface{} {
+	return []interface{}{impl.scalarValue()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/update.go b/update.go
index 5d1d068..db185f8 100644
--- a/update.go
+++ b/update.go
@@ -43,7 +43,7 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		params[idx] = fieldValue.scalarValue()
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
diff --git a/value.go b/value.go
index 08e335e..9c1e6b3 100644
--- a/value.go
+++ b/value.go
@@ -126,6 +126,16 @@ func driverValue(valuer driver.Valuer) any {
 	return value
 }
 
+// scalarValue returns a value to bind where exactly one parameter is expected, so lists are passed as is.
+func (fieldValue FieldValue) scalarValue() any {
+	switch fieldValue.value.(type) {
+	case driver.Valuer, ValueProvider: // always provide a single value
+		return fieldValue.Values()[0]
+	default:
+		return fieldValue.value
+	}
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 31bfae15ee599ab6d6e5638e718c0c6bdadd12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 14/19] fix: In expands lists of any type, not only of known
 ones

---
 lib_in.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib_in.go b/lib_in.go
index ebd5c56..31f2ce9 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -1,6 +1,8 @@
 package query
 
 import (
+	"database/sql/driver"
+	"reflect"
 	"strconv"
 	"strings"
 )
@@ -85,6 +87,28 @@ func (impl in) RenderSQL() (sql string) {
 	return strings.Join(tokens, " ")
 }
 
+// Values returns a value for each element of supplied list.
+// Byte slices and lists providing own database value are single values.
+func (impl in) Values() []interface{} {
+	list := reflect.ValueOf(impl.value)
+
+	switch impl.value.(type) {
+	case driver.Valuer, ValueProvider:
+		return impl.FieldValue.Values()
+	}
+
+	if (list.Kind() != reflect.Slice && list.Kind() != reflect.Array) || list.Type().Elem() == reflect.TypeOf(byte(0)) {
+		return impl.FieldValue.Values()
+	}
+
+	values := make([]interface{}, list.Len())
+	for idx := range values {
+		values[idx] = FieldValue{value: list.Index(idx).Interface()}.scalarValue()
+	}
+
+	return values
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl in) And(conditions ...Condition) Condition {
-- 
2.43.0


From 358104b254b9e97c05713ad4e909e607c8a97e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 15/19] fix: In with empty list renders valid SQL matching no
 rows

---
 lib_in.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib_in.go b/lib_in.go
index 31f2ce9..65baf07 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -44,10 +44,23 @@ func (impl in) Negate(newNegateIndicator bool) Condition {
 	return impl
 }
 
+// renderEmpty renders clause for empty list, as SQL does not allow empty brackets: no value is in empty list.
+func (impl in) renderEmpty() string {
+	if impl.IsNegate() {
+		return "1=1"
+	}
+
+	return "1=0"
+}
+
 // Render renders SQL SELECT clause part for current field.
 func (impl in) Render(paramNum int) string {
 	var tokens []string
 
+	if len(impl.Values()) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholders := make([]string, len(impl.Values()))
 
 	for idx := range impl.Values() {
@@ -70,6 +83,10 @@ func (impl in) Render(paramNum int) string {
 func (impl in) RenderSQL() (sql string) {
 	var tokens []string
 
+	if len(impl.Values()) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholders := make([]string, len(impl.Values()))
 
 	for idx := range impl.Values() {
-- 
2.43.0


From b31b0d8f40c7dd9c6cc54d5dda3b969267c74225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 16/19] fix: render ordering, offset and limit in RenderSQL and
 Render of SelectManyBuilder and SelectSingleBuilder

---
 select_many.go   | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 10 ++++++++++
 2 files changed, 56 insertions(+)

diff --git a/select_many.go b/select_many.go
index 8fc8bea..1ff4dc3 100644
--- a/select_many.go
+++ b/select_many.go
@@ -51,6 +51,52 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// limiter returns Limiter rendering offset and limit of query.
+func (query SelectManyBuilder) limiter() (limiter Limiter) {
+	limiter = limiter.Offset(query.offset)
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter
+}
+
+// renderTail adds ordering and rendered limiter clause to SQL rendered by BaseSelectBuilder.
+func (query SelectManyBuilder) renderTail(sql string, limiterSQL string) string {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY "
+		} else {
+			sql += ", "
+		}
+		sql += order.Render()
+	}
+
+	if len(limiterSQL) > 0 {
+		sql += " " + limiterSQL
+	}
+
+	return sql
+}
+
+// RenderSQL renders SQL query using default "?"(question) parameters substitution.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	return query.renderTail(query.BaseSelectBuilder.RenderSQL(), query.limiter().RenderSQL())
+}
+
+// Render renders SQL query using numbered parameters starting from parametersCount+1.
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	return query.renderTail(
+		query.BaseSelectBuilder.Render(parametersCount),
+		query.limiter().Render(parametersCount+len(query.BaseSelectBuilder.Values())),
+	)
+}
+
+// Values returns parameters to substitute in SQL query generated using RenderSQL or Render methods.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index ec7b785..93f745b 100644
--- a/select_single.go
+++ b/select_single.go
@@ -17,6 +17,16 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// RenderSQL renders SQL query using default "?"(question) parameters substitution.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
+// Render renders SQL query using numbered parameters starting from parametersCount+1.
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From 2b6e3d11ad9b52be66eddb3a102f6f5fe557f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 17/19] fix: reject field names with any whitespace in
 FieldName.Validate

---
 field_name.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/field_name.go b/field_name.go
index ce8eab9..2a75db4 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -25,6 +26,8 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains double quote character", Error)
 	case strings.Contains(fnStr, " "):
 		return fmt.Errorf("%w: field name contains space character", Error)
+	case strings.ContainsFunc(fnStr, unicode.IsSpace):
+		return fmt.Errorf("%w: field name contains whitespace character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
 	case len(fnStr) == 0:
-- 
2.43.0


From 2fae28bc04e9919acbbaaac46f3790975b4b171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 18/19] fix: build ValuesMap field values in stable order

---
 values_map.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/values_map.go b/values_map.go
index 2a1a9d4..47f5d9d 100644
--- a/values_map.go
+++ b/values_map.go
@@ -3,6 +3,7 @@ package query
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 // ValuesMap allows to define FieldValue set in mapping style.
@@ -11,11 +12,19 @@ type ValuesMap map[string]any
 // FieldValues represents ValuesMap as FieldValues.
 // If table name points to valid field name, it will be used as FieldValue field definition table.
 // Returns non-nil error if any key is not valid field name.
+// Values are ordered by field name, so the same ValuesMap always gives the same query.
 // Note table spec is not applied to elements, its up to caller to adopt values when required.
 func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
 	res := make([]FieldValue, len(valuesMap))
 	idx := 0
-	for k, v := range valuesMap {
+	keys := make([]string, 0, len(valuesMap))
+	for k := range valuesMap {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for _, k := range keys {
+		v := valuesMap[k]
 		fieldName := FieldName(k)
 		if err := fieldName.Validate(); err != nil {
 			return nil, errors.Join(fmt.Errorf("%w: invalid field name `%v`", Error, k), err)
-- 
2.43.0


From 0fa0bac986e5e7a29cf74bd087ab4d65008202af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:51 +0000
Subject: [PATCH 19/19] fix: JoinType.Join of no conditions makes an empty
 group instead of panicking

---
 logical.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logical.go b/logical.go
index 863deca..35bd7ce 100644
--- a/logical.go
+++ b/logical.go
@@ -19,7 +19,7 @@ const (
 // Join wraps specified condition to combine with previous conditions with logical operation specified by JoinType.
 // Does the same as And() but in method of JoinType.
 func (joinType JoinType) Join(conditions ...Condition) (result Condition) {
-	if len(conditions) > 1 {
+	if len(conditions) != 1 {
 		return NewGroup(joinType, conditions...)
 	}
 
-- 
2.43.0

