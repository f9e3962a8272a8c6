From 012b66a3f58f981ed12fdbcca5b3ce1e654f6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:43 +0000
Subject: [PATCH 01/50] fix: identify elements by a unique number instead of a
 reusable memory address

---
 support.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..a691eae 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
+var elementCounter uint64
+
+// getAddress gives a new element its identity. It is a number that is never handed out again: the memory
+// address of the element would be reused for another one as soon as the element has been garbage collected.
 func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+	return strconv.FormatUint(atomic.AddUint64(&elementCounter, 1), 36)
 }
 
-- 
2.43.0


From a174675d1f4c77d1a168340c62ac5330c1b74531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 02/50] fix: let error values of literals and multi part
 queries carry the error instead of recursing forever

---
 multi_part_query.go   | 2 +-
 raw_string_literal.go | 2 +-
 string_literal.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..9772a66 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -26,7 +26,7 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{err: err}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..bd13475 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,7 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	return RawStringLiteral{err: err}
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..bd08e0f 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,7 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	return StringLiteral{err: err}
 }
 
 func (s StringLiteral) GetError() error {
-- 
2.43.0


From c65df22cc8f7d6ac9a137826a812b2b397a9f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 03/50] fix: render number literals with their exact value

---
 number_literal.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/number_literal.go b/number_literal.go
index 1cb365d..7d0cd99 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -1,7 +1,11 @@
 package cypher
 
 import (
+	"errors"
+	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 type NumberLiteral struct {
@@ -23,6 +27,9 @@ func NumberLiteralCreate(content int64) NumberLiteral {
 }
 
 func NumberLiteralCreate2(content float64) NumberLiteral {
+	if math.IsNaN(content) || math.IsInf(content, 0) {
+		return NumberLiteral{err: errors.New("number literal: value must be a finite number")}
+	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
 		notNil:  true,
@@ -63,7 +70,18 @@ func (n NumberLiteral) GetContent() interface{} {
 }
 
 func (n NumberLiteral) AsString() string {
-	return n.content.String()
+	if n.content == nil {
+		return ""
+	}
+	if integer, accuracy := n.content.Int64(); accuracy == big.Exact {
+		return strconv.FormatInt(integer, 10)
+	}
+	// Everything else has been created from a float64, the shortest text that is read back as the same value is used.
+	float, _ := n.content.Float64()
+	if n.content.IsInt() {
+		return cypherExponent(strconv.FormatFloat(float, 'e', -1, 64))
+	}
+	return cypherExponent(strconv.FormatFloat(float, 'g', -1, 64))
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
@@ -77,3 +95,8 @@ func (n NumberLiteral) enter(renderer *CypherRenderer) {
 
 func (n NumberLiteral) leave(renderer *CypherRenderer) {
 }
+
+// cypherExponent removes the plus sign of an exponent, which is not allowed in Cypher.
+func cypherExponent(number string) string {
+	return strings.Replace(number, "e+", "e", 1)
+}
-- 
2.43.0


From febaa049f481837a785f2b2137011965151edec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 04/50] fix: keep all patterns of CREATE and MERGE clauses

---
 default_statement_builder.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..9731832 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -614,13 +614,15 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements := append(patternElements, visitable.(PatternElement))
-			if updateType == UPDATE_TYPE_CREATE {
-				return CreateBuilderCreate(patternElements), nil
-			} else {
-				return MergeBuilderCreate(patternElements), nil
-			}
+			patternElements = append(patternElements, visitable.(PatternElement))
+		}
+		if len(patternElements) == 0 {
+			return RemoveBuilder{}, xerrors.Errorf("at least one pattern is required to %s", updateType)
+		}
+		if updateType == UPDATE_TYPE_CREATE {
+			return CreateBuilderCreate(patternElements), nil
 		}
+		return MergeBuilderCreate(patternElements), nil
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
-- 
2.43.0


From 5f7da818b353b6e1b20f062f9e942db1fe67febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:30 +0000
Subject: [PATCH 05/50] fix: builders no longer change the builder they have
 been derived from, and close every open clause

---
 default_ongoing_unwind.go                |  8 ++-
 default_statement_builder.go             | 64 +++++++++++++++--------
 default_statement_with_return_builder.go |  2 +-
 default_statement_with_update.go         | 65 ++++++++++--------------
 default_statement_with_with_builder.go   | 60 ++++++++++------------
 in_query_call_builder.go                 | 31 ++++++-----
 6 files changed, 123 insertions(+), 107 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..10f8387 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,10 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	defaultBuilder := *d.defaultBuilder
+	defaultBuilder.addStep(unwindCreate(d.expressionToUnwind, variable))
+	return defaultBuilder
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 9731832..f4b8876 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -58,7 +58,8 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		parts := d.multipartElements
+		d.multipartElements = append(parts[:len(parts):len(parts)], MultiPartElementCreate(d.BuildListOfVisitable(true), with))
 	}
 	return d
 }
@@ -267,7 +268,7 @@ func (d DefaultStatementBuilder) Set(expressions ...Expression) BuildableStateme
 			return DefaultStatementBuilderError(expression.GetError())
 		}
 	}
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, expressions...)
 }
 
@@ -281,7 +282,7 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if expression != nil && expression.GetError() != nil {
 		return DefaultStatementBuilderError(expression.GetError())
 	}
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.Set(variable.GetRequiredSymbolicName(), expression)
 }
 
 func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
@@ -291,6 +292,7 @@ func (d DefaultStatementBuilder) SetByNode(node Node, labels ...string) Buildabl
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
@@ -301,6 +303,7 @@ func (d DefaultStatementBuilder) RemoveByNode(node Node, labels ...string) Build
 	if node.GetError() != nil {
 		return DefaultStatementBuilderError(node.GetError())
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, OperationRemove(node, labels...))
 }
 
@@ -317,6 +320,7 @@ func (d DefaultStatementBuilder) Remove(properties ...Property) BuildableStateme
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
+	d.closeCurrentSteps()
 	return DefaultStatementWithUpdateBuilderCreate2(&d, UPDATE_TYPE_REMOVE, expressions...)
 }
 
@@ -346,7 +350,7 @@ func (d DefaultStatementBuilder) Unwind(expression Expression) OngoingUnwind {
 	if expression != nil && expression.GetError() != nil {
 		return DefaultOngoingUnwindError(expression.GetError())
 	}
-	d.CloseCurrentOngoingMatch()
+	d.closeCurrentSteps()
 	return DefaultOngoingUnwindCreate(&d, expression)
 }
 
@@ -357,18 +361,16 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 	if statement != nil && statement.GetError() != nil {
 		return DefaultStatementBuilderError(statement.GetError())
 	}
+	d.closeCurrentSteps()
 	if d.err != nil {
 		return d
 	}
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingUpdate()
 	singlePart := SubqueryCall(statement)
 	if singlePart.GetError() != nil {
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
+	d.addStep(singlePart)
 	return d
 }
 
@@ -376,8 +378,10 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 	if d.err != nil {
 		return InQueryCallBuilder{err: d.err}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentSteps()
+	if d.err != nil {
+		return InQueryCallBuilder{err: d.err}
+	}
 	inQueryCallBuilder := InQueryCallBuilderCreate(&d, ProcedureNameCreate(namespaceAndProcedure...))
 	d.currentOngoingCall = inQueryCallBuilder
 	return inQueryCallBuilder
@@ -493,18 +497,31 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
+	d.closeCurrentSteps()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
 	return d
 }
 
+// addStep adds a finished clause. The elements are never appended in place, as builders derived from the same
+// builder share them.
+func (d *DefaultStatementBuilder) addStep(step Visitable) {
+	steps := d.currentSinglePartElements
+	d.currentSinglePartElements = append(steps[:len(steps):len(steps)], step)
+}
+
+// closeCurrentSteps finishes the clause that is still open. There is never more than one.
+func (d *DefaultStatementBuilder) closeCurrentSteps() {
+	d.CloseCurrentOngoingMatch()
+	d.CloseCurrentOngoingCall()
+	d.CloseCurrentOngoingUpdate()
+}
+
 func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	d.addStep(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +534,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	d.addStep(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +542,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	d.addStep(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -562,7 +579,11 @@ func (d DefaultStatementBuilder) Build() (Statement, error) {
 }
 
 func (d DefaultStatementBuilder) BuildImpl(clearCurrentBuildSteps bool, returning Return) Statement {
-	singlePartQuery := SinglePartQueryCreate(d.BuildListOfVisitable(clearCurrentBuildSteps), returning)
+	visitables := d.BuildListOfVisitable(clearCurrentBuildSteps)
+	if d.err != nil {
+		return SinglePartQueryError(d.err)
+	}
+	singlePartQuery := SinglePartQueryCreate(visitables, returning)
 	if len(d.multipartElements) == 0 {
 		return singlePartQuery
 	}
@@ -596,16 +617,17 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 }
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	d.closeCurrentSteps()
+	d.addStep(clause)
 	return *d
 }
 
 func (d *DefaultStatementBuilder) Update(updateType UpdateType, pattern []Visitable) DefaultStatementBuilder {
-	d.CloseCurrentOngoingMatch()
-	d.CloseCurrentOngoingCall()
-	d.CloseCurrentOngoingUpdate()
+	d.closeCurrentSteps()
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilderCreate1(d, updateType, pattern)
+	if d.currentOngoingUpdate.err != nil {
+		d.err = d.currentOngoingUpdate.err
+	}
 	return *d
 }
 
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..e8b750c 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,7 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..16cc8dd 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -69,6 +69,16 @@ func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
 
+// closed gives the statement with the updating clause of this builder being finished. It's a copy, this builder can
+// be continued and build more than once.
+func (d DefaultStatementWithUpdateBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	defaultBuilder := *d.defaultBuilder
+	return defaultBuilder.addUpdatingClause(d.builder.build())
+}
+
 func (d DefaultStatementWithUpdateBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
 	return d
@@ -108,14 +118,13 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var returning Return
 	if len(d.returnList) > 0 {
 		returnItems := ExpressionList{expressions: d.returnList}
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return d.closed().BuildImpl(false, returning), nil
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -127,7 +136,12 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	for _, e := range expression {
+		if e != nil && e.GetError() != nil {
+			return DefaultStatementWithUpdateBuilderError(e.GetError())
+		}
+	}
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	return d
 }
 
@@ -140,9 +154,8 @@ func (d DefaultStatementWithUpdateBuilder) ReturningDistinctByNamed(variables ..
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	d.Returning(expression...)
 	d.distinct = true
-	return d
+	return d.Returning(expression...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -158,8 +171,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.closed().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,18 +199,10 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	var deleteType UpdateType
 	if nextDetach {
-		deleteType = UPDATE_TYPE_DETACH_DELETE
-	} else {
-		deleteType = UPDATE_TYPE_DELETE
-	}
-	visitables := make([]Visitable, len(deletedExpressions))
-	for i := range deletedExpressions {
-		visitables[i] = deletedExpressions[i]
+		return d.closed().DetachDelete(deletedExpressions...)
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return d.closed().Delete(deletedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,42 +218,29 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.closed().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	return d.closed().Set(expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetSymbolicName(), expression)
+	return d.closed().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	return d.closed().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	if d.err != nil {
-		return d
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	return d.closed().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	expressions := make([]Expression, len(properties))
-	for i := range properties {
-		expressions[i] = properties[i]
-	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	return d.closed().Remove(properties...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.closed().Create(element...)
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..d5c82a7 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -43,8 +43,16 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	return returnedWith
 }
 
+// closed gives the statement with the WITH clause of this builder being finished.
+func (d DefaultStatementWithWithBuilder) closed() DefaultStatementBuilder {
+	if d.err != nil {
+		return DefaultStatementBuilderError(d.err)
+	}
+	return d.defaultBuilder.AddWith(d.buildWith())
+}
+
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
@@ -86,8 +94,7 @@ func (d DefaultStatementWithWithBuilder) ReturningByNamed(variables ...Named) On
 }
 
 func (d DefaultStatementWithWithBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Returning(expression...)
+	return d.closed().Returning(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -99,8 +106,7 @@ func (d DefaultStatementWithWithBuilder) ReturningDistinctByNamed(variables ...N
 }
 
 func (d DefaultStatementWithWithBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		ReturningDistinct(expression...)
+	return d.closed().ReturningDistinct(expression...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -112,8 +118,7 @@ func (d DefaultStatementWithWithBuilder) WithByNamed(variables ...Named) Orderab
 }
 
 func (d DefaultStatementWithWithBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		With(expressions...)
+	return d.closed().With(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,8 +130,7 @@ func (d DefaultStatementWithWithBuilder) WithDistinctByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		WithDistinct(expressions...)
+	return d.closed().WithDistinct(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DeleteByString(variables ...string) OngoingUpdate {
@@ -138,8 +142,7 @@ func (d DefaultStatementWithWithBuilder) DeleteByNamed(variables ...Named) Ongoi
 }
 
 func (d DefaultStatementWithWithBuilder) Delete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Delete(expressions...)
+	return d.closed().Delete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -151,37 +154,31 @@ func (d DefaultStatementWithWithBuilder) DetachDeleteByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithWithBuilder) DetachDelete(expressions ...Expression) OngoingUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		DetachDelete(expressions...)
+	return d.closed().DetachDelete(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Merge(pattern...)
+	return d.closed().Merge(pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Set(expressions...)
+	return d.closed().Set(expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.Set(variable.GetRequiredSymbolicName(), expression)
+	return d.closed().SetWithNamed(variable, expression)
 }
 
 func (d DefaultStatementWithWithBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		SetByNode(node, labels...)
+	return d.closed().SetByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		RemoveByNode(node, labels...)
+	return d.closed().RemoveByNode(node, labels...)
 }
 
 func (d DefaultStatementWithWithBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Remove(properties...)
+	return d.closed().Remove(properties...)
 }
 
 func (d DefaultStatementWithWithBuilder) Unwinds(expression ...Expression) OngoingUnwind {
@@ -193,23 +190,19 @@ func (d DefaultStatementWithWithBuilder) UnwindByString(variable string) Ongoing
 }
 
 func (d DefaultStatementWithWithBuilder) Unwind(expression Expression) OngoingUnwind {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Unwind(expression)
+	return d.closed().Unwind(expression)
 }
 
 func (d DefaultStatementWithWithBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Create(element...)
+	return d.closed().Create(element...)
 }
 
 func (d DefaultStatementWithWithBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call(statement)
+	return d.closed().Call(statement)
 }
 
 func (d DefaultStatementWithWithBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		Call1(namespaceAndProcedure...)
+	return d.closed().Call1(namespaceAndProcedure...)
 }
 
 func (d DefaultStatementWithWithBuilder) Match(pattern ...PatternElement) OngoingReadingWithoutWhere {
@@ -221,8 +214,7 @@ func (d DefaultStatementWithWithBuilder) OptionalMatch(pattern ...PatternElement
 }
 
 func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...PatternElement) OngoingReadingWithoutWhere {
-	return d.defaultBuilder.AddWith(d.buildWith()).
-		MatchDefault(optional, pattern...)
+	return d.closed().MatchDefault(optional, pattern...)
 }
 
 func (d DefaultStatementWithWithBuilder) Where(condition Condition) OrderableOngoingReadingAndWithWithWhere {
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..cb9d817 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -19,10 +19,22 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+// attached gives the statement with this call being its current step. It's a copy, this builder can be continued.
+func (i InQueryCallBuilder) attached() DefaultStatementBuilder {
+	if i.err != nil {
+		return DefaultStatementBuilderError(i.err)
+	}
+	defaultBuilder := *i.defaultBuilder
+	defaultBuilder.currentOngoingCall = i
+	return defaultBuilder
+}
+
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.attached()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +54,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.attached().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,8 +66,7 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.attached().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
@@ -112,8 +122,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.attached().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +134,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.attached().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.attached().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
-- 
2.43.0


From d1f96197e24d0459eaf37763a8502a79bf4efb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 06/50] fix: group mixed boolean operators by precedence and
 keep conditions of every open clause

---
 compound_condition.go                  | 77 +++++++++++++++++++-------
 condition_builder.go                   | 16 +++++-
 condition_container.go                 | 21 ++++---
 default_statement_builder.go           | 25 +++++++--
 default_statement_with_with_builder.go | 23 ++++++--
 in_query_call_builder.go               |  7 ++-
 match_builder.go                       |  4 +-
 procedure_call.go                      | 11 +++-
 8 files changed, 142 insertions(+), 42 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..24ddc97 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -43,12 +43,7 @@ func CompoundConditionCreate(left Condition, operator Operator, right Condition)
 	if right == nil || !right.isNotNil() {
 		return CompoundConditionError(errors.New("right hand side condition is required"))
 	}
-	condition := CompoundCondition{operator: operator, notNil: true}
-	condition.add(operator, left)
-	condition.add(operator, right)
-	condition.injectKey()
-	condition.ConditionContainer = ConditionWrap(condition)
-	return condition
+	return CompoundConditionCreate1(operator).add(operator, left).add(operator, right)
 }
 
 func CompoundConditionCreate1(operator Operator) CompoundCondition {
@@ -145,34 +140,78 @@ var EMPTY_CONDITION = CompoundCondition{
 
 var VALID_OPERATORS = []Operator{AND, OR, XOR}
 
-func (c *CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+func (c CompoundCondition) add(chainingOperator Operator, condition Condition) CompoundCondition {
+	if c.GetError() != nil {
+		return c
+	}
+	if condition != nil && condition.GetError() != nil {
+		return CompoundConditionError(condition.GetError())
+	}
+	if condition == nil || !condition.isNotNil() {
+		return CompoundConditionError(errors.New("condition to add is required"))
+	}
 	if c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION {
 		newCompound := CompoundConditionCreate1(chainingOperator)
 		return newCompound.add(chainingOperator, condition)
 	}
 	if compoundCondition, isCompound := condition.(CompoundCondition); isCompound {
 		if !compoundCondition.hasCondition() {
-			return *c
+			return c
+		}
+		if c.bindsLooserThan(chainingOperator) {
+			return CompoundConditionCreate(c, chainingOperator, condition)
 		}
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
-			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				return c.extendedBy(compoundCondition.conditions...)
 			}
-		} else {
-			inner := CompoundConditionCreate1(chainingOperator)
-			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			return c.extendedBy(compoundCondition)
 		}
-		return *c
+		inner := CompoundConditionCreate1(chainingOperator).extendedBy(compoundCondition)
+		return c.extendedBy(inner)
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
-		return *c
+		return c.extendedBy(condition)
+	}
+	return CompoundConditionCreate(c, chainingOperator, condition)
+}
+
+// extendedBy gives a new condition, this one stays as it is.
+func (c CompoundCondition) extendedBy(conditions ...Condition) CompoundCondition {
+	c.conditions = append(c.conditions[:len(c.conditions):len(c.conditions)], conditions...)
+	c.injectKey()
+	c.ConditionContainer = ConditionWrap(c)
+	return c
+}
+
+// bindsLooserThan tells whether one of the operators between the conditions of this condition has a lower precedence
+// than the given one, so that this condition must be put in parentheses to be combined with the given operator.
+func (c CompoundCondition) bindsLooserThan(operator Operator) bool {
+	for i, condition := range c.conditions {
+		if i == 0 {
+			continue
+		}
+		actualOperator := c.operator
+		if compound, isCompound := condition.(CompoundCondition); isCompound {
+			actualOperator = compound.operator
+		}
+		if precedenceOf(actualOperator) < precedenceOf(operator) {
+			return true
+		}
+	}
+	return false
+}
+
+func precedenceOf(operator Operator) int {
+	switch operator {
+	case AND:
+		return 3
+	case XOR:
+		return 2
+	default:
+		return 1
 	}
-	return CompoundConditionCreate(*c, chainingOperator, condition)
 }
 
 func (c CompoundCondition) hasCondition() bool {
diff --git a/condition_builder.go b/condition_builder.go
index 764c75d..a4f4dc5 100644
--- a/condition_builder.go
+++ b/condition_builder.go
@@ -13,15 +13,29 @@ func (c *ConditionBuilder) Where(newCondition Condition) {
 }
 
 func (c *ConditionBuilder) And(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.And(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) Or(additionalCondition Condition) {
+	if c.condition == nil {
+		c.condition = additionalCondition
+		return
+	}
 	c.condition = c.condition.Or(additionalCondition).Get()
 }
 
 func (c *ConditionBuilder) hasCondition() bool {
-	if c.condition == nil || !c.condition.isNotNil() {
+	if c.condition == nil {
+		return false
+	}
+	if c.condition.GetError() != nil {
+		return true
+	}
+	if !c.condition.isNotNil() {
 		return false
 	}
 	compound, isCompound := c.condition.(CompoundCondition)
diff --git a/condition_container.go b/condition_container.go
index c1e6007..94a1ceb 100644
--- a/condition_container.go
+++ b/condition_container.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ConditionContainer struct {
 	ExpressionContainer
 }
@@ -14,7 +16,7 @@ func (b ConditionContainer) And(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.And(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, condition)
+	b.expression = CompoundConditionCreate(b.Get(), AND, condition)
 	return b
 }
 
@@ -22,7 +24,7 @@ func (b ConditionContainer) Or(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Or(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, condition)
+	b.expression = CompoundConditionCreate(b.Get(), OR, condition)
 	return b
 }
 
@@ -30,30 +32,33 @@ func (b ConditionContainer) Xor(condition Condition) ConditionContainer {
 	if compoundCondition, isCompound := b.expression.(CompoundCondition); isCompound {
 		return compoundCondition.Xor(condition)
 	}
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, condition)
+	b.expression = CompoundConditionCreate(b.Get(), XOR, condition)
 	return b
 }
 
 func (b ConditionContainer) AndPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), AND, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), AND, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) OrPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), OR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), OR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) XorPattern(pathPattern RelationshipPattern) ConditionContainer {
-	b.expression = CompoundConditionCreate(b.expression.(Condition), XOR, RelationshipPatternConditionCreate(pathPattern))
+	b.expression = CompoundConditionCreate(b.Get(), XOR, RelationshipPatternConditionCreate(pathPattern))
 	return b
 }
 
 func (b ConditionContainer) Not() ConditionContainer {
-	b.expression = ComparisonCreate1(NOT, b.expression)
+	b.expression = ComparisonCreate1(NOT, b.Get())
 	return b
 }
 
 func (b ConditionContainer) Get() Condition {
-	return b.expression.(Condition)
+	if condition, isCondition := b.expression.(Condition); isCondition {
+		return condition
+	}
+	return CompoundConditionError(errors.New("there is no condition"))
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index f4b8876..c3424d4 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -42,8 +42,20 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Where(condition)
-	return d
+	return d.refine(func(conditionBuilder *ConditionBuilder) { conditionBuilder.Where(condition) })
+}
+
+// refine changes the condition of the clause that is still open.
+func (d DefaultStatementBuilder) refine(refinement func(conditionBuilder *ConditionBuilder)) DefaultStatementBuilder {
+	if d.currentOngoingMatch.notNil {
+		refinement(&d.currentOngoingMatch.conditionBuilder)
+		return d
+	}
+	if d.currentOngoingCall != nil && d.currentOngoingCall.isNotNil() {
+		d.currentOngoingCall = d.currentOngoingCall.refine(refinement)
+		return d
+	}
+	return DefaultStatementBuilderError(errors.New("a condition requires a preceding MATCH or procedure call"))
 }
 
 func (d DefaultStatementBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -398,8 +410,10 @@ func (d DefaultStatementBuilder) And(condition Condition) OngoingReadingWithWher
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	d.currentOngoingMatch.conditionBuilder.And(condition)
-	return d
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
+	return d.refine(func(conditionBuilder *ConditionBuilder) { conditionBuilder.And(condition) })
 }
 
 func (d DefaultStatementBuilder) AndPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
@@ -419,8 +433,7 @@ func (d DefaultStatementBuilder) Or(condition Condition) OngoingReadingWithWhere
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
-	d.currentOngoingMatch.conditionBuilder.Or(condition)
-	return d
+	return d.refine(func(conditionBuilder *ConditionBuilder) { conditionBuilder.Or(condition) })
 }
 
 func (d DefaultStatementBuilder) OrPattern(pattern RelationshipPattern) OngoingReadingWithWhere {
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index d5c82a7..2f831a3 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -30,10 +30,7 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
 	var where Where
-	if condition == nil || !condition.isNotNil() {
-		where = Where{}
-
-	} else {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	returnedWith := withCreate(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
@@ -218,6 +215,12 @@ func (d DefaultStatementWithWithBuilder) MatchDefault(optional bool, pattern ...
 }
 
 func (d DefaultStatementWithWithBuilder) Where(condition Condition) OrderableOngoingReadingAndWithWithWhere {
+	if d.err != nil {
+		return d
+	}
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementWithWithBuilderError(condition.GetError())
+	}
 	d.conditionBuilder.Where(condition)
 	return d
 }
@@ -227,6 +230,12 @@ func (d DefaultStatementWithWithBuilder) WherePattern(pattern RelationshipPatter
 }
 
 func (d DefaultStatementWithWithBuilder) And(condition Condition) OrderableOngoingReadingAndWithWithWhere {
+	if d.err != nil {
+		return d
+	}
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementWithWithBuilderError(condition.GetError())
+	}
 	d.conditionBuilder.And(condition)
 	return d
 }
@@ -236,6 +245,12 @@ func (d DefaultStatementWithWithBuilder) AndPattern(pattern RelationshipPattern)
 }
 
 func (d DefaultStatementWithWithBuilder) Or(condition Condition) OrderableOngoingReadingAndWithWithWhere {
+	if d.err != nil {
+		return d
+	}
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementWithWithBuilderError(condition.GetError())
+	}
 	d.conditionBuilder.Or(condition)
 	return d
 }
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index cb9d817..6a46c40 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -75,7 +75,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
 	condition := i.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
 			WhereCreate(condition)), nil
 	}
@@ -144,3 +144,8 @@ func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere
 func (i InQueryCallBuilder) isNotNil() bool {
 	return i.notNil
 }
+
+func (i InQueryCallBuilder) refine(refinement func(conditionBuilder *ConditionBuilder)) ProcedureCallBuilder {
+	refinement(&i.conditionBuilder)
+	return i
+}
diff --git a/match_builder.go b/match_builder.go
index 889d50e..cde488b 100644
--- a/match_builder.go
+++ b/match_builder.go
@@ -16,10 +16,10 @@ func MatchBuilderCreate(optional bool) MatchBuilder {
 }
 
 func (builder MatchBuilder) buildMatch() MatchPhrase {
-	pattern := Pattern{patternElements: builder.patternList}
+	pattern := PatternCreate(builder.patternList)
 	conditionBuilder := builder.conditionBuilder
 	builtCondition := conditionBuilder.buildCondition()
-	if builtCondition == nil || !builtCondition.isNotNil() {
+	if builtCondition == nil {
 		return MatchPhraseCreate(builder.optional, pattern, Where{})
 	}
 	return MatchPhraseCreate(builder.optional, pattern, WhereCreate(builtCondition))
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..0c6489c 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -131,6 +131,7 @@ type ProcedureCallBuilder interface {
 	ExposesReturning
 	BuildableStatement
 	isNotNil() bool
+	refine(refinement func(conditionBuilder *ConditionBuilder)) ProcedureCallBuilder
 }
 
 type StandaloneCallBuilder struct {
@@ -156,6 +157,9 @@ func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 }
 
 func (s StandaloneCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
+	if condition != nil && condition.GetError() != nil {
+		return DefaultStatementBuilderError(condition.GetError())
+	}
 	s.conditionBuilder.Where(condition)
 	return DefaultStatementBuilderCreate1(s)
 }
@@ -207,7 +211,7 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 		return nil, argumentsList.GetError()
 	}
 	condition := s.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		if condition.GetError() != nil {
 			return nil, condition.GetError()
 		}
@@ -217,6 +221,11 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 	return ProcedureCallCreate(s.procedureName, argumentsList, s.yieldItems, Where{}), nil
 }
 
+func (s StandaloneCallBuilder) refine(refinement func(conditionBuilder *ConditionBuilder)) ProcedureCallBuilder {
+	refinement(&s.conditionBuilder)
+	return s
+}
+
 func (s StandaloneCallBuilder) isNotNil() bool {
 	return s.notNil
 }
-- 
2.43.0


From 43e42da5541d6bc6289044cd27760793c8eb0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 07/50] fix: merge actions do not change the builder they are
 defined on and report their errors

---
 default_statement_builder.go | 10 +++++-----
 merge.go                     |  2 +-
 merge_action.go              |  3 +++
 remove.go                    |  2 +-
 updating_clause_builder.go   |  2 +-
 5 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index c3424d4..cfa8f74 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -747,13 +747,13 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 	}
 	support := o.defaultBuilder.currentOngoingUpdate.builder.(SupportsActionsOnTheUpdatingClause)
 	newSupport, err := support.on(o.mergeType, expressions...)
-	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	newMergeBuilder, _ := newSupport.(MergeBuilder)
+	defaultBuilder := *o.defaultBuilder
+	defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
+	return defaultBuilder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/merge.go b/merge.go
index 81fdf41..0b1636b 100644
--- a/merge.go
+++ b/merge.go
@@ -86,5 +86,5 @@ func (m merge) isNotNil() bool {
 }
 
 func (m merge) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/merge_action.go b/merge_action.go
index 0ad34d9..a24a0ab 100644
--- a/merge_action.go
+++ b/merge_action.go
@@ -9,6 +9,9 @@ type MergeAction struct {
 }
 
 func MergeActionCreate(mergeType MERGE_TYPE, set Set) MergeAction {
+	if set.GetError() != nil {
+		return MergeAction{err: set.GetError()}
+	}
 	m := MergeAction{
 		mergeType: mergeType,
 		set:       set,
diff --git a/remove.go b/remove.go
index 29a8131..573a971 100644
--- a/remove.go
+++ b/remove.go
@@ -52,5 +52,5 @@ func (r Remove) isNotNil() bool {
 }
 
 func (r Remove) isUpdatingClause() bool {
-	panic("implement me")
+	return true
 }
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..97f3ca2 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,7 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	c.mergeActions = append(c.mergeActions[:len(c.mergeActions):len(c.mergeActions)], MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
 }
 
-- 
2.43.0


From 1c76bd78583289c65dd6f1892ae3756471bbc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:35 +0000
Subject: [PATCH 08/50] fix: report errors of RETURN and WITH bodies, keep the
 state of descending sort items

---
 cypher.go                                |  4 ++--
 default_statement_with_return_builder.go |  2 +-
 default_statement_with_update.go         |  2 +-
 expression_list.go                       |  7 ++++++-
 order_builder.go                         | 19 ++++++++++++-------
 return_body.go                           |  8 ++++----
 sort_item.go                             | 16 ++++++++++++----
 statement_builder.go                     |  2 ++
 with.go                                  | 10 +++++-----
 9 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/cypher.go b/cypher.go
index 9d89e1e..462c559 100644
--- a/cypher.go
+++ b/cypher.go
@@ -314,9 +314,9 @@ func SortItemsOfRaw(elements ...string) []SortItem {
 		sortElements := strings.Split(element, " ")
 		literal := LiteralOf(sortElements[0])
 		direction := UNDEFINED
-		if sortElements[1] == "ASC" {
+		if len(sortElements) > 1 && sortElements[1] == "ASC" {
 			direction = ASC
-		}else if sortElements[1] == "DESC" {
+		} else if len(sortElements) > 1 && sortElements[1] == "DESC" {
 			direction = DESC
 		}
 		sortItems[index] = SortItemCreate(literal, direction)
diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index e8b750c..feb2845 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -22,7 +22,7 @@ func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 16cc8dd..83b5fb9 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -120,7 +120,7 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	}
 	var returning Return
 	if len(d.returnList) > 0 {
-		returnItems := ExpressionList{expressions: d.returnList}
+		returnItems := ExpressionListCreate(d.returnList)
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
diff --git a/expression_list.go b/expression_list.go
index c9a7596..263f2ac 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExpressionList struct {
 	ExpressionContainer
 	expressions []Expression
@@ -10,6 +12,9 @@ type ExpressionList struct {
 
 func ExpressionListCreate(expressions []Expression) ExpressionList {
 	for _, expression := range expressions {
+		if expression == nil {
+			return ExpressionListError(errors.New("expression list: expressions must be not nil"))
+		}
 		if expression.GetError() != nil {
 			return ExpressionListError(expression.GetError())
 		}
@@ -72,5 +77,5 @@ func NewExpressionList(expression ...Expression) ExpressionList {
 	for i := range expression {
 		expressions[i] = expression[i]
 	}
-	return ExpressionList{expressions: expressions}
+	return ExpressionListCreate(expressions)
 }
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..0044461 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,7 +15,11 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	o.addSortItem(item...)
+}
+
+func (o *OrderBuilder) addSortItem(item ...SortItem) {
+	o.sortItemList = append(o.sortItemList[:len(o.sortItemList):len(o.sortItemList)], item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +31,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.addSortItem(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.addSortItem(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -45,11 +49,12 @@ func (o *OrderBuilder) Limit(number int) {
 }
 
 func (o *OrderBuilder) BuildOrder() Order {
-	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+	sortItemList := o.sortItemList
+	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
+		sortItemList = append(sortItemList[:len(sortItemList):len(sortItemList)], o.lastSortItem)
 	}
-	if o.sortItemList != nil && len(o.sortItemList) > 0 {
-		return OrderCreate(o.sortItemList)
+	if len(sortItemList) > 0 {
+		return OrderCreate(sortItemList)
 	}
 	return Order{}
 }
diff --git a/return_body.go b/return_body.go
index 0cd30ff..e8d89fa 100644
--- a/return_body.go
+++ b/return_body.go
@@ -12,16 +12,16 @@ type ReturnBody struct {
 
 func ReturnBodyCreate(returnItems ExpressionList, order Order, skip Skip, limit Limit) ReturnBody {
 	if returnItems.GetError() != nil {
-		ReturnBodyError(returnItems.GetError())
+		return ReturnBodyError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		ReturnBodyError(order.GetError())
+		return ReturnBodyError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		ReturnBodyError(skip.GetError())
+		return ReturnBodyError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		ReturnBodyError(limit.GetError())
+		return ReturnBodyError(limit.GetError())
 	}
 	r := ReturnBody{
 		returnItems: returnItems,
diff --git a/sort_item.go b/sort_item.go
index 5ef4f7f..578ecfa 100644
--- a/sort_item.go
+++ b/sort_item.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type SortItem struct {
 	expression Expression
 	direction  SortDirection
@@ -9,7 +11,10 @@ type SortItem struct {
 }
 
 func SortItemCreate(expression Expression, direction SortDirectionRaw) SortItem {
-	if expression != nil && expression.GetError() != nil {
+	if expression == nil {
+		return SortItemError(errors.New("expression to sort must be not nil"))
+	}
+	if expression.GetError() != nil {
 		return SortItemError(expression.GetError())
 	}
 	sortItem := SortItem{
@@ -38,14 +43,17 @@ func (item SortItem) getKey() string {
 }
 
 func (item SortItem) Ascending() SortItem {
+	if item.err != nil {
+		return item
+	}
 	return SortItemCreate(item.expression, ASC)
 }
 
 func (item SortItem) Descending() SortItem {
-	return SortItem{
-		expression: item.expression,
-		direction:  SortDirection{value: DESC},
+	if item.err != nil {
+		return item
 	}
+	return SortItemCreate(item.expression, DESC)
 }
 
 func (item SortItem) accept(visitor *CypherRenderer) {
diff --git a/statement_builder.go b/statement_builder.go
index 13d39ea..644b9bd 100644
--- a/statement_builder.go
+++ b/statement_builder.go
@@ -69,6 +69,8 @@ type OngoingUpdate interface {
 }
 
 type ExposesLimitAndOngoingReadingAndWith interface {
+	ExposesLimit
+	OngoingReadingAndWith
 }
 
 type OrderableOngoingReadingAndWithWithoutWhere interface {
diff --git a/with.go b/with.go
index e321cf8..d9680b2 100644
--- a/with.go
+++ b/with.go
@@ -11,19 +11,19 @@ type with struct {
 
 func withCreate(distinct bool, returnItems ExpressionList, order Order, skip Skip, limit Limit, where Where) with {
 	if returnItems.GetError() != nil {
-		withError(returnItems.GetError())
+		return withError(returnItems.GetError())
 	}
 	if order.GetError() != nil {
-		withError(order.GetError())
+		return withError(order.GetError())
 	}
 	if skip.GetError() != nil {
-		withError(skip.GetError())
+		return withError(skip.GetError())
 	}
 	if limit.GetError() != nil {
-		withError(limit.GetError())
+		return withError(limit.GetError())
 	}
 	if where.GetError() != nil {
-		withError(where.GetError())
+		return withError(where.GetError())
 	}
 	distinctInstance := Distinct{}
 	if distinct {
-- 
2.43.0


From dc1358d60eefc5e8d8a663774bda125754964519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 09/50] fix: keep errors and identities of nodes, relationships
 and chains, escape names everywhere

---
 cypher.go               |  9 +----
 key_value_map_entry.go  |  1 +
 node.go                 | 30 ++++++++++++----
 property_lookup.go      |  1 +
 relationship.go         | 29 ++++++++++++---
 relationship_chain.go   | 80 +++++++++++++++++++++++------------------
 relationship_details.go |  6 ++--
 relationship_type.go    | 13 ++++---
 unwind.go               | 12 +++++--
 9 files changed, 119 insertions(+), 62 deletions(-)

diff --git a/cypher.go b/cypher.go
index 462c559..d763fb1 100644
--- a/cypher.go
+++ b/cypher.go
@@ -14,14 +14,7 @@ import (
  * @return A new node representation
  */
 func NewNodeWithLabels(primaryLabel string, additionalLabel ...string) Node {
-	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
-	for _, label := range additionalLabel {
-		labels = append(labels, NodeLabel{value: label})
-	}
-	return Node{
-		labels: labels,
-	}
+	return NodeCreate3(primaryLabel, additionalLabel...)
 }
 
 /**
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index b4c659a..4ad8c92 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -16,6 +16,7 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
+		notNil:   true,
 	}
 	entry.key = getAddress(&entry)
 	entry.ExpressionContainer = ExpressionWrap(entry)
diff --git a/node.go b/node.go
index c6b77af..7f894fc 100644
--- a/node.go
+++ b/node.go
@@ -17,10 +17,14 @@ func NodeCreate() Node {
 	node := Node{
 		notNil: true,
 	}
+	node.injectKey()
 	return node
 }
 
 func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ...string) Node {
+	if properties.GetError() != nil {
+		return NodeError(properties.GetError())
+	}
 	if primaryLabel == "" {
 		return NodeError(errors.New("primary label is required"))
 	}
@@ -30,7 +34,7 @@ func NodeCreate1(primaryLabel string, properties Properties, additionalLabels ..
 		}
 	}
 	labels := make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabels {
 		labels = append(labels, NodeLabelCreate(label))
 	}
@@ -67,19 +71,30 @@ func NodeCreate3(primaryLabel string, additionalLabel ...string) Node {
 		}
 	}
 	var labels = make([]NodeLabel, 0)
-	labels = append(labels, NodeLabel{value: primaryLabel})
+	labels = append(labels, NodeLabelCreate(primaryLabel))
 	for _, label := range additionalLabel {
 		labels = append(labels, NodeLabelCreate(label))
 	}
 	node := Node{
 		labels: labels,
+		notNil: true,
 	}
 	node.injectKey()
 	return node
 }
 
 func NodeCreate4(newProperties MapExpression, node Node) Node {
-	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: PropertiesCreate(newProperties)}
+	if node.GetError() != nil {
+		return node
+	}
+	if newProperties.GetError() != nil {
+		return NodeError(newProperties.GetError())
+	}
+	properties := Properties{}
+	if newProperties.isNotNil() {
+		properties = PropertiesCreate(newProperties)
+	}
+	newNode := Node{symbolicName: node.symbolicName, labels: node.labels, notNil: true, properties: properties}
 	newNode.injectKey()
 	return newNode
 }
@@ -147,7 +162,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
@@ -188,11 +203,13 @@ func (node Node) Property(name string) Property {
 }
 
 func (node Node) NamedByString(name string) Node {
-	node.symbolicName = SymbolicNameCreate(name)
-	return node
+	return node.Named(SymbolicNameCreate(name))
 }
 
 func (node Node) Named(name SymbolicName) Node {
+	if node.GetError() != nil {
+		return node
+	}
 	if name.GetError() != nil {
 		return NodeError(name.GetError())
 	}
@@ -200,6 +217,7 @@ func (node Node) Named(name SymbolicName) Node {
 		return NodeError(errors.New("node named: symbolic name is required"))
 	}
 	node.symbolicName = name
+	node.injectKey()
 	return node
 }
 
diff --git a/property_lookup.go b/property_lookup.go
index b154772..6f48bd4 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -11,6 +11,7 @@ type PropertyLookup struct {
 func PropertyLookupCreate(name string) PropertyLookup {
 	property := PropertyLookup{
 		propertyKeyName: name,
+		notNil:          true,
 	}
 	property.key = getAddress(&property)
 	property.ExpressionContainer = ExpressionWrap(property)
diff --git a/relationship.go b/relationship.go
index 327a29c..94bca26 100644
--- a/relationship.go
+++ b/relationship.go
@@ -78,22 +78,37 @@ func (r Relationship) getKey() string {
 }
 
 func (r Relationship) NamedByString(newSymbolicName string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(newSymbolicName), r.right)
 }
 
 func (r Relationship) Unbounded() Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.unbounded(), r.right)
 }
 
 func (r Relationship) Min(minimum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum), r.right)
 }
 
 func (r Relationship) Length(minimum int, maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)
 }
 
 func (r Relationship) Max(maximum int) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.max(maximum), r.right)
 }
 
@@ -116,18 +131,21 @@ func (r Relationship) IsPatternElement() bool {
 }
 
 func (r Relationship) RelationshipTo(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipTo(node, types...))
+	return RelationshipChainCreate(r).RelationshipTo(node, types...)
 }
 
 func (r Relationship) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipFrom(node, types...))
+	return RelationshipChainCreate(r).RelationshipFrom(node, types...)
 }
 
 func (r Relationship) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	return RelationshipChainCreate(r).Add(r.right.RelationshipBetween(node, types...))
+	return RelationshipChainCreate(r).RelationshipBetween(node, types...)
 }
 
 func (r Relationship) Named(name string) Relationship {
+	if r.err != nil {
+		return r
+	}
 	return RelationshipCreate3(r.left, r.details.namedByString(name), r.right)
 }
 
@@ -151,9 +169,12 @@ func (r Relationship) WithRawProperties(keysAndValues ...interface{}) Relationsh
 }
 
 func (r Relationship) WithProperties(newProperties MapExpression) Relationship {
-	if !newProperties.isNotNil() && !r.details.properties.isNotNil() {
+	if r.err != nil {
 		return r
 	}
+	if newProperties.GetError() != nil {
+		return RelationshipError(newProperties.GetError())
+	}
 	property := Properties{}
 	if newProperties.isNotNil() {
 		property = PropertiesCreate(newProperties)
diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..b0733d9 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -10,9 +10,28 @@ type RelationshipChain struct {
 }
 
 func RelationshipChainCreate(relationship Relationship) RelationshipChain {
-	relations := make([]Relationship, 1)
-	relations[0] = relationship
-	return RelationshipChain{relationships: relations, notNil: true}
+	return relationshipChainOf(relationship)
+}
+
+func relationshipChainOf(relationships ...Relationship) RelationshipChain {
+	for _, relationship := range relationships {
+		if relationship.GetError() != nil {
+			return RelationshipChain{err: relationship.GetError()}
+		}
+	}
+	chain := RelationshipChain{relationships: relationships, notNil: true}
+	chain.key = getAddress(&chain)
+	return chain
+}
+
+// withLast gives a new chain with another last relationship. This chain stays as it is.
+func (r RelationshipChain) withLast(change func(last Relationship) Relationship) RelationshipChain {
+	if r.err != nil {
+		return r
+	}
+	relationships := append([]Relationship{}, r.relationships...)
+	relationships[len(relationships)-1] = change(relationships[len(relationships)-1])
+	return relationshipChainOf(relationships...)
 }
 
 func RelationshipChainError(msg string) RelationshipChain {
@@ -32,21 +51,24 @@ func (r RelationshipChain) getKey() string {
 }
 
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...))
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...))
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
-	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...))
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -54,45 +76,31 @@ func (r RelationshipChain) Named(name string) Relationship {
 }
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.Named(name) })
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.Unbounded() })
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.Min(minimum) })
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.Length(minimum, maximum) })
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.Max(maximum) })
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.WithProperties(newProperties) })
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
-	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.withLast(func(last Relationship) Relationship { return last.WithRawProperties(keysAndValues...) })
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +122,10 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	if r.err != nil {
+		return r
+	}
+	return relationshipChainOf(append(append([]Relationship{}, r.relationships...), relationship)...)
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
diff --git a/relationship_details.go b/relationship_details.go
index 622e5f7..9198866 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,7 +57,7 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
-	return RelationshipDetails{
+	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
 		types:        types,
@@ -65,6 +65,8 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 		properties:   properties,
 		notNil:       true,
 	}
+	r.key = getAddress(&r)
+	return r
 }
 
 func RelationshipDetailsError(err error) RelationshipDetails {
@@ -73,8 +75,6 @@ func RelationshipDetailsError(err error) RelationshipDetails {
 	}
 }
 
-
-
 func (r RelationshipDetails) GetError() error {
 	return r.err
 }
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..2d80c33 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type RelationshipTypes struct {
 	values []string
@@ -10,6 +13,11 @@ type RelationshipTypes struct {
 }
 
 func RelationshipTypesCreate(types []string) RelationshipTypes {
+	for _, value := range types {
+		if value == "" {
+			return RelationshipTypesError(errors.New("empty relationship type is not allowed"))
+		}
+	}
 	r := RelationshipTypes{
 		values: types,
 		notNil: true,
@@ -44,9 +52,6 @@ func (r RelationshipTypes) accept(visitor *CypherRenderer) {
 func (r RelationshipTypes) enter(renderer *CypherRenderer) {
 	typeWithPrefix := make([]string, 0)
 	for _, typeRaw := range r.values {
-		if typeRaw == "" {
-			continue
-		}
 		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw))
 	}
 	if len(r.values) > 0 {
diff --git a/unwind.go b/unwind.go
index bf93a89..f2f208a 100644
--- a/unwind.go
+++ b/unwind.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UnwindPhrase struct {
 	expressionToUnwind Expression
 	variable           string
@@ -9,9 +11,15 @@ type UnwindPhrase struct {
 }
 
 func unwindCreate(expressionToUnwind Expression, variable string) UnwindPhrase {
-	if expressionToUnwind != nil && expressionToUnwind.GetError() != nil {
+	if expressionToUnwind == nil {
+		return unwindError(errors.New("an expression to unwind is required"))
+	}
+	if expressionToUnwind.GetError() != nil {
 		return unwindError(expressionToUnwind.GetError())
 	}
+	if variable == "" {
+		return unwindError(errors.New("a variable to unwind to is required"))
+	}
 	var expression Expression
 	if aliased, isAliased := expressionToUnwind.(Aliased); isAliased {
 		expression = aliased.AsName()
@@ -47,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(u.variable)
+	renderer.append(EscapeIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From e5a80e240ff260b5c64ee9f42e4bc0a59e3fe359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 10/50] fix: keep the structure of operations and refuse names
 and labels that are missing

---
 comparison.go          |  4 ++--
 expressions.go         |  6 ++----
 has_label_condition.go |  3 +++
 operation.go           | 23 +++++++++++++++++++----
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/comparison.go b/comparison.go
index de49515..f84b630 100644
--- a/comparison.go
+++ b/comparison.go
@@ -30,7 +30,7 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
-	if right == nil || !left.isNotNil() {
+	if right == nil || !right.isNotNil() {
 		return ComparisonError(errors.New("right expression must be not nil"))
 	}
 	comparison := Comparison{
@@ -72,7 +72,7 @@ func ComparisonCreate1(operator Operator, expression Expression) Comparison {
 			right:    nil,
 		}
 	default:
-		return Comparison{}
+		return ComparisonError(errors.New("comparison: operator must be a prefix or postfix operator"))
 	}
 	comparison.key = getAddress(&comparison)
 	comparison.notNil = true
diff --git a/expressions.go b/expressions.go
index d5fd352..ddd927d 100644
--- a/expressions.go
+++ b/expressions.go
@@ -12,7 +12,7 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
 		if named != nil {
-			expressions = append(expressions, named.GetSymbolicName())
+			expressions = append(expressions, named.GetRequiredSymbolicName())
 		}
 	}
 	return expressions
@@ -20,9 +20,7 @@ func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 func CreateSymbolicNameByString(args ...string) []Expression {
 	expressions := make([]Expression, 0)
 	for _, arg := range args {
-		if arg != "" {
-			expressions = append(expressions, SymbolicNameCreate(arg))
-		}
+		expressions = append(expressions, SymbolicNameCreate(arg))
 	}
 	return expressions
 }
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..ae27f8b 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -23,6 +23,9 @@ func HasLabelConditionCreate(nodeName SymbolicName, labels ...string) HasLabelCo
 	}
 	nodeLabels := make([]NodeLabel, len(labels))
 	for i := range labels {
+		if labels[i] == "" {
+			return HasLabelConditionError(errors.New("empty label is not allowed"))
+		}
 		nodeLabels[i] = NodeLabelCreate(labels[i])
 	}
 	hasLabelCondition := HasLabelCondition{
diff --git a/operation.go b/operation.go
index 9e3f3db..a3f3018 100644
--- a/operation.go
+++ b/operation.go
@@ -34,6 +34,14 @@ func OperationCreate(left Expression, operator Operator, right Expression) Opera
 	if right == nil || !right.isNotNil() {
 		return OperationError(errors.New("operation: right can not be nil"))
 	}
+	if operator.operatorType == BINARY {
+		left = nestedIfCondition(left)
+		right = nestedIfCondition(right)
+	}
+	if rightOperation, isOperation := right.(Operation); isOperation && operator == EXPONENTIATION &&
+		rightOperation.operator == EXPONENTIATION {
+		right = NestedExpressionCreate(right)
+	}
 	o := Operation{
 		left:     left,
 		operator: operator,
@@ -55,13 +63,13 @@ func OperationCreate1(left Expression, operator Operator, right NodeLabel) Opera
 	if right.GetError() != nil {
 		return OperationError(right.GetError())
 	}
-	if left == nil || left.isNotNil() {
+	if left == nil || !left.isNotNil() {
 		return OperationError(errors.New("left can not be nil"))
 	}
-	if operator.isNotNil() {
+	if !operator.isNotNil() {
 		return OperationError(errors.New("operator can not be nil"))
 	}
-	if right.isNotNil() {
+	if !right.isNotNil() {
 		return OperationError(errors.New("right can not be nil"))
 	}
 	o := Operation{
@@ -94,12 +102,19 @@ func OperationCreate2(op1 Node, operator Operator, nodeLabels ...string) Operati
 	if nodeLabels == nil || len(nodeLabels) == 0 {
 		return OperationError(errors.New("labels can not be nil or empty"))
 	}
+	name := op1.GetRequiredSymbolicName()
+	if name.GetError() != nil {
+		return OperationError(name.GetError())
+	}
 	labels := make([]NodeLabel, 0)
 	for _, nodeLabel := range nodeLabels {
+		if nodeLabel == "" {
+			return OperationError(errors.New("empty label is not allowed"))
+		}
 		labels = append(labels, NodeLabelCreate(nodeLabel))
 	}
 	o := Operation{
-		left:     op1.GetRequiredSymbolicName(),
+		left:     name,
 		operator: operator,
 		right:    NodeLabelsCreate(labels),
 		notNil:   true,
-- 
2.43.0


From 204854c2ebe66ee63270db4666612a8069decffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 11/50] fix: collect distinct values, allow temporal functions
 without arguments and report errors of arguments

---
 boolean_function_condition.go |  3 +++
 function_invocation.go        | 50 ++++++++++++++++++-----------------
 functions.go                  | 34 ++++++++++++------------
 3 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index c6fe40f..986fea8 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -9,6 +9,9 @@ type BooleanFunctionCondition struct {
 }
 
 func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunctionCondition {
+	if delegate.GetError() != nil {
+		return BooleanFunctionConditionError(delegate.GetError())
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/function_invocation.go b/function_invocation.go
index 4467e61..716d9a7 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -14,16 +14,12 @@ type FunctionInvocation struct {
 }
 
 func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation {
-	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName(), nil)
+	return FunctionInvocationCreateWithFunctionName(definition.getImplementationName())
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
-	if arguments != nil {
-		for _, expression := range arguments {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(functionName, arguments); err != nil {
+		return FunctionInvocationError(err)
 	}
 	argumentVisitables := make([]Visitable, len(arguments))
 	for i := range arguments {
@@ -40,14 +36,10 @@ func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...
 }
 
 func FunctionInvocationCreate(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
+		return FunctionInvocationError(err)
 	}
-	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
+	if len(expressions) == 0 {
 		return FunctionInvocationError(errors.Errorf("function invocation create: expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, len(expressions))
@@ -105,23 +97,17 @@ func FunctionInvocationCreateWithPattern(definition FunctionDefinition, pattern
 }
 
 func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions ...Expression) FunctionInvocation {
-	if expressions != nil {
-		for _, expression := range expressions {
-			if expression.GetError() != nil {
-				return FunctionInvocationError(expression.GetError())
-			}
-		}
+	if err := errorOfArguments(definition.getImplementationName(), expressions); err != nil {
+		return FunctionInvocationError(err)
 	}
 	if !definition.isAggregate() {
 		return FunctionInvocationError(errors.New("the distinct operator can only be applied within aggregate functions"))
 	}
-	if len(expressions) == 0 || expressions[0] == nil || !expressions[0].isNotNil() {
+	if len(expressions) == 0 {
 		return FunctionInvocationError(errors.Errorf("expression for %s is required", definition.getImplementationName()))
 	}
 	arguments := make([]Visitable, 0)
-	arguments = append(arguments, DistinctExpression{
-		delegate: expressions[0],
-	})
+	arguments = append(arguments, DistinctExpressionCreate(expressions[0]))
 	for _, expression := range expressions[1:] {
 		arguments = append(arguments, expression)
 	}
@@ -135,6 +121,22 @@ func FunctionInvocationCreateDistinct(definition FunctionDefinition, expressions
 	return f
 }
 
+// errorOfArguments gives the first error of the arguments, a missing argument is an error, too.
+func errorOfArguments(functionName string, arguments []Expression) error {
+	for _, argument := range arguments {
+		if argument == nil {
+			return errors.Errorf("function invocation create: expression for %s is required", functionName)
+		}
+		if argument.GetError() != nil {
+			return argument.GetError()
+		}
+		if !argument.isNotNil() {
+			return errors.Errorf("function invocation create: expression for %s is required", functionName)
+		}
+	}
+	return nil
+}
+
 func FunctionInvocationError(err error) FunctionInvocation {
 	return FunctionInvocation{
 		err: err,
diff --git a/functions.go b/functions.go
index 1f4217e..57a725d 100644
--- a/functions.go
+++ b/functions.go
@@ -194,7 +194,7 @@ func CollectDistinct(expression Expression) FunctionInvocation {
 	if expression != nil && expression.GetError() != nil {
 		return FunctionInvocationError(expression.GetError())
 	}
-	return FunctionInvocationCreateDistinct(AVG, expression)
+	return FunctionInvocationCreateDistinct(COLLECT, expression)
 }
 
 /**
@@ -715,10 +715,10 @@ func DateWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions date with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATE, temporalValue)
@@ -732,7 +732,7 @@ func DateWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Datetime() FunctionInvocation {
-	return FunctionInvocationCreate(DATETIME)
+	return FunctionInvocationCreate1(DATETIME)
 }
 
 /**
@@ -780,10 +780,10 @@ func DateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions datetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(DATETIME, temporalValue)
@@ -797,7 +797,7 @@ func DateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDatetime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALDATETIME)
+	return FunctionInvocationCreate1(LOCALDATETIME)
 }
 
 /**
@@ -860,10 +860,10 @@ func LocalDateTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localdatetime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALDATETIME, temporalValue)
@@ -877,7 +877,7 @@ func LocalDateTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Localtime() FunctionInvocation {
-	return FunctionInvocationCreate(LOCALTIME)
+	return FunctionInvocationCreate1(LOCALTIME)
 }
 
 /**
@@ -939,10 +939,10 @@ func LocalTimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions localtime with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(LOCALTIME, temporalValue)
@@ -956,7 +956,7 @@ func LocalTimeWithExpression(temporalValue Expression) FunctionInvocation {
  * @since 2020.1.0
  */
 func Time() FunctionInvocation {
-	return FunctionInvocationCreate(TIME)
+	return FunctionInvocationCreate1(TIME)
 }
 
 /**
@@ -1019,10 +1019,10 @@ func TimeWithTemporal(temporalValue string) FunctionInvocation {
  * @since 2020.1.0
  */
 func TimeWithExpression(temporalValue Expression) FunctionInvocation {
-	if temporalValue.GetError() != nil {
+	if temporalValue != nil && temporalValue.GetError() != nil {
 		return FunctionInvocationError(temporalValue.GetError())
 	}
-	if !temporalValue.isNotNil() {
+	if temporalValue == nil || !temporalValue.isNotNil() {
 		return FunctionInvocationError(errors.New("functions time with temporalValue :temporalValue is required"))
 	}
 	return FunctionInvocationCreate(TIME, temporalValue)
@@ -1073,10 +1073,10 @@ func DurationWithTemporal(temporalAmount string) FunctionInvocation {
  * @since 2020.1.0
  */
 func DurationWithExpression(temporalAmount Expression) FunctionInvocation {
-	if temporalAmount.GetError() != nil {
+	if temporalAmount != nil && temporalAmount.GetError() != nil {
 		return FunctionInvocationError(temporalAmount.GetError())
 	}
-	if !temporalAmount.isNotNil() {
+	if temporalAmount == nil || !temporalAmount.isNotNil() {
 		return FunctionInvocationError(errors.New("functions duration with temporalAmount :temporalAmount is required"))
 	}
 	return FunctionInvocationCreate(DURATION, temporalAmount)
-- 
2.43.0


From cd74605aeb5907d2a961609d283d05fed78c21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 12/50] fix: comprehensions, list predicates and existential
 subqueries report errors instead of dropping them or panicking

---
 default_statement_builder.go |  7 +++++--
 excluded_pattern.go          |  4 ++--
 existential_subquery.go      |  2 +-
 list_comprehension.go        | 26 +++++++++++++++++++++++++-
 list_expression.go           |  6 +++---
 list_predicate.go            |  4 ++--
 pattern_comprehension.go     | 26 +++++++++++++++++++++++++-
 predicates.go                | 17 +++++++++++++++--
 8 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index cfa8f74..5fa48c0 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -400,8 +400,11 @@ func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingI
 }
 
 func (d DefaultStatementBuilder) AsCondition() Condition {
-	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 {
-		panic("only simple MATCH statements can be used as existential subqueries")
+	if d.err != nil {
+		return ExistentialSubqueryError(d.err)
+	}
+	if !d.currentOngoingMatch.notNil || len(d.currentSinglePartElements) > 0 || len(d.multipartElements) > 0 {
+		return ExistentialSubqueryError(errors.New("only simple MATCH statements can be used as existential subqueries"))
 	}
 	return ExistentialSubqueryExists(d.currentOngoingMatch.buildMatch())
 }
diff --git a/excluded_pattern.go b/excluded_pattern.go
index 6798cf1..ca822fa 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -53,9 +53,9 @@ func (e ExcludedPattern) isNotNil() bool {
 }
 
 func (e ExcludedPattern) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExcludedPattern"
 }
 
 func (e ExcludedPattern) getConditionType() string {
-	panic("implement me")
+	return "ExcludedPattern"
 }
diff --git a/existential_subquery.go b/existential_subquery.go
index 8f741af..bf2eb20 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -58,7 +58,7 @@ func (e ExistentialSubquery) isNotNil() bool {
 }
 
 func (e ExistentialSubquery) GetExpressionType() ExpressionType {
-	panic("implement me")
+	return "ExistentialSubquery"
 }
 
 func (e ExistentialSubquery) getConditionType() string {
diff --git a/list_comprehension.go b/list_comprehension.go
index 4feb036..165dda8 100644
--- a/list_comprehension.go
+++ b/list_comprehension.go
@@ -17,6 +17,18 @@ func ListComprehensionCreate(variable SymbolicName, listExpression Expression, w
 	if variable.GetError() != nil {
 		return ListComprehensionError(variable.GetError())
 	}
+	if listExpression != nil && listExpression.GetError() != nil {
+		return ListComprehensionError(listExpression.GetError())
+	}
+	if where.GetError() != nil {
+		return ListComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return ListComprehensionError(listDefinition.GetError())
+	}
+	if listExpression == nil || !listExpression.isNotNil() {
+		return ListComprehensionError(errors.New("list comprehension: the list expression is required"))
+	}
 	list := ListComprehension{
 		variable:       variable,
 		listExpression: listExpression,
@@ -36,6 +48,9 @@ func ListComprehensionError(err error) ListComprehension {
 }
 
 func ListComprehensionWith(variable SymbolicName) OngoingDefinitionWithVariable {
+	if variable.GetError() != nil {
+		return ListComprehensionBuilder{err: variable.GetError()}
+	}
 	if !variable.isNotNil() {
 		return ListComprehensionBuilder{err: errors.New("list comprehension: a variable is required")}
 	}
@@ -117,15 +132,24 @@ func (l ListComprehensionBuilder) ReturningByNamed(variables ...Named) ListCompr
 }
 
 func (l ListComprehensionBuilder) Returning(expressions ...Expression) ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
 		ListOrSingleExpression(expressions...))
 }
 
 func (l ListComprehensionBuilder) ReturningDefault() ListComprehension {
+	if l.err != nil {
+		return ListComprehensionError(l.err)
+	}
 	return ListComprehensionCreate(l.variable, l.listExpression, l.where, nil)
 }
 
 func (l ListComprehensionBuilder) Where(condition Condition) OngoingDefinitionWithoutReturn {
-	l.where = WhereCreate(condition)
+	conditionBuilder := ConditionBuilder{condition: condition}
+	if conditionBuilder.hasCondition() {
+		l.where = WhereCreate(condition)
+	}
 	return l
 }
diff --git a/list_expression.go b/list_expression.go
index 9cd5d54..44ff8a1 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -34,10 +34,10 @@ func ListExpressionError(err error) ListExpression {
 }
 
 func ListOrSingleExpression(expressions ...Expression) Expression {
-	if expressions == nil || len(expressions) == 0 {
-		ListExpressionError(errors.New("expressions are required"))
+	if len(expressions) == 0 {
+		return ListExpressionError(errors.New("expressions are required"))
 	}
-	if len(expressions) == 1 {
+	if len(expressions) == 1 && expressions[0] != nil {
 		return expressions[0]
 	} else {
 		return ListExpressionCreate1(expressions...)
diff --git a/list_predicate.go b/list_predicate.go
index a006a80..2eb960c 100644
--- a/list_predicate.go
+++ b/list_predicate.go
@@ -15,10 +15,10 @@ func ListPredicateCreate(variable SymbolicName, listExpression Expression, where
 		return ListPredicateError(variable.GetError())
 	}
 	if listExpression != nil && listExpression.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(listExpression.GetError())
 	}
 	if where.GetError() != nil {
-		return ListPredicateError(variable.GetError())
+		return ListPredicateError(where.GetError())
 	}
 	listPredicate := ListPredicate{
 		variable:       variable,
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ce0f866..ac8ef84 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,6 +13,15 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern.GetError() != nil {
+		return PatternComprehensionError(pattern.GetError())
+	}
+	if where.GetError() != nil {
+		return PatternComprehensionError(where.GetError())
+	}
+	if listDefinition != nil && listDefinition.GetError() != nil {
+		return PatternComprehensionError(listDefinition.GetError())
+	}
 	patternComprehension := PatternComprehension{
 		pattern:        pattern,
 		where:          where,
@@ -29,6 +38,9 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -36,6 +48,9 @@ func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensi
 }
 
 func PatternComprehensionBasedOnNamePath(pattern NamedPath) PatternComprehensionOngoingDefinitionWithPattern {
+	if pattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pattern.GetError()}
+	}
 	if !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
@@ -122,9 +137,12 @@ func (p PatternComprehensionBuilder) ReturningByNamed(variables ...Named) Patter
 }
 
 func (p PatternComprehensionBuilder) Returning(listDefinitions ...Expression) PatternComprehension {
+	if p.err != nil {
+		return PatternComprehensionError(p.err)
+	}
 	where := Where{}
 	condition := p.conditionBuilder.buildCondition()
-	if condition != nil && condition.isNotNil() {
+	if condition != nil {
 		where = WhereCreate(condition)
 	}
 	return PatternComprehensionCreate(p.pattern, where, ListOrSingleExpression(listDefinitions...))
@@ -136,6 +154,12 @@ func (p PatternComprehensionBuilder) Where(condition Condition) PatternComprehen
 }
 
 func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPatternAndWhere {
+	if p.err != nil {
+		return p
+	}
+	if pathPattern.GetError() != nil {
+		return PatternComprehensionBuilder{err: pathPattern.GetError()}
+	}
 	if !pathPattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
 	}
diff --git a/predicates.go b/predicates.go
index f930db8..a52f440 100644
--- a/predicates.go
+++ b/predicates.go
@@ -60,6 +60,9 @@ type PredicateBuilder struct {
 }
 
 func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBuilder {
+	if name.GetError() != nil {
+		return PredicateBuilder{err: name.GetError()}
+	}
 	if !name.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("name for predicate is require")}
 	}
@@ -70,6 +73,12 @@ func PredicateBuilderCreate(predicate Predicate, name SymbolicName) PredicateBui
 }
 
 func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionWithList {
+	if p.err != nil {
+		return p
+	}
+	if list != nil && list.GetError() != nil {
+		return PredicateBuilder{err: list.GetError()}
+	}
 	if list == nil || !list.isNotNil() {
 		return PredicateBuilder{err: xerrors.New("predicate builder: the list expression is required")}
 	}
@@ -78,12 +87,16 @@ func (p PredicateBuilder) In(list Expression) OngoingListBasedPredicateFunctionW
 }
 
 func (p PredicateBuilder) Where(condition Condition) Condition {
-	if condition == nil || !condition.isNotNil() {
+	if p.err != nil {
+		return BooleanFunctionConditionError(p.err)
+	}
+	conditionBuilder := ConditionBuilder{condition: condition}
+	if !conditionBuilder.hasCondition() {
 		return BooleanFunctionConditionError(xerrors.New("predicate builder where: the condition is required"))
 	}
 	return BooleanFunctionConditionCreate(FunctionInvocationCreate(p.predicate, ListPredicateCreate(p.name, p.listExpression, WhereCreate(condition))))
 }
 
 func (p PredicateBuilder) GetError() error {
-	panic("implement me")
+	return p.err
 }
-- 
2.43.0


From 5dcc4f8249da340169298d671c63d9fb0f2fc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 13/50] fix: adding a WHEN or ELSE to a CASE does not change
 the CASE it is added to and keeps errors and the ELSE

---
 case.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/case.go b/case.go
index 0d82f1a..e7706c2 100644
--- a/case.go
+++ b/case.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Case struct {
 	ConditionContainer
 	caseElse       CaseElse
@@ -115,6 +117,9 @@ func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 }
 
 func (c Case) When(nextExpression Expression) OngoingWhenThen {
+	if c.err != nil {
+		return OngoingWhenThen{err: c.err}
+	}
 	return OngoingWhenThenCreate(&c, nextExpression)
 }
 
@@ -165,11 +170,15 @@ func (c Case) getConditionType() string {
 }
 
 func (c Case) ElseDefault(defaultExpression Expression) CaseEnding {
+	if c.err != nil {
+		return c
+	}
 	caseElse := CaseElseCreate(defaultExpression)
 	if caseElse.GetError() != nil {
 		return Case{err: caseElse.GetError()}
 	}
 	c.caseElse = caseElse
+	c.key = getAddress(&c)
 	c.ExpressionContainer = ExpressionWrap(c)
 	return c
 }
@@ -207,13 +216,23 @@ func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) Ongoin
 }
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
+	if o.err != nil {
+		return Case{err: o.err}
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	existing := o.caseInstance.caseWhenThens
+	caseWhenThens := append(existing[:len(existing):len(existing)], caseWhenThen)
+	var extended Case
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		extended = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		extended = EndingGenericCaseCreate(caseWhenThens)
 	}
+	if extended.err == nil && o.caseInstance.caseElse.isNotNil() {
+		extended.caseElse = o.caseInstance.caseElse
+		extended.ConditionContainer = ConditionWrap(extended)
+	}
+	return extended
 }
 
 //CaseWhenThen
@@ -227,6 +246,9 @@ type CaseWhenThen struct {
 }
 
 func CaseWhenThenCreate(whenExpression Expression, thenExpression Expression) CaseWhenThen {
+	if whenExpression == nil || thenExpression == nil {
+		return CaseWhenThen{err: errors.New("case: the when and the then expression are required")}
+	}
 	if thenExpression != nil && thenExpression.GetError() != nil {
 		return CaseWhenThen{err: thenExpression.GetError()}
 	}
@@ -282,6 +304,9 @@ type CaseElse struct {
 }
 
 func CaseElseCreate(elseExpression Expression) CaseElse {
+	if elseExpression == nil {
+		return CaseElse{err: errors.New("case: the else expression is required")}
+	}
 	if elseExpression != nil && elseExpression.GetError() != nil {
 		return CaseElse{err: elseExpression.GetError()}
 	}
-- 
2.43.0


From b12241331294ad080a673621f780ea4930c40828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 14/50] fix: keep the namespace of procedures and report errors
 of procedure calls

---
 cypher.go                |  2 +-
 in_query_call_builder.go | 13 ++++++++++---
 procedure_call.go        | 31 ++++++++++++++++++++++++-------
 procedure_name.go        | 25 ++++++++++++++++---------
 yield_items.go           |  2 +-
 5 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/cypher.go b/cypher.go
index d763fb1..ff755ce 100644
--- a/cypher.go
+++ b/cypher.go
@@ -424,7 +424,7 @@ func ACallSimple(procedureName string) OngoingStandaloneCallWithoutArguments {
 	if procedureName == "" {
 		return StandaloneCallBuilderError(errors.New("the procedure name must not be nil or empty"))
 	}
-	return ACall(strings.Split(procedureName, "\\.")...)
+	return ACall(strings.Split(procedureName, ".")...)
 }
 
 /**
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 6a46c40..6eeda7f 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -70,16 +70,23 @@ func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingR
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
+	if i.err != nil {
+		return nil, i.err
+	}
 	argumentsList := Arguments{}
 	if i.arguments == nil || len(i.arguments) > 0 {
 		argumentsList = ArgumentsCreate(i.arguments)
 	}
+	where := Where{}
 	condition := i.conditionBuilder.buildCondition()
 	if condition != nil {
-		return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems,
-			WhereCreate(condition)), nil
+		where = WhereCreate(condition)
+	}
+	call := ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, where)
+	if call.GetError() != nil {
+		return nil, call.GetError()
 	}
-	return ProcedureCallCreate(i.procedureName, argumentsList, i.yieldItems, Where{}), nil
+	return call, nil
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
diff --git a/procedure_call.go b/procedure_call.go
index 0c6489c..4c48ccf 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -156,12 +156,20 @@ func StandaloneCallBuilderError(err error) StandaloneCallBuilder {
 	}
 }
 
+// asStatementBuilder gives the statement that starts with this call.
+func (s StandaloneCallBuilder) asStatementBuilder() DefaultStatementBuilder {
+	if s.err != nil {
+		return DefaultStatementBuilderError(s.err)
+	}
+	return DefaultStatementBuilderCreate1(s)
+}
+
 func (s StandaloneCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	if condition != nil && condition.GetError() != nil {
 		return DefaultStatementBuilderError(condition.GetError())
 	}
 	s.conditionBuilder.Where(condition)
-	return DefaultStatementBuilderCreate1(s)
+	return s.asStatementBuilder()
 }
 
 func (s StandaloneCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -181,7 +189,7 @@ func (s StandaloneCallBuilder) ReturningByNamed(variables ...Named) OngoingReadi
 }
 
 func (s StandaloneCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).Returning(expression...)
+	return s.asStatementBuilder().Returning(expression...)
 }
 
 func (s StandaloneCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -193,10 +201,13 @@ func (s StandaloneCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongo
 }
 
 func (s StandaloneCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	return DefaultStatementBuilderCreate1(s).ReturningDistinct(expression...)
+	return s.asStatementBuilder().ReturningDistinct(expression...)
 }
 
 func (s StandaloneCallBuilder) Build() (Statement, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
 	if s.procedureName.GetError() != nil {
 		return nil, s.procedureName.GetError()
 	}
@@ -231,7 +242,13 @@ func (s StandaloneCallBuilder) isNotNil() bool {
 }
 
 func (s StandaloneCallBuilder) AsFunction() Expression {
-	return FunctionInvocationCreate(FunctionDefinitionDefault{s.procedureName.getQualifiedName()}, s.arguments...)
+	if s.err != nil {
+		return FunctionInvocationError(s.err)
+	}
+	if s.procedureName.GetError() != nil {
+		return FunctionInvocationError(s.procedureName.GetError())
+	}
+	return FunctionInvocationCreateWithFunctionName(s.procedureName.getQualifiedName(), s.arguments...)
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
@@ -274,7 +291,7 @@ func (s StandaloneCallBuilder) WithByNamed(variables ...Named) OrderableOngoingR
 }
 
 func (s StandaloneCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).With(expressions...)
+	return s.asStatementBuilder().With(expressions...)
 }
 
 func (s StandaloneCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -286,9 +303,9 @@ func (s StandaloneCallBuilder) WithDistinctByNamed(variables ...Named) Orderable
 }
 
 func (s StandaloneCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).WithDistinct(expressions...)
+	return s.asStatementBuilder().WithDistinct(expressions...)
 }
 
 func (s StandaloneCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	return DefaultStatementBuilderCreate1(s).Call(statement)
+	return s.asStatementBuilder().Call(statement)
 }
diff --git a/procedure_name.go b/procedure_name.go
index 9cd37e3..2f8d83d 100644
--- a/procedure_name.go
+++ b/procedure_name.go
@@ -1,8 +1,6 @@
 package cypher
 
-import (
-	"strings"
-)
+import "errors"
 
 type ProcedureName struct {
 	optionalNamespace Namespace
@@ -13,12 +11,19 @@ type ProcedureName struct {
 }
 
 func ProcedureNameCreate(namespaceAndProcedure ...string) ProcedureName {
-	if len(namespaceAndProcedure) == 1 {
+	for _, part := range namespaceAndProcedure {
+		if part == "" {
+			return ProcedureName{err: errors.New("the procedure name must not be empty")}
+		}
+	}
+	if len(namespaceAndProcedure) == 0 {
+		return ProcedureName{err: errors.New("the procedure name is required")}
+	} else if len(namespaceAndProcedure) == 1 {
 		return ProcedureNameCreate1(namespaceAndProcedure[0])
 	} else {
-		values := make([]string, 0)
 		inputLength := len(namespaceAndProcedure)
-		copy(values, namespaceAndProcedure[1:inputLength-1])
+		values := make([]string, inputLength-1)
+		copy(values, namespaceAndProcedure[:inputLength-1])
 		namespace := NameSpaceCreate(values)
 		return ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])
 	}
@@ -47,11 +52,10 @@ func ProcedureNameCreate2(namespace Namespace, value string) ProcedureName {
 }
 
 func (p ProcedureName) getQualifiedName() string {
-	namespace := ""
 	if p.optionalNamespace.isNotNil() {
-		namespace = strings.Join(p.optionalNamespace.content[:], ".")
+		return p.optionalNamespace.AsString() + "." + p.value
 	}
-	return namespace + "." + p.value
+	return p.value
 }
 
 func (p ProcedureName) GetError() error {
@@ -68,6 +72,9 @@ func (p ProcedureName) enter(renderer *CypherRenderer) {
 }
 
 func (p ProcedureName) leave(renderer *CypherRenderer) {
+	if p.optionalNamespace.isNotNil() {
+		renderer.append(".")
+	}
 	renderer.append(p.value)
 }
 
diff --git a/yield_items.go b/yield_items.go
index 026a586..7164ae7 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -28,7 +28,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 
 func YieldItemsError(err error) YieldItems {
 	return YieldItems{
-		err: nil,
+		err: err,
 	}
 }
 
-- 
2.43.0


From f760bd4087d10bb4e0a7e106853db90ba76f4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 15/50] fix: reject mixed unions wherever the other union is,
 keep errors of united statements

---
 cypher.go           | 32 ++++++++++++++------------------
 multi_part_query.go |  1 +
 union_query.go      |  6 +++---
 3 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/cypher.go b/cypher.go
index ff755ce..2f914dd 100644
--- a/cypher.go
+++ b/cypher.go
@@ -562,26 +562,22 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 	if statements == nil || len(statements) < 2 {
 		return UnionQueryError(errors.New("at least 2 statements are required"))
 	}
-	i := 0
-	existingUnionQuery := UnionQuery{}
-	if unionQuery, isUnion := statements[0].(UnionQuery); isUnion {
-		existingUnionQuery = unionQuery
-		if existingUnionQuery.all != unionAll {
-			return UnionQueryError(errors.New("cannot mix union and union all"))
-		}
-		i = 1
-	}
 	listOfQueries := make([]SingleQuery, 0)
-	for _, query := range statements[i:] {
-		if singleQuery, isSingle := query.(SingleQuery); isSingle {
-			listOfQueries = append(listOfQueries, singleQuery)
+	for _, query := range statements {
+		if query == nil {
+			return UnionQueryError(errors.New("can only union single queries"))
+		}
+		if query.GetError() != nil {
+			return UnionQueryError(query.GetError())
+		}
+		if unionQuery, isUnion := query.(UnionQuery); isUnion {
+			if unionQuery.all != unionAll {
+				return UnionQueryError(errors.New("cannot mix union and union all"))
+			}
+			listOfQueries = append(listOfQueries, unionQuery.queries()...)
 			continue
 		}
-		return UnionQueryError(errors.New("can only union single queries"))
-	}
-	if !existingUnionQuery.notNil {
-		return UnionQueryCreate(unionAll, listOfQueries)
-	} else {
-		return existingUnionQuery.addAdditionalQueries(listOfQueries)
+		listOfQueries = append(listOfQueries, query)
 	}
+	return UnionQueryCreate(unionAll, listOfQueries)
 }
diff --git a/multi_part_query.go b/multi_part_query.go
index 9772a66..532fa22 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -20,6 +20,7 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 	m := MultiPartQuery{
 		parts:     parts,
 		remainder: remainder,
+		notNil:    true,
 	}
 	m.key = getAddress(&m)
 	return m
diff --git a/union_query.go b/union_query.go
index 0012ac6..43dc203 100644
--- a/union_query.go
+++ b/union_query.go
@@ -47,14 +47,14 @@ func UnionQueryError(err error) UnionQuery {
 	}
 }
 
-func (q UnionQuery) addAdditionalQueries(newAdditionalQueries []SingleQuery) UnionQuery {
+// queries gives all the queries of this union in their order.
+func (q UnionQuery) queries() []SingleQuery {
 	queries := make([]SingleQuery, 0)
 	queries = append(queries, q.firstQuery)
 	for _, unionPart := range q.additionalQueries {
 		queries = append(queries, unionPart.query)
 	}
-	queries = append(queries, newAdditionalQueries...)
-	return UnionQueryCreate(q.all, queries)
+	return queries
 }
 
 func (q UnionQuery) GetError() error {
-- 
2.43.0


From 293c7c8df445b872d616e875f436bb78cfbf4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 16/50] fix: refuse empty keys of maps and map projections,
 keep the error of a path without a name

---
 entry_expression.go    | 7 +++++++
 key_value_map_entry.go | 5 +++++
 map_projection.go      | 3 +++
 name_path.go           | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/entry_expression.go b/entry_expression.go
index ee0db5b..f31609c 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type EntryExpression struct {
 	ExpressionContainer
 	Key    string
@@ -15,6 +17,11 @@ func EntryExpressionCreate(key string, value Expression) EntryExpression {
 			err: value.GetError(),
 		}
 	}
+	if key == "" {
+		return EntryExpression{
+			err: errors.New("the key of a map entry is required"),
+		}
+	}
 	e := EntryExpression{
 		Value:  value,
 		Key:    key,
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 4ad8c92..2c7fc57 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type KeyValueMapEntry struct {
 	ExpressionContainer
 	entryKey string
@@ -13,6 +15,9 @@ func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
 	if value != nil && value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
+	if key == "" {
+		return KeyValueMapEntryError(errors.New("the key of a map entry is required"))
+	}
 	entry := KeyValueMapEntry{
 		entryKey: key,
 		value:    value,
diff --git a/map_projection.go b/map_projection.go
index 090d0f2..c38fe13 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -121,6 +121,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 		current := contentAt(content, i)
 		if aString, isString := current.(string); isString {
+			if aString == "" {
+				return nil, xerrors.Errorf("map projection create new content: a key or property name must not be empty")
+			}
 			if anExpression, isExpression := next.(Expression); isExpression {
 				lastKey = aString
 				lastExpression = anExpression
diff --git a/name_path.go b/name_path.go
index ed0148d..fa5f204 100644
--- a/name_path.go
+++ b/name_path.go
@@ -17,6 +17,9 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if pattern != nil && pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
+	if pattern == nil {
+		return NamedPathError(errors.New("the pattern of a named path is required"))
+	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
 	n.key = getAddress(&n)
 	return n
@@ -139,6 +142,9 @@ func NamedPathBuilderCreate(name SymbolicName) NamedPathBuilder {
 }
 
 func (n NamedPathBuilder) DefinedBy(pattern RelationshipPattern) NamedPath {
+	if n.err != nil {
+		return NamedPathError(n.err)
+	}
 	return NamedPathCreate(n.name, pattern)
 }
 
-- 
2.43.0


From 95095ccc4a4e1a0bd44c1332acd8176fa74ca1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 17/50] fix: rendering a statement does not depend on what the
 renderer has rendered before

---
 cypher_renderer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..64cf12c 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,10 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	// What has been seen while rendering one statement must not have an influence on the next one.
+	run := NewRenderer()
+	statement.accept(run)
+	return strings.TrimSpace(run.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From 631eb95caf41dff205d937e620ea0328c033ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 18/50] fix: an alias stands for its expression only after the
 projection that defines it

---
 alias_expression.go |  4 ++--
 cypher_renderer.go  | 15 ++++++++++++++-
 return_body.go      |  1 +
 yield_items.go      |  1 +
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 3030c05..8206482 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -69,13 +69,13 @@ func (aliased AliasedExpression) getKey() string {
 }
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; visited {
+	if renderer.definedAliases[aliased.key] {
 		renderer.append(EscapeIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
-	if _, visited := renderer.visitableToAliased[aliased.delegate.getKey()]; !visited {
+	if !renderer.definedAliases[aliased.key] {
 		renderer.append(" AS ")
 		renderer.append(EscapeIfNecessary(aliased.alias))
 	}
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 64cf12c..33f87d0 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -9,6 +9,8 @@ import (
 
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
+	definedAliases         map[string]bool
+	pendingAliases         []AliasedExpression
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[SymbolicName]string
 	visitedNamed           map[string]int
@@ -28,6 +30,7 @@ func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
+		definedAliases:         make(map[string]bool),
 		separatorOnLevel:       make(map[int]string),
 		resolvedSymbolicNames:  make(map[SymbolicName]string),
 		visitedNamed:           make(map[string]int),
@@ -98,15 +101,25 @@ func (renderer *CypherRenderer) leave(visitable Visitable) {
 	}
 	aliasedExpression, isAliased := (visitable).(AliasedExpression)
 	if isAliased {
+		renderer.definedAliases[aliasedExpression.key] = true
+		renderer.pendingAliases = append(renderer.pendingAliases, aliasedExpression)
+	}
+}
+
+// useAliases lets the aliases defined so far stand for the expressions they name. This must not happen before all items
+// of a projection have been rendered, the items don't know the aliases of each other.
+func (renderer *CypherRenderer) useAliases() {
+	for _, aliasedExpression := range renderer.pendingAliases {
 		renderer.visitableToAliased[aliasedExpression.delegate.getKey()] = aliasedExpression
 	}
+	renderer.pendingAliases = nil
 }
 
 func (renderer *CypherRenderer) PreEnter(visitable *Visitable) bool {
 	lastAliased := peekAliased(renderer.currentAliasedElements)
 	visited := false
 	if lastAliased != nil {
-		_, visited = renderer.visitableToAliased[lastAliased.delegate.getKey()]
+		visited = renderer.definedAliases[lastAliased.key]
 	}
 	if renderer.skipNodeContent || visited {
 		return false
diff --git a/return_body.go b/return_body.go
index e8d89fa..e06d377 100644
--- a/return_body.go
+++ b/return_body.go
@@ -60,6 +60,7 @@ func (r ReturnBody) getKey() string {
 
 func (r ReturnBody) accept(visitor *CypherRenderer) {
 	r.returnItems.accept(visitor)
+	visitor.useAliases()
 	VisitIfNotNull(r.order, visitor)
 	VisitIfNotNull(r.skip, visitor)
 	VisitIfNotNull(r.limit, visitor)
diff --git a/yield_items.go b/yield_items.go
index 7164ae7..27624e1 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -54,6 +54,7 @@ func (e YieldItems) accept(visitor *CypherRenderer) {
 		e.PrepareVisit(expression).accept(visitor)
 	}
 	visitor.leave(e)
+	visitor.useAliases()
 }
 
 func (e YieldItems) enter(renderer *CypherRenderer) {
-- 
2.43.0


From bdec62dae21cc781945f499b9eb7db25dac0720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 19/50] fix: subscripts and property lookups apply to the whole
 expression they are used on

---
 comparison.go    | 12 ++++++++++++
 list_operator.go |  2 +-
 property.go      |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/comparison.go b/comparison.go
index f84b630..d6f9729 100644
--- a/comparison.go
+++ b/comparison.go
@@ -131,3 +131,15 @@ func nestedIfCondition(expression Expression) Expression {
 	}
 	return expression
 }
+
+// nestedIfNotAtomic puts everything in parentheses to which a following property lookup or subscript would not apply as
+// a whole.
+func nestedIfNotAtomic(expression Expression) Expression {
+	if _, isNumber := expression.(NumberLiteral); isNumber {
+		return NestedExpressionCreate(expression)
+	}
+	if operation, isOperation := expression.(Operation); isOperation && !operation.needsGrouping() {
+		return NestedExpressionCreate(expression)
+	}
+	return nestedIfCondition(expression)
+}
diff --git a/list_operator.go b/list_operator.go
index a11ffc1..940283b 100644
--- a/list_operator.go
+++ b/list_operator.go
@@ -13,7 +13,7 @@ type ListOperator struct {
 
 func listOperatorCreate(targetExpression Expression, optionalStart Expression, dots Dot, optionalEnd Expression) ListOperator {
 	operator := ListOperator{
-		targetExpression: targetExpression,
+		targetExpression: nestedIfNotAtomic(targetExpression),
 		details:          ListOperatorDetailsCreate(optionalStart, dots, optionalEnd),
 		notNil:           true,
 	}
diff --git a/property.go b/property.go
index 735bdae..0b9dd8e 100644
--- a/property.go
+++ b/property.go
@@ -49,7 +49,7 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 		return PropertyError(name.GetError())
 	}
 	property := Property{
-		container: container,
+		container: nestedIfNotAtomic(container),
 		name:      name,
 		notNil:    true,
 	}
-- 
2.43.0


From 374854adbc5a45cdf2e267b5dac7e26b655ea307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 20/50] fix: quote names that consist of blanks only

---
 alias_expression.go    |  4 ++--
 cypher_renderer.go     | 10 +++++++++-
 entry_expression.go    |  2 +-
 key_value_map_entry.go |  2 +-
 property_lookup.go     |  2 +-
 unwind.go              |  2 +-
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index 8206482..f02ad4e 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -70,14 +70,14 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if renderer.definedAliases[aliased.key] {
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
 	if !renderer.definedAliases[aliased.key] {
 		renderer.append(" AS ")
-		renderer.append(EscapeIfNecessary(aliased.alias))
+		renderer.append(quoteIfNecessary(aliased.alias))
 	}
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 33f87d0..9594d7e 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -76,7 +76,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-			return EscapeIfNecessary(value)
+			return quoteIfNecessary(value)
 		}
 		return renderer.guid.String()
 	}
@@ -208,6 +208,14 @@ func escapeName(name string) string {
 	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 }
 
+// quoteIfNecessary makes any name, a blank one too, a single identifier.
+func quoteIfNecessary(name string) string {
+	if isIdentifier(name) {
+		return name
+	}
+	return escapeName(name)
+}
+
 func EscapeIfNecessary(name string) string {
 	if len(strings.TrimSpace(name)) == 0 || isIdentifier(name) {
 		return name
diff --git a/entry_expression.go b/entry_expression.go
index f31609c..6472e3a 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -55,7 +55,7 @@ func (e EntryExpression) accept(visitor *CypherRenderer) {
 }
 
 func (e EntryExpression) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(e.Key))
+	renderer.append(quoteIfNecessary(e.Key))
 	renderer.append(": ")
 }
 
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 2c7fc57..878c2f1 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -45,7 +45,7 @@ func (k KeyValueMapEntry) accept(visitor *CypherRenderer) {
 }
 
 func (k KeyValueMapEntry) enter(renderer *CypherRenderer) {
-	renderer.append(EscapeIfNecessary(k.entryKey)).append(": ")
+	renderer.append(quoteIfNecessary(k.entryKey)).append(": ")
 }
 
 func (k KeyValueMapEntry) leave(renderer *CypherRenderer) {
diff --git a/property_lookup.go b/property_lookup.go
index 6f48bd4..dc41cbf 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -37,7 +37,7 @@ func (p PropertyLookup) enter(renderer *CypherRenderer) {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-	renderer.append(EscapeIfNecessary(p.GetPropertyKeyName()))
+	renderer.append(quoteIfNecessary(p.GetPropertyKeyName()))
 }
 
 func (p PropertyLookup) leave(renderer *CypherRenderer) {
diff --git a/unwind.go b/unwind.go
index f2f208a..94cad60 100644
--- a/unwind.go
+++ b/unwind.go
@@ -55,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(EscapeIfNecessary(u.variable))
+	renderer.append(quoteIfNecessary(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From eedaea8905eaa1dabc90ffd5f191f5f638d4579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 21/50] fix: SET keeps the order of its items and takes
 arithmetic values in pairs

---
 default_statement_builder.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 5fa48c0..5a9c8bc 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -693,22 +693,26 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	return RemoveBuilder{}, xerrors.Errorf("unexpected behavior")
 }
 
+// prepareSetExpression turns what has been passed to SET into operations, in the given order. Assignments and changes
+// of labels are operations already, everything else is a pair of a target and its new value.
 func prepareSetExpression(possibleSetOperations []Expression) ([]Expression, error) {
 	propertyOperations := make([]Expression, 0)
-	listOfExpressions := make([]Expression, 0)
+	var target Expression
+	hasTarget := false
 	for _, possibleSetOperation := range possibleSetOperations {
-		if operation, isOperation := possibleSetOperation.(Operation); isOperation {
+		operation, isOperation := possibleSetOperation.(Operation)
+		if isOperation && (operation.operator.operatorType == PROPERTY || operation.operator.operatorType == LABEL) {
 			propertyOperations = append(propertyOperations, operation)
+		} else if !hasTarget {
+			target, hasTarget = possibleSetOperation, true
 		} else {
-			listOfExpressions = append(listOfExpressions, possibleSetOperation)
+			propertyOperations = append(propertyOperations, OperationSet(target, possibleSetOperation))
+			hasTarget = false
 		}
 	}
-	if len(listOfExpressions)%2 != 0 {
+	if hasTarget {
 		return nil, xerrors.New("the list of expression to OperationSet must be even")
 	}
-	for i := 0; i < len(listOfExpressions); i += 2 {
-		propertyOperations = append(propertyOperations, OperationSet(listOfExpressions[i], listOfExpressions[i+1]))
-	}
 	return propertyOperations, nil
 }
 
-- 
2.43.0


From 03cadb4d64dbec631bb5e827d6fc9723493941ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:03 +0000
Subject: [PATCH 22/50] fix: an alias of a literal doesn't apply to every other
 literal of that value

---
 conditions.go | 4 ++--
 cypher.go     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/conditions.go b/conditions.go
index 5e43241..ae11192 100644
--- a/conditions.go
+++ b/conditions.go
@@ -18,9 +18,9 @@ func ConditionsNoCondition() Condition {
 }
 
 func ConditionsIsTrue() Condition {
-	return TRUE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(true))
 }
 
 func ConditionsIsFalse() Condition {
-	return FALSE_CONDITION
+	return ConstantConditionCreate(BooleanLiteralCreate(false))
 }
diff --git a/cypher.go b/cypher.go
index 2f914dd..45cafbb 100644
--- a/cypher.go
+++ b/cypher.go
@@ -54,7 +54,7 @@ func AnyNodeNamed(name string) Node {
  * @return The {@code *} wildcard literal.
  */
 func AnAsterisk() Asterisk {
-	return ASTERISK
+	return AsteriskCreate()
 }
 
 /**
@@ -321,14 +321,14 @@ func SortItemsOfRaw(elements ...string) []SortItem {
  * @return The {@literal true} literal.
  */
 func LiteralTrue() BooleanLiteral {
-	return TRUE
+	return BooleanLiteralCreate(true)
 }
 
 /**
  * @return The {@literal false} literal.
  */
 func LiteralFalse() BooleanLiteral {
-	return FALSE
+	return BooleanLiteralCreate(false)
 }
 
 /**
@@ -538,7 +538,7 @@ func CypherValueAtByExpression(targetExpression Expression, index Expression) Ex
 func LiteralOf(object interface{}) Literal {
 	//TODO: maybe we need to handle more literal type
 	if object == nil {
-		return NIL_INSTANCE
+		return NullLiteralCreate()
 	}
 	if stringValue, isString := object.(string); isString {
 		return StringLiteralCreate(stringValue)
-- 
2.43.0


From 21b0d624363a2da0c0342283e739273a7bc8cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 23/50] fix: list literals can be operands

---
 list_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_literal.go b/list_literal.go
index 7ada298..18e74e7 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -18,10 +18,10 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 	}
 	list := ListLiteral{
 		content: contents,
+		notNil:  true,
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
-	list.notNil = true
 	return list
 }
 
-- 
2.43.0


From 88abe70fd9856c5cacfeb992499e4345a75bd29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 24/50] fix: separators of list literals belong to the literal

---
 list_literal.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/list_literal.go b/list_literal.go
index 18e74e7..dab4c81 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -37,21 +37,14 @@ func (l ListLiteral) GetError() error {
 
 func (l ListLiteral) accept(visitor *CypherRenderer) {
 	visitor.enter(l)
-	for i, literal := range l.content {
-		if(i > 0) {
-			visitor.append(", ")
-		}
-		literal.accept(visitor)
-	}
 	visitor.leave(l)
 }
 
 func (l ListLiteral) enter(renderer *CypherRenderer) {
-	renderer.append("[")
+	renderer.append(l.AsString())
 }
 
 func (l ListLiteral) leave(renderer *CypherRenderer) {
-	renderer.append("]")
 }
 
 func (l ListLiteral) getKey() string {
-- 
2.43.0


From c808d95c1833ada8050282af7a81e786a9ef5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 25/50] fix: a list of a single membership test is no list
 comprehension

---
 list_expression.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/list_expression.go b/list_expression.go
index 44ff8a1..64b4e47 100644
--- a/list_expression.go
+++ b/list_expression.go
@@ -14,6 +14,9 @@ func ListExpressionCreate(content ExpressionList) ListExpression {
 	if content.GetError() != nil {
 		return ListExpressionError(content.GetError())
 	}
+	if len(content.expressions) == 1 && readsAsComprehension(content.expressions[0]) {
+		content = ExpressionListCreate([]Expression{NestedExpressionCreate(content.expressions[0])})
+	}
 	list := ListExpression{
 		content: content,
 		notNil:  true,
@@ -23,6 +26,18 @@ func ListExpressionCreate(content ExpressionList) ListExpression {
 	return list
 }
 
+// readsAsComprehension tells whether an expression would be taken for the head of a list comprehension if it were the only
+// element of a list: [x IN y]
+func readsAsComprehension(expression Expression) bool {
+	switch condition := expression.(type) {
+	case Comparison:
+		return condition.operator == IN
+	case CompoundCondition:
+		return len(condition.conditions) == 1 && readsAsComprehension(condition.conditions[0])
+	}
+	return false
+}
+
 func ListExpressionCreate1(expressions ...Expression) ListExpression {
 	return ListExpressionCreate(ExpressionListCreate(expressions))
 }
-- 
2.43.0


From c462bae0bac095a204f03697c163cc2042b3db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 26/50] fix: errors of properties and aliases used as
 projection items are reported

---
 map_projection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map_projection.go b/map_projection.go
index c38fe13..c76fd7d 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -139,6 +139,9 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 			i += 1
 		}
 
+		if lastExpression != nil && lastExpression.GetError() != nil {
+			return nil, lastExpression.GetError()
+		}
 		if _, isAsterisk := lastExpression.(Asterisk); isAsterisk {
 			lastExpression = PropertyLookupCreate("*")
 		}
-- 
2.43.0


From fb958de5801f115673e6189e9a7fb1416e5ae581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 27/50] fix: duplicate keys of a map projection are refused
 however they were added

---
 map_projection.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/map_projection.go b/map_projection.go
index c76fd7d..ffbb9ec 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -90,7 +90,11 @@ func (m MapProjection) And(content ...interface{}) MapProjection {
 	if err != nil {
 		return MapProjectionError(err)
 	}
-	return MapProjectionCreateWithMapExpression(m.name, m.mapExpression.AddEntries(newContent))
+	mapExpression := m.mapExpression.AddEntries(newContent)
+	if err := duplicateKeyError(mapExpression.expressions); err != nil {
+		return MapProjectionError(err)
+	}
+	return MapProjectionCreateWithMapExpression(m.name, mapExpression)
 }
 
 func contentAt(content []interface{}, i int) interface{} {
@@ -108,7 +112,6 @@ func contentAt(content []interface{}, i int) interface{} {
 
 func createNewContent(content ...interface{}) ([]Expression, error) {
 	newContent := make([]Expression, 0)
-	knownKeys := make(map[string]int)
 	lastKey := ""
 	var lastExpression Expression
 	i := 0
@@ -147,12 +150,7 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		}
 		var entry Expression
 		if lastKey != "" {
-			_, isDuplicateKey := knownKeys[lastKey]
-			if isDuplicateKey {
-				return nil, xerrors.Errorf("map projection create new content: duplicate key %s", lastKey)
-			}
 			entry = KeyValueMapEntryCreate(lastKey, lastExpression)
-			knownKeys[lastKey] = 1
 		} else if _, isSymbolicName := lastExpression.(SymbolicName); isSymbolicName {
 			entry = lastExpression
 		} else if _, isPropertyLookup := lastExpression.(PropertyLookup); isPropertyLookup {
@@ -174,5 +172,21 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 		lastKey = ""
 		lastExpression = nil
 	}
-	return newContent, nil
+	return newContent, duplicateKeyError(newContent)
+}
+
+// duplicateKeyError gives an error if two entries have the same key.
+func duplicateKeyError(entries []Expression) error {
+	knownKeys := make(map[string]bool)
+	for _, candidate := range entries {
+		entry, isEntry := candidate.(KeyValueMapEntry)
+		if !isEntry {
+			continue
+		}
+		if knownKeys[entry.entryKey] {
+			return xerrors.Errorf("map projection: duplicate key %s", entry.entryKey)
+		}
+		knownKeys[entry.entryKey] = true
+	}
+	return nil
 }
-- 
2.43.0


From 23cbac4638e9dc3aa01f5f89103314db991f1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 28/50] fix: a negative SKIP or LIMIT is refused

---
 limit.go |  3 +++
 skip.go  | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/limit.go b/limit.go
index 5a5fd5c..4895f71 100644
--- a/limit.go
+++ b/limit.go
@@ -13,6 +13,9 @@ func LimitCreate(number int) Limit {
 	if number == 0 {
 		return LimitError(errors.New("limit can not be zero"))
 	}
+	if number < 0 {
+		return LimitError(errors.New("limit can not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	l := Limit{limitAmount: literal, notNil: true}
 	l.key = getAddress(&l)
diff --git a/skip.go b/skip.go
index 55748c9..03955ac 100644
--- a/skip.go
+++ b/skip.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Skip struct {
 	skipAmount NumberLiteral
 	key        string
@@ -8,12 +10,21 @@ type Skip struct {
 }
 
 func SkipCreate(number int) Skip {
+	if number < 0 {
+		return SkipError(errors.New("skip can not be negative"))
+	}
 	literal := NumberLiteralCreate1(number)
 	skip := Skip{skipAmount: literal, notNil: true}
 	skip.key = getAddress(&skip)
 	return skip
 }
 
+func SkipError(err error) Skip {
+	return Skip{
+		err: err,
+	}
+}
+
 func (s Skip) GetError() error {
 	return s.err
 }
-- 
2.43.0


From 435492c6185be3c8b806d2f81227b17d2a2e9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 29/50] fix: the queries of a union don't take the aliases of
 each other for defined

---
 cypher_renderer.go | 34 ++++++++++++++++++++++++++++++----
 union_query.go     |  6 ++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 9594d7e..b863af6 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -8,8 +8,7 @@ import (
 )
 
 type CypherRenderer struct {
-	visitableToAliased     map[string]AliasedExpression
-	definedAliases         map[string]bool
+	aliases
 	pendingAliases         []AliasedExpression
 	separatorOnLevel       map[int]string
 	resolvedSymbolicNames  map[SymbolicName]string
@@ -22,6 +21,34 @@ type CypherRenderer struct {
 	guid                   xid.ID
 }
 
+// aliases are the aliases that have been defined so far.
+type aliases struct {
+	visitableToAliased map[string]AliasedExpression
+	definedAliases     map[string]bool
+}
+
+func newAliases() aliases {
+	return aliases{
+		visitableToAliased: make(map[string]AliasedExpression),
+		definedAliases:     make(map[string]bool),
+	}
+}
+
+func (a aliases) copyAliases() aliases {
+	result := newAliases()
+	result.addAliases(a)
+	return result
+}
+
+func (a aliases) addAliases(other aliases) {
+	for key, aliased := range other.visitableToAliased {
+		a.visitableToAliased[key] = aliased
+	}
+	for key := range other.definedAliases {
+		a.definedAliases[key] = true
+	}
+}
+
 func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 	renderer.builder.WriteString(content)
 	return renderer
@@ -29,8 +56,7 @@ func (renderer *CypherRenderer) append(content string) *CypherRenderer {
 
 func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
-		visitableToAliased:     make(map[string]AliasedExpression),
-		definedAliases:         make(map[string]bool),
+		aliases:                newAliases(),
 		separatorOnLevel:       make(map[int]string),
 		resolvedSymbolicNames:  make(map[SymbolicName]string),
 		visitedNamed:           make(map[string]int),
diff --git a/union_query.go b/union_query.go
index 43dc203..01c74f4 100644
--- a/union_query.go
+++ b/union_query.go
@@ -63,9 +63,15 @@ func (q UnionQuery) GetError() error {
 
 func (q UnionQuery) accept(visitor *CypherRenderer) {
 	visitor.enter(q)
+	before := visitor.copyAliases()
 	q.firstQuery.accept(visitor)
 	for _, additionalQuery := range q.additionalQueries {
+		// The queries of a union don't know the aliases of each other.
+		defined := visitor.copyAliases()
+		visitor.aliases = before.copyAliases()
+		visitor.pendingAliases = nil
 		additionalQuery.accept(visitor)
+		visitor.addAliases(defined)
 	}
 	visitor.leave(q)
 }
-- 
2.43.0


From 2cabae2f36e01811179ca5e6ce90ad6c8fb32e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 30/50] fix: the name of an element that has none is an error,
 not a random name

---
 cypher_renderer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index b863af6..616bb28 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -19,6 +19,7 @@ type CypherRenderer struct {
 	skipNodeContent        bool
 	builder                strings.Builder
 	guid                   xid.ID
+	err                    error
 }
 
 // aliases are the aliases that have been defined so far.
@@ -78,6 +79,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	// What has been seen while rendering one statement must not have an influence on the next one.
 	run := NewRenderer()
 	statement.accept(run)
+	if run.err != nil {
+		return "", run.err
+	}
 	return strings.TrimSpace(run.builder.String()), nil
 }
 
@@ -99,6 +103,9 @@ func (renderer *CypherRenderer) resetSeparatorOnCurrentLevel() {
 }
 
 func (renderer *CypherRenderer) resolve(name SymbolicName) string {
+	if !name.isNotNil() {
+		renderer.err = xerrors.New("a name is required, but the element it was taken from has none")
+	}
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-- 
2.43.0


From 9f07a05f005a7aa091bf07dd3ecc9f018d2226e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 31/50] fix: a simple CASE without its expression is an error

---
 case.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/case.go b/case.go
index e7706c2..43d2b82 100644
--- a/case.go
+++ b/case.go
@@ -42,6 +42,9 @@ func SimpleCaseCreate1(caseExpression Expression) Case {
 	if caseExpression != nil && caseExpression.GetError() != nil {
 		return Case{err: caseExpression.GetError()}
 	}
+	if caseExpression == nil || !caseExpression.isNotNil() {
+		return Case{err: errors.New("case: the expression of a simple case is required")}
+	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
 		caseWhenThens:  make([]CaseWhenThen, 0),
-- 
2.43.0


From 21d9fb90c5f80f7680eee55c2fe823396c95dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 32/50] fix: a missing step of range() is an error

---
 functions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 57a725d..8f449a8 100644
--- a/functions.go
+++ b/functions.go
@@ -480,8 +480,10 @@ func RangeWithStep(start Expression, end Expression, step Expression) FunctionIn
 	if end == nil || !end.isNotNil() {
 		return FunctionInvocationError(errors.New("functions range: end for range is required"))
 	}
-	if step == nil || !step.isNotNil() {
+	if step == nil {
 		return FunctionInvocationCreate(RANGE, start, end)
+	} else if !step.isNotNil() {
+		return FunctionInvocationError(errors.New("functions range: step for range is required"))
 	} else {
 		return FunctionInvocationCreate(RANGE, start, end, step)
 	}
-- 
2.43.0


From a39ba055b7c2d7f500ef26ac57fc3aa7b33825b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 33/50] fix: duplicate keys of maps composed of entries are
 reported

---
 map_expression.go |  3 +++
 map_projection.go | 21 +++++++++++----------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..bd4c91c 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -18,6 +18,9 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 			return MapExpressionError(content.GetError())
 		}
 	}
+	if err := duplicateKeyError(newContents); err != nil {
+		return MapExpressionError(err)
+	}
 	m := MapExpression{
 		expressions: newContents,
 		notNil:      true,
diff --git a/map_projection.go b/map_projection.go
index ffbb9ec..ed2d0e6 100644
--- a/map_projection.go
+++ b/map_projection.go
@@ -90,11 +90,7 @@ func (m MapProjection) And(content ...interface{}) MapProjection {
 	if err != nil {
 		return MapProjectionError(err)
 	}
-	mapExpression := m.mapExpression.AddEntries(newContent)
-	if err := duplicateKeyError(mapExpression.expressions); err != nil {
-		return MapProjectionError(err)
-	}
-	return MapProjectionCreateWithMapExpression(m.name, mapExpression)
+	return MapProjectionCreateWithMapExpression(m.name, m.mapExpression.AddEntries(newContent))
 }
 
 func contentAt(content []interface{}, i int) interface{} {
@@ -179,14 +175,19 @@ func createNewContent(content ...interface{}) ([]Expression, error) {
 func duplicateKeyError(entries []Expression) error {
 	knownKeys := make(map[string]bool)
 	for _, candidate := range entries {
-		entry, isEntry := candidate.(KeyValueMapEntry)
-		if !isEntry {
+		var key string
+		switch entry := candidate.(type) {
+		case KeyValueMapEntry:
+			key = entry.entryKey
+		case EntryExpression:
+			key = entry.Key
+		default:
 			continue
 		}
-		if knownKeys[entry.entryKey] {
-			return xerrors.Errorf("map projection: duplicate key %s", entry.entryKey)
+		if knownKeys[key] {
+			return xerrors.Errorf("map: duplicate key %s", key)
 		}
-		knownKeys[entry.entryKey] = true
+		knownKeys[key] = true
 	}
 	return nil
 }
-- 
2.43.0


From b8895326890a3e2b27a2f7777b37d41857bfef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 34/50] fix: adding entries to an invalid map keeps its error

---
 map_expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map_expression.go b/map_expression.go
index bd4c91c..2f1264e 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -93,6 +93,9 @@ func (m MapExpression) leave(renderer *CypherRenderer) {
 }
 
 func (m MapExpression) AddEntries(entries []Expression) MapExpression {
+	if m.GetError() != nil {
+		return m
+	}
 	newContent := make([]Expression, len(m.expressions)+len(entries))
 	for i := range m.expressions {
 		newContent[i] = m.expressions[i]
-- 
2.43.0


From 262c20b5dd08bc9d5025439361d89fa023228600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 35/50] fix: clauses without operands are refused

---
 default_statement_builder.go           | 9 +++++++++
 default_statement_with_update.go       | 5 +++++
 default_statement_with_with_builder.go | 4 +++-
 updating_clause_builder.go             | 5 +++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 5a9c8bc..7caf55d 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -513,6 +513,9 @@ func (d DefaultStatementBuilder) MatchDefault(optional bool, patterns ...Pattern
 			return DefaultStatementBuilderError(pattern.GetError())
 		}
 	}
+	if len(patterns) == 0 {
+		return DefaultStatementBuilderError(errors.New("at least one pattern is required to match"))
+	}
 	d.closeCurrentSteps()
 	d.currentOngoingMatch = MatchBuilderCreate(optional)
 	d.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)
@@ -579,6 +582,9 @@ func (d DefaultStatementBuilder) ReturningDefault(distinct bool, expressions ...
 			return DefaultStatementWithReturnBuilderError(expression.GetError())
 		}
 	}
+	if len(expressions) == 0 {
+		return DefaultStatementWithReturnBuilderError(errors.New("at least one expression to return is required"))
+	}
 	withReturnBuilder := DefaultStatementWithReturnBuilder{
 		distinct:       distinct,
 		defaultBuilder: &d,
@@ -666,6 +672,9 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 		for _, visitable := range patternOrExpression {
 			expressions = append(expressions, visitable.(Expression))
 		}
+		if len(expressions) == 0 {
+			return RemoveBuilder{}, xerrors.Errorf("at least one expression is required to %s", updateType)
+		}
 		var expressionList ExpressionList
 		if updateType == UPDATE_TYPE_SET {
 			preparedExpression, err := prepareSetExpression(expressions)
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 83b5fb9..d5fdee8 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultStatementWithUpdateBuilder struct {
 	defaultBuilder *DefaultStatementBuilder
 	returnList     []Expression
@@ -141,6 +143,9 @@ func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) O
 			return DefaultStatementWithUpdateBuilderError(e.GetError())
 		}
 	}
+	if len(expression) == 0 {
+		return DefaultStatementWithUpdateBuilderError(errors.New("at least one expression to return is required"))
+	}
 	d.returnList = append(d.returnList[:len(d.returnList):len(d.returnList)], expression...)
 	return d
 }
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index 2f831a3..83449f5 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DefaultStatementWithWithBuilder struct {
 	defaultBuilder   *DefaultStatementBuilder
 	conditionBuilder ConditionBuilder
@@ -25,7 +27,7 @@ func DefaultStatementWithWithBuilderError(err error) DefaultStatementWithWithBui
 
 func (d *DefaultStatementWithWithBuilder) buildWith() with {
 	if len(d.returnList) == 0 {
-		return with{}
+		return withError(errors.New("at least one expression is required in a WITH clause"))
 	}
 	returnItems := ExpressionListCreate(d.returnList)
 	condition := d.conditionBuilder.buildCondition()
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 97f3ca2..dbafc5f 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type UpdatingClauseBuilder interface {
 	build() UpdatingClause
 }
@@ -24,6 +26,9 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 	if err != nil {
 		return MergeBuilder{}, err
 	}
+	if len(expression) == 0 {
+		return MergeBuilder{}, errors.New("at least one expression is required to set")
+	}
 	expressionList := ExpressionListCreate(expression)
 	c.mergeActions = append(c.mergeActions[:len(c.mergeActions):len(c.mergeActions)], MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
-- 
2.43.0


From 182bdda0be13e6e8f209464fbc2a56c69e3a43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 36/50] fix: a WHEN that belongs to no CASE is an error, not a
 panic

---
 case.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/case.go b/case.go
index 43d2b82..d939a1d 100644
--- a/case.go
+++ b/case.go
@@ -222,6 +222,9 @@ func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
 	if o.err != nil {
 		return Case{err: o.err}
 	}
+	if o.caseInstance == nil {
+		return Case{err: errors.New("case: a WHEN must belong to a CASE")}
+	}
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
 	existing := o.caseInstance.caseWhenThens
 	caseWhenThens := append(existing[:len(existing):len(existing)], caseWhenThen)
-- 
2.43.0


From ac4ced0db6520cbdc89e70e2e21c56ea16a465da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:11 +0000
Subject: [PATCH 37/50] fix: an empty label of a label condition is refused
 however it is given

---
 has_label_condition.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/has_label_condition.go b/has_label_condition.go
index ae27f8b..e845a6d 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -48,6 +48,14 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	if labels == nil || len(labels) == 0 {
 		return HasLabelConditionError(errors.New("labels is required"))
 	}
+	for i := range labels {
+		if labels[i].GetError() != nil {
+			return HasLabelConditionError(labels[i].GetError())
+		}
+		if labels[i].value == "" {
+			return HasLabelConditionError(errors.New("empty label is not allowed"))
+		}
+	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
 		nodeLabels: labels,
-- 
2.43.0


From 2fe7517923a8f0ad2a3e21208049835b7f034284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 38/50] fix: a simple CASE needs its expression however it is
 created

---
 case.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/case.go b/case.go
index d939a1d..5fc4c07 100644
--- a/case.go
+++ b/case.go
@@ -22,6 +22,9 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 	if caseExpression != nil && caseExpression.GetError() != nil {
 		return Case{err: caseExpression.GetError()}
 	}
+	if caseExpression == nil || !caseExpression.isNotNil() {
+		return Case{err: errors.New("case: the expression of a simple case is required")}
+	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
 			return Case{err: caseWhenThen.GetError()}
@@ -60,6 +63,9 @@ func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenT
 	if caseExpression != nil && caseExpression.GetError() != nil {
 		return Case{err: caseExpression.GetError()}
 	}
+	if caseExpression == nil || !caseExpression.isNotNil() {
+		return Case{err: errors.New("case: the expression of a simple case is required")}
+	}
 	for _, caseWhenThen := range caseWhenThens {
 		if caseWhenThen.GetError() != nil {
 			return Case{err: caseWhenThen.GetError()}
-- 
2.43.0


From 394a41cdef9a04c2cfd4a96458f34a5d50f0d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:42 +0000
Subject: [PATCH 39/50] fix: report an empty label given to NodeLabelCreate

An operation on such a label was accepted and rendered without it.
---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index 7f894fc..8e355cc 100644
--- a/node.go
+++ b/node.go
@@ -253,6 +253,9 @@ type NodeLabel struct {
 }
 
 func NodeLabelCreate(value string) NodeLabel {
+	if value == "" {
+		return NodeLabelError(errors.New("a label must not be empty"))
+	}
 	n := NodeLabel{
 		value:  value,
 		notNil: true,
-- 
2.43.0


From b4d86e995ce4ba170759afb53ff87a5b3f81787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 40/50] fix: a call that is given an empty slice of arguments
 keeps its parentheses

---
 in_query_call_builder.go | 5 +----
 procedure_call.go        | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 6eeda7f..92bb892 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -73,10 +73,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 	if i.err != nil {
 		return nil, i.err
 	}
-	argumentsList := Arguments{}
-	if i.arguments == nil || len(i.arguments) > 0 {
-		argumentsList = ArgumentsCreate(i.arguments)
-	}
+	argumentsList := ArgumentsCreate(i.arguments)
 	where := Where{}
 	condition := i.conditionBuilder.buildCondition()
 	if condition != nil {
diff --git a/procedure_call.go b/procedure_call.go
index 4c48ccf..62b06a1 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -214,10 +214,7 @@ func (s StandaloneCallBuilder) Build() (Statement, error) {
 	if s.yieldItems.GetError() != nil {
 		return nil, s.yieldItems.GetError()
 	}
-	argumentsList := Arguments{}
-	if s.arguments == nil || len(s.arguments) > 0 {
-		argumentsList = ArgumentsCreate(s.arguments)
-	}
+	argumentsList := ArgumentsCreate(s.arguments)
 	if argumentsList.GetError() != nil {
 		return nil, argumentsList.GetError()
 	}
-- 
2.43.0


From 2d8c0be7e635f241b91a6d3a203a16d14c98971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:02 +0000
Subject: [PATCH 41/50] fix: a float64 without a fraction is rendered as a
 float and not as an integer

---
 number_literal.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/number_literal.go b/number_literal.go
index 7d0cd99..111ce2d 100644
--- a/number_literal.go
+++ b/number_literal.go
@@ -11,6 +11,7 @@ import (
 type NumberLiteral struct {
 	ExpressionContainer
 	content *big.Float
+	isFloat bool
 	key     string
 	notNil  bool
 	err     error
@@ -32,6 +33,7 @@ func NumberLiteralCreate2(content float64) NumberLiteral {
 	}
 	n := NumberLiteral{
 		content: big.NewFloat(content),
+		isFloat: true,
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
@@ -73,15 +75,17 @@ func (n NumberLiteral) AsString() string {
 	if n.content == nil {
 		return ""
 	}
-	if integer, accuracy := n.content.Int64(); accuracy == big.Exact {
+	if integer, accuracy := n.content.Int64(); !n.isFloat && accuracy == big.Exact {
 		return strconv.FormatInt(integer, 10)
 	}
 	// Everything else has been created from a float64, the shortest text that is read back as the same value is used.
 	float, _ := n.content.Float64()
-	if n.content.IsInt() {
-		return cypherExponent(strconv.FormatFloat(float, 'e', -1, 64))
+	number := cypherExponent(strconv.FormatFloat(float, 'g', -1, 64))
+	if !strings.ContainsAny(number, ".e") {
+		// without a fraction it would be an integer
+		number += ".0"
 	}
-	return cypherExponent(strconv.FormatFloat(float, 'g', -1, 64))
+	return number
 }
 
 func (n NumberLiteral) accept(visitor *CypherRenderer) {
-- 
2.43.0


From 37f9244ddd5aa523b034d42a9f1c47624152f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:31 +0000
Subject: [PATCH 42/50] fix: a property whose key is an asterisk was rendered
 as n.*

---
 property.go        | 1 +
 property_lookup.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/property.go b/property.go
index 0b9dd8e..1a0e240 100644
--- a/property.go
+++ b/property.go
@@ -48,6 +48,7 @@ func PropertyCreate1(container Expression, name PropertyLookup) Property {
 	if name.GetError() != nil {
 		return PropertyError(name.GetError())
 	}
+	name.isKey = true
 	property := Property{
 		container: nestedIfNotAtomic(container),
 		name:      name,
diff --git a/property_lookup.go b/property_lookup.go
index dc41cbf..fb31791 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -3,6 +3,7 @@ package cypher
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
+	isKey           bool // the name of a single property, even if that is an asterisk
 	key             string
 	notNil          bool
 	err             error
@@ -33,7 +34,7 @@ func (p PropertyLookup) accept(visitor *CypherRenderer) {
 
 func (p PropertyLookup) enter(renderer *CypherRenderer) {
 	renderer.append(".")
-	if ASTERISK.content == p.GetPropertyKeyName() {
+	if ASTERISK.content == p.GetPropertyKeyName() && !p.isKey {
 		renderer.append(p.GetPropertyKeyName())
 		return
 	}
-- 
2.43.0


From 232319fac3a22c1ff43b7e7254d0e994893030e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:07 +0000
Subject: [PATCH 43/50] fix: reserved words used as names of variables were
 rendered bare (null became the value)

---
 alias_expression.go |  4 ++--
 cypher_renderer.go  | 21 ++++++++++++++++++++-
 unwind.go           |  2 +-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/alias_expression.go b/alias_expression.go
index f02ad4e..f4eb83d 100644
--- a/alias_expression.go
+++ b/alias_expression.go
@@ -70,14 +70,14 @@ func (aliased AliasedExpression) getKey() string {
 
 func (aliased AliasedExpression) enter(renderer *CypherRenderer) {
 	if renderer.definedAliases[aliased.key] {
-		renderer.append(quoteIfNecessary(aliased.alias))
+		renderer.append(quoteVariable(aliased.alias))
 	}
 }
 
 func (aliased AliasedExpression) leave(renderer *CypherRenderer) {
 	if !renderer.definedAliases[aliased.key] {
 		renderer.append(" AS ")
-		renderer.append(quoteIfNecessary(aliased.alias))
+		renderer.append(quoteVariable(aliased.alias))
 	}
 }
 
diff --git a/cypher_renderer.go b/cypher_renderer.go
index 616bb28..4fd5c57 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -109,7 +109,7 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
 		value := name.value
 		if len(value) > 0 {
-			return quoteIfNecessary(value)
+			return quoteVariable(value)
 		}
 		return renderer.guid.String()
 	}
@@ -241,6 +241,25 @@ func escapeName(name string) string {
 	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
 }
 
+// reservedWords can be names of variables only if they are quoted: null, for example, would be no variable but a value.
+var reservedWords = map[string]bool{}
+
+func init() {
+	for _, word := range strings.Fields("ADD ALL AND AS ASC ASCENDING BY CALL CASE CONSTRAINT CONTAINS CREATE DELETE DESC DESCENDING " +
+		"DETACH DISTINCT DO DROP ELSE END ENDS EXISTS FALSE FOR IN IS LIMIT MANDATORY MATCH MERGE NOT NULL OF ON OPTIONAL OR ORDER " +
+		"REMOVE REQUIRE RETURN SCALAR SET SKIP STARTS THEN TRUE UNION UNIQUE UNWIND WHEN WHERE WITH XOR YIELD") {
+		reservedWords[word] = true
+	}
+}
+
+// quoteVariable makes any name, a reserved word too, the name of a variable.
+func quoteVariable(name string) string {
+	if reservedWords[strings.ToUpper(name)] {
+		return escapeName(name)
+	}
+	return quoteIfNecessary(name)
+}
+
 // quoteIfNecessary makes any name, a blank one too, a single identifier.
 func quoteIfNecessary(name string) string {
 	if isIdentifier(name) {
diff --git a/unwind.go b/unwind.go
index 94cad60..50da3ec 100644
--- a/unwind.go
+++ b/unwind.go
@@ -55,7 +55,7 @@ func (u UnwindPhrase) enter(renderer *CypherRenderer) {
 
 func (u UnwindPhrase) leave(renderer *CypherRenderer) {
 	renderer.append(" AS ")
-	renderer.append(quoteIfNecessary(u.variable))
+	renderer.append(quoteVariable(u.variable))
 	renderer.append(" ")
 }
 
-- 
2.43.0


From 55204dc26c81037fa56295ec5a84a701a2166ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:29 +0000
Subject: [PATCH 44/50] fix: unresolved names were random and all the same one

---
 cypher_renderer.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 4fd5c57..f717cce 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -1,7 +1,7 @@
 package cypher
 
 import (
-	"github.com/rs/xid"
+	"fmt"
 	"golang.org/x/xerrors"
 	"strings"
 	"unicode"
@@ -11,14 +11,13 @@ type CypherRenderer struct {
 	aliases
 	pendingAliases         []AliasedExpression
 	separatorOnLevel       map[int]string
-	resolvedSymbolicNames  map[SymbolicName]string
+	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
 	currentVisitedElements []string
 	currentAliasedElements []AliasedExpression
 	currentLevel           int
 	skipNodeContent        bool
 	builder                strings.Builder
-	guid                   xid.ID
 	err                    error
 }
 
@@ -59,13 +58,12 @@ func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		aliases:                newAliases(),
 		separatorOnLevel:       make(map[int]string),
-		resolvedSymbolicNames:  make(map[SymbolicName]string),
+		resolvedSymbolicNames:  make(map[string]string),
 		visitedNamed:           make(map[string]int),
 		currentVisitedElements: make([]string, 0),
 		currentAliasedElements: make([]AliasedExpression, 0),
 		skipNodeContent:        false,
 		builder:                strings.Builder{},
-		guid:                   xid.New(),
 	}
 }
 
@@ -106,14 +104,16 @@ func (renderer *CypherRenderer) resolve(name SymbolicName) string {
 	if !name.isNotNil() {
 		renderer.err = xerrors.New("a name is required, but the element it was taken from has none")
 	}
-	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
-		value := name.value
-		if len(value) > 0 {
-			return quoteVariable(value)
-		}
-		return renderer.guid.String()
+	if len(name.value) > 0 {
+		return quoteVariable(name.value)
+	}
+	// An unresolved name gets one of its own, which is the same whenever the statement is rendered.
+	resolved, isExist := renderer.resolvedSymbolicNames[name.key]
+	if !isExist {
+		resolved = fmt.Sprintf("__unresolved%03d", len(renderer.resolvedSymbolicNames)+1)
+		renderer.resolvedSymbolicNames[name.key] = resolved
 	}
-	return renderer.resolvedSymbolicNames[name]
+	return resolved
 }
 
 func (renderer *CypherRenderer) enter(visitable Visitable) {
-- 
2.43.0


From 45b2c987844d110daf569320bdfba4c941e3276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 45/50] fix: nil given for a pattern panicked

---
 excluded_pattern.go               |  5 +++++
 pattern.go                        |  7 ++++++-
 pattern_comprehension.go          | 16 +++++++++++-----
 relationship_pattern_condition.go |  5 +++++
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/excluded_pattern.go b/excluded_pattern.go
index ca822fa..f5b7018 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExcludedPattern struct {
 	ConditionContainer
 	patternElement PatternElement
@@ -9,6 +11,9 @@ type ExcludedPattern struct {
 }
 
 func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
+	if patternElement == nil {
+		return ExcludedPatternError(errors.New("a pattern is required to be excluded"))
+	}
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
diff --git a/pattern.go b/pattern.go
index dcc9396..fed59d0 100644
--- a/pattern.go
+++ b/pattern.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Pattern struct {
 	patternElements []PatternElement
 	key             string
@@ -9,7 +11,10 @@ type Pattern struct {
 
 func PatternCreate(patternElements []PatternElement) Pattern {
 	for _, element := range patternElements {
-		if element != nil && element.GetError() != nil {
+		if element == nil {
+			return Pattern{err: errors.New("an element of a pattern must not be nil")}
+		}
+		if element.GetError() != nil {
 			return Pattern{err: element.GetError()}
 		}
 	}
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index ac8ef84..4b58422 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -13,13 +13,19 @@ type PatternComprehension struct {
 }
 
 func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinition Expression) PatternComprehension {
+	if pattern == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: a pattern is required"))
+	}
+	if listDefinition == nil {
+		return PatternComprehensionError(errors.New("pattern comprehension: the elements to be returned are required"))
+	}
 	if pattern.GetError() != nil {
 		return PatternComprehensionError(pattern.GetError())
 	}
 	if where.GetError() != nil {
 		return PatternComprehensionError(where.GetError())
 	}
-	if listDefinition != nil && listDefinition.GetError() != nil {
+	if listDefinition.GetError() != nil {
 		return PatternComprehensionError(listDefinition.GetError())
 	}
 	patternComprehension := PatternComprehension{
@@ -38,10 +44,10 @@ func PatternComprehensionError(err error) PatternComprehension {
 }
 
 func PatternComprehensionBasedOn(pattern RelationshipPattern) PatternComprehensionOngoingDefinitionWithPattern {
-	if pattern.GetError() != nil {
+	if pattern != nil && pattern.GetError() != nil {
 		return PatternComprehensionBuilder{err: pattern.GetError()}
 	}
-	if !pattern.isNotNil() {
+	if pattern == nil || !pattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: a pattern is required")}
 	}
 	return PatternComprehensionBuilderCreate(pattern)
@@ -157,10 +163,10 @@ func (p PatternComprehensionBuilder) WherePattern(pathPattern RelationshipPatter
 	if p.err != nil {
 		return p
 	}
-	if pathPattern.GetError() != nil {
+	if pathPattern != nil && pathPattern.GetError() != nil {
 		return PatternComprehensionBuilder{err: pathPattern.GetError()}
 	}
-	if !pathPattern.isNotNil() {
+	if pathPattern == nil || !pathPattern.isNotNil() {
 		return PatternComprehensionBuilder{err: errors.New("pattern comprehension builder: path pattern must not be nil")}
 	}
 	return p.Where(RelationshipPatternConditionCreate(pathPattern))
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 478ec00..07f800b 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type RelationshipPatternCondition struct {
 	ConditionContainer
 	pathPattern RelationshipPattern
@@ -9,6 +11,9 @@ type RelationshipPatternCondition struct {
 }
 
 func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) RelationshipPatternCondition {
+	if pathPattern == nil {
+		return RelationshipPatternConditionError(errors.New("a pattern is required for a pattern condition"))
+	}
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
-- 
2.43.0


From d411d58bfe5a61b77433e957a1108b3fcf6ca848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:46 +0000
Subject: [PATCH 46/50] fix: nil given to an updating clause panicked

---
 default_statement_builder.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 7caf55d..9355136 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -288,7 +288,10 @@ func (d DefaultStatementBuilder) SetWithNamed(variable Named, expression Express
 	if d.err != nil {
 		return DefaultStatementBuilderError(d.err)
 	}
-	if variable != nil && variable.GetError() != nil {
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("a variable is required to SET"))
+	}
+	if variable.GetError() != nil {
 		return DefaultStatementBuilderError(variable.GetError())
 	}
 	if expression != nil && expression.GetError() != nil {
@@ -658,7 +661,11 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	if mergeOrCreate {
 		patternElements := make([]PatternElement, 0)
 		for _, visitable := range patternOrExpression {
-			patternElements = append(patternElements, visitable.(PatternElement))
+			patternElement, isPatternElement := visitable.(PatternElement)
+			if !isPatternElement {
+				return RemoveBuilder{}, xerrors.Errorf("only patterns can be used to %s", updateType)
+			}
+			patternElements = append(patternElements, patternElement)
 		}
 		if len(patternElements) == 0 {
 			return RemoveBuilder{}, xerrors.Errorf("at least one pattern is required to %s", updateType)
@@ -670,7 +677,11 @@ func getUpdatingClauseBuilder(updateType UpdateType, patternOrExpression ...Visi
 	} else {
 		expressions := make([]Expression, 0)
 		for _, visitable := range patternOrExpression {
-			expressions = append(expressions, visitable.(Expression))
+			expression, isExpression := visitable.(Expression)
+			if !isExpression {
+				return RemoveBuilder{}, xerrors.Errorf("only expressions can be used to %s", updateType)
+			}
+			expressions = append(expressions, expression)
 		}
 		if len(expressions) == 0 {
 			return RemoveBuilder{}, xerrors.Errorf("at least one expression is required to %s", updateType)
@@ -776,7 +787,10 @@ func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Exp
 	if o.err != nil {
 		return DefaultStatementBuilderError(o.err)
 	}
-	if variable != nil && variable.GetError() != nil {
+	if variable == nil {
+		return DefaultStatementBuilderError(errors.New("a variable is required to SET"))
+	}
+	if variable.GetError() != nil {
 		return DefaultStatementBuilderError(variable.GetError())
 	}
 	if expression != nil && expression.GetError() != nil {
-- 
2.43.0


From 33acc663cd96129e568f304acd85c75bd458cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:50 +0000
Subject: [PATCH 47/50] fix: nil given for a value of a map, a list or an
 argument panicked

---
 arguments.go           |  7 ++++++-
 distinct_expression.go |  7 ++++++-
 entry_expression.go    |  7 ++++++-
 key_value_map_entry.go |  5 ++++-
 list_literal.go        | 10 ++++++++--
 map_expression.go      |  5 ++++-
 nested_expression.go   |  7 ++++++-
 7 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..36b4a04 100644
--- a/arguments.go
+++ b/arguments.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Arguments struct {
 	expressions []Expression
 	key         string
@@ -9,7 +11,10 @@ type Arguments struct {
 
 func ArgumentsCreate(expression []Expression) Arguments {
 	for _, expr := range expression {
-		if expr != nil && expr.GetError() != nil {
+		if expr == nil {
+			return Arguments{err: errors.New("an argument must not be nil")}
+		}
+		if expr.GetError() != nil {
 			return Arguments{err: expr.GetError()}
 		}
 	}
diff --git a/distinct_expression.go b/distinct_expression.go
index a61612d..1df4de4 100644
--- a/distinct_expression.go
+++ b/distinct_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type DistinctExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -9,7 +11,10 @@ type DistinctExpression struct {
 }
 
 func DistinctExpressionCreate(delegate Expression) DistinctExpression {
-	if delegate != nil && delegate.GetError() != nil {
+	if delegate == nil {
+		return DistinctExpressionError(errors.New("an expression is required to be distinct"))
+	}
+	if delegate.GetError() != nil {
 		return DistinctExpressionError(delegate.GetError())
 	}
 	d := DistinctExpression{
diff --git a/entry_expression.go b/entry_expression.go
index 6472e3a..b3f9d7c 100644
--- a/entry_expression.go
+++ b/entry_expression.go
@@ -12,7 +12,12 @@ type EntryExpression struct {
 }
 
 func EntryExpressionCreate(key string, value Expression) EntryExpression {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return EntryExpression{
+			err: errors.New("the value of a map entry is required"),
+		}
+	}
+	if value.GetError() != nil {
 		return EntryExpression{
 			err: value.GetError(),
 		}
diff --git a/key_value_map_entry.go b/key_value_map_entry.go
index 878c2f1..cad9aed 100644
--- a/key_value_map_entry.go
+++ b/key_value_map_entry.go
@@ -12,7 +12,10 @@ type KeyValueMapEntry struct {
 }
 
 func KeyValueMapEntryCreate(key string, value Expression) KeyValueMapEntry {
-	if value != nil && value.GetError() != nil {
+	if value == nil {
+		return KeyValueMapEntryError(errors.New("the value of a map entry is required"))
+	}
+	if value.GetError() != nil {
 		return KeyValueMapEntryError(value.GetError())
 	}
 	if key == "" {
diff --git a/list_literal.go b/list_literal.go
index dab4c81..d91a13e 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -1,6 +1,9 @@
 package cypher
 
-import "strings"
+import (
+	"errors"
+	"strings"
+)
 
 type ListLiteral struct {
 	ExpressionContainer
@@ -12,7 +15,10 @@ type ListLiteral struct {
 
 func ListLiteralCreate(contents []Literal) ListLiteral {
 	for _, content := range contents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return ListLiteralError(errors.New("a value of a list must not be nil"))
+		}
+		if content.GetError() != nil {
 			return ListLiteralError(content.GetError())
 		}
 	}
diff --git a/map_expression.go b/map_expression.go
index 2f1264e..423f0eb 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -14,7 +14,10 @@ type MapExpression struct {
 
 func MapExpressionCreate(newContents []Expression) MapExpression {
 	for _, content := range newContents {
-		if content != nil && content.GetError() != nil {
+		if content == nil {
+			return MapExpressionError(errors.New("an entry of a map must not be nil"))
+		}
+		if content.GetError() != nil {
 			return MapExpressionError(content.GetError())
 		}
 	}
diff --git a/nested_expression.go b/nested_expression.go
index bb39916..f3ae4ae 100644
--- a/nested_expression.go
+++ b/nested_expression.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type NestedExpression struct {
 	ExpressionContainer
 	delegate Expression
@@ -9,7 +11,10 @@ type NestedExpression struct {
 }
 
 func NestedExpressionCreate(delegate Expression) NestedExpression {
-	if delegate != nil && delegate.GetError() != nil {
+	if delegate == nil {
+		return NestedExpressionError(errors.New("an expression is required to be nested"))
+	}
+	if delegate.GetError() != nil {
 		return NestedExpressionError(delegate.GetError())
 	}
 	nested := NestedExpression{
-- 
2.43.0


From 96dc7dc9a24889449d938cf07d7ed468391ac5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:29 +0000
Subject: [PATCH 48/50] fix: constructors of conditions, properties and
 functions accepted empty or unfitting parts

---
 boolean_function_condition.go | 5 +++++
 comparison.go                 | 3 +++
 existential_subquery.go       | 5 +++++
 function_invocation.go        | 3 +++
 property_lookup.go            | 5 +++++
 5 files changed, 21 insertions(+)

diff --git a/boolean_function_condition.go b/boolean_function_condition.go
index 986fea8..aae19f9 100644
--- a/boolean_function_condition.go
+++ b/boolean_function_condition.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type BooleanFunctionCondition struct {
 	ConditionContainer
 	delegate FunctionInvocation
@@ -12,6 +14,9 @@ func BooleanFunctionConditionCreate(delegate FunctionInvocation) BooleanFunction
 	if delegate.GetError() != nil {
 		return BooleanFunctionConditionError(delegate.GetError())
 	}
+	if !delegate.isNotNil() {
+		return BooleanFunctionConditionError(errors.New("a function is required for a condition"))
+	}
 	function := BooleanFunctionCondition{
 		delegate: delegate,
 		notNil:   true,
diff --git a/comparison.go b/comparison.go
index d6f9729..53eddd9 100644
--- a/comparison.go
+++ b/comparison.go
@@ -27,6 +27,9 @@ func ComparisonCreate(left Expression, operator Operator, right Expression) Comp
 	if !operator.isNotNil() {
 		return ComparisonError(errors.New("operator must be not nil"))
 	}
+	if operator.isUnary() {
+		return ComparisonError(errors.New("comparison: operator must not be unary"))
+	}
 	if left == nil || !left.isNotNil() {
 		return ComparisonError(errors.New("left expression must be not nil"))
 	}
diff --git a/existential_subquery.go b/existential_subquery.go
index bf2eb20..020319a 100644
--- a/existential_subquery.go
+++ b/existential_subquery.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type ExistentialSubquery struct {
 	ConditionContainer
 	fragment MatchPhrase
@@ -12,6 +14,9 @@ func ExistentialSubqueryCreate(fragment MatchPhrase) ExistentialSubquery {
 	if fragment.GetError() != nil {
 		return ExistentialSubqueryError(fragment.GetError())
 	}
+	if !fragment.isNotNil() {
+		return ExistentialSubqueryError(errors.New("a MATCH is required for an existential subquery"))
+	}
 	e := ExistentialSubquery{
 		fragment: fragment,
 		notNil:   true,
diff --git a/function_invocation.go b/function_invocation.go
index 716d9a7..b044b1a 100644
--- a/function_invocation.go
+++ b/function_invocation.go
@@ -18,6 +18,9 @@ func FunctionInvocationCreate1(definition FunctionDefinition) FunctionInvocation
 }
 
 func FunctionInvocationCreateWithFunctionName(functionName string, arguments ...Expression) FunctionInvocation {
+	if functionName == "" {
+		return FunctionInvocationError(errors.New("the name of the function is required"))
+	}
 	if err := errorOfArguments(functionName, arguments); err != nil {
 		return FunctionInvocationError(err)
 	}
diff --git a/property_lookup.go b/property_lookup.go
index fb31791..7e5f13c 100644
--- a/property_lookup.go
+++ b/property_lookup.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type PropertyLookup struct {
 	ExpressionContainer
 	propertyKeyName string
@@ -10,6 +12,9 @@ type PropertyLookup struct {
 }
 
 func PropertyLookupCreate(name string) PropertyLookup {
+	if name == "" {
+		return PropertyLookup{err: errors.New("the name of a property is required")}
+	}
 	property := PropertyLookup{
 		propertyKeyName: name,
 		notNil:          true,
-- 
2.43.0


From 3db43a20aa53d2fefa4c5fd696fd74debde419b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:33 +0000
Subject: [PATCH 49/50] fix: empty relationships, chains, paths, statements and
 sort items panicked or were rendered as nothing

---
 cypher.go                         |  3 +++
 cypher_renderer.go                |  3 +++
 excluded_pattern.go               |  3 +++
 name_path.go                      |  2 +-
 order.go                          |  5 +++++
 pattern.go                        |  4 ++++
 pattern_comprehension.go          |  3 +++
 relationship.go                   |  3 +++
 relationship_chain.go             | 15 +++++++++++++++
 relationship_details.go           |  3 +++
 relationship_pattern_condition.go |  3 +++
 subquery.go                       |  3 +++
 12 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/cypher.go b/cypher.go
index 45cafbb..50b5226 100644
--- a/cypher.go
+++ b/cypher.go
@@ -570,6 +570,9 @@ func unionImpl(unionAll bool, statements ...Statement) Statement {
 		if query.GetError() != nil {
 			return UnionQueryError(query.GetError())
 		}
+		if !query.isNotNil() {
+			return UnionQueryError(errors.New("an empty statement can't be part of a union"))
+		}
 		if unionQuery, isUnion := query.(UnionQuery); isUnion {
 			if unionQuery.all != unionAll {
 				return UnionQueryError(errors.New("cannot mix union and union all"))
diff --git a/cypher_renderer.go b/cypher_renderer.go
index f717cce..2fad527 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -74,6 +74,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
+	if !statement.isNotNil() {
+		return "", xerrors.New("can not render an empty statement")
+	}
 	// What has been seen while rendering one statement must not have an influence on the next one.
 	run := NewRenderer()
 	statement.accept(run)
diff --git a/excluded_pattern.go b/excluded_pattern.go
index f5b7018..f9d302f 100644
--- a/excluded_pattern.go
+++ b/excluded_pattern.go
@@ -17,6 +17,9 @@ func ExcludedPatternCreate(patternElement PatternElement) ExcludedPattern {
 	if patternElement.GetError() != nil {
 		return ExcludedPatternError(patternElement.GetError())
 	}
+	if !patternElement.isNotNil() {
+		return ExcludedPatternError(errors.New("the pattern to be excluded must not be empty"))
+	}
 	e := ExcludedPattern{
 		patternElement: patternElement,
 		notNil:         true,
diff --git a/name_path.go b/name_path.go
index fa5f204..327ae2b 100644
--- a/name_path.go
+++ b/name_path.go
@@ -17,7 +17,7 @@ func NamedPathCreate(name SymbolicName, pattern RelationshipPattern) NamedPath {
 	if pattern != nil && pattern.GetError() != nil {
 		return NamedPathError(pattern.GetError())
 	}
-	if pattern == nil {
+	if pattern == nil || !pattern.isNotNil() {
 		return NamedPathError(errors.New("the pattern of a named path is required"))
 	}
 	n := NamedPath{name: name, pattern: pattern, notNil: true}
diff --git a/order.go b/order.go
index 19cc6ea..9848de6 100644
--- a/order.go
+++ b/order.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 type Order struct {
 	sortItems []SortItem
 	key       string
@@ -12,6 +14,9 @@ func OrderCreate(sortItems []SortItem) Order {
 		if item.GetError() != nil {
 			return Order{err: item.GetError()}
 		}
+		if !item.isNotNil() {
+			return Order{err: errors.New("an item to sort by must not be empty")}
+		}
 	}
 	o := Order{sortItems: sortItems, notNil: true}
 	o.key = getAddress(&o)
diff --git a/pattern.go b/pattern.go
index fed59d0..8e5ad5a 100644
--- a/pattern.go
+++ b/pattern.go
@@ -17,6 +17,10 @@ func PatternCreate(patternElements []PatternElement) Pattern {
 		if element.GetError() != nil {
 			return Pattern{err: element.GetError()}
 		}
+		// An empty node is a node without a name, labels and properties, every other empty element is none.
+		if _, isNode := element.(Node); !isNode && !element.isNotNil() {
+			return Pattern{err: errors.New("an element of a pattern must not be empty")}
+		}
 	}
 	p := Pattern{
 		patternElements: patternElements,
diff --git a/pattern_comprehension.go b/pattern_comprehension.go
index 4b58422..5c4b32e 100644
--- a/pattern_comprehension.go
+++ b/pattern_comprehension.go
@@ -22,6 +22,9 @@ func PatternComprehensionCreate(pattern PatternElement, where Where, listDefinit
 	if pattern.GetError() != nil {
 		return PatternComprehensionError(pattern.GetError())
 	}
+	if !pattern.isNotNil() {
+		return PatternComprehensionError(errors.New("pattern comprehension: the pattern must not be empty"))
+	}
 	if where.GetError() != nil {
 		return PatternComprehensionError(where.GetError())
 	}
diff --git a/relationship.go b/relationship.go
index 94bca26..cdce299 100644
--- a/relationship.go
+++ b/relationship.go
@@ -35,6 +35,9 @@ func RelationshipCreate3(left Node, details RelationshipDetails, right Node) Rel
 	if details.GetError() != nil {
 		return RelationshipError(details.GetError())
 	}
+	if !details.isNotNil() {
+		return RelationshipError(errors.New("the details of a relationship are required"))
+	}
 	if right.GetError() != nil {
 		return RelationshipError(right.GetError())
 	}
diff --git a/relationship_chain.go b/relationship_chain.go
index b0733d9..4593697 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -18,6 +18,9 @@ func relationshipChainOf(relationships ...Relationship) RelationshipChain {
 		if relationship.GetError() != nil {
 			return RelationshipChain{err: relationship.GetError()}
 		}
+		if !relationship.isNotNil() {
+			return RelationshipChainError("a relationship of a chain must not be empty")
+		}
 	}
 	chain := RelationshipChain{relationships: relationships, notNil: true}
 	chain.key = getAddress(&chain)
@@ -29,6 +32,9 @@ func (r RelationshipChain) withLast(change func(last Relationship) Relationship)
 	if r.err != nil {
 		return r
 	}
+	if len(r.relationships) == 0 {
+		return RelationshipChainError("the chain has no relationship")
+	}
 	relationships := append([]Relationship{}, r.relationships...)
 	relationships[len(relationships)-1] = change(relationships[len(relationships)-1])
 	return relationshipChainOf(relationships...)
@@ -54,6 +60,9 @@ func (r RelationshipChain) RelationshipTo(node Node, types ...string) Relationsh
 	if r.err != nil {
 		return r
 	}
+	if len(r.relationships) == 0 {
+		return RelationshipChainError("the chain has no relationship")
+	}
 	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...))
 }
 
@@ -61,6 +70,9 @@ func (r RelationshipChain) RelationshipFrom(node Node, types ...string) Relation
 	if r.err != nil {
 		return r
 	}
+	if len(r.relationships) == 0 {
+		return RelationshipChainError("the chain has no relationship")
+	}
 	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...))
 }
 
@@ -68,6 +80,9 @@ func (r RelationshipChain) RelationshipBetween(node Node, types ...string) Relat
 	if r.err != nil {
 		return r
 	}
+	if len(r.relationships) == 0 {
+		return RelationshipChainError("the chain has no relationship")
+	}
 	return r.Add(r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...))
 }
 
diff --git a/relationship_details.go b/relationship_details.go
index 9198866..b587fd0 100644
--- a/relationship_details.go
+++ b/relationship_details.go
@@ -57,6 +57,9 @@ func RelationshipDetailsCreate(direction Direction, symbolicName SymbolicName,
 	if properties.GetError() != nil {
 		return RelationshipDetailsError(properties.GetError())
 	}
+	if direction == (Direction{}) {
+		return RelationshipDetailsError(errors.New("a relationship without a direction"))
+	}
 	r := RelationshipDetails{
 		direction:    direction,
 		symbolicName: symbolicName,
diff --git a/relationship_pattern_condition.go b/relationship_pattern_condition.go
index 07f800b..fe8591b 100644
--- a/relationship_pattern_condition.go
+++ b/relationship_pattern_condition.go
@@ -17,6 +17,9 @@ func RelationshipPatternConditionCreate(pathPattern RelationshipPattern) Relatio
 	if pathPattern.GetError() != nil {
 		return RelationshipPatternConditionError(pathPattern.GetError())
 	}
+	if !pathPattern.isNotNil() {
+		return RelationshipPatternConditionError(errors.New("the pattern of a pattern condition must not be empty"))
+	}
 	r := RelationshipPatternCondition{
 		pathPattern: pathPattern,
 		notNil:      true,
diff --git a/subquery.go b/subquery.go
index 4586c97..d5aba14 100644
--- a/subquery.go
+++ b/subquery.go
@@ -27,6 +27,9 @@ func SubqueryCall(statement Statement) Subquery {
 	if statement != nil && statement.GetError() != nil {
 		return SubqueryError(statement.GetError())
 	}
+	if statement != nil && !statement.isNotNil() {
+		return SubqueryError(errors.New("an empty statement can't be a subquery"))
+	}
 	validReturn := false
 	if singlePartQuery, isSinglePartQuery := statement.(SinglePartQuery); isSinglePartQuery {
 		validReturn = singlePartQuery.doesReturnElements()
-- 
2.43.0


From f51d92bec7b67b2b9b201a8040a9634b54d83691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:36 +0000
Subject: [PATCH 50/50] fix: nil in a list of named elements was skipped

---
 expressions.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index ddd927d..62a7504 100644
--- a/expressions.go
+++ b/expressions.go
@@ -1,5 +1,7 @@
 package cypher
 
+import "errors"
+
 func NameOrExpression(expression Expression) Expression {
 	named, isNamed := (expression).(Named)
 	if isNamed && named.GetSymbolicName().isNotNil() {
@@ -11,9 +13,11 @@ func NameOrExpression(expression Expression) Expression {
 func CreateSymbolicNameByNamed(nameds ...Named) []Expression {
 	expressions := make([]Expression, 0)
 	for _, named := range nameds {
-		if named != nil {
-			expressions = append(expressions, named.GetRequiredSymbolicName())
+		if named == nil {
+			expressions = append(expressions, SymbolicNameError(errors.New("a named element must not be nil")))
+			continue
 		}
+		expressions = append(expressions, named.GetRequiredSymbolicName())
 	}
 	return expressions
 }
-- 
2.43.0

