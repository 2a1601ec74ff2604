From 3257539e1ef2dac2d849f8b097eb63cb15bb7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 001/104] fix: accept for loops whose variable has an
 enumeration subrange or a wider integer type

The compatibility of the bounds was checked in the wrong direction.
---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 5768110..b35be57 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -772,7 +772,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
     if (f->end)
     {
-	if (const Types::TypeDecl* ty = f->start->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->start->Type()))
 	{
 	    f->start = Recast(f->start, ty);
 	}
@@ -780,7 +780,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	{
 	    bad = true;
 	}
-	if (const Types::TypeDecl* ty = f->end->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->end->Type()))
 	{
 	    f->end = Recast(f->end, ty);
 	}
-- 
2.43.0


From f53cc397c87853260ae9401d9c79de2bdeb0e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 002/104] fix: using a protected parameter as an index does not
 make the indexed variable protected

---
 semantics.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index b35be57..b8a6bd9 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -33,12 +33,10 @@ T* FindParentOfType(ExprAST* e)
     public:
 	void visit(ExprAST* e) override
 	{
+	    // An access path is visited after its index expressions, so the last one found is its root.
 	    if (auto t = llvm::dyn_cast<T>(e))
 	    {
-		if (!result)
-		{
-		    result = t;
-		}
+		result = t;
 	    }
 	}
 
-- 
2.43.0


From 5074d41026fd0011ce29f18df2e68e473b1697df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 003/104] fix: negating an expression of mixed numeric types no
 longer crashes the compiler

The operand's type was recorded before type checking could widen it.
---
 expr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index 7c8fccd..593134d 100644
--- a/expr.h
+++ b/expr.h
@@ -420,9 +420,11 @@ class UnaryExprAST : public ExprAST
 
 public:
     UnaryExprAST(const Location& w, Token op, ExprAST* r)
-        : ExprAST(w, EK_UnaryExpr, r->Type()), oper(op), rhs(r){};
+        : ExprAST(w, EK_UnaryExpr), oper(op), rhs(r){};
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
+    // The operand's type is only final after type checking.
+    Types::TypeDecl* Type() const override { return type ? type : rhs->Type(); }
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_UnaryExpr; }
     void         UpdateType(Types::TypeDecl* ty);
     void         accept(ASTVisitor& v) override
-- 
2.43.0


From 95c83169849ed7113d8cec1bab8971b7aba2e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 004/104] fix: type check the elements of set constructors

Array accesses in them crashed the compiler and conversions were not inserted.
---
 expr.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr.h b/expr.h
index 593134d..0e80060 100644
--- a/expr.h
+++ b/expr.h
@@ -245,6 +245,14 @@ public:
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
+    void            accept(ASTVisitor& v) override
+    {
+	for (auto i : values)
+	{
+	    i->accept(v);
+	}
+	v.visit(this);
+    }
 
 private:
     std::vector<ExprAST*> values;
-- 
2.43.0


From 31343f7b7841e1b75c3b13526e5357319d5b43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 005/104] fix: set constructor ranges with computed bounds

An empty range (low > high) contributed its low member, and bounds of type char above chr(127) were sign extended.
---
 expr.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 381318c..999237f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3594,7 +3594,7 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
 	    int  low = le->Int() - start;
 	    int  high = he->Int() - start;
 	    low = std::max(0, low);
-	    high = std::min((int)type->GetRange()->Size(), high);
+	    high = std::min((int)type->GetRange()->Size() - 1, high);
 	    for (int i = low; i <= high; i++)
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
@@ -3704,8 +3704,8 @@ llvm::Value* SetExprAST::Address()
 
 	    // Adjust for range:
 	    Types::Range* range = type->GetRange();
-	    low = builder.CreateSExt(low, intTy, "sext.low");
-	    high = builder.CreateSExt(high, intTy, "sext.high");
+	    low = builder.CreateZExt(low, intTy, "zext.low");
+	    high = builder.CreateZExt(high, intTy, "zext.high");
 
 	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
 	    low = builder.CreateSub(low, rangeStart);
@@ -3714,7 +3714,9 @@ llvm::Value* SetExprAST::Address()
 	    builder.CreateStore(low, loopVar);
 
 	    llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "loop", fn);
-	    builder.CreateBr(loopBB);
+	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
+	    // A range with low > high has no members.
+	    builder.CreateCondBr(builder.CreateICmpSLE(low, high, "nonempty"), loopBB, afterBB);
 	    builder.SetInsertPoint(loopBB);
 
 	    llvm::Value* loop = builder.CreateLoad(intTy, loopVar, "loopVar");
@@ -3742,7 +3744,6 @@ llvm::Value* SetExprAST::Address()
 
 	    llvm::Value* endCond = builder.CreateICmpSLE(loop, high, "loopcond");
 
-	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
 	    builder.CreateCondBr(endCond, loopBB, afterBB);
 
 	    builder.SetInsertPoint(afterBB);
-- 
2.43.0


From 71a9f1e597dd5ecdb7148edde065185e92fd0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 006/104] fix: sets may mix values of an ordinal type and its
 subranges

Set constructors, membership and the set operators demanded identical types, and a range with
ends of different types crashed the compiler.
---
 expr.h        |  4 ++--
 parser.cpp    |  7 ++++++-
 semantics.cpp |  6 +++---
 types.cpp     | 10 ++++++++++
 types.h       |  1 +
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/expr.h b/expr.h
index 0e80060..a6ae52d 100644
--- a/expr.h
+++ b/expr.h
@@ -452,9 +452,9 @@ class RangeExprAST : public ExprAST
 
 public:
     RangeExprAST(const Location& w, ExprAST* l, ExprAST* h)
-        : ExprAST(w, EK_RangeExpr, l->Type()), low(l), high(h)
+        : ExprAST(w, EK_RangeExpr, *l->Type() == *h->Type() ? l->Type() : Types::OrdinalBase(l->Type())), low(l),
+          high(h)
     {
-	ICE_IF(*l->Type() != *h->Type(), "Expect same type here");
     }
     void         DoDump() const override;
     llvm::Value* Low() { return low->CodeGen(); }
diff --git a/parser.cpp b/parser.cpp
index a10a0bc..4f5df21 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3005,7 +3005,12 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 	    {
 		if ((*i)->Type() != type)
 		{
-		    return Error("Not all elements of set are same type");
+		    // Values of a type and of its subranges may be mixed.
+		    type = Types::OrdinalBase(type);
+		    if (*Types::OrdinalBase((*i)->Type()) != *type)
+		    {
+			return Error("Not all elements of set are same type");
+		    }
 		}
 	    }
 	}
diff --git a/semantics.cpp b/semantics.cpp
index b8a6bd9..5e65845 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -177,7 +177,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     Types::Range* lr = lty->GetRange();
     Types::Range* rr = rty->GetRange();
 
-    if (*lty->SubType() != *rty->SubType())
+    if (*Types::OrdinalBase(lty->SubType()) != *Types::OrdinalBase(rty->SubType()))
     {
 	Error(b, "Set type content isn't the same!");
     }
@@ -222,7 +222,7 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	if (auto sd = llvm::dyn_cast<Types::SetDecl>(rty))
 	{
 	    ICE_IF(!sd->SubType(), "Should have a subtype");
-	    if (*lty != *sd->SubType())
+	    if (*Types::OrdinalBase(lty) != *Types::OrdinalBase(sd->SubType()))
 	    {
 		Error(b, "Left hand type does not match constituent parts of set");
 	    }
@@ -591,7 +591,7 @@ void TypeCheckVisitor::Check<RangeExprAST>(RangeExprAST* r)
 {
     TRACE();
 
-    if (*r->low->Type() != *r->high->Type())
+    if (*Types::OrdinalBase(r->low->Type()) != *Types::OrdinalBase(r->high->Type()))
     {
 	Error(r, "Range should be same type at both ends");
     }
diff --git a/types.cpp b/types.cpp
index 7d3c4c7..9fca9c2 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1385,6 +1385,16 @@ namespace Types
 	}
     }
 
+    // The type that a subrange is a part of; other types are their own base.
+    TypeDecl* OrdinalBase(TypeDecl* t)
+    {
+	while (auto r = llvm::dyn_cast<RangeDecl>(t))
+	{
+	    t = r->SubType();
+	}
+	return t;
+    }
+
     bool IsIntegral(const TypeDecl* t)
     {
 	switch (t->Type())
diff --git a/types.h b/types.h
index 5876fc4..311b403 100644
--- a/types.h
+++ b/types.h
@@ -44,6 +44,7 @@ namespace Types
     bool IsCharArray(const TypeDecl* t);
     bool IsStringLike(const TypeDecl* t);
     bool IsIntegral(const TypeDecl* t);
+    TypeDecl* OrdinalBase(TypeDecl* t);
     bool IsUnsigned(const TypeDecl* t);
     bool IsCompound(const TypeDecl* t);
     bool HasLlvmType(const TypeDecl* t);
-- 
2.43.0


From 9ef11b92cd66a553abe04492f84f6582e5e4c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 007/104] fix: -Cr range checks work

Every checked access stopped the compiler with an internal error, as the test for a missing range was
inverted; conformant array bounds and indices wider than integer were not handled, and the message
gave the size instead of the upper bound.
---
 expr.cpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 999237f..3dfc0da 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3863,40 +3863,47 @@ llvm::Value* RangeCheckAST::CodeGen()
     ICE_IF(!index, "Expected expression to generate code");
     ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
 
-    llvm::Value* orig_index = index;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
-    int start = rr->Start();
-    if (start)
-    {
-	index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
-    }
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
     if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
     {
 	if (IsUnsigned(expr->Type()))
 	{
 	    index = builder.CreateZExt(index, intTy, "zext");
-	    orig_index = builder.CreateZExt(orig_index, intTy, "zext");
 	}
 	else
 	{
 	    index = builder.CreateSExt(index, intTy, "sext");
-	    orig_index = builder.CreateSExt(orig_index, intTy, "sext");
 	}
     }
-    int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+
+    llvm::Value* low;
+    llvm::Value* high;
+    if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
+    {
+	low = builder.CreateLoad(intTy, variables.FindTopLevel(dr->LowName()), "low");
+	high = builder.CreateLoad(intTy, variables.FindTopLevel(dr->HighName()), "high");
+    }
+    else
+    {
+	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+	ICE_IF(!rr, "Expect a rangedecl here");
+	low = MakeIntegerConstant(rr->Start());
+	high = MakeIntegerConstant(rr->End());
+    }
+
+    llvm::Type*       idxTy = index->getType();
+    llvm::Value*      below = builder.CreateICmpSLT(index, builder.CreateSExt(low, idxTy), "below");
+    llvm::Value*      above = builder.CreateICmpSGT(index, builder.CreateSExt(high, idxTy), "above");
+    llvm::Value*      cmp = builder.CreateOr(below, above, "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
+    index = builder.CreateTrunc(index, intTy);
     builder.CreateCondBr(cmp, oorBlock, contBlock);
 
     builder.SetInsertPoint(oorBlock);
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
-	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(Loc().LineNumber()), low, high, index };
     std::vector<llvm::Type*>  argTypes = {
         llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
     };
@@ -3907,7 +3914,7 @@ llvm::Value* RangeCheckAST::CodeGen()
     builder.CreateUnreachable();
 
     builder.SetInsertPoint(contBlock);
-    return index;
+    return builder.CreateSub(index, low);
 }
 
 void TypeCastAST::DoDump() const
-- 
2.43.0


From b46db950d3fcd9a7982fa5514daf33ee323450ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 008/104] fix: multi-dimensional arrays with index types of
 different sizes

The offset was computed with operands of different types, giving invalid code.
---
 expr.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 3dfc0da..de0da37 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -476,38 +476,25 @@ void ArrayExprAST::DoDump() const
     }
 }
 
-static Types::TypeDecl* FindIndexType(const std::vector<ExprAST*>& indices)
-{
-    ICE_IF(indices.size() == 0, "Expect at least one index");
-    Types::TypeDecl* type = indices[0]->Type();
-    size_t           size = type->Size();
-    for (size_t i = 1; i < indices.size(); i++)
-    {
-	if (size < indices[i]->Type()->Size())
-	{
-	    type = indices[i]->Type();
-	}
-    }
-    return type;
-}
-
 llvm::Value* ArrayExprAST::Address()
 {
     TRACE();
     llvm::Value* v = MakeAddressable(expr);
     ICE_IF(!v, "Expected variable to have an address");
     EnsureSized();
-    llvm::Value*     totalIndex = 0;
-    Types::TypeDecl* indexType = FindIndexType(indices);
+    llvm::Value* totalIndex = 0;
+    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
     for (size_t i = 0; i < indices.size(); i++)
     {
 	auto range = llvm::dyn_cast<RangeReduceAST>(indices[i]);
 	ICE_IF(!range, "Expected a range here");
 	llvm::Value* index = range->CodeGen();
 	ICE_IF(!index, "Expression failed for index");
+	// The indices may have different types, the offset is an integer.
+	index = builder.CreateSExtOrTrunc(index, intTy);
 	if (indexmul[i] != 1)
 	{
-	    index = builder.CreateMul(index, MakeConstant(indexmul[i], indexType));
+	    index = builder.CreateMul(index, MakeIntegerConstant(indexmul[i]));
 	}
 	if (!totalIndex)
 	{
-- 
2.43.0


From 6f199151cf3f8fa9c3b159926914e4f136e95dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 009/104] fix: sets of different ranges convert correctly when
 assigned, passed or combined

---
 expr.cpp      | 63 +++++++++++++++++++++++----------------------------
 semantics.cpp |  1 +
 types.cpp     |  2 +-
 3 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index de0da37..836841e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3927,48 +3927,41 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
     Types::Range* rrange = rty->GetRange();
     Types::Range* lrange = lty->GetRange();
 
-    llvm::Value* w;
-    llvm::Value* src = MakeAddressable(expr);
-    size_t       p = 0;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Value*  src = MakeAddressable(expr);
+    llvm::Type*   intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    const int64_t srcWords = rty->SetWords();
+    const int64_t destWords = lty->SetWords();
 
-    for (auto i = lrange->Start(); i < lrange->End(); i += Types::SetDecl::SetBits)
+    auto loadWord = [&](int64_t word) -> llvm::Value*
     {
-	if (i >= (rrange->Start() & ~Types::SetDecl::SetMask) && i < rrange->End())
+	llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(word), "srci");
+	return builder.CreateLoad(intTy, srci, "w");
+    };
+
+    for (int64_t p = 0; p < destWords; p++)
+    {
+	// Bit number in the source for the first bit in this destination word.
+	const int64_t index = (int64_t)lrange->Start() + p * Types::SetDecl::SetBits - rrange->Start();
+	const int64_t shift = index & Types::SetDecl::SetMask;
+	const int64_t sp = (index - shift) / Types::SetDecl::SetBits;
+	llvm::Value*  w = MakeIntegerConstant(0);
+
+	if (sp >= 0 && sp < srcWords)
 	{
-	    if (i > rrange->Start())
-	    {
-		size_t       index = i - rrange->Start();
-		size_t       sp = index >> Types::SetDecl::SetPow2Bits;
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		if (size_t shift = (index & Types::SetDecl::SetMask))
-		{
-		    w = builder.CreateLShr(w, shift, "wsh");
-		    if (sp + 1 < rty->SetWords())
-		    {
-			llvm::Value* xp = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp + 1),
-			                                    "srcip1");
-			llvm::Value* x = builder.CreateLoad(intTy, xp, "x");
-			x = builder.CreateShl(x, 32 - shift);
-			w = builder.CreateOr(w, x);
-		    }
-		}
-	    }
-	    else
-	    {
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(0), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		w = builder.CreateShl(w, rrange->Start() - i, "wsh");
-	    }
+	    w = builder.CreateLShr(loadWord(sp), shift, "wsh");
 	}
-	else
+	if (shift && sp + 1 >= 0 && sp + 1 < srcWords)
+	{
+	    llvm::Value* x = builder.CreateShl(loadWord(sp + 1), Types::SetDecl::SetBits - shift);
+	    w = builder.CreateOr(w, x);
+	}
+	// Values that are not part of the destination type should not be in the set.
+	if (size_t used = lrange->Size() & Types::SetDecl::SetMask; used && p + 1 == destWords)
 	{
-	    w = MakeIntegerConstant(0);
+	    w = builder.CreateAnd(w, MakeIntegerConstant((1U << used) - 1));
 	}
 	llvm::Value* desti = builder.CreateGEP(intTy, dest, MakeIntegerConstant(p));
 	builder.CreateStore(w, desti);
-	p++;
     }
     return dest;
 }
@@ -4016,7 +4009,7 @@ llvm::Value* TypeCastAST::CodeGen()
     // Sets are compatible anyway...
     if (llvm::isa<Types::SetDecl>(current))
     {
-	return builder.CreateLoad(current->LlvmType(), Address(), "set");
+	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
 #if !NDEBUG
     dump();
diff --git a/semantics.cpp b/semantics.cpp
index 5e65845..08cfbae 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -191,6 +191,7 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
 
 	b->lhs = Recast(b->lhs, set);
 	b->rhs = Recast(b->rhs, set);
+	return set;
     }
     return rty;
 }
diff --git a/types.cpp b/types.cpp
index 9fca9c2..0963ba0 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1293,7 +1293,7 @@ namespace Types
     {
 	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (*baseType == *sty->baseType)
+	    if (*OrdinalBase(baseType) == *OrdinalBase(sty->baseType))
 	    {
 		return this;
 	    }
-- 
2.43.0


From 022f22afec3ecf0ea5da836fc0808d8c6fc2eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 010/104] fix: enumerations, subranges and mixed numeric types
 in expressions and functions

---
 builtin.cpp   | 40 +++++++++++++++++++++++++++++-----------
 expr.h        |  2 ++
 semantics.cpp |  6 ++++--
 types.cpp     | 16 +++++++++++++++-
 types.h       |  1 +
 5 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..6ac3a6a 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -82,7 +82,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override;
 	ErrorType        Semantics() override;
     };
 
@@ -536,6 +536,19 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    Types::TypeDecl* FunctionSameAsArg2::Type() const
+    {
+	Types::TypeDecl* ty = args[0]->Type();
+	if (args.size() == 2)
+	{
+	    if (auto common = ty->CompatibleType(args[1]->Type()))
+	    {
+		return const_cast<Types::TypeDecl*>(common);
+	    }
+	}
+	return ty;
+    }
+
     ErrorType FunctionSameAsArg2::Semantics()
     {
 	if (args.size() != 2)
@@ -546,6 +559,11 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
+	Types::TypeDecl* ty = Type();
+	for (auto& a : args)
+	{
+	    a = Recast(a, ty);
+	}
 	return ErrorType::Ok;
     }
 
@@ -565,8 +583,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 
 	    llvm::Value* re = builder.CreateLoad(ty, builder.CreateGEP(ty, a, zero, "re"));
@@ -587,7 +604,7 @@ namespace Builtin
 	if (IsIntegral(args[0]->Type()))
 	{
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeIntegerConstant(0), "abscond");
+	    llvm::Value* cmp = builder.CreateICmpSGE(a, llvm::ConstantInt::get(a->getType(), 0), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
 	    return res;
 	}
@@ -597,7 +614,6 @@ namespace Builtin
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* v = args[0]->CodeGen();
-	v = builder.CreateAnd(v, MakeIntegerConstant(1));
 	return builder.CreateTrunc(v, Types::Get<Types::BoolDecl>()->LlvmType(), "odd");
     }
 
@@ -620,8 +636,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
@@ -824,7 +839,7 @@ namespace Builtin
     llvm::Value* FunctionOrd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	return builder.CreateZExt(a, Types::Get<Types::IntegerDecl>()->LlvmType(), "ord");
+	return builder.CreateZExtOrTrunc(a, Types::Get<Types::IntegerDecl>()->LlvmType(), "ord");
     }
 
     ErrorType FunctionOrd::Semantics()
@@ -844,6 +859,7 @@ namespace Builtin
     {
 	llvm::Value* a = args[0]->CodeGen();
 	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	b = builder.CreateSExtOrTrunc(b, a->getType());
 
 	return builder.CreateAdd(a, b, "succ");
     }
@@ -869,6 +885,7 @@ namespace Builtin
     {
 	llvm::Value* a = args[0]->CodeGen();
 	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	b = builder.CreateSExtOrTrunc(b, a->getType());
 
 	return builder.CreateSub(a, b, "pred");
     }
@@ -1573,13 +1590,14 @@ namespace Builtin
 	    llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	    return builder.CreateSelect(sel2, mone, res, "sgn2");
 	}
+	llvm::Value* izero = llvm::ConstantInt::get(v->getType(), 0);
 	if (IsUnsigned(args[0]->Type()))
 	{
-	    llvm::Value* sel1 = builder.CreateICmpUGT(v, zero, "gt");
+	    llvm::Value* sel1 = builder.CreateICmpUGT(v, izero, "gt");
 	    return builder.CreateSelect(sel1, one, zero, "sgn1");
 	}
-	llvm::Value* sel1 = builder.CreateICmpSGT(v, zero, "gt");
-	llvm::Value* sel2 = builder.CreateICmpSLT(v, zero, "lt");
+	llvm::Value* sel1 = builder.CreateICmpSGT(v, izero, "gt");
+	llvm::Value* sel2 = builder.CreateICmpSLT(v, izero, "lt");
 	llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	return builder.CreateSelect(sel2, mone, res, "sgn2");
     }
diff --git a/expr.h b/expr.h
index a6ae52d..3021476 100644
--- a/expr.h
+++ b/expr.h
@@ -667,6 +667,8 @@ public:
         : ExprAST(w, EK_BuiltinExpr, b->Type()), bif(b)
     {
     }
+    // The semantic analysis may alter the type of the arguments, and with that the type of the result.
+    Types::TypeDecl* Type() const override { return bif->Type(); }
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_BuiltinExpr; }
diff --git a/semantics.cpp b/semantics.cpp
index 08cfbae..3555d42 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -376,12 +376,14 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	return rty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
+    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs) &&
+        *Types::OrdinalBase(lty) == *rty)
     {
 	return lty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
+    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs) &&
+        *Types::OrdinalBase(rty) == *lty)
     {
 	return rty;
     }
diff --git a/types.cpp b/types.cpp
index 0963ba0..cfe5448 100644
--- a/types.cpp
+++ b/types.cpp
@@ -497,7 +497,7 @@ namespace Types
 	{
 	    return ty;
 	}
-	return 0;
+	return baseType->CompatibleType(ty);
     }
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
@@ -559,6 +559,20 @@ namespace Types
 	return true;
     }
 
+    const TypeDecl* EnumDecl::CompatibleType(const TypeDecl* ty) const
+    {
+	if (SameAs(ty))
+	{
+	    return this;
+	}
+	// A subrange of an enumerated type is compatible with the type itself.
+	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
+	{
+	    return CompatibleType(rty->SubType());
+	}
+	return 0;
+    }
+
     llvm::DIType* EnumDecl::GetDIType(llvm::DIBuilder* builder) const
     {
 	const int                    size = 32;
diff --git a/types.h b/types.h
index 311b403..3322747 100644
--- a/types.h
+++ b/types.h
@@ -390,6 +390,7 @@ namespace Types
 	const EnumValues& Values() const { return values; }
 	void              DoDump() const override;
 	static bool       classof(const TypeDecl* e) { return e->getKind() == TK_Enum; }
+	const TypeDecl*   CompatibleType(const TypeDecl* ty) const override;
 	bool              SameAs(const TypeDecl* ty) const override;
 	TypeDecl*         Clone() const override { return new EnumDecl(kind, values, SubType()); }
 	int               UniqueId() { return uniqueID; }
-- 
2.43.0


From 19fd646450fc1fcefa2fcc7227a183002cd20ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 011/104] fix: code generated for short-circuit, for-in, case,
 pow, set and string arguments

---
 expr.cpp      | 79 ++++++++++++++++++++++++++++++++++-----------------
 semantics.cpp | 15 ++++++++++
 types.cpp     |  8 ++----
 3 files changed, 71 insertions(+), 31 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 836841e..2f2ad35 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -906,8 +906,12 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 	Types::TypeDecl* type = rhs->Type();
 	int              start = type->GetRange()->Start();
 	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	l = builder.CreateZExt(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
+	l = builder.CreateZExtOrTrunc(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
 	l = builder.CreateSub(l, MakeIntegerConstant(start));
+	// A value outside the range of the set is not a member.
+	llvm::Value* inRange = builder.CreateICmpULT(l, MakeIntegerConstant(type->GetRange()->Size()),
+	                                             "inrange");
+	l = builder.CreateSelect(inRange, l, MakeIntegerConstant(0));
 	llvm::Value* index;
 	if (llvm::dyn_cast<Types::SetDecl>(type)->SetWords() > 1)
 	{
@@ -922,7 +926,8 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 
 	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitsetaddr");
 	llvm::Value* bit = builder.CreateLShr(bitset, offset);
-	return builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	bit = builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	return builder.CreateAnd(bit, inRange);
     }
 
     if (llvm::isa<SetExprAST>(lhs) || (lhs->Type() && llvm::isa<Types::SetDecl>(lhs->Type())))
@@ -1030,12 +1035,14 @@ static llvm::Value* ShortCtOr(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may have made new blocks of its own.
+    llvm::BasicBlock* rhsBB = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(btrue, originBlock);
-    phi->addIncoming(condr, falseBB);
+    phi->addIncoming(condr, rhsBB);
     return phi;
 }
 
@@ -1054,18 +1061,20 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // The right hand side may have made new blocks of its own.
+    llvm::BasicBlock* rhsBB = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(bfalse, originBlock);
-    phi->addIncoming(condr, trueBB);
+    phi->addIncoming(condr, rhsBB);
     return phi;
 }
 
 // Calculate base ^ exp.
 //    if (e < 0) {
-//	if (b == -1 && (e & 1)) return b;
+//	if ((b == -1 || b == 1) && (e & 1)) return b;
 //	if (b > 1) return 0;
 //    }
 //    int res = 1;
@@ -1087,22 +1096,23 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     llvm::BasicBlock* moreMergeBB = llvm::BasicBlock::Create(theContext, "moreMerge", theFunction);
     llvm::BasicBlock* doneBB = llvm::BasicBlock::Create(theContext, "powdone", theFunction);
 
-    llvm::Constant* one = MakeIntegerConstant(1);
-    llvm::Constant* zero = MakeIntegerConstant(0);
+    llvm::Type*     intTy = ty->LlvmType();
+    llvm::Constant* one = llvm::ConstantInt::get(intTy, 1);
+    llvm::Constant* zero = llvm::ConstantInt::get(intTy, 0);
     llvm::Value*    res = CreateTempAlloca(ty);
     builder.CreateStore(one, res);
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
 
     llvm::Value* expneg = builder.CreateICmpSLT(exp, zero, "expneg");
     builder.CreateCondBr(expneg, expNegBB, loopBB);
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
-    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
-    builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
+    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, llvm::ConstantInt::getSigned(intTy, -1), "isNeg1");
+    llvm::Value* bIsOne = builder.CreateICmpEQ(base, one, "isOne");
+    builder.CreateCondBr(builder.CreateOr(bIsMinus1, bIsOne), oddEvenBB, doneBB);
 
     builder.SetInsertPoint(oddEvenBB);
     llvm::Value* isOdd = builder.CreateICmpEQ(builder.CreateAnd(exp, one, "odd"), one, "isOdd");
-    // b = -1 && e & 1 => return b;
+    // (b = -1 || b = 1) && e & 1 => return b;
     builder.CreateCondBr(isOdd, doneBB, loopBB);
 
     builder.SetInsertPoint(loopBB);
@@ -1130,7 +1140,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     phiMerge->addIncoming(valEven, moreEvenBB);
     phiMerge->addIncoming(valOdd, moreOddBB);
     llvm::PHINode* phiMerge2 = builder.CreatePHI(ty->LlvmType(), 2, "phi");
-    phiMerge2->addIncoming(MakeIntegerConstant(2), moreEvenBB);
+    phiMerge2->addIncoming(llvm::ConstantInt::get(intTy, 2), moreEvenBB);
     phiMerge2->addIncoming(one, moreOddBB);
     builder.CreateStore(phiMerge, res);
     phiLoop->addIncoming(builder.CreateSub(phiLoop, phiMerge2), moreMergeBB);
@@ -1138,9 +1148,9 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
 
     builder.SetInsertPoint(doneBB);
     llvm::PHINode* phi = builder.CreatePHI(ty->LlvmType(), 3, "phi");
-    // e < 0, b != -1
+    // e < 0, b != -1 and b != 1
     phi->addIncoming(zero, expNegBB);
-    // e < 0, e is odd, b = -1
+    // e < 0, e is odd, b = -1 or b = 1
     phi->addIncoming(base, oddEvenBB);
     // all other cases.
     phi->addIncoming(curVal, loopBB);
@@ -1595,10 +1605,18 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			}
 			else
 			{
-			    v = CreateTempAlloca(i->Type());
 			    llvm::Value* x = i->CodeGen();
 			    ICE_IF(!x, "Expected CodeGen to work");
-			    builder.CreateStore(x, v);
+			    if (llvm::isa<Types::StringDecl>(i->Type()) && x->getType()->isPointerTy())
+			    {
+				// String concatenation already gives the address of a temporary.
+				v = x;
+			    }
+			    else
+			    {
+				v = CreateTempAlloca(i->Type());
+				builder.CreateStore(x, v);
+			    }
 			}
 		    }
 		    else
@@ -2473,13 +2491,12 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::PHINode* idxPhi = builder.CreatePHI(index->getType(), 2, "idxPhi");
     idxPhi->addIncoming(index, beforeBB);
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
-    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
-
     llvm::Value* cmp = builder.CreateICmpSLT(idxPhi, words);
     builder.CreateCondBr(cmp, preLoopBB, afterBB);
 
     builder.SetInsertPoint(preLoopBB);
+    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
+    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
     llvm::FunctionCallee cttz = GetFunction(intTy, { intTy, Types::Get<Types::BoolDecl>()->LlvmType() },
                                             "llvm.cttz.i32");
     llvm::Value*         isZero = builder.CreateICmpEQ(bitset, zero);
@@ -2500,7 +2517,7 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
 
     bitset = builder.CreateAnd(phi, builder.CreateNot(builder.CreateShl(one, pos)));
     isZero = builder.CreateICmpEQ(bitset, zero);
-    phi->addIncoming(bitset, loopBB);
+    phi->addIncoming(bitset, builder.GetInsertBlock());
     builder.CreateCondBr(isZero, nextLoopBB, loopBB);
 
     builder.SetInsertPoint(nextLoopBB);
@@ -2560,7 +2577,7 @@ llvm::Value* GenForInArr(ForExprAST* expr, Types::ArrayDecl* ad)
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     index = builder.CreateAdd(idxPhi, one);
-    idxPhi->addIncoming(index, loopBB);
+    idxPhi->addIncoming(index, builder.GetInsertBlock());
     builder.CreateBr(preLoopBB);
 
     builder.SetInsertPoint(afterBB);
@@ -3471,6 +3488,7 @@ llvm::Value* CaseExprAST::CodeGen()
 
     llvm::Value* v = expr->CodeGen();
     llvm::Type*  ty = v->getType();
+    const bool   isUnsigned = IsUnsigned(expr->Type());
 
     llvm::BasicBlock* bb = builder.GetInsertBlock();
 
@@ -3484,6 +3502,11 @@ llvm::Value* CaseExprAST::CodeGen()
     std::vector<std::pair<LabelExprAST*, llvm::BasicBlock*>> labbb;
     for (auto ll : labels)
     {
+	// The "otherwise" part has no values, and is generated below.
+	if (ll->LabelValues().empty())
+	{
+	    continue;
+	}
 	llvm::BasicBlock* caseBB = llvm::BasicBlock::Create(theContext, "case", theFunction);
 	ll->CodeGen(caseBB, afterBB);
 	labbb.push_back({ ll, caseBB });
@@ -3498,10 +3521,14 @@ llvm::Value* CaseExprAST::CodeGen()
 	    {
 		llvm::BasicBlock* next = llvm::BasicBlock::Create(theContext, "next", theFunction);
 		llvm::BasicBlock* maybe = llvm::BasicBlock::Create(theContext, "maybe", theFunction);
-		llvm::Value*      lt = builder.CreateICmpSLT(v, MakeIntegerConstant(val.first), "lt");
+		llvm::Value*      low = llvm::ConstantInt::getSigned(ty, val.first);
+		llvm::Value*      high = llvm::ConstantInt::getSigned(ty, val.second);
+		llvm::Value*      lt = isUnsigned ? builder.CreateICmpULT(v, low, "lt")
+		                                  : builder.CreateICmpSLT(v, low, "lt");
 		builder.CreateCondBr(lt, next, maybe);
 		builder.SetInsertPoint(maybe);
-		llvm::Value* gt = builder.CreateICmpSGT(v, MakeIntegerConstant(val.second), "gt");
+		llvm::Value* gt = isUnsigned ? builder.CreateICmpUGT(v, high, "gt")
+		                             : builder.CreateICmpSGT(v, high, "gt");
 		builder.CreateCondBr(gt, next, ll.second);
 		builder.SetInsertPoint(next);
 	    }
@@ -3691,8 +3718,8 @@ llvm::Value* SetExprAST::Address()
 
 	    // Adjust for range:
 	    Types::Range* range = type->GetRange();
-	    low = builder.CreateZExt(low, intTy, "zext.low");
-	    high = builder.CreateZExt(high, intTy, "zext.high");
+	    low = builder.CreateZExtOrTrunc(low, intTy, "zext.low");
+	    high = builder.CreateZExtOrTrunc(high, intTy, "zext.high");
 
 	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
 	    low = builder.CreateSub(low, rangeStart);
@@ -3741,7 +3768,7 @@ llvm::Value* SetExprAST::Address()
 	    llvm::Value*  rangeStart = MakeIntegerConstant(range->Start());
 	    llvm::Value*  x = v->CodeGen();
 	    ICE_IF(!x, "Expect codegen to work!");
-	    x = builder.CreateZExt(x, intTy, "zext");
+	    x = builder.CreateZExtOrTrunc(x, intTy, "zext");
 	    x = builder.CreateSub(x, rangeStart);
 
 	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
diff --git a/semantics.cpp b/semantics.cpp
index 3555d42..438541f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -710,6 +710,21 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
     {
 	bool bad = true;
 
+	// A set constructor without a type of its own is of the type of the parameter.
+	auto psty = llvm::dyn_cast<Types::SetDecl>(parg[idx].Type());
+	auto asty = llvm::dyn_cast_or_null<Types::SetDecl>(a->Type());
+	if (psty && asty)
+	{
+	    if (!asty->SubType())
+	    {
+		asty->UpdateSubtype(psty->SubType());
+	    }
+	    if (!asty->GetRange())
+	    {
+		asty->UpdateRange(GetRangeDecl(psty));
+	    }
+	}
+
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
diff --git a/types.cpp b/types.cpp
index cfe5448..37d01ea 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1317,12 +1317,10 @@ namespace Types
 
     bool SetDecl::SameAs(const TypeDecl* ty) const
     {
-	if (CompoundDecl::SameAs(ty))
+	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
-	    {
-		return sty->range && *range == *sty->range;
-	    }
+	    return range && sty->range && *range == *sty->range && baseType && sty->baseType &&
+	           *OrdinalBase(baseType) == *OrdinalBase(sty->baseType);
 	}
 	return false;
     }
-- 
2.43.0


From 4fe70e006c609e4de0056b268a0915b59a4d80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 012/104] fix: temporaries for strings, for-in sets and variant
 records; closures of called routines

String temporaries were one character too small and overwrote their
neighbours, copying part of a string overflowed for large lengths, a for-in
loop saw changes its body made to the set, variant records lost data of some
alternatives when copied as a value, closures missed what was only used by
routines called indirectly or through procedural parameters, the short form
of a forward declared function lost its result name, and -g gave up on
closures with procedural parameters and emitted wrong array bounds.
---
 builtin.cpp      |   2 +-
 callgraph.cpp    | 104 +++++++++++++++++++++++++++++++----------------
 expr.cpp         |  22 +++++++---
 parser.cpp       |   5 ++-
 runtime/string.c |   2 +-
 types.cpp        |  49 ++++++++--------------
 6 files changed, 109 insertions(+), 75 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 6ac3a6a..cc3fdb3 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1317,7 +1317,7 @@ namespace Builtin
     llvm::Value* FunctionTrim::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* res = CreateTempAlloca(args[0]->Type());
+	llvm::Value* res = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
 
 	llvm::Type*          ty = str->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty, ty },
diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..8554a11 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -163,6 +163,14 @@ public:
 		}
 	    }
 	}
+	// Functions passed as arguments need their closure just like when called.
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(a))
+	{
+	    if (auto fn = fe->Proto()->Function())
+	    {
+		calls.insert(fn);
+	    }
+	}
     }
     CallSet calls;
     VarSet  uses;
@@ -191,20 +199,42 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
     callMap[f] = collector.calls;
 }
 
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
+// A variable is identified by the function declaring it and its name.
+using OwnedVar = std::pair<const FunctionAST*, std::string>;
+using OwnedVarSet = std::set<OwnedVar>;
+
+// Find which of the functions enclosing func that declares the variable, null for global variables.
+static const FunctionAST* FindOwner(const CallGraphClosureCollector& v, const FunctionAST* func,
+                                    const std::string& name)
 {
-    for (auto d : decls)
+    for (const FunctionAST* f = func; f; f = f->Parent())
     {
-	uses.erase(d.second.Name());
+	auto decl = v.declMap.find(f);
+	if (decl != v.declMap.end() && decl->second.count(name))
+	{
+	    return f;
+	}
     }
+    return nullptr;
 }
 
-void AddToUses(VarSet& uses, VarSet& more)
+static bool AddToUses(OwnedVarSet& uses, const OwnedVarSet& more, const FunctionAST* func)
 {
-    for (auto v : more)
+    bool changed = false;
+    for (const auto& m : more)
     {
-	uses.insert(v);
+	// Only variables of the functions enclosing func are of interest.
+	const FunctionAST* f = func->Parent();
+	while (f && f != m.first)
+	{
+	    f = f->Parent();
+	}
+	if (f)
+	{
+	    changed |= uses.insert(m).second;
+	}
     }
+    return changed;
 }
 
 void BuildClosures(ExprAST* ast)
@@ -213,44 +243,48 @@ void BuildClosures(ExprAST* ast)
     CallGraphClosureCollector v;
     CallGraph(ast, v);
 
-    for (auto usage : v.useMap)
+    // The variables from enclosing functions that each function uses by itself.
+    std::map<const FunctionAST*, OwnedVarSet> outerUses;
+    for (const auto& usage : v.useMap)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
+	OwnedVarSet& uses = outerUses[usage.first];
+	for (const auto& name : usage.second)
 	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
+	    const FunctionAST* owner = FindOwner(v, usage.first, name);
+	    if (owner && owner != usage.first)
+	    {
+		uses.insert({ owner, name });
+	    }
 	}
+    }
 
-	for (auto call : v.callMap[func])
+    // A function also needs what its subfunctions and the functions it calls need.
+    bool changed;
+    do
+    {
+	changed = false;
+	for (auto& uses : outerUses)
 	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    auto func = const_cast<FunctionAST*>(uses.first);
+	    for (auto sub : func->SubFunctions())
+	    {
+		changed |= AddToUses(uses.second, OwnedVarSet(outerUses[sub]), func);
+	    }
+	    for (auto call : v.callMap[func])
+	    {
+		changed |= AddToUses(uses.second, OwnedVarSet(outerUses[call]), func);
+	    }
 	}
+    } while (changed);
+
+    for (const auto& usage : v.useMap)
+    {
+	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
 	std::set<VarDef> used;
-	for (auto use : uses)
+	for (const auto& use : outerUses[func])
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
-	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
-		{
-		    used.insert(v->second);
-		    break;
-		}
-	    }
+	    used.insert(v.declMap[use.first].find(use.second)->second);
 	}
 
 	func->SetUsedVars(used);
diff --git a/expr.cpp b/expr.cpp
index 2f2ad35..3380e63 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -298,7 +298,7 @@ static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* r
     {
 	llvm::Align destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size);
     };
 
     return FillTempString(dest, rhs->CodeGen(), rhs->Str().size(), func);
@@ -322,7 +322,7 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
 	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
 	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size);
     };
 
     return FillTempString(dest, rhs->Address(), size, func);
@@ -775,6 +775,16 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
     return builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
 }
 
+// Space for a temporary string of type ty, with room for at least len characters.
+static llvm::Value* CreateTempString(size_t len, Types::TypeDecl* ty)
+{
+    if (!llvm::isa<Types::StringDecl>(ty) || ty->Size() <= len)
+    {
+	ty = new Types::StringDecl(std::max(len, size_t(1)));
+    }
+    return CreateTempAlloca(ty);
+}
+
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
@@ -786,7 +796,7 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(se->Str().size(), ty);
 	TempStringFromStringExpr(v, se);
 	return v;
     }
@@ -804,7 +814,7 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(r[0]->RangeSize(), ty);
 	TempStringFromCharArray(v, ea, r[0]->RangeSize());
 	return v;
     }
@@ -2455,7 +2465,9 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::Constant* rangeStart = MakeIntegerConstant(sd->GetRange()->Start());
     llvm::Constant* words = MakeIntegerConstant(sd->SetWords());
 
-    llvm::Value* setV = MakeAddressable(expr->start);
+    // The body may change the set, which does not affect the iteration, so use a copy.
+    llvm::Value* setV = CreateTempAlloca(sd);
+    builder.CreateStore(builder.CreateLoad(sd->LlvmType(), MakeAddressable(expr->start)), setV);
     llvm::Value* one = MakeIntegerConstant(1);
     llvm::Value* zero = MakeIntegerConstant(0);
     llvm::Value* shift = MakeIntegerConstant(Types::SetDecl::SetPow2Bits);
diff --git a/parser.cpp b/parser.cpp
index 4f5df21..4a9e7d2 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3669,6 +3669,10 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    return new FunctionAST(CurrentToken().Loc(), proto, {}, 0);
 	}
     }
+    else if (!llvm::isa<Types::VoidDecl>(proto->Type()))
+    {
+	shortname = ShortName(name);
+    }
 
     // We're not in a forward declaration.
     if (proto->Function())
@@ -3686,7 +3690,6 @@ FunctionAST* Parser::ParseDefinition(int level)
 
     if (shortname != "" && proto->ResName() != shortname)
     {
-	ICE_IF(!nmObj, "Named object expected");
 	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
 	nameStack.Add(vd);
     }
diff --git a/runtime/string.c b/runtime/string.c
index b7002b8..3f53a5f 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -61,7 +61,7 @@ String __StrCopy(String* str, int start, int len)
     {
 	len = 0;
     }
-    if (start + len > str->len)
+    if (len > str->len - (start - 1))
     {
 	len = str->len - (start - 1);
 	if (len < 0)
diff --git a/types.cpp b/types.cpp
index 37d01ea..07ac1b0 100644
--- a/types.cpp
+++ b/types.cpp
@@ -359,7 +359,7 @@ namespace Types
 	for (auto r : ranges)
 	{
 	    Range* rr = r->GetRange();
-	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	}
 	llvm::DIType* bd = baseType->DebugType(builder);
 	if (!bd)
@@ -614,11 +614,7 @@ namespace Types
     {
 	const llvm::DataLayout& dl = theModule->getDataLayout();
 	size_t                 maxSize = 0;
-	size_t                 maxSizeElt = 0;
-	size_t                 maxAlign = 0;
-	size_t                 maxAlignElt = 0;
-	size_t                 maxAlignSize = 0;
-	size_t                 elt = 0;
+	size_t                 maxAlign = 1;
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
@@ -633,31 +629,16 @@ namespace Types
 		    return opaqueType;
 		}
 	    }
-	    size_t sz = dl.getTypeAllocSize(ty);
-	    size_t al = dl.getPrefTypeAlign(ty).value();
-	    if (sz > maxSize)
-	    {
-		maxSize = sz;
-		maxSizeElt = elt;
-	    }
-	    if (al > maxAlign || (al == maxAlign && sz > maxAlignSize))
-	    {
-		maxAlign = al;
-		maxAlignSize = sz;
-		maxAlignElt = elt;
-	    }
-	    elt++;
+	    maxSize = std::max(maxSize, size_t(dl.getTypeAllocSize(ty)));
+	    maxAlign = std::max(maxAlign, size_t(dl.getABITypeAlign(ty).value()));
 	}
 
-	llvm::Type*              ty = fields[maxAlignElt]->LlvmType();
-	std::vector<llvm::Type*> fv = { ty };
-	if (maxAlignElt != maxSizeElt)
-	{
-	    size_t      nelems = maxSize - maxAlignSize;
-	    llvm::Type* ty = llvm::ArrayType::get(Get<CharDecl>()->LlvmType(), nelems);
-	    fv.push_back(ty);
-	}
-	return llvm::StructType::create(fv, name);
+	// Using the type of one of the alternatives would not copy what is padding in that alternative
+	// but used by another one when loading and storing the whole record. So make it all integers.
+	llvm::Type* eltTy = llvm::IntegerType::get(theContext, std::min(maxAlign, size_t(8)) * CHAR_BIT);
+	size_t      eltSize = dl.getTypeAllocSize(eltTy);
+	llvm::Type* arrTy = llvm::ArrayType::get(eltTy, (maxSize + eltSize - 1) / eltSize);
+	return llvm::StructType::create({ arrTy }, name);
     }
 
     llvm::DIType* VariantDecl::GetDIType(llvm::DIBuilder* builder) const
@@ -834,7 +815,12 @@ namespace Types
 	    if (!d)
 	    {
 		d = f->DebugType(builder);
-		ICE_IF(!d, "Expected debug type here");
+	    }
+	    if (!d)
+	    {
+		// Not all types have debug types yet, leave such fields out.
+		index++;
+		continue;
 	    }
 	    size = f->Size() * CHAR_BIT;
 	    align = f->AlignSize() * CHAR_BIT;
@@ -1268,7 +1254,7 @@ namespace Types
     {
 	std::vector<llvm::Metadata*> subscripts;
 	Range*                       rr = range->GetRange();
-	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	llvm::DIType*     bd = builder->createBasicType("INTEGER", 32, llvm::dwarf::DW_ATE_unsigned);
 	llvm::DINodeArray subsArray = builder->getOrCreateArray(subscripts);
 	return builder->createArrayType(baseType->Size() * CHAR_BIT, baseType->AlignSize() * CHAR_BIT, bd,
@@ -1475,7 +1461,6 @@ namespace Types
 	    return t->lType;
 
 	case TypeDecl::TK_String:
-	case TypeDecl::TK_FuncPtr:
 	case TypeDecl::TK_File:
 	case TypeDecl::TK_Text:
 	case TypeDecl::TK_Set:
-- 
2.43.0


From 81bd4bd087cd4506dbfb8f4d877c9dc5ec711fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 013/104] fix: abs of a real and integer to complex conversion
 evaluate their operand once

---
 builtin.cpp | 16 ++++++++--------
 expr.cpp    |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index cc3fdb3..8d7a4f7 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -596,19 +596,19 @@ namespace Builtin
 	    return builder.CreateCall(f, sum, "sqrt");
 	}
 
+	if (!IsIntegral(args[0]->Type()))
+	{
+	    return CallRuntimeFPFunc(builder, "llvm.fabs.f64", args);
+	}
 	llvm::Value* a = args[0]->CodeGen();
 	if (IsUnsigned(args[0]->Type()))
 	{
 	    return a;
 	}
-	if (IsIntegral(args[0]->Type()))
-	{
-	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, llvm::ConstantInt::get(a->getType(), 0), "abscond");
-	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
-	    return res;
-	}
-	return CallRuntimeFPFunc(builder, "llvm.fabs.f64", args);
+	llvm::Value* neg = builder.CreateNeg(a, "neg");
+	llvm::Value* cmp = builder.CreateICmpSGE(a, llvm::ConstantInt::get(a->getType(), 0), "abscond");
+	llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
+	return res;
     }
 
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
diff --git a/expr.cpp b/expr.cpp
index 3380e63..6717080 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4078,7 +4078,7 @@ llvm::Value* TypeCastAST::Address()
 
 	if (IsIntegral(current))
 	{
-	    re = builder.CreateSIToFP(expr->CodeGen(), realTy, "tofp");
+	    re = builder.CreateSIToFP(re, realTy, "tofp");
 	}
 	llvm::Value* im = MakeRealConstant(0.0);
 
-- 
2.43.0


From 03434927a7b8b59cfc2e4d46435b4c3670c41f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 014/104] fix: popcnt of values that are not integer sized

---
 builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8d7a4f7..f357813 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1412,7 +1412,7 @@ namespace Builtin
 	    llvm::Type*          ty = type->LlvmType();
 	    llvm::FunctionCallee f = GetFunction(ty, { ty }, name);
 	    llvm::Value*         a = args[0]->CodeGen();
-	    return builder.CreateCall(f, a, "popcnt");
+	    return builder.CreateZExtOrTrunc(builder.CreateCall(f, a, "popcnt"), Type()->LlvmType());
 	}
 
 	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-- 
2.43.0


From baf5e381ba18d1c4eb0fffa96b08e854fc8248ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 015/104] fix: pow of a real in a nested routine is accepted

---
 semantics.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/semantics.cpp b/semantics.cpp
index 438541f..d4be8a7 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -289,6 +289,10 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
     case Token::Pow:
 	if (llvm::isa<Types::ComplexDecl>(lty))
 	{
+	    if (auto tc = llvm::dyn_cast<TypeCastAST>(b->rhs))
+	    {
+		rty = tc->Expr()->Type();
+	    }
 	    if (!Types::IsIntegral(rty) || llvm::isa<Types::CharDecl>(rty))
 	    {
 		Error(b, "Expect integer exponent in POW");
@@ -411,6 +415,11 @@ void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 	    {
 		Error(b, "Left hand side of POW should be numeric type");
 	    }
+	    // Already converted to real when the expression is visited again.
+	    if (auto tc = llvm::dyn_cast<TypeCastAST>(b->rhs))
+	    {
+		rty = tc->Expr()->Type();
+	    }
 	    if (llvm::isa<Types::CharDecl>(rty) || !IsIntegral(rty))
 	    {
 		Error(b, "Right hand side of POW should be an integer");
-- 
2.43.0


From 1610073c24557a9ca26f3f79a75e1dd8cf480b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 016/104] fix: case labels keep 64-bit values and overlapping
 labels are rejected

---
 expr.cpp      | 18 +++++-------------
 expr.h        |  6 +++---
 parser.cpp    |  6 +++---
 semantics.cpp |  6 ++++--
 4 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 6717080..d4e78b6 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3475,19 +3475,10 @@ void CaseExprAST::accept(ASTVisitor& v)
     v.visit(this);
 }
 
-static uint64_t Distance(std::pair<int, int> p)
+static uint64_t Distance(std::pair<int64_t, int64_t> p)
 {
     ICE_IF(p.first > p.second, "Expect ordered pair");
-    if (p.first > 0)
-    {
-	return p.second - p.first;
-    }
-    if (p.first < 0 && p.second > 0)
-    {
-	return (uint64_t)-p.first + p.second;
-    }
-    // Both are negative.
-    return -p.first - -p.second;
+    return (uint64_t)p.second - (uint64_t)p.first;
 }
 
 llvm::Value* CaseExprAST::CodeGen()
@@ -3555,9 +3546,10 @@ llvm::Value* CaseExprAST::CodeGen()
 	{
 	    if (Distance(val) <= MaxRangeInSwitch)
 	    {
-		for (int i = val.first; i <= val.second; i++)
+		for (uint64_t d = 0; d <= Distance(val); d++)
 		{
-		    auto intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
+		    uint64_t i = (uint64_t)val.first + d;
+		    auto     intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
 		    sw->addCase(llvm::ConstantInt::get(intTy, i), ll.second);
 		}
 	    }
diff --git a/expr.h b/expr.h
index 3021476..0119c51 100644
--- a/expr.h
+++ b/expr.h
@@ -830,7 +830,7 @@ class LabelExprAST : public ExprAST
     friend class TypeCheckVisitor;
 
 public:
-    LabelExprAST(const Location& w, const std::vector<std::pair<int, int>>& lab, ExprAST* st)
+    LabelExprAST(const Location& w, const std::vector<std::pair<int64_t, int64_t>>& lab, ExprAST* st)
         : ExprAST(w, EK_LabelExpr), labelValues(lab), stmt(st)
     {
     }
@@ -839,10 +839,10 @@ public:
     llvm::Value*                            CodeGen(llvm::BasicBlock* caseBB, llvm::BasicBlock* afterBB);
     static bool                             classof(const ExprAST* e) { return e->getKind() == EK_LabelExpr; }
     void                                    accept(ASTVisitor& v) override;
-    const std::vector<std::pair<int, int>>& LabelValues() { return labelValues; }
+    const std::vector<std::pair<int64_t, int64_t>>& LabelValues() { return labelValues; }
 
 private:
-    std::vector<std::pair<int, int>> labelValues;
+    std::vector<std::pair<int64_t, int64_t>> labelValues;
     ExprAST*                         stmt;
 };
 
diff --git a/parser.cpp b/parser.cpp
index 4a9e7d2..088cf77 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3934,7 +3934,7 @@ ExprAST* Parser::ParseCaseExpr()
 	return 0;
     }
     std::vector<LabelExprAST*>       labels;
-    std::vector<std::pair<int, int>> ranges;
+    std::vector<std::pair<int64_t, int64_t>> ranges;
     ExprAST*                         otherwise{ nullptr };
     Types::TypeDecl*                 type{ nullptr };
 
@@ -3962,7 +3962,7 @@ ExprAST* Parser::ParseCaseExpr()
 	else
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int                         value = Constants::ToInt(cd);
+	    int64_t                     value = Constants::ToInt(cd);
 	    if (type)
 	    {
 		if (type != cd->Type())
@@ -3974,7 +3974,7 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		type = cd->Type();
 	    }
-	    int end = value;
+	    int64_t end = value;
 	    if (AcceptToken(Token::DotDot))
 	    {
 		cd = ParseConstExpr({ Token::Comma, Token::Colon });
diff --git a/semantics.cpp b/semantics.cpp
index d4be8a7..f721c1d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1006,12 +1006,14 @@ void TypeCheckVisitor::Check<CaseExprAST>(CaseExprAST* c)
 	Error(c, "Case selection must be integral type");
     }
 
-    std::vector<std::pair<int, int>> vals;
+    std::vector<std::pair<int64_t, int64_t>> vals;
     for (auto l : c->labels)
     {
 	for (auto i : l->labelValues)
 	{
-	    if (std::find(vals.begin(), vals.end(), i) != vals.end())
+	    auto overlaps = [&i](const std::pair<int64_t, int64_t>& v)
+	    { return i.first <= v.second && v.first <= i.second; };
+	    if (std::find_if(vals.begin(), vals.end(), overlaps) != vals.end())
 	    {
 		Error(c, "Duplicate case label " + std::to_string(i.first));
 	    }
-- 
2.43.0


From 9e89499ff930e6e30d097c1944a34fa65a893de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 017/104] fix: the right hand side of an assignment is type
 checked before the assignment

---
 expr.cpp | 14 ++++++++++++++
 expr.h   |  7 +------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index d4e78b6..2d3ee4a 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2270,6 +2270,20 @@ void AssignExprAST::DoDump() const
     rhs->DoDump();
 }
 
+void AssignExprAST::accept(ASTVisitor& v)
+{
+    lhs->accept(v);
+    // Set constructors without a range of their own take that of the variable.
+    auto lsty = llvm::dyn_cast_or_null<Types::SetDecl>(lhs->Type());
+    auto rsty = llvm::dyn_cast_or_null<Types::SetDecl>(rhs->Type());
+    if (lsty && rsty && lsty->GetRange() && !rsty->GetRange())
+    {
+	rsty->UpdateRange(new Types::RangeDecl(lsty->GetRange(), lsty->SubType()));
+    }
+    rhs->accept(v);
+    v.visit(this);
+}
+
 llvm::Value* AssignExprAST::AssignStr()
 {
     TRACE();
diff --git a/expr.h b/expr.h
index 0119c51..84431c4 100644
--- a/expr.h
+++ b/expr.h
@@ -499,12 +499,7 @@ public:
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_AssignExpr; }
-    void         accept(ASTVisitor& v) override
-    {
-	lhs->accept(v);
-	v.visit(this);
-	rhs->accept(v);
-    }
+    void         accept(ASTVisitor& v) override;
 
 private:
     llvm::Value* AssignStr();
-- 
2.43.0


From e2ee071d67868d11c15166c1ab6e161b3461cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 018/104] fix: membership in a set constructor does not depend
 on the representable range

---
 expr.cpp      | 32 ++++++++++++++++++++++++++++++++
 expr.h        |  1 +
 semantics.cpp |  4 ++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 2d3ee4a..686eb82 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -911,6 +911,10 @@ llvm::Value* BinaryExprAST::SetCodeGen()
     TRACE();
     if (lhs->Type() && IsIntegral(lhs->Type()) && oper.GetToken() == Token::In)
     {
+	if (auto setExpr = llvm::dyn_cast<SetExprAST>(rhs))
+	{
+	    return setExpr->ContainsCodeGen(lhs);
+	}
 	llvm::Value*     l = lhs->CodeGen();
 	llvm::Value*     setV = MakeAddressable(rhs);
 	Types::TypeDecl* type = rhs->Type();
@@ -3673,6 +3677,34 @@ llvm::Value* SetExprAST::MakeConstantSet()
     return gv;
 }
 
+// Test if value is one of the elements, regardless of the range the set itself could represent.
+llvm::Value* SetExprAST::ContainsCodeGen(ExprAST* value)
+{
+    TRACE();
+
+    llvm::Type* ty = Types::Get<Types::Int64Decl>()->LlvmType();
+    auto        gen = [ty](ExprAST* e) { return builder.CreateIntCast(e->CodeGen(), ty, !IsUnsigned(e->Type())); };
+
+    llvm::Value* v = gen(value);
+    llvm::Value* res = MakeConstant(0, Types::Get<Types::BoolDecl>());
+    for (auto e : values)
+    {
+	llvm::Value* found;
+	if (auto r = llvm::dyn_cast<RangeExprAST>(e))
+	{
+	    llvm::Value* low = gen(r->LowExpr());
+	    llvm::Value* high = gen(r->HighExpr());
+	    found = builder.CreateAnd(builder.CreateICmpSGE(v, low), builder.CreateICmpSLE(v, high));
+	}
+	else
+	{
+	    found = builder.CreateICmpEQ(v, gen(e));
+	}
+	res = builder.CreateOr(res, found, "in");
+    }
+    return res;
+}
+
 llvm::Value* SetExprAST::Address()
 {
     TRACE();
diff --git a/expr.h b/expr.h
index 84431c4..45b0743 100644
--- a/expr.h
+++ b/expr.h
@@ -244,6 +244,7 @@ public:
     llvm::Value*    Address() override;
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
+    llvm::Value*    ContainsCodeGen(ExprAST* value);
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
     void            accept(ASTVisitor& v) override
     {
diff --git a/semantics.cpp b/semantics.cpp
index f721c1d..0c34f9f 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -135,14 +135,14 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     ICE_IF(!lty || !rty, "Expect set declarations on both side!");
     if (auto s = llvm::dyn_cast<SetExprAST>(b->lhs))
     {
-	if (s->values.empty() && rty->SubType())
+	if (s->values.empty() && !lty->SubType() && rty->SubType())
 	{
 	    lty->UpdateSubtype(rty->SubType());
 	}
     }
     if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
     {
-	if ((s->values.empty() || !rty->SubType()) && lty->SubType())
+	if (!rty->SubType() && lty->SubType())
 	{
 	    rty->UpdateSubtype(lty->SubType());
 	}
-- 
2.43.0


From dd66bdcfb552384299d947ec37a85bceeffca39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 019/104] fix: writestr must not write past the end of the
 buffer or the string

---
 runtime/write.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/write.c b/runtime/write.c
index abedf88..5b645c2 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -17,6 +17,12 @@ void __write_S_init(String* str)
 
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    /* snprintf gives the length it wanted, buffer holds at most MaxStringLen */
+    int space = MaxStringLen - str->len;
+    if (n > space)
+    {
+	n = space;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
-- 
2.43.0


From 91a458dbd8a5ee610a8bed4bb4405d229e984a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 020/104] fix: off by one in the check for an invalid enum
 value in write

---
 runtime/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index 5b645c2..13d5301 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -206,7 +206,7 @@ void __write_str(File* file, const String* v, int width)
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 {
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	static const char* msg = "Invalid Enum Value";
 	__write_S_chars(strout, msg, strlen(msg), width);
@@ -223,7 +223,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 {
     static const char* msg = "Invalid Enum Value";
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	__write_chars(file, msg, strlen(msg), width);
     }
-- 
2.43.0


From 64884fae7138712e70d918cfa9822310193acb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 021/104] fix: writestr of a real in scientific form uses the
 same precision as write

---
 runtime/write.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index 13d5301..d57344a 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -64,10 +64,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
-- 
2.43.0


From a97ff61319206f95b6ec65780d6e66c08f932c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 022/104] fix: readstr reads past the end of the string

---
 runtime/read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..cf125ce 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -138,7 +138,8 @@ static void initFile(File* file, struct interface* intf)
 
 static int str_current(struct interface* intf)
 {
-    return intf->str->str[intf->strpos];
+    // There is nothing to read past the end of the string.
+    return (intf->strpos < intf->str->len) ? intf->str->str[intf->strpos] : 0;
 }
 
 static int str_get_text(struct interface* intf)
-- 
2.43.0


From fa9b5cb67952cf78b2bed32b9db318d7e50eaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 023/104] fix: read a boolean that ends the file without a
 newline

---
 runtime/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/read.c b/runtime/read.c
index cf125ce..34cee9a 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -556,7 +556,7 @@ static void readbool(struct interface* intf, int* b)
     for (;;)
     {
 	ch = intf->fncurrent(intf);
-	if (isspace(ch) || count >= sizeof(str) - 1)
+	if (isspace(ch) || count >= sizeof(str) - 1 || intf->fneof(intf))
 	{
 	    break;
 	}
-- 
2.43.0


From 7bcb49994a7ea5dbfb8f4f7a81800b2be7718ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 024/104] fix: get on a text file skips what read has already
 buffered

---
 runtime/getput.c  | 5 +----
 runtime/read.c    | 3 +--
 runtime/runtime.h | 1 +
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..f8f27ee 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -24,10 +24,7 @@ int __get(File* file)
     }
     if (file->isText)
     {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
+	return __get_text(file);
     }
     else
     {
diff --git a/runtime/read.c b/runtime/read.c
index 34cee9a..351c468 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -37,8 +37,7 @@ static int read_chunk_text(struct FileEntry* f)
     return EOF;
 }
 
-/* Make a local function so it can inline */
-static int __get_text(File* file)
+int __get_text(File* file)
 {
     struct FileEntry* f = &files[file->handle];
     int               ch = read_chunk_text(f);
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..6477ce1 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -111,6 +111,7 @@ static inline FILE* getFile(File* f)
 }
 
 int  __get(File* file);
+int  __get_text(File* file);
 void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
-- 
2.43.0


From 1733120801455adee384d67ef8510ecb1b4993ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 025/104] fix: the file buffer of a text file is the first
 character of the next line after readln

---
 runtime/read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/read.c b/runtime/read.c
index 351c468..d1ca93a 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -460,6 +460,12 @@ void __read_nl(File* file)
 	    break;
     }
     files[file->handle].readAhead = 0;
+    // The file buffer variable is the first character of the next line,
+    // but don't wait for someone to type it.
+    if (!(file->isText & 2))
+    {
+	__get_text(file);
+    }
 }
 
 static void readstr(struct interface* intf, String* v)
-- 
2.43.0


From 8a75962d9f5d740123186fd5afcb0042118d0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 026/104] fix: read of a boolean overwrites the three bytes
 after it

---
 runtime/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index d1ca93a..d69cd27 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -551,7 +551,7 @@ static void upstr(char* s)
     }
 }
 
-static void readbool(struct interface* intf, int* b)
+static void readbool(struct interface* intf, char* b)
 {
     intf->fnpreread(intf);
     skip_spaces(intf);
@@ -583,7 +583,7 @@ static void readbool(struct interface* intf, int* b)
     *b = -1;
 }
 
-void __read_bool(File* file, int* b)
+void __read_bool(File* file, char* b)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -595,7 +595,7 @@ void __read_bool(File* file, int* b)
     readbool(&intf, b);
 }
 
-void __read_S_bool(String* str, int* b)
+void __read_S_bool(String* str, char* b)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
-- 
2.43.0


From 7b6f4fc9e40e6b8480f13ab80ceb1f39f339b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 027/104] fix: arguments of fseek are in the wrong order

---
 runtime/seek.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..4fc342e 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -12,7 +12,7 @@ void __seekwrite(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
 	return;
     }
     FileError("seekwrite");
@@ -22,7 +22,7 @@ void __seekread(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
 	return;
     }
     FileError("seekread");
@@ -32,7 +32,7 @@ void __seekupdate(File* f, uint64_t n)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
+	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
 	return;
     }
     FileError("seekupdate");
@@ -45,9 +45,9 @@ bool __empty(File* f)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
+	fseek(file, 0, SEEK_END);
 	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
+	fseek(file, current, SEEK_SET);
 	return (len == 0);
     }
     FileError("empty");
@@ -71,9 +71,9 @@ long __lastposition(File* f)
     {
 	FILE* file = files[f->handle].file;
 	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
+	fseek(file, 0, SEEK_END);
 	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
+	fseek(file, current, SEEK_SET);
 	return len / f->recordSize;
     }
     FileError("lastposition");
-- 
2.43.0


From 1aa8c379ad51067aa8d82af247556dcfc0d6673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 028/104] fix: bind and unbind never did anything

---
 runtime/bind.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/bind.c b/runtime/bind.c
index 8d8d069..16b94a2 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -24,7 +24,7 @@ struct BindingType __binding(File* f)
 
 void __bind(File* f, struct BindingType* b)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
 	if (files[f->handle].name)
 	    free(files[f->handle].name);
@@ -35,7 +35,7 @@ void __bind(File* f, struct BindingType* b)
 
 void __unbind(File* f)
 {
-    if (f->handle > 0 && f->handle > MaxPascalFiles)
+    if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
 	char* ptr = files[f->handle].name;
 	files[f->handle].name = NULL;
-- 
2.43.0


From 09a2ca9d6b028c068bab8a4ce127cb693eb35532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 029/104] fix: bind passes its binding by value to a function
 that takes its address

---
 builtin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index f357813..f86a5aa 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1714,8 +1714,8 @@ namespace Builtin
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	ICE_IF(!fvar, "Should be a variable here");
 	llvm::Value*             faddr = fvar->Address();
-	llvm::Value*             binding = args[1]->CodeGen();
-	std::vector<llvm::Type*> argTypes = { faddr->getType(), Types::GetBindingType()->LlvmType() };
+	llvm::Value*             binding = MakeAddressable(args[1]);
+	std::vector<llvm::Type*> argTypes = { faddr->getType(), binding->getType() };
 	llvm::FunctionCallee     f = GetFunction(Type()->LlvmType(), argTypes, "__" + name);
 
 	return builder.CreateCall(f, { faddr, binding });
-- 
2.43.0


From dbc02d57fe2bb71e2bfee20651d4c1555749af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 030/104] fix: seekread reads the element it seeks, position
 does not count the element read ahead

---
 runtime/seek.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/seek.c b/runtime/seek.c
index 4fc342e..dc5e537 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -23,6 +23,7 @@ void __seekread(File* f, uint64_t n)
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
 	fseek(files[f->handle].file, n * f->recordSize, SEEK_SET);
+	__get(f);
 	return;
     }
     FileError("seekread");
@@ -58,8 +59,9 @@ long __position(File* f)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
+	// When reading, the current element is already in the file buffer.
 	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
+	return current / f->recordSize - files[f->handle].readAhead;
     }
     FileError("position");
     return 0;
-- 
2.43.0


From 7691663dee8a46561bb68b1233d44c00822db825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 031/104] fix: a local file variable has a random handle before
 assign, reset or rewrite

---
 expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 686eb82..33c6a17 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3347,6 +3347,11 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
+    else if (llvm::isa<Types::FileDecl>(var.Type()))
+    {
+	// The runtime uses a zero handle for a file that has not been assigned a name.
+	builder.CreateStore(llvm::Constant::getNullValue(var.Type()->LlvmType()), v);
+    }
     if (debugInfo)
     {
 	DebugInfo& di = GetDebugInfo();
-- 
2.43.0


From bbaad25559d0cc7c987e61a51a091d58a44e08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 032/104] fix: each assign of the same file uses up another
 entry of the file table

---
 runtime/assign.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..f8e9b2d 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -45,6 +45,20 @@ void SetupFile(File* f, int recSize, int isText)
 void __assign(File* f, char* name)
 {
     int i;
+    if (f->handle > 0 && f->handle < MaxPascalFiles && files[f->handle].inUse &&
+        files[f->handle].fileData == f)
+    {
+	/* Give back the entry from an earlier assign of this file. */
+	struct FileEntry* fe = &files[f->handle];
+	if (fe->file)
+	{
+	    fclose(fe->file);
+	    fe->file = NULL;
+	}
+	free(fe->name);
+	fe->name = NULL;
+	fe->inUse = 0;
+    }
     for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
 	;
     if (i == MaxPascalFiles)
-- 
2.43.0


From 81bdd54c214b03a67e9635cd5ba3e0a012805fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 033/104] fix: names of fields and member functions are not
 case sensitive

---
 parser.cpp |  4 ++--
 schema.cpp |  4 ++--
 types.cpp  |  6 +++---
 utils.cpp  | 11 +++++++++++
 utils.h    |  3 +++
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 088cf77..dd21b4e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3332,7 +3332,7 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
     {
 	Error("Result type mismatch for " + funcName);
     }
-    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && proto->ResName() != resName)
+    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && !SameName(proto->ResName(), resName))
     {
 	Error("Result name mismatch for " + funcName);
     }
@@ -3688,7 +3688,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	ExpandWithNames(proto->BaseObj(), v, 0);
     }
 
-    if (shortname != "" && proto->ResName() != shortname)
+    if (shortname != "" && !SameName(proto->ResName(), shortname))
     {
 	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
 	nameStack.Add(vd);
diff --git a/schema.cpp b/schema.cpp
index eb96764..f2a57a1 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -17,7 +17,7 @@ namespace Types
     {
 	for (const auto& v : vars)
 	{
-	    if (v.Name() == name)
+	    if (SameName(v.Name(), name))
 	    {
 		return &v;
 	    }
@@ -30,7 +30,7 @@ namespace Types
 	int index = 0;
 	for (auto a : vars)
 	{
-	    if (a.Name() == nm)
+	    if (SameName(a.Name(), nm))
 	    {
 		return index;
 	    }
diff --git a/types.cpp b/types.cpp
index 07ac1b0..7fead0f 100644
--- a/types.cpp
+++ b/types.cpp
@@ -674,7 +674,7 @@ namespace Types
 		    return i;
 		}
 	    }
-	    if (f->Name() == name)
+	    if (SameName(f->Name(), name))
 	    {
 		return i;
 	    }
@@ -888,7 +888,7 @@ namespace Types
 	    bool found = false;
 	    for (auto& j : membfuncs)
 	    {
-		if (j->Proto()->Name() == i->Proto()->Name())
+		if (SameName(j->Proto()->Name(), i->Proto()->Name()))
 		{
 		    j = i;
 		    found = true;
@@ -931,7 +931,7 @@ namespace Types
     {
 	for (size_t i = 0; i < membfuncs.size(); i++)
 	{
-	    if (membfuncs[i]->Proto()->Name() == nm)
+	    if (SameName(membfuncs[i]->Proto()->Name(), nm))
 	    {
 		return i;
 	    }
diff --git a/utils.cpp b/utils.cpp
index a93574e..5fdf80f 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -1,4 +1,5 @@
 #include "utils.h"
+#include "options.h"
 #include <iostream>
 #include <limits.h>
 
@@ -10,6 +11,16 @@ std::string GetPath(const std::string& filename)
     return compiler.substr(0, pos);
 }
 
+bool SameName(std::string a, std::string b)
+{
+    if (caseInsensitive)
+    {
+	strlower(a);
+	strlower(b);
+    }
+    return a == b;
+}
+
 // TODO: Do we want a source location too?
 void InternalCompilerError(const char* file, int line, const std::string& msg)
 {
diff --git a/utils.h b/utils.h
index e23b3a1..cb708d7 100644
--- a/utils.h
+++ b/utils.h
@@ -9,6 +9,9 @@ inline void strlower(std::string& str)
     std::transform(str.begin(), str.end(), str.begin(), ::tolower);
 }
 
+// Compare two identifiers.
+bool SameName(std::string a, std::string b);
+
 std::string GetPath(const std::string& fileName);
 
 [[noreturn]] void InternalCompilerError(const char* file, int line, const std::string& msg);
-- 
2.43.0


From 5a51143f59df10b3bb803aa34b158896d93d4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 034/104] fix: writing a value of an enumeration subrange
 crashed the compiler

---
 expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 33c6a17..3c9f29d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3085,6 +3085,10 @@ llvm::Value* WriteAST::CodeGen()
 	    {
 		ICE_IF(arg.precision, "Expected no precision for types other than REAL");
 	    }
+	    if (auto rd = llvm::dyn_cast<Types::RangeDecl>(type))
+	    {
+		type = rd->SubType();
+	    }
 	    if (auto* etype = llvm::dyn_cast<Types::EnumDecl>(type))
 	    {
 		llvm::Value* e2s = MakeEnumToString(etype);
-- 
2.43.0


From 929487605419242e7588048b88403b9da1192a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 035/104] fix: copy, paramstr and binding corrupt the stack on
 32-bit x86

---
 builtin.cpp      | 33 ++++++++++++++++++++++++---------
 runtime/bind.c   | 14 ++++++--------
 runtime/params.c | 11 +++++------
 runtime/string.c |  7 +++----
 4 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index f86a5aa..31ee73c 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -449,6 +449,7 @@ namespace Builtin
     {
     public:
 	using FunctionFile::FunctionFile;
+	llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) override;
 	Types::TypeDecl* Type() const override { return Types::GetBindingType(); }
     };
 
@@ -1290,11 +1291,12 @@ namespace Builtin
 	    ;
 	}
 
-	std::vector<llvm::Type*> argTypes = { str->getType(), start->getType(), len->getType() };
-	llvm::Type*              strTy = Type()->LlvmType();
-	llvm::FunctionCallee     f = GetFunction(strTy, argTypes, "__StrCopy");
+	llvm::Value*             res = CreateTempAlloca(Type());
+	std::vector<llvm::Type*> argTypes = { res->getType(), str->getType(), start->getType(), len->getType() };
+	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__StrCopy");
 
-	return builder.CreateCall(f, { str, start, len }, "copy");
+	builder.CreateCall(f, { res, str, start, len });
+	return builder.CreateLoad(Type()->LlvmType(), res, "copy");
     }
 
     ErrorType FunctionCopy::Semantics()
@@ -1483,12 +1485,12 @@ namespace Builtin
     {
 	llvm::Value* n = args[0]->CodeGen();
 
-	std::vector<llvm::Type*> argTypes = { n->getType() };
-
-	llvm::FunctionType*  ft = llvm::FunctionType::get(Type()->LlvmType(), argTypes, false);
-	llvm::FunctionCallee f = theModule->getOrInsertFunction("__ParamStr", ft);
+	llvm::Value*             res = CreateTempAlloca(Type());
+	std::vector<llvm::Type*> argTypes = { res->getType(), n->getType() };
+	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__ParamStr");
 
-	return builder.CreateCall(f, n, "paramstr");
+	builder.CreateCall(f, { res, n });
+	return builder.CreateLoad(Type()->LlvmType(), res, "paramstr");
     }
 
     ErrorType FunctionParamstr::Semantics()
@@ -1709,6 +1711,19 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    llvm::Value* FunctionBinding::CodeGen(llvm::IRBuilder<>& builder)
+    {
+	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
+	ICE_IF(!fvar, "Should be a variable here");
+	llvm::Value*             faddr = fvar->Address();
+	llvm::Value*             res = CreateTempAlloca(Type());
+	std::vector<llvm::Type*> argTypes = { res->getType(), faddr->getType() };
+	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__" + name);
+
+	builder.CreateCall(f, { res, faddr });
+	return builder.CreateLoad(Type()->LlvmType(), res, "binding");
+    }
+
     llvm::Value* FunctionBind::CodeGen(llvm::IRBuilder<>& builder)
     {
 	auto fvar = llvm::dyn_cast<AddressableAST>(args[0]);
diff --git a/runtime/bind.c b/runtime/bind.c
index 16b94a2..01f1828 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -2,11 +2,10 @@
 #include <stdlib.h>
 #include <string.h>
 
-struct BindingType __binding(File* f)
+void __binding(struct BindingType* r, File* f)
 {
-    struct BindingType r;
-    r.Bound = false;
-    r.Name.len = 0;
+    r->Bound = false;
+    r->Name.len = 0;
     if (f->handle > 0 && f->handle < MaxPascalFiles)
     {
 	struct FileEntry* fe = &files[f->handle];
@@ -14,12 +13,11 @@ struct BindingType __binding(File* f)
 	{
 	    size_t len = strlen(fe->name);
 	    assert(len < 255);
-	    r.Name.len = len;
-	    memcpy(r.Name.str, fe->name, len);
-	    r.Bound = true;
+	    r->Name.len = len;
+	    memcpy(r->Name.str, fe->name, len);
+	    r->Bound = true;
 	}
     }
-    return r;
 }
 
 void __bind(File* f, struct BindingType* b)
diff --git a/runtime/params.c b/runtime/params.c
index c28b7a0..a87dbcb 100644
--- a/runtime/params.c
+++ b/runtime/params.c
@@ -4,20 +4,19 @@
 extern char** c_argv;
 extern int    c_argc;
 
-String __ParamStr(int n)
+void __ParamStr(String* res, int n)
 {
-    String s = { 0, "" };
-    if (n < c_argc)
+    res->len = 0;
+    if (n >= 0 && n < c_argc)
     {
 	size_t len = strlen(c_argv[n]);
 	if (len > 255)
 	{
 	    len = 255;
 	}
-	memcpy(s.str, c_argv[n], len);
-	s.len = len;
+	memcpy(res->str, c_argv[n], len);
+	res->len = len;
     }
-    return s;
 }
 
 int __ParamCount()
diff --git a/runtime/string.c b/runtime/string.c
index 3f53a5f..73e8e36 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -52,7 +52,7 @@ int __StrCompare(String* a, String* b)
 }
 
 /* Return substring of input */
-String __StrCopy(String* str, int start, int len)
+void __StrCopy(String* res, String* str, int start, int len)
 {
     assert(start >= 1);
     assert(len >= 0);
@@ -70,9 +70,8 @@ String __StrCopy(String* str, int start, int len)
 	}
     }
 
-    String result = { len, "" };
-    memcpy(result.str, &str->str[start - 1], len);
-    return result;
+    res->len = len;
+    memcpy(res->str, &str->str[start - 1], len);
 }
 
 /* Return "trimmed" string - remove leading and trailing spaces */
-- 
2.43.0


From 1c1f1c4740a4e650052bb9d861a0f95e67ad5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 036/104] fix: writing an enumeration value with -m32 crashed
 the compiler

---
 types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index 7fead0f..e4dd932 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1,5 +1,6 @@
 #include "types.h"
 #include "expr.h"
+#include "options.h"
 #include "runtime/runtime.h"
 #include "schema.h"
 #include "trace.h"
@@ -1545,7 +1546,8 @@ namespace Types
 		new FieldDecl("offset", new ArrayDecl(Get<IntegerDecl>(), r), false)
 	    };
 	    enum2strType = new RecordDecl(fields, nullptr);
-	    ICE_IF(sizeof(EnumToString) != enum2strType->Size(),
+	    // The runtime structure has a pointer, so the host can only check the size of its own kind.
+	    ICE_IF(model == m64 && sizeof(EnumToString) != enum2strType->Size(),
 	           "Runtime and EnumToString type should match in size");
 	}
 	return enum2strType;
-- 
2.43.0


From e16a49a2238c83fe9d6c6c43de8a7e13bc242123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 037/104] fix: writing the char array result of a function
 crashed the compiler

---
 expr.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 3c9f29d..1bb65b7 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3030,9 +3030,7 @@ llvm::Value* WriteAST::CodeGen()
 		}
 		else
 		{
-		    auto a = llvm::dyn_cast<AddressableAST>(arg.expr);
-		    ICE_IF(!a, "Expected addressable value");
-		    v = a->Address();
+		    v = MakeAddressable(arg.expr);
 		    v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_addr");
 		}
 		argsV.push_back(v);
-- 
2.43.0


From ee6983c235d8401c449fd744911a33432072cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 038/104] fix: assigning to a string overwrites what follows
 when the value is longer than the capacity

---
 expr.cpp         | 18 +++++++++++++++---
 runtime/string.c |  6 +++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 1bb65b7..6555089 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -822,6 +822,15 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
     return Error(e, "Unable to convert to temporary string");
 }
 
+// Copy as much of the string src as there is room for in dest.
+static llvm::Value* MakeStrAssign(llvm::Value* dest, llvm::Value* src, size_t capacity)
+{
+    llvm::Value*         cap = MakeIntegerConstant(capacity);
+    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+                                         { dest->getType(), src->getType(), cap->getType() }, "__StrAssign");
+    return builder.CreateCall(f, { dest, src, cap });
+}
+
 llvm::Value* CallStrFunc(const std::string& name, ExprAST* lhs, ExprAST* rhs, Types::TypeDecl* resTy,
                          const std::string& twine)
 {
@@ -2295,14 +2304,17 @@ llvm::Value* AssignExprAST::AssignStr()
     ICE_IF(!lhsv, "Expect variable in lhs");
     ICE_IF(!llvm::isa<Types::StringDecl>(lhsv->Type()), "Expect string type in lhsv->Type()");
 
-    if (auto srhs = llvm::dyn_cast<StringExprAST>(rhs))
+    size_t capacity = llvm::cast<Types::StringDecl>(lhsv->Type())->Capacity();
+    auto   srhs = llvm::dyn_cast<StringExprAST>(rhs);
+    if (srhs && srhs->Str().size() <= capacity)
     {
 	llvm::Value* dest = lhsv->Address();
 	return TempStringFromStringExpr(dest, srhs);
     }
 
-    ICE_IF(!llvm::isa<Types::StringDecl>(rhs->Type()), "Expect string for rhs expression");
-    return CallStrFunc("Assign", lhs, rhs, Types::Get<Types::VoidDecl>(), "");
+    ICE_IF(!srhs && !llvm::isa<Types::StringDecl>(rhs->Type()), "Expect string for rhs expression");
+    llvm::Value* src = MakeStringFromExpr(rhs, rhs->Type());
+    return MakeStrAssign(lhsv->Address(), src, capacity);
 }
 
 llvm::Value* AssignExprAST::AssignSet()
diff --git a/runtime/string.c b/runtime/string.c
index 73e8e36..748b7fc 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -21,10 +21,10 @@ void __StrConcat(String* res, String* a, String* b)
     memcpy(&res->str[a->len], b->str, blen);
 }
 
-/* Assign string b to string a. */
-void __StrAssign(String* a, String* b)
+/* Assign string b to string a, which has room for capacity characters. */
+void __StrAssign(String* a, String* b, int capacity)
 {
-    a->len = b->len;
+    a->len = (b->len > capacity) ? capacity : b->len;
     memcpy(a->str, b->str, a->len);
 }
 
-- 
2.43.0


From 4a8c7415e99aa1c74f1b8302012ade459fa9995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 039/104] fix: a string passed by value to a parameter of
 another capacity is read or left with the wrong size

---
 expr.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 6555089..54d25c4 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1618,6 +1618,13 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		    v = i->CodeGen();
 		    ICE_IF(!v, "Expected CodeGen to work");
 		}
+		auto sd = llvm::dyn_cast<Types::StringDecl>(vdef[index].Type());
+		if (sd && llvm::isa<Types::StringDecl>(i->Type()))
+		{
+		    // The argument may have another capacity than the parameter.
+		    v = CreateTempAlloca(sd);
+		    MakeStrAssign(v, MakeAddressable(i), sd->Capacity());
+		}
 		if (!v)
 		{
 		    if (IsCompound(i->Type()))
@@ -1630,16 +1637,8 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			{
 			    llvm::Value* x = i->CodeGen();
 			    ICE_IF(!x, "Expected CodeGen to work");
-			    if (llvm::isa<Types::StringDecl>(i->Type()) && x->getType()->isPointerTy())
-			    {
-				// String concatenation already gives the address of a temporary.
-				v = x;
-			    }
-			    else
-			    {
-				v = CreateTempAlloca(i->Type());
-				builder.CreateStore(x, v);
-			    }
+			    v = CreateTempAlloca(i->Type());
+			    builder.CreateStore(x, v);
 			}
 		    }
 		    else
-- 
2.43.0


From 3ca92cee5ffaeaeb8ec86efd6a0e676663048fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 040/104] fix: writestr overwrites what follows a string
 shorter than 255 characters

---
 expr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 54d25c4..0be068d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3002,17 +3002,20 @@ llvm::Value* WriteAST::CodeGen()
     BasicDebugInfo(this);
 
     llvm::Value* dst = dest->Address();
+    llvm::Value* str = dst;
     llvm::Value* v = 0;
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
     bool         isText = kind == WriteKind::WriteStr || llvm::isa<Types::TextDecl>(dest->Type());
     llvm::Type*  dstTy = dst->getType();
     if (kind == WriteKind::WriteStr)
     {
+	// The arguments may use the string, and it may be shorter than what is written.
+	dst = CreateTempAlloca(Types::Get<Types::StringDecl>(255));
 	llvm::FunctionCallee fc = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy },
 	                                      "__write_S_init");
 	v = builder.CreateCall(fc, { dst });
     }
-    if (kind != WriteKind::WriteLn && args.empty())
+    if (kind == WriteKind::Write && args.empty())
     {
 	return NoOpValue();
     }
@@ -3118,6 +3121,10 @@ llvm::Value* WriteAST::CodeGen()
 	                                      "__write_nl");
 	v = builder.CreateCall(fc, dst);
     }
+    if (kind == WriteKind::WriteStr)
+    {
+	v = MakeStrAssign(str, dst, llvm::cast<Types::StringDecl>(dest->Type())->Capacity());
+    }
     return v;
 }
 
-- 
2.43.0


From a0b9337bc1ac5965ad3848c7951b9e2a04cccbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 041/104] fix: read and readstr overrun strings shorter than
 255 characters and char arrays

---
 expr.cpp       | 14 ++++++++++++++
 runtime/read.c | 32 ++++++++++++++++----------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 0be068d..4f4b341 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3191,10 +3191,12 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     else if (llvm::isa<Types::StringDecl>(ty))
     {
 	suffix = "str";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else if (IsCharArray(ty))
     {
 	suffix = "chars";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else
     {
@@ -3254,6 +3256,18 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	if (isText)
+	{
+	    // How many characters there is room for.
+	    if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+	    {
+		argsV.push_back(MakeIntegerConstant(sd->Capacity()));
+	    }
+	    else if (IsCharArray(ty))
+	    {
+		argsV.push_back(MakeIntegerConstant(ty->Size()));
+	    }
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
 	v = builder.CreateCall(fn, argsV, "");
diff --git a/runtime/read.c b/runtime/read.c
index d69cd27..c6624e4 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -145,10 +145,10 @@ static int str_get_text(struct interface* intf)
 {
     if (intf->strpos == intf->str->len)
     {
-	return EOF;
+	return 0;
     }
     intf->strpos++;
-    return str_current(intf);
+    return 1;
 }
 
 static int str_eof(struct interface* intf)
@@ -468,14 +468,14 @@ void __read_nl(File* file)
     }
 }
 
-static void readstr(struct interface* intf, String* v)
+static void readstr(struct interface* intf, String* v, int capacity)
 {
-    char   buffer[256];
-    size_t count = 0;
+    char buffer[MaxStringLen];
+    int  count = 0;
 
     intf->fnpreread(intf);
 
-    while (!intf->fneoln(intf) && count < sizeof(buffer))
+    while (!intf->fneoln(intf) && count < capacity)
     {
 	buffer[count++] = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -487,7 +487,7 @@ static void readstr(struct interface* intf, String* v)
     memcpy(v->str, buffer, count);
 }
 
-void __read_str(File* file, String* v)
+void __read_str(File* file, String* v, int capacity)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -497,21 +497,21 @@ void __read_str(File* file, String* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readstr(&intf, v);
+    readstr(&intf, v, capacity);
 }
 
-void __read_S_str(String* str, String* v)
+void __read_S_str(String* str, String* v, int capacity)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readstr(intf, v);
+    readstr(intf, v, capacity);
 }
 
-static void readchars(struct interface* intf, char* v)
+static void readchars(struct interface* intf, char* v, int size)
 {
     intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
+    while (size-- > 0 && !intf->fneoln(intf))
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -521,7 +521,7 @@ static void readchars(struct interface* intf, char* v)
     }
 }
 
-void __read_chars(File* file, char* v)
+void __read_chars(File* file, char* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -530,15 +530,15 @@ void __read_chars(File* file, char* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readchars(&intf, v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readchars(intf, v, size);
 }
 
 static void upstr(char* s)
-- 
2.43.0


From 02c7253b0ccb9192fa0fce99a8b13a87e42d5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 042/104] fix: comparing char arrays of different sizes crashed
 the compiler

---
 semantics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantics.cpp b/semantics.cpp
index 0c34f9f..deb5a10 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -266,6 +266,12 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    b->lhs = Recast(b->lhs, ty);
 	    return Types::Get<Types::BoolDecl>();
 	}
+	if (Types::IsCharArray(lty) && Types::IsCharArray(rty) && lty->Size() != rty->Size() &&
+	    !(llvm::isa<StringExprAST>(b->lhs) && llvm::isa<StringExprAST>(b->rhs)))
+	{
+	    Error(b, "Compared character arrays have different sizes");
+	    return Types::Get<Types::BoolDecl>();
+	}
     }
 
     switch (op)
-- 
2.43.0


From d8b4ef0d969cc3e122a1a35d53b6892dc6fd81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 043/104] fix: concatenating a char array and a char crashed
 the compiler

---
 expr.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 4f4b341..db06ea4 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1421,13 +1421,13 @@ llvm::Value* BinaryExprAST::CodeGen()
 
     ICE_IF(!lhs->Type() || !rhs->Type(), "Huh? Both sides of expression should have type");
 
-    if (BothStringish(lhs, rhs))
+    if (oper.GetToken() == Token::Plus && Types::IsStringLike(lhs->Type()) && Types::IsStringLike(rhs->Type()))
     {
-	if (oper.GetToken() == Token::Plus)
-	{
-	    return CallStrCat(lhs, rhs);
-	}
+	return CallStrCat(lhs, rhs);
+    }
 
+    if (BothStringish(lhs, rhs))
+    {
 	// We don't need to do this of both sides are char - then it's just a simple comparison
 	if (!llvm::isa<Types::CharDecl>(lhs->Type()) || !llvm::isa<Types::CharDecl>(rhs->Type()))
 	{
-- 
2.43.0


From 258fbde04d4f068c7553d1453adb7770ea37e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 044/104] fix: copy and paramstr take very long to compile when
 loaded as a value

---
 builtin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 31ee73c..adf87ea 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1296,7 +1296,7 @@ namespace Builtin
 	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__StrCopy");
 
 	builder.CreateCall(f, { res, str, start, len });
-	return builder.CreateLoad(Type()->LlvmType(), res, "copy");
+	return res;
     }
 
     ErrorType FunctionCopy::Semantics()
@@ -1490,7 +1490,7 @@ namespace Builtin
 	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__ParamStr");
 
 	builder.CreateCall(f, { res, n });
-	return builder.CreateLoad(Type()->LlvmType(), res, "paramstr");
+	return res;
     }
 
     ErrorType FunctionParamstr::Semantics()
-- 
2.43.0


From ee3d22d0a63f893f234d73c3de40240e3b73ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 045/104] fix: a character with code 255 in a text file is
 taken for the end of the file

---
 runtime/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index c6624e4..42a1268 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -19,7 +19,7 @@ static int read_chunk_text(struct FileEntry* f)
 	if (f->readPos != f->bufferSize)
 	{
 	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
+	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
 	int n;
@@ -30,7 +30,7 @@ static int read_chunk_text(struct FileEntry* f)
 		f->bufferSize = n;
 		f->readAhead = 1;
 		f->readPos = 1;
-		return *file->buffer;
+		return (unsigned char)*file->buffer;
 	    }
 	}
     }
@@ -99,7 +99,7 @@ struct interface
 
 static int file_current(struct interface* intf)
 {
-    return *intf->file->buffer;
+    return (unsigned char)*intf->file->buffer;
 }
 
 static int file_get_text(struct interface* intf)
-- 
2.43.0


From 7e00127ac30ba067a904c73a23e3a3daf7bdfd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 046/104] fix: a nested routine using a conformant array of its
 parent crashed the compiler

---
 callgraph.cpp | 13 +++++++++++++
 expr.h        |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/callgraph.cpp b/callgraph.cpp
index 8554a11..0ebef4f 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -153,6 +153,11 @@ public:
 	    ICE_IF(v->Name().empty(), "Expect a name");
 	    uses.insert(v->Name());
 	}
+	if (auto d = llvm::dyn_cast<DynArrayExprAST>(a))
+	{
+	    uses.insert(d->Range()->LowName());
+	    uses.insert(d->Range()->HighName());
+	}
 	if (auto c = llvm::dyn_cast<CallExprAST>(a))
 	{
 	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
@@ -195,6 +200,14 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
 	AddVarDecls({ VarDef(f->Proto()->Name(), f->Proto()->Type()) }, f);
     }
     AddVarDecls(f->Proto()->Args(), f);
+    for (const auto& arg : f->Proto()->Args())
+    {
+	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(arg.Type()))
+	{
+	    Types::DynRangeDecl* dr = dty->Range();
+	    AddVarDecls({ VarDef(dr->LowName(), dr->SubType()), VarDef(dr->HighName(), dr->SubType()) }, f);
+	}
+    }
     useMap[f] = collector.uses;
     callMap[f] = collector.calls;
 }
diff --git a/expr.h b/expr.h
index 45b0743..529e731 100644
--- a/expr.h
+++ b/expr.h
@@ -317,6 +317,8 @@ public:
     llvm::Value* Address() override;
     void         accept(ASTVisitor& v) override;
 
+    Types::DynRangeDecl* Range() const { return range; }
+
 private:
     ExprAST*             expr;
     ExprAST*             index;
-- 
2.43.0


From b2fc06472889b2ec3825f2a229bdc0caf8c7dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 047/104] fix: halt, panic, copy and paramstr with arguments
 that are not plain integers or literals

---
 builtin.cpp     | 23 ++++++++++++++++-------
 runtime/panic.c |  7 +++++++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index adf87ea..0ad988d 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -945,6 +945,13 @@ namespace Builtin
 	return builder.CreateCall(f, { args[0]->CodeGen() });
     }
 
+    // Value of an argument passed to a C function that takes an int.
+    static llvm::Value* IntegerArg(ExprAST* e, llvm::IRBuilder<>& builder)
+    {
+	return builder.CreateIntCast(e->CodeGen(), Types::Get<Types::IntegerDecl>()->LlvmType(),
+	                             !IsUnsigned(e->Type()));
+    }
+
     ErrorType FunctionHalt::Semantics()
     {
 	if (args.size() > 1)
@@ -963,7 +970,7 @@ namespace Builtin
 	llvm::Value* v = MakeIntegerConstant(0);
 	if (args.size() == 1)
 	{
-	    v = args[0]->CodeGen();
+	    v = IntegerArg(args[0], builder);
 	}
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
@@ -1278,7 +1285,7 @@ namespace Builtin
     llvm::Value* FunctionCopy::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Value* start = IntegerArg(args[1], builder);
 
 	llvm::Value* len;
 	if (args.size() == 2)
@@ -1287,8 +1294,7 @@ namespace Builtin
 	}
 	else
 	{
-	    len = args[2]->CodeGen();
-	    ;
+	    len = IntegerArg(args[2], builder);
 	}
 
 	llvm::Value*             res = CreateTempAlloca(Type());
@@ -1384,9 +1390,12 @@ namespace Builtin
 
     llvm::Value* FunctionPanic::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value*         message = args[0]->CodeGen();
+	// A literal is passed as it is, other values as a string with a length.
+	bool                 literal = llvm::isa<StringExprAST>(args[0]);
+	llvm::Value*         message = literal ? args[0]->CodeGen() : MakeStringFromExpr(args[0], args[0]->Type());
 	llvm::Type*          ty = message->getType();
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty }, "__Panic");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty },
+	                                     literal ? "__Panic" : "__PanicStr");
 
 	return builder.CreateCall(f, { message });
     }
@@ -1483,7 +1492,7 @@ namespace Builtin
 
     llvm::Value* FunctionParamstr::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* n = args[0]->CodeGen();
+	llvm::Value* n = IntegerArg(args[0], builder);
 
 	llvm::Value*             res = CreateTempAlloca(Type());
 	std::vector<llvm::Type*> argTypes = { res->getType(), n->getType() };
diff --git a/runtime/panic.c b/runtime/panic.c
index ac0079b..3a12bf5 100644
--- a/runtime/panic.c
+++ b/runtime/panic.c
@@ -1,3 +1,4 @@
+#include "runtime.h"
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -6,3 +7,9 @@ void __Panic(const char* msg)
     fprintf(stderr, "%s\n", msg);
     exit(11);
 }
+
+void __PanicStr(const String* msg)
+{
+    fprintf(stderr, "%.*s\n", msg->len, msg->str);
+    exit(11);
+}
-- 
2.43.0


From ad2032033976c30e8c6ba31d7e4fb83af8eab37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 048/104] fix: character 255 in a source file was taken for the
 end of the file

---
 source.cpp | 4 ++--
 source.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..0b0fa59 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,7 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +21,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int  Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
-- 
2.43.0


From d36f79913380017e70cdce4a1e79b9b26cab68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 049/104] fix: comments directly after each other were
 rejected, char constants above 127 were negative

---
 lexer.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 249a9fc..6712a75 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -228,7 +228,7 @@ Token Lexer::StringToken()
     NextChar();
     if (str.size() == 1)
     {
-	return Token(Token::Char, w, (uint64_t)str[0]);
+	return Token(Token::Char, w, (uint64_t)(unsigned char)str[0]);
     }
     return Token(Token::StringLiteral, w, str);
 }
@@ -252,20 +252,20 @@ Token Lexer::GetToken()
     int             ch = CurChar();
     const Location& w = Where();
 
-    do
+    // Skip white space and comments.
+    for (;;)
     {
-	while (isspace(ch))
+	if (isspace(ch))
 	{
 	    ch = NextChar();
 	}
-
-	if (ch == '{')
+	else if (ch == '{')
 	{
 	    while ((ch = NextChar()) != EOF && ch != '}')
 		;
 	    ch = NextChar();
 	}
-	if (ch == '(' && PeekChar() == '*')
+	else if (ch == '(' && PeekChar() == '*')
 	{
 	    NextChar(); /* Skip first * */
 	    while ((ch = NextChar()) != EOF && !(ch == '*' && PeekChar() == ')'))
@@ -274,15 +274,18 @@ Token Lexer::GetToken()
 	    ch = NextChar();
 	}
 	// C++ style comments.
-	if (ch == '/' && PeekChar() == '/')
+	else if (ch == '/' && PeekChar() == '/')
 	{
 	    do
 	    {
 		ch = NextChar();
 	    } while (ch != '\n' && ch != EOF);
 	}
-
-    } while (isspace(ch));
+	else
+	{
+	    break;
+	}
+    }
 
     // EOF -> return now...
     if (ch == EOF)
-- 
2.43.0


From b7655b6335e521286e34a8c171756a2bdd45f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 050/104] fix: the interface of a unit could not declare
 constants

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index dd21b4e..f6e311a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4523,6 +4523,10 @@ bool Parser::ParseInterface(InterfaceList& iList)
 	    ParseTypeDef();
 	    break;
 
+	case Token::Const:
+	    ParseConstDef();
+	    break;
+
 	case Token::Uses:
 	{
 	    if (ExprAST* e = ParseUses())
-- 
2.43.0


From cb12bff1392957822af2cc5b9f2698f2260366f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 051/104] fix: a unit used twice was compiled twice, private
 names of units clashed, circular uses never ended

---
 expr.cpp   | 34 ++++++++++++++++++++++++++++++++++
 parser.cpp | 34 ++++++++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index db06ea4..a65b00c 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -81,6 +81,8 @@ static llvm::IRBuilder<>         builder(theContext);
 static int                       errCnt;
 static std::vector<VTableAST*>   vtableBackPatchList;
 static std::vector<FunctionAST*> unitInit;
+// The exported variables of units.
+static std::map<const NamedObject*, llvm::Value*> unitVariables;
 
 // Debug stack. We just use push_back and pop_back to make it like a stack.
 static std::vector<DebugInfo*> debugStack;
@@ -1882,6 +1884,12 @@ llvm::Function* PrototypeAST::Create(const std::string& namePrefix)
 	    actualName += baseobj->Name() + "$";
 	}
 	actualName += name;
+	// Units may have routines of the same name in their implementation.
+	const std::string baseName = actualName;
+	for (unsigned n = 1; theModule->getFunction(actualName); n++)
+	{
+	    actualName = baseName + "." + std::to_string(n);
+	}
     }
 
     llvmFunc = CreateFunction(actualName, args, type);
@@ -3422,6 +3430,12 @@ llvm::Value* VarDeclAST::CodeGen()
     llvm::Value* v = 0;
     for (auto var : vars)
     {
+	// Every unit declares input and output, but there is only one of each.
+	if (llvm::Value* existing = (!func && var.IsExternal()) ? variables.Find(var.Name()) : nullptr)
+	{
+	    v = existing;
+	    continue;
+	}
 	// Are we declaring global variables  - no function!
 	if (!func)
 	{
@@ -4374,6 +4388,8 @@ llvm::Value* UnitAST::CodeGen()
 	debugStack.push_back(&di);
     }
 
+    // The variables of the implementation part are only known in the unit.
+    variables.NewLevel();
     for (auto a : code)
     {
 	ICE_IF(!a->CodeGen(), "Failed to generate code for unit body");
@@ -4386,6 +4402,24 @@ llvm::Value* UnitAST::CodeGen()
 	    unitInit.push_back(initFunc);
 	}
     }
+    std::vector<std::pair<std::string, llvm::Value*>> exported;
+    for (auto i : interfaceList.List())
+    {
+	if (llvm::Value* v = variables.FindTopLevel(i.first))
+	{
+	    unitVariables[i.second] = v;
+	}
+	// Also found when an earlier use of the unit generated the code.
+	if (auto it = unitVariables.find(i.second); it != unitVariables.end())
+	{
+	    exported.push_back({ i.first, it->second });
+	}
+    }
+    variables.DropLevel();
+    for (auto i : exported)
+    {
+	variables.Add(i.first, i.second);
+    }
     if (debugInfo)
     {
 	debugStack.pop_back();
diff --git a/parser.cpp b/parser.cpp
index f6e311a..465d007 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4467,6 +4467,9 @@ bool Parser::ParseProgram(ParserType type)
 ExprAST* Parser::ParseUses()
 {
     AssertToken(Token::Uses);
+    // Units that have been used, null while it is being parsed.
+    static std::map<std::string, UnitAST*> units;
+
     std::string unitname = GetIdentifier(ExpectConsume);
     if (!unitname.empty())
     {
@@ -4484,23 +4487,38 @@ ExprAST* Parser::ParseUses()
 	    strlower(unitname);
 	    std::string path = GetPath(CurrentToken().Loc().FileName());
 	    std::string fileName = path + "/" + unitname + ".pas";
-	    FileSource  source(fileName);
-	    if (!source)
+	    ExprAST*    e = 0;
+	    if (auto it = units.find(fileName); it != units.end())
 	    {
-		return Error("Could not open " + fileName);
+		if (!it->second)
+		{
+		    return Error("Unit " + unitname + " uses itself or failed to compile");
+		}
+		// All users share the same unit, the code belongs to the first one.
+		e = new UnitAST(CurrentToken().Loc(), {}, 0, it->second->Interface());
+	    }
+	    else
+	    {
+		FileSource source(fileName);
+		if (!source)
+		{
+		    return Error("Could not open " + fileName);
+		}
+		units[fileName] = 0;
+		Parser p(source);
+		e = p.Parse(ParserType::Unit);
+		errCnt += p.GetErrors();
+		units[fileName] = llvm::dyn_cast_or_null<UnitAST>(e);
 	    }
-	    Parser   p(source);
-	    ExprAST* e = p.Parse(ParserType::Unit);
-	    errCnt += p.GetErrors();
 	    if (Expect(Token::Semicolon, ExpectConsume))
 	    {
 		if (auto ua = llvm::dyn_cast_or_null<UnitAST>(e))
 		{
 		    for (auto i : ua->Interface().List())
 		    {
-			if (!nameStack.Add(i.second))
+			if (!nameStack.Add(i.second) && nameStack.FindTopLevel(i.first) != i.second)
 			{
-			    return 0;
+			    return Error("Name '" + i.first + "' from unit " + unitname + " already exists.");
 			}
 		    }
 		}
-- 
2.43.0


From eb681cd758ac1c1dec86508578fa5fac25038bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 052/104] fix: objects in arrays and records had no vtable,
 routines and methods used before their body crashed the compiler

---
 builtin.cpp |  12 +-----
 expr.cpp    | 109 ++++++++++++++++++++++++++++++++++++++++++----------
 expr.h      |   2 +
 parser.cpp  |   9 ++---
 4 files changed, 94 insertions(+), 38 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 0ad988d..ad266cb 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -910,17 +910,7 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
-	// TODO: We need to recursively process the type here, and construct vtables for all
-	// of the elements that are classes (that have VTables).
-	if (auto cd = llvm::dyn_cast<Types::ClassDecl>(elemTy))
-	{
-	    if (cd->VTableType(Types::Opaque))
-	    {
-		llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-		llvm::Value* dest = builder.CreateGEP(voidTy, retVal, MakeIntegerConstant(0), "vtable");
-		builder.CreateStore(gv, dest);
-	    }
-	}
+	InitializeObjects(elemTy, retVal);
 	return builder.CreateStore(retVal, pA);
     }
 
diff --git a/expr.cpp b/expr.cpp
index a65b00c..b1825d2 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -81,6 +81,7 @@ static llvm::IRBuilder<>         builder(theContext);
 static int                       errCnt;
 static std::vector<VTableAST*>   vtableBackPatchList;
 static std::vector<FunctionAST*> unitInit;
+static std::map<const Types::ClassDecl*, llvm::GlobalVariable*> vtables;
 // The exported variables of units.
 static std::map<const NamedObject*, llvm::Value*> unitVariables;
 
@@ -658,6 +659,11 @@ llvm::Value* FunctionExprAST::CodeGen()
     ICE_IF(!proto->Function(), "Expected a function!");
 
     BasicDebugInfo(this);
+    // A member function may be used before its body.
+    if (!proto->LlvmFunction() && !proto->Function()->Parent())
+    {
+	return proto->Function()->Proto()->Create("P");
+    }
     return proto->LlvmFunction();
 }
 
@@ -3306,6 +3312,81 @@ void VarDeclAST::DoDump() const
     }
 }
 
+static llvm::GlobalVariable* VTable(const Types::ClassDecl* cd)
+{
+    auto it = vtables.find(cd);
+    ICE_IF(it == vtables.end(), "Expected class to have a vtable");
+    return it->second;
+}
+
+// Returns a constant of type ty with the vtables of all objects within it filled in, or null if there are none.
+static llvm::Constant* ObjectInitializer(const Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	if (llvm::Constant* c = ObjectInitializer(ad->SubType()))
+	{
+	    auto aty = llvm::cast<llvm::ArrayType>(ad->LlvmType());
+	    return llvm::ConstantArray::get(aty, std::vector<llvm::Constant*>(aty->getNumElements(), c));
+	}
+	return 0;
+    }
+    auto fc = llvm::dyn_cast<Types::FieldCollection>(ty);
+    if (!fc || !llvm::isa<Types::RecordDecl, Types::ClassDecl>(fc))
+    {
+	return 0;
+    }
+    auto           cd = llvm::dyn_cast<Types::ClassDecl>(fc);
+    const unsigned first = (cd && cd->VTableType(Types::Opaque)) ? 1 : 0;
+    bool           found = false;
+
+    std::vector<llvm::Constant*> values;
+    if (first)
+    {
+	values.push_back(VTable(cd));
+	found = true;
+    }
+    for (int i = 0; i < fc->FieldCount(); i++)
+    {
+	const Types::FieldDecl* f = fc->GetElement(i + first);
+	if (f->IsStatic())
+	{
+	    continue;
+	}
+	llvm::Constant* c = ObjectInitializer(f->SubType());
+	found |= !!c;
+	values.push_back(c);
+    }
+    if (!found)
+    {
+	return 0;
+    }
+    fc->EnsureSized();
+    auto sty = llvm::cast<llvm::StructType>(fc->LlvmType());
+    values.resize(sty->getNumElements());
+    for (unsigned i = 0; i < values.size(); i++)
+    {
+	if (!values[i])
+	{
+	    values[i] = llvm::Constant::getNullValue(sty->getElementType(i));
+	}
+    }
+    return llvm::ConstantStruct::get(sty, values);
+}
+
+bool InitializeObjects(const Types::TypeDecl* ty, llvm::Value* dest)
+{
+    llvm::Constant* init = ObjectInitializer(ty);
+    if (!init)
+    {
+	return false;
+    }
+    auto gv = new llvm::GlobalVariable(*theModule, init->getType(), true, llvm::GlobalValue::PrivateLinkage,
+                                       init, "objects");
+    builder.CreateMemCpy(dest, llvm::MaybeAlign(), gv, llvm::MaybeAlign(), ty->Size());
+    return true;
+}
+
 llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 {
     llvm::Type*  ty = var.Type()->LlvmType();
@@ -3318,20 +3399,9 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     ICE_IF(!ty, "Type should have a value");
     llvm::Constant*   init;
     llvm::Constant*   nullValue = llvm::Constant::getNullValue(ty);
-    Types::ClassDecl* cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
-    {
-	llvm::GlobalVariable*        gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	auto                         sty = llvm::dyn_cast<llvm::StructType>(ty);
-	std::vector<llvm::Constant*> vtable(sty->getNumElements());
-	vtable[0] = gv;
-	unsigned i = 1;
-	while (llvm::Constant* c = nullValue->getAggregateElement(i))
-	{
-	    vtable[i] = c;
-	    i++;
-	}
-	init = llvm::ConstantStruct::get(sty, vtable);
+    if (llvm::Constant* objects = ObjectInitializer(var.Type()))
+    {
+	init = objects;
     }
     else if (ExprAST* iv = var.Init())
     {
@@ -3376,13 +3446,9 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
-    auto         cd = llvm::dyn_cast<Types::ClassDecl>(var.Type());
-    if (cd && cd->VTableType(Types::Opaque))
+    if (InitializeObjects(var.Type(), v))
     {
-	llvm::GlobalVariable* gv = theModule->getGlobalVariable("vtable_" + cd->Name(), true);
-	llvm::Type*           ty = Types::GetVoidPtrType();
-	llvm::Value*          dest = builder.CreateGEP(ty, v, MakeIntegerConstant(0), "vtable");
-	builder.CreateStore(gv, dest);
+	// The vtables are all there is to initialise.
     }
     else if (ExprAST* iv = var.Init())
     {
@@ -4263,6 +4329,7 @@ llvm::Value* VTableAST::CodeGen()
     std::string     name = "vtable_" + classDecl->Name();
     llvm::Constant* init = (vtInit.size()) ? llvm::ConstantStruct::get(ty, vtInit) : 0;
     vtable = new llvm::GlobalVariable(*theModule, ty, true, llvm::Function::InternalLinkage, init, name);
+    vtables[classDecl] = vtable;
     if (!init)
     {
 	vtableBackPatchList.push_back(this);
@@ -4278,7 +4345,7 @@ std::vector<llvm::Constant*> VTableAST::GetInitializer()
 	Types::MemberFuncDecl* m = classDecl->GetMembFunc(i);
 	if (m->IsVirtual() || m->IsOverride())
 	{
-	    if (llvm::Constant* c = theModule->getFunction("P." + m->LongName()))
+	    if (llvm::Constant* c = m->Proto()->LlvmFunction())
 	    {
 		vtInit[m->VirtIndex()] = c;
 	    }
diff --git a/expr.h b/expr.h
index 529e731..ca96a54 100644
--- a/expr.h
+++ b/expr.h
@@ -1138,6 +1138,8 @@ llvm::Constant*      MakeConstant(uint64_t val, Types::TypeDecl* ty);
 llvm::Value*         MakeAddressable(ExprAST* e);
 llvm::Value*         MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty);
 void                 BackPatch();
+// Sets up the vtables of the objects within dest, returns false if there are none.
+bool                 InitializeObjects(const Types::TypeDecl* ty, llvm::Value* dest);
 llvm::FunctionCallee GetFunction(llvm::Type* resTy, const std::vector<llvm::Type*>& args,
                                  const std::string& name);
 ExprAST*             Recast(ExprAST* a, const Types::TypeDecl* ty);
diff --git a/parser.cpp b/parser.cpp
index 465d007..464a25c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1982,16 +1982,11 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     std::vector<Types::MemberFuncDecl*> mf;
     std::vector<VarDef>                 vars;
-    bool                                needVtable = false;
     for (auto f = fields.begin(); f != fields.end();)
     {
 	if (auto m = llvm::dyn_cast<Types::MemberFuncDecl>((*f)->SubType()))
 	{
 	    mf.push_back(m);
-	    if (m->IsVirtual() || m->IsOverride())
-	    {
-		needVtable = true;
-	    }
 	    f = fields.erase(f);
 	}
 	else
@@ -2011,7 +2006,7 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
     auto cd = new Types::ClassDecl(name, fields, mf, variant, base);
     // For now, we generate vtable whether we need it or not.
-    if (needVtable)
+    if (cd->NumVirtFuncs())
     {
 	ast.push_back(new VTableAST(loc, cd));
     }
@@ -4574,6 +4569,8 @@ bool Parser::ParseInterface(InterfaceList& iList)
 	    {
 		return ErrorT(bool, "Interface name '" + name + "' already exists in...");
 	    }
+	    // The implementation part may use it before it has its body.
+	    ast.push_back(new FunctionAST(CurrentToken().Loc(), proto, {}, 0));
 	}
 	break;
 
-- 
2.43.0


From 00561df53d8aa7efc5062732af19cd5fd2b1e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 053/104] fix: static fields shifted the fields after them,
 assigning or passing an object of a derived class changed the class

---
 expr.cpp   | 48 +++++++++++++++++++++++++++++++++---------------
 parser.cpp | 10 ++++++++--
 types.cpp  |  5 +++++
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index b1825d2..cbd70ef 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1864,6 +1864,13 @@ static llvm::Function* CreateFunction(const std::string& name, const std::vector
     return llvmFunc;
 }
 
+static llvm::GlobalVariable* VTable(const Types::ClassDecl* cd)
+{
+    auto it = vtables.find(cd);
+    ICE_IF(it == vtables.end(), "Expected class to have a vtable");
+    return it->second;
+}
+
 llvm::Function* PrototypeAST::Create(const std::string& namePrefix)
 {
     TRACE();
@@ -1965,6 +1972,12 @@ void PrototypeAST::CreateArgumentAlloca()
 	    a = CreateAlloca(llvmFunc, args[idx]);
 	    builder.CreateStore(&*ai, a);
 	}
+	auto cd = llvm::dyn_cast<Types::ClassDecl>(args[idx].Type());
+	if (cd && !args[idx].IsRef() && cd->VTableType(Types::Opaque))
+	{
+	    // The argument may be an object of a derived class, of which only the base is passed.
+	    builder.CreateStore(VTable(cd), a);
+	}
 	if (!variables.Add(args[idx].Name(), a))
 	{
 	    Error(this, "Duplicate variable name " + args[idx].Name());
@@ -1998,6 +2011,7 @@ void PrototypeAST::CreateArgumentAlloca()
     if (!llvm::isa<Types::VoidDecl>(type))
     {
 	llvm::AllocaInst* a = CreateAlloca(llvmFunc, VarDef(resname, type));
+	InitializeObjects(type, a);
 	if (!variables.Add(resname, a))
 	{
 	    Error(this, "Duplicate function result name '" + resname + "'.");
@@ -2375,6 +2389,13 @@ llvm::Value* AssignExprAST::CodeGen()
 
     llvm::Value* dest = lhsv->Address();
 
+    // An object keeps its class, whatever the class of the value.
+    llvm::Value* vtable = 0;
+    if (auto cd = llvm::dyn_cast<Types::ClassDecl>(lhsv->Type()); cd && cd->VTableType(Types::Opaque))
+    {
+	vtable = builder.CreateLoad(Types::GetVoidPtrType(), dest, "vtable");
+    }
+
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
     if (!disableMemcpyOpt && size >= MEMCPY_THRESHOLD)
@@ -2386,13 +2407,22 @@ llvm::Value* AssignExprAST::CodeGen()
 		llvm::Value* src = rhsv->Address();
 		llvm::Align  dest_align{ std::max(AlignOfType(dest->getType()), MIN_ALIGN) };
 		llvm::Align  src_align{ std::max(AlignOfType(src->getType()), MIN_ALIGN) };
-		return builder.CreateMemCpy(dest, dest_align, src, src_align, size);
+		llvm::Value* v = builder.CreateMemCpy(dest, dest_align, src, src_align, size);
+		if (vtable)
+		{
+		    builder.CreateStore(vtable, dest);
+		}
+		return v;
 	    }
 	}
     }
 
     llvm::Value* v = rhs->CodeGen();
     builder.CreateStore(v, dest);
+    if (vtable)
+    {
+	builder.CreateStore(vtable, dest);
+    }
     return v;
 }
 
@@ -3312,13 +3342,6 @@ void VarDeclAST::DoDump() const
     }
 }
 
-static llvm::GlobalVariable* VTable(const Types::ClassDecl* cd)
-{
-    auto it = vtables.find(cd);
-    ICE_IF(it == vtables.end(), "Expected class to have a vtable");
-    return it->second;
-}
-
 // Returns a constant of type ty with the vtables of all objects within it filled in, or null if there are none.
 static llvm::Constant* ObjectInitializer(const Types::TypeDecl* ty)
 {
@@ -3349,11 +3372,7 @@ static llvm::Constant* ObjectInitializer(const Types::TypeDecl* ty)
     for (int i = 0; i < fc->FieldCount(); i++)
     {
 	const Types::FieldDecl* f = fc->GetElement(i + first);
-	if (f->IsStatic())
-	{
-	    continue;
-	}
-	llvm::Constant* c = ObjectInitializer(f->SubType());
+	llvm::Constant*         c = f->IsStatic() ? 0 : ObjectInitializer(f->SubType());
 	found |= !!c;
 	values.push_back(c);
     }
@@ -4195,8 +4214,7 @@ llvm::Value* TypeCastAST::CodeGen()
     }
     if (llvm::isa<Types::ClassDecl>(type) && llvm::isa<Types::ClassDecl>(current))
     {
-	llvm::Type* ty = llvm::PointerType::getUnqual(type->LlvmType());
-	return builder.CreateLoad(ty, builder.CreateBitCast(Address(), ty));
+	return builder.CreateLoad(type->LlvmType(), Address(), "base");
     }
     if (llvm::isa<Types::CharDecl>(type) && llvm::isa<Types::CharDecl>(current))
     {
diff --git a/parser.cpp b/parser.cpp
index 464a25c..652282e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2751,7 +2751,7 @@ VariableExprAST* Parser::ParseStaticMember(const TypeDef* def, Types::TypeDecl*&
 		if (fd->IsStatic())
 		{
 		    type = fd->SubType();
-		    std::string name = objname + "$" + field;
+		    std::string name = objname + "$" + fd->Name();
 		    return new VariableExprAST(CurrentToken().Loc(), name, type);
 		}
 		return Error("Expected static variable '" + field + "'");
@@ -4041,7 +4041,13 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	else
 	{
 	    ExprAST* e;
-	    if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
+	    if (f->IsStatic())
+	    {
+		std::string objname;
+		llvm::cast<Types::ClassDecl>(fields)->GetElement(i, objname);
+		e = new VariableExprAST(CurrentToken().Loc(), objname + "$" + f->Name(), ty);
+	    }
+	    else if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
 	    {
 		e = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
 	    }
diff --git a/types.cpp b/types.cpp
index e4dd932..579fb9f 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1119,6 +1119,11 @@ namespace Types
 		}
 		fv.push_back(f->LlvmType());
 	    }
+	    else
+	    {
+		// Takes no space, but keeps the other elements at their index.
+		fv.push_back(llvm::StructType::get(theContext));
+	    }
 	}
 	if (variant)
 	{
-- 
2.43.0


From 6bf5fa22df98609cc5339d530de5743420a9280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 054/104] fix: assigning an object to a variable of its class
 overwrote fields of a derived object

---
 expr.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index cbd70ef..08a8f17 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2396,6 +2396,23 @@ llvm::Value* AssignExprAST::CodeGen()
 	vtable = builder.CreateLoad(Types::GetVoidPtrType(), dest, "vtable");
     }
 
+    if (auto sty = llvm::dyn_cast<llvm::StructType>(lhsv->Type()->LlvmType());
+        sty && llvm::isa<Types::ClassDecl>(lhsv->Type()) && sty->getNumElements())
+    {
+	// What fills up the object to its alignment may be a field of a derived class: leave it alone.
+	const llvm::DataLayout& dl = theModule->getDataLayout();
+	const unsigned          last = sty->getNumElements() - 1;
+	const uint64_t          used = dl.getStructLayout(sty)->getElementOffset(last) +
+	                      dl.getTypeAllocSize(sty->getElementType(last));
+	llvm::Value* src = MakeAddressable(rhs);
+	llvm::Value* v = builder.CreateMemMove(dest, llvm::MaybeAlign(1), src, llvm::MaybeAlign(1), used);
+	if (vtable)
+	{
+	    builder.CreateStore(vtable, dest);
+	}
+	return v;
+    }
+
     // If rhs is a simple variable, and "large", then use memcpy on it!
     size_t size = rhs->Type()->Size();
     if (!disableMemcpyOpt && size >= MEMCPY_THRESHOLD)
@@ -2407,22 +2424,13 @@ llvm::Value* AssignExprAST::CodeGen()
 		llvm::Value* src = rhsv->Address();
 		llvm::Align  dest_align{ std::max(AlignOfType(dest->getType()), MIN_ALIGN) };
 		llvm::Align  src_align{ std::max(AlignOfType(src->getType()), MIN_ALIGN) };
-		llvm::Value* v = builder.CreateMemCpy(dest, dest_align, src, src_align, size);
-		if (vtable)
-		{
-		    builder.CreateStore(vtable, dest);
-		}
-		return v;
+		return builder.CreateMemCpy(dest, dest_align, src, src_align, size);
 	    }
 	}
     }
 
     llvm::Value* v = rhs->CodeGen();
     builder.CreateStore(v, dest);
-    if (vtable)
-    {
-	builder.CreateStore(vtable, dest);
-    }
     return v;
 }
 
-- 
2.43.0


From e23acb9a58fcac244f894c2d5c6ee1012a1c3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 055/104] fix: messages about types contained the address of
 the type in the compiler

---
 types.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 579fb9f..9010fa7 100644
--- a/types.cpp
+++ b/types.cpp
@@ -231,7 +231,8 @@ namespace Types
 	std::cerr << "Pointer to: " << name;
 	if (baseType)
 	{
-	    std::cerr << " type " << baseType;
+	    // Not all of it: the type may contain this pointer.
+	    std::cerr << " type " << baseType->Name() << " (kind " << baseType->Type() << ")";
 	}
 	else
 	{
@@ -592,7 +593,8 @@ namespace Types
 
     void FunctionDecl::DoDump() const
     {
-	std::cerr << "Function " << baseType;
+	std::cerr << "Function ";
+	baseType->DoDump();
     }
 
     void FieldDecl::DoDump() const
-- 
2.43.0


From 780d9b7819c829397e9f19aba8aa18be4ac21266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 056/104] fix: re, im and minus of complex expressions crashed
 the compiler, complex sqrt and arctan lost the smaller part

---
 builtin.cpp     |  3 +--
 expr.cpp        |  6 ++++++
 runtime/cmath.c | 11 ++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index ad266cb..75bfd65 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1841,8 +1841,7 @@ namespace Builtin
 
     llvm::Value* FunctionReIm::CodeGen(llvm::IRBuilder<>& builder)
     {
-	auto         cmplx = llvm::dyn_cast<AddressableAST>(args[0]);
-	llvm::Value* caddr = cmplx->Address();
+	llvm::Value* caddr = MakeAddressable(args[0]);
 	llvm::Type*  realTy = Types::Get<Types::RealDecl>()->LlvmType();
 
 	return builder.CreateLoad(realTy,
diff --git a/expr.cpp b/expr.cpp
index 08a8f17..893ade6 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1574,6 +1574,12 @@ llvm::Value* UnaryExprAST::CodeGen()
 	    return builder.CreateFNeg(r, "minus");
 	}
     }
+    if (llvm::isa<Types::ComplexDecl>(rhs->Type()) && oper.GetToken() == Token::Minus)
+    {
+	llvm::Value* re = builder.CreateFNeg(builder.CreateExtractValue(r, 0), "minusr");
+	llvm::Value* im = builder.CreateFNeg(builder.CreateExtractValue(r, 1), "minusi");
+	return builder.CreateInsertValue(builder.CreateInsertValue(r, re, 0), im, 1);
+    }
     return Error(this, "Unknown operation: " + oper.ToString());
 }
 
diff --git a/runtime/cmath.c b/runtime/cmath.c
index ee64b03..4a03c49 100644
--- a/runtime/cmath.c
+++ b/runtime/cmath.c
@@ -6,8 +6,11 @@
 
 void __csqrt(struct Complex* res, struct Complex a)
 {
-    res->r = sqrt((a.r + sqrt(a.r * a.r + a.i * a.i)) / 2);
-    res->i = copysign(sqrt((-a.r + sqrt(a.r * a.r + a.i * a.i)) / 2), a.i);
+    // The larger part first: subtracting |a.r| from the absolute value would lose the smaller one.
+    double t = sqrt((fabs(a.r) + hypot(a.r, a.i)) / 2);
+    double u = t ? fabs(a.i) / (2 * t) : 0.0;
+    res->r = a.r < 0 ? u : t;
+    res->i = copysign(a.r < 0 ? t : u, a.i);
 }
 
 double __carg(struct Complex a)
@@ -63,7 +66,9 @@ void __catan(struct Complex* res, struct Complex a)
 {
     // atan(x + iy) = atan2(2.0*x, 1-x*x-y*y) / 2 + i * ln((x*x + (y+1)*(y+1)) / (x*x + (y-1)*(y-1))) / 4
     res->r = 0.5 * atan2(2 * a.r, 1 - a.r * a.r - a.i * a.i);
-    res->i = 0.25 * log((a.r * a.r + (a.i + 1) * (a.i + 1)) / (a.r * a.r + (a.i - 1) * (a.i - 1)));
+    // The quotient is 1 + 4*y / (x*x + (y-1)*(y-1)), which log1p needs not round for a small y.
+    double y = fabs(a.i);
+    res->i = copysign(0.25 * log1p(4 * y / (a.r * a.r + (y - 1) * (y - 1))), a.i);
 }
 
 void __cpow(struct Complex* res, struct Complex a, double b)
-- 
2.43.0


From edde09f79596eb9b3c7096937d95f9a9dc7b9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 057/104] fix: constant expressions: signs before parentheses
 and functions, div and mod of negative values, negative 64-bit values,
 characters above 127, stray tokens

---
 constants.cpp | 93 ++++++++++++++++++++++++++++++++++++++++++---------
 constants.h   |  4 ++-
 parser.cpp    | 64 +++++++++++++----------------------
 3 files changed, 105 insertions(+), 56 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 93010a9..0312103 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -119,12 +119,12 @@ namespace Constants
 	{
 	    if (rhsI)
 	    {
-		rValue = rhsI->Value();
+		rValue = static_cast<int64_t>(rhsI->Value());
 		ok = true;
 	    }
 	    if (lhsI)
 	    {
-		lValue = lhsI->Value();
+		lValue = static_cast<int64_t>(lhsI->Value());
 		ok = true;
 	    }
 	}
@@ -241,12 +241,22 @@ namespace Constants
 	return v;
     }
 
+    static bool DividesByZero(const ConstDecl& rhs)
+    {
+	auto ic = llvm::dyn_cast<IntConstDecl>(&rhs);
+	return ic && !ic->Value();
+    }
+
     ConstDecl* operator/(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
-	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
+	    if (DividesByZero(rhs))
+	    {
+		return ErrorConst("Division by zero in constant");
+	    }
+	    v = DoIntegerMath(lhs, rhs, [](int64_t lv, int64_t rv) { return rv == -1 ? -lv : lv / rv; });
 	}
 	if (!v)
 	{
@@ -268,8 +278,12 @@ namespace Constants
 
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (DividesByZero(rhs))
+	{
+	    return ErrorConst("Division by zero in constant");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
+	    lhs, rhs, [](int64_t lv, int64_t rv) { return rv == -1 ? 0 : lv % rv; }, "mod");
     }
 
     ConstDecl* operator&(const ConstDecl& lhs, const ConstDecl& rhs)
@@ -302,6 +316,39 @@ namespace Constants
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv >> rv; }, "shr");
     }
 
+    const ConstDecl* EvalUnary(Token::TokenType oper, const ConstDecl* cd)
+    {
+	if (auto ic = llvm::dyn_cast<IntConstDecl>(cd))
+	{
+	    switch (oper)
+	    {
+	    case Token::Minus:
+		return new IntConstDecl(ic->Loc(), -ic->Value());
+	    case Token::Not:
+		return new IntConstDecl(ic->Loc(), ~ic->Value());
+	    default:
+		return cd;
+	    }
+	}
+	if (auto rc = llvm::dyn_cast<RealConstDecl>(cd))
+	{
+	    switch (oper)
+	    {
+	    case Token::Minus:
+		return new RealConstDecl(rc->Loc(), -rc->Value());
+	    case Token::Not:
+		return ErrorConst("Unary 'not' is not allowed for real constants");
+	    default:
+		return cd;
+	    }
+	}
+	if (auto bc = llvm::dyn_cast<BoolConstDecl>(cd); bc && oper == Token::Not)
+	{
+	    return new BoolConstDecl(bc->Loc(), !bc->Value());
+	}
+	return ErrorConst("Only integer and real constants can be negated, integer and boolean ones inverted");
+    }
+
     template<typename T>
     static const ConstDecl* UpdateValueSameType(const ConstDecl* cd, T func)
     {
@@ -313,6 +360,14 @@ namespace Constants
 	{
 	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), func(enumConst->Value()));
 	}
+	if (auto charConst = llvm::dyn_cast<CharConstDecl>(cd))
+	{
+	    return new CharConstDecl(charConst->Loc(), func(charConst->Value()));
+	}
+	if (auto boolConst = llvm::dyn_cast<BoolConstDecl>(cd))
+	{
+	    return new BoolConstDecl(boolConst->Loc(), func(boolConst->Value()));
+	}
 	return 0;
     }
 
@@ -347,7 +402,11 @@ namespace Constants
 	int y = intConst->Value();
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
-	    int x = ic->Value();
+	    int64_t x = ic->Value();
+	    if (!x && y < 0)
+	    {
+		return ErrorConst("Division by zero in constant");
+	    }
 	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
 	}
 
@@ -361,11 +420,15 @@ namespace Constants
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
+	auto l = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(&lhs));
+	auto r = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(&rhs));
+	if (!l || !r)
+	{
+	    return 0;
+	}
 	double               x = l->Value();
 	double               y = r->Value();
-	return new RealConstDecl(l->Loc(), exp(log(x) * y));
+	return new RealConstDecl(l->Loc(), pow(x, y));
     }
 
     using ConstArgs = std::vector<const ConstDecl*>;
@@ -384,7 +447,7 @@ namespace Constants
 	  {
 	      if (auto intConst = llvm::dyn_cast<IntConstDecl>(args[0]))
 	      {
-	          return new CharConstDecl(intConst->Loc(), (char)intConst->Value());
+	          return new CharConstDecl(intConst->Loc(), intConst->Value());
 	      }
 	      return 0;
 	  } },
@@ -436,7 +499,7 @@ namespace Constants
 	{ "sin", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), sin(rc->Value()));
 	      }
@@ -445,7 +508,7 @@ namespace Constants
 	{ "cos", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), cos(rc->Value()));
 	      }
@@ -454,7 +517,7 @@ namespace Constants
 	{ "ln", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          // Yes, we want log here, log10 is Pascal type log
 	          return new RealConstDecl(rc->Loc(), log(rc->Value()));
@@ -464,7 +527,7 @@ namespace Constants
 	{ "exp", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          return new RealConstDecl(rc->Loc(), exp(rc->Value()));
 	      }
@@ -473,7 +536,7 @@ namespace Constants
 	{ "frac", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto rc = llvm::dyn_cast_or_null<RealConstDecl>(ToRealConstDecl(args[0])))
 	      {
 	          double intpart;
 	          return new RealConstDecl(rc->Loc(), modf(rc->Value(), &intpart));
@@ -589,7 +652,7 @@ namespace Constants
 	}
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(c))
 	{
-	    return new RealConstDecl(ic->Loc(), ic->Value());
+	    return new RealConstDecl(ic->Loc(), static_cast<int64_t>(ic->Value()));
 	}
 	return ErrorConst("Expected an integer constant");
     }
diff --git a/constants.h b/constants.h
index 76169a3..f7207b4 100644
--- a/constants.h
+++ b/constants.h
@@ -56,7 +56,7 @@ namespace Constants
 
     using IntConstDecl = ConstDeclBase<uint64_t, Types::IntegerDecl, CK_IntConstDecl>;
     using RealConstDecl = ConstDeclBase<double, Types::RealDecl, CK_RealConstDecl>;
-    using CharConstDecl = ConstDeclBase<char, Types::CharDecl, CK_CharConstDecl>;
+    using CharConstDecl = ConstDeclBase<unsigned char, Types::CharDecl, CK_CharConstDecl>;
     using BoolConstDecl = ConstDeclBase<char, Types::BoolDecl, CK_BoolConstDecl>;
 
     class EnumConstDecl : public ConstDecl
@@ -155,6 +155,8 @@ namespace Constants
     ConstDecl* Pow(const ConstDecl& lhs, const ConstDecl& rhs);
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs);
 
+    const ConstDecl* EvalUnary(Token::TokenType oper, const ConstDecl* cd);
+
     const ConstDecl* EvalFunction(const std::string& name, const std::vector<const ConstDecl*>& args);
 
     // Yes, evaluable is the "more correct" word.
diff --git a/parser.cpp b/parser.cpp
index 652282e..c1ba5a8 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -887,15 +887,20 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return 0;
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
 	    {
-		return Constants::EvalFunction(name, args);
+		return 0;
 	    }
+	    return Constants::EvalFunction(name, args);
 	}
     }
     return 0;
@@ -971,6 +976,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     Token::TokenType            unaryToken = Token::Unknown;
     const Constants::ConstDecl* cd = 0;
     int                         mul = 1;
+    bool                        applyUnary = false;
 
     switch (CurrentToken().GetToken())
     {
@@ -995,10 +1001,12 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    return 0;
 	}
+	applyUnary = true;
 	break;
 
     case Token::LeftSquare:
 	cd = ParseConstSetExpr();
+	applyUnary = true;
 	break;
 
     case Token::StringLiteral:
@@ -1036,7 +1044,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    return Error("Unary + or - not allowed for char constants");
 	}
-	cd = new Constants::CharConstDecl(loc, (char)CurrentToken().GetIntVal());
+	cd = new Constants::CharConstDecl(loc, CurrentToken().GetIntVal());
 	NextToken();
 	break;
 
@@ -1071,6 +1079,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	std::string name = GetIdentifier(NoExpectConsume);
 	if ((cd = ParseConstFunction(name)))
 	{
+	    applyUnary = true;
 	}
 	else if (const EnumDef* ed = GetEnumValue(name))
 	{
@@ -1103,29 +1112,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	    {
 		return 0;
 	    }
-	    if (llvm::isa<Constants::BoolConstDecl>(cd) && unaryToken == Token::Not)
-	    {
-		const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
-		cd = new Constants::BoolConstDecl(loc, !bd->Value());
-	    }
-
-	    if (mul == -1)
-	    {
-		if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
-		{
-		    ;
-		    cd = new Constants::RealConstDecl(loc, -rd->Value());
-		}
-		else if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
-		{
-		    cd = new Constants::IntConstDecl(loc, -id->Value());
-		}
-		else
-		{
-		    return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
-		                 " only integer and real types can be negated");
-		}
-	    }
+	    applyUnary = true;
 	    NextToken();
 	}
 	break;
@@ -1134,6 +1121,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     default:
 	return 0;
     }
+    if (applyUnary && cd && unaryToken != Token::Unknown)
+    {
+	return Constants::EvalUnary(unaryToken, cd);
+    }
     return cd;
 }
 
@@ -1172,23 +1163,16 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& terminators)
 {
     const Location              loc = CurrentToken().Loc();
-    const Constants::ConstDecl* cd;
+    const Constants::ConstDecl* cd = ParseConstTerm(loc);
 
-    do
+    if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
     {
-	if (!(cd = ParseConstTerm(loc)))
+	cd = ParseConstRHS(0, cd);
+	if (cd && !IsOneOf(CurrentToken().GetToken(), terminators))
 	{
-	    return 0;
+	    return Error("Unexpected token " + CurrentToken().ToString() + " in constant expression");
 	}
-
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+    }
     return cd;
 }
 
@@ -2131,7 +2115,7 @@ ExprAST* Parser::ParseIntegerExpr(const Token& token)
     const Location&  loc = token.Loc();
     Types::TypeDecl* type = Types::Get<Types::IntegerDecl>();
 
-    if (val > std::numeric_limits<unsigned int>::max())
+    if (val > std::numeric_limits<unsigned int>::max() || val < std::numeric_limits<int>::min())
     {
 	type = Types::Get<Types::Int64Decl>();
     }
-- 
2.43.0


From c3baf31aa91ec038af79097dd989f4a2616c593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 058/104] fix: a string containing chr(0) was written only up
 to it, case labels a..a were rejected, malformed case labels crashed the
 compiler

---
 parser.cpp      | 10 +++++++---
 runtime/write.c | 31 +++++--------------------------
 2 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index c1ba5a8..4bd4bc7 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3941,7 +3941,11 @@ ExprAST* Parser::ParseCaseExpr()
 	else
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int64_t                     value = Constants::ToInt(cd);
+	    if (!cd)
+	    {
+		return 0;
+	    }
+	    int64_t value = Constants::ToInt(cd);
 	    if (type)
 	    {
 		if (type != cd->Type())
@@ -3957,12 +3961,12 @@ ExprAST* Parser::ParseCaseExpr()
 	    if (AcceptToken(Token::DotDot))
 	    {
 		cd = ParseConstExpr({ Token::Comma, Token::Colon });
-		if (type != cd->Type())
+		if (!cd || type != cd->Type())
 		{
 		    return Error("Expected case labels to have same type");
 		}
 		end = Constants::ToInt(cd);
-		if (end <= value)
+		if (end < value)
 		{
 		    return Error("Expected case label range to be low..high");
 		}
diff --git a/runtime/write.c b/runtime/write.c
index d57344a..b15591e 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -167,38 +167,17 @@ void __write_chars(File* file, const char* v, int len, int width)
     }
 }
 
+// The string may include chr(0).
 void __write_S_str(String* str, const String* v, int width)
 {
-    char buffer[MaxStringLen + 1];
-    char s[MaxStringLen + 1];
-    int  n;
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	n = snprintf(buffer, sizeof(buffer), "%*s", width, s);
-    }
-    else
-    {
-	n = snprintf(buffer, sizeof(buffer), "%s", s);
-    }
-    SetStrResult(str, n, buffer);
+    (void)width;
+    SetStrResult(str, v->len, (const char*)v->str);
 }
 
 void __write_str(File* file, const String* v, int width)
 {
-    FILE* f = getFile(file);
-    char  s[MaxStringLen + 1];
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	fprintf(f, "%*s", width, s);
-    }
-    else
-    {
-	fprintf(f, "%s", s);
-    }
+    (void)width;
+    fwrite(v->str, 1, v->len, getFile(file));
 }
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
-- 
2.43.0


From 2802343fcd814a1309c486c2892276cab494f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 059/104] fix: not was ignored before sizeof in constants

---
 parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 4bd4bc7..de46307 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1070,7 +1070,8 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    fc->EnsureSized();
 	}
-	cd = new Constants::IntConstDecl(loc, ty->Size() * mul);
+	cd = new Constants::IntConstDecl(loc, ty->Size());
+	applyUnary = true;
 	break;
     }
 
-- 
2.43.0


From 3bd86760274a3ac4ff36ad92b092be2b831cf343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 060/104] fix: locations named the line before blank lines or
 comments or after the end of a statement, a range that ends a record was
 rejected

---
 lexer.cpp  | 10 +++++--
 parser.cpp | 81 +++++++++++++++++++++++++++++++-----------------------
 token.h    |  1 +
 3 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 6712a75..820d576 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -249,8 +249,8 @@ static const SingleCharToken singleCharTokenTable[] = {
 
 Token Lexer::GetToken()
 {
-    int             ch = CurChar();
-    const Location& w = Where();
+    int      ch = CurChar();
+    Location w = Where();
 
     // Skip white space and comments.
     for (;;)
@@ -287,6 +287,12 @@ Token Lexer::GetToken()
 	}
     }
 
+    // A token is on the line it starts on, not on the one where the token before it ended.
+    if (Location here = Where(); here.LineNumber() != w.LineNumber())
+    {
+	w = here;
+    }
+
     // EOF -> return now...
     if (ch == EOF)
     {
diff --git a/parser.cpp b/parser.cpp
index de46307..5d04c94 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -62,6 +62,7 @@ public:
     // Token handling functions
     const Token&     CurrentToken() const;
     void             NextToken(const char* file, int line);
+    Location         LastLine() const;
     Token::TokenType PeekToken(const char* file, int line);
 
     // Simple expression parsing
@@ -206,6 +207,7 @@ public:
 private:
     Lexer                     lexer;
     Token                     curToken;
+    Location                  lastLoc;
     Token                     nextToken;
     bool                      nextTokenValid;
     std::string               moduleName;
@@ -308,6 +310,7 @@ const Token& Parser::CurrentToken() const
 
 void Parser::NextToken(const char* file, int line)
 {
+    lastLoc = curToken.Loc();
     if (nextTokenValid)
     {
 	curToken = nextToken;
@@ -324,6 +327,13 @@ void Parser::NextToken(const char* file, int line)
     }
 }
 
+// Location of something that ends just before the current token.
+Location Parser::LastLine() const
+{
+    const Location loc = CurrentToken().Loc();
+    return loc.LineNumber() == lastLoc.LineNumber() ? loc : lastLoc;
+}
+
 Token::TokenType Parser::PeekToken(const char* file, int line)
 {
     if (nextTokenValid)
@@ -461,7 +471,7 @@ ExprAST* Parser::ParseSizeOfExpr()
     Types::TypeDecl* ty = GetTypeFromExpression();
     if (ty)
     {
-	expr = new SizeOfExprAST(CurrentToken().Loc(), ty);
+	expr = new SizeOfExprAST(LastLine(), ty);
     }
     if (!Expect(Token::RightParen, ExpectConsume))
     {
@@ -612,7 +622,9 @@ Token Parser::TranslateToken(const Token& token)
 	    if (!llvm::isa<Constants::CompoundConstDecl, Constants::SetConstDecl, Constants::EnumConstDecl>(
 	            cd))
 	    {
-		return cd->Translate();
+		Token constant = cd->Translate();
+		constant.Loc(token.Loc());
+		return constant;
 	    }
 	}
     }
@@ -706,7 +718,8 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	    return Error("Expected '..' name");
 	}
 
-	if (const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken }))
+	if (const Constants::ConstDecl* endC = ParseConstExpr(
+	        { endToken, altToken, Token::End, Token::RightParen, Token::Value }))
 	{
 	    int64_t start = Constants::ToInt(startC);
 	    int64_t end = Constants::ToInt(endC);
@@ -2161,7 +2174,7 @@ ExprAST* Parser::ParseExprElement()
 
     case Token::Nil:
 	AssertToken(Token::Nil);
-	return new NilExprAST(CurrentToken().Loc());
+	return new NilExprAST(LastLine());
 
     case Token::Real:
 	NextToken();
@@ -2331,7 +2344,7 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 		return Error("Too many indices");
 	    }
 
-	    return new DynArrayExprAST(CurrentToken().Loc(), expr, indices[0], dty->Range(), dty->SubType());
+	    return new DynArrayExprAST(LastLine(), expr, indices[0], dty->Range(), dty->SubType());
 	}
 	else
 	{
@@ -2344,7 +2357,7 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    {
 		if (adecl->Ranges().size() == 1)
 		{
-		    expr = new ArraySliceAST(CurrentToken().Loc(), expr, range, adecl);
+		    expr = new ArraySliceAST(LastLine(), expr, range, adecl);
 		}
 		else
 		{
@@ -2356,7 +2369,7 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    {
 		taken += adecl->Ranges().size();
 		indices.resize(adecl->Ranges().size());
-		expr = new ArrayExprAST(CurrentToken().Loc(), expr, indices, adecl->Ranges(),
+		expr = new ArrayExprAST(LastLine(), expr, indices, adecl->Ranges(),
 		                        adecl->SubType());
 		type = adecl->SubType();
 		ICE_IF(!type, "Expected a type here!");
@@ -2383,7 +2396,7 @@ ExprAST* Parser::ParseArrayExpr(ExprAST* expr, Types::TypeDecl*& type)
 ExprAST* Parser::MakeSimpleCall(ExprAST* expr, const PrototypeAST* proto, const std::vector<ExprAST*>& args)
 {
     ICE_IF(!expr || !proto, "Expect to get an expression and a prototype here");
-    return new CallExprAST(CurrentToken().Loc(), expr, args, proto);
+    return new CallExprAST(LastLine(), expr, args, proto);
 }
 
 ExprAST* Parser::MakeCallExpr(const NamedObject* def, std::vector<ExprAST*>& args)
@@ -2395,14 +2408,14 @@ ExprAST* Parser::MakeCallExpr(const NamedObject* def, std::vector<ExprAST*>& arg
     if (const auto funcDef = llvm::dyn_cast<const FuncDef>(def))
     {
 	proto = funcDef->Proto();
-	expr = new FunctionExprAST(CurrentToken().Loc(), proto);
+	expr = new FunctionExprAST(LastLine(), proto);
     }
     else if (llvm::isa<const VarDef>(def))
     {
 	if (auto fp = llvm::dyn_cast<Types::FuncPtrDecl>(def->Type()))
 	{
 	    proto = fp->Proto();
-	    expr = new VariableExprAST(CurrentToken().Loc(), def);
+	    expr = new VariableExprAST(LastLine(), def);
 	}
 	else
 	{
@@ -2413,7 +2426,7 @@ ExprAST* Parser::MakeCallExpr(const NamedObject* def, std::vector<ExprAST*>& arg
     {
 	auto                   cd = llvm::dyn_cast<Types::ClassDecl>(m->Type());
 	Types::MemberFuncDecl* mf = cd->GetMembFunc(m->Index());
-	auto                   self = new VariableExprAST(CurrentToken().Loc(), "self", cd);
+	auto                   self = new VariableExprAST(LastLine(), "self", cd);
 	return MakeSelfCall(self, mf, cd, args);
     }
     else
@@ -2434,11 +2447,11 @@ ExprAST* Parser::MakeSelfCall(ExprAST* self, Types::MemberFuncDecl* mf, Types::C
     {
 	int                 index = mf->VirtIndex();
 	Types::FuncPtrDecl* funcPtr = new Types::FuncPtrDecl(proto);
-	expr = new VirtFunctionAST(CurrentToken().Loc(), self, index, funcPtr);
+	expr = new VirtFunctionAST(LastLine(), self, index, funcPtr);
     }
     else
     {
-	expr = new FunctionExprAST(CurrentToken().Loc(), proto);
+	expr = new FunctionExprAST(LastLine(), proto);
     }
     if (proto->HasSelf())
     {
@@ -2457,7 +2470,7 @@ ExprAST* Parser::FindVariant(ExprAST* expr, Types::TypeDecl*& type, int fc, Type
     {
 	const Types::FieldDecl* fd = v->GetElement(elem);
 	type = fd->SubType();
-	e = new VariantFieldExprAST(CurrentToken().Loc(), expr, fc, type);
+	e = new VariantFieldExprAST(LastLine(), expr, fc, type);
 	// If name is empty, we have a made up struct. Dig another level down.
 	if (fd->Name() == "")
 	{
@@ -2467,7 +2480,7 @@ ExprAST* Parser::FindVariant(ExprAST* expr, Types::TypeDecl*& type, int fc, Type
 	    if (elem >= 0)
 	    {
 		type = r->GetElement(elem)->SubType();
-		e = new FieldExprAST(CurrentToken().Loc(), e, elem, type);
+		e = new FieldExprAST(LastLine(), e, elem, type);
 	    }
 	}
 	return e;
@@ -2478,12 +2491,12 @@ ExprAST* Parser::FindVariant(ExprAST* expr, Types::TypeDecl*& type, int fc, Type
 	const Types::FieldDecl* fd = v->GetElement(i);
 	if (fd->Name() == "")
 	{
-	    e = new VariantFieldExprAST(CurrentToken().Loc(), expr, fc, type);
+	    e = new VariantFieldExprAST(LastLine(), expr, fc, type);
 	    const auto r = llvm::dyn_cast<Types::RecordDecl>(fd->SubType());
 	    ICE_IF(!r, "Expect record declarataion");
 	    if ((elem = r->Element(name)) >= 0)
 	    {
-		e = new FieldExprAST(CurrentToken().Loc(), e, elem, type);
+		e = new FieldExprAST(LastLine(), e, elem, type);
 	    }
 	    if (r->Variant())
 	    {
@@ -2526,11 +2539,11 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    if (fd->IsStatic())
 	    {
 		std::string vname = objname + "$" + fd->Name();
-		e = new VariableExprAST(CurrentToken().Loc(), vname, type);
+		e = new VariableExprAST(LastLine(), vname, type);
 	    }
 	    else
 	    {
-		e = new FieldExprAST(CurrentToken().Loc(), expr, elem, type);
+		e = new FieldExprAST(LastLine(), expr, elem, type);
 	    }
 	}
 	else
@@ -2562,7 +2575,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	if (elem >= 0)
 	{
 	    type = rd->GetElement(elem)->SubType();
-	    e = new FieldExprAST(CurrentToken().Loc(), expr, elem, type);
+	    e = new FieldExprAST(LastLine(), expr, elem, type);
 	}
 	else
 	{
@@ -2578,7 +2591,7 @@ ExprAST* Parser::ParseFieldExpr(ExprAST* expr, Types::TypeDecl*& type)
 	    if (name == "capacity")
 	    {
 		int cap = sd->Capacity();
-		e = new IntegerExprAST(CurrentToken().Loc(), cap, Types::Get<Types::IntegerDecl>());
+		e = new IntegerExprAST(LastLine(), cap, Types::Get<Types::IntegerDecl>());
 	    }
 	}
 	if (!e)
@@ -2605,12 +2618,12 @@ ExprAST* Parser::ParsePointerExpr(ExprAST* expr, Types::TypeDecl*& type)
     if (auto fd = llvm::dyn_cast<Types::FileDecl>(type))
     {
 	type = fd->SubType();
-	return new FilePointerExprAST(CurrentToken().Loc(), expr, type);
+	return new FilePointerExprAST(LastLine(), expr, type);
     }
     if (auto pd = llvm::dyn_cast<Types::PointerDecl>(type))
     {
 	type = pd->SubType();
-	return new PointerExprAST(CurrentToken().Loc(), expr, type);
+	return new PointerExprAST(LastLine(), expr, type);
     }
     return Error("Expected pointer expression");
 }
@@ -2685,13 +2698,13 @@ bool Parser::ParseArgs(const NamedObject* def, std::vector<ExprAST*>& args)
 		    {
 			if (const auto fd = llvm::dyn_cast<FuncDef>(argDef))
 			{
-			    arg = new FunctionExprAST(CurrentToken().Loc(), fd->Proto());
+			    arg = new FunctionExprAST(LastLine(), fd->Proto());
 			}
 			else if (const auto vd = llvm::dyn_cast<VarDef>(argDef))
 			{
 			    if (llvm::isa<Types::FuncPtrDecl>(vd->Type()))
 			    {
-				arg = new VariableExprAST(CurrentToken().Loc(), argDef);
+				arg = new VariableExprAST(LastLine(), argDef);
 			    }
 			}
 		    }
@@ -2737,7 +2750,7 @@ VariableExprAST* Parser::ParseStaticMember(const TypeDef* def, Types::TypeDecl*&
 		{
 		    type = fd->SubType();
 		    std::string name = objname + "$" + fd->Name();
-		    return new VariableExprAST(CurrentToken().Loc(), name, type);
+		    return new VariableExprAST(LastLine(), name, type);
 		}
 		return Error("Expected static variable '" + field + "'");
 	    }
@@ -2784,14 +2797,14 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     }
     if (llvm::isa<VarDef>(def))
     {
-	return new VariableExprAST(CurrentToken().Loc(), def);
+	return new VariableExprAST(LastLine(), def);
     }
 
     if (!llvm::isa<FuncDef, MembFuncDef>(def))
     {
 	return Error("Expected variable");
     }
-    return new VariableExprAST(CurrentToken().Loc(), def->Name(), type);
+    return new VariableExprAST(LastLine(), def->Name(), type);
 }
 
 static ExprAST* CreateSetExprFromSetConst(const Constants::SetConstDecl* set)
@@ -2871,7 +2884,7 @@ ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
 
     ICE_IF(!isBuiltin, "Should be a builtin function by now...");
     Builtin::FunctionBase* bif = Builtin::CreateBuiltinFunction(idName, args);
-    return new BuiltinExprAST(CurrentToken().Loc(), bif);
+    return new BuiltinExprAST(LastLine(), bif);
 }
 
 ExprAST* Parser::ParseIdentifierExpr(const Token& token)
@@ -3817,7 +3830,7 @@ ExprAST* Parser::ParseForExpr()
     {
 	return Error("Loop induction must be a variable");
     }
-    VariableExprAST* varExpr = new VariableExprAST(CurrentToken().Loc(), def);
+    VariableExprAST* varExpr = new VariableExprAST(LastLine(), def);
     if (AcceptToken(Token::Assign))
     {
 	if (ExprAST* start = ParseExpression())
@@ -4020,7 +4033,7 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	{
 	    auto rd = llvm::dyn_cast<Types::RecordDecl>(ty);
 	    ICE_IF(!rd, "Expected record declarataion here!");
-	    ExprAST* vv = new VariantFieldExprAST(CurrentToken().Loc(), v, parentCount, ty);
+	    ExprAST* vv = new VariantFieldExprAST(LastLine(), v, parentCount, ty);
 	    ExpandWithNames(rd, vv, 0);
 	    if (rd->Variant())
 	    {
@@ -4034,15 +4047,15 @@ void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, i
 	    {
 		std::string objname;
 		llvm::cast<Types::ClassDecl>(fields)->GetElement(i, objname);
-		e = new VariableExprAST(CurrentToken().Loc(), objname + "$" + f->Name(), ty);
+		e = new VariableExprAST(LastLine(), objname + "$" + f->Name(), ty);
 	    }
 	    else if (llvm::isa<Types::RecordDecl, Types::ClassDecl>(fields))
 	    {
-		e = new FieldExprAST(CurrentToken().Loc(), v, i, ty);
+		e = new FieldExprAST(LastLine(), v, i, ty);
 	    }
 	    else
 	    {
-		e = new VariantFieldExprAST(CurrentToken().Loc(), v, parentCount, ty);
+		e = new VariantFieldExprAST(LastLine(), v, parentCount, ty);
 	    }
 	    nameStack.Add(new WithDef(f->Name(), e, f->SubType()));
 	}
diff --git a/token.h b/token.h
index 50792dc..dfc6747 100644
--- a/token.h
+++ b/token.h
@@ -180,6 +180,7 @@ public:
     void            SetWhere(const std::string& file, int line, int col);
     std::string     Where();
     const Location& Loc() const { return where; }
+    void            Loc(const Location& w) { where = w; }
 
     int  Precedence() const;
     bool IsCompare() const { return type >= Token::FirstComparison && type <= Token::LastComparison; }
-- 
2.43.0


From 43c50f1b24f8ecb0c40fd03ec8725f0fc0350bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 061/104] fix: malformed lists, repeat statements and builtin
 calls crashed the compiler silently, never ended or were accepted

---
 builtin.cpp | 15 ++++++++++-----
 builtin.h   |  3 +++
 lacsap.cpp  |  3 ++-
 parser.cpp  | 16 ++++++++++++++--
 token.cpp   |  3 ++-
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 75bfd65..d4e6463 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -74,7 +74,7 @@ namespace Builtin
     {
     public:
 	using FunctionBase::FunctionBase;
-	Types::TypeDecl* Type() const override { return args[0]->Type(); }
+	Types::TypeDecl* Type() const override { return ArgType(); }
 	ErrorType        Semantics() override;
     };
 
@@ -539,7 +539,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionSameAsArg2::Type() const
     {
-	Types::TypeDecl* ty = args[0]->Type();
+	Types::TypeDecl* ty = ArgType();
 	if (args.size() == 2)
 	{
 	    if (auto common = ty->CompatibleType(args[1]->Type()))
@@ -568,14 +568,19 @@ namespace Builtin
 	return ErrorType::Ok;
     }
 
+    Types::TypeDecl* FunctionBase::ArgType() const
+    {
+	return args.empty() ? Types::Get<Types::VoidDecl>() : args[0]->Type();
+    }
+
     /* Note that abs returnes "real" for complex, otherwise int or real depending on input type */
     Types::TypeDecl* FunctionAbs::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (llvm::isa<Types::ComplexDecl>(ArgType()))
 	{
 	    return Types::Get<Types::RealDecl>();
 	}
-	return args[0]->Type();
+	return ArgType();
     }
 
     llvm::Value* FunctionAbs::CodeGen(llvm::IRBuilder<>& builder)
@@ -672,7 +677,7 @@ namespace Builtin
 
     Types::TypeDecl* FunctionFloat::Type() const
     {
-	if (llvm::isa<Types::ComplexDecl>(args[0]->Type()))
+	if (llvm::isa<Types::ComplexDecl>(ArgType()))
 	{
 	    return Types::Get<Types::ComplexDecl>();
 	}
diff --git a/builtin.h b/builtin.h
index 449271a..4c0d550 100644
--- a/builtin.h
+++ b/builtin.h
@@ -32,6 +32,9 @@ namespace Builtin
 	virtual ~FunctionBase() {}
 
     protected:
+	// Used before the number of arguments is checked.
+	Types::TypeDecl* ArgType() const;
+
 	std::string           name;
 	std::vector<ExprAST*> args;
     };
diff --git a/lacsap.cpp b/lacsap.cpp
index 7099ee4..d0d1b8f 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -143,7 +143,8 @@ static int Compile(const std::string& fileName)
     ParserInterface& p = GetParser(source);
 
     ExprAST* ast = p.Parse(ParserType::Program);
-    if (int e = p.GetErrors())
+    int      e = p.GetErrors();
+    if (e || !ast)
     {
 	std::cerr << "Errors in parsing: " << e << ".\nExiting..." << std::endl;
 	return 1;
diff --git a/parser.cpp b/parser.cpp
index 5d04c94..659216d 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -531,6 +531,7 @@ static bool ParseSeparatedList(Parser& parser, ListConsumer& lc)
 	    bool good = IsOneOf(parser.CurrentToken().GetToken(), lc.separators);
 	    if (!good)
 	    {
+		parser.Error("Unexpected token " + parser.CurrentToken().ToString() + " in list");
 		return false;
 	    }
 	    if (ShouldConsume(parser.CurrentToken().GetToken(), lc.separators) == ExpectConsume)
@@ -1737,7 +1738,7 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 	                     CurrentToken().GetToken() == Token::Procedure))
 	{
 	    PrototypeAST* p = ParsePrototype(NamePolicy::Named);
-	    if (!Expect(Token::Semicolon, ExpectConsume))
+	    if (!p || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return false;
 	    }
@@ -2968,6 +2969,10 @@ public:
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		ExprAST* vEnd = parser.ParseExpression();
+		if (!vEnd)
+		{
+		    return false;
+		}
 		v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
 	    }
 	    values.push_back(v);
@@ -3898,10 +3903,17 @@ ExprAST* Parser::ParseRepeat()
     const Location        loc2 = CurrentToken().Loc();
     while (!AcceptToken(Token::Until))
     {
+	if (CurrentToken().GetToken() == Token::End)
+	{
+	    return Error("Unexpected 'end' token");
+	}
 	if (ExprAST* stmt = ParseStatement())
 	{
 	    v.push_back(stmt);
-	    AcceptToken(Token::Semicolon);
+	    if (CurrentToken().GetToken() != Token::Until && !Expect(Token::Semicolon, ExpectConsume))
+	    {
+		return 0;
+	    }
 	}
 	else
 	{
diff --git a/token.cpp b/token.cpp
index 21858bf..9992bc5 100644
--- a/token.cpp
+++ b/token.cpp
@@ -143,7 +143,7 @@ const TokenEntry tokenTable[] = {
     { Token::Multiply, false, 40, "*" },
     { Token::Divide, false, 40, "/" },
     { Token::Power, false, 50, "**" },
-    { Token::Assign, false, 2, ":=" },
+    { Token::Assign, false, -1, ":=" },
     { Token::LessThan, false, 5, "<" },
     { Token::LessOrEqual, false, 5, "<=" },
     { Token::GreaterOrEqual, false, 5, ">=" },
@@ -187,6 +187,7 @@ const TokenEntry tokenTable[] = {
     { Token::SizeOf, true, -1, "sizeof" },
     { Token::Identifier, false, -1, "identifier" },
     { Token::Unknown, false, -1, "Unknown" },
+    { Token::UntermString, false, -1, "unterminated string" },
     { Token::EndOfFile, false, -1, "EOF" },
 };
 
-- 
2.43.0


From 06e1bb090a64d65a9107cac058134b95e983c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 062/104] fix: operators on operands they do not exist for were
 accepted or crashed the compiler, char subranges in string expressions
 crashed it

---
 expr.cpp      |  4 +--
 semantics.cpp | 91 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 92 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 893ade6..2be63c8 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -310,7 +310,7 @@ static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* r
 static llvm::Value* TempStringFromChar(llvm::Value* dest, ExprAST* rhs)
 {
     TRACE();
-    ICE_IF(!llvm::isa<Types::CharDecl>(rhs->Type()), "Expected char value");
+    ICE_IF(!llvm::isa<Types::CharDecl>(Types::OrdinalBase(rhs->Type())), "Expected char value");
 
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size) { return builder.CreateStore(v, chars); };
     return FillTempString(dest, rhs->CodeGen(), 1, func);
@@ -796,7 +796,7 @@ static llvm::Value* CreateTempString(size_t len, Types::TypeDecl* ty)
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
-    if (llvm::isa<Types::CharDecl>(e->Type()))
+    if (llvm::isa<Types::CharDecl>(Types::OrdinalBase(e->Type())))
     {
 	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(1));
 	TempStringFromChar(v, e);
diff --git a/semantics.cpp b/semantics.cpp
index deb5a10..1b9e930 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -196,6 +196,87 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     return rty;
 }
 
+// Can the operator be used with operands of these types at all?
+static bool OperatorAllowed(Token::TokenType op, ExprAST* lhs, ExprAST* rhs)
+{
+    Types::TypeDecl* lty = lhs->Type();
+    Types::TypeDecl* rty = rhs->Type();
+    auto             both = [&](auto pred) { return pred(lty) && pred(rty); };
+    auto             isInteger = [](const Types::TypeDecl* ty)
+    { return ty->Type() == Types::TypeDecl::TK_Integer || ty->Type() == Types::TypeDecl::TK_LongInt; };
+    auto isBoolean = [](const Types::TypeDecl* ty) { return ty->Type() == Types::TypeDecl::TK_Boolean; };
+    auto isComplex = [](const Types::TypeDecl* ty) { return ty->Type() == Types::TypeDecl::TK_Complex; };
+    auto isSet = [](const Types::TypeDecl* ty) { return llvm::isa<Types::SetDecl>(ty); };
+    auto isPointer = [](const Types::TypeDecl* ty) { return llvm::isa<Types::PointerDecl>(ty); };
+
+    switch (op)
+    {
+    case Token::Plus:
+	return both(Types::IsNumeric) || both(Types::IsStringLike) || both(isSet);
+
+    case Token::Minus:
+    case Token::Multiply:
+	return both(Types::IsNumeric) || both(isSet);
+
+    case Token::Div:
+    case Token::Mod:
+    case Token::Shl:
+    case Token::Shr:
+	return both(isInteger);
+
+    case Token::And:
+    case Token::Or:
+    case Token::Xor:
+	return both(isInteger) || both(isBoolean);
+
+    case Token::Pow:
+	// The exponent is converted to real when the left side is real or complex.
+	if (auto tc = llvm::dyn_cast<TypeCastAST>(rhs))
+	{
+	    rty = tc->Expr()->Type();
+	}
+	return Types::IsNumeric(lty) && isInteger(rty);
+
+    case Token::SymDiff:
+	return both(isSet);
+
+    case Token::Divide:
+    case Token::Power:
+	return both(Types::IsNumeric);
+
+    case Token::And_Then:
+    case Token::Or_Else:
+	return both(isBoolean);
+
+    case Token::In:
+	return Types::IsIntegral(lty) && !llvm::isa<Types::Int64Decl>(Types::OrdinalBase(lty)) && isSet(rty);
+
+    case Token::Equal:
+    case Token::NotEqual:
+	if (both(isPointer))
+	{
+	    return true;
+	}
+	break;
+
+    case Token::LessThan:
+    case Token::LessOrEqual:
+    case Token::GreaterThan:
+    case Token::GreaterOrEqual:
+	if (isComplex(lty) || isComplex(rty))
+	{
+	    return false;
+	}
+	break;
+
+    default:
+	return true;
+    }
+
+    return both(Types::IsNumeric) || both(Types::IsStringLike) || both(isSet) ||
+           (both(Types::IsIntegral) && *Types::OrdinalBase(lty) == *Types::OrdinalBase(rty));
+}
+
 Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 {
     Types::TypeDecl* lty = b->lhs->Type();
@@ -259,7 +340,9 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    }
 	    return Types::Get<Types::BoolDecl>();
 	}
-	if (llvm::isa<Types::StringDecl>(lty) || llvm::isa<Types::StringDecl>(rty))
+	auto isChar = [](Types::TypeDecl* ty) { return llvm::isa<Types::CharDecl>(Types::OrdinalBase(ty)); };
+	if (llvm::isa<Types::StringDecl>(lty) || llvm::isa<Types::StringDecl>(rty) ||
+	    (Types::IsCharArray(lty) && isChar(rty)) || (Types::IsCharArray(rty) && isChar(lty)))
 	{
 	    auto ty = Types::Get<Types::StringDecl>(255);
 	    b->rhs = Recast(b->rhs, ty);
@@ -406,6 +489,12 @@ void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 {
     TRACE();
 
+    if (!OperatorAllowed(b->oper.GetToken(), b->lhs, b->rhs))
+    {
+	Error(b, "Operands of these types are not allowed for '" + b->oper.TypeStr() + "'");
+	return;
+    }
+
     Types::TypeDecl* ty = BinaryExprType(b);
 
     if (!ty)
-- 
2.43.0


From d8c26db16f034027f34b2ee05ea84fb48c780e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 063/104] fix: assigning and passing values of incompatible
 array, enumeration and complex types and var arguments of another type were
 accepted

---
 semantics.cpp | 27 +++++++++++++++++++++++++--
 types.cpp     | 28 ++++++++++++++--------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 1b9e930..395682b 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -653,7 +653,11 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     {
 	Types::Range* r = lty->GetRange();
 	int64_t       v = llvm::dyn_cast<IntegerExprAST>(a->rhs)->Int();
-	if (r->Start() > v || v > r->End())
+	if (*Types::OrdinalBase(lty) != *Types::OrdinalBase(rty))
+	{
+	    Error(a, "Incompatible type in assignment");
+	}
+	else if (r->Start() > v || v > r->End())
 	{
 	    Error(a, "Value out of range");
 	}
@@ -798,6 +802,20 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
     }
 }
 
+// Can a variable of type aty be used for a 'var' parameter of type pty? The value is not converted.
+static bool SameVariableType(Types::TypeDecl* pty, Types::TypeDecl* aty)
+{
+    if (llvm::isa<Types::StringDecl>(pty))
+    {
+	return llvm::isa<Types::StringDecl>(aty);
+    }
+    if (Types::IsNumeric(pty))
+    {
+	return Types::OrdinalBase(pty)->Type() == Types::OrdinalBase(aty)->Type();
+    }
+    return true;
+}
+
 template<>
 void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 {
@@ -831,10 +849,15 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
-	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
+	    if (parg[idx].IsRef() && (!llvm::isa<AddressableAST, ClosureAST>(a) ||
+	                              llvm::isa<StringExprAST, SetExprAST, CallExprAST>(a)))
 	    {
 		Error(c, "Expect variable for 'var' parameter");
 	    }
+	    else if (parg[idx].IsRef() && !SameVariableType(parg[idx].Type(), a->Type()))
+	    {
+		Error(c, "Variable of another type for 'var' parameter");
+	    }
 	    else
 	    {
 		a = Recast(a, ty);
diff --git a/types.cpp b/types.cpp
index 9010fa7..97fbda9 100644
--- a/types.cpp
+++ b/types.cpp
@@ -198,7 +198,7 @@ namespace Types
 
     const TypeDecl* RealDecl::AssignableType(const TypeDecl* ty) const
     {
-	return CompatibleType(ty);
+	return (ty->Type() == TK_Complex) ? 0 : CompatibleType(ty);
     }
 
     void VoidDecl::DoDump() const
@@ -403,17 +403,17 @@ namespace Types
 	{
 	    return this;
 	}
-	if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
+	const auto aty = llvm::dyn_cast<ArrayDecl>(ty);
+	if (!aty || llvm::isa<StringDecl>(ty) || *aty->SubType() != *SubType() ||
+	    ranges.size() != aty->Ranges().size())
 	{
-	    if (aty->SubType() == SubType() && ranges.size() == aty->Ranges().size())
+	    return 0;
+	}
+	for (size_t i = 0; i < ranges.size(); i++)
+	{
+	    if (ranges[i]->RangeSize() != aty->Ranges()[i]->RangeSize())
 	    {
-		for (size_t i = 0; i < ranges.size(); i++)
-		{
-		    if (ranges[i]->Size() != aty->Ranges()[i]->Size())
-		    {
-			return 0;
-		    }
-		}
+		return 0;
 	    }
 	}
 	return this;
@@ -484,9 +484,9 @@ namespace Types
     {
 	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
 	{
-	    return rty->Type() == Type() && *range == *rty->range;
+	    return *OrdinalBase(baseType) == *OrdinalBase(rty->baseType) && *range == *rty->range;
 	}
-	return Type() == ty->Type();
+	return *OrdinalBase(baseType) == *ty;
     }
 
     const TypeDecl* RangeBaseDecl::CompatibleType(const TypeDecl* ty) const
@@ -495,7 +495,7 @@ namespace Types
 	{
 	    return this;
 	}
-	if (ty->Type() == Type())
+	if (ty->Type() == Type() && *OrdinalBase(baseType) == *OrdinalBase(const_cast<TypeDecl*>(ty)))
 	{
 	    return ty;
 	}
@@ -504,7 +504,7 @@ namespace Types
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
     {
-	if (SameAs(ty) || ty->Type() == Type())
+	if (SameAs(ty) || *OrdinalBase(baseType) == *OrdinalBase(const_cast<TypeDecl*>(ty)))
 	{
 	    return ty;
 	}
-- 
2.43.0


From 0949bb2a98ed198e9861d32d672d0bae899c1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 064/104] fix: binary files stored unconverted values,
 malformed read, write, case and sizeof arguments were accepted or crashed the
 compiler

---
 builtin.cpp   |  3 ++-
 constants.cpp |  5 +++++
 constants.h   |  1 +
 expr.cpp      | 16 +++++++++++++++-
 expr.h        |  6 ++++--
 parser.cpp    | 43 +++++++++++++++++++++++++++++++++++--------
 semantics.cpp | 44 +++++++++++++++++++++++++++++++++++++++-----
 types.cpp     |  2 +-
 8 files changed, 102 insertions(+), 18 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index d4e6463..ad79187 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1446,7 +1446,8 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!IsIntegral(args[0]->Type()) && !llvm::isa<Types::SetDecl>(args[0]->Type()))
+	auto sd = llvm::dyn_cast<Types::SetDecl>(args[0]->Type());
+	if (!IsIntegral(args[0]->Type()) && !(sd && sd->SubType()))
 	{
 	    return ErrorType::WrongArgType;
 	}
diff --git a/constants.cpp b/constants.cpp
index 0312103..70059eb 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -621,6 +621,11 @@ namespace Constants
 	return FindEvaluableFunc(name) != 0;
     }
 
+    bool IsOrdinal(const ConstDecl* c)
+    {
+	return llvm::isa<IntConstDecl, CharConstDecl, EnumConstDecl, BoolConstDecl>(c);
+    }
+
     int64_t ToInt(const ConstDecl* c)
     {
 	if (auto ci = llvm::dyn_cast<IntConstDecl>(c))
diff --git a/constants.h b/constants.h
index f7207b4..bfacdc1 100644
--- a/constants.h
+++ b/constants.h
@@ -163,6 +163,7 @@ namespace Constants
     bool IsEvaluableFunc(const std::string& name);
 
     int64_t ToInt(const ConstDecl* c);
+    bool    IsOrdinal(const ConstDecl* c);
     const ConstDecl* ToRealConstDecl(const ConstDecl* c);
 
 }; // namespace Constants
diff --git a/expr.cpp b/expr.cpp
index 2be63c8..14d1542 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3167,7 +3167,21 @@ llvm::Value* WriteAST::CodeGen()
 	}
 	else
 	{
-	    v = MakeAddressable(arg.expr);
+	    Types::TypeDecl* elemTy = llvm::cast<Types::FileDecl>(dest->Type())->SubType();
+	    if (auto sd = llvm::dyn_cast<Types::StringDecl>(elemTy))
+	    {
+		v = CreateTempAlloca(sd);
+		MakeStrAssign(v, MakeStringFromExpr(arg.expr, sd), sd->Capacity());
+	    }
+	    else if (IsIntegral(elemTy) || llvm::isa<Types::RealDecl>(elemTy))
+	    {
+		v = CreateTempAlloca(elemTy);
+		builder.CreateStore(arg.expr->CodeGen(), v);
+	    }
+	    else
+	    {
+		v = MakeAddressable(arg.expr);
+	    }
 	    argsV.push_back(builder.CreateBitCast(v, voidPtrTy));
 	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy, voidPtrTy }, "__write_bin");
 	}
diff --git a/expr.h b/expr.h
index ca96a54..0936a4b 100644
--- a/expr.h
+++ b/expr.h
@@ -849,8 +849,9 @@ class CaseExprAST : public ExprAST
     friend class TypeCheckVisitor;
 
 public:
-    CaseExprAST(const Location& w, ExprAST* e, const std::vector<LabelExprAST*>& lab, ExprAST* other)
-        : ExprAST(w, EK_CaseExpr), expr(e), labels(lab), otherwise(other)
+    CaseExprAST(const Location& w, ExprAST* e, const std::vector<LabelExprAST*>& lab, ExprAST* other,
+                Types::TypeDecl* ty)
+        : ExprAST(w, EK_CaseExpr), expr(e), labels(lab), otherwise(other), labelType(ty)
     {
     }
     void         DoDump() const override;
@@ -862,6 +863,7 @@ private:
     ExprAST*                   expr;
     std::vector<LabelExprAST*> labels;
     ExprAST*                   otherwise;
+    Types::TypeDecl*           labelType;
 };
 
 class WithExprAST : public ExprAST
diff --git a/parser.cpp b/parser.cpp
index 659216d..f638e58 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -454,7 +454,13 @@ Types::TypeDecl* Parser::GetTypeFromExpression()
     }
     if (ExprAST* e = ParseExpression())
     {
-	return e->Type();
+	Types::TypeDecl* ty = e->Type();
+	auto             sd = llvm::dyn_cast_or_null<Types::SetDecl>(ty);
+	if (!ty || llvm::isa<Types::VoidDecl>(ty) || (sd && !sd->GetRange()))
+	{
+	    return Error("Expected a type or an expression of a known size");
+	}
+	return ty;
     }
     return 0;
 }
@@ -722,11 +728,13 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	if (const Constants::ConstDecl* endC = ParseConstExpr(
 	        { endToken, altToken, Token::End, Token::RightParen, Token::Value }))
 	{
+	    type = startC->Type();
+	    if (!Constants::IsOrdinal(startC) || !Constants::IsOrdinal(endC) || type != endC->Type())
+	    {
+		return Error("Range should be of the same ordinal type at both ends");
+	    }
 	    int64_t start = Constants::ToInt(startC);
 	    int64_t end = Constants::ToInt(endC);
-
-	    type = startC->Type();
-	    ICE_IF(type != endC->Type(), "Expect same type on both sides");
 	    if (end < start)
 	    {
 		return Error("Invalid range specification");
@@ -790,7 +798,7 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	if (const VarDef* def = schema->FindVar(name))
 	{
 	    type = startC->Type();
-	    if (!type->CompatibleType(def->Type()))
+	    if (!Constants::IsOrdinal(startC) || !type->CompatibleType(def->Type()))
 	    {
 		return Error("Expected same type for schema range");
 	    }
@@ -936,8 +944,9 @@ public:
 		        { Token::Comma, Token::RightSquare }))
 		{
 		    Types::TypeDecl* type = cd->Type();
-		    if (type != cde->Type())
+		    if (type != cde->Type() || !Constants::IsOrdinal(cd) || !Constants::IsOrdinal(cde))
 		    {
+			parser.Error("Range should be of the same ordinal type at both ends");
 			return false;
 		    }
 		    int64_t start = Constants::ToInt(cd);
@@ -2018,6 +2027,10 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
     do
     {
 	const Constants::ConstDecl* c = ParseConstExpr({ Token::Comma, Token::RightParen });
+	if (!c || !Constants::IsOrdinal(c))
+	{
+	    return Error("Expected a constant of an ordinal type");
+	}
 	vals.push_back(ToInt(c));
 	AcceptToken(Token::Comma);
     } while (!AcceptToken(Token::RightParen));
@@ -3557,6 +3570,12 @@ ExprAST* Parser::ParseStatement()
 		    return Error("Invalid assignment");
 		}
 	    }
+	    else if (llvm::isa<VariableExprAST, ArrayExprAST, DynArrayExprAST, PointerExprAST, FilePointerExprAST,
+	                       FieldExprAST, VariantFieldExprAST, IntegerExprAST, RealExprAST, CharExprAST,
+	                       StringExprAST, SetExprAST, NilExprAST>(expr))
+	    {
+		return Error("Expected a statement, got a value");
+	    }
 	    return expr;
 	}
 	break;
@@ -3971,6 +3990,10 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		return 0;
 	    }
+	    if (!Constants::IsOrdinal(cd))
+	    {
+		return Error("Case label should be of an ordinal type");
+	    }
 	    int64_t value = Constants::ToInt(cd);
 	    if (type)
 	    {
@@ -4020,13 +4043,17 @@ ExprAST* Parser::ParseCaseExpr()
 	    break;
 	}
 	case Token::End:
-	    break;
+	    if (ranges.empty())
+	    {
+		break;
+	    }
+	    [[fallthrough]];
 
 	default:
 	    return Error("Syntax error: Expected ',' or ':' in case-statement.");
 	}
     } while (!AcceptToken(Token::End));
-    return new CaseExprAST(loc, expr, labels, otherwise);
+    return new CaseExprAST(loc, expr, labels, otherwise, type);
 }
 
 void Parser::ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount)
diff --git a/semantics.cpp b/semantics.cpp
index 395682b..3daa1f7 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -590,7 +590,7 @@ void TypeCheckVisitor::Check<UnaryExprAST>(UnaryExprAST* u)
     Types::TypeDecl* ty = u->rhs->Type();
     if (u->oper.GetToken() == Token::Not)
     {
-	if (!IsIntegral(ty) || llvm::isa<Types::CharDecl>(ty))
+	if (!llvm::isa<Types::IntegerDecl, Types::Int64Decl, Types::BoolDecl>(Types::OrdinalBase(ty)))
 	{
 	    Error(u, "Expect integral argument to NOT");
 	}
@@ -864,7 +864,8 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 		bad = false;
 	    }
 	}
-	else if (llvm::isa<Types::PointerDecl>(parg[idx].Type()) && llvm::isa<NilExprAST>(a))
+	else if (llvm::isa<Types::PointerDecl>(parg[idx].Type()) && llvm::isa<NilExprAST>(a) &&
+	         !parg[idx].IsRef())
 	{
 	    a = Recast(a, parg[idx].Type());
 	    bad = false;
@@ -937,6 +938,11 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
+	    if (!setDecl->SubType())
+	    {
+		setDecl->UpdateSubtype(vty);
+		setDecl->UpdateRange(GetRangeDecl(vty));
+	    }
 	    if (!setDecl->SubType()->CompatibleType(vty))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
@@ -992,7 +998,7 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
     {
 	for (auto arg : r->args)
 	{
-	    if (!llvm::isa<AddressableAST>(arg))
+	    if (!llvm::isa<AddressableAST>(arg) || llvm::isa<StringExprAST, SetExprAST, CallExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for Read/ReadLN - must be a variable-expression");
 	    }
@@ -1008,6 +1014,11 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 		    Error(arg, "Read argument must be simple type [or array of char NYI] or string");
 		}
 	    }
+	    else if (llvm::isa<Types::PointerDecl, Types::SetDecl, Types::ComplexDecl, Types::FileDecl, Types::EnumDecl>(
+	                 Types::OrdinalBase(arg->Type())) && !llvm::isa<Types::BoolDecl>(Types::OrdinalBase(arg->Type())))
+	    {
+		Error(arg, "Values of this type can not be read from text");
+	    }
 	}
     }
     else
@@ -1019,14 +1030,16 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	else
 	{
 	    ExprAST* arg = r->args[0];
-	    if (!llvm::isa<VariableExprAST>(arg))
+	    if (!llvm::isa<AddressableAST>(arg) || llvm::isa<StringExprAST, SetExprAST, CallExprAST>(arg))
 	    {
 		Error(arg, "Invalid argument for read - must be a variable-expression");
 	    }
 	    else
 	    {
 		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+		if (!fd || !fd->SubType()->AssignableType(arg->Type()) ||
+		    !SameVariableType(fd->SubType(), arg->Type()) ||
+		    fd->SubType()->Size() != arg->Type()->Size())
 		{
 		    Error(arg, "Read argument should match elements of the file");
 		}
@@ -1079,6 +1092,14 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 		{
 		    Error(e, "Write argument must be simple type or array of char or string");
 		}
+		else if (arg.precision)
+		{
+		    Error(e, "Unexpected precision argument when argument-type is not real");
+		}
+	    }
+	    else if (llvm::isa<Types::PointerDecl, Types::SetDecl, Types::ComplexDecl, Types::FileDecl>(e->Type()))
+	    {
+		Error(e, "Values of this type can not be written to text");
 	    }
 	    else if (arg.precision)
 	    {
@@ -1111,6 +1132,10 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else
+	    {
+		w->args[0].expr = Recast(arg, fd->SubType());
+	    }
 	}
     }
 }
@@ -1123,6 +1148,15 @@ void TypeCheckVisitor::Check<CaseExprAST>(CaseExprAST* c)
     {
 	Error(c, "Case selection must be integral type");
     }
+    else if (c->labelType)
+    {
+	Types::TypeDecl* sty = Types::OrdinalBase(c->expr->Type());
+	Types::TypeDecl* lty = Types::OrdinalBase(c->labelType);
+	if (*sty != *lty && !(Types::IsNumeric(sty) && Types::IsNumeric(lty)))
+	{
+	    Error(c, "Case labels should be of the same type as the selection");
+	}
+    }
 
     std::vector<std::pair<int64_t, int64_t>> vals;
     for (auto l : c->labels)
diff --git a/types.cpp b/types.cpp
index 97fbda9..0df38bf 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1344,7 +1344,7 @@ namespace Types
 	{
 	    if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	    {
-		if (aty->Ranges().size() == 1)
+		if (aty->Ranges().size() == 1 && IsCharArray(aty))
 		{
 		    return this;
 		}
-- 
2.43.0


From 087964aa6eb009348371aeb4cdefd2f868b4effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 065/104] fix: calls of routines without a body and gotos to
 unplaced labels crashed the compiler, indices of another enumeration,
 repeated labels and file assignment were accepted

---
 expr.h        |  1 +
 semantics.cpp | 73 ++++++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/expr.h b/expr.h
index 0936a4b..af85d2a 100644
--- a/expr.h
+++ b/expr.h
@@ -992,6 +992,7 @@ class GotoAST : public ExprAST
 {
 public:
     GotoAST(const Location& w, int d) : ExprAST(w, EK_Goto), dest(d) {}
+    int          Dest() const { return dest; }
     void         DoDump() const override;
     llvm::Value* CodeGen() override;
     static bool  classof(const ExprAST* e) { return e->getKind() == EK_Goto; }
diff --git a/semantics.cpp b/semantics.cpp
index 3daa1f7..2be450d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -10,6 +10,7 @@ class TypeCheckVisitor : public ASTVisitor
 public:
     TypeCheckVisitor(Source& src, Semantics* s) : sema(s), source(src){};
     void visit(ExprAST* expr) override;
+    void CheckLabels();
 
 private:
     Types::TypeDecl* BinarySetUpdate(BinaryExprAST* b);
@@ -23,6 +24,9 @@ private:
 private:
     Semantics* sema;
     Source&    source;
+    // Labels placed and used by goto in the current function.
+    std::vector<int64_t>                    labels;
+    std::vector<std::pair<GotoAST*, int64_t>> gotos;
 };
 
 template<typename T>
@@ -484,6 +488,56 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
     return 0;
 }
 
+void TypeCheckVisitor::CheckLabels()
+{
+    for (auto g : gotos)
+    {
+	if (std::find(labels.begin(), labels.end(), g.second) == labels.end())
+	{
+	    Error(g.first, "Label " + std::to_string(g.second) + " is not used for any statement");
+	}
+    }
+    labels.clear();
+    gotos.clear();
+}
+
+// The body of a function is visited after the function, and before the functions inside it.
+template<>
+void TypeCheckVisitor::Check<FunctionAST>(FunctionAST* f)
+{
+    CheckLabels();
+}
+
+template<>
+void TypeCheckVisitor::Check<LabelExprAST>(LabelExprAST* l)
+{
+    if (l->stmt)
+    {
+	return;
+    }
+    int64_t label = l->labelValues[0].first;
+    if (std::find(labels.begin(), labels.end(), label) != labels.end())
+    {
+	Error(l, "Label " + std::to_string(label) + " is used for more than one statement");
+    }
+    labels.push_back(label);
+}
+
+template<>
+void TypeCheckVisitor::Check<GotoAST>(GotoAST* g)
+{
+    gotos.push_back({ g, g->Dest() });
+}
+
+template<>
+void TypeCheckVisitor::Check<FunctionExprAST>(FunctionExprAST* f)
+{
+    if (!f->Proto()->Function())
+    {
+	Error(f, "The body of '" + f->Proto()->Name() + "' is missing");
+    }
+}
+
 template<>
 void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 {
@@ -689,7 +743,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
     }
 
     const Types::TypeDecl* ty = lty->AssignableType(rty);
-    if (!ty)
+    if (!ty || llvm::isa<Types::FileDecl>(lty))
     {
 	Error(a, "Incompatible type in assignment");
 	return;
@@ -725,6 +779,14 @@ void TypeCheckVisitor::Check<SetExprAST>(SetExprAST* s)
     }
 }
 
+// Are these two different enumerations, or parts of such?
+static bool OtherEnum(Types::RangeBaseDecl* range, Types::TypeDecl* ty)
+{
+    Types::TypeDecl* rty = Types::OrdinalBase(range->SubType());
+    ty = Types::OrdinalBase(ty);
+    return llvm::isa<Types::EnumDecl>(rty) && llvm::isa<Types::EnumDecl>(ty) && *rty != *ty;
+}
+
 template<>
 void TypeCheckVisitor::Check<ArrayExprAST>(ArrayExprAST* a)
 {
@@ -742,7 +804,7 @@ void TypeCheckVisitor::Check<ArrayExprAST>(ArrayExprAST* a)
 	{
 	    continue;
 	}
-	if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
+	if ((r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r)) || OtherEnum(r, e->Type()))
 	{
 	    Error(a, "Incorrect index type");
 	}
@@ -770,7 +832,7 @@ void TypeCheckVisitor::Check<DynArrayExprAST>(DynArrayExprAST* d)
     Types::DynRangeDecl* r = d->range;
     if (llvm::isa<RangeReduceAST>(e))
 	return;
-    if (r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r))
+    if ((r->Type() != e->Type()->Type() && !e->Type()->CompatibleType(r)) || OtherEnum(r, e->Type()))
     {
 	Error(d, "Incorrect index type");
     }
@@ -1279,6 +1341,10 @@ void TypeCheckVisitor::visit(ExprAST* expr)
 	expr->dump();
     }
 
+    MaybeCheck<FunctionAST>(expr);
+    MaybeCheck<FunctionExprAST>(expr);
+    MaybeCheck<LabelExprAST>(expr);
+    MaybeCheck<GotoAST>(expr);
     MaybeCheck<BinaryExprAST>(expr);
     MaybeCheck<UnaryExprAST>(expr);
     MaybeCheck<AssignExprAST>(expr);
@@ -1305,5 +1371,6 @@ void Semantics::Analyse(Source& src, ExprAST* ast)
 
     TypeCheckVisitor tc(src, this);
     ast->accept(tc);
+    tc.CheckLabels();
     RunFixups();
 }
-- 
2.43.0


From 6dea1b63a73020e3515a88ececa563ac774e1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 066/104] fix: an empty statement before until or else was
 rejected, a label in the last branch of a case was rejected, a function was
 accepted for a procedure parameter

---
 expr.cpp   | 14 ++++++++++----
 parser.cpp |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 14d1542..ad42257 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2058,6 +2058,11 @@ bool PrototypeAST::operator==(const PrototypeAST& rhs) const
     {
 	return false;
     }
+    // A procedure is not a function, nor are functions of different types the same
+    if (*type != *rhs.type)
+    {
+	return false;
+    }
     // Not equal if args are different types
     for (size_t i = 0; i < args.size(); i++)
     {
@@ -2094,6 +2099,10 @@ bool PrototypeAST::IsMatchWithoutClosure(const PrototypeAST* rhs) const
     {
 	return false;
     }
+    if (*type != *rhs->type)
+    {
+	return false;
+    }
     for (size_t i = 0; i < rhs->args.size(); i++)
     {
 	if (*args[i + 1].Type() != *rhs->args[i].Type())
@@ -3650,12 +3659,9 @@ void CaseExprAST::accept(ASTVisitor& v)
     expr->accept(v);
     for (auto l : labels)
     {
+	// The statement of 'otherwise' is that of one of the labels
 	l->accept(v);
     }
-    if (otherwise)
-    {
-	otherwise->accept(v);
-    }
     v.visit(this);
 }
 
diff --git a/parser.cpp b/parser.cpp
index f638e58..69c891c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3552,6 +3552,8 @@ ExprAST* Parser::ParseStatement()
 
     case Token::Semicolon:
     case Token::End:
+    case Token::Until:
+    case Token::Else:
 	// Empty block.
 	return new BlockAST(CurrentToken().Loc(), {});
 
-- 
2.43.0


From edef03e7773ee8318ba0261f819bf558cb49e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 067/104] fix: a for-in loop with a variable of another type
 than the elements was accepted

---
 semantics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 2be450d..b227fc3 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1005,7 +1005,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 		setDecl->UpdateSubtype(vty);
 		setDecl->UpdateRange(GetRangeDecl(vty));
 	    }
-	    if (!setDecl->SubType()->CompatibleType(vty))
+	    if (!IsIntegral(vty) || !setDecl->SubType()->CompatibleType(vty))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
 	    }
@@ -1016,7 +1016,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	    {
 		Error(f->start, "Expected signle dimension array");
 	    }
-	    if (!arrDecl->SubType()->CompatibleType(vty))
+	    if (!arrDecl->SubType()->CompatibleType(vty) || !SameVariableType(vty, arrDecl->SubType()))
 	    {
 		Error(f->variable, "Expected loop variable to be compatible with array");
 	    }
-- 
2.43.0


From e68574d516b828baf23418adcd02ed09880f3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 068/104] fix: initial values of several variables, subranges,
 sets and strings, overlong or mistyped initial values, duplicate parameters
 and variant fields, overlong numbers

---
 expr.cpp   |  23 +++++++--
 parser.cpp | 149 +++++++++++++++++++++++++++++++++++++++++++++++------
 token.cpp  |   1 +
 types.h    |   7 ++-
 4 files changed, 160 insertions(+), 20 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index ad42257..a8bebc9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4650,11 +4650,19 @@ llvm::Value* InitValueAST::CodeGen()
     if (auto sd = llvm::dyn_cast<Types::StringDecl>(type))
     {
 	size_t      size = type->Size();
-	auto        se = llvm::dyn_cast<StringExprAST>(values[0]);
+	std::string val;
 	std::string str;
 	str.resize(size);
-	ICE_IF(!se, "Expected this to be a string expression");
-	const std::string& val = se->Str();
+	if (auto ie = llvm::dyn_cast<IntegerExprAST>(values[0]))
+	{
+	    val.resize(1, ie->Int());
+	}
+	else
+	{
+	    auto se = llvm::dyn_cast<StringExprAST>(values[0]);
+	    ICE_IF(!se, "Expected this to be a string expression");
+	    val = se->Str();
+	}
 	str[0] = val.size();
 	for (size_t i = 1; i <= val.size(); i++)
 	{
@@ -4732,7 +4740,7 @@ llvm::Value* InitArrayAST::CodeGen()
     {
 	if (!i)
 	{
-	    i = otherwise;
+	    i = otherwise ? otherwise : llvm::Constant::getNullValue(aty->SubType()->LlvmType());
 	}
     }
 
@@ -4782,6 +4790,13 @@ llvm::Value* InitRecordAST::CodeGen()
 	}
     }
     auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
+    for (size_t i = 0; i < initArr.size(); i++)
+    {
+	if (!initArr[i])
+	{
+	    initArr[i] = llvm::Constant::getNullValue(ty->getElementType(i));
+	}
+    }
 
     llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
     return init;
diff --git a/parser.cpp b/parser.cpp
index 69c891c..1346348 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -122,6 +122,7 @@ public:
                          const std::string& resultName);
 
     ExprAST* ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c);
+    ExprAST* MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd);
     ExprAST* ParseInitValue(Types::TypeDecl* ty);
 
     // Type declarations and defintitions
@@ -1571,6 +1572,10 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
 	AssertToken(Token::Identifier);
 	AssertToken(Token::Colon);
     }
+    else
+    {
+	marker.clear();
+    }
     Types::TypeDecl* markerTy = ParseType("", NoForwarding);
     if (!markerTy)
     {
@@ -1704,6 +1709,40 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
     return new Types::VariantDecl(variants);
 }
 
+// Adds the names of fields, those of variants included, to names. Returns the name that was already there.
+static std::string CollectNames(const std::vector<Types::FieldDecl*>& fields, std::vector<std::string>& names)
+{
+    for (auto f : fields)
+    {
+	std::string name = f->Name();
+	strlower(name);
+	if (!name.empty())
+	{
+	    if (std::find(names.begin(), names.end(), name) != names.end())
+	    {
+		return name;
+	    }
+	    names.push_back(name);
+	}
+	else if (auto rd = llvm::dyn_cast<Types::RecordDecl>(f->SubType()))
+	{
+	    for (const Types::FieldCollection* fc : { (Types::FieldCollection*)rd,
+	                                              (Types::FieldCollection*)rd->Variant() })
+	    {
+		for (int i = 0; fc && i < fc->FieldCount(); i++)
+		{
+		    std::string dup = CollectNames({ const_cast<Types::FieldDecl*>(fc->GetElement(i)) }, names);
+		    if (!dup.empty())
+		    {
+			return dup;
+		    }
+		}
+	    }
+	}
+    }
+    return "";
+}
+
 bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantDecl*& variant,
                          Token::TokenType type)
 {
@@ -1855,6 +1894,17 @@ Types::RecordDecl* Parser::ParseRecordDecl()
 	{
 	    return Error("No elements in record declaration");
 	}
+	std::vector<std::string>       names;
+	std::vector<Types::FieldDecl*> all = fields;
+	if (variant)
+	{
+	    all.push_back(new Types::FieldDecl("", new Types::RecordDecl({}, variant), false));
+	}
+	std::string dup = CollectNames(all, names);
+	if (!dup.empty())
+	{
+	    return Error("Duplicate field name '" + dup + "' in record");
+	}
 
 	std::vector<RecordInit> init;
 
@@ -3046,7 +3096,7 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-	return new IntegerExprAST(loc, Constants::ToInt(c), c->Type());
+	return new IntegerExprAST(loc, Constants::ToInt(c), IsIntegral(ty) ? ty : c->Type());
     }
     if (auto rc = llvm::dyn_cast<Constants::RealConstDecl>(c))
     {
@@ -3067,6 +3117,38 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
     return Error("Unexpected constant type");
 }
 
+// The value of a constant as the initial value of a variable or component of type ty
+ExprAST* Parser::MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd)
+{
+    auto sc = llvm::dyn_cast<Constants::StringConstDecl>(cd);
+    if (IsStringLike(ty) && !IsIntegral(ty) && IsStringLike(cd->Type()))
+    {
+	auto   sd = llvm::dyn_cast<Types::StringDecl>(ty);
+	size_t capacity = sd ? sd->Capacity() : ty->Size();
+	if (sc && sc->Value().size() > capacity)
+	{
+	    return Error("Initial value is too long");
+	}
+    }
+    else if (!ty->AssignableType(cd->Type()))
+    {
+	return Error("Incompatible type");
+    }
+    if (auto rd = llvm::dyn_cast<Types::RangeDecl>(ty))
+    {
+	int64_t v = Constants::ToInt(cd);
+	if (v < rd->Start() || v > rd->End())
+	{
+	    return Error("Initial value is out of range");
+	}
+    }
+    if (ExprAST* e = ConstDeclToExpr(loc, ty, cd))
+    {
+	return new InitValueAST(loc, ty, { e });
+    }
+    return 0;
+}
+
 class CCArrayInitList : public ListConsumer
 {
 public:
@@ -3082,6 +3164,15 @@ public:
 	if (parser.AcceptToken(Token::Otherwise))
 	{
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
+	    if (!e)
+	    {
+		return false;
+	    }
+	    if (hasOtherwise)
+	    {
+		return parser.ErrorT(bool, "Only one otherwise is allowed in an initializer");
+	    }
+	    hasOtherwise = true;
 	    list.push_back({ e });
 	    return true;
 	}
@@ -3094,9 +3185,9 @@ public:
 		parser.Error("Initializer index should be an integral type");
 		return false;
 	    }
-	    int  value = Constants::ToInt(cd);
-	    int  end = 0;
-	    bool hasEnd = false;
+	    int64_t value = Constants::ToInt(cd);
+	    int64_t end = value;
+	    bool    hasEnd = false;
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		cd = parser.ParseConstExpr({ Token::Colon });
@@ -3113,7 +3204,15 @@ public:
 		end = Constants::ToInt(cd);
 		hasEnd = true;
 	    }
-	    parser.Expect(Token::Colon, ExpectConsume);
+	    Types::Range* range = type->Ranges()[0]->GetRange();
+	    if (value > end || value < range->Start() || end > range->End())
+	    {
+		return parser.ErrorT(bool, "Initializer index is out of range");
+	    }
+	    if (!parser.Expect(Token::Colon, ExpectConsume))
+	    {
+		return false;
+	    }
 	    ExprAST* e = parser.ParseInitValue(type->SubType());
 	    if (!e)
 	    {
@@ -3136,6 +3235,7 @@ public:
 private:
     std::vector<ArrayInit> list;
     Types::ArrayDecl*      type;
+    bool                   hasOtherwise = false;
 };
 
 class CCRecordInitList : public ListConsumer
@@ -3180,12 +3280,16 @@ public:
 	    }
 	    if (!parser.AcceptToken(Token::Comma))
 	    {
-		parser.Expect(Token::Colon, ExpectConsume);
+		if (!parser.Expect(Token::Colon, ExpectConsume))
+		{
+		    return false;
+		}
 		if (ExprAST* e = parser.ParseInitValue(fty->SubType()))
 		{
 		    list.push_back({ elems, e });
 		    return true;
 		}
+		return false;
 	    }
 	} while (true);
     }
@@ -3224,16 +3328,15 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 	{
 	    if (const Constants::ConstDecl* cd = GetConstDecl(name))
 	    {
-		const Types::TypeDecl* tt = ty->AssignableType(cd->Type());
-		if (!tt)
-		{
-		    return Error("Incompatible type");
-		}
 		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+		return MakeInitValue(loc, ty, cd);
 	    }
 	    return Error("Unexpected identifier");
 	}
+	if (CurrentToken().GetToken() == Token::LeftSquare && arrTy->Ranges().size() != 1)
+	{
+	    return Error("Initial values are only supported for arrays of one dimension");
+	}
 	if (AcceptToken(Token::LeftSquare))
 	{
 	    CCArrayInitList cca(arrTy);
@@ -3245,7 +3348,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 	}
 	else if (!IsStringLike(ty))
 	{
-	    return 0;
+	    return Error("Expected initial value for array");
 	}
     }
     if (llvm::isa<Types::RecordDecl>(ty))
@@ -3264,7 +3367,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
                                                           Token::RightSquare, Token::Otherwise,
                                                           Token::RightParen }))
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	return MakeInitValue(loc, ty, cd);
     }
     return 0;
 }
@@ -3283,6 +3386,7 @@ VarDeclAST* Parser::ParseVarDecls()
 	{
 	    if (Types::TypeDecl* type = ParseType("", NoForwarding))
 	    {
+		const size_t first = varList.size();
 		for (auto n : ccv.Names())
 		{
 		    VarDef v(n, type);
@@ -3305,7 +3409,10 @@ VarDeclAST* Parser::ParseVarDecls()
 		{
 		    init = type->Init();
 		}
-		varList.back().SetInit(init);
+		for (size_t i = first; i < varList.size(); i++)
+		{
+		    varList[i].SetInit(init);
+		}
 		good = Expect(Token::Semicolon, ExpectConsume);
 	    }
 	}
@@ -3504,6 +3611,18 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	}
     }
 
+    std::vector<std::string> argNames;
+    for (auto v : args)
+    {
+	std::string n = v.Name();
+	strlower(n);
+	if (std::find(argNames.begin(), argNames.end(), n) != argNames.end())
+	{
+	    return Error("Duplicate name '" + v.Name() + "'.");
+	}
+	argNames.push_back(n);
+    }
+
     Types::TypeDecl* resultType;
     std::string      resultName = funcName;
     // If we have a function, expect ": type".
diff --git a/token.cpp b/token.cpp
index 9992bc5..0ff4995 100644
--- a/token.cpp
+++ b/token.cpp
@@ -187,6 +187,7 @@ const TokenEntry tokenTable[] = {
     { Token::SizeOf, true, -1, "sizeof" },
     { Token::Identifier, false, -1, "identifier" },
     { Token::Unknown, false, -1, "Unknown" },
+    { Token::Overflow, false, -1, "number out of range" },
     { Token::UntermString, false, -1, "unterminated string" },
     { Token::EndOfFile, false, -1, "EOF" },
 };
diff --git a/types.h b/types.h
index 3322747..e51a00e 100644
--- a/types.h
+++ b/types.h
@@ -274,6 +274,7 @@ namespace Types
 	void        DoDump() const override;
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Range; }
 	bool        SameAs(const TypeDecl* ty) const override;
+	TypeDecl*   Clone() const override { return new RangeDecl(range, baseType); }
 	int         Start() const { return range->Start(); }
 	int         End() const { return range->End(); }
 	size_t      RangeSize() const override { return range->Size(); }
@@ -408,7 +409,8 @@ namespace Types
     public:
 	BoolDecl() : EnumDecl(TK_Boolean, std::vector<std::string>{ "false", "true" }, this) {}
 	void        DoDump() const override;
-	bool        SameAs(const TypeDecl* ty) const override { return ty == this; }
+	bool        SameAs(const TypeDecl* ty) const override { return ty->Type() == TK_Boolean; }
+	TypeDecl*   Clone() const override { return new BoolDecl(); }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
 
     protected:
@@ -708,6 +710,7 @@ namespace Types
 	void            UpdateSubtype(TypeDecl* ty);
 	bool            SameAs(const TypeDecl* ty) const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new SetDecl(kind, range, baseType); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -728,6 +731,7 @@ namespace Types
 	static bool     classof(const TypeDecl* e) { return e->getKind() == TK_String; }
 	void            DoDump() const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new StringDecl(Capacity()); }
 	int             Capacity() const { return Ranges()[0]->GetRange()->Size() - 2; }
     };
 
@@ -742,6 +746,7 @@ namespace Types
 	{
 	}
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new ComplexDecl(); }
 	static bool     classof(const TypeDecl* e) { return e->getKind() == TK_Complex; }
     };
 
-- 
2.43.0


From 19325137f770b5599801f50fa79ce9e4a28ea060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 069/104] fix: a missing name was not reported

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 1346348..db3f934 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -365,6 +365,10 @@ std::string Parser::GetIdentifier(const char* file, int line, ExpectConsuming co
 	}
 	return name;
     }
+    if (consumption == ExpectConsume)
+    {
+	Expect(Token::Identifier, NoExpectConsume, file, line);
+    }
     return "";
 }
 
-- 
2.43.0


From bcdedfe029f22179c1296917b75b9d0dbae60a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 070/104] fix: an object file that could not be written was
 linked all the same, file names with special characters and running lacsap
 from the PATH failed

---
 binary.cpp | 47 +++++++++++++++++++++++++++++++++++++----------
 lacsap.cpp |  3 ++-
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/binary.cpp b/binary.cpp
index be1ce48..0867e54 100644
--- a/binary.cpp
+++ b/binary.cpp
@@ -46,7 +46,7 @@ static llvm::ToolOutputFile* GetOutputStream(const std::string& filename)
     llvm::ToolOutputFile*    FDOut = new llvm::ToolOutputFile(filename, error, OpenFlags);
     if (error)
     {
-	std::cerr << error << '\n';
+	std::cerr << filename << ": " << error.message() << '\n';
 	delete FDOut;
 	return 0;
     }
@@ -54,7 +54,7 @@ static llvm::ToolOutputFile* GetOutputStream(const std::string& filename)
     return FDOut;
 }
 
-static void CreateObject(llvm::Module* module, const std::string& objname)
+static bool CreateObject(llvm::Module* module, const std::string& objname)
 {
     TIME_TRACE();
     llvm::InitializeAllTargets();
@@ -69,7 +69,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!target)
     {
 	std::cerr << "Error, could not find target: " << error << std::endl;
-	return;
+	return false;
     }
 
     std::string mcpu = llvm::codegen::getMCPU();
@@ -86,7 +86,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!tm)
     {
 	std::cerr << "Error: Could not create targetmachine." << std::endl;
-	return;
+	return false;
     }
 
     llvm::legacy::PassManager           PM;
@@ -97,7 +97,7 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
     if (!Out)
     {
 	std::cerr << "Could not open file ... " << std::endl;
-	return;
+	return false;
     }
 
     llvm::raw_pwrite_stream* OS = &Out->os();
@@ -107,16 +107,18 @@ static void CreateObject(llvm::Module* module, const std::string& objname)
 	std::cerr << objname
 	          << ": target does not support generation of this"
 	             " file type!\n";
-	return;
+	return false;
     }
     PM.run(*module);
     Out->keep();
+    return true;
 }
 
 std::string replace_ext(const std::string& origName, const std::string& expectedExt,
                         const std::string& newExt)
 {
-    if (origName.substr(origName.size() - expectedExt.size()) != expectedExt)
+    if (origName.size() < expectedExt.size() ||
+        origName.substr(origName.size() - expectedExt.size()) != expectedExt)
     {
 	std::cerr << "Could not find extension..." << std::endl;
 	exit(1);
@@ -124,6 +126,24 @@ std::string replace_ext(const std::string& origName, const std::string& expected
     return origName.substr(0, origName.size() - expectedExt.size()) + newExt;
 }
 
+// Quote a name so that the shell passes it on as it is
+static std::string Quote(const std::string& name)
+{
+    std::string quoted = "'";
+    for (char c : name)
+    {
+	if (c == '\'')
+	{
+	    quoted += "'\\''";
+	}
+	else
+	{
+	    quoted += c;
+	}
+    }
+    return quoted + "'";
+}
+
 bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType emit)
 {
     TIME_TRACE();
@@ -144,7 +164,10 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	    modelStr = "-m32";
 	}
 
-	CreateObject(module, objname);
+	if (!CreateObject(module, objname))
+	{
+	    return false;
+	}
 	std::string verboseflags;
 	if (verbosity)
 	{
@@ -155,8 +178,8 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 	{
 	    debugFlag = " -g";
 	}
-	std::string cmd = compiler + " " + modelStr + verboseflags + " " + objname + " -L\"" + libpath +
-	                  "\" -lruntime" + modelStr + debugFlag + " -lm -o " + exename;
+	std::string cmd = compiler + " " + modelStr + verboseflags + " " + Quote(objname) + " -L" +
+	                  Quote(libpath) + " -lruntime" + modelStr + debugFlag + " -lm -o " + Quote(exename);
 	if (verbosity)
 	{
 	    std::cerr << "Executing final link command: " << cmd << std::endl;
@@ -173,6 +196,10 @@ bool CreateBinary(llvm::Module* module, const std::string& filename, EmitType em
 
     std::string                           irName = replace_ext(filename, ".pas", ".ll");
     std::unique_ptr<llvm::ToolOutputFile> Out(GetOutputStream(irName));
+    if (!Out)
+    {
+	return false;
+    }
     llvm::formatted_raw_ostream           FOS(Out->os());
     module->print(FOS, 0);
     Out->keep();
diff --git a/lacsap.cpp b/lacsap.cpp
index d0d1b8f..52fd709 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -16,6 +16,7 @@
 
 #include <llvm/IR/PassManager.h>
 #include <llvm/Support/CommandLine.h>
+#include <llvm/Support/FileSystem.h>
 #include <llvm/Support/TargetSelect.h>
 #include <llvm/Transforms/InstCombine/InstCombine.h>
 #include <llvm/Transforms/IPO.h>
@@ -201,7 +202,7 @@ static int Compile(const std::string& fileName)
 
 int main(int argc, char** argv)
 {
-    libpath = GetPath(argv[0]);
+    libpath = GetPath(llvm::sys::fs::getMainExecutable(argv[0], (void*)&CreateModule));
     llvm::cl::ParseCommandLineOptions(argc, argv);
     int res = Compile(InputFilename);
     return res;
-- 
2.43.0


From 62e78c2836a0b3e3c74437ada3ad634203eaa3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 071/104] fix: comparing string literals of different lengths
 was rejected, -emit=ast crashed on for-in loops, labels and routines without
 a body

---
 expr.cpp      | 25 +++++++++++++++----------
 semantics.cpp |  7 ++++---
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index a8bebc9..1249e59 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2133,7 +2133,10 @@ void FunctionAST::DoDump() const
     std::cerr << "Function: " << std::endl;
     proto->DoDump();
     std::cerr << "Function body:" << std::endl;
-    body->DoDump();
+    if (body)
+    {
+	body->DoDump();
+    }
 }
 
 void FunctionAST::accept(ASTVisitor& v)
@@ -2530,15 +2533,11 @@ void ForExprAST::DoDump() const
 {
     std::cerr << "for: " << std::endl;
     start->DoDump();
-    if (stepDown)
-    {
-	std::cerr << " downto ";
-    }
-    else
+    if (end)
     {
-	std::cerr << " to ";
+	std::cerr << (stepDown ? " downto " : " to ");
+	end->DoDump();
     }
-    end->DoDump();
     std::cerr << " do ";
     body->DoDump();
 }
@@ -3595,7 +3594,10 @@ void LabelExprAST::DoDump() const
 	first = false;
     }
     std::cerr << ": ";
-    stmt->DoDump();
+    if (stmt)
+    {
+	stmt->DoDump();
+    }
 }
 
 llvm::Value* LabelExprAST::CodeGen()
@@ -4473,7 +4475,10 @@ void UnitAST::DoDump() const
     {
 	a->dump();
     }
-    initFunc->dump();
+    if (initFunc)
+    {
+	initFunc->dump();
+    }
 }
 
 void UnitAST::accept(ASTVisitor& v)
diff --git a/semantics.cpp b/semantics.cpp
index b227fc3..4e3a9b3 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -345,16 +345,17 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    return Types::Get<Types::BoolDecl>();
 	}
 	auto isChar = [](Types::TypeDecl* ty) { return llvm::isa<Types::CharDecl>(Types::OrdinalBase(ty)); };
+	bool literals = llvm::isa<StringExprAST>(b->lhs) && llvm::isa<StringExprAST>(b->rhs);
 	if (llvm::isa<Types::StringDecl>(lty) || llvm::isa<Types::StringDecl>(rty) ||
-	    (Types::IsCharArray(lty) && isChar(rty)) || (Types::IsCharArray(rty) && isChar(lty)))
+	    (Types::IsCharArray(lty) && isChar(rty)) || (Types::IsCharArray(rty) && isChar(lty)) ||
+	    (literals && lty->Size() != rty->Size()))
 	{
 	    auto ty = Types::Get<Types::StringDecl>(255);
 	    b->rhs = Recast(b->rhs, ty);
 	    b->lhs = Recast(b->lhs, ty);
 	    return Types::Get<Types::BoolDecl>();
 	}
-	if (Types::IsCharArray(lty) && Types::IsCharArray(rty) && lty->Size() != rty->Size() &&
-	    !(llvm::isa<StringExprAST>(b->lhs) && llvm::isa<StringExprAST>(b->rhs)))
+	if (Types::IsCharArray(lty) && Types::IsCharArray(rty) && lty->Size() != rty->Size())
 	{
 	    Error(b, "Compared character arrays have different sizes");
 	    return Types::Get<Types::BoolDecl>();
-- 
2.43.0


From 6d47e80fdc523cae9c1501fb334f3b07baecd247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 072/104] fix: a crash of the compiler was silent

---
 lacsap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lacsap.cpp b/lacsap.cpp
index 52fd709..dd587e4 100644
--- a/lacsap.cpp
+++ b/lacsap.cpp
@@ -17,6 +17,7 @@
 #include <llvm/IR/PassManager.h>
 #include <llvm/Support/CommandLine.h>
 #include <llvm/Support/FileSystem.h>
+#include <llvm/Support/Signals.h>
 #include <llvm/Support/TargetSelect.h>
 #include <llvm/Transforms/InstCombine/InstCombine.h>
 #include <llvm/Transforms/IPO.h>
@@ -200,8 +201,15 @@ static int Compile(const std::string& fileName)
     return 0;
 }
 
+// Don't let the compiler crash without a word.
+static void CrashHandler(void*)
+{
+    llvm::errs() << "Internal compiler error: the compiler crashed\n";
+}
+
 int main(int argc, char** argv)
 {
+    llvm::sys::AddSignalHandler(CrashHandler, nullptr);
     libpath = GetPath(llvm::sys::fs::getMainExecutable(argv[0], (void*)&CreateModule));
     llvm::cl::ParseCommandLineOptions(argc, argv);
     int res = Compile(InputFilename);
-- 
2.43.0


From 4f195d11b4ab0882042c257eda368203cda13f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 073/104] fix: files in arrays, records and on the heap had no
 defined state or crashed the compiler

---
 expr.cpp        | 26 ++++++++++++++++++++++----
 runtime/alloc.c |  3 ++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 1249e59..16d3b4d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -633,9 +633,8 @@ void FilePointerExprAST::DoDump() const
 llvm::Value* FilePointerExprAST::Address()
 {
     TRACE();
-    auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
-    ICE_IF(!vptr, "Expected variable expression!");
-    llvm::Value* v = vptr->Address();
+    llvm::Value* v = MakeAddressable(pointer);
+    ICE_IF(!v, "Expected file to have an address");
     llvm::Type*  fileTy = pointer->Type()->LlvmType();
     llvm::Type*  ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
     v = builder.CreateGEP(fileTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(Types::FileDecl::Buffer) },
@@ -3498,6 +3497,25 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     return v;
 }
 
+static bool ContainsFile(const Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	return !llvm::isa<Types::StringDecl>(ad) && ContainsFile(ad->SubType());
+    }
+    if (auto rd = llvm::dyn_cast<Types::RecordDecl>(ty))
+    {
+	for (int i = 0; i < rd->FieldCount(); i++)
+	{
+	    if (ContainsFile(rd->GetElement(i)->SubType()))
+	    {
+		return true;
+	    }
+	}
+    }
+    return llvm::isa<Types::FileDecl>(ty);
+}
+
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
@@ -3510,7 +3528,7 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
-    else if (llvm::isa<Types::FileDecl>(var.Type()))
+    else if (ContainsFile(var.Type()))
     {
 	// The runtime uses a zero handle for a file that has not been assigned a name.
 	builder.CreateStore(llvm::Constant::getNullValue(var.Type()->LlvmType()), v);
diff --git a/runtime/alloc.c b/runtime/alloc.c
index 591f52a..dcd6aca 100644
--- a/runtime/alloc.c
+++ b/runtime/alloc.c
@@ -7,7 +7,8 @@
  */
 void* __new(int size)
 {
-    return malloc(size);
+    // Files in the new variable have no name yet, which the runtime knows by a zero handle.
+    return calloc(1, size);
 }
 
 void __dispose(void* ptr)
-- 
2.43.0


From cf910fa6ba6327211fcc014c8e2187f72b2dcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 074/104] fix: file names in string variables were passed by
 value

---
 builtin.cpp       |  7 +++++--
 runtime/assign.c  | 12 ++++++++++++
 runtime/runtime.h |  1 +
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index ad79187..ce98363 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1251,11 +1251,14 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
+	// A literal is passed as it is, other values as a string with a length.
+	bool                     literal = llvm::isa<StringExprAST>(args[1]);
+	llvm::Value*             filename = literal ? args[1]->CodeGen() : MakeStringFromExpr(args[1], args[1]->Type());
 	llvm::Type*              ty = filename->getType();
 	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
 
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes,
+	                                     literal ? "__assign" : "__assign_string");
 
 	return builder.CreateCall(f, { faddr, filename });
     }
diff --git a/runtime/assign.c b/runtime/assign.c
index f8e9b2d..66ce878 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -74,6 +74,18 @@ void __assign(File* f, char* name)
     strcpy(files[i].name, name);
 }
 
+/*******************************************
+ * File assign from a string
+ *******************************************
+ */
+void __assign_string(File* f, const String* name)
+{
+    char tmp[MaxStringLen + 1];
+    memcpy(tmp, name->str, name->len);
+    tmp[name->len] = 0;
+    __assign(f, tmp);
+}
+
 /*******************************************
  * File assign for unnamed file
  *******************************************
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 6477ce1..54bbacb 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -116,4 +116,5 @@ void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
 void __assign(File* f, char* name);
+void __assign_string(File* f, const String* name);
 void __assign_unnamed(File* f);
-- 
2.43.0


From 533305d6abfe7de2049256f2670ae727d28ad5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 075/104] fix: all unnamed files shared one temporary file

---
 runtime/assign.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/assign.c b/runtime/assign.c
index 66ce878..6a31e89 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -93,9 +93,10 @@ void __assign_string(File* f, const String* name)
 void __assign_unnamed(File* f)
 {
     char       name[] = "lacsap_tmp_file_NNNNNN";
-    static int n = 0;
-    n++;
-    n %= MaxPascalFiles;
+    static int number = 0;
+    number++;
+    number %= MaxPascalFiles;
+    int    n = number;
     size_t pos = strlen(name) - 1;
     for (int i = 0; i < 6; i++)
     {
-- 
2.43.0


From 4da05112fbb27e7286578f9d936fa36ecda910db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 076/104] fix: put on a text file wrote the whole buffer

---
 runtime/getput.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/getput.c b/runtime/getput.c
index f8f27ee..0bd4a9b 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -12,7 +12,8 @@ void __put(File* file)
     {
 	f = &files[file->handle];
     }
-    fwrite(file->buffer, file->recordSize, 1, f->file);
+    /* The record of a text file is its line buffer: what is put is one char */
+    fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, f->file);
 }
 
 int __get(File* file)
-- 
2.43.0


From a83b73303ab291426429bca622b23714ca60c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 077/104] fix: position and lastposition had random upper
 halves with -m32

---
 runtime/seek.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/seek.c b/runtime/seek.c
index dc5e537..08cec30 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -55,7 +55,7 @@ bool __empty(File* f)
     return false;
 }
 
-long __position(File* f)
+int64_t __position(File* f)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
@@ -67,7 +67,7 @@ long __position(File* f)
     return 0;
 }
 
-long __lastposition(File* f)
+int64_t __lastposition(File* f)
 {
     if (files[f->handle].inUse && files[f->handle].file != NULL)
     {
-- 
2.43.0


From ce22e04e66ffd172212d003e047992683321df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 078/104] fix: writing an empty set to a file crashed the
 compiler

---
 semantics.cpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 4e3a9b3..4f54b8d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -660,6 +660,26 @@ void TypeCheckVisitor::Check<UnaryExprAST>(UnaryExprAST* u)
     u->UpdateType(ty);
 }
 
+// A set constructor takes what it does not know about its type from what it is assigned to.
+static void CompleteSetType(Types::TypeDecl* lty, Types::TypeDecl* rty)
+{
+    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
+    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
+    if (lsty && rsty)
+    {
+	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
+
+	if (!rsty->GetRange())
+	{
+	    rsty->UpdateRange(GetRangeDecl(lsty));
+	}
+	if (!rsty->SubType())
+	{
+	    rsty->UpdateSubtype(lsty->SubType());
+	}
+    }
+}
+
 template<>
 void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 {
@@ -681,21 +701,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    auto lsty = llvm::dyn_cast<Types::SetDecl>(lty);
-    auto rsty = llvm::dyn_cast<Types::SetDecl>(rty);
-    if (lsty && rsty)
-    {
-	ICE_IF(!lsty->GetRange() || !lsty->SubType(), "Expected left type to be well defined.");
-
-	if (!rsty->GetRange())
-	{
-	    rsty->UpdateRange(GetRangeDecl(lsty));
-	}
-	if (!rsty->SubType())
-	{
-	    rsty->UpdateSubtype(lsty->SubType());
-	}
-    }
+    CompleteSetType(lty, rty);
 
     // Note difference to binary expression: only allowed on rhs!
     if (llvm::isa<Types::PointerDecl>(lty) && llvm::isa<NilExprAST>(a->rhs))
@@ -1191,6 +1197,10 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	{
 	    ExprAST* arg = w->args[0].expr;
 	    auto     fd = llvm::dyn_cast<Types::FileDecl>(w->dest->Type());
+	    if (fd)
+	    {
+		CompleteSetType(fd->SubType(), arg->Type());
+	    }
 	    if (!fd || !fd->SubType()->AssignableType(arg->Type()))
 	    {
 		Error(arg, "Write argument should match elements of the file");
-- 
2.43.0


From 15bafc1473c0d75aa6f627b06b982ddd3291e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 079/104] fix: initial state of component types was lost in
 arrays and heap variables

---
 builtin.cpp |  4 ++++
 expr.cpp    |  8 ++++----
 parser.cpp  | 14 +++++++++++++-
 types.h     |  2 +-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index ce98363..d3d215f 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -915,6 +915,10 @@ namespace Builtin
 	retVal = builder.CreateBitCast(retVal, pd->LlvmType(), "cast");
 	llvm::Value* pA = var->Address();
 
+	if (ExprAST* init = elemTy->Init())
+	{
+	    builder.CreateStore(init->CodeGen(), retVal);
+	}
 	InitializeObjects(elemTy, retVal);
 	return builder.CreateStore(retVal, pA);
     }
diff --git a/expr.cpp b/expr.cpp
index 16d3b4d..063fadb 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4732,14 +4732,16 @@ llvm::Value* InitArrayAST::CodeGen()
 {
     auto aty = llvm::dyn_cast<Types::ArrayDecl>(type);
     ICE_IF(!aty, "Expected array type here");
-    ICE_IF(aty->Ranges().size() != 1, "Expect only 1D arrays right now");
+    auto                         arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
     Types::Range*                range = aty->Ranges()[0]->GetRange();
-    size_t                       size = range->Size();
+    size_t                       size = arrty->getNumElements();
     std::vector<llvm::Constant*> initArr(size);
     llvm::Constant*              otherwise = 0;
     for (auto v : values)
     {
 	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
+	ICE_IF(v.Kind() != ArrayInit::InitKind::Otherwise && aty->Ranges().size() != 1,
+	       "Expect only 1D arrays right now");
 	switch (v.Kind())
 	{
 	case ArrayInit::InitKind::Range:
@@ -4767,8 +4769,6 @@ llvm::Value* InitArrayAST::CodeGen()
 	}
     }
 
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
     llvm::Constant* init = llvm::ConstantArray::get(arrty,
                                                     llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
     return init;
diff --git a/parser.cpp b/parser.cpp
index db3f934..44ba622 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1507,6 +1507,16 @@ Types::PointerDecl* Parser::ParsePointerType(Forwarding maybeForwarded)
     return 0;
 }
 
+// An array of components that have an initial state has that initial state in each component.
+static void InitialStateFromComponents(Types::TypeDecl* ty)
+{
+    auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty);
+    if (ad && ad->SubType()->Init())
+    {
+	ad->SetInit(new InitArrayAST(Location(), ad, { { ad->SubType()->Init() } }));
+    }
+}
+
 Types::TypeDecl* Parser::ParseArrayDecl(Types::Schema* schema)
 {
     TRACE();
@@ -1555,7 +1565,9 @@ Types::TypeDecl* Parser::ParseArrayDecl(Types::Schema* schema)
 		{
 		    return new Types::SchemaArrayDecl(ty, rv);
 		}
-		return new Types::ArrayDecl(ty, rv);
+		auto ad = new Types::ArrayDecl(ty, rv);
+		InitialStateFromComponents(ad);
+		return ad;
 	    }
 	}
     }
diff --git a/types.h b/types.h
index e51a00e..69c86c3 100644
--- a/types.h
+++ b/types.h
@@ -127,7 +127,7 @@ namespace Types
 	size_t                  AlignSize() const;
 	std::string             Name() const { return name; }
 	void                    Name(const std::string& nm) { name = nm; }
-	ExprAST*                Init() { return init; }
+	ExprAST*                Init() const { return init; }
 	void                    SetInit(ExprAST* i)
 	{
 	    ICE_IF(init, "Don't set init twice");
-- 
2.43.0


From cb03b6fe80ce30250554cb833bf2abc9cb6bb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 080/104] fix: schema types with wrong arguments crashed the
 compiler

---
 parser.cpp | 38 +++++++++++++++++++++++++++++++++++---
 schema.cpp | 22 +++++++++++++++++++---
 schema.h   |  1 +
 3 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 44ba622..4e20534 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -454,7 +454,7 @@ Types::TypeDecl* Parser::GetTypeFromExpression()
 	if (Types::TypeDecl* ty = GetTypeDecl(name))
 	{
 	    AssertToken(Token::Identifier);
-	    return ty;
+	    return (Types::IsSchema(ty)) ? ExpandSchema(ty) : ty;
 	}
     }
     if (ExprAST* e = ParseExpression())
@@ -615,6 +615,10 @@ Types::TypeDecl* Parser::ParseSimpleType(bool errOnNoType)
 	if (Types::TypeDecl* ty = GetTypeDecl(name))
 	{
 	    AssertToken(Token::Identifier);
+	    if (errOnNoType && Types::IsSchema(ty))
+	    {
+		return Error("Schema type '" + name + "' is used without arguments");
+	    }
 	    return ty;
 	}
 	if (errOnNoType)
@@ -820,6 +824,16 @@ Types::RangeBaseDecl* Parser::ParseRangeOrTypeRange(Types::TypeDecl*& type, Toke
     std::string name = GetIdentifier(NoExpectConsume);
     if ((type = GetTypeDecl(name)))
     {
+	if (Types::IsSchema(type))
+	{
+	    AssertToken(Token::Identifier);
+	    type = ExpandSchema(type);
+	    if (!type || !IsIntegral(type))
+	    {
+		return Error("Type used as index specification should be integral type");
+	    }
+	    return new Types::RangeDecl(type->GetRange(), type);
+	}
 	if (!IsIntegral(type))
 	{
 	    return Error("Type used as index specification should be integral type");
@@ -1377,6 +1391,11 @@ void Parser::ParseTypeDef()
 		Error("Forward declared type '" + name + "' is incomplete.");
 		return;
 	    }
+	    if (Types::IsSchema(ty))
+	    {
+		Error("Schema type '" + name + "' is used without arguments");
+		return;
+	    }
 	    p->SetSubType(ty);
 	}
 	else
@@ -1488,6 +1507,10 @@ Types::PointerDecl* Parser::ParsePointerType(Forwarding maybeForwarded)
 	    // Is it a known type?
 	    if (Types::TypeDecl* ty = GetTypeDecl(name))
 	    {
+		if (Types::IsSchema(ty))
+		{
+		    return Error("Schema type '" + name + "' is used without arguments");
+		}
 		return new Types::PointerDecl(ty);
 	    }
 	    else
@@ -2089,6 +2112,10 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
 
 Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
 {
+    if (!Expect(Token::LeftParen, ExpectConsume))
+    {
+	return 0;
+    }
     std::vector<int64_t> vals;
     do
     {
@@ -2100,7 +2127,12 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
 	vals.push_back(ToInt(c));
 	AcceptToken(Token::Comma);
     } while (!AcceptToken(Token::RightParen));
-    return Types::Instantiate(vals, ty);
+    if (Types::TypeDecl* instance = Types::Instantiate(vals, ty))
+    {
+	InitialStateFromComponents(instance);
+	return instance;
+    }
+    return Error("Arguments do not match the schema type");
 }
 
 Types::TypeDecl* Parser::ParseType(const std::string& name, Forwarding maybeForwarded, Types::Schema* schema)
@@ -2149,7 +2181,7 @@ Types::TypeDecl* Parser::ParseType(const std::string& name, Forwarding maybeForw
 	{
 	    if (Types::TypeDecl* ty = ParseSimpleType(false))
 	    {
-		if (Types::IsSchema(ty) and AcceptToken(Token::LeftParen))
+		if (Types::IsSchema(ty))
 		{
 		    return ExpandSchema(ty);
 		}
diff --git a/schema.cpp b/schema.cpp
index f2a57a1..41b43c5 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -46,6 +46,10 @@ namespace Types
 
     TypeDecl* SchemaRange::Instantiate(const std::vector<int64_t>& vals)
     {
+	if (vals.size() != schema->Size())
+	{
+	    return 0;
+	}
 	int64_t lowVal = start;
 	if (lowName != "")
 	{
@@ -62,6 +66,10 @@ namespace Types
 	{
 	    return 0;
 	}
+	if (lowVal > vals[idx])
+	{
+	    return 0;
+	}
 	return new RangeDecl(new Range(lowVal, vals[idx]), baseType);
     }
 
@@ -72,7 +80,11 @@ namespace Types
 	{
 	    if (auto sr = llvm::dyn_cast<SchemaRange>(const_cast<RangeBaseDecl*>(r)))
 	    {
-		auto rr = llvm::dyn_cast<RangeBaseDecl>(sr->Instantiate(vals));
+		auto rr = llvm::dyn_cast_or_null<RangeBaseDecl>(sr->Instantiate(vals));
+		if (!rr)
+		{
+		    return 0;
+		}
 		rv.push_back(rr);
 	    }
 	    else
@@ -85,8 +97,12 @@ namespace Types
 
     TypeDecl* SchemaSetDecl::Instantiate(const std::vector<int64_t>& vals)
     {
-	auto rr = llvm::dyn_cast<SchemaRange>(range)->Instantiate(vals);
-	return new SetDecl(llvm::cast<RangeBaseDecl>(rr), baseType);
+	auto rr = llvm::dyn_cast_or_null<RangeBaseDecl>(llvm::dyn_cast<SchemaRange>(range)->Instantiate(vals));
+	if (!rr || rr->GetRange()->Size() > MaxSetSize)
+	{
+	    return 0;
+	}
+	return new SetDecl(rr, baseType);
     }
 
     bool IsSchema(const TypeDecl* ty)
diff --git a/schema.h b/schema.h
index 9414b04..61f27b0 100644
--- a/schema.h
+++ b/schema.h
@@ -16,6 +16,7 @@ namespace Types
 	void          CopyToNameStack(NameStack& stack);
 	const VarDef* FindVar(const std::string& name) const;
 	int           NameToIndex(const std::string& name) const;
+	size_t        Size() const { return vars.size(); }
 	virtual ~Schema() = default;
 
     private:
-- 
2.43.0


From 776035704fd1912ede9620944b54f4f7ebaa0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 081/104] fix: initial values before end of a record were
 rejected

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 4e20534..0fcb826 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3413,7 +3413,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     }
     if (const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Semicolon, Token::Colon,
                                                           Token::RightSquare, Token::Otherwise,
-                                                          Token::RightParen }))
+                                                          Token::RightParen, Token::End }))
     {
 	return MakeInitValue(loc, ty, cd);
     }
-- 
2.43.0


From 69618c6668048895b79ddc328cb302f82a918889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 082/104] fix: negative integer as initial value of a real

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 0fcb826..7ade807 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3140,7 +3140,7 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	{
 	    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
 	    {
-		return new RealExprAST(loc, ci->Value());
+		return new RealExprAST(loc, static_cast<double>(Constants::ToInt(ci)));
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-- 
2.43.0


From ff2036aae2a39f4ee641b58a3a15af8153d92f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 083/104] fix: structured constants as initial values crashed
 the compiler

---
 parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 7ade807..430bfb7 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3168,6 +3168,14 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 // The value of a constant as the initial value of a variable or component of type ty
 ExprAST* Parser::MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd)
 {
+    if (auto cc = llvm::dyn_cast<Constants::CompoundConstDecl>(cd))
+    {
+	if (*ty != *cc->Type())
+	{
+	    return Error("Incompatible type");
+	}
+	return cc->Value();
+    }
     auto sc = llvm::dyn_cast<Constants::StringConstDecl>(cd);
     if (IsStringLike(ty) && !IsIntegral(ty) && IsStringLike(cd->Type()))
     {
-- 
2.43.0


From a3de8a7c45228163957dd02f072645f2766a4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 084/104] fix: pointer types with initial values crashed the
 compiler

---
 parser.cpp | 27 +++++++++++++++++++++++----
 types.cpp  |  2 +-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 430bfb7..bc315db 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -127,6 +127,7 @@ public:
 
     // Type declarations and defintitions
     void  ParseTypeDef();
+    Types::TypeDecl* CloneWithInit(Types::TypeDecl* ty, ExprAST* init);
     void  ParseConstDef();
     Token TranslateToken(const Token& token);
 
@@ -215,6 +216,8 @@ private:
     int                       errCnt;
     Stack<const NamedObject*> nameStack;
     std::vector<ExprAST*>     ast;
+    // Pointers to types that are not known yet, in the current type section.
+    std::vector<Types::PointerDecl*> incomplete;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
@@ -1319,10 +1322,22 @@ Types::Schema* Parser::ParseSchemaVars()
     return new Types::Schema(args);
 }
 
+// A pointer to a type that is not known yet is completed at the end of the type section, with all its copies.
+Types::TypeDecl* Parser::CloneWithInit(Types::TypeDecl* ty, ExprAST* init)
+{
+    Types::TypeDecl* newTy = Types::CloneWithInit(ty, init);
+    auto             pty = llvm::dyn_cast<Types::PointerDecl>(newTy);
+    if (pty && pty->IsIncomplete())
+    {
+	incomplete.push_back(pty);
+    }
+    return newTy;
+}
+
 // Deal with type name = ... defintions
 void Parser::ParseTypeDef()
 {
-    std::vector<Types::PointerDecl*> incomplete;
+    incomplete.clear();
     AssertToken(Token::Type);
     do
     {
@@ -1355,7 +1370,7 @@ void Parser::ParseTypeDef()
 		    {
 			return;
 		    }
-		    ty = Types::CloneWithInit(ty, init);
+		    ty = CloneWithInit(ty, init);
 		}
 		auto pty = llvm::dyn_cast<Types::PointerDecl>(ty);
 		if (pty && pty->IsIncomplete())
@@ -1383,6 +1398,10 @@ void Parser::ParseTypeDef()
     // Now fix up any incomplete types...
     for (auto p : incomplete)
     {
+	if (!p->IsIncomplete())
+	{
+	    continue;
+	}
 	std::string name = p->SubType()->Name();
 	if (Types::TypeDecl* ty = GetTypeDecl(name))
 	{
@@ -1707,7 +1726,7 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
 			    {
 				return 0;
 			    }
-			    ty = Types::CloneWithInit(ty, init);
+			    ty = CloneWithInit(ty, init);
 			}
 			for (auto n : names)
 			{
@@ -1885,7 +1904,7 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 			{
 			    return 0;
 			}
-			ty = Types::CloneWithInit(ty, init);
+			ty = CloneWithInit(ty, init);
 		    }
 		    for (auto n : ccv.Names())
 		    {
diff --git a/types.cpp b/types.cpp
index 0df38bf..9afd9f9 100644
--- a/types.cpp
+++ b/types.cpp
@@ -247,7 +247,7 @@ namespace Types
 	    return new PointerDecl(fwd);
 	}
 
-	ICE_IF(forward, "Shouldn't be forward declared pointer here");
+	ICE_IF(incomplete, "Should not be an incomplete pointer here");
 	return new PointerDecl(SubType());
     }
 
-- 
2.43.0


From 6615db235e72d5bb725f9706015c4bb66dabb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 085/104] fix: initial values of sets were not checked

---
 parser.cpp | 62 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index bc315db..4d48387 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -124,6 +124,7 @@ public:
     ExprAST* ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c);
     ExprAST* MakeInitValue(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd);
     ExprAST* ParseInitValue(Types::TypeDecl* ty);
+    ExprAST* ParseSetInitElem(Types::SetDecl* sd);
 
     // Type declarations and defintitions
     void  ParseTypeDef();
@@ -3375,16 +3376,71 @@ private:
     Types::FieldCollection* type;
 };
 
+class CCSetInitList : public ListConsumer
+{
+public:
+    CCSetInitList(Types::SetDecl* ty)
+        : ListConsumer{ Token::Comma, Token::RightSquare, ListConsumer::AllowEmpty::Yes }, type(ty)
+    {
+    }
+    bool Consume(Parser& parser) override
+    {
+	ExprAST* v = parser.ParseSetInitElem(type);
+	if (v && parser.AcceptToken(Token::DotDot))
+	{
+	    ExprAST* vEnd = parser.ParseSetInitElem(type);
+	    if (!vEnd)
+	    {
+		return false;
+	    }
+	    v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
+	}
+	if (v)
+	{
+	    values.push_back(v);
+	}
+	return v;
+    }
+    const std::vector<ExprAST*>& Values() { return values; }
+
+private:
+    std::vector<ExprAST*> values;
+    Types::SetDecl*       type;
+};
+
+// One constant element of the initial value of a set
+ExprAST* Parser::ParseSetInitElem(Types::SetDecl* sd)
+{
+    const Location              loc = CurrentToken().Loc();
+    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightSquare, Token::DotDot });
+    if (!cd)
+    {
+	return 0;
+    }
+    if (!sd->SubType()->AssignableType(cd->Type()))
+    {
+	return Error("Incompatible type");
+    }
+    const Types::Range* r = sd->GetRange();
+    const int64_t       v = Constants::ToInt(cd);
+    if (v < r->Start() || v > r->End())
+    {
+	return Error("Initial value is out of range");
+    }
+    return new IntegerExprAST(loc, v, cd->Type());
+}
+
 ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 {
     TRACE();
 
     const Location loc = CurrentToken().Loc();
-    if (llvm::isa<Types::SetDecl>(ty))
+    if (auto sd = llvm::dyn_cast<Types::SetDecl>(ty))
     {
-	if (ExprAST* e = ParseSetExpr(ty))
+	CCSetInitList cci(sd);
+	if (Expect(Token::LeftSquare, ExpectConsume) && ParseSeparatedList(*this, cci))
 	{
-	    return new InitValueAST(loc, ty, { e });
+	    return new InitValueAST(loc, ty, { new SetExprAST(loc, cci.Values(), ty) });
 	}
 	return 0;
     }
-- 
2.43.0


From ced6df3dbddd5be3937119e29c2626b7182da8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 086/104] fix: char constants could not be concatenated

---
 constants.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 70059eb..925a927 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -138,29 +138,23 @@ namespace Constants
 	const auto rhsS = llvm::dyn_cast<StringConstDecl>(rhs);
 	const auto lhsC = llvm::dyn_cast<CharConstDecl>(lhs);
 	const auto rhsC = llvm::dyn_cast<CharConstDecl>(rhs);
-	bool       ok = lhsS && rhsS;
 	if (lhsS)
 	{
 	    lValue = lhsS->Value();
 	}
+	else if (lhsC)
+	{
+	    lValue = lhsC->Value();
+	}
 	if (rhsS)
 	{
 	    rValue = rhsS->Value();
 	}
-	if (lhsS || rhsS)
+	else if (rhsC)
 	{
-	    if (lhsC)
-	    {
-		lValue = lhsC->Value();
-		ok = true;
-	    }
-	    if (rhsC)
-	    {
-		rValue = rhsC->Value();
-		ok = true;
-	    }
+	    rValue = rhsC->Value();
 	}
-	return ok;
+	return (lhsS || lhsC) && (rhsS || rhsC);
     }
 
     ConstDecl* ErrorConst(const std::string& msg)
-- 
2.43.0


From 9223980d07c63d30fed00ef1fb1498cbdb495d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 087/104] fix: reading very long numbers overflowed

---
 runtime/read.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 42a1268..420d21d 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -288,7 +288,7 @@ static double exponent_to_multi(int exponent)
 
 static void readint64(struct interface* intf, int64_t* v)
 {
-    int64_t n = 0;
+    uint64_t n = 0; // More digits than fit wrap around
 
     intf->fnpreread(intf);
 
@@ -304,7 +304,7 @@ static void readint64(struct interface* intf, int64_t* v)
 	    break;
 	}
     }
-    *v = n * sign;
+    *v = (int64_t)(n * sign);
 }
 
 void __read_int64(File* file, int64_t* v)
@@ -410,8 +410,12 @@ static void readreal(struct interface* intf, double* v)
 	int expsign = get_sign(intf);
 	while (isdigit(intf->fncurrent(intf)) && !intf->fneoln(intf))
 	{
-	    exponent *= 10;
-	    exponent += (intf->fncurrent(intf)) - '0';
+	    // Anything this large is zero or infinity, whatever digits follow.
+	    if (exponent < 100000)
+	    {
+		exponent *= 10;
+		exponent += (intf->fncurrent(intf)) - '0';
+	    }
 	    if (!intf->fngetnext(intf))
 	    {
 		break;
-- 
2.43.0


From 3171b46a7f468ab7507b2e31bbf1124e9d1059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 088/104] fix: writestr ran into a negative length

---
 runtime/write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/write.c b/runtime/write.c
index b15591e..3f866be 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -23,6 +23,11 @@ static void SetStrResult(String* str, int n, const char* buffer)
     {
 	n = space;
     }
+    /* and a negative value when that is more than it can tell */
+    if (n < 0)
+    {
+	n = 0;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
-- 
2.43.0


From 1090ed866e78fd712c339522d4fd3372b3fc8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 089/104] fix: time and date overran their result

---
 runtime/gettimestamp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/gettimestamp.c b/runtime/gettimestamp.c
index e47b15a..6a986c2 100644
--- a/runtime/gettimestamp.c
+++ b/runtime/gettimestamp.c
@@ -20,11 +20,11 @@ void __gettimestamp(struct TimeStamp* ts)
 // Length: 8+nul = 9
 void __Time(struct TimeStamp* ts, char* dest)
 {
-    sprintf(dest, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
+    snprintf(dest, 9, "%02d:%02d:%02d", ts->Hour, ts->Minute, ts->Second);
 }
 
 // Lenght: 10+nul = 11
 void __Date(struct TimeStamp* ts, char* dest)
 {
-    sprintf(dest, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
+    snprintf(dest, 11, "%04d-%02d-%02d", ts->Year, ts->Month, ts->Day);
 }
-- 
2.43.0


From dc72117d54e61e1ce603d8600c8f0681f05fc984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 090/104] fix: enumeration names of more than 127 characters

---
 runtime/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index 3f866be..176ee1d 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -195,7 +195,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_S_chars(strout, str, len, width);
     }
@@ -211,7 +211,7 @@ void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_chars(file, str, len, width);
     }
-- 
2.43.0


From 2d8ec405351ed0c1fecfbd38f2b602aefaa2816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 091/104] fix: opening a file after unbind crashed

---
 runtime/fileio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..790bea3 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -26,7 +26,7 @@ void __close(File* f)
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
 {
-    if (!f->handle)
+    if (!f->handle || !files[f->handle].name)
     {
 	__assign_unnamed(f);
     }
-- 
2.43.0


From 10c72f8b97e35cb40526ee396d2f9ec385887fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 092/104] fix: binding of a file name of 255 characters aborted

---
 runtime/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/bind.c b/runtime/bind.c
index 01f1828..b70047a 100644
--- a/runtime/bind.c
+++ b/runtime/bind.c
@@ -12,7 +12,7 @@ void __binding(struct BindingType* r, File* f)
 	if (fe->name)
 	{
 	    size_t len = strlen(fe->name);
-	    assert(len < 255);
+	    assert(len <= MaxStringLen);
 	    r->Name.len = len;
 	    memcpy(r->Name.str, fe->name, len);
 	    r->Bound = true;
-- 
2.43.0


From e61f01ea495569f238fdbea976c4ee07b557f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 093/104] fix: val read numbers with leading zeros as octal

---
 runtime/val.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/val.c b/runtime/val.c
index 722e794..7932d2f 100644
--- a/runtime/val.c
+++ b/runtime/val.c
@@ -6,13 +6,13 @@
 void __Val_int(String* s, int* res)
 {
     s->str[s->len] = 0;
-    *res = strtol((const char*)&s->str, NULL, 0);
+    *res = strtol((const char*)&s->str, NULL, 10);
 }
 
 void __Val_long(String* s, int64_t* res)
 {
     s->str[s->len] = 0;
-    *res = strtoll((const char*)&s->str, NULL, 0);
+    *res = strtoll((const char*)&s->str, NULL, 10);
 }
 
 void __Val_real(String* s, double* res)
-- 
2.43.0


From 51914f6b984c2c6d50a719f58faf4daf35ec8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 094/104] fix: calls with routine parameters in a loop used up
 the stack

---
 expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 063fadb..7ca7f0d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -4611,7 +4611,10 @@ llvm::Value* TrampolineAST::CodeGen()
     // Temporary memory to store the trampoline itself.
     llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
     llvm::Type*  trampTy = llvm::ArrayType::get(charTy, 32);
-    llvm::Value* tramp = builder.CreateAlloca(trampTy, 0, "tramp");
+    // In the entry block, so that a call in a loop uses the same memory every time.
+    llvm::Function*   fn = builder.GetInsertBlock()->getParent();
+    llvm::IRBuilder<> bld(&fn->getEntryBlock(), fn->getEntryBlock().begin());
+    llvm::Value*      tramp = bld.CreateAlloca(trampTy, 0, "tramp");
     llvm::Value* tptr = builder.CreateGEP(charTy, tramp, MakeIntegerConstant(0), "tramp.first");
     llvm::Value* nest = closure->CodeGen();
     llvm::Type*  voidPtrTy = Types::GetVoidPtrType();
-- 
2.43.0


From be4be49be737603d48cf8c39b527a2b7580f96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 095/104] fix: a named result assigned by a nested routine
 crashed the compiler

---
 callgraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index 0ebef4f..92a619b 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -197,7 +197,7 @@ void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
     f->accept(collector);
     if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
     {
-	AddVarDecls({ VarDef(f->Proto()->Name(), f->Proto()->Type()) }, f);
+	AddVarDecls({ VarDef(f->Proto()->ResName(), f->Proto()->Type()) }, f);
     }
     AddVarDecls(f->Proto()->Args(), f);
     for (const auto& arg : f->Proto()->Args())
-- 
2.43.0


From 6846fea48b0340d140fb1a058e6a71ca52ff4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 096/104] fix: start of pack and unpack above chr(127)

---
 builtin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index d3d215f..ed2adce 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1050,12 +1050,12 @@ namespace Builtin
 	auto* var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
 	auto* var2 = llvm::dyn_cast<VariableExprAST>(args[2]);
 
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Value* start = IntegerArg(args[1], builder);
 	auto*        ty0 = llvm::dyn_cast<Types::ArrayDecl>(args[0]->Type());
 	auto         r = llvm::dyn_cast<Types::RangeDecl>(ty0->Ranges()[0]);
 	if (r->Start())
 	{
-	    start = builder.CreateSub(start, MakeConstant(r->Start(), args[1]->Type()));
+	    start = builder.CreateSub(start, MakeIntegerConstant(r->Start()));
 	}
 
 	llvm::Value* pA = var0->Address();
@@ -1105,12 +1105,12 @@ namespace Builtin
 	auto var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
 	auto var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
 
-	llvm::Value* start = args[2]->CodeGen();
+	llvm::Value* start = IntegerArg(args[2], builder);
 	auto         ty1 = llvm::dyn_cast<Types::ArrayDecl>(args[1]->Type());
 	auto         r = llvm::dyn_cast<Types::RangeDecl>(ty1->Ranges()[0]);
 	if (r->Start())
 	{
-	    start = builder.CreateSub(start, MakeConstant(r->Start(), args[2]->Type()));
+	    start = builder.CreateSub(start, MakeIntegerConstant(r->Start()));
 	}
 
 	llvm::Value* pA = var0->Address();
-- 
2.43.0


From 939f86ffc3bc129507ad3ac74b2b5a02f251566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 097/104] fix: local variables hiding those of surrounding
 routines

---
 expr.cpp   |  5 +++++
 expr.h     |  1 +
 parser.cpp | 41 +++++++++++++++++++++++++++++++----------
 stack.h    | 15 +++++++++++++++
 types.h    |  5 +++++
 5 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 7ca7f0d..3153a66 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2030,6 +2030,11 @@ void PrototypeAST::SetIsForward(bool v)
     isForward = v;
 }
 
+void PrototypeAST::RenameArg(size_t index, const std::string& newName)
+{
+    args[index] = VarDef(newName, args[index].Type(), args[index].GetFlags());
+}
+
 void PrototypeAST::AddExtraArgsFirst(const std::vector<VarDef>& extra)
 {
     std::vector<VarDef> newArgs;
diff --git a/expr.h b/expr.h
index af85d2a..65012d3 100644
--- a/expr.h
+++ b/expr.h
@@ -565,6 +565,7 @@ public:
     void                       SetFunction(FunctionAST* fun) { function = fun; }
     FunctionAST*               Function() const { return function; }
     void                       AddExtraArgsFirst(const std::vector<VarDef>& extra);
+    void                       RenameArg(size_t index, const std::string& newName);
     Types::ClassDecl*          BaseObj() const { return baseobj; }
     void                       SetBaseObj(Types::ClassDecl* obj) { baseobj = obj; }
     bool                       operator==(const PrototypeAST& rhs) const;
diff --git a/parser.cpp b/parser.cpp
index 4d48387..3a7d73e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -107,6 +107,7 @@ public:
     // Statements, blocks and calls
     ExprAST*      ParseStatement();
     VarDeclAST*   ParseVarDecls();
+    std::string   LocalName(const std::string& name) const;
     BlockAST*     ParseBlock(Location& endLoc);
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
@@ -800,7 +801,7 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 		{
 		    return Error("Expected same type for both high and low variable");
 		}
-		return new Types::DynRangeDecl(lowName, highName, type);
+		return new Types::DynRangeDecl(vardef->Name(), highDef->Name(), type);
 	    }
 	}
     }
@@ -3503,6 +3504,20 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     return 0;
 }
 
+// Variables of surrounding routines are known by their name, so a variable that hides one of them
+// needs a name of its own.
+std::string Parser::LocalName(const std::string& name) const
+{
+    for (auto def : nameStack.FindInner(name))
+    {
+	if (llvm::isa<VarDef>(def))
+	{
+	    return name + "$" + std::to_string(nameStack.MaxLevel());
+	}
+    }
+    return name;
+}
+
 VarDeclAST* Parser::ParseVarDecls()
 {
     TRACE();
@@ -3520,9 +3535,9 @@ VarDeclAST* Parser::ParseVarDecls()
 		const size_t first = varList.size();
 		for (auto n : ccv.Names())
 		{
-		    VarDef v(n, type);
+		    VarDef v(LocalName(n), type);
 		    varList.push_back(v);
-		    if (!nameStack.Add(new VarDef(v)))
+		    if (!nameStack.Add(n, new VarDef(v)))
 		    {
 			return Error("Name '" + n + "' is already defined");
 		    }
@@ -3963,22 +3978,28 @@ FunctionAST* Parser::ParseDefinition(int level)
 	nameStack.Add(vd);
     }
 
-    for (auto& v : proto->Args())
+    for (size_t i = 0; i < proto->Args().size(); i++)
     {
-	if (!nameStack.Add(&v))
+	const VarDef&     v = proto->Args()[i];
+	const std::string argName = v.Name();
+	proto->RenameArg(i, LocalName(argName));
+	if (!nameStack.Add(argName, &v))
 	{
-	    return Error("Duplicate name '" + v.Name() + "'.");
+	    return Error("Duplicate name '" + argName + "'.");
 	}
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
 	{
 	    Types::DynRangeDecl* dr = dty->Range();
-	    if (!nameStack.Add(new VarDef(dr->LowName(), dr->SubType())))
+	    const std::string    lowName = dr->LowName();
+	    const std::string    highName = dr->HighName();
+	    dr->SetNames(LocalName(lowName), LocalName(highName));
+	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->LowName() + "'.");
+		return Error("Duplicate name '" + lowName + "'.");
 	    }
-	    if (!nameStack.Add(new VarDef(dr->HighName(), dr->SubType())))
+	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->HighName() + "'.");
+		return Error("Duplicate name '" + highName + "'.");
 	    }
 	}
     }
diff --git a/stack.h b/stack.h
index 9ca7977..217a546 100644
--- a/stack.h
+++ b/stack.h
@@ -92,6 +92,21 @@ public:
 	return 0;
     }
 
+    // Everything that the name means between the base level and the top level.
+    std::vector<T> FindInner(std::string name) const
+    {
+	LowerIfNeeded(name);
+	std::vector<T> found;
+	for (size_t i = 1; i + 1 < stack.size(); i++)
+	{
+	    if (MapIter it = stack[i].find(name); it != stack[i].end())
+	    {
+		found.push_back(it->second);
+	    }
+	}
+	return found;
+    }
+
     T FindBaseLevel(std::string name)
     {
 	LowerIfNeeded(name);
diff --git a/types.h b/types.h
index 69c86c3..26b9ef1 100644
--- a/types.h
+++ b/types.h
@@ -295,6 +295,11 @@ namespace Types
 	static bool        classof(const TypeDecl* e) { return e->getKind() == TK_DynRange; }
 	const std::string& LowName() { return lowName; }
 	const std::string& HighName() { return highName; }
+	void               SetNames(const std::string& lName, const std::string& hName)
+	{
+	    lowName = lName;
+	    highName = hName;
+	}
 	size_t             RangeSize() const override
 	{
 	    ICE("Huh? Dynamic range size?");
-- 
2.43.0


From 8f0c7036c8e5597288eae6398a4e396d95ede7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 098/104] fix: debug location of assignments of structured
 constants

---
 expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr.cpp b/expr.cpp
index 3153a66..f30973e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2452,6 +2452,8 @@ llvm::Value* AssignExprAST::CodeGen()
     }
 
     llvm::Value* v = rhs->CodeGen();
+    // A structured constant has the location of its definition.
+    BasicDebugInfo(this);
     builder.CreateStore(v, dest);
     return v;
 }
-- 
2.43.0


From 76dcd64c32b91876c4e8f1d163b8d3a10230c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 099/104] fix: arguments of real functions that are not numbers

---
 builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builtin.cpp b/builtin.cpp
index ed2adce..07e4d09 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -13,7 +13,7 @@ namespace Builtin
 	if (!llvm::isa<Types::RealDecl>(arg->Type()))
 	{
 	    // Implicit typecast.
-	    if (!IsIntegral(arg->Type()))
+	    if (!Types::IsNumeric(arg->Type()) || llvm::isa<Types::ComplexDecl>(arg->Type()))
 	    {
 		return false;
 	    }
-- 
2.43.0


From 7bb224ac1ba5e8435fcca7e4c1148a3da921ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 100/104] fix: changing protected parameters and constants by
 reading, calls and loops

---
 builtin.cpp   |  7 ++++++
 builtin.h     |  2 ++
 expr.h        |  2 +-
 parser.cpp    |  4 ++--
 semantics.cpp | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 5 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 07e4d09..3be1cd9 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -234,6 +234,7 @@ namespace Builtin
 	using FunctionVoid::FunctionVoid;
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[0]; }
     };
 
     class FunctionDispose : public FunctionNew
@@ -241,6 +242,7 @@ namespace Builtin
     public:
 	using FunctionNew::FunctionNew;
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
+	ExprAST*     Target() const override { return 0; }
     };
 
     class FunctionHalt : public FunctionVoid
@@ -256,6 +258,7 @@ namespace Builtin
     public:
 	using FunctionVoid::FunctionVoid;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[0]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
@@ -271,6 +274,7 @@ namespace Builtin
     public:
 	using FunctionVoid::FunctionVoid;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[2]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
@@ -279,6 +283,7 @@ namespace Builtin
     public:
 	using FunctionVoid::FunctionVoid;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[1]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
@@ -287,6 +292,7 @@ namespace Builtin
     public:
 	using FunctionVoid::FunctionVoid;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[1]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
@@ -418,6 +424,7 @@ namespace Builtin
     public:
 	using FunctionVoid::FunctionVoid;
 	ErrorType    Semantics() override;
+	ExprAST*     Target() const override { return args[0]; }
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
     };
 
diff --git a/builtin.h b/builtin.h
index 4c0d550..ce99eba 100644
--- a/builtin.h
+++ b/builtin.h
@@ -27,6 +27,8 @@ namespace Builtin
 	virtual llvm::Value*     CodeGen(llvm::IRBuilder<>& builder) = 0;
 	virtual Types::TypeDecl* Type() const = 0;
 	virtual ErrorType        Semantics() = 0;
+	// The argument that is given a value by the call, if any.
+	virtual ExprAST*         Target() const { return 0; }
 	virtual void             accept(ASTVisitor& v);
 	const std::string&       Name() const { return name; }
 	virtual ~FunctionBase() {}
diff --git a/expr.h b/expr.h
index 65012d3..d70ee83 100644
--- a/expr.h
+++ b/expr.h
@@ -267,7 +267,7 @@ public:
     {
     }
     VariableExprAST(const Location& w, const NamedObject* obj)
-        : AddressableAST{ w, EK_VariableExpr, obj->Type() }, name{ obj->Name() }
+        : AddressableAST{ w, EK_VariableExpr, obj->Type() }, name{ obj->Name() }, flags{ VarDef::Flags::None }
     {
 	if (auto vd = llvm::dyn_cast<VarDef>(obj))
 	{
diff --git a/parser.cpp b/parser.cpp
index 3a7d73e..7b581c5 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3993,11 +3993,11 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    const std::string    lowName = dr->LowName();
 	    const std::string    highName = dr->HighName();
 	    dr->SetNames(LocalName(lowName), LocalName(highName));
-	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType())))
+	    if (!nameStack.Add(lowName, new VarDef(dr->LowName(), dr->SubType(), VarDef::Flags::Protected)))
 	    {
 		return Error("Duplicate name '" + lowName + "'.");
 	    }
-	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType())))
+	    if (!nameStack.Add(highName, new VarDef(dr->HighName(), dr->SubType(), VarDef::Flags::Protected)))
 	    {
 		return Error("Duplicate name '" + highName + "'.");
 	    }
diff --git a/semantics.cpp b/semantics.cpp
index 4f54b8d..b55a735 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -52,6 +52,36 @@ T* FindParentOfType(ExprAST* e)
     return ci.result;
 }
 
+// Is what this denotes (a part of) a protected parameter or a constant? What a pointer or file refers to is not.
+static bool IsReadOnly(ExprAST* e)
+{
+    class FindRoot : public ASTVisitor
+    {
+    public:
+	void visit(ExprAST* e) override
+	{
+	    if (auto v = llvm::dyn_cast<VariableExprAST>(e))
+	    {
+		result = v->IsProtected();
+	    }
+	    else if (llvm::isa<InitArrayAST, InitRecordAST>(e))
+	    {
+		result = true;
+	    }
+	    else if (llvm::isa<PointerExprAST, FilePointerExprAST>(e))
+	    {
+		result = false;
+	    }
+	}
+
+	bool result = false;
+    };
+
+    FindRoot root;
+    e->accept(root);
+    return root.result;
+}
+
 class SemaFixup
 {
 public:
@@ -695,7 +725,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
-    if (vExpr->IsProtected())
+    if (IsReadOnly(a->lhs))
     {
 	Error(a, "Assigning to protected value");
 	return;
@@ -867,6 +897,13 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
 	Error(b, "Builtin function: '" + b->bif->Name() + "' wrong argument type(s)");
 	break;
     case Builtin::ErrorType::Ok:
+	if (ExprAST* target = b->bif->Target())
+	{
+	    if (IsReadOnly(target))
+	    {
+		Error(b, "Builtin function: '" + b->bif->Name() + "' changes a protected or constant value");
+	    }
+	}
 	break;
     }
 }
@@ -927,6 +964,10 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	    {
 		Error(c, "Variable of another type for 'var' parameter");
 	    }
+	    else if (parg[idx].IsRef() && !parg[idx].IsProtected() && IsReadOnly(a))
+	    {
+		Error(c, "Protected or constant value for 'var' parameter");
+	    }
 	    else
 	    {
 		a = Recast(a, ty);
@@ -983,6 +1024,11 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	Error(f->variable, "Loop iteration variable must be integral type");
 	return;
     }
+    if (IsReadOnly(f->variable))
+    {
+	Error(f->variable, "Loop iteration variable is a protected value");
+	return;
+    }
     if (f->end)
     {
 	if (const Types::TypeDecl* ty = vty->AssignableType(f->start->Type()))
@@ -1063,6 +1109,14 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	}
     }
 
+    for (auto arg : r->args)
+    {
+	if (IsReadOnly(arg))
+	{
+	    Error(arg, "Reading to protected or constant value");
+	}
+    }
+
     if (isText)
     {
 	for (auto arg : r->args)
@@ -1129,6 +1183,10 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	{
 	    Error(w->dest, "First argument to ReadStr should be a string");
 	}
+	else if (IsReadOnly(w->dest))
+	{
+	    Error(w->dest, "Writing to protected or constant value");
+	}
     }
     else
     {
-- 
2.43.0


From b3e8a0499f2a210f6a8dbc4bd4f340c337f5e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 101/104] fix: value and var parameters taken for each other in
 headers

---
 expr.cpp      | 4 ++--
 parser.cpp    | 3 ++-
 semantics.cpp | 5 ++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index f30973e..aab0ca3 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2070,7 +2070,7 @@ bool PrototypeAST::operator==(const PrototypeAST& rhs) const
     // Not equal if args are different types
     for (size_t i = 0; i < args.size(); i++)
     {
-	if (*args[i].Type() != *rhs.args[i].Type())
+	if (*args[i].Type() != *rhs.args[i].Type() || args[i].IsRef() != rhs.args[i].IsRef())
 	{
 	    return false;
 	}
@@ -2109,7 +2109,7 @@ bool PrototypeAST::IsMatchWithoutClosure(const PrototypeAST* rhs) const
     }
     for (size_t i = 0; i < rhs->args.size(); i++)
     {
-	if (*args[i + 1].Type() != *rhs->args[i].Type())
+	if (*args[i + 1].Type() != *rhs->args[i].Type() || args[i + 1].IsRef() != rhs->args[i].IsRef())
 	{
 	    return false;
 	}
diff --git a/parser.cpp b/parser.cpp
index 7b581c5..d61a72a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3587,7 +3587,8 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
 
     for (size_t i = 0; i < args.size(); i++)
     {
-	if (!proto->Args()[i + offset].Type()->AssignableType(args[i].Type()))
+	if (!proto->Args()[i + offset].Type()->AssignableType(args[i].Type()) ||
+	    proto->Args()[i + offset].IsRef() != args[i].IsRef())
 	{
 	    Error("Argument type mismatch for " + funcName + ":" + args[i].Name());
 	}
diff --git a/semantics.cpp b/semantics.cpp
index b55a735..abaca40 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -983,9 +983,8 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	else if (auto argTy = llvm::dyn_cast<Types::FuncPtrDecl>(parg[idx].Type()))
 	{
 	    auto fnArg = llvm::dyn_cast<FunctionExprAST>(a);
-	    ICE_IF(!fnArg, "Expected argument to be FunctionExprAST");
 
-	    if (fnArg->Proto()->IsMatchWithoutClosure(argTy->Proto()))
+	    if (fnArg && fnArg->Proto()->IsMatchWithoutClosure(argTy->Proto()))
 	    {
 		// Todo: Make this a function
 		std::vector<VariableExprAST*> vf;
@@ -1001,7 +1000,7 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
 	    }
 	    else
 	    {
-		bad = !(*fnArg->Proto() == *argTy->Proto());
+		bad = !fnArg || !(*fnArg->Proto() == *argTy->Proto());
 	    }
 	}
 	if (bad)
-- 
2.43.0


From 83473b225444d1703926f71076526a5da3c47f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 102/104] fix: overriding methods the base class does not have

---
 parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index d61a72a..0884d7c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2104,6 +2104,16 @@ Types::ClassDecl* Parser::ParseClassDecl(const std::string& name)
     {
 	if (auto m = llvm::dyn_cast<Types::MemberFuncDecl>((*f)->SubType()))
 	{
+	    if (m->IsOverride())
+	    {
+		int elem = base ? base->MembFunc(m->Proto()->Name()) : -1;
+		if (elem < 0 ||
+		    !(base->GetMembFunc(elem)->IsVirtual() || base->GetMembFunc(elem)->IsOverride()))
+		{
+		    return Error("Overriding '" + m->Proto()->Name() +
+		                 "' that is not a virtual function in the base class");
+		}
+	    }
 	    mf.push_back(m);
 	    f = fields.erase(f);
 	}
-- 
2.43.0


From fd006ab3f5b9fe69dbdf8e7df1ac386b84927a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 103/104] fix: assigning the result of a function outside of it

---
 parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 0884d7c..eb03143 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2947,6 +2947,10 @@ ExprAST* Parser::ParseVariableExpr(const NamedObject* def)
     {
 	return Error("Expected variable");
     }
+    if (const auto fd = llvm::dyn_cast<FuncDef>(def); fd && fd->Proto()->Function())
+    {
+	return Error("The result of '" + def->Name() + "' can only be assigned inside the function");
+    }
     return new VariableExprAST(LastLine(), def->Name(), type);
 }
 
-- 
2.43.0


From ec9e9f8c1aa76d37449065ee70b9b548b19aa39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:46 +0000
Subject: [PATCH 104/104] fix: ord of constants that are not ordinal

---
 constants.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/constants.cpp b/constants.cpp
index 925a927..d18652d 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -480,7 +480,13 @@ namespace Constants
 	      return UpdateValueSameType(args[0], [n](int64_t v) { return v - n; });
 	  } },
 	{ "ord", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
-	  { return new IntConstDecl(args[0]->Loc(), ToInt(args[0])); } },
+	  {
+	      if (!llvm::isa<IntConstDecl, CharConstDecl, EnumConstDecl, BoolConstDecl>(args[0]))
+	      {
+	          return ErrorConst("Expected ordinal argument to 'ord'");
+	      }
+	      return new IntConstDecl(args[0]->Loc(), ToInt(args[0]));
+	  } },
 	{ "length", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-- 
2.43.0

