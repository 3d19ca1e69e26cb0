From caab7ab77406ba54fa3187804db1b30bcc9029dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 01/43] fix: a scaled identity matrix is a multiple of
 identity, not the identity

---
 src/internal/MatrixProperties.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..95922de 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From a6d14b2c65ea6e61d3a29940c39f134f95b7da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 02/43] fix: do not refuse the properties of valid sums and
 products of matrices

Not knowing that a result is constant or invertible was handed to the
MatrixProperties constructor as the user stating that it is not, so that
e.g. I+I, 0*A or A*0 threw an exception.
---
 src/internal/MatrixProperties.cpp | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 95922de..cda4400 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -359,28 +359,45 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+/** Build the properties resulting from an operation.
+ *
+ * Contrary to the values given by a user, \p c and \p i being false only means that the constness or the invertibility
+ * could not be established from the operands: the result might still be constant or invertible because of \p s or \p p.
+ */
+static MatrixProperties makeProperties(Shape s, Positiveness p, Constness c, Invertibility i)
+{
+  if(c && i)
+    return {s, p, c, i};
+  else if(c)
+    return {s, p, c};
+  else if(i)
+    return {s, p, i};
+  else
+    return {s, p};
+}
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return makeProperties(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return makeProperties(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return makeProperties(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
+                        p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return makeProperties(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
+                        p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return makeProperties(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
+                        p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 613c9289b71e2fb487970c26dbcaba514faeed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:20 +0000
Subject: [PATCH 03/43] fix: a split VariableCountingVector is outdated by any
 change of the counts

With split = true, an addition or a removal changing the number of times a
part is present, but not the set of parts present, left variables() as it was.
---
 src/internal/VariableCountingVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..c497865 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,7 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split_, the result also depends on the counts
   return change;
 }
 
@@ -48,7 +48,7 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split_, the result also depends on the counts
   return change;
 }
 
-- 
2.43.0


From 138a975612b7a425bb0487e32b17757720cc3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:20 +0000
Subject: [PATCH 04/43] fix: differentiating a subvariable does not reset the
 derivative of its supervariable

---
 src/Variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..ad77502 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,8 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  if(!isSubvariable()) // otherwise the value is the one of the supervariable's derivative, which may be in use already
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 5c20739b70ca40971241794eec80ecf16f1e1729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:45 +0000
Subject: [PATCH 05/43] fix: a pointer obtained from a derivative of a
 subvariable keeps the subvariable alive

basePrimitive() and primitive() of the derivative of a temporary subvariable
returned a dangling pointer, sharing only the ownership of the supervariable.
---
 src/Variable.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index ad77502..8f9782f 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -267,19 +267,9 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 VariablePtr Variable::shared_from_this()
 {
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From 54685199c0e5b86a73dfa03381b998386a915165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 06/43] fix: assigning a VariableVector to itself does not
 empty it

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From fc5da24d323a944dbd968b0d4518f94259ecf88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:34 +0000
Subject: [PATCH 07/43] fix: check the abilities of the levels a scheme obtains
 by scalarization

---
 include/tvm/scheme/internal/SchemeAbilities.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index b0383ea..beae189 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -127,6 +127,9 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
 
   // check abilities of the required priority level
   auto it = abilities_.find(p);
+  // a level obtained by scalarization has the abilities of the last actual level if there is no general ones
+  if(it == abilities_.end() && scalarization_ && abilities_.count(GeneralLevel) == 0)
+    it = abilities_.find(numberOfLevels_ - 1);
   if(it != abilities_.end())
     it->second.check(c, req, emitWarnings);
   else
-- 
2.43.0


From 197cdf9c3f1c61ec9d7ef7073f5926e21ad3105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:23 +0000
Subject: [PATCH 08/43] fix: notify the subscribers of a requirement when it is
 assigned from another one

---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..089cdd3 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From f332a06e1e6b29713218af20821aaf25a72ceee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:28 +0000
Subject: [PATCH 09/43] fix: report the cycles that cannot be reached from a
 root of the graph

---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..c96963b 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // A node that can not be reached from any root is part of a cycle, or is reached from one only
+  if(std::find(visited.begin(), visited.end(), uint8_t(false)) != visited.end())
+  {
+    throw std::logic_error("[DependencyGraph::Order] The graph contains a cycle that can not be reached from a root.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 4e1ace9974fc13e3b889e0c6965b7da9751964e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 10/43] fix: an update depending on several outputs of a source
 declares them all as inputs

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From df36187976b6e576b7c40bd15478e95c4638eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 11/43] fix: the missing side of a one-sided constraint has the
 sign expected by a two-sided OPPOSITE target

---
 include/tvm/scheme/internal/Assignment.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..fd0320d 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,24 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  // The sign expected by the target
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  // The sign expected by the target
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From ad3586deefc978d2044206630ac578663c36562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 12/43] fix: one-sided bounds are assigned to the vector given
 to the target, also through minus identity

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..795f049 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -602,12 +602,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -626,13 +621,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From db0b8362b014cbaf70c461e2c87d2a4ab48bf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 13/43] fix: a change of scalar weight reaches assignments with
 an anisotropic weight, of the size of the source

---
 src/scheme/Assignment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 795f049..140898a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -99,13 +99,15 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector)
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
        && !requirements_->anisotropicWeight().value().isConstant(1))
       throw std::runtime_error("[Assignment::onUpdateWeights] Can't update a default weight.");
-
+  }
+  if(vector || (scalar && !useDefaultAnisotropicWeight_)) // the scalar weight is part of the vector one
+  {
     data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
     data_->anisotropicWeight_ *= data_->scalarWeight_;
     data_->minusAnisotropicWeight_ = -data_->anisotropicWeight_;
-- 
2.43.0


From b825186c650105fed62dac4598c4f479dc8394b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 14/43] fix: changing the target of a bound with a diagonal
 matrix no longer calls a null method

---
 src/scheme/Assignment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 140898a..51c8295 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,10 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    if(a.getTargetVector) // intermediate assignments write in this object
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From bde8a2a93fa70131074b798933d758db72f635bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 15/43] fix: matrix assignments keep alive the variable parts
 used to update their mapping

---
 include/tvm/scheme/internal/Assignment.h       |  4 ++--
 include/tvm/scheme/internal/MatrixAssignment.h |  2 +-
 src/scheme/Assignment.cpp                      | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.h b/include/tvm/scheme/internal/Assignment.h
index 6560ae2..8735922 100644
--- a/include/tvm/scheme/internal/Assignment.h
+++ b/include/tvm/scheme/internal/Assignment.h
@@ -130,7 +130,7 @@ private:
    * to variable \p x to the block of matrix described by \p M and \p range.
    * \p flip indicates a sign change if \p true.
    */
-  void addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip);
+  void addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip);
 
   /** Creates the assignments due to substituting the variable \p x by the
    * linear expression given by \p sub. The target is given by \p M.
@@ -194,7 +194,7 @@ private:
    * and \p range. The variable \p x is simply stored in the corresponding
    * \p MatrixAssignment.
    */
-  void addZeroAssignment(Variable & x, MatrixFunction M, const Range & range);
+  void addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range);
 
   /** Calls addAssignments(const VariableVector& variables, MatrixFunction M,
    * RHSFunction f1, VectorFunction v1, RHSFunction f2, VectorFunction v2,
diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..2928459 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x; // Keeps alive the parts of the source's variables
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 51c8295..3fadf77 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -416,13 +416,13 @@ void Assignment::processRequirements()
   }
 }
 
-void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip)
+void Assignment::addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip)
 {
-  MatrixConstRef from = source_->jacobian(x);
+  MatrixConstRef from = source_->jacobian(*x);
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -464,7 +464,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -513,12 +513,12 @@ void Assignment::addVectorSubstitutionAssignments(const function::BasicLinearFun
   }
 }
 
-void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range & range)
+void Assignment::addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range)
 {
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
@@ -575,7 +575,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     if(!xc.contains(*x))
     {
       Range cols = x->getMappingIn(variables);
-      addZeroAssignment(*x, M, cols);
+      addZeroAssignment(x, M, cols);
     }
   }
 
@@ -598,7 +598,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     else // usual case
     {
       Range cols = x->getMappingIn(variables);
-      addMatrixAssignment(*x, M, cols, flip);
+      addMatrixAssignment(x, M, cols, flip);
     }
   }
 }
-- 
2.43.0


From 95d60a9b0101447ec1e644e6a4ee78293f246efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 16/43] fix: substitutions by a variable and by a part of it
 can be used in one constraint

---
 src/scheme/Assignment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 3fadf77..5e136e4 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -561,7 +561,7 @@ void Assignment::addAssignments(const VariableVector & variables,
 
   // For all variables that are substituted into but are not part of the source variables,
   // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  tvm::internal::VariableCountingVector substitutedInto(true); // those can be parts of one another
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
@@ -570,7 +570,7 @@ void Assignment::addAssignments(const VariableVector & variables,
       substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
     }
   }
-  for(const auto & x : substitutedInto)
+  for(const auto & x : substitutedInto.variables())
   {
     if(!xc.contains(*x))
     {
-- 
2.43.0


From a343542bc30717c78349390e1fafb36197ff0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 17/43] fix: the default damping of a matrix gain is critical

---
 src/task_dynamics/ProportionalDerivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..268140c 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -152,7 +152,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 345ddbb1e5a83b283ff8931ba456a2c4216458b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 18/43] fix: a matrix gain given later to a proportional
 derivative dynamics is used

---
 src/task_dynamics/ProportionalDerivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 268140c..d6658d9 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -152,6 +152,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
+  kp_ = kp;
   kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
-- 
2.43.0


From 537bf952bc5f1f99de31a14e321ea95dc4df185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 19/43] fix: a matrix gain with a single wrong dimension is
 refused by the proportional dynamics

---
 src/task_dynamics/Proportional.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..5465697 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,8 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2 && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+         || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From 9eeda36437ffb3553d45a9e4d84a73b9028ea05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 20/43] fix: a reference that does not have the size of the
 function is refused

---
 src/task_dynamics/Reference.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task_dynamics/Reference.cpp b/src/task_dynamics/Reference.cpp
index 49f888e..75e2b5a 100644
--- a/src/task_dynamics/Reference.cpp
+++ b/src/task_dynamics/Reference.cpp
@@ -38,6 +38,10 @@ void Reference::Impl::setReference(const FunctionPtr & ref)
     throw std::runtime_error("[task_dynamics::Reference::Impl] You cannot pass a nullptr as reference function.");
   }
 
+  if(ref->size() != function().size())
+  {
+    throw std::runtime_error("[task_dynamics::Reference::Impl] Reference and function have incompatible sizes.");
+  }
   ref_ = ref;
   addInput(ref, internal::FirstOrderProvider::Output::Value);
   addInputDependency(Update::UpdateValue, ref, internal::FirstOrderProvider::Output::Value);
-- 
2.43.0


From 6805d9ae192ed1d149390d2de44e83b6a55e3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:36 +0000
Subject: [PATCH 21/43] fix: a linear constraint given several matrices for one
 variable uses their sum

---
 src/constraint/BasicLinearConstraint.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..ee46790 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,18 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;                                                           // this erase the properties of J;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)}); // We restore only this one
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0


From 51807b2644eccd1f665dc11eac2cb5047d81703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 22/43] fix: weights are updated once the targets of the solver
 are up to date

---
 src/solver/LeastSquareSolver.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..5d661c2 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -182,7 +182,6 @@ int LeastSquareSolver::constraintSize(const constraint::abstract::LinearConstrai
 
 void LeastSquareSolver::process(const internal::SolverEvents & se)
 {
-  updateWeights(se);
   auto impactRemove = processRemovedConstraints(se);
   bool needMappingUpdate = updateVariables(se);
   auto impactAdd = previewAddedConstraints(se);
@@ -288,6 +287,9 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
       updateMapping(objectiveToAssignments_);
   }
 
+  // The weights need to be updated once the mappings and targets of the remaining assignments are
+  // up-to-date, because an assignment might be reprocessed.
+  updateWeights(se);
   processAddedConstraints(se);
 }
 
@@ -299,10 +301,9 @@ void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
   {
     auto [c, scalar, vector] = e;
 
-    // We might have change of weights on constraints that were not added yet (because process of
-    // of weight arise before processing added constraints - if we'd process the weight after, we
-    // could have change of weight on removed constraints). Therefore we need to ignore constraints
-    // that were not found in the map.
+    // We might have change of weights on constraints that were not added yet (because weights are
+    // processed before the added constraints) or on removed constraints. Therefore we need to ignore
+    // constraints that were not found in the map.
     auto it = objectiveToAssignments_.find(c);
     if(it == objectiveToAssignments_.end())
       continue;
-- 
2.43.0


From 8a6f7d4a54e3e1e1811936bfdc7dd41e0ca2d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 23/43] fix: matrices reshaped with the same number of elements
 are known to be reallocated

---
 include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h | 2 +-
 include/tvm/solver/abstract/LeastSquareSolver.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
index 4c765ba..e7f8b08 100644
--- a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
+++ b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
@@ -234,7 +234,7 @@ template<typename Derived>
 inline bool HierarchicalLeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                              int rows,
                                                                              int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..46ebdf1 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
-- 
2.43.0


From 7b2156504571e327940fc36d532a1ce60ff1bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 24/43] fix: a copy of a substitution can be used to remove it

---
 src/hint/Substitutions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..0ae82f6 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,9 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) {
+    return e.constraints() == s.constraints() && e.variables() == s.variables();
+  });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From d5fea42aaaa250057291c6eb9569228cf22d0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 25/43] fix: the minimum norm objective fills the rows of the
 objective

---
 src/solver/LeastSquareSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 5d661c2..80e0901 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = variables().totalSize();
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From 8b5aa81078133f518dad33eb078ff716b4f881bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 26/43] fix: the minimum norm objective is sized with a solver
 using a Cholesky factorization

---
 src/solver/QLDLeastSquareSolver.cpp      | 2 +-
 src/solver/QuadprogLeastSquareSolver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..e5d3a0b 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,7 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize());
   c_.setZero();
 }
 
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..e0b108e 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,7 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize());
   c_.setZero();
 }
 
-- 
2.43.0


From c343fe96cb9a49d9c94315f875f9ed723ba1a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 27/43] fix: a hierarchical solver can be built again

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From 46d23bc828f0fbb4412de4c0bee5492d1a03302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 28/43] fix: a hierarchical problem with bounds only has a
 first level

---
 src/scheme/HierarchicalLeastSquares.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..5a51085 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -147,8 +147,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
     }
   }
   // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // They are added at level 0. The bounds are at level 0 as well.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From 56a0d50dddc636d22c7d9e730338668ef26db1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 29/43] fix: automatic damping follows the addition and removal
 of tasks

---
 src/scheme/WeightedLeastSquares.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..f84e3bb 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -48,9 +48,12 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     Memory * memory = static_cast<Memory *>(data);
 
     // If some events require to rebuild the data, we skip all other events.
+    // With auto damping, the need for the damping objective depends on all the tasks.
     for(const auto & e : memory->events())
     {
-      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+         || (options_.autoDamping().value()
+             && (e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval)))
       {
         resetComputationData(problem, memory);
         return;
-- 
2.43.0


From 1b67920db59e45da37fb188c69ef9766bb0c4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 30/43] fix: the lexls solvers can be built again without the
 minimum norm objective

---
 src/solver/LexLSHierarchicalLeastSquareSolver.cpp | 4 ++--
 src/solver/LexLSLeastSquareSolver.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index 99fc660..f4919d5 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -47,9 +47,9 @@ void LexLSHierarchicalLeastSquareSolver::initializeBuild_(const std::vector<int>
                                                           const std::vector<int> & nIneq,
                                                           bool useBounds)
 {
-  resize_(nEq, nIneq, useBounds);
-
   autoMinNorm_ = false;
+
+  resize_(nEq, nIneq, useBounds);
 }
 
 LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSquareSolver::resize_(
diff --git a/src/solver/LexLSLeastSquareSolver.cpp b/src/solver/LexLSLeastSquareSolver.cpp
index 46d12e7..b9df3b4 100644
--- a/src/solver/LexLSLeastSquareSolver.cpp
+++ b/src/solver/LexLSLeastSquareSolver.cpp
@@ -45,9 +45,9 @@ LexLSLeastSquareSolver::LexLSLeastSquareSolver(const LexLSLSSolverOptions & opti
 
 void LexLSLeastSquareSolver::initializeBuild_(int nObj, int nEq, int nIneq, bool)
 {
-  resize_(nObj, nEq, nIneq, true);
-
   autoMinNorm_ = false;
+
+  resize_(nObj, nEq, nIneq, true);
 }
 
 LexLSLeastSquareSolver::ImpactFromChanges LexLSLeastSquareSolver::resize_(int nObj, int nEq, int nIneq, bool)
-- 
2.43.0


From 3d10773798ce4fafd718d344003a2fcd12db89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 31/43] fix: the hierarchical lexls solver can be built again
 with other levels or without bounds

---
 .../LexLSHierarchicalLeastSquareSolver.h      |  2 +
 .../LexLSHierarchicalLeastSquareSolver.cpp    | 48 +++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/tvm/solver/LexLSHierarchicalLeastSquareSolver.h b/include/tvm/solver/LexLSHierarchicalLeastSquareSolver.h
index 299d5b0..4640a5a 100644
--- a/include/tvm/solver/LexLSHierarchicalLeastSquareSolver.h
+++ b/include/tvm/solver/LexLSHierarchicalLeastSquareSolver.h
@@ -75,6 +75,8 @@ private:
   std::vector<LexLS::ConstraintIdentifier> act_;
 
   LexLS::internal::LexLSI solver_;
+  std::vector<LexLS::Index> objDim_;           // the dimensions the solver was resized with
+  std::vector<LexLS::ObjectiveType> objType_;  // the types the solver was resized with
 
   bool autoMinNorm_;
   double big_number_;
diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index f4919d5..afe1ded 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -62,10 +62,19 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
   ImpactFromChanges impact(nLvl);
   std::vector<int> nCstr(nLvl);
 
+  // Remove the data of the levels that do not exist anymore
+  while(data_.size() > static_cast<size_t>(nLvl))
+  {
+    A_.pop_back();
+    l_.pop_back();
+    u_.pop_back();
+    data_.pop_back();
+  }
+
   // Create data for the new levels, before resizing and referencing
   impact.newLevels_ = nLvl - data_.size();
   Eigen::MatrixXd dummy(1, 1);
-  for(size_t i = data_.size(); i < nLvl; ++i)
+  for(size_t i = data_.size(); i < static_cast<size_t>(nLvl); ++i)
   {
     data_.emplace_back();
     A_.emplace_back(dummy.leftCols(1));
@@ -83,6 +92,14 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
     xu_.setConstant(+big_number_);
   }
 
+  else if(!useBounds)
+  {
+    // there is nothing to refer to: the data xl_ and xu_ referred to might be reallocated below.
+    boundData_.resize(0, 2);
+    new(&xl_) VectorRef(boundData_.col(0));
+    new(&xu_) VectorRef(boundData_.col(1));
+  }
+
   x0_ = Eigen::VectorXd::Zero(n);
 
   for(int i = 0; i < nLvl; ++i)
@@ -117,22 +134,25 @@ LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSqua
     impact.inequalityConstraints_[i] = impact.equalityConstraints_[i];
   }
 
-  if(impact.any())
+  std::vector<LexLS::Index> objDim;
+  std::vector<LexLS::ObjectiveType> objType;
+  if(useBounds && feasibleFirstLevel_)
   {
-    std::vector<LexLS::Index> objDim;
-    std::vector<LexLS::ObjectiveType> objType;
-    if(useBounds && feasibleFirstLevel_)
-    {
-      objDim.push_back(n);
-      objType.push_back(LexLS::ObjectiveType::SIMPLE_BOUNDS_OBJECTIVE);
-    }
-    for(auto m : nCstr)
-    {
-      objDim.push_back(m);
-      objType.push_back(LexLS::ObjectiveType::GENERAL_OBJECTIVE);
-    }
+    objDim.push_back(n);
+    objType.push_back(LexLS::ObjectiveType::SIMPLE_BOUNDS_OBJECTIVE);
+  }
+  for(auto m : nCstr)
+  {
+    objDim.push_back(m);
+    objType.push_back(LexLS::ObjectiveType::GENERAL_OBJECTIVE);
+  }
 
+  // The levels can change without any reallocation (e.g. when there are no more bounds)
+  if(impact.any() || objDim != objDim_ || objType != objType_)
+  {
     solver_.resize(n, objDim.size(), objDim.data(), objType.data());
+    objDim_ = objDim;
+    objType_ = objType;
   }
 
   if(varIndex_.size() != static_cast<size_t>(n))
-- 
2.43.0


From 99302b5e31dc7f7dae2ac00c967d98e2ee5daa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 32/43] fix: a removal of task refused because of a
 substitution leaves the problem unchanged

---
 src/LinearizedControlProblem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..ecefd67 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -59,13 +59,15 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
+    ControlProblem::remove(tr);
     return;
   }
+  // This might throw, and needs to be done first.
   removeSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 90a96d7361922f5ea5d04384d1dea7593a11824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 33/43] fix: the data of a problem are rebuilt after an update
 interrupted by an exception

---
 include/tvm/scheme/HierarchicalLeastSquares.h |  5 +++++
 include/tvm/scheme/WeightedLeastSquares.h     |  5 +++++
 src/scheme/HierarchicalLeastSquares.cpp       | 16 ++++++++++++++--
 src/scheme/WeightedLeastSquares.cpp           | 16 ++++++++++++++--
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..ff43a2c 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -33,6 +33,11 @@ private:
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
 
+    /** True when the data might not correspond to the problem anymore, because
+     * an update was interrupted. They need to be rebuilt.
+     */
+    bool outdated = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..cc8601f 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -39,6 +39,11 @@ private:
 
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
 
+    /** True when the data might not correspond to the problem anymore, because
+     * an update was interrupted. They need to be rebuilt.
+     */
+    bool outdated = false;
+
     int maxp = 0;
 
   protected:
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 5a51085..f6b28bf 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -43,12 +43,21 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
-  if(!data->hasEvents())
+  Memory * memory = static_cast<Memory *>(data);
+
+  // If the last update was interrupted by an exception, some events were lost.
+  if(memory->outdated)
   {
+    resetComputationData(problem, memory);
     return;
   }
 
-  Memory * memory = static_cast<Memory *>(data);
+  if(!memory->hasEvents())
+  {
+    return;
+  }
+
+  memory->outdated = true; // until the end of the update
 
   // If some events require to rebuild the data, we skip all other events.
   for(const auto & e : memory->events())
@@ -87,6 +96,7 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
 
   memory->variables(); // update variable vector if needed
   memory->solver->process(se);
+  memory->outdated = false;
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
@@ -100,8 +110,10 @@ std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::crea
 
 void HierarchicalLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->outdated = true; // until the end of the update
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->outdated = false;
 }
 
 void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index f84e3bb..635f9d1 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -43,9 +43,18 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
-  if(data->hasEvents())
+  Memory * memory = static_cast<Memory *>(data);
+
+  // If the last update was interrupted by an exception, some events were lost.
+  if(memory->outdated)
   {
-    Memory * memory = static_cast<Memory *>(data);
+    resetComputationData(problem, memory);
+    return;
+  }
+
+  if(memory->hasEvents())
+  {
+    memory->outdated = true; // until the end of the update
 
     // If some events require to rebuild the data, we skip all other events.
     // With auto damping, the need for the damping objective depends on all the tasks.
@@ -95,6 +104,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->outdated = false;
   }
 }
 
@@ -109,8 +119,10 @@ std::unique_ptr<WeightedLeastSquares::Memory> WeightedLeastSquares::createComput
 
 void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->outdated = true; // until the end of the update
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->outdated = false;
 }
 
 void WeightedLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
-- 
2.43.0


From 4aa7450d4511377a6a6b287d184c58a4985de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 34/43] fix: one-sided bounds are recognised through
 substitutions

---
 src/scheme/helpers.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 922e813..edb78b6 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -142,11 +142,12 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
     else
     {
       const auto & sub = xsub[static_cast<size_t>(it - x.begin())];
-      auto ps = sub->jacobian(*x[0]).properties();
+      const auto & ps = sub->jacobian(*sub->variables()[0]).properties();
+      // Both matrices are diagonal, so that the sign of their product is the product of their signs.
       if(case1)
-        return (p * ps).isPositiveDefinite();
+        return (p.isPositiveDefinite() && ps.isPositiveDefinite()) || (p.isNegativeDefinite() && ps.isNegativeDefinite());
       else
-        return (p * ps).isNegativeDefinite();
+        return (p.isPositiveDefinite() && ps.isNegativeDefinite()) || (p.isNegativeDefinite() && ps.isPositiveDefinite());
     }
   }
   else
-- 
2.43.0


From 564f74002e2d8fe3c3ae5219c92375ea1693e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 35/43] fix: zero annotations of substitutions are indexed by
 constraint

---
 src/hint/SubstitutionUnit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..2b69d70 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -180,7 +180,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
@@ -318,7 +318,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -327,6 +326,7 @@ void SubstitutionUnit::scanSubstitutions()
       constraints_.push_back(c);
       constraintsY_.push_back({});
       CXdependencies_.push_back({});
+      cIsZero_.push_back(false);
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-- 
2.43.0


From d131a68c26ad126b2125f596a451f3a28f6612d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 36/43] fix: no additional variable of a former finalization
 remains

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 0ae82f6..d8df6c8 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -92,6 +92,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From 8068955e33dcc26a7bee347c8dbcfc35fbc4a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 37/43] fix: DiagonalCalculator: additional constraints of zero
 rows, sizes of the pattern

---
 include/tvm/hint/internal/DiagonalCalculator.h |  1 +
 src/hint/DiagonalCalculator.cpp                | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..ad6ca0b 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -54,6 +54,7 @@ public:
     std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
     std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
     std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..90d0872 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -123,6 +123,10 @@ DiagonalCalculator::Impl::Impl(const std::vector<LinearConstraintPtr> & cstr,
   {
     size_ = x.front()->size() - first;
   }
+  if(first + size_ > n())
+  {
+    throw std::runtime_error("Some indices are too large for the substitution considered");
+  }
   if(size_ != rank)
   {
     throw std::runtime_error("The number of non-zero rows is not consistent with the rank.");
@@ -225,7 +229,7 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   // multiplying by S^T
   for(size_t i = 0; i < zeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,9 +279,14 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
+  if(k != m())
+  {
+    throw std::runtime_error("The number of rows is not the one of the constraint.");
+  }
 
   inverse_.resize(static_cast<DenseIndex>(nnz_.size()));
 }
-- 
2.43.0


From c6c870a37d3e7dbea3335fe46595a466a8da2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 38/43] fix: substitution in a variable several parts of which
 are substituted

---
 src/hint/Substitutions.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d8df6c8..0e15124 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -173,20 +173,32 @@ VariableVector Substitutions::substitute(const VariablePtr & x) const
     {
       return f->variables();
     }
-    else if(x->contains(**it)) // part of x should be substituted
+    else // part of x should be substituted
     {
       tvm::internal::VariableCountingVector vcv;
       vcv.add(x);
-      vcv.remove(*it);
-      vcv.add(f->variables());
+      for(const auto & v : variables_)
+      {
+        if(x->contains(*v))
+        {
+          vcv.remove(v);
+        }
+        else if(x->intersects(*v))
+        {
+          throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
+                                   + " intersect but is not contained by a variable being substituted (" + v->name()
+                                   + "). Variables in the subsitution do not a fine enough level of granularity.");
+        }
+      }
+      for(size_t i = 0; i < variables_.size(); ++i)
+      {
+        if(x->contains(*variables_[i]))
+        {
+          vcv.add(varSubstitutions_[i]->variables());
+        }
+      }
       return vcv.variables();
     }
-    else
-    {
-      throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
-                               + " intersect but is not contained by a variable being substituted (" + (*it)->name()
-                               + "). Variables in the subsitution do not a fine enough level of granularity.");
-    }
   }
 }
 
-- 
2.43.0


From df2e9341d33f784630869ce3284fc95bbd4c47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 39/43] fix: refuse substitutions of parts of the variables of
 a constraint, of no variable, of impossible rank

---
 src/hint/Substitution.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitution.cpp b/src/hint/Substitution.cpp
index 5f33699..503d7e8 100644
--- a/src/hint/Substitution.cpp
+++ b/src/hint/Substitution.cpp
@@ -86,7 +86,7 @@ void Substitution::check() const
     }
   }
 
-  for(size_t i = 0; i < x_.size() - 1; ++i)
+  for(size_t i = 0; i + 1 < x_.size(); ++i)
   {
     for(size_t j = i + 1; j < x_.size(); ++j)
     {
@@ -112,6 +112,13 @@ void Substitution::check() const
         varIsInOneConstr[j] = true;
         constrHasOneVar[i] = true;
       }
+      else if(constraints_[i]->variables().intersects(*x_[j]))
+      {
+        std::stringstream ss;
+        ss << "The " << (i + 1) << "-th constraint (index " << i << ") contains only a part of the variable "
+           << x_[j]->name() << ". This is not possible for variable being substituted.";
+        throw std::runtime_error(ss.str());
+      }
     }
   }
 
@@ -148,6 +155,12 @@ void Substitution::check() const
   {
     throw std::runtime_error("Substitution is not feasible: too many equations.");
   }
+
+  // the rank cannot be greater than the number of equations
+  if(rank_ < 0 || rank_ > m_)
+  {
+    throw std::runtime_error("Substitution is not feasible: the rank is not compatible with the number of equations.");
+  }
 }
 
 } // namespace hint
-- 
2.43.0


From 3bd30cae133f0a4648b5546897f51a9acafec253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 40/43] fix: interdependent substitutions sharing parts of
 variables

---
 src/hint/SubstitutionUnit.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 2b69d70..a6d4369 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -22,6 +22,7 @@ Substitution group(const std::vector<Substitution> & substitutionPool, const std
 {
   std::set<LinearConstraintPtr> subs;
   tvm::internal::VariableCountingVector vars(true);
+  tvm::internal::VariableCountingVector partition(true);
 
   for(auto i : group)
   {
@@ -30,6 +31,22 @@ Substitution group(const std::vector<Substitution> & substitutionPool, const std
 
     const auto & v = substitutionPool[i].variables();
     vars.add(v);
+    partition.add(v);
+  }
+
+  // Some constraints may contain only a part of a variable substituted through
+  // an other substitution.
+  for(const auto & c : subs)
+  {
+    for(const auto & v : c->variables())
+    {
+      partition.add(v);
+    }
+  }
+  std::vector<VariablePtr> x;
+  for(const auto & v : tvm::internal::VariableVectorPartition(vars.variables(), partition))
+  {
+    x.push_back(v);
   }
 
   // Determine the rank.
@@ -48,12 +65,12 @@ Substitution group(const std::vector<Substitution> & substitutionPool, const std
     const auto & v = s.variables();
     int ranki = s.rank(); // this is the declared rank of the matrix in front
                           // of x1,...,xk
-    for(const auto & xi : vars.variables())
+    for(const auto & xi : x)
     {
       int mi = 0;
       // xi is one of the substituted variables. If it is not one
       // substituted by s...
-      if(std::find(v.begin(), v.end(), xi) == v.end())
+      if(std::none_of(v.begin(), v.end(), [&xi](const auto & vi) { return vi->contains(*xi); }))
       {
         for(const auto & c : s.constraints())
         {
@@ -67,7 +84,7 @@ Substitution group(const std::vector<Substitution> & substitutionPool, const std
     rank += std::min(ranki, s.m());
   }
 
-  return Substitution(std::vector<LinearConstraintPtr>(subs.begin(), subs.end()), vars.variables().variables(), rank);
+  return Substitution(std::vector<LinearConstraintPtr>(subs.begin(), subs.end()), x, rank);
 }
 } // namespace
 
-- 
2.43.0


From 3ab010d74fbb349f0fbf8eb5a9ebff247d3f894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 41/43] fix: over-determined constraints of deficient rank can
 be substituted

---
 src/hint/SubstitutionCalculatorImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index d21121b..beea664 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -142,7 +142,6 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     n_ += v->size();
   }
 
-  assert(m_ <= n_);
   assert(r_ <= m_);
 
   if(!isSimple())
-- 
2.43.0


From 9c4d74a76ba4a2b8f6e8523368466759a847867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 42/43] fix: a rectangular matrix is not annotated as an
 identity or diagonal one

---
 include/tvm/function/BasicLinearFunction.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tvm/function/BasicLinearFunction.h b/include/tvm/function/BasicLinearFunction.h
index 9cca4a6..d1a8d9d 100644
--- a/include/tvm/function/BasicLinearFunction.h
+++ b/include/tvm/function/BasicLinearFunction.h
@@ -171,6 +171,11 @@ inline void BasicLinearFunction::add(const Eigen::MatrixBase<Derived> & A, Varia
     {
       shape = Shape::DIAGONAL;
     }
+    // These shapes are meaningful only for square matrices
+    if(A.rows() != A.cols())
+    {
+      shape = Shape::GENERAL;
+    }
     jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true), shape});
   }
 }
-- 
2.43.0


From e4dff48654216d6e5b5d2bb0e97098cf1b6f977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:47 +0000
Subject: [PATCH 43/43] fix: simple() stays false after a removal left many
 ranges of a variable

---
 src/internal/VariableCountingVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index c497865..43c2164 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -4,6 +4,7 @@
 
 #include <tvm/Variable.h>
 
+#include <limits>
 #include <sstream>
 
 namespace tvm::internal
@@ -44,8 +45,8 @@ bool VariableCountingVector::remove(const Variable & v)
     else
     {
       // Removals that incur a change are penalized so that simple() will be false
-      // for the corresponding variable
-      counterPair.second += 10;
+      // for the corresponding variable, whatever its number of ranges
+      counterPair.second = std::numeric_limits<size_t>::max() / 2;
     }
   }
   upToDate_ = upToDate_ && !change && !split_; // with split_, the result also depends on the counts
-- 
2.43.0

