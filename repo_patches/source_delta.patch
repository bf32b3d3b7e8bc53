From d1092b922f02df2d3e71d5c93f7862bfe6c8c9bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 01/32] fix: provide exp() for runtime unary expressions

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..9f33c0c 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -77,6 +77,13 @@ namespace viennamath
     return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
-- 
2.43.0


From 2c33b11931ad2fa78ad7528d491bb32380e5229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 02/32] fix: variable_index_out_of_bounds_exception::what()
 returned a dangling pointer

---
 viennamath/exception.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..9d074b5 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,22 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
-
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
+      const char * what() const throw() { return message_.c_str(); }
+
       long id_;
       long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From dcfd7e0c8d8caae1e928824e2352ad90c483f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 03/32] fix: evaluating a variable with nonzero index at a
 scalar throws instead of aborting

---
 viennamath/runtime/variable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/variable.hpp b/viennamath/runtime/variable.hpp
index 388e57a..12248f2 100644
--- a/viennamath/runtime/variable.hpp
+++ b/viennamath/runtime/variable.hpp
@@ -104,10 +104,11 @@ namespace viennamath
 
       /////////////////   Basic evaluation: //////////////////////////////////
 
-      /** @brief Evaluation of the variable by a scalar value. Only valid if the variable ID is zero. */
+      /** @brief Evaluation of the variable by a scalar value. Throws an exception if the variable index is larger than zero. */
       numeric_type operator()(numeric_type value) const
       {
-        assert(id_ == 0 && "Evaluation of variable with nonzero index by a scalar attempted!");
+        if (id_ > 0)
+          throw variable_index_out_of_bounds_exception(static_cast<long>(id_), 1);
 
         return value;
       }
-- 
2.43.0


From 1e86f116b52b417a2a33fa08062df13baaf50fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 04/32] fix: make_vector() results with one or two entries
 referred to destroyed temporaries

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From 9dd6dee99fdeb7a735e78e48984a0441974bd646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 05/32] fix: diff() of a variable by a variable had
 non-deducible template parameters

---
 viennamath/manipulation/diff.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..21ca518 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
-- 
2.43.0


From 639fc7d5c7e3114815f63a39adb5662dd30288e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 06/32] fix: substitute() accepts numbers, handles and
 compile-time replacements for variables and subexpressions

---
 viennamath/manipulation/substitute.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..ee26e72 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -167,7 +167,8 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     ExpressionType const & e)
   {
-    rt_expr<InterfaceType> temp(e.substitute(&u, &repl));
+    rt_expr<InterfaceType> repl_expr(repl);
+    rt_expr<InterfaceType> temp(e.substitute(&u, repl_expr.get()));
     inplace_simplify(temp);
     return temp;
   }
@@ -178,7 +179,8 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&u, &repl));
+    rt_expr<InterfaceType> repl_expr(repl);
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, repl_expr.get()));
     inplace_simplify(temp);
     return temp;
   }
@@ -225,7 +227,8 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&search, &repl));
+    rt_expr<InterfaceType> repl_expr(repl);
+    rt_expr<InterfaceType> temp(e.get()->substitute(&search, repl_expr.get()));
     inplace_simplify(temp);
     return temp;
   }
@@ -247,7 +250,8 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&search, &repl));
+    rt_expr<InterfaceType> repl_expr(repl);
+    rt_expr<InterfaceType> temp(e.get()->substitute(&search, repl_expr.get()));
     inplace_simplify(temp);
     return temp;
   }
-- 
2.43.0


From 9c2cac24957a630248dfa1c9681756e2bdac0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 07/32] fix: comparing vector expressions of different length
 read out of bounds

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..bc249db 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (BaseType::size() == temp->size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From b6f1bfed87774f2295639fa7edac6e0198335723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 08/32] fix: integrals over different intervals or variables
 compared equal

---
 viennamath/runtime/integral.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..52c6057 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -94,6 +94,16 @@ namespace viennamath
       viennamath::rt_variable<InterfaceType> integration_variable_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two integrals for equality with respect to the integration interval and the integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return    lhs.variable().id() == rhs.variable().id()
+           && lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get());
+  }
+
 
 
   //
@@ -185,6 +195,14 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two symbolic integrals for equality with respect to the id of the symbolic interval */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From 0b16512f5f6d3934109422a5b135108865f346b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 09/32] fix: rt_interval::operator= did not return a value

---
 viennamath/runtime/interval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..ed1d9ba 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,6 +56,7 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
+        return *this;
       };
 
     private:
-- 
2.43.0


From 8dc7f868ff06246c5f615fe8c4f9fd39ec0875ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 10/32] fix: copy assignment of unary expressions and
 construction from ct_constant did not compile

---
 viennamath/runtime/unary_expr.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..49191b2 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -75,7 +75,7 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
+      explicit rt_unary_expr(ct_constant<value> const &) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
                                                               op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        //'other' might be part of the current operand, thus clone before releasing:
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_   = new_op;
         return *this;
       }
 
-- 
2.43.0


From fa93387c61c248685f25b40517d1ef5d154c3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 11/32] fix: assigning a compile-time variable to an expression
 handle did not compile

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..0b7998d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From 59e9a9efdd12aa96bdf3812352f5db2cacebb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 12/32] fix: assigning an empty expression handle dereferenced
 a null pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 0b7998d..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From b3f1d2e9fe7e92e41ac51fe64ff0f3c7dc9d5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 13/32] fix: assignments to binary expressions from constants,
 compile-time expressions and own operands

---
 viennamath/runtime/binary_expr.hpp | 63 ++++++++----------------------
 1 file changed, 17 insertions(+), 46 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..d34b99e 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -160,71 +160,42 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
+        return *this = rt_binary_expr(other);
       }
 
-      template <typename LHS, typename OP, long value>
-      rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
-      }
-
-      template <long value, typename OP, typename RHS>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value>, OP, RHS > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
-      }
-
-      template <long value1, typename OP, long value2>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        return *this;
-      }
-
-
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        //'other' might be part of one of the current operands, thus clone before releasing:
+        std::auto_ptr<InterfaceType>     new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType>     new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
       template <typename ScalarType>
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        return *this;
+        return *this = static_cast<numeric_type>(other);
       }
 
       template <long value>
       rt_binary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
+      /** @brief Assigns a constant, represented as (value + 0) */
       rt_binary_expr & operator=(numeric_type value)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        std::auto_ptr<InterfaceType>     new_lhs(new rt_constant<numeric_type, InterfaceType>(value));
+        std::auto_ptr<op_interface_type> new_op(new op_binary<op_plus<numeric_type>, InterfaceType>());
+        std::auto_ptr<InterfaceType>     new_rhs(new rt_constant<numeric_type, InterfaceType>(0));
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
-- 
2.43.0


From 83a8497a943963ca1d124f8e9e0702384cd68ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 14/32] fix: memory leak when differentiating a gradient by a
 function symbol

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 9f33c0c..5c727fe 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -663,7 +663,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From 8ce4f824ce598754f7d7be02cf4786a21ba337f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 15/32] fix: memory leaks when differentiation raises an
 exception

---
 .../manipulation/detail/binary_operations.hpp | 24 ++++++++++++-------
 .../manipulation/detail/unary_operations.hpp  | 23 +++++++++++-------
 viennamath/runtime/vector_expr.hpp            |  4 ++--
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/viennamath/manipulation/detail/binary_operations.hpp b/viennamath/manipulation/detail/binary_operations.hpp
index 712db08..8034853 100644
--- a/viennamath/manipulation/detail/binary_operations.hpp
+++ b/viennamath/manipulation/detail/binary_operations.hpp
@@ -40,9 +40,11 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> lhs_diff(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> rhs_diff(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( lhs_diff.release(),
                                                 new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+                                                rhs_diff.release() );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 + e2 */
@@ -108,9 +110,11 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_minus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> lhs_diff(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> rhs_diff(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( lhs_diff.release(),
                                                 new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+                                                rhs_diff.release() );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 - e2 */
@@ -182,13 +186,15 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_mult<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> lhs_diff(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> rhs_diff(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs_diff.release(),
                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                   rhs->clone()),
                                                 new op_binary<op_plus<NumericT>, InterfaceType>(),
                                                 new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                  rhs->diff(diff_var) )
+                                                                                  rhs_diff.release() )
                             );
   }
 
@@ -284,13 +290,15 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
+    std::auto_ptr<InterfaceType> lhs_diff(lhs->diff(diff_var));
+    std::auto_ptr<InterfaceType> rhs_diff(rhs->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs_diff.release(),
                                                                                                                    new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                                                    rhs->clone()),
                                                                                  new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                                                  new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                                                    new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                                                   rhs->diff(diff_var))
+                                                                                                                   rhs_diff.release())
                                                                          ),
                                               new op_binary<op_div<NumericT>, InterfaceType>(),
                                               new rt_binary_expr<InterfaceType>(rhs->clone(),
diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 5c727fe..6ce2a6c 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -51,9 +51,10 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_exp<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var));
+                                           e_diff.release());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime constant */
@@ -123,9 +124,10 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sin<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_cos<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var) );
+                                           e_diff.release() );
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime constant */
@@ -196,11 +198,12 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_cos<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_sin<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>(-1),
                                                                               new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                              e->diff(diff_var) )
+                                                                              e_diff.release() )
                                           );
   }
 
@@ -271,7 +274,8 @@ namespace viennamath
   InterfaceType * diff_impl(const InterfaceType * e, op_tan<NumericT>, const InterfaceType * diff_var)
   {
     // 1/cos^2(e):
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( e_diff.release(),
                                               new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                               new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(),
                                                                                                                   new op_unary<op_cos<NumericT>, InterfaceType>()),
@@ -418,7 +422,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sqrt<NumericT>, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+      std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( e_diff.release(),
                                              new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                              new rt_binary_expr<InterfaceType>( new rt_constant<NumericT>(2),
                                                                              new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
@@ -494,7 +499,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( e_diff.release(),
                                            new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_unary_expr<InterfaceType>(e->clone())
                                          );
@@ -571,7 +577,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log10<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> e_diff(e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( e_diff.release(),
                                            new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>( ::log(10.0) ),
                                                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
@@ -652,8 +659,8 @@ namespace viennamath
     const FunctionSymbolType * ptr = dynamic_cast< const FunctionSymbolType *>(diff_var);
     if (ptr != NULL)
     {
-      InterfaceType * c0 = new rt_constant<NumericT, InterfaceType>(0);
       InterfaceType * new_expr = e->diff(diff_var);
+      InterfaceType * c0 = new rt_constant<NumericT, InterfaceType>(0);
 
       if (new_expr->deep_equal(c0)) // grad(0) is directly compressed to 0
       {
diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index bc249db..777659c 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -212,12 +212,12 @@ namespace viennamath
       /** @brief Returns the differentiated expression. Note that the returned pointer is not automatically deleted, thus the caller is responsible for proper deletion. */
       InterfaceType * diff(const InterfaceType * diff_var) const
       {
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));
 
-        return result;
+        return result.release();
       }
 
 
-- 
2.43.0


From 2c0984ca3873ab47bc392a02566c6380e25e8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 16/32] fix: evaluating a formal gradient, divergence,
 derivative or symbolic integral raises an exception class instead of a string
 literal

---
 viennamath/compiletime/unary_op_tags.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viennamath/compiletime/unary_op_tags.hpp b/viennamath/compiletime/unary_op_tags.hpp
index 367d28f..113ea62 100644
--- a/viennamath/compiletime/unary_op_tags.hpp
+++ b/viennamath/compiletime/unary_op_tags.hpp
@@ -21,6 +21,7 @@
 #include <vector>
 #include <math.h>
 #include "viennamath/forwards.h"
+#include "viennamath/exception.hpp"
 
 /** @file  unary_op_tags.hpp
     @brief Defines the tags for unary operations.
@@ -181,7 +182,7 @@ namespace viennamath
 
     NumericT apply(NumericT /*value*/) const
     {
-      throw "Cannot evaluate formal gradient. Use transformations first.";
+      throw expression_not_evaluable_exception("Cannot evaluate formal gradient. Use transformations first.");
     }
     bool can_simplify() const { return false; }
   };
@@ -201,7 +202,7 @@ namespace viennamath
 
     NumericT apply(NumericT /*value*/) const
     {
-      throw "Cannot evaluate formal divergence. Use transformations first.";
+      throw expression_not_evaluable_exception("Cannot evaluate formal divergence. Use transformations first.");
       return 0;
     }
     bool can_simplify() const { return false; }
@@ -231,7 +232,7 @@ namespace viennamath
 
       NumericT apply(NumericT /*value*/) const
       {
-        throw "Cannot evaluate formal partial derivative. Use transformations first.";
+        throw expression_not_evaluable_exception("Cannot evaluate formal partial derivative. Use transformations first.");
       }
 
       bool can_simplify() const { return false; }
@@ -269,7 +270,7 @@ namespace viennamath
 
       NumericT apply(NumericT value) const
       {
-        throw "Cannot evaluate symbolic_integration. Use transformations first.";
+        throw expression_not_evaluable_exception("Cannot evaluate symbolic_integration. Use transformations first.");
         return value;
       }
 
-- 
2.43.0


From f276d203677c2d0b11cfe016a54b8360cae46490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 17/32] fix: numerical quadrature of a symbolic integral raises
 an exception instead of dereferencing a null interval; empty quadrature
 objects can be copied

---
 viennamath/runtime/numerical_quadrature.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..c75d152 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,13 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL) {}
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL);
         return *this;
       }
 
@@ -151,12 +151,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
-
+              throw symbolic_integral_evaluation_not_possible_exception();
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
             throw integration_without_integral_exception();
-- 
2.43.0


From 0da7a48b11cedc5393418f9bbd0af817ca8fd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 18/32] fix: what() of the exception classes is accessible
 through the class itself

---
 viennamath/exception.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index 9d074b5..5541564 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -74,9 +74,9 @@ namespace viennamath
 
       virtual ~expression_not_evaluable_exception() throw () {}
 
-    private:
       const char * what() const throw() { return message_.c_str(); }
 
+    private:
       std::string message_;
   };
 
@@ -92,9 +92,9 @@ namespace viennamath
 
       virtual ~expression_not_unwrappable_exception() throw () {}
 
-    private:
       const char * what() const throw() { return message_.c_str(); }
 
+    private:
       std::string message_;
   };
 
@@ -109,9 +109,9 @@ namespace viennamath
 
       virtual ~expression_not_differentiable_exception() throw () {}
 
-    private:
       const char * what() const throw() { return message_.c_str(); }
 
+    private:
       std::string message_;
   };
 
@@ -132,9 +132,9 @@ namespace viennamath
 
       virtual ~variable_index_out_of_bounds_exception() throw () {}
 
-    private:
       const char * what() const throw() { return message_.c_str(); }
 
+    private:
       long id_;
       long vector_size_;
       std::string message_;
-- 
2.43.0


From e3ed6424500b78c3d65b189678771bbb38a51980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 19/32] fix: copies of a LaTeX translator keep customisations,
 assignment copies, constants can be translated

---
 viennamath/manipulation/latex.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..52dffcb 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator temp(other);
+        processors_.swap(temp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
@@ -148,7 +155,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
@@ -455,7 +462,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +519,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From 463f11a51ba227e9d0e0d5ecea3384c68c492762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 20/32] fix: traversals do not step into unary expressions when
 told not to; manipulations and traversals reach vector components

---
 viennamath/runtime/unary_expr.hpp  |  3 ++-
 viennamath/runtime/vector_expr.hpp | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 49191b2..35168b5 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -333,7 +333,8 @@ namespace viennamath
       void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
       {
         fw(this);
-        expr_->recursive_traversal(fw);
+        if (fw.step_into(this))
+          expr_->recursive_traversal(fw);
       }
 
     private:
diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 777659c..ace3fe7 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -220,6 +220,30 @@ namespace viennamath
         return result.release();
       }
 
+      /** @brief Recursively manipulates the vector and its components. Note that the returned pointer is not automatically deleted, thus the caller is responsible for proper deletion. */
+      InterfaceType * recursive_manipulation(rt_manipulation_wrapper<InterfaceType> const & fw) const
+      {
+        if (fw.modifies(this))
+          return fw(this);
+
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
+
+        for (std::size_t i=0; i<result->size(); ++i)
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->recursive_manipulation(fw));
+
+        return result.release();
+      }
+
+      /** @brief Recursively traverses the vector and its components by calling the wrapper for each object without manipulating it. */
+      void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
+      {
+        fw(this);
+        if (fw.step_into(this))
+        {
+          for (std::size_t i=0; i<BaseType::size(); ++i)
+            (*this)[i].get()->recursive_traversal(fw);
+        }
+      }
 
   };
 
-- 
2.43.0


From 2544db0c994568ae7a8c77197db628f6ab2b2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 21/32] fix: replacing a symbolic integration domain only
 affects integrals over that domain, also inside other integrals

---
 viennamath/manipulation/substitute.hpp | 41 +++++++++++---------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ee26e72..b951581 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -299,49 +299,42 @@ namespace viennamath
     template <typename InterfaceType>
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
+        typedef op_rt_integral<InterfaceType>                                      OperatorType;
+        typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType>    SymbolicOpType;
+
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(id_type id, OperatorType const & op) : id_(id), op_(op) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
         {
-          viennamath::rt_unary_expr<InterfaceType> const * ex_ptr = dynamic_cast< viennamath::rt_unary_expr<InterfaceType> const * >(e);
-          if (ex_ptr != NULL)
-          {
-            typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
+          if (!modifies(e))
+            return e->clone();
 
-            OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
-            {
-              //std::cout << "Modifies!" << std::endl;
-              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
-            }
-          }
+          // the integrand may contain further integrals over the symbolic interval
+          viennamath::rt_unary_expr<InterfaceType> const * ex_ptr = dynamic_cast< viennamath::rt_unary_expr<InterfaceType> const * >(e);
+          viennamath::rt_manipulation_wrapper<InterfaceType> fun(new integral_substitution_functor(id_, op_));
+          viennamath::rt_expr<InterfaceType> integrand(ex_ptr->lhs()->recursive_manipulation(fun));
 
-          return e->clone();
+          return new viennamath::rt_unary_expr<InterfaceType>(integrand.get()->clone(), new op_unary<OperatorType, InterfaceType>(op_));
         }
 
 
         bool modifies(InterfaceType const * e) const
         {
-          //std::cout << "Checking " << e->shallow_str() << std::endl;
           viennamath::rt_unary_expr<InterfaceType> const * ex_ptr = dynamic_cast< viennamath::rt_unary_expr<InterfaceType> const * >(e);
           if (ex_ptr != NULL)
           {
-            typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
-
-            OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
+            SymbolicOpType const * op_ptr = dynamic_cast< SymbolicOpType const * >(ex_ptr->op());
             if (op_ptr != NULL)
-            {
-              //std::cout << "FOUND!" << std::endl;
-              return true;
-            }
+              return op_ptr->op().interval().id() == id_;
           }
           return false;
         }
 
       private:
-        std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
+        id_type id_;
+        OperatorType op_;
     };
   } //namespace detail
 
@@ -352,13 +345,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<InterfaceType> fun( new detail::integral_substitution_functor<InterfaceType>(search.id(), OperatorT(repl.first, repl.second)) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From bd3d8183527019df6e1af9a8bfe694d28472c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:34 +0000
Subject: [PATCH 22/32] fix: applying a coordinate system expands the operators
 of every function symbol and the divergence of vectors

---
 .../manipulation/apply_coordinate_system.hpp  | 140 ++++++++++--------
 1 file changed, 79 insertions(+), 61 deletions(-)

diff --git a/viennamath/manipulation/apply_coordinate_system.hpp b/viennamath/manipulation/apply_coordinate_system.hpp
index a20fb30..181c2b1 100644
--- a/viennamath/manipulation/apply_coordinate_system.hpp
+++ b/viennamath/manipulation/apply_coordinate_system.hpp
@@ -31,6 +31,82 @@
 namespace viennamath
 {
 
+  /** @brief Implementation details for functionality in ViennaMath. Not intended for direct use. */
+  namespace detail
+  {
+    /** @brief Expands the differential operators applied to function symbols (and the divergence of vectors) in Cartesian coordinates */
+    template <typename InterfaceType>
+    class cartesian_expansion_functor : public viennamath::rt_manipulation_interface<InterfaceType>
+    {
+        typedef typename InterfaceType::numeric_type                        NumericT;
+        typedef viennamath::rt_unary_expr<InterfaceType>                    UnaryExpr;
+        typedef viennamath::rt_vector_expr<InterfaceType>                   VectorExpr;
+        typedef op_unary<op_gradient<NumericT>, InterfaceType>              OpGradient;
+        typedef op_unary<op_divergence<NumericT>, InterfaceType>            OpDivergence;
+        typedef op_partial_deriv<NumericT>                                  PartialDeriv;
+
+      public:
+        cartesian_expansion_functor(id_type dim) : dim_(dim) {}
+
+        InterfaceType * operator()(InterfaceType const * e) const
+        {
+          if (!modifies(e))
+            return e->clone();
+
+          UnaryExpr const * ptr = dynamic_cast<UnaryExpr const *>(e);
+          bool is_gradient = (dynamic_cast<OpGradient const *>(ptr->op()) != NULL);
+
+          viennamath::rt_manipulation_wrapper<InterfaceType> fun(new cartesian_expansion_functor(dim_));
+          viennamath::rt_expr<InterfaceType> operand(ptr->lhs()->recursive_manipulation(fun));
+          VectorExpr const * vec = dynamic_cast<VectorExpr const *>(operand.get());
+          bool is_symbol = (dynamic_cast<viennamath::rt_function_symbol<InterfaceType> const *>(operand.get()) != NULL);
+
+          if (is_gradient && is_symbol)
+          {
+            VectorExpr result(dim_);
+            for (id_type i=0; i<dim_; ++i)
+              result[i] = partial(operand, i);
+            return (dim_ == 1) ? result[0].get()->clone() : result.clone();
+          }
+
+          if (!is_gradient && (is_symbol || dim_ == 1 || (vec != NULL && vec->size() == dim_)))
+          {
+            viennamath::rt_expr<InterfaceType> result = partial(vec != NULL ? (*vec)[0] : operand, 0);
+            for (id_type i=1; i<dim_; ++i)
+              result = result + partial(vec != NULL ? (*vec)[i] : operand, i);
+            return result.get()->clone();
+          }
+
+          return new UnaryExpr(operand.get()->clone(), ptr->op()->clone());
+        }
+
+        bool modifies(InterfaceType const * e) const
+        {
+          UnaryExpr const * ptr = dynamic_cast<UnaryExpr const *>(e);
+          return ptr != NULL && (   dynamic_cast<OpGradient const *>(ptr->op()) != NULL
+                                 || dynamic_cast<OpDivergence const *>(ptr->op()) != NULL);
+        }
+
+      private:
+        viennamath::rt_expr<InterfaceType> partial(viennamath::rt_expr<InterfaceType> const & e, id_type i) const
+        {
+          return viennamath::rt_expr<InterfaceType>(new UnaryExpr(e.get()->clone(), new op_unary<PartialDeriv, InterfaceType>(PartialDeriv(i))));
+        }
+
+        id_type dim_;
+    };
+
+    /** @brief Applies a Cartesian coordinate system of dimension 'dim' to the expression */
+    template <typename InterfaceType>
+    rt_expr<InterfaceType> apply_cartesian(id_type dim, rt_expr<InterfaceType> const & ex)
+    {
+      viennamath::rt_manipulation_wrapper<InterfaceType> fun(new cartesian_expansion_functor<InterfaceType>(dim));
+      rt_expr<InterfaceType> temp(ex.get()->recursive_manipulation(fun));
+      inplace_simplify(temp);
+      return temp;
+    }
+  }
+
   /** @brief Transforms the expression to a Cartesian coordinate system in one dimension
    *
    * @param ex     The runtime expression wrapper to be transformed
@@ -38,20 +114,7 @@ namespace viennamath
   template <typename InterfaceType>
   rt_expr<InterfaceType> apply_coordinate_system(cartesian<1>, rt_expr<InterfaceType> const & ex)
   {
-    rt_function_symbol<InterfaceType> u(0, unknown_tag<>());
-    rt_function_symbol<InterfaceType> v(0, test_tag<>());
-    rt_variable<InterfaceType> x(0);
-
-    //replace grad:
-    rt_expr<InterfaceType> new_ex = ex;
-    rt_expr<InterfaceType> new_ex1(substitute(grad(u), diff(u, x), new_ex) );
-    rt_expr<InterfaceType> new_ex2(substitute(grad(v), diff(v, x), new_ex1) );
-
-    //replace div:
-    rt_expr<InterfaceType> new_ex3(substitute(div(u), diff(u, x), new_ex2) );
-    rt_expr<InterfaceType> new_ex4(substitute(div(v), diff(v, x), new_ex3) );
-
-    return new_ex4;
+    return detail::apply_cartesian<InterfaceType>(1, ex);
   }
 
 
@@ -87,28 +150,7 @@ namespace viennamath
   template <typename InterfaceType>
   rt_expr<InterfaceType> apply_coordinate_system(cartesian<2>, rt_expr<InterfaceType> const & ex)
   {
-    rt_function_symbol<InterfaceType> u(0, unknown_tag<>());
-    rt_function_symbol<InterfaceType> v(0, test_tag<>());
-    rt_variable<InterfaceType> x(0);
-    rt_variable<InterfaceType> y(1);
-
-    rt_vector_expr<InterfaceType> grad_u(2);
-    grad_u[0] = diff(u, x);
-    grad_u[1] = diff(u, y);
-
-    rt_vector_expr<InterfaceType> grad_v(2);
-    grad_v[0] = diff(v, x);
-    grad_v[1] = diff(v, y);
-
-    //replace grad:
-    rt_expr<InterfaceType> new_ex1(substitute(grad(u), grad_u, ex) );
-    rt_expr<InterfaceType> new_ex2(substitute(grad(v), grad_v, new_ex1) );
-
-    //replace div:
-    rt_expr<InterfaceType> new_ex3(substitute(div(u), diff(u, x) + diff(u, y), new_ex2) );
-    rt_expr<InterfaceType> new_ex4(substitute(div(v), diff(v, x) + diff(v, y), new_ex3) );
-
-    return new_ex4;
+    return detail::apply_cartesian<InterfaceType>(2, ex);
   }
 
   /** @brief Transforms the expression to a Cartesian coordinate system in two dimensions
@@ -143,31 +185,7 @@ namespace viennamath
   template <typename InterfaceType>
   rt_expr<InterfaceType> apply_coordinate_system(cartesian<3>, rt_expr<InterfaceType> const & ex)
   {
-    rt_function_symbol<InterfaceType> u(0, unknown_tag<>());
-    rt_function_symbol<InterfaceType> v(0, test_tag<>());
-    rt_variable<InterfaceType> x(0);
-    rt_variable<InterfaceType> y(1);
-    rt_variable<InterfaceType> z(2);
-
-    rt_vector_expr<InterfaceType> grad_u(3);
-    grad_u[0] = diff(u, x);
-    grad_u[1] = diff(u, y);
-    grad_u[2] = diff(u, z);
-
-    rt_vector_expr<InterfaceType> grad_v(3);
-    grad_v[0] = diff(v, x);
-    grad_v[1] = diff(v, y);
-    grad_v[2] = diff(v, z);
-
-    //replace grad:
-    rt_expr<InterfaceType> new_ex1(substitute(grad(u), grad_u, ex) );
-    rt_expr<InterfaceType> new_ex2(substitute(grad(v), grad_v, new_ex1) );
-
-    //replace div:
-    rt_expr<InterfaceType> new_ex3(substitute(div(u), diff(u, x) + diff(u, y) + diff(u, z), new_ex2) );
-    rt_expr<InterfaceType> new_ex4(substitute(div(v), diff(v, x) + diff(v, y) + diff(v, z), new_ex3) );
-
-    return new_ex4;
+    return detail::apply_cartesian<InterfaceType>(3, ex);
   }
 
   /** @brief Transforms the expression to a Cartesian coordinate system in three dimensions
-- 
2.43.0


From f79216607139bd95fe934193c21bd35f091a582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 23/32] fix: simplify() of compile-time expressions is not
 ambiguous with the fallback, and no two simplification rules compete

---
 viennamath/manipulation/simplify.hpp | 119 ++++++++++++++++++---------
 1 file changed, 79 insertions(+), 40 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..00dadc0 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -39,9 +39,18 @@ namespace viennamath
     namespace detail
     {
 
+      //
+      // The rules are organized in three layers such that no two of them compete for the same expression:
+      //  simplify_impl:       elimination of zeros and ones, falls back to
+      //  simplify_constants:  operations on constants and fractions of constants, falls back to
+      //  simplify_structure:  rearrangements and the recursion into the operands
+      //
+      template <typename ExpressionType>
+      struct simplify_impl;
+
       // general handling:
       template <typename ExpressionType>
-      struct simplify_impl
+      struct simplify_structure
       {
         //default: no optimization available, thus don't manipulate anything
         static const int value = 0;
@@ -49,7 +58,7 @@ namespace viennamath
       };
 
       template <typename LHS, typename OP, typename RHS>
-      struct simplify_impl< ct_binary_expr<LHS, OP, RHS> >
+      struct simplify_structure< ct_binary_expr<LHS, OP, RHS> >
       {
         //default: no optimization available, thus don't manipulate anything
         static const int value = simplify_impl<LHS>::value + simplify_impl<RHS>::value;
@@ -59,6 +68,12 @@ namespace viennamath
                               >        type;
       };
 
+      template <typename ExpressionType>
+      struct simplify_constants : public simplify_structure<ExpressionType> {};
+
+      template <typename ExpressionType>
+      struct simplify_impl : public simplify_constants<ExpressionType> {};
+
 
       ////////// Addition of zero:
 
@@ -101,7 +116,7 @@ namespace viennamath
 
 
       template <typename LHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<LHS1,
+      struct simplify_structure < ct_binary_expr<LHS1,
                                             op_plus<NumericT>,
                                             ct_binary_expr<ct_constant<0>,
                                                           op_minus<NumericT>,
@@ -115,7 +130,7 @@ namespace viennamath
       };
 
       template <typename LHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<LHS1,
+      struct simplify_structure < ct_binary_expr<LHS1,
                                             op_minus<NumericT>,
                                             ct_binary_expr<ct_constant<0>,
                                                           op_minus<NumericT>,
@@ -129,7 +144,7 @@ namespace viennamath
       };
 
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr< ct_constant<0>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr< ct_constant<0>,
                                                             op_minus<NumericT>,
                                                             RHS1 >,
                                             op_plus<NumericT>,
@@ -143,7 +158,7 @@ namespace viennamath
       };
 
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr< ct_constant<0>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr< ct_constant<0>,
                                                             op_minus<NumericT>,
                                                             RHS1 >,
                                             op_minus<NumericT>,
@@ -161,7 +176,7 @@ namespace viennamath
 
       // resolve ambituity for plus:
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr< ct_constant<0>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr< ct_constant<0>,
                                                             op_minus<NumericT>,
                                                             RHS1 >,
                                             op_plus<NumericT>,
@@ -181,7 +196,7 @@ namespace viennamath
 
       // resolve ambituity for minus:
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr< ct_constant<0>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr< ct_constant<0>,
                                                             op_minus<NumericT>,
                                                             RHS1 >,
                                             op_minus<NumericT>,
@@ -308,7 +323,7 @@ namespace viennamath
       ////////// (1 / X) * Y  and  Y * (1/X)   results in Y/X
 
       template <typename LHS, typename NumericT, typename RHS>
-      struct simplify_impl < ct_binary_expr<LHS,
+      struct simplify_structure < ct_binary_expr<LHS,
                                             op_mult<NumericT>,
                                             ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>
                                           > >
@@ -320,7 +335,7 @@ namespace viennamath
       };
 
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
                                             op_mult<NumericT>,
                                             RHS2
                                           > >
@@ -333,7 +348,7 @@ namespace viennamath
 
       //resolve ambiguity in above two cases:
       template <typename RHS1, typename NumericT, typename RHS2>
-      struct simplify_impl < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
+      struct simplify_structure < ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
                                             op_mult<NumericT>,
                                             ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS2>
                                           > >
@@ -354,7 +369,7 @@ namespace viennamath
       // A + B:
       template <long numerator_1, long denominator_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_plus<NumericT>,
@@ -375,7 +390,7 @@ namespace viennamath
 
       template <long value_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_plus<NumericT>,
                                           ct_binary_expr<ct_constant<numerator_2>,
                                                           op_div<NumericT>,
@@ -394,7 +409,7 @@ namespace viennamath
 
       template <long numerator_1, long denominator_1, typename NumericT,
                 long value_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_plus<NumericT>,
@@ -416,7 +431,7 @@ namespace viennamath
       // A - B:
       template <long numerator_1, long denominator_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_minus<NumericT>,
@@ -436,7 +451,7 @@ namespace viennamath
 
       template <long value_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_binary_expr<ct_constant<numerator_2>,
                                                           op_div<NumericT>,
@@ -454,7 +469,7 @@ namespace viennamath
 
       template <long numerator_1, long denominator_1, typename NumericT,
                 long value_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_minus<NumericT>,
@@ -472,7 +487,7 @@ namespace viennamath
 
       // resolve ambiguity with elimination of zero
       template <long numerator_1, long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_minus<NumericT>,
@@ -492,7 +507,7 @@ namespace viennamath
       // A * B:
       template <long numerator_1, long denominator_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
@@ -512,7 +527,7 @@ namespace viennamath
 
       template <long value_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_mult<NumericT>,
                                           ct_binary_expr<ct_constant<numerator_2>,
                                                           op_div<NumericT>,
@@ -530,7 +545,7 @@ namespace viennamath
 
       template <long numerator_1, long denominator_1, typename NumericT,
                 long value_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
@@ -549,7 +564,7 @@ namespace viennamath
       // A / B:
       template <long numerator_1, long denominator_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_div<NumericT>,
@@ -569,7 +584,7 @@ namespace viennamath
 
       template <long value_1, typename NumericT,
                 long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_div<NumericT>,
                                           ct_binary_expr<ct_constant<numerator_2>,
                                                           op_div<NumericT>,
@@ -587,7 +602,7 @@ namespace viennamath
 
       template <long numerator_1, typename NumericT, long denominator_1,
                 long value_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
+      struct simplify_constants< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>,
                                                           op_div<NumericT>,
                                                           ct_constant<denominator_1> >,
                                           op_div<NumericT>,
@@ -605,7 +620,7 @@ namespace viennamath
 
       //primitive expressions
       template <long value_1, typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_plus<NumericT>,
                                           ct_constant<value_2>
                                           >  >
@@ -615,7 +630,7 @@ namespace viennamath
       };
 
       template <long value_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_plus<NumericT>,
                                           ct_constant<0>
                                           >  >
@@ -625,7 +640,7 @@ namespace viennamath
       };
 
       template <typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+      struct simplify_constants< ct_binary_expr<ct_constant<0>,
                                           op_plus<NumericT>,
                                           ct_constant<value_2>
                                           >  >
@@ -635,7 +650,7 @@ namespace viennamath
       };
 
       template <long value_1, typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_constant<value_2>
                                           >  >
@@ -646,7 +661,7 @@ namespace viennamath
 
       //resolve ambiguity:
       template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
@@ -656,7 +671,7 @@ namespace viennamath
       };
 
       template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<-1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<-1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
@@ -669,7 +684,7 @@ namespace viennamath
       //////// const * const:
 
       template <long value_1, typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_mult<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -680,7 +695,7 @@ namespace viennamath
 
       //resolve ambiguity
       template <typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<1>,
                                           op_mult<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -690,7 +705,7 @@ namespace viennamath
       };
 
       template <long value_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_mult<NumericT>,
                                           ct_constant<1>
                                           > >
@@ -700,7 +715,7 @@ namespace viennamath
       };
 
       template <long value_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_mult<NumericT>,
                                           ct_constant<0>
                                           > >
@@ -710,7 +725,7 @@ namespace viennamath
       };
 
       template <typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+      struct simplify_constants< ct_binary_expr<ct_constant<0>,
                                           op_mult<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -724,7 +739,7 @@ namespace viennamath
 
 
       template <long value_1, typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_div<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -737,7 +752,7 @@ namespace viennamath
       };
 
       template <typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+      struct simplify_constants< ct_binary_expr<ct_constant<0>,
                                           op_div<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -746,6 +761,7 @@ namespace viennamath
         typedef ct_constant<0>                   type;
       };
 
+      // resolve ambiguity of the elimination of zeros and ones:
       template <typename NumericT>
       struct simplify_impl< ct_binary_expr<ct_constant<0>,
                                           op_div<NumericT>,
@@ -757,7 +773,7 @@ namespace viennamath
       };
 
       template <long value_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_div<NumericT>,
                                           ct_constant<1>
                                           > >
@@ -768,7 +784,7 @@ namespace viennamath
 
 
       template <long value_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+      struct simplify_constants< ct_binary_expr<ct_constant<value_1>,
                                           op_div<NumericT>,
                                           ct_constant<-1>
                                           > >
@@ -878,6 +894,28 @@ namespace viennamath
       typedef ct_variable<id>       type;
     };
 
+    namespace detail
+    {
+      /** @brief Metafunction distinguishing compiletime expressions from primitive and runtime types, for which there is no compiletime simplification */
+      template <typename T>
+      struct is_ct_simplifiable { enum { value = false }; };
+
+      template <typename LHS, typename OP, typename RHS>
+      struct is_ct_simplifiable< ct_binary_expr<LHS, OP, RHS> > { enum { value = true }; };
+
+      template <typename LHS, typename OP>
+      struct is_ct_simplifiable< ct_unary_expr<LHS, OP> > { enum { value = true }; };
+
+      template <long value_>
+      struct is_ct_simplifiable< ct_constant<value_> > { enum { value = true }; };
+
+      template <typename TAG>
+      struct is_ct_simplifiable< ct_function_symbol<TAG> > { enum { value = true }; };
+
+      template <id_type id>
+      struct is_ct_simplifiable< ct_variable<id> > { enum { value = true }; };
+    }
+
   } //namespace result_of
 
 
@@ -962,7 +1000,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if< !result_of::detail::is_ct_simplifiable<T>::value, T >::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From 9472162f9ce07a67838329923f41ee1dc2292dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 24/32] fix: compile-time fractions and the greatest common
 divisor are not truncated to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 00dadc0..8b9784d 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -380,8 +380,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -399,8 +399,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -418,8 +418,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -441,8 +441,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -459,8 +459,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -477,8 +477,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -495,8 +495,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -517,8 +517,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -535,8 +535,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -553,8 +553,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -574,8 +574,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -592,8 +592,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -610,8 +610,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 63947a323496263a9dc256b4b72e1eec89f5dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 25/32] fix: constant +- (ct_constant +- X) yields an
 expression which can be used as runtime expression

---
 viennamath/runtime/operations/constant.hpp | 108 ++++++---------------
 1 file changed, 30 insertions(+), 78 deletions(-)

diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..c07d27e 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -29,6 +29,16 @@
 namespace viennamath
 {
 
+    namespace detail
+    {
+      /** @brief Returns the runtime expression 'constant OP rhs'. A compiletime expression cannot be used here, because the value of a runtime constant is not part of its type. */
+      template <typename OP, typename InterfaceType, typename ConstantType, typename RHS>
+      rt_binary_expr<InterfaceType> constant_op_expression(ConstantType const & c, RHS const & rhs)
+      {
+        return rt_binary_expr<InterfaceType>(c.clone(), new op_binary<OP, InterfaceType>(), rt_expr<InterfaceType>(rhs).get()->clone());
+      }
+    }
+
     ////////////////// Operations //////////////////////////////
 
     ////// operator+
@@ -36,97 +46,63 @@ namespace viennamath
 
     /** @brief Special overload for c1 + (c2 + X) -> [c1 + c2] + X, where c1 and c2 are runtime constants and X is any expression: */
     template <typename ScalarType, typename InterfaceType, typename OtherScalarType, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >,
-                   op_plus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator+(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<rt_constant<OtherScalarType, InterfaceType>, op_plus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_plus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) + static_cast<OtherScalarType>(other.lhs())),
-                             other.rhs());
+      return detail::constant_op_expression<op_plus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) + static_cast<OtherScalarType>(other.lhs())), other.rhs());
     }
 
     /** @brief Special overload for c1 + (ct_c2 + X) -> [c1 + ct_c2] + X, where c1 is a runtime constant, ct_c2 is a compiletime constant, and X is any expression: */
     template <typename ScalarType, typename InterfaceType, long value, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >,
-                   op_plus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator+(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<ct_constant<value>, op_plus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_plus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) + value),
-                             other.rhs());
+      return detail::constant_op_expression<op_plus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) + value), other.rhs());
     }
 
     /** @brief Special overload for c1 + (c2 - X) -> [c1 + c2] - X, where c1 and c2 are runtime constants and X is any expression: */
     template <typename ScalarType, typename InterfaceType, typename OtherScalarType, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >,
-                   op_minus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator+(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<rt_constant<OtherScalarType, InterfaceType>, op_minus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_minus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) + static_cast<OtherScalarType>(other.lhs())),
-                             other.rhs());
+      return detail::constant_op_expression<op_minus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) + static_cast<OtherScalarType>(other.lhs())), other.rhs());
     }
 
     /** @brief Special overload for c1 + (ct_c2 - X) -> [c1 + ct_c2] - X, where c1 is a runtime constant, ct_c2 is a compiletime constant, and X is any expression: */
     template <typename ScalarType, typename InterfaceType, long value, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >,
-                   op_minus<typename InterfaceType::numeric_type>,
-            RHS >
+    rt_binary_expr<InterfaceType>
     operator+(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<ct_constant<value>, op_minus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_plus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_minus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) + value),
-                             other.rhs());
+      return detail::constant_op_expression<op_minus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) + value), other.rhs());
     }
 
 
     /** @brief Special overload for (ct_c1 + X) + c2 -> [ct_c1 + c2] + X, where ct_c1 is a compile constant, c2 is a runtime constant, and X is any expression: */
     template <long value, typename RHS, typename ScalarType, typename T, typename InterfaceType>
-    ct_binary_expr< rt_constant<typename promote_traits<long, op_plus<T>, ScalarType>::result_type >,
-                    op_plus<T>,
-                    RHS >
+    rt_binary_expr<InterfaceType>
     operator+(ct_binary_expr<ct_constant<value>, op_plus<T>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
       typedef rt_constant< typename promote_traits<long, op_plus<T>, ScalarType>::result_type >    result_constant;
-      return ct_binary_expr<result_constant,
-                            op_plus<T>,
-                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
-                                  lhs.rhs());
+      return detail::constant_op_expression<op_plus<T>, InterfaceType>(result_constant(value + static_cast<ScalarType>(other)), lhs.rhs());
     }
 
     /** @brief Special overload for (ct_c1 - X) + c2 -> [ct_c1 + c2] - X, where ct_c1 is a compile constant, c2 is a runtime constant, and X is any expression: */
     template <long value, typename RHS, typename ScalarType, typename InterfaceType>
-    ct_binary_expr< rt_constant<default_numeric_type, InterfaceType >,
-                    op_minus<default_numeric_type>,
-                    RHS >
+    rt_binary_expr<InterfaceType>
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
       typedef rt_constant<ScalarType, InterfaceType>    result_constant;
-      return ct_binary_expr<result_constant,
-                            op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
-                                  lhs.rhs());
+      return detail::constant_op_expression<op_minus<default_numeric_type>, InterfaceType>(result_constant(value + static_cast<ScalarType>(other)), lhs.rhs());
     }
 
 
@@ -135,66 +111,42 @@ namespace viennamath
 
     /** @brief Special overload for c1 - (c2 + X) -> [c1 - c2] - X, where c1 and c2 are runtime constants and X is any expression: */
     template <typename ScalarType, typename InterfaceType, typename OtherScalarType, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >,
-                   op_minus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator-(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<rt_constant<OtherScalarType, InterfaceType>, op_plus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_minus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) - static_cast<OtherScalarType>(other.lhs())),
-                             other.rhs());
+      return detail::constant_op_expression<op_minus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) - static_cast<OtherScalarType>(other.lhs())), other.rhs());
     }
 
     /** @brief Special overload for c1 - (ct_c2 + X) -> [c1 - ct_c2] - X, where c1 is a runtime constant, ct_c2 is a compiletime constant, and X is any expression: */
     template <typename ScalarType, typename InterfaceType, long value, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >,
-                   op_minus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator-(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<ct_constant<value>, op_plus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_minus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) - value),
-                             other.rhs());
+      return detail::constant_op_expression<op_minus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) - value), other.rhs());
     }
 
     /** @brief Special overload for c1 - (c2 - X) -> [c1 - c2] + X, where c1 and c2 are runtime constants and X is any expression: */
     template <typename ScalarType, typename InterfaceType, typename OtherScalarType, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >,
-                   op_plus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator-(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<rt_constant<OtherScalarType, InterfaceType>, op_minus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, OtherScalarType>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_plus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) - static_cast<OtherScalarType>(other.lhs())),
-                             other.rhs());
+      return detail::constant_op_expression<op_plus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) - static_cast<OtherScalarType>(other.lhs())), other.rhs());
     }
 
     /** @brief Special overload for c1 - (ct_c2 - X) -> [c1 - ct_c2] + X, where c1 is a runtime constant, ct_c2 is a compiletime constant, and X is any expression: */
     template <typename ScalarType, typename InterfaceType, long value, typename RHS>
-    ct_binary_expr<rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >,
-                   op_plus<typename InterfaceType::numeric_type>,
-                   RHS >
+    rt_binary_expr<InterfaceType>
     operator-(rt_constant<ScalarType, InterfaceType> const & lhs,
               ct_binary_expr<ct_constant<value>, op_minus<typename InterfaceType::numeric_type>, RHS> const & other)
     {
       typedef rt_constant<typename promote_traits<ScalarType, op_minus<typename InterfaceType::numeric_type>, long>::result_type, InterfaceType >  ret_constant;
-      return ct_binary_expr<ret_constant,
-                            op_plus<typename InterfaceType::numeric_type>,
-                            RHS
-                           >(ret_constant(static_cast<ScalarType>(lhs) - value),
-                             other.rhs());
+      return detail::constant_op_expression<op_plus<typename InterfaceType::numeric_type>, InterfaceType>(ret_constant(static_cast<ScalarType>(lhs) - value), other.rhs());
     }
 
 
-- 
2.43.0


From 2af393704f5d9985a4608fa7a76dbb89270e53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 26/32] fix: compile-time integration of a variable other than
 the integration variable

---
 viennamath/manipulation/integrate.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..aec71c9 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -301,6 +301,24 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From a6eb77e7488c6923d53e3c442b89d6cdb3d03cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 27/32] fix: compile-time integration of integrands from which
 simplification factors out a constant

---
 viennamath/manipulation/integrate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index aec71c9..85602cc 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -362,8 +362,11 @@ namespace viennamath
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
 
+      // simplification may factor out a constant, e.g. (0 - x) - x -> -1 * (x + x)
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  expanded_simplified_integrand;
+
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              expanded_simplified_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From 1170b29658ddcafbe4ebb205e05f2a5a7146f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 28/32] fix: a compile-time variable can be evaluated at a
 compile-time constant

---
 viennamath/manipulation/eval.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..592fca0 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -289,6 +289,13 @@ namespace viennamath
     return v[id];
   }
 
+  /** @brief Evaluation of a compiletime variable at a compiletime constant. Throws a variable_index_out_of_bounds_exception if the variable has a nonzero ID. */
+  template <id_type id, long value>
+  default_numeric_type eval(ct_variable<id> x, ct_constant<value> const & v)
+  {
+    return x(v);
+  }
+
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
   template <id_type id, typename T0>
   default_numeric_type eval(ct_variable<id>, ct_vector_1<T0> const & v)
-- 
2.43.0


From 8aaa898dc18b581216d4437e2162c663b64199b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 29/32] fix: make_equation/make_interval of a number and a
 constant, make_interval of a compile-time variable

The template parameter RHSType of the overloads taking a number and an
rt_constant could not be deduced, so they were never viable. make_interval()
with a compile-time variable as lower bound had two equivalent overloads and was always
ambiguous.
---
 viennamath/runtime/equation.hpp |  2 +-
 viennamath/runtime/interval.hpp | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index ed1d9ba..d34a8e6 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -92,7 +92,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
@@ -224,14 +224,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From e4ffc0c488e855b74cd8fb133c09334346cb7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:30 +0000
Subject: [PATCH 30/32] fix: (ct_constant - X) + integer constant object
 truncated the sum to the type of the object

---
 viennamath/runtime/operations/constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index c07d27e..4d91814 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -101,7 +101,7 @@ namespace viennamath
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type, InterfaceType >    result_constant;
       return detail::constant_op_expression<op_minus<default_numeric_type>, InterfaceType>(result_constant(value + static_cast<ScalarType>(other)), lhs.rhs());
     }
 
-- 
2.43.0


From c88f85d6de42dd184b4990510d33e3d81c5d1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:54 +0000
Subject: [PATCH 31/32] fix: a failed LaTeX customization leaves no empty entry
 behind

---
 viennamath/manipulation/latex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 52dffcb..7f92134 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -480,7 +480,8 @@ namespace viennamath
         if (dynamic_cast< const Variable * >(ptr) != NULL)
         {
           const Variable * temp = dynamic_cast< const Variable * >(ptr);
-          variable_strings_[temp->id()] = str;
+          std::string temp_str(str); //copied first: no empty entry is left behind if there is no memory for the string
+          variable_strings_[temp->id()].swap(temp_str);
           return true;
         }
         return false;
@@ -538,7 +539,8 @@ namespace viennamath
         {
           const FuncSymbol * temp = dynamic_cast< const FuncSymbol * >(ptr);
           KeyType key(temp->id(), temp->tag_id());
-          function_symbol_strings_[key] = str;
+          std::string temp_str(str); //copied first: no empty entry is left behind if there is no memory for the string
+          function_symbol_strings_[key].swap(temp_str);
           return true;
         }
         return false;
-- 
2.43.0


From 849047c2eb8873e536bf4012b781c7582262a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:54 +0000
Subject: [PATCH 32/32] fix: compile-time function symbols can be printed

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0

