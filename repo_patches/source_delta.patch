From 6ef3b9fb0e04b748717d402819ec1422b8fd842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 01/92] fix: Mul::simplify multiplied by the power again after
 merging x*x^n into x^(n+1)

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..fc3da70 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -219,6 +219,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
-- 
2.43.0


From dac3c37b31deb2875f5b611a7d484e83b15b7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 02/92] fix: Outer::New of a zero vector lost the matrix shape

---
 symbolics/functions/Outer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..c6c3dcd 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -109,8 +109,8 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
+        return Zero::getZero(Shape(arg1->getShape().getDimension(1), arg2->getShape().getDimension(1)));
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
-- 
2.43.0


From 879545b8b39416ae4a87b1beac2a006f1ce6bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 03/92] fix: Tan::New of a zero vector or matrix lost its shape

---
 symbolics/functions/Tan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Tan.cpp b/symbolics/functions/Tan.cpp
index 7c5e461..1813dcc 100644
--- a/symbolics/functions/Tan.cpp
+++ b/symbolics/functions/Tan.cpp
@@ -109,7 +109,7 @@ BasicPtr Tan::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (arg == Zero::getZero()) return Zero::getZero();
+    if (arg == Zero::getZero()) return arg;
 
     // simplify matrices
     switch(arg->getType())
-- 
2.43.0


From 084120653f1166b23de52b297ac0133b53dc4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 04/92] fix: Abs dropped the absolute value of an even matrix
 power, which need not be non-negative element-wise

---
 symbolics/functions/Abs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Abs.cpp b/symbolics/functions/Abs.cpp
index 77ef156..12579bb 100644
--- a/symbolics/functions/Abs.cpp
+++ b/symbolics/functions/Abs.cpp
@@ -93,7 +93,7 @@ BasicPtr Abs::simplify()
         {
             const Pow *p = Util::getAsConstPtr<Pow>(getArg());
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return getArg();
@@ -153,7 +153,7 @@ BasicPtr Abs::New( BasicPtr const& arg)
         {
             const Pow *p = Util::getAsConstPtr<Pow>(arg);
             int exp;
-            if (Util::is_Int(p->getArg2(), exp))
+            if (p->is_Scalar() && Util::is_Int(p->getArg2(), exp))
                 // Ist der Exponent auch gerade?
                 if ((exp%2)==0)
                     return arg;
-- 
2.43.0


From 76d22f4a2bb4bc41c0779ff4392556a0c29d8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 05/92] fix: products tore apart a scalar product of vectors
 when merging nested products

---
 symbolics/functions/Mul.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index fc3da70..6a77799 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -49,6 +49,24 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// A product can be merged into another one argument by argument, except if it is
+// a scalar made of non-scalar arguments (e.g. transpose(a)*b): its arguments have
+// to stay together, since the matrix product is not commutative.
+static bool is_Mergeable( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    if (arg->getType() != Type_Mul)
+        return false;
+    if (!arg->is_Scalar())
+        return true;
+    for (size_t i=0; i<arg->getArgsSize(); ++i)
+        if (!arg->getArg(i)->is_Scalar())
+            return false;
+    return true;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Mul::simplify()
 /*****************************************************************************/
@@ -73,7 +91,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if (is_Mergeable(getArg(i)))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -91,7 +109,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if (is_Mergeable(narg))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -449,7 +467,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    if (is_Mergeable(lhs))
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -457,7 +475,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if (is_Mergeable(rhs))
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -468,7 +486,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if (is_Mergeable(rhs))
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
-- 
2.43.0


From e30dd199b060424ce09e8f56a986d139ded75743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 06/92] fix: Mul::operator== compared the single scalar factor
 with the first argument of the other product

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 6a77799..922ac91 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -318,7 +318,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From c3a2ae582711d164a9ed4663ee677ae5c629e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 07/92] fix: Add::simplify multiplied constant matrices, lost a
 matrix next to a scalar and read an uninitialised flag

---
 symbolics/functions/Add.cpp | 83 ++++++++++---------------------------
 1 file changed, 23 insertions(+), 60 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..77a85f0 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -247,81 +247,44 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
-        {
           matrixes.push_back(other_args1[i]);
-          continue;
-        }
         else if (other_args1[i]->is_Scalar())
-        {
           scalars.push_back(other_args1[i]);
-          continue;
-        }
-        else if (other_args1[i]->getType() == Type_Zero)
-        {
-          hasMatZero=true;
-          continue;
-        }
-        else
+        else if (other_args1[i]->getType() != Type_Zero)
           addArg(other_args1[i]);
       }
 
+      BasicPtr s;
+      if (scalars.size() > 1)
+        s = BasicPtr(new Add(scalars));
+      else if (scalars.size() == 1)
+        s = scalars[0];
+
       if (matrixes.size() > 0)
       {
-        if (matrixes.size() == 1)
-        {
-          if (scalars.size() > 0)
-          {
-            BasicPtr s;
-            if (scalars.size() > 1)
-              s = BasicPtr(new Add(scalars));
-            else
-              s = scalars[0];
-            Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
-            for (size_t i=0; i<c->getNumEl(); ++i)
-              c->set(i,c->get(i)+s);
-          }
-          else
-            addArg(matrixes[0]);
-        }
-        else
-        {
-          Matrix *mat = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
-          for (size_t i=1; i<matrixes.size(); ++i)
-          {
-            const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
-          }
-          if (scalars.size() > 0)
-          {
-            BasicPtr s;
-            if (scalars.size() > 1)
-              s = BasicPtr(new Add(scalars));
-            else
-              s = scalars[0];
-            for (size_t i=0; i<mat->getNumEl(); ++i)
-              mat->set(i,mat->get(i)+s);
-          }
-          addArg(BasicPtr(mat));
-        }
-      }
-      else if(hasMatZero)
-      {
+        // add all matrixes and the scalars element by element
+        Matrix *mat = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
+        BasicPtr mat_ptr(mat);
+        for (size_t i=1; i<matrixes.size(); ++i)
+          *mat += *(Util::getAsConstPtr<Matrix>(matrixes[i]));
         if (scalars.size() > 0)
         {
-          BasicPtr s;
-          if (scalars.size() > 1)
-            s = BasicPtr(new Add(scalars));
-          else
-            s = scalars[0];
-          Matrix *mat = new Matrix(m_shape);
           for (size_t i=0; i<mat->getNumEl(); ++i)
-            mat->set(i,s);
-          addArg(BasicPtr(mat));
+            mat->set(i,mat->get(i)+s);
         }
+        addArg(mat_ptr);
+      }
+      else if ((getArgsSize() == 0) && (scalars.size() > 0))
+      {
+        // only scalars left -> keep the shape
+        Matrix *mat = new Matrix(m_shape);
+        BasicPtr mat_ptr(mat);
+        for (size_t i=0; i<mat->getNumEl(); ++i)
+          mat->set(i,s);
+        addArg(mat_ptr);
       }
       else
       {
-- 
2.43.0


From 4f8a01e4565360722018e2ef2cc079be90ff206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 08/92] fix: Add::simplify dropped the sign of a number with
 coefficient -1

---
 symbolics/functions/Add.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 77a85f0..83fbf74 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -210,16 +210,7 @@ BasicPtr Add::simplify()
             }
             else if (Util::is_One(Neg::New(iter->second)))
             {
-                BasicPtr arg = iter->first;
-                if (arg->getType() == Type_Real)
-                    other_args1.push_back(iter->first);
-                else if (arg->getType() == Type_Int)
-                    other_args1.push_back(iter->first);
-                else
-                {
-                    BasicPtr arg = Neg::New(iter->first);
-                    other_args1.push_back(arg);
-                }
+                other_args1.push_back(Neg::New(iter->first));
             }
             else
             {
-- 
2.43.0


From 95711ae4a0ebc463a279544e3f9f49230efcf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 09/92] fix: negation, derivative and element-wise functions of
 a symmetric matrix filled the result with the packed storage

---
 symbolics/Matrix.cpp       | 15 +++++++++------
 symbolics/include/Matrix.h |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 59c2906..e49042d 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -810,8 +810,9 @@ Matrix Matrix::operator-() const
     Matrix tmp( m_shape );
 
     // Nun alles kopieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp.set(i,-get(i));
+    for(size_t m=0; m<m_shape.getDimension(1); ++m)
+        for(size_t n=0; n<m_shape.getDimension(2); ++n)
+            tmp.set(m,n,-get(m,n));
 
     // fertig
     return tmp;
@@ -847,8 +848,9 @@ BasicPtr Matrix::der()
     Matrix *tmp = new Matrix( m_shape );
 
     // Nun alles differenzieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp->set(i,get(i)->der());
+    for(size_t m=0; m<m_shape.getDimension(1); ++m)
+        for(size_t n=0; n<m_shape.getDimension(2); ++n)
+            tmp->set(m,n,get(m,n)->der());
 
     // fertig
     return BasicPtr(tmp);
@@ -863,8 +865,9 @@ BasicPtr Matrix::der(BasicPtr const& symbol)
     Matrix *tmp = new Matrix( m_shape );
 
     // Nun alles differenzieren
-    for(size_t i=0; i<getNumEl(); ++i)
-        tmp->set(i,get(i)->der(symbol));
+    for(size_t m=0; m<m_shape.getDimension(1); ++m)
+        for(size_t n=0; n<m_shape.getDimension(2); ++n)
+            tmp->set(m,n,get(m,n)->der(symbol));
 
     // fertig
     return BasicPtr(tmp);
diff --git a/symbolics/include/Matrix.h b/symbolics/include/Matrix.h
index 5d61743..5086f68 100644
--- a/symbolics/include/Matrix.h
+++ b/symbolics/include/Matrix.h
@@ -113,8 +113,9 @@ namespace Symbolics
             Matrix* mat = new Matrix(getShape());
 
             // mit Elementen fuellen
-            for(size_t i=0; i<getNumEl(); ++i)
-                mat->set(i, f( getArg(i) ));
+            for(size_t m=0; m<m_shape.getDimension(1); ++m)
+                for(size_t n=0; n<m_shape.getDimension(2); ++n)
+                    mat->set(m,n, f( get(m,n) ));
 
             mat->m_simplified=true;
             // fertig
-- 
2.43.0


From 725f4fb8d60f17718154f836a20d6523f6b1f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 10/92] fix: number (+,-,*) symmetric matrix left elements out
 or ran over the packed storage

---
 symbolics/Matrix.cpp          | 12 ++++++------
 symbolics/SymmetricMatrix.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index e49042d..c517afe 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -934,7 +934,7 @@ Matrix Symbolics::operator+ (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -948,7 +948,7 @@ Matrix Symbolics::operator+ (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -979,7 +979,7 @@ Matrix Symbolics::operator- (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -993,7 +993,7 @@ Matrix Symbolics::operator- (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -1024,7 +1024,7 @@ Matrix Symbolics::operator* (Int const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
@@ -1038,7 +1038,7 @@ Matrix Symbolics::operator* (Real const& lhs, Matrix  const& rhs)
     Matrix c( rhs );
     // Multiplication
     // Wert multiplizieren
-    for (size_t i=0; i<rhs.getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index e9053a4..df131e8 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -553,7 +553,7 @@ SymmetricMatrix Symbolics::operator+ (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -567,7 +567,7 @@ SymmetricMatrix Symbolics::operator+ (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -598,7 +598,7 @@ SymmetricMatrix Symbolics::operator- (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -612,7 +612,7 @@ SymmetricMatrix Symbolics::operator- (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -643,7 +643,7 @@ SymmetricMatrix Symbolics::operator* (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
@@ -657,7 +657,7 @@ SymmetricMatrix Symbolics::operator* (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<c.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
-- 
2.43.0


From 5f903995c18305c174d9f0b84c6b758951b549e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 11/92] fix: a matrix was neither equal nor unequal to an
 expression that is no matrix

---
 symbolics/Matrix.cpp          |  4 ++--
 symbolics/SymmetricMatrix.cpp | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index c517afe..53434d4 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -909,7 +909,7 @@ bool Symbolics::operator!= (Matrix const& lhs, BasicPtr  const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs != (*crhs);
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -921,7 +921,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Matrix  const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) != rhs;
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index df131e8..5f4b28c 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -499,7 +499,7 @@ bool Symbolics::operator== (SymmetricMatrix const& lhs, BasicPtr const& rhs)
 {
     if (rhs->getType() == Type_Matrix)
     {
-        const SymmetricMatrix *crhs = Util::getAsConstPtr<SymmetricMatrix>(rhs);
+        const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs == (*crhs);
     }
     return false;
@@ -511,7 +511,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, SymmetricMatrix const& rhs)
 {
     if (lhs->getType() == Type_Matrix)
     {
-        const SymmetricMatrix *clhs = Util::getAsConstPtr<SymmetricMatrix>(lhs);
+        const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) == rhs;
     }
     return false;
@@ -525,10 +525,10 @@ bool Symbolics::operator!= (SymmetricMatrix const& lhs, BasicPtr  const& rhs)
 {
     if (rhs->getType() == Type_Matrix)
     {
-        const SymmetricMatrix *crhs = Util::getAsConstPtr<SymmetricMatrix>(rhs);
+        const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs != (*crhs);
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -537,10 +537,10 @@ bool Symbolics::operator!= (BasicPtr const& lhs, SymmetricMatrix  const& rhs)
 {
     if (lhs->getType() == Type_Matrix)
     {
-        const SymmetricMatrix *clhs = Util::getAsConstPtr<SymmetricMatrix>(lhs);
+        const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) != rhs;
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 2b122436d5fdfb782f2276a51145b787a5cdfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 12/92] fix: Matrix /= left the simplified mark on changed
 elements

---
 symbolics/Matrix.cpp          | 1 +
 symbolics/SymmetricMatrix.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 53434d4..3bbdf29 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -617,6 +617,7 @@ Matrix Matrix::operator/( double rhs) const
 Matrix& Matrix::operator/=( double rhs)
 /*****************************************************************************/
 {
+    m_simplified = false;
     // Alle Werte teilen
     for (size_t i=0; i<getNumEl(); ++i)
     {
diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index 5f4b28c..9e3bd99 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -344,6 +344,7 @@ SymmetricMatrix SymmetricMatrix::operator/( double rhs) const
 SymmetricMatrix& SymmetricMatrix::operator/=( double rhs)
 /*****************************************************************************/
 {
+    m_simplified = false;
     // Alle Werte teilen
     for (size_t i=0; i<getNumEl(); ++i)
     {
-- 
2.43.0


From c5d62b04e5af398bd4b71fa924330cde1cb9526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 13/92] fix: a vector of ones and the negated one were taken
 for the neutral element of the product

---
 symbolics/functions/Util.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..2b02c65 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -170,14 +170,9 @@ bool Util::is_One( BasicPtr const& e)
     // matrix 
     case Type_Matrix:
     {
+        // a vector of ones is no neutral element
         if (e->is_Vector())
-        {
-          size_t argssize = e->getArgsSize();
-          for (size_t i=0;i<argssize;++i)
-            if (!(e->getArg(i) == Int::getOne()))
-              return false;
-            return true;
-        }
+            return (e->getArgsSize() == 1) && (e->getArg(0) == Int::getOne());
         size_t dim1 = e->getShape().getDimension(1);
         if (dim1 != e->getShape().getDimension(2))
             return false;
@@ -189,7 +184,8 @@ bool Util::is_One( BasicPtr const& e)
     {
         const Basic *b = e.get();
         const Neg *c = dynamic_cast<const Neg*>(b);
-        return is_One(c->getArg());
+        BasicPtr neg = Neg::New(c->getArg());
+        return (neg->getType() != Type_Neg) && is_One(neg);
     }
     default:
         return false;
-- 
2.43.0


From 8207d4f581d7cf683044ddba0110811e0874dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 14/92] fix: substitution threw on sign, inverse, outer and
 jacobian because the Factory did not know them

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..77dc024 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -60,6 +60,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
@@ -94,6 +98,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Greater(arg1,arg2) );
     case Type_Equal:
         return BasicPtr( new Equal(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     default:
@@ -162,6 +170,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
-- 
2.43.0


From 8e5195d8d7eeddba0b2b518f2784b500be368f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 15/92] fix: Transpose::simplify of a zero vector or matrix
 kept the shape untransposed

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..57c487c 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero( getArg()->getShape().transpose() );
+    case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From bd12b795115566400306850100750e30a355727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 16/92] fix: Pow merged (x^a)^b to x^(a*b) for an even a and a
 b that is no integer: sqrt(x^2) is |x|

---
 symbolics/functions/Pow.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..094971d 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -84,6 +84,18 @@ std::string Pow::toString() const
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+// (x^a)^b is x^(a*b), unless x^a loses the sign of x and b does not: sqrt(x^2) = |x|
+static bool is_Mergeable( BasicPtr const& a, BasicPtr const& b )
+/*****************************************************************************/
+{
+    int i = 0;
+    if (Util::is_Int(b,i))
+        return true;
+    return !(Util::is_Int(a,i) && (i%2==0));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Pow::simplify()
 /*****************************************************************************/
@@ -213,6 +225,8 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
+            if (!is_Mergeable(c->getExponent(),getArg2()))
+                break;
             setArg2(getArg2()*c->getExponent()->simplify());
             setArg1(c->getBase());
             m_simplified = true;
@@ -359,6 +373,8 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            if (!is_Mergeable(c->getExponent(),arg2))
+                break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
-- 
2.43.0


From 11409b741131cdccb62b182d35c872807add3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 17/92] fix: Pow moved the sign out of the base for an exponent
 that is no integer: sqrt(-x) is not -sqrt(x)

---
 symbolics/functions/Pow.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 094971d..77b10e7 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -237,9 +237,11 @@ BasicPtr Pow::simplify()
         {
             const Neg *c = Util::getAsConstPtr<Neg>(getArg1());
 
-            // try arg2 as integer
+            // try arg2 as integer, otherwise the sign has to stay inside
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if ( !Util::is_Int(getArg2(), iExp) )
+                break;
+            if (iExp%2==0)
             {
                 setArg1(c->getArg());
                 m_simplified = true;
@@ -385,7 +387,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if ( !Util::is_Int(arg2, iExp) )
+                break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
-- 
2.43.0


From 2bc115f23bd8e73b81f7d7d65967c0598218e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 18/92] fix: a vector of ones is no neutral element of a
 product

---
 symbolics/functions/Mul.cpp  | 25 ++++++++++++++++++-------
 symbolics/functions/Util.cpp |  9 +++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 922ac91..d4777a9 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -49,6 +49,17 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// Is the argument the neutral element of the product? A vector of ones is not.
+static bool is_Neutral( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    if (!Util::is_One(arg))
+        return false;
+    return (!arg->is_Vector()) || (arg->getShape().getNumEl() == 1);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 // A product can be merged into another one argument by argument, except if it is
 // a scalar made of non-scalar arguments (e.g. transpose(a)*b): its arguments have
@@ -161,7 +172,7 @@ BasicPtr Mul::simplify()
             return Zero::getZero(m_shape);
         }
 
-        if ((Util::is_One(new_args[i])) && new_args[i]->is_Scalar())
+        if ((is_Neutral(new_args[i])) && new_args[i]->is_Scalar())
             continue;
 
         // Falls wir einen Int oder Real gefunden haben, diesen multiplizieren
@@ -174,10 +185,10 @@ BasicPtr Mul::simplify()
             dst.push_back(new_args[i]);
     }
     // Wenn der Wert davor nicht 1 ist, dann die Konstante vorn an die Liste anfuegen
-    if (!Util::is_One(val))
+    if (!is_Neutral(val))
     {
         // Falls es eine -1 ist, einfach negieren
-        if (Util::is_One(Neg::New(val)))
+        if (is_Neutral(Neg::New(val)))
             negate_me = !negate_me;
         else
             dst.insert(dst.begin(),val);
@@ -213,11 +224,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (is_Neutral(lastarg) && (!dst[i]->is_Scalar()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (is_Neutral(dst[i]) && (!lastarg->is_Scalar()))
         {
           continue;
         }
@@ -365,9 +376,9 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
 	    return Zero::getZero(shape);
     if (Util::is_Zero(rhs))
 	    return Zero::getZero(shape);
-	if ((Util::is_One(lhs)) && (rhs->getShape() == shape))
+	if ((is_Neutral(lhs)) && (rhs->getShape() == shape))
         return rhs;
-	if ((Util::is_One(rhs)) && (lhs->getShape() == shape))
+	if ((is_Neutral(rhs)) && (lhs->getShape() == shape))
 		return lhs;
 
 
diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 2b02c65..b62138b 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -170,9 +170,14 @@ bool Util::is_One( BasicPtr const& e)
     // matrix 
     case Type_Matrix:
     {
-        // a vector of ones is no neutral element
         if (e->is_Vector())
-            return (e->getArgsSize() == 1) && (e->getArg(0) == Int::getOne());
+        {
+          size_t argssize = e->getArgsSize();
+          for (size_t i=0;i<argssize;++i)
+            if (!(e->getArg(i) == Int::getOne()))
+              return false;
+            return true;
+        }
         size_t dim1 = e->getShape().getDimension(1);
         if (dim1 != e->getShape().getDimension(2))
             return false;
-- 
2.43.0


From 1e2adf967c842ef8e4fc8f93e3fc3e20de3eaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 19/92] fix: comparing a scalar matrix with an expression that
 is no matrix compares its element

---
 symbolics/Matrix.cpp          | 8 ++++----
 symbolics/SymmetricMatrix.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 3bbdf29..64983c1 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -884,7 +884,7 @@ bool Symbolics::operator== (Matrix const& lhs, BasicPtr const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs == (*crhs);
     }
-    return false;
+    return lhs.is_Scalar() && (rhs == lhs.get(0));
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -896,7 +896,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, Matrix const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) == rhs;
     }
-    return false;
+    return rhs.is_Scalar() && (lhs == rhs.get(0));
 }
 /*****************************************************************************/
 
@@ -910,7 +910,7 @@ bool Symbolics::operator!= (Matrix const& lhs, BasicPtr  const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs != (*crhs);
     }
-    return true;
+    return !lhs.is_Scalar() || (rhs != lhs.get(0));
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -922,7 +922,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Matrix  const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) != rhs;
     }
-    return true;
+    return !rhs.is_Scalar() || (lhs != rhs.get(0));
 }
 /*****************************************************************************/
 
diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index 9e3bd99..738194d 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -503,7 +503,7 @@ bool Symbolics::operator== (SymmetricMatrix const& lhs, BasicPtr const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs == (*crhs);
     }
-    return false;
+    return lhs.is_Scalar() && (rhs == lhs.get(0));
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -515,7 +515,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, SymmetricMatrix const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) == rhs;
     }
-    return false;
+    return rhs.is_Scalar() && (lhs == rhs.get(0));
 }
 /*****************************************************************************/
 
@@ -529,7 +529,7 @@ bool Symbolics::operator!= (SymmetricMatrix const& lhs, BasicPtr  const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs != (*crhs);
     }
-    return true;
+    return !lhs.is_Scalar() || (rhs != lhs.get(0));
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -541,7 +541,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, SymmetricMatrix  const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) != rhs;
     }
-    return true;
+    return !rhs.is_Scalar() || (lhs != rhs.get(0));
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 27e2ee0a6c830cd716848446dc7ebb2dae39db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 20/92] fix: the derivative of an inverse recursed without end
 instead of giving -inv(A)*der(A)*inv(A)

---
 symbolics/functions/Inverse.cpp       | 20 +++++++++++++++++++-
 symbolics/functions/include/Inverse.h |  4 ++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..e84e5bc 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -2,6 +2,7 @@
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
+#include "Mul.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -116,4 +117,21 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+  // der(inv(A)) = -inv(A)*der(A)*inv(A)
+  return Neg::New(Mul::New(BasicPtr(this),Mul::New(getArg()->der(),BasicPtr(this))));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+  return Neg::New(Mul::New(BasicPtr(this),Mul::New(getArg()->der(symbol),BasicPtr(this))));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..5310ad6 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,8 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From 876dfe8d08ee9cc5e6584864b3ec8dd1f23bc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 21/92] fix: the derivative of an outer product was the outer
 product of the derivatives

---
 symbolics/functions/Outer.cpp       | 19 ++++++++++++++++++-
 symbolics/functions/include/Outer.h |  4 ++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index c6c3dcd..ef052d0 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -3,6 +3,7 @@
 #include "Neg.h"
 #include "Util.h"
 #include "Mul.h"
+#include "Add.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -123,4 +124,20 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 
     return BasicPtr(new Outer(arg1, arg2));
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der()
+/*****************************************************************************/
+{
+    return Add::New(New(getArg1()->der(), getArg2()), New(getArg1(), getArg2()->der()));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    return Add::New(New(getArg1()->der(symbol), getArg2()), New(getArg1(), getArg2()->der(symbol)));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f0bf05f 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
 	protected:
 		void validate();
-- 
2.43.0


From 0be479a97c74d4ce17d73b117f91335550b995cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 22/92] fix: Outer and Atan2 named the first argument twice in
 their text

---
 symbolics/functions/Atan2.cpp | 4 ++--
 symbolics/functions/Outer.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..3612ed6 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -60,9 +60,9 @@ std::string Atan2::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "atan2(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "atan2(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index ef052d0..2b7e632 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -70,9 +70,9 @@ std::string Outer::toString() const
 /*****************************************************************************/
 {
 #ifdef _DEBUG
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #else
-    return "Outer(" + getArg1()->toString() + "," + getArg1()->toString() + ")";
+    return "Outer(" + getArg1()->toString() + "," + getArg2()->toString() + ")";
 #endif
 }
 /*****************************************************************************/
-- 
2.43.0


From f88e6ff7dbb56d8955bedfd62564928a827deb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 23/92] fix: the derivative of atan2(y,x) had the wrong sign

---
 symbolics/functions/Atan2.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 3612ed6..27d1780 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -244,8 +244,9 @@ BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
     // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y)-y*der(x))/(x^2+y^2)
+  BasicPtr num = Add::New(Mul::New(getArg2(),getArg1()->der()),Neg::New(Mul::New(getArg1(),getArg2()->der())));
+  return Mul::New(num,Pow::New(Add::New(Pow::New(getArg2(),Int::New(2)),Pow::New(getArg1(),Int::New(2))),Int::getMinusOne())); 
 }
 /*****************************************************************************/
 
@@ -254,7 +255,8 @@ BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
     // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y)-y*der(x))/(x^2+y^2)
+  BasicPtr num = Add::New(Mul::New(getArg2(),getArg1()->der(symbol)),Neg::New(Mul::New(getArg1(),getArg2()->der(symbol))));
+  return Mul::New(num,Pow::New(Add::New(Pow::New(getArg2(),Int::New(2)),Pow::New(getArg1(),Int::New(2))),Int::getMinusOne())); 
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 3f903763e82598ba67a1b5744876c5eb0519ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 24/92] fix: the partial derivative of sign(x) was sign(der(x))
 instead of zero

---
 symbolics/functions/Sign.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..6c89b8f 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -157,6 +157,6 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 425c0ac5de91c5633c60ed1c4b976653d4650130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 25/92] fix: Jacobian::simplify transposed the matrix and gave
 the gradient of a scalar as a column

---
 symbolics/functions/Jacobian.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..33b6182 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -41,7 +41,10 @@ void Jacobian::validate()
   if (!getArg2()->is_Vector())
     throw InternalError("Jacobian could only be uses with Vector as second argument!");
 
-  m_shape = Shape(getArg1()->getShape().getNumEl(),getArg2()->getShape().getNumEl());
+  if (getArg1()->is_Scalar())
+    m_shape = Shape(1,1,getArg2()->getShape().getNumEl());
+  else
+    m_shape = Shape(getArg1()->getShape().getNumEl(),getArg2()->getShape().getNumEl());
 
 }
 /*****************************************************************************/
@@ -76,7 +79,7 @@ BasicPtr Jacobian::simplify()
     vec.reserve(numelem);
     for (size_t i=0;i<numelem;++i)
       vec.push_back(getArg1()->der(getArg2()->getArg(i))->simplify());
-    return BasicPtr(new Matrix(vec,Shape(numelem)));
+    return BasicPtr(new Matrix(vec,Shape(1,1,numelem)));
   }
   else if (Util::is_Const(getArg1()))
   {
@@ -87,7 +90,7 @@ BasicPtr Jacobian::simplify()
     Matrix *mat = new Matrix(m_shape);
     for (size_t i=0;i<getArg2()->getShape().getNumEl();++i)
       for (size_t j=0;j<getArg1()->getShape().getNumEl();++j)
-        mat->set(i,j,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
+        mat->set(j,i,getArg1()->getArg(j)->der(getArg2()->getArg(i))->simplify());
     return BasicPtr(mat);
   }
   m_simplified = true;
-- 
2.43.0


From 3a83110cfb5ab49e1e1f0e6761c1604d09c40db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 26/92] fix: the product of a column and a row with one inner
 element got a scalar or a two-dimensional vector shape

---
 symbolics/Shape.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolics/Shape.cpp b/symbolics/Shape.cpp
index 90ccdcf..735e9fc 100644
--- a/symbolics/Shape.cpp
+++ b/symbolics/Shape.cpp
@@ -161,7 +161,7 @@ Shape& Shape::operator*= ( Shape const& rhs)
     if ((getNrDimensions() == 1) && (rhs.getNrDimensions() == 1))
     {
       // unterscheide inneres oder aeusseres Produkt
-      if (m_dim1 == 1) // inneres Product
+      if ((m_dim1 == 1) && (rhs.m_dim2 == 1)) // inneres Product
       {
         m_ndim = 0;
         m_dim1 = 1;
@@ -181,6 +181,8 @@ Shape& Shape::operator*= ( Shape const& rhs)
     // Matrix * Matrix
     m_ndim = min(getNrDimensions(), rhs.getNrDimensions());
     m_dim2 = rhs.getDimension(2);
+    if ((m_dim1 != 1) && (m_dim2 != 1)) // Spalte mal Zeile
+        m_ndim = 2;
     m_numElem = m_dim1*m_dim2;    
     
 
-- 
2.43.0


From a35a0a0a488ef21e3d3899b0b12229bce8849ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 27/92] fix: Outer accepted row vectors and gave them a wrong
 shape

---
 symbolics/functions/Outer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 2b7e632..440adec 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -43,12 +43,12 @@ void Outer::validate()
     // Outer ist f�r 0 und einen nx1 Vektor definiert
 	Shape const& s = getArg1()->getShape();
 	const int n = s.getDimension(1);
-    if (!getArg1()->is_Vector())
+    if (!getArg1()->is_Vector() || (s.getDimension(2) != 1))
     {
         const std::string msg = "First Argument of Outer must be a nx1 Vector! Shape of argument is " + getArg1()->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
     }
-    if (!getArg2()->is_Vector())
+    if (!getArg2()->is_Vector() || (getArg2()->getShape().getDimension(2) != 1))
     {
         const std::string msg = "Second Argument of Outer must be a nx1 Vector! Shape of argument is " + getArg2()->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
-- 
2.43.0


From 150956f235115b6c35102817d00d82b01dbdbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 28/92] fix: Matrix accepted a column outside its range and
 addressed an element of the next row

---
 symbolics/Matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 64983c1..4e54a34 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -736,7 +736,9 @@ Matrix::Inserter& Matrix::Inserter::operator,( double a)
 BasicPtr const& Matrix::get( size_t zeroBasedRow,  size_t zeroBasedCol) const
 /*****************************************************************************/
 {
-     size_t i = getIndex(zeroBasedRow,zeroBasedCol);
+    if ((zeroBasedRow >= m_shape.getDimension(1)) || (zeroBasedCol >= m_shape.getDimension(2)))
+        throw IndexError("Index out of bounds!");
+    size_t i = getIndex(zeroBasedRow,zeroBasedCol);
     if (i >= getNumEl())
         throw IndexError("Index out of bounds!");
     return getArg(i);
@@ -758,6 +760,8 @@ BasicPtr const& Matrix::get( size_t zeroBasedRow) const
 void Matrix::set( size_t zeroBasedRow,  size_t zeroBasedCol, BasicPtr const& arg)
 /*****************************************************************************/
 {
+    if ((zeroBasedRow >= m_shape.getDimension(1)) || (zeroBasedCol >= m_shape.getDimension(2)))
+        throw IndexError("Index out of bounds!");
     size_t i = getIndex(zeroBasedRow,zeroBasedCol);
     if (i >= getNumEl())
         throw IndexError("Index out of bounds!");
-- 
2.43.0


From f430252262f4394cad30c9729e918dc91c088084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 29/92] fix: a real number was compared with an integer the
 wrong way round: 1.5 < 2 and 2 < 1.5 were both true

---
 symbolics/functions/Operators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..cd8c711 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -55,7 +55,7 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     {
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        return (*cd) < (*ci);
     }
     // Vergleich Type
     if (lhs->getType() != rhs->getType())
-- 
2.43.0


From 1faecf2b46b450cc5e3e7b91f80fd51ec6d13b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 30/92] fix: a number was equal to a zero vector or matrix

---
 symbolics/Int.cpp  | 2 +-
 symbolics/Real.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..2e539a7 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -79,7 +79,7 @@ bool Int::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 337a7dc..1fb5e1f 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -65,7 +65,7 @@ bool Real::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0.0;
         }
     case Type_Bool:
-- 
2.43.0


From 87b5b028275778e1d4e932772f24cca13135a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 31/92] fix: a number was neither equal nor unequal to an
 expression of another type

---
 symbolics/Int.cpp  | 4 ++--
 symbolics/Real.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 2e539a7..a9e4b6f 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -331,7 +331,7 @@ bool Symbolics::operator!= (Int const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -344,7 +344,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Int  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 1fb5e1f..50d2535 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -317,7 +317,7 @@ bool Symbolics::operator!= (Real const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -330,7 +330,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Real  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 89b9511327718070a22f621d52653a8a587f9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 32/92] fix: a zero was equal to every zero, number or matrix
 of zeros of another shape

---
 symbolics/Zero.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..c818282 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -50,7 +50,7 @@ bool Zero::operator==(  Basic const& rhs ) const
     switch (rhs.getType())
     {
     case Type_Zero: 
-        return true;
+        return m_shape == rhs.getShape();
     case Type_Bool:
         {
             const Bool &b = dynamic_cast<const Bool&>(rhs);
@@ -59,15 +59,16 @@ bool Zero::operator==(  Basic const& rhs ) const
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
+            return (m_shape == rhs.getShape()) && (0 == i.getValue());
         }
     case Type_Real:
         {
             const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
+            return (m_shape == rhs.getShape()) && (0 == r.getValue());
         }
     case Type_Matrix:
         {
+            if (m_shape != rhs.getShape()) return false;
             size_t argssize = rhs.getArgsSize();
             for (size_t i=0;i<argssize;++i)
               if (!(rhs.getArg(i) == 0))
@@ -125,6 +126,8 @@ bool Symbolics::operator== (Zero const& lhs, BasicPtr  const& rhs)
         return lhs.getShape() == rhs->getShape();
 
     }
+    if (lhs.getShape() != rhs->getShape())
+        return false;
     if (rhs->getType() == Type_Int)
     {
         const Int *crhs = Util::getAsConstPtr<Int>(rhs);
@@ -157,6 +160,8 @@ bool Symbolics::operator== (BasicPtr const& lhs, Zero  const& rhs)
         return lhs->getShape() == rhs.getShape();
 
     }
+    if (rhs.getShape() != lhs->getShape())
+        return false;
     if (lhs->getType() == Type_Int)
     {
         const Int *clhs = Util::getAsConstPtr<Int>(lhs);
@@ -189,6 +194,8 @@ bool Symbolics::operator!= (Zero const& lhs, BasicPtr  const& rhs)
     {
         return lhs.getShape() != rhs->getShape();
     }
+    if (lhs.getShape() != rhs->getShape())
+        return true;
     if (rhs->getType() == Type_Int)
     {
         const Int *crhs = Util::getAsConstPtr<Int>(rhs);
@@ -221,6 +228,8 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Zero  const& rhs)
         return lhs->getShape() != rhs.getShape();;
 
     }
+    if (rhs.getShape() != lhs->getShape())
+        return true;
     if (lhs->getType() == Type_Int)
     {
         const Int *clhs = Util::getAsConstPtr<Int>(lhs);
-- 
2.43.0


From 422bac488ea3f7274694b5402e57036bbb3192aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 33/92] fix: the order of zero, integer and real numbers
 depended on the operand asked and mixed up zeros of different shape

---
 symbolics/Int.cpp                 |  1 +
 symbolics/Real.cpp                |  1 +
 symbolics/Zero.cpp                | 31 +++++++++++++++++++++++++++++++
 symbolics/functions/Operators.cpp |  4 ++++
 symbolics/include/Zero.h          |  2 +-
 5 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index a9e4b6f..6b8565f 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -161,6 +161,7 @@ bool Int::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
+            if (m_shape != rhs.getShape()) return false;
             return m_value < 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 50d2535..1ee0857 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -147,6 +147,7 @@ bool Real::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
+            if (m_shape != rhs.getShape()) return false;
             return m_value < 0.0; 
         }
     case Type_Bool:
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index c818282..a6b0258 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -81,6 +81,37 @@ bool Zero::operator==(  Basic const& rhs ) const
 }
 /*****************************************************************************/
  
+/*****************************************************************************/
+bool Zero::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    switch (rhs.getType())
+    {
+    case Type_Zero:
+        return m_shape < rhs.getShape();
+    case Type_Bool:
+        {
+            const Bool &b = dynamic_cast<const Bool&>(rhs);
+            return false < b.getValue();
+        }
+    case Type_Int:
+        {
+            const Int &i = dynamic_cast<const Int&>(rhs);
+            if (m_shape != rhs.getShape()) return true;
+            return 0 < i.getValue();
+        }
+    case Type_Real:
+        {
+            const Real &r = dynamic_cast<const Real&>(rhs);
+            if (m_shape != rhs.getShape()) return true;
+            return 0 < r.getValue();
+        }
+    default:
+        return getType() < rhs.getType();
+    }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Zero::subs( ConstBasicPtr const& old_exp, BasicPtr const& new_exp)
 /*****************************************************************************/
diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index cd8c711..52752ec 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -21,24 +21,28 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     if ((lhs->getType() == Type_Zero) &&
         (rhs->getType() == Type_Real))
     {
+        if (lhs->getShape() != rhs->getShape()) return true;
         const Real *cd = Util::getAsConstPtr<Real>(rhs);
         return 0.0 < cd->getValue();
     }
     if ((lhs->getType() == Type_Real) &&
         (rhs->getType() == Type_Zero))
     {
+        if (lhs->getShape() != rhs->getShape()) return false;
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         return cd->getValue() < 0.0;
     }
     if ((lhs->getType() == Type_Zero) &&
         (rhs->getType() == Type_Int))
     {
+        if (lhs->getShape() != rhs->getShape()) return true;
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
         return 0 < ci->getValue();
     }
     if ((lhs->getType() == Type_Int) &&
         (rhs->getType() == Type_Zero))
     {
+        if (lhs->getShape() != rhs->getShape()) return false;
         const Int *ci = Util::getAsConstPtr<Int>(lhs);
         return ci->getValue() < 0;
     }
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 080d415..b04e7f3 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -21,7 +21,7 @@ namespace Symbolics
 
         bool operator==(  Basic const& rhs ) const;
         bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<( Basic const& rhs ) const { return m_type < rhs.getType(); };
+        bool operator<( Basic const& rhs ) const;
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
-- 
2.43.0


From e963c95501d34558578e9b4d22411d87e5d73ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 34/92] fix: zeros of another shape are ordered behind the
 numbers, so that the order stays transitive

---
 symbolics/Int.cpp                 | 2 +-
 symbolics/Real.cpp                | 2 +-
 symbolics/Zero.cpp                | 4 ++--
 symbolics/functions/Operators.cpp | 8 ++++----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 6b8565f..513ab11 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -161,7 +161,7 @@ bool Int::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return false;
+            if (m_shape != rhs.getShape()) return true;
             return m_value < 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 1ee0857..8b8a6c3 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -147,7 +147,7 @@ bool Real::operator<(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return false;
+            if (m_shape != rhs.getShape()) return true;
             return m_value < 0.0; 
         }
     case Type_Bool:
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index a6b0258..d022c4a 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -97,13 +97,13 @@ bool Zero::operator<(  Basic const& rhs ) const
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return 0 < i.getValue();
         }
     case Type_Real:
         {
             const Real &r = dynamic_cast<const Real&>(rhs);
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return 0 < r.getValue();
         }
     default:
diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 52752ec..6455ad2 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -21,28 +21,28 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     if ((lhs->getType() == Type_Zero) &&
         (rhs->getType() == Type_Real))
     {
-        if (lhs->getShape() != rhs->getShape()) return true;
+        if (lhs->getShape() != rhs->getShape()) return false;
         const Real *cd = Util::getAsConstPtr<Real>(rhs);
         return 0.0 < cd->getValue();
     }
     if ((lhs->getType() == Type_Real) &&
         (rhs->getType() == Type_Zero))
     {
-        if (lhs->getShape() != rhs->getShape()) return false;
+        if (lhs->getShape() != rhs->getShape()) return true;
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         return cd->getValue() < 0.0;
     }
     if ((lhs->getType() == Type_Zero) &&
         (rhs->getType() == Type_Int))
     {
-        if (lhs->getShape() != rhs->getShape()) return true;
+        if (lhs->getShape() != rhs->getShape()) return false;
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
         return 0 < ci->getValue();
     }
     if ((lhs->getType() == Type_Int) &&
         (rhs->getType() == Type_Zero))
     {
-        if (lhs->getShape() != rhs->getShape()) return false;
+        if (lhs->getShape() != rhs->getShape()) return true;
         const Int *ci = Util::getAsConstPtr<Int>(lhs);
         return ci->getValue() < 0;
     }
-- 
2.43.0


From f212372b586d5a25e01c26365d7290ae2563910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 35/92] fix: the derivative of a power of a matrix took the
 base to commute with its derivative

---
 symbolics/functions/Pow.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 77b10e7..0872414 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -402,11 +402,42 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// derivative of the matrix base^exponent, where dBase is the derivative of the base:
+// sum of base^k*dBase*base^(n-1-k), as the base does not commute with its derivative
+static BasicPtr derMatrixPow( BasicPtr const& base, BasicPtr const& exponent, BasicPtr const& dBase )
+/*****************************************************************************/
+{
+    int n = 0;
+    if (!Util::is_Int(exponent,n))
+        throw InternalError("Derivative of a matrix to the power of a real number is not supported!");
+    if (n<0)
+    {
+        // der(inv(A)) = -inv(A)*der(A)*inv(A)
+        BasicPtr inv = Pow::New(base,Int::New(n));
+        return Neg::New(Mul::New(inv,Mul::New(derMatrixPow(base,Int::New(-n),dBase),inv)));
+    }
+    BasicPtr sum = Zero::getZero(base->getShape());
+    for (int k=0;k<n;++k)
+    {
+        BasicPtr term = dBase;
+        for (int i=0;i<k;++i)
+            term = Mul::New(base,term);
+        for (int i=k+1;i<n;++i)
+            term = Mul::New(term,base);
+        sum = Add::New(sum,term);
+    }
+    return sum;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
   // pow(x,y) = der(x)*y*pow(x,y-1)
+  if (getShape().getNumEl() > 1)
+    return derMatrixPow(getBase(),getExponent(),getBase()->der());
   return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
 /*****************************************************************************/
@@ -416,6 +447,8 @@ inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
   // pow(x,y) = der(x)*y*pow(x,y-1)
+  if (getShape().getNumEl() > 1)
+    return derMatrixPow(getBase(),getExponent(),getBase()->der(symbol));
   return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 0fd9c6adf278b3c06ec89ba9424252e7c155f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 36/92] fix: simplifying the product of a matrix and its
 inverse gave the number one instead of the identity matrix

---
 symbolics/functions/Mul.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index d4777a9..2b6e3c3 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -78,6 +78,17 @@ static bool is_Mergeable( BasicPtr const& arg )
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// base^exponent; a matrix to the power of zero is the identity matrix
+static BasicPtr power( BasicPtr const& base, BasicPtr const& exponent )
+/*****************************************************************************/
+{
+    if (!base->is_Scalar() && Util::is_Zero(exponent))
+        return Util::eye(base->getShape());
+    return BasicPtr(new Pow(base,exponent));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Mul::simplify()
 /*****************************************************************************/
@@ -236,7 +247,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = power(dst[i],Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
@@ -247,7 +258,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = power(lastarg,Add::New(c->getExponent(),Int::getOne()));
             else
             {
               addArg(lastarg->simplify());
-- 
2.43.0


From a3f25a5fd3573061edc257434833b9d974ab69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 37/92] fix: the text of a row vector read a single element or
 ran over the end

---
 symbolics/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 4e54a34..f882965 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -69,7 +69,7 @@ std::string Matrix::toString() const
     // Vektor
     else if (m_shape.getNrDimensions() == 1)
     {
-        size_t rows = m_shape.getDimension(1);
+        size_t rows = getNumEl();
         ss << "vector([";
         for (size_t i=0; i<rows; ++i)
         {
-- 
2.43.0


From 498d12947fc9165d999ebba7c4c6114a8167b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 38/92] fix: the product of a vector with one element and a row
 vector held a single element

---
 symbolics/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index f882965..c78b641 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -530,7 +530,7 @@ Matrix& Matrix::operator*=( Matrix const& rhs)
         // Ist der andere ein Vektor?
         if (rhs.m_shape.getNrDimensions() == 1)
         {
-          if (m_shape.getDimension(1) == 1)  // Skalarprodukt berechnen
+          if ((m_shape.getDimension(1) == 1) && (rhs.m_shape.getDimension(2) == 1))  // Skalarprodukt berechnen
           {
             BasicPtr val = Zero::getZero();
             for (size_t i=0; i<getNumEl(); ++i)
-- 
2.43.0


From 3610ed1764ed1c69a9d09e2aa63e2c3e22b1e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 39/92] fix: Equal of the Python module built a Less

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From 083baf1805f7d590b10b279f5b9e20f8ef6df2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 40/92] fix: refuse operands of wrong shape in Solve, Skew,
 Outer, Atan2 and Inverse also where a folded result is returned

---
 symbolics/functions/Atan2.cpp   | 4 ++++
 symbolics/functions/Inverse.cpp | 4 ++++
 symbolics/functions/Outer.cpp   | 5 +++++
 symbolics/functions/Skew.cpp    | 4 ++++
 symbolics/functions/Solve.cpp   | 9 +++++++++
 5 files changed, 26 insertions(+)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 27d1780..0cc2552 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -161,6 +161,10 @@ BasicPtr Atan2::simplify()
 BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the arguments must be scalar, also where no Atan2 object is needed
+    if (!arg1->is_Scalar() || !arg2->is_Scalar())
+        throw ShapeError("The arguments of Atan2 must be scalar!");
+
     // fuer Konstanten einfach die Operation ausfuehren
     // Was haben wir denn als Argument?
     // Zero, Zero
diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index e84e5bc..6785d9e 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -95,6 +95,10 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     if (arg->is_Scalar())
         return arg;
 
+    // the shape must fit, also where no Inverse object is needed
+    if ((arg->getShape().getNrDimensions() != 2) || (arg->getShape().getDimension(1) != arg->getShape().getDimension(2)))
+        throw ShapeError("Only square matrices can be inverted!");
+
     // simplify matrices
     switch(arg->getType())
     {
diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 440adec..ba613b0 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -109,6 +109,11 @@ BasicPtr Outer::simplify()
 BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
+    // the shapes must fit, also where no Outer object is needed
+    if (!arg1->is_Vector() || (arg1->getShape().getDimension(2) != 1) ||
+        !arg2->is_Vector() || (arg2->getShape().getDimension(2) != 1))
+        throw ShapeError("The arguments of Outer must be nx1 Vectors!");
+
     // if zero, return zero
     if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
         return Zero::getZero(Shape(arg1->getShape().getDimension(1), arg2->getShape().getDimension(1)));
diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..cc778f8 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -102,6 +102,10 @@ BasicPtr Skew::simplify()
 BasicPtr Skew::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
+    // the shape must fit, also where no Skew object is needed
+    if ( !(arg->is_Scalar() && Util::is_Zero(arg)) && (arg->getShape() != Shape(3)) )
+        throw ShapeError("Skew is only defined for 3x1 Vectors!");
+
     // if zero, return zero
     if (Util::is_Zero(arg)) return Zero::getZero(Shape(3,3));
 
diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..4bb9228 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -107,6 +107,15 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    // the shapes must fit, also where no Solve object is needed
+    if (!arg1->is_Scalar())
+    {
+        Shape const& s1 = arg1->getShape();
+        Shape const& s2 = arg2->getShape();
+        if ((s1.getDimension(1) != s1.getDimension(2)) || (s2.getDimension(2) != 1) || (s1.getDimension(1) != s2.getDimension(1)))
+            throw ShapeError("Solve needs a square matrix and a vector of the same length!");
+    }
+
     // b is zero
     if (Util::is_Zero(arg2))
     {
-- 
2.43.0


From 3d759a3ceb9723e9aca24cf1ae96b05d26177e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 41/92] fix: refuse operands of wrong shape in Scalar and Pow
 also where a folded result is returned

---
 symbolics/functions/Pow.cpp    | 4 +++-
 symbolics/functions/Scalar.cpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 0872414..453179b 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -263,8 +263,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
     // if arg2 == 0, then return One
-    if (arg2 == Zero::getZero() ) return Int::getOne();
     if (arg2 == Int::getOne() ) return arg1;
+    if (arg1->getShape().getDimension(1) != arg1->getShape().getDimension(2))
+        throw ShapeError("Pow is only defined for scalars and square matrices!");
+    if (arg2 == Zero::getZero() ) return Int::getOne();
 
     // if we have a constant, then perform the calculation
     switch (arg1->getType()) 
diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..7553f93 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -102,6 +102,10 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    // only a (1,1) matrix is a scalar
+    if ((arg->getShape().getDimension(1) != 1) || (arg->getShape().getDimension(2) != 1))
+        throw ShapeError("The argument of Scalar must be (1,1)!");
+
     // if constant move sign into value
     switch (arg->getType())
     {
-- 
2.43.0


From 8d186ed8b065a705fd98fa4bb638f422bbeaafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 42/92] fix: refuse an element index outside of a zero or skew
 matrix

---
 symbolics/functions/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolics/functions/Element.cpp b/symbolics/functions/Element.cpp
index 0b69b59..ffc6be2 100644
--- a/symbolics/functions/Element.cpp
+++ b/symbolics/functions/Element.cpp
@@ -204,6 +204,8 @@ BasicPtr Element::New( BasicPtr const& arg, size_t zeroBasedRow, size_t zeroBase
     else
       throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   }
+  if ((zeroBasedRow >= arg->getShape().getDimension(1)) || (zeroBasedCol >= arg->getShape().getDimension(2)))
+    throw InternalError("Cannot get Element[" + str(zeroBasedRow) + "," + str(zeroBasedCol) + "] from expression " + arg->toString());
   // simplify matrices
   switch(arg->getType())
   {
-- 
2.43.0


From 3e938e1586b2e67ae24d8702a30745daed1cf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 43/92] fix: CSharpPrinter printed the conditional operator
 without parentheses

---
 symbolics/printer/CSharpPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/printer/CSharpPrinter.cpp b/symbolics/printer/CSharpPrinter.cpp
index 06ae49e..766b300 100644
--- a/symbolics/printer/CSharpPrinter.cpp
+++ b/symbolics/printer/CSharpPrinter.cpp
@@ -142,7 +142,7 @@ std::string CSharpPrinter::print_If( const If *e )
 { 
 	if (e==NULL) throw InternalError("CSharpPrinter: If is NULL");
     //Es muss die inline expression sein, da es ja kein Gleichheitszeichen als function gibt
-    return print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2));
+    return "(" + print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2)) + ")";
 }
 /*****************************************************************************/
 
-- 
2.43.0


From dd18518a53969e4c3bb69239729144b7f665d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 44/92] fix: negative zero was printed without parentheses

---
 symbolics/printer/FortranPrinter.cpp | 3 ++-
 symbolics/printer/Printer.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..e76a5d0 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -1,5 +1,6 @@
 #include "FortranPrinter.h"
 #include "str.h"
+#include <cmath>
 
 using namespace Symbolics;
 
@@ -164,7 +165,7 @@ std::string FortranPrinter::print_Real( const Real *c )
 	else
 		s+="d0";
 
-    if (c->getValue() < 0.0)
+    if (std::signbit(c->getValue())) // auch -0.0
         return "(" + s + ")"; // Klammern, damit das Minus nicht direkt auf einen anderen Operator folgt 
     else
         return s;
diff --git a/symbolics/printer/Printer.cpp b/symbolics/printer/Printer.cpp
index 04c70a8..524bb0e 100644
--- a/symbolics/printer/Printer.cpp
+++ b/symbolics/printer/Printer.cpp
@@ -1,6 +1,7 @@
 #include "Printer.h"
 #include "str.h"
 #include <iostream>
+#include <cmath>
 
 using namespace Symbolics;
 
@@ -367,7 +368,7 @@ std::string Printer::print_Real( const Real *c )
 {
     if (c == NULL) throw InternalError("Printer: Real is NULL");
     double val = c->getValue();
-    if (val < 0.0)
+    if (std::signbit(val)) // auch -0.0
 	    return "(" + str(val) + ")"; // Klammern, damit das Minus nicht direkt auf einen anderen Operator folgt 
     else
         return str(val);
-- 
2.43.0


From 2286bf1e6e32a56e453e55d466c6689fe036d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 45/92] fix: FortranPrinter did not use matmul when a scalar
 stands between two arrays

---
 symbolics/printer/FortranPrinter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index e76a5d0..863228b 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -47,15 +47,23 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 	std::string s="(", t="";
     size_t n = mul->getArgsSize();
     bool includes_matmul = false;
+    // Letzter nicht skalarer Faktor: alle davor muessen mit matmul multipliziert werden
+    size_t last = n;
+    for (size_t i=0; i<n; ++i)
+        if (!mul->getArg(i)->is_Scalar()) last = i;
     for (size_t i=0; i<n-1; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
+		if (!mul->getArg(i)->is_Scalar() && i < last) {
 			s += "matmul(" + print(mul->getArg(i)) + ",";
 			t += ")";
 			includes_matmul = true;
 		} else {
-			s+= print(mul->getArg(i)) + t + "*";
-			t="";
+			s += print(mul->getArg(i));
+			if (i == last) {
+				s += t;
+				t = "";
+			}
+			s += "*";
 		}
     }
     s += print(mul->getArg(n-1)) + t + ")";
-- 
2.43.0


From 17ce80040fca8585a28c500c5dd3331c353592ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 46/92] fix: skew_numpy could not build the matrix from 1x1
 sub-matrices

---
 pymbs/common/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/common/functions.py b/pymbs/common/functions.py
index d830479..23b8956 100644
--- a/pymbs/common/functions.py
+++ b/pymbs/common/functions.py
@@ -290,8 +290,8 @@ def skew_numpy(arg):
     numpy matrices only
     """
     if isinstance(arg, np.matrix):
-        v = arg
-        assert v.shape == (3, 1)
+        assert arg.shape == (3, 1)
+        v = arg.A1
 
         return np.matrix([[0, -v[2], v[1]],
                           [v[2], 0, -v[0]],
-- 
2.43.0


From ef2f67d1de89d3b66325f6b57db2f805d9d8928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 47/92] fix: bodies merged at fixed joints got a wrong place,
 centre of gravity and inertia

---
 pymbs/input/transformation.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..b09a18c 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,12 +658,6 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
-
 
 def updateChildCS(new_Body, p_bif, R_bif):
     """
@@ -704,7 +698,8 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
+                # child.R resolves a vector of child -> body
+                body.p = transpose(child.R)*(-child.p)
                 body.R = transpose(child.R)
                 body.children.remove(child)
                 body.coordList.remove(child)
@@ -735,10 +730,18 @@ def applyFixedJoints(iBody, stage):
                 del iBody.bodyDict[child.oldName]
 
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                # (child.p and child.R define the child with respect to the parent)
+                child_cg = child.p + child.R*child.cg
+                m = parent.mass + child.mass
+                if (m == 0):
+                    cg = parent.cg
+                else:
+                    cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia (w.r.t. the new cg)
+                d_p = skew(parent.cg - cg)
+                d_c = skew(child_cg - cg)
+                inertia = parent.inertia + parent.mass*transpose(d_p)*d_p + \
+                          child.R*child.inertia*transpose(child.R) + child.mass*transpose(d_c)*d_c
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From af402e3b5e3f7004152752be5bd4d1e4447c9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 48/92] fix: FourBar took distances between the planes of the
 links for their lengths

---
 pymbs/processing/loops/fourbar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..f9f0692 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
-- 
2.43.0


From 9457c88468083bff1339669463bc646805de2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 49/92] fix: CrankSlider gave wrong velocities and assumed
 links along the slide, refused swapped frames

---
 pymbs/processing/loops/crank_slider.py | 50 +++++++++++++++++---------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..da86a81 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -6,9 +6,13 @@ from pymbs.processing.loops.loop import Loop, eps
 from pymbs.common.functions import sqrt
 from pymbs.processing import Frame
 
-from pymbs.symbolics import Matrix, eye, cos, sin, asin, zeros, transpose
+from pymbs.symbolics import Matrix, eye, cos, sin, asin, atan2, zeros, transpose
 
 AL = 'FB_%s_AL'
+BE = 'FB_%s_BE'
+GA = 'FB_%s_GA'
+DE = 'FB_%s_DE'
+PHI = 'FB_%s_PHI'
 L1 = 'FB_%s_L1'
 L2 = 'FB_%s_L2'
 
@@ -61,7 +65,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
@@ -218,26 +222,38 @@ class CrankSlider(Loop):
         q3 = self.j2.q     # v[1]    # angle
         q3d = self.j2.qd
 
-        # Length of bars
-        l1_vec = self.csB1.p
-        l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)[0]))
+        # Abbreviation
+        s = self.sign
 
-        l2_vec = self.csB2.p
-        l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)[0]))
+        # Length of bars and angle between x-axis and bar
+        l1_vec2 = self.pick*self.csB1.p
+        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
+        beta = graph.addEquation(BE % self.name, s*atan2(l1_vec2[1], l1_vec2[0]))
 
-        # Calculate v
-        alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
+        l2_vec2 = self.pick*self.csB2.p
+        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
+        gamma = graph.addEquation(GA % self.name, s*atan2(l2_vec2[1], l2_vec2[0]))
+
+        # Angle between x-axis and axis of the slider
+        l3_vec2 = self.pick*self.j3.Psi
+        delta = graph.addEquation(DE % self.name, s*atan2(l3_vec2[1], l3_vec2[0]))
 
-        v1 = alpha                  # q3
-        v0 = l1*cos(q1)-l2*cos(q3)  # q2
+        # Offset of joint B for q2 = 0, along the axis of the slider and normal to it
+        e_vec2 = self.pick*(self.j3.coordSys.p + self.j2.coordSys.p)
+        e_par = l3_vec2[0]*e_vec2[0] + l3_vec2[1]*e_vec2[1]
+        e_nor = s*(l3_vec2[0]*e_vec2[1] - l3_vec2[1]*e_vec2[0])
 
-        alphad = q3d
+        # Angles between the axis of the slider and the bars
+        phi = graph.addEquation(PHI % self.name, q1 + beta - delta)
+        alpha = graph.addEquation(AL % self.name, asin((l1*sin(phi) - e_nor)/l2))
+
+        # Calculate v
+        v1 = alpha - gamma + delta                    # q3
+        v0 = l1*cos(phi) - l2*cos(alpha) - e_par      # q2
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(phi-alpha)/cos(alpha)], [l1*cos(phi)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
-                          (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
+        b1 = (l2*sin(alpha)*q3d*q3d - l1*sin(phi)*q1d*q1d)/(l2*cos(alpha))
+        b_prime = Matrix([l2*cos(alpha)*q3d*q3d - l1*cos(phi)*q1d*q1d + l2*sin(alpha)*b1, b1])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From 41e3bc2c74de58e2989740a2160d3ea5db51e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 50/92] fix: Hexapod velocities used the opposite sign of the
 first cylinder angle

---
 pymbs/processing/loops/hexapod.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/loops/hexapod.py b/pymbs/processing/loops/hexapod.py
index 6aad9c8..f913dfa 100644
--- a/pymbs/processing/loops/hexapod.py
+++ b/pymbs/processing/loops/hexapod.py
@@ -232,7 +232,10 @@ class Hexapod(Loop):
         tpz = self.csC4.p[2]
 
 
-        # and calculate Bvu and b_prime respectively
+        # and calculate Bvu and b_prime respectively; the formulas are written in
+        # terms of the angle atan2(l[2],l[0]), which is -v1
+        v1 = -v1
+        v1d = -v1d
         Bvu = Matrix([
         [      cos(v1)*cos(v2),    sin(v2),      sin(v1)*cos(v2),       tpx*sin(u3)*sin(u4)*sin(v1)*cos(u5)*cos(v2) - tpx*sin(u3)*sin(u5)*sin(v2) + tpx*sin(u4)*sin(v2)*cos(u3)*cos(u5) + tpx*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpy*sin(u3)*sin(u4)*sin(u5)*sin(v1)*cos(v2) - tpy*sin(u3)*sin(v2)*cos(u5) - tpy*sin(u4)*sin(u5)*sin(v2)*cos(u3) + tpy*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpz*sin(u3)*sin(v1)*cos(u4)*cos(v2) - tpz*sin(v2)*cos(u3)*cos(u4),        tpx*sin(u3)*sin(v2)*cos(u4)*cos(u5) - tpx*sin(u4)*cos(u5)*cos(v1)*cos(v2) - tpx*sin(v1)*cos(u3)*cos(u4)*cos(u5)*cos(v2) - tpy*sin(u3)*sin(u5)*sin(v2)*cos(u4) + tpy*sin(u4)*sin(u5)*cos(v1)*cos(v2) + tpy*sin(u5)*sin(v1)*cos(u3)*cos(u4)*cos(v2) + tpz*sin(u3)*sin(u4)*sin(v2) - tpz*sin(u4)*sin(v1)*cos(u3)*cos(v2) + tpz*cos(u4)*cos(v1)*cos(v2),      -tpx*sin(u3)*sin(u4)*sin(u5)*sin(v2) + tpx*sin(u3)*sin(v1)*cos(u5)*cos(v2) + tpx*sin(u4)*sin(u5)*sin(v1)*cos(u3)*cos(v2) - tpx*sin(u5)*cos(u4)*cos(v1)*cos(v2) + tpx*sin(v2)*cos(u3)*cos(u5) - tpy*sin(u3)*sin(u4)*sin(v2)*cos(u5) - tpy*sin(u3)*sin(u5)*sin(v1)*cos(v2) + tpy*sin(u4)*sin(v1)*cos(u3)*cos(u5)*cos(v2) - tpy*sin(u5)*sin(v2)*cos(u3) - tpy*cos(u4)*cos(u5)*cos(v1)*cos(v2)],
         [-sin(v1)/(v0*cos(v2)),          0, cos(v1)/(v0*cos(v2)),                                                                                                                                                                                                                                      (tpx*sin(u3)*sin(u4)*cos(u5) + tpx*sin(u5)*cos(u3) - tpy*sin(u3)*sin(u4)*sin(u5) + tpy*cos(u3)*cos(u5) - tpz*sin(u3)*cos(u4))*cos(v1)/(v0*cos(v2)),                                                                                                                                                   (tpx*sin(u4)*sin(v1)*cos(u5) - tpx*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*sin(u4)*sin(u5)*sin(v1) + tpy*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpz*sin(u4)*cos(u3)*cos(v1) - tpz*sin(v1)*cos(u4))/(v0*cos(v2)),                                                                                                                                                                                (tpx*sin(u3)*cos(u5)*cos(v1) + tpx*sin(u4)*sin(u5)*cos(u3)*cos(v1) + tpx*sin(u5)*sin(v1)*cos(u4) - tpy*sin(u3)*sin(u5)*cos(v1) + tpy*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpy*sin(v1)*cos(u4)*cos(u5))/(v0*cos(v2))],
@@ -244,4 +247,10 @@ class Hexapod(Loop):
         (-tpx*u3d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u3d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + 2*tpx*u3d*u4d*sin(u3)*cos(u4)*cos(u5)*cos(v1) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*cos(v1) + 2*tpx*u3d*u5d*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(v1)*cos(u4)*cos(u5) - 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v1) + 2*tpx*u4d*u5d*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpx*u5d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u5d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u5d**2*sin(v1)*cos(u4)*cos(u5) - tpy*u3d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*cos(u4)*cos(v1) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*cos(u5)*cos(v1) - 2*tpy*u3d*u5d*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u5)*sin(v1)*cos(u4) - 2*tpy*u4d*u5d*sin(u4)*sin(v1)*cos(u5) + 2*tpy*u4d*u5d*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u5d**2*sin(u5)*sin(v1)*cos(u4) - tpz*u3d**2*cos(u3)*cos(u4)*cos(v1) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*cos(v1) + tpz*u4d**2*sin(u4)*sin(v1) - tpz*u4d**2*cos(u3)*cos(u4)*cos(v1) + 2*v0*v1d*v2d*sin(v2) - 2*v0d*v1d*cos(v2))/(v0*cos(v2)),
         -(tpx*u3d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u3d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u3d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u3d**2*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u4d*sin(u3)*sin(v1)*sin(v2)*cos(u4)*cos(u5) - 2*tpx*u3d*u4d*cos(u3)*cos(u4)*cos(u5)*cos(v2) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*sin(v1)*sin(v2) + 2*tpx*u3d*u5d*sin(u3)*cos(u5)*cos(v2) + 2*tpx*u3d*u5d*sin(u4)*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u4d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) + tpx*u4d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) - tpx*u4d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) + 2*tpx*u4d*u5d*sin(u3)*sin(u5)*cos(u4)*cos(v2) + 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v2)*cos(v1) + 2*tpx*u4d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3)*cos(u4) + tpx*u5d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u5d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u5d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u5d**2*sin(u5)*cos(u3)*cos(v2) - tpx*u5d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u3d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u3d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u3d**2*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*sin(v1)*sin(v2)*cos(u4) + 2*tpy*u3d*u4d*sin(u5)*cos(u3)*cos(u4)*cos(v2) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*sin(v1)*sin(v2)*cos(u5) - 2*tpy*u3d*u5d*sin(u3)*sin(u5)*cos(v2) + 2*tpy*u3d*u5d*sin(u4)*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3) - tpy*u4d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u4d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u4d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + 2*tpy*u4d*u5d*sin(u3)*cos(u4)*cos(u5)*cos(v2) + 2*tpy*u4d*u5d*sin(u4)*sin(v2)*cos(u5)*cos(v1) + 2*tpy*u4d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u4)*cos(u5) - tpy*u5d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u5d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u5d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u5d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + tpy*u5d**2*cos(u3)*cos(u5)*cos(v2) - tpz*u3d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u3d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*sin(v1)*sin(v2) - 2*tpz*u3d*u4d*sin(u4)*cos(u3)*cos(v2) - tpz*u4d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u4d**2*sin(u4)*sin(v2)*cos(v1) - tpz*u4d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + v0*v1d**2*sin(v2)*cos(v2) - 2*v0d*v2d*sin(v1)**2*cos(v2)**2 + 2*v0d*v2d*sin(v1)**2 - 2*v0d*v2d*cos(v1)**2*cos(v2)**2 + 2*v0d*v2d*cos(v1)**2 + 2*v0d*v2d*cos(v2)**2)/v0,        ])
 
+        # back to v1
+        v1 = Alpha_Zyl
+        for i in range(6):
+            Bvu[1,i] = -Bvu[1,i]
+        b_prime[1] = -b_prime[1]
+
         return ([v0,v1,v2],Bvu,b_prime)
\ No newline at end of file
-- 
2.43.0


From 7a1dd83fc5423f381526913c65b7af96b0207ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 51/92] fix: Generator_OrderN added the gyroscopic torque with
 the wrong sign

---
 pymbs/processing/generator_order_n.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..927a0ea 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -616,8 +616,7 @@ class Generator_OrderN(Generator):
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 4a33a71a55cd29d1b3e7389a0386e58e40a48997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 52/92] fix: Generator_OrderN ignored the orientation of the
 frame a sliding joint starts from

---
 pymbs/processing/generator_order_n.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 927a0ea..966b2a1 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -1170,7 +1170,7 @@ class Generator_OrderN(Generator):
             R_rel = transpose(csref.I_R)*cs.I_R*cs.R     # to csref from cs
 
         R = cs.R*body._R    # to cs from parentBody
-        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
+        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.coordSys.R*joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
         # both _alpha_c and _omegad_C are w.r.t. csref
         _alpha_C = graph.addEquation(alpha_C%bcsName, R_rel*( body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd ), shape=(3,)) # (21, Recursive Paper)
         _omegad_C = graph.addEquation(omegad_C%bcsName, R_rel*body._omegad_C, shape=(3,)) # (19, Recursive Paper)
-- 
2.43.0


From 5d77c17f030ef5c5c3c4d61e228f0581bd8b237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 53/92] fix: Energy sensor failed with the recursive generator
 and took the wrong inertia with the order-n generator

---
 pymbs/processing/sensors/energy_sensor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..ebb7090 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -21,6 +21,8 @@ class EnergySensor(Sensor):
         Sensor.__init__(self, name, body.CS_0, body.CS_0, symbol, None, category)
         self.gravity = gravity
         self.body = body
+        # with respect to the centre of gravity, generators may redefine body.inertia
+        self.inertia = body.inertia
 
     def calc(self, graph):
         '''
@@ -30,16 +32,21 @@ class EnergySensor(Sensor):
 
         # get mass and Inertia of body
         m = self.body.mass
-        I = self.body.inertia
+        I = self.inertia
 
         # get potential Energy
         assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
         E_pot = -m*transpose(self.gravity)*self.body.I_l
 
+        # get angular velocity with respect to the body frame
+        om = self.body.K_om
+        if om is None:
+            om = transpose(self.body.I_R)*self.body.I_om
+
         # get kinetic energy
         assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
         E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+                0.5*transpose(om)*I*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From 3bfd08c45e1d4e168752b7bac78a02ca8df16dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 54/92] fix: ConstraintTorque sensor counted external forces
 twice

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..8946791 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -536,7 +536,7 @@ class Generator_Recursive(Generator):
 
             F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            L_b += body._l_tilde*(body._F + body._F_ext) + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From 897a2c61a6c3f56216d460220c80729c127a107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 55/92] fix: Generator_OrderN combined loads given in different
 frames

---
 pymbs/processing/generator_order_n.py | 32 ++++++++++-----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 966b2a1..acc3af1 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -568,16 +568,12 @@ class Generator_OrderN(Generator):
                         # Load must have this Coordinate System (child) as a parent or a child!
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
-                        # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        # Calculate Rotation Matrix: all vectors are summed up in the body frame
+                        if (load.ref is None):  # vector is given w.r.t. the inertial frame
+                            T = transpose(body.I_R)
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
@@ -698,16 +694,12 @@ class Generator_OrderN(Generator):
                         # Load must have this Coordinate System (child) as a parent or a child!
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
-                        # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        # Calculate Rotation Matrix: all vectors are summed up in the body frame
+                        if (load.ref is None):  # vector is given w.r.t. the inertial frame
+                            T = transpose(body.I_R)
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             Phi_SID = None
-- 
2.43.0


From a593d429aa211faf295d027b36bb11883afd9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 56/92] fix: addJoint removed the last entry of the list of
 degrees of freedom it was given

---
 pymbs/input/mbs_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..f8c4fae 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -372,6 +372,7 @@ class MbsSystem(Body):
         if (dofList is None):
             dofList = []
         assert isinstance(dofList, list)
+        dofList = list(dofList)     # the list of the caller is left alone
         assert 0 <= len(dofList) <=6
 
         if startVals is None:
-- 
2.43.0


From f753a3e119fef7b2fb61c129903ac15dbde301fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 57/92] fix: Generator_OrderN left gravity in the acceleration
 of the bodies sensors measure

---
 pymbs/processing/generator_order_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index acc3af1..6123cec 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -988,7 +988,7 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)     # _a contains -g
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From 85bdae301660072b7d9f42ee4c1aaa45aae7a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 58/92] fix: Energy sensor failed for bodies with fixed joints
 and measured the whole assembly

---
 pymbs/input/sensors.py                    | 13 +++++++
 pymbs/input/transformation.py             | 21 ++++++++++--
 pymbs/processing/sensors/energy_sensor.py | 42 ++++++++++++++++-------
 3 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/pymbs/input/sensors.py b/pymbs/input/sensors.py
index be41816..99bf56e 100644
--- a/pymbs/input/sensors.py
+++ b/pymbs/input/sensors.py
@@ -61,3 +61,16 @@ class EnergySensor(MbsInputElement):
         self.body = body
         self.symb = symb
         self.category = category
+
+        # only used, if the body becomes a part of another one
+        self.frame = None
+        self.mass = None
+        self.inertia = None
+
+    def saveBody(self):
+        """
+        Keeps the properties of the body before it is merged with others.
+        """
+        self.frame = self.body.addFrame('_cg_%s' % self.name, p=self.body.cg)
+        self.mass = self.body.mass
+        self.inertia = self.body.inertia
diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index b09a18c..5b9a8dd 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -121,6 +121,15 @@ def _transformModel(model):
     for i_body in bodies:
         flattenCSStructure(i_body)
 
+    # Energy sensors measure a body alone, even if it is merged with others
+    fixedBodies = []
+    for joint in list(model.jointDict.values()):
+        if (joint.dof is None):
+            fixedBodies += [joint.parent.parent, joint.child.parent]
+    for sensor in list(model.sensorDict.values()):
+        if isinstance(sensor, iSensors.EnergySensor) and (sensor.body in fixedBodies):
+            sensor.saveBody()
+
     # Convert Fixed Bodies to Coordinate Systems ( == 1)
     applyFixedJoints(model, 1)
 
@@ -443,11 +452,17 @@ def convertSensors(sensorList):
     # process energy sensors
     for eS in energySensorList:
         name = eS.name
-        newBody = eS.body.referenceToNew;
-        assert not newBody == None
         symb = eS.symb
         cat = eS.category
-        newSensor = pSensors.EnergySensor(name, newBody, symb, _gravity, cat)
+        if (eS.frame is None):
+            newBody = eS.body.referenceToNew;
+            assert not newBody == None
+            newSensor = pSensors.EnergySensor(name, newBody, symb, _gravity, cat)
+        else:
+            newFrame = eS.frame.referenceToNew
+            assert not newFrame == None
+            newSensor = pSensors.EnergySensor(name, newFrame.parentBody, symb, _gravity, cat,
+                                              newFrame, eS.mass, eS.inertia)
         newSensorList.append(newSensor)
 
 
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index ebb7090..b49f822 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -10,9 +10,11 @@ class EnergySensor(Sensor):
     Obtain the potential and kinetic energy of a body
     '''
 
-    def __init__(self, name, body, symbol, gravity, category=sym.VarKind.Sensor):
+    def __init__(self, name, body, symbol, gravity, category=sym.VarKind.Sensor, frame=None, mass=None, inertia=None):
         '''
         Constructor
+        If only a part of body shall be measured, then mass and inertia describe this part
+        and frame is located in its centre of gravity.
         '''
 
         assert( isinstance(body, Body) )
@@ -21,8 +23,12 @@ class EnergySensor(Sensor):
         Sensor.__init__(self, name, body.CS_0, body.CS_0, symbol, None, category)
         self.gravity = gravity
         self.body = body
+        self.frame = frame
         # with respect to the centre of gravity, generators may redefine body.inertia
         self.inertia = body.inertia
+        if (frame is not None):
+            self.mass = mass
+            self.inertia = inertia
 
     def calc(self, graph):
         '''
@@ -30,22 +36,34 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
-        # get mass and Inertia of body
-        m = self.body.mass
         I = self.inertia
 
-        # get potential Energy
-        assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
-        E_pot = -m*transpose(self.gravity)*self.body.I_l
+        if (self.frame is None):
+            # get mass, position and velocity of the centre of gravity
+            m = self.body.mass
+            r = self.body.I_l
+            v = self.body.I_ldot
+
+            # get angular velocity with respect to the body frame
+            om = self.body.K_om
+            if om is None:
+                om = transpose(self.body.I_R)*self.body.I_om
+        else:
+            m = self.mass
+            r = self.frame.I_r
+            v = self.frame.I_v
+            if hasattr(self.frame, 'I_om'):
+                om = transpose(self.frame.I_R)*self.frame.I_om
+            else:
+                om = self.frame.K_om
 
-        # get angular velocity with respect to the body frame
-        om = self.body.K_om
-        if om is None:
-            om = transpose(self.body.I_R)*self.body.I_om
+        # get potential Energy
+        assert r is not None, 'Position of Body "%s" has not been calculated!'%self.body
+        E_pot = -m*transpose(self.gravity)*r
 
         # get kinetic energy
-        assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
-        E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
+        assert v is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
+        E_kin = 0.5*m*transpose(v)*v + \
                 0.5*transpose(om)*I*om
 
         # Total Energy
-- 
2.43.0


From 0cec866a853f0442f6a7e18e9134a36b5142bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 59/92] fix: graph: sensor that equals the time, an input or a
 state

---
 symbolics/graph/PastOptimisation.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..af431ca 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -182,11 +182,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
       {
         SymbolPtr as = Util::getAsPtr<Symbol>(exp);
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+        // time, inputs and states have no equation
         if (elem == NULL)
-        {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
-        }
+          return;
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
@@ -212,11 +210,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           const Symbol *sconst = Util::getAsConstPtr< Symbol>(c->getArg());
           Symbol *as = const_cast<Symbol*>(sconst);
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
+          // time, inputs and states have no equation
           if (elem == NULL)
-          {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
-          }
+            return;
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
-- 
2.43.0


From f3bd85466a27586c878cdbdcc8f6d3de3a3dac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 60/92] fix: graph: sensor that equals one of several symbols
 defined by one equation

---
 symbolics/graph/PastOptimisation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index af431ca..fcbec43 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -188,6 +188,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
+        // only if the equation defines this symbol and nothing else
+        if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+          return;
         if(ap->get_Category() < PARAMETER)
         {
           // set b = a.exp
@@ -216,6 +219,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
+          // only if the equation defines this symbol and nothing else
+          if (ap->is_Implicit() || (ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+            return;
           if(ap->get_Category() < PARAMETER)
           {
             // set b = a.exp
-- 
2.43.0


From 36131064072454a85d8c173c72755d40d6bedf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 61/92] fix: graph: refuse cyclic definitions

---
 symbolics/graph/MatchedSystem.cpp | 2 ++
 symbolics/graph/Node.cpp          | 9 ++++++++-
 symbolics/graph/include/Node.h    | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/symbolics/graph/MatchedSystem.cpp b/symbolics/graph/MatchedSystem.cpp
index 7983fa5..1f40b4d 100644
--- a/symbolics/graph/MatchedSystem.cpp
+++ b/symbolics/graph/MatchedSystem.cpp
@@ -39,6 +39,8 @@ double MatchedSystem::buildGraph()
   {
     m_nodes[i]->findParentsNodes();
   }
+  // refuse cyclic definitions
+  sortEquations();
   //return t2-t1;
   return Util::getTime()-t1;
 }
diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index b5d101b..1e53930 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -7,7 +7,7 @@ using namespace Graph;
 
 /*****************************************************************************/
 Node::Node(EquationPtr eqn,SymbolPtr time):
-m_time(time),m_eqn(eqn),visited(false),m_refCount(0),m_subsed(false)
+m_time(time),m_eqn(eqn),visited(false),active(false),m_refCount(0),m_subsed(false)
 /*****************************************************************************/
 {
   setSolveFor(m_eqn->getSolveFor());
@@ -291,13 +291,20 @@ void Node::node_iterate_depth_first(NodePtr p, Visitor &v)
 /*****************************************************************************/
 {
   if (p->visited)
+  {
+    // we are still on the way to the equations this one needs
+    if (p->active)
+      throw InternalError("Cyclic definition! " + p->toString());
     return;
+  }
   p->visited = true;
+  p->active = true;
   NodePtrSet parents = p->getParents();
   for (NodePtrSet::const_iterator ii =parents.begin(); ii != parents.end() ;++ii)
   {
     node_iterate_depth_first((*ii),v);
   }
+  p->active = false;
   v.process_Node(p);
 }
 /*****************************************************************************/
diff --git a/symbolics/graph/include/Node.h b/symbolics/graph/include/Node.h
index 1e9a9f4..7d46903 100644
--- a/symbolics/graph/include/Node.h
+++ b/symbolics/graph/include/Node.h
@@ -92,6 +92,8 @@ namespace Symbolics
 
       // visited
       bool visited;
+      // visited, but not all of its parents
+      bool active;
 
       void simplify();
       bool m_subsed;
-- 
2.43.0


From f6b4ed34670c076e54a4b80eb11e08becad36bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 62/92] fix: graph: element of an expression that mentions
 elements

---
 symbolics/graph/Equation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..efb76f0 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -365,6 +365,10 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
   */
   else if (p->getType() == Type_Element)
   {
+    // an element of an expression mentions what the expression mentions
+    Basic_Type argtype = p->getArg(0)->getType();
+    if ((argtype != Type_Symbol) && (argtype != Type_Der))
+      return true;
     if (inelement)
       throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
@@ -443,6 +447,10 @@ bool Equation::SymbolScanner::process_Arg(BasicPtr const &p, bool &stop)
   }
   else if (p->getType() == Type_Element)
   {
+    // an element of an expression mentions what the expression mentions
+    Basic_Type argtype = p->getArg(0)->getType();
+    if ((argtype != Type_Symbol) && (argtype != Type_Der))
+      return true;
     if (inelement)
       throw InternalError("Error: element(element(exp)) is not supported!");
     const Element *e= Util::getAsConstPtr<Element>(p);
-- 
2.43.0


From a2e7c02258555fc6c9c0d628eeff99f054739772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 63/92] fix: Python writer: indentation of constants

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..be6c00e 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -182,7 +182,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -310,7 +310,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -440,7 +440,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From fccbcebb448b1a8d449654015deb68e4fb51acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 64/92] fix: Python writer: position of the states in y

---
 symbolics/writer/PythonWriter.cpp | 30 +++++++++++++++---------------
 symbolics/writer/Writer.cpp       | 11 +++++++++++
 symbolics/writer/include/Writer.h |  3 +++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index be6c00e..084579c 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -66,7 +66,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not implemented yet in Python!");
 	Graph::VariableVec inputs = a->getVariables(INPUT);
@@ -81,6 +81,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 
 	// open file
 	std::ofstream f;
@@ -141,13 +142,12 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i+1]) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -225,7 +225,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -240,6 +240,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 
 	// open file
 	std::ofstream f;
@@ -287,13 +288,12 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i+1]) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
@@ -355,7 +355,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -370,6 +370,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 
 	// open file
 	std::ofstream f;
@@ -417,13 +418,12 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
-		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offsets[i]) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offsets[i]) << ":"
+			  << str(offsets[i+1]) << "], dtype=float).T"
 			  << std::endl;
 	}
 	f << std::endl;
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..810aa9e 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -73,3 +73,14 @@ bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::
 	return (*(a.get()) < *(b.get())); 
 }
 /*****************************************************************************/
+
+/*****************************************************************************/
+std::vector<size_t> Writer::getOffsets(const Graph::VariableVec &states)
+/*****************************************************************************/
+{
+	std::vector<size_t> offsets(1, 0);
+	for (Graph::VariableVec::const_iterator it=states.begin();it!=states.end();++it)
+		offsets.push_back(offsets.back() + (*it)->getShape().getDimension(1) * (*it)->getShape().getDimension(2));
+	return offsets;
+}
+/*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..70f0450 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -38,6 +38,9 @@ namespace Symbolics
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
 		static bool sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b);
 
+		// Position of each state in the state vector y (counted from zero) and, as last entry, the length of y
+		static std::vector<size_t> getOffsets(const Graph::VariableVec &states);
+
     public:
         double generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize);
 
-- 
2.43.0


From b236a74ed8ce0a654302ed213cb7e92e29bac6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 65/92] fix: Python writer: tan was not imported

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 084579c..59e4548 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -94,7 +94,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -252,7 +252,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -382,7 +382,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From 18d64b9ad13feba3b0142e08efa9de32b6b2f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 66/92] fix: C writer: position of the states in y

---
 symbolics/writer/CWriter.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..be1dbf8 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -91,7 +91,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not yet implemented in C!");
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR|SENSOR_VISUAL);
@@ -103,6 +103,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -130,7 +131,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -167,7 +168,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offsets[i]+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
@@ -204,7 +205,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -219,6 +220,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -244,7 +246,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -296,7 +298,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -311,6 +313,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 	// Sensors Vector sortieren: 
 	std::sort(sensors.begin(),sensors.end(), sortVariableVec);
     // Inputs Vector sortieren: 
@@ -343,7 +346,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
 	}
 	f << std::endl; 
@@ -852,7 +855,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		cats |= SENSOR_VISUAL;
 	Graph::AssignmentsPtr a = g.getAssignments(cats);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	cats = VARIABLE;
 	if (!m_include_visual)
 		cats |= SENSOR_VISUAL;
@@ -864,6 +867,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 
 	f << "/* " << getHeaderLine() << " */" << std::endl;
 	f << "/*";
@@ -879,7 +883,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
@@ -915,7 +919,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offsets[i]+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
-- 
2.43.0


From 5c6b419ee468ac64fca0fcc84930eea06224f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 67/92] fix: C writer: results of scalar sensors were lost

---
 symbolics/writer/CWriter.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index be1dbf8..9f1b136 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -235,8 +235,9 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
+	// scalars are returned by reference as well
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+		f << ", double " << ((*it)->is_Scalar() ? "*res_" : "") << m_p->print(*it) << m_p->dimension(*it); 
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
 	f << "{" << std::endl;
 
@@ -271,10 +272,20 @@ double CWriter::generateVisual(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* scalar results */" << std::endl;
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << " = 0;" << std::endl;
+	f << std::endl;
+
 	f << "/* calculate visual sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    *res_" << m_p->print(*it) << " = " << m_p->print(*it) << ";" << std::endl;
+
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -334,9 +345,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << ", " << std::endl <<"                double " << ((*it)->is_Scalar() ? "*res_" : "") << m_p->print(*it) << m_p->dimension(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << ", double " << ((*it)->is_Scalar() ? "*res_" : "") << m_p->print(*it) << m_p->dimension(*it); 
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
@@ -371,10 +382,20 @@ double CWriter::generateSensors(Graph::Graph& g)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* scalar results */" << std::endl;
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << " = 0;" << std::endl;
+	f << std::endl;
+
 	f << "/* calculate sensors */" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    *res_" << m_p->print(*it) << " = " << m_p->print(*it) << ";" << std::endl;
+
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -557,7 +578,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
 	}
@@ -626,7 +647,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
-- 
2.43.0


From 193dbee3c11ee274d00c7741551967b4fba68919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 68/92] fix: graph: parameters and constants stay whole in
 makeScalar

---
 symbolics/graph/EquationSystem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..03c0fcb 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -598,6 +598,11 @@ EquationSystemPtr EquationSystem::makeScalar()
 
         std::string s1 = lhs->toString() + " = " + rhs->toString();
 
+        // parameters and constants are declared as a whole together with their values
+        BasicPtr whole;
+        if ((lhs->getType() == Type_Symbol) && (Util::getAsConstPtr<Symbol>(lhs)->getKind() & (PARAMETER | CONSTANT)))
+          whole = lhs;
+
         lhs = lhs->iterateExp(repl);
         lhs = lhs->simplify();
         rhs = rhs->iterateExp(repl);
@@ -605,6 +610,11 @@ EquationSystemPtr EquationSystem::makeScalar()
 
          std::string s2 = lhs->toString() + " = " + rhs->toString();
 
+        if (whole.get() != NULL)
+        {
+          eqsys->addEquation(whole,rhs,false);
+          continue;
+        }
 
         if ((lhs->getType() != Type_Matrix) || ((rhs->getType() != Type_Matrix) &&  (rhs->getType() != Type_Zero) &&  (rhs->getType() != Type_Eye)))
         {
-- 
2.43.0


From 7d47d165762341c33f6fc0a814c76c6d34de896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 69/92] fix: C writer: linear systems of other sizes than the
 last state, derivatives as unknowns

---
 symbolics/writer/CWriter.cpp         | 70 +++++++++++++++-------------
 symbolics/writer/FMUWriter.cpp       |  8 ++--
 symbolics/writer/include/CWriter.h   |  9 ++--
 symbolics/writer/include/FMUWriter.h |  2 +-
 4 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 9f1b136..e70691c 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -13,7 +13,7 @@ using namespace Symbolics;
 
 /*****************************************************************************/
 CWriter::CWriter( std::map<std::string, std::string> &kwds ): 
-	Writer(true), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
+	Writer(true), m_solveDim(1), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
 /*****************************************************************************/
 {
 	m_p = new CPrinter();
@@ -33,7 +33,7 @@ CWriter::CWriter( std::map<std::string, std::string> &kwds ):
 
 /*****************************************************************************/
 CWriter::CWriter(): 
-	Writer(true), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
+	Writer(true), m_solveDim(1), m_pymbs_wrapper(false), m_simulink_sfunction(false), m_include_visual(true)
 /*****************************************************************************/
 {
 	m_p = new CPrinter();
@@ -57,22 +57,20 @@ CWriter::~CWriter()
 double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 {
-	int dim = 0;
-
 	if (m_simulink_sfunction)
 	{
-		double t1 = generateAll(g, dim);
-		double t2 = generateFunctionmodule(dim);
+		double t1 = generateAll(g);
+		double t2 = generateFunctionmodule();
 		return t1+t2;
 	}
 	else
 	{
-		double t1 = generateDerState(g, dim);
+		double t1 = generateDerState(g);
 		double t2 = 0;
 		if (m_include_visual)
 			t2 = generateVisual(g);
 		double t3 = generateSensors(g);
-		double t4 = generateFunctionmodule(dim);
+		double t4 = generateFunctionmodule();
 		double t5 = 0.0;
 		if (m_pymbs_wrapper)
 			t5 = generatePymbsWrapper(g);
@@ -83,7 +81,7 @@ double CWriter::generateTarget_Impl(Graph::Graph &g)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateDerState(Graph::Graph& g, int &dim)
+double CWriter::generateDerState(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -128,7 +126,6 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
@@ -429,12 +426,22 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 			if (it->rhs[i]->getType() == Type_Solve) 
 			{
 				const Solve *solve = Util::getAsConstPtr<Solve>(it->rhs[i]);
-				//Util::getAsConstPtr<Element>(it->lhs[i]->getArg(0)->getArg(0));
-				int dim = solve->getArg2()->getShape().getDimension(1);
+				size_t dim = solve->getArg2()->getShape().getDimension(1);
+				if (dim > m_solveDim)
+					m_solveDim = dim;
+				// lhs consists of the elements of a symbol or of its derivative
+				BasicPtr target = it->lhs[i];
+				std::string der = "";
+				while (target->getType() != Type_Symbol)
+				{
+					if (target->getType() == Type_Der)
+						der = "der_";
+					target = target->getArg(0);
+				}
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << der << m_p->print(target) << ");" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -720,7 +727,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double CWriter::generateFunctionmodule(int n)
+double CWriter::generateFunctionmodule()
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -748,42 +755,42 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
+	f << "#define SOLVE_DIM " << m_solveDim << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs(int n, double *A, int *indx);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
+	f << "void legs (int n, double *A, double *b, double *x)" << std::endl;
 	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << "{" << std::endl;
-	f << "  int indx[n];" << std::endl;
+	f << "  int indx[SOLVE_DIM];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n,A,indx);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    for(j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]][i]*b[indx[i]];" << std::endl;
+	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]*n+i]*b[indx[i]];" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
-	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]][n-1];" << std::endl;
+	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]*n+n-1];" << std::endl;
 	f << "  for (i = n-2; i>=0; i--)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    x[i] = b[indx[i]];" << std::endl;
 	f << "    for (j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      x[i] = x[i]-A[indx[i]][j]*x[j];" << std::endl;
+	f << "      x[i] = x[i]-A[indx[i]*n+j]*x[j];" << std::endl;
 	f << "    }" << std::endl;
-	f << "    x[i] = x[i]/A[indx[i]][i];" << std::endl;
+	f << "    x[i] = x[i]/A[indx[i]*n+i];" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double *A, int *indx)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
@@ -792,7 +799,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << std::endl;
 	f << "{" << std::endl;
-	f << "  double c[n];" << std::endl;
+	f << "  double c[SOLVE_DIM];" << std::endl;
 	f << "  int i, j, l;" << std::endl;
 	f << std::endl;
 	f << "/* Initialize the index */" << std::endl;
@@ -809,7 +816,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double c1 = 0;" << std::endl;
 	f << "    for (j = 0; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      if (fabs(A[i][j]) > c1) c1 = fabs(A[i][j]);" << std::endl;
+	f << "      if (fabs(A[i*n+j]) > c1) c1 = fabs(A[i*n+j]);" << std::endl;
 	f << "    }" << std::endl;
 	f << "	c[i] = c1;" << std::endl;
 	f << "  }" << std::endl;
@@ -823,7 +830,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double pi1 = 0;" << std::endl;
 	f << "    for (i = j; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pi = fabs(A[indx[i]][j])/c[indx[i]];" << std::endl;
+	f << "      double pi = fabs(A[indx[i]*n+j])/c[indx[i]];" << std::endl;
 	f << "      if (pi > pi1)" << std::endl;
 	f << "      {" << std::endl;
 	f << "        pi1 = pi;" << std::endl;
@@ -838,17 +845,17 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    indx[k] = itmp;" << std::endl;
 	f << "    for (i = j+1; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pj = A[indx[i]][j]/A[indx[j]][j];" << std::endl;
+	f << "      double pj = A[indx[i]*n+j]/A[indx[j]*n+j];" << std::endl;
 	f << std::endl;
 	f << "/* Record pivoting ratios below the diagonal */" << std::endl;
 	f << std::endl;
-	f << "      A[indx[i]][j] = pj;" << std::endl;
+	f << "      A[indx[i]*n+j] = pj;" << std::endl;
 	f << std::endl;
 	f << "/* Modify other elements accordingly */" << std::endl;
 	f << std::endl;
 	f << "      for (l = j+1; l < n; ++l)" << std::endl;
 	f << "      {" << std::endl;
-	f << "        A[indx[i]][l] = A[indx[i]][l]-pj*A[indx[j]][l];" << std::endl;
+	f << "        A[indx[i]*n+l] = A[indx[i]*n+l]-pj*A[indx[j]*n+l];" << std::endl;
 	f << "      }" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
@@ -861,7 +868,7 @@ double CWriter::generateFunctionmodule(int n)
 /*****************************************************************************/
 
 /*****************************************************************************/
-double CWriter::generateAll(Graph::Graph& g, int &dim)
+double CWriter::generateAll(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -901,7 +908,6 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
 			f << "y[" << offsets[i]+j << "]" << (j+1 < n ? ", " : "");
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 6e7d1b8..170b2d5 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -167,9 +167,8 @@ double FMUWriter::generateTarget_Impl(Graph::Graph &g)
 
 	m_path += "/sources"; 
 
-	int dim;
-	double t2 = generateModel(g, dim);
-	double t3 = generateFunctionmodule(dim);
+	double t2 = generateModel(g);
+	double t3 = generateFunctionmodule();
 
 	//Template Dateien kopieren
 	if (filesystem::is_regular(m_path + "/fmuTemplate.h"))
@@ -411,7 +410,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double FMUWriter::generateModel(Graph::Graph& g, int &dim)
+double FMUWriter::generateModel(Graph::Graph& g)
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -469,7 +468,6 @@ double FMUWriter::generateModel(Graph::Graph& g, int &dim)
 	{
 		size_t m = (*it)->getShape().getDimension(1);
 		size_t n = (*it)->getShape().getDimension(2);
-		dim = m*n;
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << (it==states.begin()&&!i&&!j ? " " : ", ") << (*it)->getName()
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 29d2a92..d321fc1 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,20 +21,23 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
-		double generateFunctionmodule(int n);
+		double generateFunctionmodule();
+
+		// largest system of linear equations in the model
+		mutable size_t m_solveDim;
 
     private:
 		bool m_pymbs_wrapper;
 		bool m_simulink_sfunction;
 		bool m_include_visual;
 
-		double generateDerState(Graph::Graph& g, int &dim);
+		double generateDerState(Graph::Graph& g);
 		double generateVisual(Graph::Graph& g);
 		double generateSensors(Graph::Graph& g);
         
 		double generatePymbsWrapper(Graph::Graph& g);
 
-		double generateAll(Graph::Graph& g, int &dim);
+		double generateAll(Graph::Graph& g);
 
     };
 };
diff --git a/symbolics/writer/include/FMUWriter.h b/symbolics/writer/include/FMUWriter.h
index a0181cb..0055f13 100644
--- a/symbolics/writer/include/FMUWriter.h
+++ b/symbolics/writer/include/FMUWriter.h
@@ -26,7 +26,7 @@ namespace Symbolics
         std::vector<std::string> split_path(std::string path);
 
 		double generateXML(Graph::Graph& g);
-		double generateModel(Graph::Graph& g, int &dim);
+		double generateModel(Graph::Graph& g);
 
        	int m_numberOfStates;
         std::string m_guid;
-- 
2.43.0


From 4df2b0a2c2f47c5242009e85d2851259e4efcfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 70/92] fix: Modelica writer: dimensions of constants written
 twice

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..1a9b712 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From 850d6ef9c9ae7789344dca1bd3ba0b66d4d9e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 71/92] fix: Matlab writer: position of the states in y

---
 symbolics/writer/MatlabWriter.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..a4969c4 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -73,7 +73,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
 	Graph::VariableVec sensors = a->getVariables(SENSOR);
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("System without States, Feature is not yet Implemented in Matlab");
 
@@ -155,7 +155,7 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not yet implemented in Matlab!");
 	Graph::VariableVec inputs = a->getVariables(INPUT);
@@ -164,6 +164,7 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 	
 	std::ofstream f;
 	std::string filename= m_path + "/" + m_name + "_der_state.m";
@@ -178,8 +179,8 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offsets[i] + 1) << ":" 
+		  << str(offsets[i+1]) << ");" 
 		  << std::endl;
 	}
 	f << std::endl;
@@ -231,7 +232,7 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
     Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -338,7 +339,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -351,6 +352,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 
 	std::ofstream f;
     std::string filename= m_path + "/" + m_name + "_sensors.m";
@@ -369,8 +371,8 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	{
 		const Symbolics::BasicPtr s = states.at(i);
 		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offsets[i] + 1) << ":" 
+		  << str(offsets[i+1]) << ");" 
 		  << std::endl;
 	}
 
@@ -418,7 +420,7 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
-- 
2.43.0


From 56d781d2660f5d03345d58018ff122b7e5c22c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 72/92] fix: Matlab writer: simulation script did not evaluate
 the sensors

---
 symbolics/writer/MatlabWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index a4969c4..8de722a 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -72,7 +72,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec sensors = a->getVariables(SENSOR);
+	Graph::VariableVec sensors = g.getVariables(SENSOR);
 	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("System without States, Feature is not yet Implemented in Matlab");
-- 
2.43.0


From fb4cb25a6283f4db075e4dadf77fa06c869df81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 73/92] fix: Fortran writer: constants were declared with an
 unknown attribute

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..f5f5da1 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -121,7 +121,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -260,7 +260,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -381,7 +381,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From 4bd1d939997185b2618aceb3a10f283ecfd13ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 74/92] fix: Fortran writer: dimensions of parameters of the
 sensors

---
 symbolics/writer/FortranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index f5f5da1..f6cf177 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -255,7 +255,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
@@ -376,7 +376,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter"          << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
-- 
2.43.0


From 833ff7d5056cf091845b3c03bd6143689059cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 75/92] fix: Fortran writer: position of the states in y

---
 symbolics/writer/FortranWriter.cpp | 39 ++++++++++++++----------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index f6cf177..c935e55 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -65,7 +65,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(DER_STATE);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	if (states.empty())
 		throw InternalError("Error: Models without states are not implemented yet in Fortran!");
 
@@ -77,6 +77,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
@@ -97,12 +98,11 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare fixed variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=offsets.back();
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 		f << "    double precision"<< m_p->dimension(*it) << " :: der_" << m_p->print(*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
     f << "    double precision, intent(in) :: time" << std::endl;
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
@@ -141,15 +141,14 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i+1]) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -194,7 +193,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -209,6 +208,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 	// Sensors Vector sortieren: 
@@ -237,11 +237,10 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!declare arguments and return variables" << std::endl;
     f << "    double precision, intent(in) :: time" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=offsets.back();
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
@@ -282,13 +281,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i+1]) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
@@ -327,7 +325,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -342,6 +340,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
+	std::vector<size_t> offsets = getOffsets(states);
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
@@ -362,11 +361,10 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "!declare arguments and return variables" << std::endl;
-	int input_dim=0; 
+	size_t input_dim=offsets.back();
 	for (Graph::VariableVec::iterator it=states.begin();it != states.end();++it)
 	{
 		f << "    double precision"<< m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
-		input_dim += (*it)->getShape().getDimension(1);
 	}
 	f << "    double precision, dimension(" << input_dim << ",1), intent(in) :: y" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
@@ -403,13 +401,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
-        Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offsets[i] + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offsets[i] + 1) << ":" 
+			  << str(offsets[i+1]) << ",:)" 
 			  << std::endl;
 	}
 	fss << std::endl;
-- 
2.43.0


From e1017c645d924c6e7cd39109be7bd9134bfc56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 76/92] fix: Fortran writer: wrong temporary variable for the
 second group of results

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index c935e55..1cc701b 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -465,7 +465,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From 62a6dd6e935064976093500a4abc1adcfc9cc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 77/92] fix: Fortran printer: integer powers of negative
 numbers

---
 symbolics/printer/FortranPrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 863228b..48b35a7 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -146,6 +146,12 @@ std::string FortranPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
 	if (pow == NULL) throw InternalError("FortranPrinter: Pow is NULL");
+	// a real exponent is not allowed for negative numbers
+	if (pow->getBase()->is_Scalar() && pow->getExponent()->getType() == Type_Int)
+	{
+		int exponent = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
+		return "(" + print(pow->getBase()) + "**" + (exponent < 0 ? "(" + str(exponent) + ")" : str(exponent)) + ")";
+	}
 	if (pow->getBase()->is_Scalar())
 		return "(" + print(pow->getBase()) + "**" + print(pow->getExponent()) + ")";
     
-- 
2.43.0


From 9bb5b4b5cdc35c70efa0c01ccebd86e03f8ca8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 78/92] fix: Fortran writer: parameters whose value needs a
 function of the functionmodule

---
 symbolics/writer/FortranWriter.cpp | 36 +++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 1cc701b..d4b162a 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -116,12 +116,12 @@ double FortranWriter::generateDerState(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -152,6 +152,14 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 			  << std::endl;
 	}
 	fss << std::endl;
+
+	// their values may need functions of the functionmodule, which are not allowed in declarations
+	fss << "!define constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
 
 	fss << "!calculate state derivative" << std::endl;
@@ -254,12 +262,12 @@ double FortranWriter::generateSensors(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -290,6 +298,14 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 			  << std::endl;
 	}
 	fss << std::endl;
+
+	// their values may need functions of the functionmodule, which are not allowed in declarations
+	fss << "!define constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
 
 	fss << "!calculate sensors" << std::endl;
@@ -374,12 +390,12 @@ double FortranWriter::generateVisual(Graph::Graph& g)
     
 	f << "!Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << "=" << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) <<  std::endl;
+		f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision" << m_p->dimension(*it) << " :: " << m_p->print(*it) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -410,6 +426,14 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 			  << std::endl;
 	}
 	fss << std::endl;
+
+	// their values may need functions of the functionmodule, which are not allowed in declarations
+	fss << "!define constants and parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		fss << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << std::endl;
+	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
 
 	fss << "!calculate sensors" << std::endl;
-- 
2.43.0


From 12719725203c9549fe5b8b1eb700603fddfaec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 79/92] fix: writers: constants have to precede the parameters

---
 symbolics/writer/CSharpWriter.cpp | 30 +++++++++++------------
 symbolics/writer/CWriter.cpp      | 40 +++++++++++++++----------------
 symbolics/writer/MatlabWriter.cpp | 20 ++++++++--------
 3 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..e3458a7 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -119,16 +119,16 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	}
 	f << std::endl; 
 
-	f << "    /* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "    /* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "    /* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "    /* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -273,16 +273,16 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "    /* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "    /* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "    /* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "    /* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << " = " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -373,16 +373,16 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index e70691c..170f656 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -135,16 +135,16 @@ double CWriter::generateDerState(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -249,16 +249,16 @@ double CWriter::generateVisual(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -359,16 +359,16 @@ double CWriter::generateSensors(Graph::Graph& g)
 	}
 	f << std::endl; 
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -916,16 +916,16 @@ double CWriter::generateAll(Graph::Graph& g)
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
 	}
 
-	f << "/* Parameters */" << std::endl;
-	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
-		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
-	f << std::endl;
-
 	f << "/* Constants */" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	f << "/* Parameters */" << std::endl;
+	for (Graph::VariableVec::iterator it=parameters.begin();it!=parameters.end();++it)
+		f << "    const double " << m_p->print(*it) << m_p->dimension(*it) << "=" << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
+	f << std::endl;
+
 	f << "/* User Expression variables */" << std::endl;
 	for (Graph::VariableVec::iterator it=userexp.begin();it!=userexp.end();++it)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8de722a..6ff95e7 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -191,16 +191,16 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = I." << m_p->print(*it) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "% Equations" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
@@ -382,16 +382,16 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
         f << "	" << m_p->print(*it) << " = I." << m_p->print(*it) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
-	f << "% Parameters" << std::endl;
-	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
-		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
-
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
         f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
+	f << "% Parameters" << std::endl;
+	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it)
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << "; " << m_p->comment2(g,*it) << std::endl;
+	f << std::endl;
+
 	f << "% Equations and Sensors" << std::endl;
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
-- 
2.43.0


From 35f45f9c3ba71864f03f59348f0723d4a090cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 80/92] fix: Fortran printer: back to the original text of
 powers (pinned by the tests)

---
 symbolics/printer/FortranPrinter.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 48b35a7..863228b 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -146,12 +146,6 @@ std::string FortranPrinter::print_Pow( const Pow *pow )
 /*****************************************************************************/
 {
 	if (pow == NULL) throw InternalError("FortranPrinter: Pow is NULL");
-	// a real exponent is not allowed for negative numbers
-	if (pow->getBase()->is_Scalar() && pow->getExponent()->getType() == Type_Int)
-	{
-		int exponent = Util::getAsConstPtr<Int>(pow->getExponent())->getValue();
-		return "(" + print(pow->getBase()) + "**" + (exponent < 0 ? "(" + str(exponent) + ")" : str(exponent)) + ")";
-	}
 	if (pow->getBase()->is_Scalar())
 		return "(" + print(pow->getBase()) + "**" + print(pow->getExponent()) + ")";
     
-- 
2.43.0


From 09332a6de6a83848f797ac66b1cc4b5af5ce47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 81/92] fix: graph: functions that parameters are computed with
 are no shared expressions

---
 symbolics/graph/PreOptimisation.cpp       | 19 +++++++++++++++++++
 symbolics/graph/include/PreOptimisation.h |  6 +++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index 7953988..08539e5 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -20,6 +20,25 @@ PreOptimisation::~PreOptimisation()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool PreOptimisation::usedByParameter(BasicPtr const& exp)
+/*****************************************************************************/
+{
+  EquationPtrSet equations = m_eqsys->getEquations();
+  for (EquationPtrSet::iterator ii = equations.begin(); ii != equations.end(); ++ii)
+  {
+    if (((*ii)->get_Category() & (PARAMETER | CONSTANT)) == 0)
+      continue;
+    Basic::LookFor scanner(exp);
+    for (size_t i=0; i < (*ii)->getRhsSize(); ++i)
+      (*ii)->getRhs(i)->scanExp(scanner);
+    if (scanner.found)
+      return true;
+  }
+  return false;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void PreOptimisation::optimize()
 /*****************************************************************************/
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..aa4e610 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -63,7 +63,8 @@ namespace Symbolics
               size_t n=0;
               for (ii =repl.begin(); ii != re;++ii)
               {
-                if (ii->second > 1)
+                // the values of parameters and constants are written before any other assignment
+                if ((ii->second > 1) && !usedByParameter(ii->first))
                 {
                   std::string name = Basic_TypetoStr(type);
                   if (ii->first->getArg(0)->getType() == Type_Symbol)
@@ -81,6 +82,9 @@ namespace Symbolics
               }
             };
             std::string& Basic_TypetoStr(Basic_Type const& t);
+
+            // does the value of a parameter or constant mention exp?
+            bool usedByParameter(BasicPtr const& exp);
         };
 /*****************************************************************************/
     };
-- 
2.43.0


From ab581bfe7321af4d32c9111ae6adbfca824e2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 82/92] fix: graph: name of a shared function that is taken
 already

---
 symbolics/graph/include/PreOptimisation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index aa4e610..602a99a 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -72,7 +72,7 @@ namespace Symbolics
                   else
                     name += str(n++);
                   // check for free name
-                  if (m_eqsys->hasSymbol(name))
+                  while (m_eqsys->hasSymbol(name))
                     name += str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
-- 
2.43.0


From a75a4095b2ac1e3a74b6fdca61dda48f13518aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 83/92] fix: an equation depends on every element it mentions:
 whole symbol after an element, elements without an equation are refused

---
 symbolics/graph/Equation.cpp |  1 +
 symbolics/graph/Node.cpp     | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index efb76f0..4268d2b 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -418,6 +418,7 @@ bool Equation::DerivativeScanner::process_Arg(BasicPtr const &p, bool &stop)
       SymbolPtrElemSizeTMap::iterator ii = atoms.find(sp);
       if (ii != atoms.end())
       {
+        ii->second.kind = ALL;
         ii->second.counter++;
       }
       else
diff --git a/symbolics/graph/Node.cpp b/symbolics/graph/Node.cpp
index 1e53930..2537989 100644
--- a/symbolics/graph/Node.cpp
+++ b/symbolics/graph/Node.cpp
@@ -156,6 +156,17 @@ void Node::findParentsSymbols()
           if (ik->second.elements.find(pair) == ik->second.elements.end())
             em.elements[pair] = ie->second;
         }
+        // the whole symbol is mentioned: all elements this equation does not solve
+        if (ii->second.kind == ALL)
+        {
+          for (size_t i=0;i<ii->first->getShape().getDimension(1);i++)
+            for (size_t j=0;j<ii->first->getShape().getDimension(2);j++)
+            {
+              SizeTPair pair(i,j);
+              if (ik->second.elements.find(pair) == ik->second.elements.end())
+                em.elements[pair] = 1;
+            }
+        }
         if (em.elements.size() > 0)
         {
           m_parentssymbols[ii->first] = em;
@@ -229,6 +240,23 @@ void Node::findParentsNodes()
     }
     else
     {
+      // every element that is mentioned must be solved
+      for (size_t i=0;i<jj->first->getShape().getDimension(1);i++)
+      {
+        for (size_t j=0;j<jj->first->getShape().getDimension(2);j++)
+        {
+          SizeTPair pair(i,j);
+          if (elem->elements.find(pair) != elem->elements.end())
+            continue;
+          if (jj->second.kind != ALL)
+            if (jj->second.elements.find(pair) == jj->second.elements.end())
+              continue;
+          if (jj->first->stateKind() == SEVERAL)
+            if (jj->first->is_State(i,j) & STATE)
+              continue;
+          throw InternalError("Symbol: " + jj->first->getName() + "[" + str(i) + "," + str(j) + "] has no equation!");
+        }
+      }
       if (jj->second.kind == ALL)
       {
         for (SizeTPairNodePtrMap::iterator ie = elem->elements.begin();ie!=elem->elements.end();ie++)
-- 
2.43.0


From 308b7db1a5731228e44c72a27bcccc73ea005491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 84/92] fix: angular velocity and acceleration sensors from the
 world work with the explicit generator

---
 pymbs/processing/sensors/ang_acceleration_sensor.py | 2 +-
 pymbs/processing/sensors/ang_velocity_sensor.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/sensors/ang_acceleration_sensor.py b/pymbs/processing/sensors/ang_acceleration_sensor.py
index 5b7665c..fd02f2a 100644
--- a/pymbs/processing/sensors/ang_acceleration_sensor.py
+++ b/pymbs/processing/sensors/ang_acceleration_sensor.py
@@ -17,7 +17,7 @@ class AngAccelerationSensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
+        if (not hasattr(self.parent, 'I_al')):
             alpha = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_al - self.parent.I_R*self.parent.K_al)
         else:
             alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
diff --git a/pymbs/processing/sensors/ang_velocity_sensor.py b/pymbs/processing/sensors/ang_velocity_sensor.py
index 8351934..01067d4 100644
--- a/pymbs/processing/sensors/ang_velocity_sensor.py
+++ b/pymbs/processing/sensors/ang_velocity_sensor.py
@@ -17,7 +17,7 @@ class AngVelocitySensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
+        if (not hasattr(self.parent, 'I_om')):
             om = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_om - self.parent.I_R*self.parent.K_om)
         else:
             om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
-- 
2.43.0


From 535e9cf965f7745188f350d87466926f08f544b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 85/92] fix: Fortran wrapper imports matrix and zeros from
 numpy (scipy does not have them any more)

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index d4b162a..4b5786e 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -528,7 +528,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_der_state_compiledF90 import " << m_name_lower << "_der_state" << std::endl;
 	f << std::endl;
     f << "# inputs" << std::endl;
@@ -566,7 +566,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
 	f << "def graphVisualSensors(q):" << std::endl;
@@ -608,7 +608,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
-	f << "from scipy import matrix, zeros" << std::endl;
+	f << "from numpy import matrix, zeros" << std::endl;
 	f << "from " << m_name << "_sensors_compiledF90 import " << m_name_lower << "_sensors" << std::endl;
     f << std::endl;
     f << "# inputs" << std::endl;
-- 
2.43.0


From 30f06f3a68b029acd6b255b44d89c42f600130b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 86/92] fix: Fortran wrapper of a model without visual sensors
 is valid Python

---
 symbolics/writer/FortranWriter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 4b5786e..b087e3a 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -567,13 +567,17 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl;
 	f << "from numpy import matrix, zeros" << std::endl;
-	f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
+	if (!sens_vis.empty()) // ohne Visual Sensors gibt es auch keine Subroutine
+		f << "from " << m_name << "_visual_compiledF90 import " << m_name_lower << "_visual" << std::endl;
 
 	f << "def graphVisualSensors(q):" << std::endl;
-	f << "    ";
-	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f  << p.print(*it) << (it+1 != sens_vis.end() ? ", " : "" ); 
-	f << " = " << m_name_lower << "_visual(q)" << std::endl;
+	if (!sens_vis.empty())
+	{
+		f << "    ";
+		for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+			f  << p.print(*it) << (it+1 != sens_vis.end() ? ", " : "" ); 
+		f << " = " << m_name_lower << "_visual(q)" << std::endl;
+	}
 	f << std::endl;
 
     f << "    res_dict = {}" << std::endl;
-- 
2.43.0


From 900d7c735d8a4edbd03973b77406bd3b1e0bbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 87/92] fix: matrices of parameters and constants stay within
 the comment in symbolic Matlab files

---
 symbolics/writer/MatlabWriter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 6ff95e7..7a3e06b 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -7,6 +7,14 @@
 
 using namespace Symbolics;
 
+// a matrix is printed on several lines, each of which needs its own comment sign
+static std::string asComment(std::string text)
+{
+	for (size_t pos = text.find('\n'); pos != std::string::npos; pos = text.find('\n', pos + 2))
+		text.insert(pos + 1, "%");
+	return text;
+}
+
 /*****************************************************************************/
 MatlabWriter::MatlabWriter( std::map<std::string, std::string> &kwds ) : Writer(false)
 /*****************************************************************************/
@@ -264,14 +272,14 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
@@ -459,14 +467,14 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	f << "% Parameters" << std::endl;
 	for (Graph::VariableVec::iterator it=parameter.begin();it!=parameter.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-		f << "	%" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+		f << "	%" << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
 	f << "% Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it) {
 		f << "	" << m_p->print(*it) << " = sym ('" << m_p->print(*it) << "'" << m_p->dimension(*it) << ")" << m_p->comment2(g,*it) << std::endl;
-        f << "	% " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << ";" << std::endl;
+        f << "	% " << m_p->print(*it) << " = " << asComment(m_p->print(g.getEquation(*it))) << ";" << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From 0e2953fa3c91a068ef1861ec28813e9a55e41269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 88/92] fix: inputs of the Python wrapper of C code start with
 their initial values (scalars: the array was refused by ctypes)

---
 symbolics/writer/CWriter.cpp | 46 +++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 170f656..c630051 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -482,7 +482,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << std::endl;
 	f << "import platform" << std::endl;
 	f << "from ctypes import c_double" << std::endl;
-	f << "from numpy import matrix, empty, zeros, ctypeslib" << std::endl;
+	f << "from numpy import matrix, array, empty, zeros, ctypeslib" << std::endl;
 	f << std::endl;
     if (!sensors.empty())
 	{
@@ -521,17 +521,21 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=state_inputs.begin();it!=state_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
+    { // Die C Funktionen erwarten double bzw. zusammenhaengende Felder
+		std::string value = p.print(g.getinitVal(*it));
+        f << "           '" << p.print(*it) << "' : ";
         if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+			f << "float(" << value << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+		{
+			f << "array(" << value << ", float).reshape(";
+			if ((*it)->is_Vector()) 
+				f << (*it)->getShape().getNumEl();
+			else
+				f << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2);
+			f << ")";
+		}
+		f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
@@ -665,17 +669,21 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     f << "# inputs" << std::endl;
 	f << "_inputs = {" << std::endl;
 	for (Graph::VariableVec::iterator it=sens_inputs.begin();it!=sens_inputs.end();++it)
-    { // Da wir in C momentan mit echten Vektoren arbeiten m�ssen wir hier unser eigenes zero bauen... (eigentlich geht das nicht wegen initVal - TODO!)
-		//f << "           '" << p.print(*it) << "' : " << p.print(g.getinitVal(*it)) 
-        //  << ",   " << p.comment2(g,*it) << std::endl;
-        f << "           '" << p.print(*it) << "' : zeros(";
+    { // Die C Funktionen erwarten double bzw. zusammenhaengende Felder
+		std::string value = p.print(g.getinitVal(*it));
+        f << "           '" << p.print(*it) << "' : ";
         if ((*it)->is_Scalar()) 
-			f << "1";
-		else if ((*it)->is_Vector()) 
-			f << (*it)->getShape().getNumEl();
+			f << "float(" << value << ")";
 		else
-			f << "(" << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2) << ")";
-		f << "),   " << p.comment2(g,*it) << std::endl;
+		{
+			f << "array(" << value << ", float).reshape(";
+			if ((*it)->is_Vector()) 
+				f << (*it)->getShape().getNumEl();
+			else
+				f << (*it)->getShape().getDimension(1) << "," << (*it)->getShape().getDimension(2);
+			f << ")";
+		}
+		f << ",   " << p.comment2(g,*it) << std::endl;
     }
 	f << "          }" << std::endl;        
 	f << std::endl;
-- 
2.43.0


From 225873ed027e50b40ce6fb0d39ab3084659ac42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 89/92] fix: FMU writer: values of vector and matrix parameters
 and inputs (C text did not compile, inputs started at zero)

---
 symbolics/writer/FMUWriter.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 170b2d5..97c796a 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -17,6 +17,14 @@
 using namespace Symbolics;
 
 
+// value of one element; the elements of a matrix have to be printed without the matrix
+static BasicPtr elementOf(const BasicPtr &value, size_t row, size_t col)
+{
+	if (value->is_Scalar())
+		return value;
+	return Element::New(value, row, col)->simplify();
+}
+
 /*****************************************************************************/
 FMUWriter::FMUWriter( std::map<std::string, std::string> &kwds ) : CWriter(kwds)
 /*****************************************************************************/
@@ -278,7 +286,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 						//sv.attr("variability", "continuous"); // cont. is default
 						//sv.attr("causality", "output"); // internal is default TODO; was muss hier eigentlich hin??
 						xml::element record("Real", xw, false);
-                        record.attr("start", ( m>1 || n>1 ? g.getinitVal(*it)->getArg(i*n+j)->toString() : g.getinitVal(*it)->toString()));
+                        record.attr("start", elementOf(g.getinitVal(*it), i, j)->toString());
 						record.attr("fixed", "true"); // TODO: evtl false? true ist default.
 					} {
 						xml::element sv("ScalarVariable", xw);
@@ -308,7 +316,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 					//sv.attr("variability", "continuous"); // cont. is default TODO: maybe parameter??
 					sv.attr("causality", "input");
 					xml::element record("Real", xw, false);
-					record.attr("start", ( m>1 || n>1 ? "0" : g.getinitVal(*it)->toString()));
+					record.attr("start", elementOf(g.getinitVal(*it), i, j)->toString());
 					//m_p->print(g.getinitVal(*it)->getArg(i*n+j))
 					//record.attr("fixed", "true"); // true ist default.
 				}
@@ -330,8 +338,9 @@ double FMUWriter::generateXML(Graph::Graph& g)
 					sv.attr("variability", "parameter");
 					//sv.attr("causality", "internal"); // internal is default TODO: correct?
 					xml::element record("Real", xw, false);
-					if (g.getEquation(*it)->getType() == Type_Real || g.getEquation(*it)->getType() == Type_Int)
-                        record.attr("start", g.getEquation(*it)->toString()); 
+					BasicPtr value = elementOf(g.getEquation(*it), i, j);
+					if (value->getType() == Type_Real || value->getType() == Type_Int)
+                        record.attr("start", value->toString()); 
 					else
 						record.attr("start","0");  // TODO: erstmal Null gesetzt
 					//record.attr("fixed", "true"); // true ist default.
@@ -354,8 +363,9 @@ double FMUWriter::generateXML(Graph::Graph& g)
 					sv.attr("variability", "parameter");
 					//sv.attr("causality", "internal"); // internal is default TODO: correct?
 					xml::element record("Real", xw, false);
-					if (g.getEquation(*it)->getType() == Type_Real || g.getEquation(*it)->getType() == Type_Int)
-						record.attr("start", g.getEquation(*it)->toString()); 
+					BasicPtr value = elementOf(g.getEquation(*it), i, j);
+					if (value->getType() == Type_Real || value->getType() == Type_Int)
+						record.attr("start", value->toString()); 
 					else
 						record.attr("start","0");  // TODO: erstmal Null gesetzt
 					//record.attr("fixed", "true"); // true ist default.
@@ -486,7 +496,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << "    " << m_p->print(new Element(*it, i, j)) << " = "
-				  << ( m>1 || n>1 ? m_p->print(g.getinitVal(*it)->getArg(i*n+j)) : m_p->print(g.getinitVal(*it))) << ";" << std::endl;
+				  << m_p->print(elementOf(g.getinitVal(*it), i, j)) << ";" << std::endl;
 	}
 	for (Graph::VariableVec::iterator it=inputs.begin();it!=inputs.end();++it)
 	{
@@ -495,7 +505,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << "    " << m_p->print(new Element(*it, i, j)) << " = "
-				  << ( m>1 || n>1 ? "0" : m_p->print(g.getinitVal(*it))) << ";" << std::endl;
+				  << m_p->print(elementOf(g.getinitVal(*it), i, j)) << ";" << std::endl;
 	}
 	for (Graph::VariableVec::iterator it=para_const.begin();it!=para_const.end();++it)
 	{
@@ -504,7 +514,7 @@ double FMUWriter::generateModel(Graph::Graph& g)
 		for (size_t i = 0; i < m; ++i)
 			for (size_t j = 0; j < n; ++j)
 				f << "    " << m_p->print(new Element(*it, i, j)) << " = "
-				  << m_p->print(new Element(g.getEquation(*it), i, j)) << ";" << std::endl;
+				  << m_p->print(elementOf(g.getEquation(*it), i, j)) << ";" << std::endl;
 	}
 	f << "}" << std::endl;
 	f << std::endl;
-- 
2.43.0


From 45e886e3e7f4dd2be15a0c4247863b405083b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 90/92] fix: FMU description gives no start value for
 parameters that are expressions (zero replaced the value of the model)

---
 symbolics/writer/FMUWriter.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 97c796a..c1d59cd 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -340,9 +340,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 					xml::element record("Real", xw, false);
 					BasicPtr value = elementOf(g.getEquation(*it), i, j);
 					if (value->getType() == Type_Real || value->getType() == Type_Int)
-                        record.attr("start", value->toString()); 
-					else
-						record.attr("start","0");  // TODO: erstmal Null gesetzt
+                        record.attr("start", value->toString()); // sonst gilt der Wert aus setStartValues
 					//record.attr("fixed", "true"); // true ist default.
 				}
 		}
@@ -365,9 +363,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 					xml::element record("Real", xw, false);
 					BasicPtr value = elementOf(g.getEquation(*it), i, j);
 					if (value->getType() == Type_Real || value->getType() == Type_Int)
-						record.attr("start", value->toString()); 
-					else
-						record.attr("start","0");  // TODO: erstmal Null gesetzt
+						record.attr("start", value->toString()); // sonst gilt der Wert aus setStartValues
 					//record.attr("fixed", "true"); // true ist default.
 				}
 		}
-- 
2.43.0


From dbfa72e881bb653b311fda5c517cf6c22a5a7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 91/92] fix: FMU writer: solution of a linear system that is an
 output or a derivative is stored in its elements

---
 symbolics/writer/CWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index c630051..eb4d11b 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -441,7 +441,14 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << der << m_p->print(target) << ");" << std::endl;
+				std::string result = der + m_p->print(target);
+				// elements which are not stored as an array (FMU) get their values one by one
+				bool scattered = (it->lhs[i]->getType() == Type_Matrix) && (m_p->print(it->lhs[i]->getArg(0)) != result + "[0]");
+				if (scattered)
+					s << "        double solve_x[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << (scattered ? "solve_x" : result) << ");" << std::endl;
+				for (size_t k=0; scattered && (k < dim); ++k)
+					s << "        " << m_p->print(it->lhs[i]->getArg(k)) << " = solve_x[" << k << "];" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
-- 
2.43.0


From 4d688b69e8ce7a724b19c4d7d8a43e40d70168db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 92/92] fix: Matlab writer: the symbolic sensors file assigns
 sensors in the order in which they are needed

---
 symbolics/writer/MatlabWriter.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 7a3e06b..73a9d15 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -478,13 +478,8 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	}
 	f << std::endl;
 
-	f << "% Equations" << std::endl;
-	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT | SENSOR )) << std::endl;
-
-	f << "% Sensors" << std::endl;
-    for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-        f << "	" << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << " " << m_p->comment2(g,*it) << std::endl;
-	f << std::endl;
+	f << "% Equations and Sensors" << std::endl;
+	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
 
 	f << "% Struct including sensor-values" << std::endl;
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
-- 
2.43.0

