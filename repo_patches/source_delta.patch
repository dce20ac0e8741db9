From a39b18f2257f5b724e78e1403fcb8ae0b5fd5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:06 +0000
Subject: [PATCH 01/61] fix: do not read past the end of the row map when
 expanding a block matrix

---
 src/PlatoMathHelpers.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..ed5045c 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -210,7 +210,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the last entry of the row map has no successor
+            auto tTo   = (tLocalRowIndex == 0) ? tFrom : tRowMap(tBlockRowIndex+1);
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -221,7 +222,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the last entry of the row map has no successor
+            auto tTo   = (tLocalRowIndex == 0) ? tFrom : tRowMap(tBlockRowIndex+1);
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From a533619c1114c1aa39cf31948a677cf3f9dc93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:51 +0000
Subject: [PATCH 02/61] fix: lift prescribed values with the eliminated column,
 not its transpose

---
 src/ApplyConstraints.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index a33dcfb..c3ec9bd 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -47,9 +47,6 @@ template<int NumDofPerNode>
                 }
                 else
                 {
-                    // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-                    // to maintain symmetry
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tEntryOrdinal)*tValue);
                     tMatrixEntries(tEntryOrdinal) = 0.0;
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
@@ -61,7 +58,9 @@ template<int NumDofPerNode>
                         auto tColRowDofOrdinal = NumDofPerNode*tColRowNodeOrdinal+tLocalRowDofOrdinal;
                         if (tColRowDofOrdinal == tRowDofOrdinal)
                         {
-                            // this is the (col, row) entry -- clear it, too
+                            // this is the (col, row) entry -- clear it, too, to maintain symmetry, and
+                            // correct the rhs to account for the fact that it no longer is in the matrix
+                            Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tColRowEntryOrdinal)*tValue);
                             tMatrixEntries(tColRowEntryOrdinal) = 0.0;
                         }
                     }
@@ -114,9 +113,6 @@ applyConstraints(
       }
       else
       {
-        // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-        // to maintain symmetry
-        Kokkos::atomic_add(&rhs(column), -matrixEntries(entryOrdinal)*value);
         matrixEntries(entryOrdinal) = 0.0;
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
@@ -125,7 +121,9 @@ applyConstraints(
           OrdinalType colRowColumn = columnIndices(colRowEntryOrdinal);
           if (colRowColumn == nodeNumber)
           {
-            // this is the (col, row) entry -- clear it, too
+            // this is the (col, row) entry -- clear it, too, to maintain symmetry, and
+            // correct the rhs to account for the fact that it no longer is in the matrix
+            Kokkos::atomic_add(&rhs(column), -matrixEntries(colRowEntryOrdinal)*value);
             matrixEntries(colRowEntryOrdinal) = 0.0;
           }
         }
-- 
2.43.0


From 473c1b5cef62aa56e801213e2ba282ffb4b34443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:14 +0000
Subject: [PATCH 03/61] fix: fill only the listed ordinals, whatever the length
 of the output vector

---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From 88c843d4aa047c3003f16d9440e796f20fbea1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 04/61] fix: treat the arguments of pow as complete expressions

---
 src/ExpressionEvaluator.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..e518fea 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -503,6 +503,9 @@ void ExpressionEvaluator::parse_expression( const char* expression )
   std::vector< int > openAbsBarLocations;        // Location in the expression
   std::vector< int > openParenLocations;         // Location in the expression
 
+  // Number of open '(' when a two parameter function was found
+  std::vector< size_t > twoParamFunctionDepths;
+
   // Stacks for tracking functions and operands.
   std::vector< NodeID > twoParamFunctionIDs; // Two parameter functions; 'pow'
   std::vector< int >    numOpenParens;       // Number of open '(' on the stack
@@ -569,6 +572,15 @@ void ExpressionEvaluator::parse_expression( const char* expression )
                  << "a close absolute value bar '|'.";
         break;
       }
+      // When closing a two parameter function make sure both are there
+      else if( twoParamFunctionDepths.size() &&
+               twoParamFunctionDepths.back() + 1 == openParenLocations.size() )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Found a close parenthesis ')' before "
+                 << "the comma ',' of a two parameter function.";
+        break;
+      }
       else
       {
         // Number of open parenthesis relative to open absolute value bar.
@@ -708,6 +720,15 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
+      twoParamFunctionDepths.push_back( openParenLocations.size() );
+
+      // The parameters must follow, in parentheses.
+      if( expPtr[strspn(expPtr, " \t\r\n")] != '(' )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Found a two parameter function without its parameters.";
+        break;
+      }
 
       continue;
     }
@@ -715,11 +736,16 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // When a comma is found pop the last function from the stack and
     // make the corresponding node.
     else if( c == ',' ) {
-      if( twoParamFunctionIDs.size() )
+      // The comma must be directly inside the function's parentheses.
+      if( twoParamFunctionIDs.size() && numOpenAbsBars.back() == 0 &&
+          twoParamFunctionDepths.back() + 1 == openParenLocations.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        // Both parameters are complete expressions so any operation in
+        // them binds stronger.
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
+        twoParamFunctionDepths.pop_back();
       }
       else
       {
-- 
2.43.0


From 5f21e939a0bcd57403d3762d7b55bd1738e7cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 05/61] fix: recognise functions and constants in expressions
 as whole words only

---
 src/ExpressionEvaluator.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index e518fea..f237e32 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -467,6 +467,17 @@ ExpressionEvaluator::insert_node_item(       Node* current,
   return current;
 }
 
+// ************************************************************************* //
+// Helper function: true if the text starts with the word and the word ends there,
+// i.e., it is not just the beginning of a longer (variable) name.
+static bool isWord( const char* text, const char* word )
+{
+  const size_t length = strlen(word);
+
+  return strncmp(text, word, length) == 0 &&
+         !isalnum((unsigned char) text[length]) && text[length] != '_';
+}
+
 // ************************************************************************* //
 // Parse the expression.
 void ExpressionEvaluator::parse_expression( const char* expression )
@@ -684,32 +695,32 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     }
 
     // Functions
-    else if( 0 == memcmp(expPtr-1, "sin" , 3) ) {
+    else if( isWord(expPtr-1, "sin") ) {
       expPtr += 3-1;
       node.ID = SIN;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "cos" , 3) ) {
+    else if( isWord(expPtr-1, "cos") ) {
       expPtr += 3-1;
       node.ID = COS;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "tan" , 3) ) {
+    else if( isWord(expPtr-1, "tan") ) {
       expPtr += 3-1;
       node.ID = TAN;  node.precedence = 7;  info = LeftAssociative;
     }
 
-    else if( 0 == memcmp(expPtr-1, "exp" , 3) ) {
+    else if( isWord(expPtr-1, "exp") ) {
       expPtr += 3-1;
       node.ID = EXPONENTIAL;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "log" , 3) ) {
+    else if( isWord(expPtr-1, "log") ) {
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( isWord(expPtr-1, "sqrt") ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "abs" , 3) ) {
+    else if( isWord(expPtr-1, "abs") ) {
       expPtr += 3-1;
       node.ID = ABS;  node.precedence = 7;  info = LeftAssociative;
     }
@@ -717,7 +728,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // For two argument functions push the function on to the next ID
     // stack. But do not create a node. The node will be created when
     // the corresponding comma is found.
-    else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
+    else if( isWord(expPtr-1, "pow") ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
       twoParamFunctionDepths.push_back( openParenLocations.size() );
@@ -755,7 +766,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       }
     }
     // Fixed constant
-    else if( 0 == memcmp(expPtr-1, "PI"  , 2) ) {
+    else if( isWord(expPtr-1, "PI") ) {
       expPtr += 2-1;
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
       node.number = M_PI;
-- 
2.43.0


From 7e4bfba99b06137ece675be012177affd12f3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 06/61] fix: reject malformed numbers in expressions

---
 src/ExpressionEvaluator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index f237e32..1cff67c 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -830,7 +830,16 @@ void ExpressionEvaluator::parse_expression( const char* expression )
 
       // Get the actual number from the string.
       number[i] = '\0';
-      sscanf(number, "%lf", &node.number);
+      char* end = nullptr;
+      node.number = strtod(number, &end);
+
+      if( *end != '\0' )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Invalid number '" << number << "'.";
+        break;
+      }
+
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
     }
 
-- 
2.43.0


From dcaf7a337276a6d5a4971680ec16d009d45829fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 07/61] fix: do not return the last Bingo equation for an index
 past the end

---
 src/CustomMaterial.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CustomMaterial.cpp b/src/CustomMaterial.cpp
index f8c3a23..bf2b661 100644
--- a/src/CustomMaterial.cpp
+++ b/src/CustomMaterial.cpp
@@ -90,10 +90,11 @@ CustomMaterial::GetCustomExpressionValue(
           line.clear();
 
           // Read the equation requested, default is the first.
-          while( std::getline(infile, line) && equationIndex > 0)
+          bool haveLine;
+          while( (haveLine = bool(std::getline(infile, line))) && equationIndex > 0)
             --equationIndex;
 
-          if( line.empty() || equationIndex != 0 )
+          if( !haveLine || line.empty() || equationIndex != 0 )
           {
             THROWERR( "Cannot find Bingo equation requested." );
           }
-- 
2.43.0


From 079d54896aa76ca14b555582307cef894a416834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 08/61] fix: keep Bingo equations that contain a comma

---
 src/CustomMaterial.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CustomMaterial.cpp b/src/CustomMaterial.cpp
index bf2b661..f921e11 100644
--- a/src/CustomMaterial.cpp
+++ b/src/CustomMaterial.cpp
@@ -99,8 +99,13 @@ CustomMaterial::GetCustomExpressionValue(
             THROWERR( "Cannot find Bingo equation requested." );
           }
 
-          // Find the last comma delimiter.
-          size_t found = line.find_last_of( "," );
+          // Find the second comma delimiter, the equation may have commas too.
+          size_t found = line.find( "," );
+
+          if( found != std::string::npos )
+          {
+            found = line.find( ",", found + 1 );
+          }
 
           if( found != std::string::npos )
           {
-- 
2.43.0


From a01a2608a8f9b62d9e2fd6cc1854dcef2aa6f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:13 +0000
Subject: [PATCH 09/61] fix: divide by (1+v)(1-2v) in the one-dimensional
 temperature dependent isotropic stiffness

The constant stiffness and the two- and three-dimensional functors divide; the
one-dimensional functor multiplied, and took a missing 'c0' as zero stiffness.
---
 src/IsotropicStiffness.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..fbd2722 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -10,13 +10,15 @@ namespace Plato {
       auto tYoungsModParams = aParams.sublist("Youngs Modulus");
       T v = Plato::ParseTools::getParam<T>(aParams, "Poissons Ratio"); /*throw if not found*/
 
-      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0", 0.0);
+      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0"); /*throw if not found*/
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      T c = 1.0/((1.0+v)*(1.0-2.0*v));
+
+      c0[0][0] = E0*c*(1.0-v);
+      c1[0][0] = E1*c*(1.0-v);
+      c2[0][0] = E2*c*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 03efbdedeefe583c026ddfe2504e22ffdc7bd875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:13 +0000
Subject: [PATCH 10/61] fix: honour the model type and the anisotropic form of
 'Elastic Stiffness' in thermoelastic materials

A temperature dependent model with a constant Young's modulus stored a constant
that its kinetics never read (zero stiffness); a linear model silently stored a
temperature dependent modulus it never read; and coefficients given in the
'Elastic Stiffness' list were looked for in a second list of that name inside it.
---
 src/ThermoelasticMaterial.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..a63776e 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,16 +45,34 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              std::stringstream err;
+              err << "Found a temperature dependent constant in a linear model." << std::endl;
+              err << "Models must be declared temperature dependent." << std::endl;
+              err << "Set Parameter 'temperature dependent' to 'true'." << std::endl;
+              THROWERR(err.str());
+          }
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
       if (tParams.isType<Plato::Scalar>("Youngs Modulus"))
       {
-          this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          if (this->type() == Plato::MaterialModelType::Nonlinear)
+          {
+              auto tYoungsModulus = tParams.get<Plato::Scalar>("Youngs Modulus");
+              tParams.remove("Youngs Modulus");
+              tParams.sublist("Youngs Modulus").set<Plato::Scalar>("c0", tYoungsModulus);
+              this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
+          }
+          else
+          {
+              this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          }
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From 1b09fca31e5b279fe8a7cbaad88c31cb35102f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 11/61] fix: principal values of plane tensors with negative
 shear were left unrotated

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 65dc18ecd3fb478527be44c05a05e59cd6e9a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 12/61] fix: tensor norms truncated their exponent to an
 integer but took the root with the exponent itself

---
 src/TensorPNorm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..e9c5dad 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From d50fd05fe0550485a14278b39dd5334067801f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 13/61] fix: an integer Barlat exponent was looked up as a
 floating-point number, which throws

---
 src/TensorPNorm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index e9c5dad..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
-- 
2.43.0


From 8cdffd6231ccde79c12db2c1cdf49ca0f57c0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:06 +0000
Subject: [PATCH 14/61] fix: the Barlat norm was not a number when two
 principal values coincide or the stress is zero

---
 src/TensorPNorm.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 4f12d27..e9ccf10 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -118,6 +118,20 @@ class BarlatNormFunctor
     Plato::Scalar mCp[barlatLength][barlatLength];
     Plato::Scalar mCpp[barlatLength][barlatLength];
 
+    // |Q| <= P^(3/2) up to round-off; at the limits two principal values coincide
+    template<typename ScalarType>
+    DEVICE_TYPE inline ScalarType lodeAngle(const ScalarType & aQ, const ScalarType & aP) const
+    {
+        if(aP <= 0.0)
+            return ScalarType(0.0);
+        ScalarType tRatio = aQ / pow(aP, 3.0 / 2.0);
+        if(tRatio >= 1.0)
+            return ScalarType(0.0);
+        if(tRatio <= -1.0)
+            return ScalarType(acos(-1.0));
+        return ScalarType(acos(tRatio));
+    }
+
 public:
 
     BarlatNormFunctor(Teuchos::ParameterList& params) :
@@ -235,22 +249,22 @@ public:
         if(Hp1 * Hp1 + Hp2 > 0.0)
             Pp = Hp1 * Hp1 + Hp2;
         TensorScalarType Qp = (2.0 * Hp1 * Hp1 * Hp1 + 3.0 * Hp1 * Hp2 + 2.0 * Hp3) / 2.0;
-        TensorScalarType Thetap = acos(Qp / pow(Pp, 3.0 / 2.0));
+        TensorScalarType Thetap = lodeAngle(Qp, Pp);
 
         TensorScalarType Ppp = 0.0;
         if(Hpp1 * Hpp1 + Hpp2 > 0.0)
             Ppp = Hpp1 * Hpp1 + Hpp2;
         TensorScalarType Qpp = (2.0 * Hpp1 * Hpp1 * Hpp1 + 3.0 * Hpp1 * Hpp2 + 2.0 * Hpp3) / 2.0;
-        TensorScalarType Thetapp = acos(Qpp / pow(Ppp, 3.0 / 2.0));
+        TensorScalarType Thetapp = lodeAngle(Qpp, Ppp);
 
         //Apply the analytic solutions for the SVD stress deviators
-        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos(Thetap / 3.0));
-        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Pp) * cos(Thetap / 3.0));
+        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
 
-        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos(Thetapp / 3.0));
-        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Ppp) * cos(Thetapp / 3.0));
+        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
 
         //Apply the Barlat yield function to get effective response.
         pnorm(cellOrdinal) = pow((pow(Sp1 - Spp1, mBarlatExponent) + pow(Sp1 - Spp2, mBarlatExponent)
-- 
2.43.0


From e993e900eea1d67f37eb6d5ea933066a1f6c303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 15/61] fix: the one-dimensional Voigt map named a direction
 that does not exist

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From 774ca668c11f605754745ea7bfc42e7f27cd4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:33 +0000
Subject: [PATCH 16/61] fix: setting penalty parameters dereferenced the end of
 the map when a parameter was absent

---
 src/Heaviside.hpp | 20 ++++++++++++++++----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..82e4a15 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1.0; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From 7d6c0b9911f443f92566b6aa7926005ccebefc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:33 +0000
Subject: [PATCH 17/61] fix: the regularization length of the Heaviside penalty
 was assigned to the minimum value

---
 src/Heaviside.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 82e4a15..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -96,11 +96,11 @@ public:
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
         }
         else
         {
-            mMinValue = tParamMapIterator->second;
+            mRegLength = tParamMapIterator->second;
         }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
-- 
2.43.0


From aea89bc54dce220a44e3c2ecc07349302f7a15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 18/61] fix: Newton solve for the chamber pressure diverges to
 NaN when the reference pressure is far below the solution

---
 src/Plato_AlgebraicRocketModel.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Plato_AlgebraicRocketModel.hpp b/src/Plato_AlgebraicRocketModel.hpp
index 076a4f1..b51c6be 100644
--- a/src/Plato_AlgebraicRocketModel.hpp
+++ b/src/Plato_AlgebraicRocketModel.hpp
@@ -341,6 +341,11 @@ private:
             Plato::Scalar tMyResidualEvaluation = this->residual(aRefMassProductionRate, tNewTotalPressure, aThroatArea);
             Plato::Scalar tMyJacobianEvaluation = this->jacobian(aRefMassProductionRate, tNewTotalPressure, aThroatArea);
             Plato::Scalar tDeltaPressure = (static_cast<Plato::Scalar>(-1.0) * tMyResidualEvaluation) / tMyJacobianEvaluation;
+            if(mAlpha < static_cast<Plato::Scalar>(1.0) && tMyJacobianEvaluation >= static_cast<Plato::Scalar>(0.0))
+            {
+                // below the maximum of the (concave) residual a Newton step leads to negative pressures; the root lies above
+                tDeltaPressure = tNewTotalPressure;
+            }
             tNewTotalPressure += tDeltaPressure;
 
             mNumNewtonItr += static_cast<size_t>(1);
-- 
2.43.0


From e6d3d1ea724db8980f062ab22d95f3c3ac0abff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 19/61] fix: the coupling scale Alpha of 1D and 2D
 electroelastic materials was read as a boolean

---
 src/LinearElectroelasticMaterial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearElectroelasticMaterial.cpp b/src/LinearElectroelasticMaterial.cpp
index 0a69c58..ccabbd7 100644
--- a/src/LinearElectroelasticMaterial.cpp
+++ b/src/LinearElectroelasticMaterial.cpp
@@ -10,7 +10,7 @@ LinearElectroelasticMaterial<1>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
@@ -30,7 +30,7 @@ LinearElectroelasticMaterial<2>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
-- 
2.43.0


From 734b12a2d4867b58f134aa11459338fb8cbc4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 20/61] fix: the mass density given for a cubic elastic
 material was ignored

---
 src/CubicLinearElasticMaterial.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/CubicLinearElasticMaterial.cpp b/src/CubicLinearElasticMaterial.cpp
index 3b3eed7..0f54b4a 100644
--- a/src/CubicLinearElasticMaterial.cpp
+++ b/src/CubicLinearElasticMaterial.cpp
@@ -19,6 +19,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
 {
     Plato::Scalar tC11 = paramList.get<Plato::Scalar>("C11");
     mCellStiffness(0, 0) = tC11;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -38,6 +43,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(1, 0) = tC12;
     mCellStiffness(1, 1) = tC11;
     mCellStiffness(2, 2) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -64,6 +74,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(3, 3) = tC44;
     mCellStiffness(4, 4) = tC44;
     mCellStiffness(5, 5) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 }
-- 
2.43.0


From f6ffae7057491398ebddd9fcbc41950878f18be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:25 +0000
Subject: [PATCH 21/61] fix: the weights of side loads kept references to
 expired automatic-differentiation temporaries

In two and three dimensions ComputeSurfaceIntegralWeight held products of
differentiated Jacobian entries in 'auto' variables.  The products are
expression templates that refer to temporaries, so the derivative of a side
load in the node positions was garbage (NaN here).  Evaluate them.
---
 src/NaturalBCUtilities.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 3c2cc83..45a37db 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -299,8 +299,8 @@ ComputeSurfaceIntegralWeight<2>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
-    auto tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
+    const ConfigScalarType tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
+    const ConfigScalarType tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
     aOutput = aMultiplier * sqrt( tJ11 + tJ12 );
 }
 // class ComputeSurfaceIntegralWeight<2>::operator()
@@ -317,9 +317,9 @@ ComputeSurfaceIntegralWeight<3>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
-    auto tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
-    auto tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+    const ConfigScalarType tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    const ConfigScalarType tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    const ConfigScalarType tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
     aOutput = aMultiplier * sqrt(tJ23*tJ23 + tJ31*tJ31 + tJ12*tJ12);
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
-- 
2.43.0


From 42e566a9b2a2bc5b5974fb52a350319bcbc37db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:02 +0000
Subject: [PATCH 22/61] fix: a uniform component outside the components of a
 side load was written past its vector

Coupled physics load some of the degrees of freedom of a node (the
displacements, or the temperature or potential), but the component was
checked against all of them: component y of a thermal load, say, wrote past
the end of a vector of one entry.  Reject it as any other unknown component.
---
 src/NaturalBCs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NaturalBCs.hpp b/src/NaturalBCs.hpp
index 43a3665..1ab2059 100644
--- a/src/NaturalBCs.hpp
+++ b/src/NaturalBCs.hpp
@@ -279,12 +279,12 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformComponentNatu
         tFluxVector[0] = tValue;
     }
     else
-    if( (tFluxComponent == "y" || tFluxComponent == "Y") && DofsPerNode > 1 )
+    if( (tFluxComponent == "y" || tFluxComponent == "Y") && NumDofs > 1 )
     {
         tFluxVector[1] = tValue;
     }
     else
-    if( (tFluxComponent == "z" || tFluxComponent == "Z") && DofsPerNode > 2 )
+    if( (tFluxComponent == "z" || tFluxComponent == "Z") && NumDofs > 2 )
     {
         tFluxVector[2] = tValue;
     }
-- 
2.43.0


From 7c764764aa12aa3ce618ee0010890dcbec2efb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:02 +0000
Subject: [PATCH 23/61] fix: electric field and displacement were output as
 strain and stress

The electroelastic residual stored the strain under 'efield' and the stress
under 'edisp', and looked for 'Plottable' in a list that no input has; the
other elliptic residuals read it from 'Elliptic'.
---
 src/elliptic/ElectroelastostaticResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index e4fcf39..e8c39ea 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -118,7 +118,7 @@ public:
                 (aProblemParams.sublist("Electrical Natural Boundary Conditions"));
         }
   
-        auto tResidualParams = aProblemParams.sublist("Electroelastostatics");
+        auto tResidualParams = aProblemParams.sublist("Elliptic");
         if( tResidualParams.isType<Teuchos::Array<std::string>>("Plottable") )
         {
             mPlottable = tResidualParams.get<Teuchos::Array<std::string>>("Plottable").toVector();
@@ -194,9 +194,9 @@ public:
       }
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, strain, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, strain, "efield", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, efield, "efield", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, stress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, stress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, edisp,  "edisp" , mSpatialDomain);
 
     }
     /**************************************************************************/
-- 
2.43.0


From fe7db8cf02c87c7b2c72c341c5339764dd834b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 24/61] fix: an unknown penalty type of a mechanical residual
 or criterion was not reported

The factories returned a null pointer, which the first evaluation
dereferenced; the thermal, thermomechanical and electromechanical ones throw.
---
 src/Mechanics.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Mechanics.hpp b/src/Mechanics.hpp
index 3dcfab2..4fc607d 100644
--- a/src/Mechanics.hpp
+++ b/src/Mechanics.hpp
@@ -107,6 +107,10 @@ elastostatics_residual(
         tOutput = std::make_shared<Plato::Elliptic::ElastostaticResidual<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList")
+    }
     return (tOutput);
 }
 // function elastostatics_residual
@@ -225,6 +229,10 @@ internal_elastic_energy(
         tOutput = std::make_shared<Plato::Elliptic::InternalElasticEnergy<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList")
+    }
     return (tOutput);
 }
 // function internal_elastic_energy
@@ -271,6 +279,10 @@ stress_p_norm(
         tOutput = std::make_shared<Plato::Elliptic::StressPNorm<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList")
+    }
     return (tOutput);
 }
 // function stress_p_norm
@@ -317,6 +329,10 @@ effective_energy(
         tOutput = std::make_shared<Plato::Elliptic::EffectiveEnergy<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList")
+    }
     return (tOutput);
 }
 // function effective_energy
-- 
2.43.0


From 6c486f2027a8131ff5bb064a4ec4e572b479ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 25/61] fix: elliptic least squares criterion reads its input
 from the list Criteria

---
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index ceb9b70..3744797 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -62,7 +62,7 @@ private:
         mFunctionGoldValues.clear();
         mFunctionNormalization.clear();
 
-        auto tFunctionParams = aProblemParams.sublist("Criterial").sublist(mFunctionName);
+        auto tFunctionParams = aProblemParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tFunctionNamesArray = tFunctionParams.get<Teuchos::Array<std::string>>("Functions");
         auto tFunctionWeightsArray = tFunctionParams.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 1c9e9230113e43926d22a346c1d30c80734ec6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 26/61] fix: elliptic mass properties criterion reads its input
 and the densities from the lists that hold them

---
 src/elliptic/MassPropertiesFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/MassPropertiesFunction.hpp b/src/elliptic/MassPropertiesFunction.hpp
index 13f5f30..8b6255c 100644
--- a/src/elliptic/MassPropertiesFunction.hpp
+++ b/src/elliptic/MassPropertiesFunction.hpp
@@ -75,7 +75,7 @@ private:
             auto tMaterialModelsInputs = aInputParams.get<Teuchos::ParameterList>("Material Models");
             if( tMaterialModelsInputs.isSublist(tDomain.getMaterialName()) )
             {
-                auto tMaterialModelInputs = aInputParams.sublist(tDomain.getMaterialName());
+                auto tMaterialModelInputs = tMaterialModelsInputs.sublist(tDomain.getMaterialName());
                 mMaterialDensities[tName] = tMaterialModelInputs.get<Plato::Scalar>("Density", 1.0);
             }
         }
@@ -93,7 +93,7 @@ private:
               Teuchos::ParameterList & aInputParams
     )
     {
-        auto tProblemFunctionName = aInputParams.sublist(mFunctionName);
+        auto tProblemFunctionName = aInputParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tPropertyNamesTeuchos      = tProblemFunctionName.get<Teuchos::Array<std::string>>("Properties");
         auto tPropertyWeightsTeuchos    = tProblemFunctionName.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From ea7fe1b798034460ac83db74f581e98ae7e803d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 27/61] fix: intermediate density penalty reads its input from
 the list Criteria

---
 src/IntermediateDensityPenalty.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IntermediateDensityPenalty.hpp b/src/IntermediateDensityPenalty.hpp
index 063db80..56fa2b6 100644
--- a/src/IntermediateDensityPenalty.hpp
+++ b/src/IntermediateDensityPenalty.hpp
@@ -48,7 +48,7 @@ class IntermediateDensityPenalty : public Plato::SimplexMechanics<EvaluationType
         mPenaltyAmplitude(1.0)
     /**************************************************************************/
     {
-        auto tInputs = aInputParams.get<Teuchos::ParameterList>(aFunctionName);
+        auto tInputs = aInputParams.sublist("Criteria").get<Teuchos::ParameterList>(aFunctionName);
         mPenaltyAmplitude = tInputs.get<Plato::Scalar>("Penalty Amplitude", 1.0);
     }
 
-- 
2.43.0


From 6d71034661e478f06b439ba2a7b4397ccebd51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 28/61] fix: composite criteria passed the time step for the
 step index when differentiating their parts

---
 src/elliptic/DivisionFunction.hpp     | 4 ++--
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 src/elliptic/WeightedSumFunction.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index b374667..7b2d76d 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -199,8 +199,8 @@ public:
         Plato::Scalar tNumeratorValue = mScalarFunctionBaseNumerator->value(aSolution, aControl, aTimeStep);
         Plato::Scalar tDenominatorValue = mScalarFunctionBaseDenominator->value(aSolution, aControl, aTimeStep);
 
-        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aTimeStep);
-        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aTimeStep);
+        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
+        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
         Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
         {
             tGradientU(tDof) = (tNumeratorGradU(tDof) * tDenominatorValue - 
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index 3744797..a5e2c60 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -295,7 +295,7 @@ public:
                 const Plato::Scalar tFunctionGoldValue = mFunctionGoldValues[tFunctionIndex];
                 const Plato::Scalar tFunctionScale = mFunctionNormalization[tFunctionIndex];
                 Plato::Scalar tFunctionValue = mScalarFunctionBaseContainer[tFunctionIndex]->value(aSolution, aControl, aTimeStep);
-                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
                 Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
                 {
                     tGradientU(tDof) += 2.0 * tFunctionWeight * (tFunctionValue - tFunctionGoldValue) 
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index bde46ce..afb1cdf 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -222,7 +222,7 @@ public:
         for (Plato::OrdinalType tFunctionIndex = 0; tFunctionIndex < mScalarFunctionBaseContainer.size(); ++tFunctionIndex)
         {
             const Plato::Scalar tFunctionWeight = mFunctionWeights[tFunctionIndex];
-            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
             Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
             {
                 tGradientU(tDof) += tFunctionWeight * tFunctionGradU(tDof);
-- 
2.43.0


From 26822dc4d3d24934ed9d8fad6adf9e671d5db207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 29/61] fix: the adjoint of a shape derivative used the
 untransposed operator and the Dirichlet values of the state

---
 src/elliptic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index 8787000..c07eb46 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -537,8 +537,8 @@ public:
             Plato::blas1::scale(static_cast<Plato::Scalar>(-1), tPartialCriterionWRT_State);
 
             // compute dgdu: partial of PDE wrt state
-            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);
-            this->applyStateConstraints(mJacobian, tPartialCriterionWRT_State, 1.0);
+            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);
+            this->applyAdjointConstraints(mJacobian, tPartialCriterionWRT_State);
 
             // adjoint problem uses transpose of global stiffness, but we're assuming the constrained
             // system is symmetric.
-- 
2.43.0


From 496e56a564f0ccb12a2338ea5b385c12c2b2cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 30/61] fix: an unknown scalar function type of a mechanical
 criterion was not reported

---
 src/Mechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mechanics.hpp b/src/Mechanics.hpp
index 4fc607d..91f7d16 100644
--- a/src/Mechanics.hpp
+++ b/src/Mechanics.hpp
@@ -459,7 +459,7 @@ struct FunctionFactory
         }
         else
         {
-            return nullptr;
+            THROWERR("Unknown 'Scalar Function Type' specified in 'Criteria' ParameterList")
         }
     }
 
-- 
2.43.0


From b5043682b956920c932150fcd30a9b1c500f21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 31/61] fix: the electroelastic energy put out the stress as
 electric displacement

---
 src/elliptic/InternalElectroelasticEnergy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/InternalElectroelasticEnergy.hpp b/src/elliptic/InternalElectroelasticEnergy.hpp
index 2806db0..b41b912 100644
--- a/src/elliptic/InternalElectroelasticEnergy.hpp
+++ b/src/elliptic/InternalElectroelasticEnergy.hpp
@@ -161,7 +161,7 @@ class InternalElectroelasticEnergy :
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tStress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tEdisp, "edisp" , mSpatialDomain);
 
     }
 };
-- 
2.43.0


From 94fbdb9bb20be0c75a6123ca5972186920357423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:19 +0000
Subject: [PATCH 32/61] fix: thermal criteria used an unset conductivity when
 it depends on temperature

---
 src/elliptic/FluxPNorm.hpp             | 11 ++++++++++-
 src/elliptic/InternalThermalEnergy.hpp | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..38bb5b5 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -5,6 +5,7 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "VectorPNorm.hpp"
 #include "SimplexThermal.hpp"
 #include "ApplyWeighting.hpp"
@@ -37,6 +38,7 @@ class FluxPNorm :
     
     using Plato::Simplex<SpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<SpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode;
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -109,7 +111,13 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", numCells);
+
+      Plato::InterpolateFromNodal<SpaceDim, mNumDofsPerNode> interpolateFromNodal;
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto tBasisFunctions   = mCubatureRule->getBasisFunctions();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0,numCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -123,7 +131,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..40131cc 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -5,6 +5,8 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
@@ -40,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell; /*!< number of nodes per cell */
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell; /*!< number of degrees of freedom per cell */
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode; /*!< number of degrees of freedom per node */
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain; /*!< mesh database */
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap; /*!< PLATO Analyze database */
@@ -123,6 +126,13 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> tInterpolateFromNodal;
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
+      auto tBasisFunctions = tCubatureRule.getBasisFunctions();
+
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +146,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
-- 
2.43.0


From c0a6d35b82489cf3b00a787baaacfffdcb2a5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:19 +0000
Subject: [PATCH 33/61] fix: the exponent of the flux p-norm was cut to a whole
 number

---
 src/VectorPNorm.hpp        | 2 +-
 src/elliptic/FluxPNorm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VectorPNorm.hpp b/src/VectorPNorm.hpp
index 9966e6e..315af0f 100644
--- a/src/VectorPNorm.hpp
+++ b/src/VectorPNorm.hpp
@@ -22,7 +22,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType aCellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> aPnorm,
                                        Plato::ScalarMultiVectorT<VectorScalarType> aArgVector,
-                                       Plato::OrdinalType aPvalue,
+                                       Plato::Scalar aPvalue,
                                        Plato::ScalarVectorT<VolumeScalarType> aCellVolume) const
     {
 
diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 38bb5b5..7677e6b 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -54,7 +54,7 @@ class FluxPNorm :
     std::shared_ptr<Plato::LinearTetCubRuleDegreeOne<SpaceDim>> mCubatureRule;
     Teuchos::RCP<Plato::MaterialModel<SpaceDim>> mMaterialModel;
 
-    Plato::OrdinalType mExponent;
+    Plato::Scalar mExponent;
 
   public:
     /**************************************************************************/
-- 
2.43.0


From 42509c9cbed61ee193c60b52e3cebcd93391639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:19 +0000
Subject: [PATCH 34/61] fix: a boundary condition on a degree of freedom that a
 node does not have constrained another node

---
 src/EssentialBCs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/EssentialBCs.hpp b/src/EssentialBCs.hpp
index 809068e..dc7736c 100644
--- a/src/EssentialBCs.hpp
+++ b/src/EssentialBCs.hpp
@@ -34,6 +34,10 @@ public:
         mMathExpr(nullptr),
         mScaleFactor(aScaleFactor)
     {
+        if (dof < 0 || dof >= SimplexPhysicsType::mNumDofsPerNode)
+        {
+            THROWERR("Parameter 'Index' in Boundary Condition definition is not a degree of freedom of a node");
+        }
         if (aParam.isType<Plato::Scalar>("Value") && aParam.isType<std::string>("Function") )
         {
             THROWERR("Specify either 'Value' or 'Function' in Boundary Condition definition");
-- 
2.43.0


From c9431408c8de55e458394288151a3612c05df5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 35/61] fix: a composite criterion that names an undefined
 criterion crashed when it was evaluated

---
 src/elliptic/DivisionFunction.hpp      | 7 +++++++
 src/elliptic/LeastSquaresFunction.hpp  | 6 ++++++
 src/elliptic/WeightedSumFunction.hpp   | 6 ++++++
 src/geometric/DivisionFunction.hpp     | 7 +++++++
 src/geometric/LeastSquaresFunction.hpp | 6 ++++++
 src/geometric/WeightedSumFunction.hpp  | 6 ++++++
 6 files changed, 38 insertions(+)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index 7b2d76d..83f22d7 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -58,6 +58,13 @@ private:
 
         mScalarFunctionBaseDenominator = 
              tFactory.create(mSpatialModel, mDataMap, aProblemParams, tDenominatorFunctionName);
+
+        if (mScalarFunctionBaseNumerator == nullptr || mScalarFunctionBaseDenominator == nullptr)
+        {
+            const std::string tErrorString = std::string("'Numerator' or 'Denominator' in '") + mFunctionName + 
+                                             "' parameter list is not a defined function";
+            THROWERR(tErrorString)
+        }
     }
 
 public:
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index a5e2c60..0afd545 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -91,6 +91,12 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                const std::string tErrorString = std::string("Function '") + tFunctionNames[tFunctionIndex] + 
+                                                 "' in '" + mFunctionName + "' parameter list is not defined";
+                THROWERR(tErrorString)
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
 
             appendGoldFunctionValue(tFunctionGoldValues[tFunctionIndex]);
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index afb1cdf..6b8836f 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -83,6 +83,12 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                const std::string tErrorString = std::string("Function '") + tFunctionNames[tFunctionIndex] + 
+                                                 "' in '" + mFunctionName + "' parameter list is not defined";
+                THROWERR(tErrorString)
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
         }
 
diff --git a/src/geometric/DivisionFunction.hpp b/src/geometric/DivisionFunction.hpp
index d7ebc01..ece8974 100644
--- a/src/geometric/DivisionFunction.hpp
+++ b/src/geometric/DivisionFunction.hpp
@@ -58,6 +58,13 @@ private:
 
         mScalarFunctionBaseDenominator = 
              tFactory.create(mSpatialModel, mDataMap, aProblemParams, tDenominatorFunctionName);
+
+        if (mScalarFunctionBaseNumerator == nullptr || mScalarFunctionBaseDenominator == nullptr)
+        {
+            const std::string tErrorString = std::string("'Numerator' or 'Denominator' in '") + mFunctionName + 
+                                             "' parameter list is not a defined function";
+            THROWERR(tErrorString)
+        }
     }
 
 public:
diff --git a/src/geometric/LeastSquaresFunction.hpp b/src/geometric/LeastSquaresFunction.hpp
index 46bb73e..e5c57db 100644
--- a/src/geometric/LeastSquaresFunction.hpp
+++ b/src/geometric/LeastSquaresFunction.hpp
@@ -90,6 +90,12 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                const std::string tErrorString = std::string("Function '") + tFunctionNames[tFunctionIndex] + 
+                                                 "' in '" + mFunctionName + "' parameter list is not defined";
+                THROWERR(tErrorString)
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
 
             appendGoldFunctionValue(tFunctionGoldValues[tFunctionIndex]);
diff --git a/src/geometric/WeightedSumFunction.hpp b/src/geometric/WeightedSumFunction.hpp
index 0b3c963..555707e 100644
--- a/src/geometric/WeightedSumFunction.hpp
+++ b/src/geometric/WeightedSumFunction.hpp
@@ -78,6 +78,12 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                const std::string tErrorString = std::string("Function '") + tFunctionNames[tFunctionIndex] + 
+                                                 "' in '" + mFunctionName + "' parameter list is not defined";
+                THROWERR(tErrorString)
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
         }
 
-- 
2.43.0


From 18f0b18a258c69a28791efe60734ccee033238b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 36/61] fix: prescribed values were ignored where nothing else
 loads the model and a residual tolerance was given

---
 src/elliptic/Problem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index c07eb46..d443cf2 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -270,7 +270,8 @@ public:
             mResidual = mPDE->value(tStatesSubView, aControl);
             Plato::blas1::scale(-1.0, mResidual);
 
-            if (mNumNewtonSteps > 1) {
+            // the first step also imposes the essential boundary conditions, so it is never skipped
+            if (mNumNewtonSteps > 1 && tNewtonIndex > 0) {
                 auto tResidualNorm = Plato::blas1::norm(mResidual);
                 std::cout << " Residual norm: " << tResidualNorm << std::endl;
                 if (tResidualNorm < mNewtonResTol) {
-- 
2.43.0


From 1609153393f929d9c49cb50b2f864995314f3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 37/61] fix: the elliptic stress p-norm accounts for the
 reference strain of the material

---
 src/elliptic/StressPNorm.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/StressPNorm.hpp b/src/elliptic/StressPNorm.hpp
index 6c8779e..af7c239 100644
--- a/src/elliptic/StressPNorm.hpp
+++ b/src/elliptic/StressPNorm.hpp
@@ -43,7 +43,7 @@ class StressPNorm :
     using ConfigScalarType  = typename EvaluationType::ConfigScalarType;
     using ResultScalarType  = typename EvaluationType::ResultScalarType;
 
-    Omega_h::Matrix< mNumVoigtTerms, mNumVoigtTerms> mCellStiffness;
+    Teuchos::RCP<Plato::LinearElasticMaterial<SpaceDim>> mMaterialModel;
     
     Plato::Scalar mQuadratureWeight;
 
@@ -67,8 +67,7 @@ class StressPNorm :
     /**************************************************************************/
     {
       Plato::ElasticModelFactory<SpaceDim> mmfactory(aProblemParams);
-      auto materialModel = mmfactory.create(aSpatialDomain.getMaterialName());
-      mCellStiffness = materialModel->getStiffnessMatrix();
+      mMaterialModel = mmfactory.create(aSpatialDomain.getMaterialName());
 
 //TODO quadrature
       mQuadratureWeight = 1.0; // for a 1-point quadrature rule for simplices
@@ -98,7 +97,7 @@ class StressPNorm :
 
       Plato::ComputeGradientWorkset<SpaceDim> computeGradient;
       Plato::Strain<SpaceDim>                        voigtStrain;
-      Plato::LinearStress<SpaceDim>                  voigtStress(mCellStiffness);
+      Plato::LinearStress<SpaceDim>                  voigtStress(mMaterialModel);
 
       using StrainScalarType = 
         typename Plato::fad_type_t<Plato::SimplexMechanics<EvaluationType::SpatialDim>,
-- 
2.43.0


From 68181f3286b6bee39fc501faaa57d32cdc411399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:43 +0000
Subject: [PATCH 38/61] fix: missing terms of the normal of a solution
 criterion were left unset instead of zero

---
 src/elliptic/SolutionFunction.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elliptic/SolutionFunction.hpp b/src/elliptic/SolutionFunction.hpp
index 9162333..5916eed 100644
--- a/src/elliptic/SolutionFunction.hpp
+++ b/src/elliptic/SolutionFunction.hpp
@@ -102,6 +102,10 @@ private:
                 {
                     mNormal[i] = tNormalArray[i];
                 }
+                for(int i=tNormalArray.size(); i<mNumDofsPerNode; i++)
+                {
+                    mNormal[i] = 0.0;
+                }
             }
             else
             {
-- 
2.43.0


From 0805c119b7fc9720ed04842745a91f4e0b5b8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 39/61] fix: solving a parabolic problem again added the
 prescribed values to those of the previous solution

---
 src/parabolic/Problem.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index f7d7027..85754f6 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -281,6 +281,15 @@ namespace Parabolic
         {
 
             mDataMap.clearStates();
+
+            // every solution starts from the initial state alone
+            for(Plato::OrdinalType tStepIndex = 1; tStepIndex < mNumSteps; tStepIndex++) {
+              Plato::ScalarVector tState    = Kokkos::subview(mState,    tStepIndex, Kokkos::ALL());
+              Plato::ScalarVector tStateDot = Kokkos::subview(mStateDot, tStepIndex, Kokkos::ALL());
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tState);
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tStateDot);
+            }
+
             Plato::ScalarVector tStateInit    = Kokkos::subview(mState,    /*StepIndex=*/0, Kokkos::ALL());
             Plato::ScalarVector tStateDotInit = Kokkos::subview(mStateDot, /*StepIndex=*/0, Kokkos::ALL());
             mResidual  = mPDEConstraint.value(tStateInit, tStateDotInit, aControl, mTimeStep);
-- 
2.43.0


From 5204573f0e79d4ff1ac14e20f3a03def84a8d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 40/61] fix: prescribed values were ignored in a parabolic time
 step that starts below the residual tolerance

---
 src/parabolic/Problem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 85754f6..37c76d1 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -327,7 +327,8 @@ namespace Parabolic
                   // R_{u,u^N} += R_{u,v^N} R_{v,u^N}
                   Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                  if (mNumNewtonSteps > 1) {
+                  // the first iteration also imposes the essential boundary conditions, so it is never skipped
+                  if (mNumNewtonSteps > 1 && tNewtonIndex > 0) {
                       auto tResidualNorm = Plato::blas1::norm(mResidual);
                       std::cout << " Residual norm: " << tResidualNorm << std::endl;
                       if (tResidualNorm < mNewtonResTol) {
-- 
2.43.0


From 4037f693748f943f09c31655631b6894c3d4edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 41/61] fix: prescribed values entered the adjoint of parabolic
 problems

---
 src/parabolic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 37c76d1..5524b7f 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -570,7 +570,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -727,7 +727,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From 4cd0b80862922de0c7c5d7921b31029fd58c996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 42/61] fix: derivatives of parabolic criteria ignored the
 solution they were asked at

---
 src/parabolic/Problem.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 5524b7f..06fcaa2 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -515,24 +515,23 @@ namespace Parabolic
                 THROWERR("OBJECTIVE REQUESTED BUT NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mState, mStateDot);
 
             // F_{,z}
-            auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
+            auto t_dFdz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mState, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mStateDot, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
@@ -670,24 +669,23 @@ namespace Parabolic
                 THROWERR("OBJECTIVE REQUESTED BUT NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mState, mStateDot);
 
             // F_{,x}
-            auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
+            auto t_dFdx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mState, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mStateDot, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
-- 
2.43.0


From 02bfa37f047cc244d790e55d740161bf93d1ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:31 +0000
Subject: [PATCH 43/61] fix: an initial value for a variable that a parabolic
 problem does not have was written out of bounds

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 06fcaa2..27029b4 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -182,6 +182,10 @@ namespace Parabolic
                                tDofIndex = j;
                             }
                         }
+                        if (tDofIndex == -1)
+                        {
+                            THROWERR("Attempted to initialize state variable that doesn't exist.");
+                        }
                         mComputedFields->get(tFieldName, tDofIndex, tDofNames.size(), tInitialState);
                     }
                 }
-- 
2.43.0


From fbd1dd313d1fbc7d2da32605778e8577b3adb78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:59 +0000
Subject: [PATCH 44/61] fix: the adjoint of parabolic problems was solved with
 the untransposed Jacobian

---
 src/parabolic/Problem.hpp | 44 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 27029b4..f1c0144 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -268,6 +268,42 @@ namespace Parabolic
                 Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
         }
+        /******************************************************************************//**
+         * \brief Transpose a square matrix in place.  The graph of the matrix is the node graph of
+         *   the mesh, hence symmetric, so only the entries have to be exchanged.
+         * \param [in] aMatrix matrix to be transposed
+        **********************************************************************************/
+        void
+        transpose(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix
+        )
+        {
+            auto tRowMap = aMatrix->rowMap();
+            auto tColumns = aMatrix->columnIndices();
+            auto tEntries = aMatrix->entries();
+            Plato::ScalarVector tOriginal("original entries", tEntries.extent(0));
+            Kokkos::deep_copy(tOriginal, tEntries);
+            Kokkos::parallel_for(Kokkos::RangePolicy<Plato::OrdinalType>(0, tRowMap.extent(0) - 1), LAMBDA_EXPRESSION(Plato::OrdinalType aRow)
+            {
+                for(auto tEntry = tRowMap(aRow); tEntry < tRowMap(aRow+1); tEntry++)
+                {
+                    auto tCol = tColumns(tEntry);
+                    for(auto tOther = tRowMap(tCol); tOther < tRowMap(tCol+1); tOther++)
+                    {
+                        if(tColumns(tOther) != aRow) { continue; }
+                        for(Plato::OrdinalType tI = 0; tI < mNumDofsPerNode; tI++)
+                        {
+                            for(Plato::OrdinalType tJ = 0; tJ < mNumDofsPerNode; tJ++)
+                            {
+                                tEntries((tEntry*mNumDofsPerNode + tI)*mNumDofsPerNode + tJ) =
+                                    tOriginal((tOther*mNumDofsPerNode + tJ)*mNumDofsPerNode + tI);
+                            }
+                        }
+                    }
+                }
+            }, "transpose");
+        }
+
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
         /******************************************************************************//**
          * @brief Update physics-based parameters within optimization iterations
@@ -573,6 +609,10 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
+                // the adjoint equations have the transposed Jacobians
+                this->transpose(mJacobianU);
+                this->transpose(mJacobianV);
+
                 this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
@@ -729,6 +769,10 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
+                // the adjoint equations have the transposed Jacobians
+                this->transpose(mJacobianU);
+                this->transpose(mJacobianV);
+
                 this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
-- 
2.43.0


From a76142ccee59fca5360da67d4605ce6d66f788ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 45/61] fix: parabolic heat flux ignored the temperature
 dependence of the conductivity

---
 src/parabolic/HeatEquationResidual.hpp  |  6 +++---
 src/parabolic/InternalThermalEnergy.hpp | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..f0f2bd2 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -169,10 +170,9 @@ class HeatEquationResidual :
 
         // add capacitance terms
         
-        // compute temperature at gausspoints
+        // compute temperature rate at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..24377b9 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -3,6 +3,7 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
@@ -41,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode;
 
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -113,6 +115,12 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> interpolateFromNodal;
+      auto basisFunctions = mCubatureRule->getBasisFunctions();
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -126,7 +134,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From 6c23150908ee5f3e60f88e6b4c2bff37bd5e0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 46/61] fix: parabolic thermomechanical output of several
 domains kept only the last one

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 0ce015c..16f5c5b 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -229,8 +229,8 @@ class TransientThermomechResidual :
 
       },"stress and flux divergence");
 
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain"); }
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress"); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain", mSpatialDomain); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress", mSpatialDomain); }
     }
 
     /**************************************************************************/
-- 
2.43.0


From 2e8477b8cb4e6c261238ea9e2d2f781b078d1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 47/61] fix: initial values of transient problems in one and
 two dimensions were written to other nodes

---
 src/hyperbolic/ElastomechanicsResidual.hpp    | 10 ++++++++--
 src/parabolic/TransientThermomechResidual.hpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c08b870..0b3d157 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -68,6 +68,13 @@ class TransientMechanicsResidual :
 
     std::vector<std::string> mPlottable;
 
+    static std::vector<std::string> componentNames(const std::string & aName)
+    {
+        std::vector<std::string> tNames = {aName + " X", aName + " Y", aName + " Z"};
+        tNames.resize(SpaceDim);
+        return tNames;
+    }
+
   public:
     /**************************************************************************/
     TransientMechanicsResidual(
@@ -77,8 +84,7 @@ class TransientMechanicsResidual :
               Teuchos::ParameterList & aPenaltyParams
     ) :
         FunctionBaseType      (aSpatialDomain, aDataMap,
-                               {"Displacement X", "Displacement Y", "Displacement Z"},
-                               {"Velocity X",     "Velocity Y",     "Velocity Z"    }),
+                               componentNames("Displacement"), componentNames("Velocity")),
         mIndicatorFunction    (aPenaltyParams),
         mApplyStressWeighting (mIndicatorFunction),
         mApplyMassWeighting   (mIndicatorFunction),
diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 16f5c5b..7c4abe8 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -83,6 +83,14 @@ class TransientThermomechResidual :
 
     std::vector<std::string> mPlotTable;
 
+    static std::vector<std::string> dofNames()
+    {
+        std::vector<std::string> tNames = {"Displacement X", "Displacement Y", "Displacement Z"};
+        tNames.resize(SpaceDim);
+        tNames.push_back("Temperature");
+        return tNames;
+    }
+
   public:
     /**************************************************************************/
     TransientThermomechResidual(
@@ -91,7 +99,7 @@ class TransientThermomechResidual :
               Teuchos::ParameterList & aProblemParams,
               Teuchos::ParameterList & aPenaltyParams
      ) :
-         FunctionBaseType      (aSpatialDomain, aDataMap, {"Displacement X", "Displacement Y", "Displacement Z", "Temperature"}),
+         FunctionBaseType      (aSpatialDomain, aDataMap, dofNames()),
          mIndicatorFunction    (aPenaltyParams),
          mApplyStressWeighting (mIndicatorFunction),
          mApplyFluxWeighting   (mIndicatorFunction),
-- 
2.43.0


From 84307e6f40e4a0281e34c76a1c4cba692384d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 48/61] fix: the strain and velocity gradient that transient
 mechanics puts out were its stress

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index 0b3d157..5c73766 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -233,7 +233,7 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
@@ -339,8 +339,8 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tStress, "velgrad", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tVelGrad, "velgrad", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
-- 
2.43.0


From 805fbb07f7e3a6a6ea8a4c343c8f318f4327976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 49/61] fix: derivatives of hyperbolic criteria ignored the
 solution they were asked at

---
 src/hyperbolic/HyperbolicProblem.hpp | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 4e640f5..6790ea9 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -484,29 +484,28 @@ namespace Plato
                 THROWERR("REQUESTED CRITERION NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mDisplacement, mVelocity, mAcceleration);
 
             // F_{,z}
-            auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
+            auto t_dFdz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
-                auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mVelocity,     tStepIndex, Kokkos::ALL());
-                auto tA = Kokkos::subview(mAcceleration, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
+                auto tA = Kokkos::subview(aSolution.StateDotDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_A = Kokkos::subview(mAdjoints_A, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,a^k}
-                auto t_dFda = aCriterion->gradient_a(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFda = aCriterion->gradient_a(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
@@ -680,29 +679,28 @@ namespace Plato
                 THROWERR("REQUESTED CRITERION NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mDisplacement, mVelocity, mAcceleration);
 
             // F_{,x}
-            auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
+            auto t_dFdx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mVelocity,     tStepIndex, Kokkos::ALL());
-                auto tA = Kokkos::subview(mAcceleration, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
+                auto tA = Kokkos::subview(aSolution.StateDotDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_A = Kokkos::subview(mAdjoints_A, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,a^k}
-                auto t_dFda = aCriterion->gradient_a(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFda = aCriterion->gradient_a(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
-- 
2.43.0


From 233a990447d50a033ff327a244dfcc275a140205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 50/61] fix: the adjoint of hyperbolic problems saw the loads
 of the next time step

---
 src/hyperbolic/HyperbolicProblem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 6790ea9..e2b197f 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -489,7 +489,7 @@ namespace Plato
             auto t_dFdz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
                 auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
@@ -684,7 +684,7 @@ namespace Plato
             auto t_dFdx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
                 auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
-- 
2.43.0


From 8328ff57d3d8f59b275a3e26a080bdebd6de446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 51/61] fix: prescribed values entered the adjoint of
 hyperbolic problems

---
 src/hyperbolic/HyperbolicProblem.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index e2b197f..00bc768 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -243,16 +243,26 @@ namespace Plato
         void applyConstraints(
           const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
           const Plato::ScalarVector & aVector
+        ) override
+        {
+            this->applyConstraints(aMatrix, aVector, 1.0);
+        }
+
+        /******************************************************************************/
+        void applyConstraints(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
+          const Plato::ScalarVector & aVector,
+          Plato::Scalar aScale
         )
         /******************************************************************************/
         {
             if(mJacobianU->isBlockMatrix())
             {
-                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
             else
             {
-                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
         }
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
@@ -584,7 +594,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -779,7 +789,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From 6c36bd9f6c54ecf658aee4c734377c08bb3c12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:46 +0000
Subject: [PATCH 52/61] fix: derivatives of a stress p-norm over several time
 steps were scaled by the norm of one step

---
 .../HyperbolicPhysicsScalarFunction.hpp       | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
index 9004f02..d460425 100644
--- a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
@@ -160,6 +160,28 @@ public:
         const Plato::ScalarVector & aControl,
               Plato::Scalar         aTimeStep = 0.0
     ) const override
+    {
+        auto tReturnVal = this->sum(aSolution, aControl, aTimeStep);
+
+        auto tName = mSpatialModel.Domains.front().getDomainName();
+        mValueFunctions.at(tName)->postEvaluate( tReturnVal );
+
+        return tReturnVal;
+    }
+
+    /******************************************************************************//**
+     * @brief Sum the contributions of all cells and time steps, before postprocessing
+     * @param [in] aSolution Plato::Solution composed of state variables
+     * @param [in] aControl 1D view of control variables
+     * @param [in] aTimeStep time step (default = 0.0)
+     * @return scalar physics function evaluation
+    **********************************************************************************/
+    Plato::Scalar
+    sum(
+        const Plato::Solution     & aSolution,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
     {
         using ConfigScalar      = typename Residual::ConfigScalarType;
         using StateScalar       = typename Residual::StateScalarType;
@@ -226,9 +248,6 @@ public:
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>( tNumCells, tResult);
             }
         }
-        auto tName = mSpatialModel.Domains.front().getDomainName();
-        mValueFunctions.at(tName)->postEvaluate( tReturnVal );
-
         return tReturnVal;
     }
 
@@ -352,7 +371,8 @@ public:
         //
         Plato::ScalarVector tObjGradientU("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // postprocessing needs the contributions of all time steps
+        auto tValue = this->sum(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -396,8 +416,6 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientU);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientUFunctions.at(tName)->postEvaluate( tObjGradientU, tValue );
@@ -436,7 +454,8 @@ public:
         //
         Plato::ScalarVector tObjGradientV("objective gradient state", mNumDofsPerNode*mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // postprocessing needs the contributions of all time steps
+        auto tValue = this->sum(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -480,8 +499,6 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientV);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientVFunctions.at(tName)->postEvaluate( tObjGradientV, tValue );
@@ -520,7 +537,8 @@ public:
         //
         Plato::ScalarVector tObjGradientA("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // postprocessing needs the contributions of all time steps
+        auto tValue = this->sum(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -564,8 +582,6 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientA);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientAFunctions.at(tName)->postEvaluate( tObjGradientA, tValue );
-- 
2.43.0


From d251adad8c18ae213d3f7e01edf634627bd8894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 53/61] fix: the saved states of a transient solution all
 showed the fields of its last step

---
 src/PlatoStaticsTypes.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/PlatoStaticsTypes.hpp b/src/PlatoStaticsTypes.hpp
index 0141965..d2c3ade 100644
--- a/src/PlatoStaticsTypes.hpp
+++ b/src/PlatoStaticsTypes.hpp
@@ -86,6 +86,23 @@ struct DataMap
   void saveState()
   {
     stateDataMaps.push_back(getState());
+
+    // a saved state has its own data, later output is written into the views of the current state
+    auto & tSaved = stateDataMaps.back();
+    detach(tSaved.scalarVectors);
+    detach(tSaved.scalarMultiVectors);
+    detach(tSaved.scalarArray3Ds);
+  }
+
+  template<typename ViewType>
+  static void detach(std::map<std::string, ViewType> & aViews)
+  {
+    for(auto & tEntry : aViews)
+    {
+      ViewType tShared = tEntry.second;
+      tEntry.second = ViewType(tShared.label(), tShared.layout());
+      Kokkos::deep_copy(tEntry.second, tShared);
+    }
   }
 
   DataMap getState() const
-- 
2.43.0


From 962a6ab26a2bfadf3654eecd11ad166280eb994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:01 +0000
Subject: [PATCH 54/61] fix: the temperature average criterion left out the
 quadrature weight of the cells

---
 src/parabolic/TemperatureAverage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parabolic/TemperatureAverage.hpp b/src/parabolic/TemperatureAverage.hpp
index 8b72789..b5a9eb1 100644
--- a/src/parabolic/TemperatureAverage.hpp
+++ b/src/parabolic/TemperatureAverage.hpp
@@ -98,6 +98,7 @@ class TemperatureAverage :
       {
         ConfigScalarType tCellVolume(0.0);
         tComputeCellVolume(aCellOrdinal, aConfig, tCellVolume);
+        tCellVolume *= quadratureWeight;
 
         // compute temperature at Gauss points
         //
-- 
2.43.0


From 5b5e4c1803caa2f5480e499ad3fee31e18494b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:53 +0000
Subject: [PATCH 55/61] fix: size the Jacobian of a VMS residual in the node
 state by its own number of unknowns

---
 src/VectorFunctionVMS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/VectorFunctionVMS.hpp b/src/VectorFunctionVMS.hpp
index b2ee93c..67ee088 100644
--- a/src/VectorFunctionVMS.hpp
+++ b/src/VectorFunctionVMS.hpp
@@ -893,7 +893,7 @@ public:
         //
         auto tMesh = mSpatialModel.Mesh;
         Teuchos::RCP<Plato::CrsMatrixType> tJacobianMat =
-                Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumSpatialDims, mNumNodeStateDofsPerNode>( &tMesh );
+                Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumStateDofsPerNode, mNumNodeStateDofsPerNode>( &tMesh );
 
         // create entry ordinal functor:
         // tJacobianMatEntryOrdinal(e, k, l) => G
@@ -904,12 +904,12 @@ public:
         //
         // Template parameters:
         //   mNumSpatialDims: Nv-1
-        //   mNumSpatialDims: Nd
+        //   mNumStateDofsPerNode: Nd
         //   mNumNodeStatePerNode:   Nn
         //
         // Note that the second two template parameters must match the block shape of the destination matrix, tJacobianMat
         //
-        Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumSpatialDims, mNumNodeStateDofsPerNode>
+        Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumStateDofsPerNode, mNumNodeStateDofsPerNode>
             tJacobianMatEntryOrdinal( tJacobianMat, &tMesh );
 
         // Assemble from the AD-typed result, tJacobian, into the POD-typed global matrix, tJacobianMat.
-- 
2.43.0


From 5aa394e3d371e37dc6fe4bbecb7cdad790f6f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:53 +0000
Subject: [PATCH 56/61] fix: count the shear stresses in the stabilized elastic
 energy

---
 src/StabilizedElastostaticEnergy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StabilizedElastostaticEnergy.hpp b/src/StabilizedElastostaticEnergy.hpp
index 2fca5cc..41e6137 100644
--- a/src/StabilizedElastostaticEnergy.hpp
+++ b/src/StabilizedElastostaticEnergy.hpp
@@ -164,6 +164,10 @@ class StabilizedElastostaticEnergy :
         {
             tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i) + tPressure(cellOrdinal);
         }
+        for( int i=mSpaceDim; i<mNumVoigtTerms; i++)
+        {
+            tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i);
+        }
 
         // apply weighting
         //
-- 
2.43.0


From 3e0dc6ecb6562e0c715a63bbfaeda0d2b281ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:53 +0000
Subject: [PATCH 57/61] fix: report an unknown penalty type of stabilized
 mechanics

---
 src/StabilizedMechanics.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index 1e43d07..d305408 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -66,6 +66,10 @@ stabilized_elastostatics_residual(
         tOutput = std::make_shared<Plato::StabilizedElastostaticResidual<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aInputParams, tPenaltyParams);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function stabilized_elastostatics_residual
@@ -143,6 +147,10 @@ struct FunctionFactory
                 tOutput = std::make_shared<Plato::StabilizedElastostaticEnergy<EvaluationType, Plato::NoPenalty>>
                             (aSpatialDomain, aDataMap, aParamList, tPenaltyParams, aFuncName);
             }
+            else
+            {
+                THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+            }
         }
         else
         {
-- 
2.43.0


From 667dd664b60351ea8ba51e1d44fc6247b091d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:26 +0000
Subject: [PATCH 58/61] fix: read the penalty of a stabilized mechanics
 criterion from its entry under Criteria

---
 src/StabilizedMechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index d305408..3d5fc7a 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -120,7 +120,7 @@ struct FunctionFactory
     /******************************************************************************/
     {
         std::shared_ptr<Plato::Elliptic::AbstractScalarFunction<EvaluationType>> tOutput;
-        auto tPenaltyParams = aParamList.sublist(aFuncName).sublist("Penalty Function");
+        auto tPenaltyParams = aParamList.sublist("Criteria").sublist(aFuncName).sublist("Penalty Function");
         if( aFuncType == "Internal Elastic Energy" )
         {
             std::string tPenaltyType = tPenaltyParams.get<std::string>("Type", "SIMP");
-- 
2.43.0


From a18be3192f15b34f8f38e380925d0ad4fe192313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:03 +0000
Subject: [PATCH 59/61] fix: project the pressure gradient afresh in every
 iteration of a VMS problem

---
 src/EllipticVMSProblem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/EllipticVMSProblem.hpp b/src/EllipticVMSProblem.hpp
index d216d33..a17894a 100644
--- a/src/EllipticVMSProblem.hpp
+++ b/src/EllipticVMSProblem.hpp
@@ -305,6 +305,7 @@ public:
             for(Plato::OrdinalType tNewtonIndex = 0; tNewtonIndex < mNumNewtonSteps; tNewtonIndex++)
             {
                 mCurrentNewtonStep = tNewtonIndex;
+                Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mProjPGrad);
                 mProjResidual = mStateProjection.value      (mProjPGrad, mProjectState, aControl);
                 mProjJacobian = mStateProjection.gradient_u (mProjPGrad, mProjectState, aControl);
 
-- 
2.43.0


From aa48d68207d9516da21e91f55a1eddeeb9de4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 60/61] fix: the adjoint of the projected pressure gradient of
 a VMS problem

It had the wrong sign, was divided by the row sum twice (Condense leaves the quotient in its last argument), and the projection was differentiated with the whole state in the place of the pressure.
---
 src/EllipticVMSProblem.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/EllipticVMSProblem.hpp b/src/EllipticVMSProblem.hpp
index a17894a..367f638 100644
--- a/src/EllipticVMSProblem.hpp
+++ b/src/EllipticVMSProblem.hpp
@@ -522,10 +522,11 @@ public:
             Plato::ScalarVector tLambda = Kokkos::subview(mLambda, tStepIndex, Kokkos::ALL());
             mSolver->solve(*mJacobian, tLambda, t_df_du);
 
-            // compute adjoint variable for projection equation
-            Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mProjResidual);
-            Plato::MatrixTimesVectorPlusVector(t_dg_dPI_T, tLambda, mProjResidual);
-            Plato::Solve::RowSummed<SimplexPhysics::mNumSpatialDims>(mProjJacobian, mEta, mProjResidual);
+            // compute adjoint variable for projection equation, eta = -(mProjJacobian)^-1 X t_dg_dPI_T X lambda.
+            // Condense left (mProjJacobian)^-1 X t_dg_dPI_T in t_dg_dPI_T.
+            Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mEta);
+            Plato::MatrixTimesVectorPlusVector(t_dg_dPI_T, tLambda, mEta);
+            Plato::blas1::scale(static_cast<Plato::Scalar>(-1.0), mEta);
 
             // compute dgdz: partial of PDE wrt state.
             // dgdz is returned transposed, nxm.  n=z.size() and m=u.size().
@@ -537,7 +538,7 @@ public:
 
             // compute dPdz: partial of projection wrt state.
             // dPdz is returned transposed, nxm.  n=z.size() and m=PI.size().
-            auto t_dP_dz = mStateProjection.gradient_z(mProjPGrad, tStateAtStepK, aControl);
+            auto t_dP_dz = mStateProjection.gradient_z(mProjPGrad, mProjectState, aControl);
 
             // compute dfdz += dPdz . eta
             Plato::MatrixTimesVectorPlusVector(t_dP_dz, mEta, t_df_dz);
@@ -646,8 +647,6 @@ public:
             // compute nodal projection of pressure gradient
             Plato::ScalarVector tStateAtStepK = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
             Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mProjPGrad);
-            auto mProjResidual = mStateProjection.value      (mProjPGrad, tStateAtStepK, aControl);
-            auto mProjJacobian = mStateProjection.gradient_u (mProjPGrad, tStateAtStepK, aControl);
             // extract projection state
             Plato::blas1::extract<SimplexPhysics::mNumDofsPerNode,
                                   SimplexPhysics::ProjectorT::SimplexT::mProjectionDof>(tStateAtStepK, mProjectState);
@@ -674,10 +673,11 @@ public:
             Plato::ScalarVector tLambda = Kokkos::subview(mLambda, tStepIndex, Kokkos::ALL());
             mSolver->solve(*mJacobian, tLambda, t_df_du);
 
-            // compute adjoint variable for projection equation
-            Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mProjResidual);
-            Plato::MatrixTimesVectorPlusVector(t_dg_dPI_T, tLambda, mProjResidual);
-            Plato::Solve::RowSummed<SimplexPhysics::mNumSpatialDims>(mProjJacobian, mEta, mProjResidual);
+            // compute adjoint variable for projection equation, eta = -(mProjJacobian)^-1 X t_dg_dPI_T X lambda.
+            // Condense left (mProjJacobian)^-1 X t_dg_dPI_T in t_dg_dPI_T.
+            Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), mEta);
+            Plato::MatrixTimesVectorPlusVector(t_dg_dPI_T, tLambda, mEta);
+            Plato::blas1::scale(static_cast<Plato::Scalar>(-1.0), mEta);
 
             // compute dgdx: partial of PDE wrt configuration
             // dgdx is returned transposed, nxm.  n=z.size() and m=u.size().
@@ -689,7 +689,7 @@ public:
 
             // compute dPdx: partial of projection wrt configuration
             // dPdx is returned transposed, nxm.  n=z.size() and m=PI.size().
-            auto t_dP_dx = mStateProjection.gradient_x(mProjPGrad, tStateAtStepK, aControl);
+            auto t_dP_dx = mStateProjection.gradient_x(mProjPGrad, mProjectState, aControl);
 
             // compute dfdx += dPdx . eta
             Plato::MatrixTimesVectorPlusVector(t_dP_dx, mEta, t_df_dx);
-- 
2.43.0


From f0a08d98f1295449679a41e33f6301863de8baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 61/61] fix: differentiate the row sum that the projection of a
 VMS problem is solved with

The state is projected with the row sum of the Jacobian, the adjoint differentiated the Jacobian itself.
---
 src/EllipticVMSProblem.hpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/EllipticVMSProblem.hpp b/src/EllipticVMSProblem.hpp
index 367f638..3e6d3cb 100644
--- a/src/EllipticVMSProblem.hpp
+++ b/src/EllipticVMSProblem.hpp
@@ -485,6 +485,11 @@ public:
         // compute dfdz: partial of criterion wrt z
         auto t_df_dz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
+        Plato::ScalarVector tZeroPGrad("Zero PGrad", mStateProjection.size());
+        Plato::ScalarVector tUnitPGrad("Unit PGrad", mStateProjection.size());
+        Plato::blas1::fill(static_cast<Plato::Scalar>(1.0), tUnitPGrad);
+        Plato::ScalarVector tZeroProjectState("Zero Project State", mProjectState.size());
+
         // outer loop for load/time steps
         auto tLastStepIndex = mNumSteps - 1;
         for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
@@ -538,10 +543,15 @@ public:
 
             // compute dPdz: partial of projection wrt state.
             // dPdz is returned transposed, nxm.  n=z.size() and m=PI.size().
-            auto t_dP_dz = mStateProjection.gradient_z(mProjPGrad, mProjectState, aControl);
+            // The projection is solved with the row sum, R, of its Jacobian, i.e. P = R PI - dPdn p, so R is
+            // differentiated for itself: it is the projection of a unit gradient without pressure.
+            auto t_dP_dz = mStateProjection.gradient_z(tZeroPGrad, mProjectState, aControl);
+            auto t_dR_dz = mStateProjection.gradient_z(tUnitPGrad, tZeroProjectState, aControl);
 
             // compute dfdz += dPdz . eta
             Plato::MatrixTimesVectorPlusVector(t_dP_dz, mEta, t_df_dz);
+            this->scaleByProjectedGradient(mEta);
+            Plato::MatrixTimesVectorPlusVector(t_dR_dz, mEta, t_df_dz);
         }
 
         return t_df_dz;
@@ -636,6 +646,11 @@ public:
         // compute dfdx: partial of criterion wrt x
         auto t_df_dx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
+        Plato::ScalarVector tZeroPGrad("Zero PGrad", mStateProjection.size());
+        Plato::ScalarVector tUnitPGrad("Unit PGrad", mStateProjection.size());
+        Plato::blas1::fill(static_cast<Plato::Scalar>(1.0), tUnitPGrad);
+        Plato::ScalarVector tZeroProjectState("Zero Project State", mProjectState.size());
+
         // outer loop for load/time steps
         auto tLastStepIndex = mNumSteps - 1;
         for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
@@ -689,15 +704,33 @@ public:
 
             // compute dPdx: partial of projection wrt configuration
             // dPdx is returned transposed, nxm.  n=z.size() and m=PI.size().
-            auto t_dP_dx = mStateProjection.gradient_x(mProjPGrad, mProjectState, aControl);
+            // The projection is solved with the row sum, R, of its Jacobian, i.e. P = R PI - dPdn p, so R is
+            // differentiated for itself: it is the projection of a unit gradient without pressure.
+            auto t_dP_dx = mStateProjection.gradient_x(tZeroPGrad, mProjectState, aControl);
+            auto t_dR_dx = mStateProjection.gradient_x(tUnitPGrad, tZeroProjectState, aControl);
 
             // compute dfdx += dPdx . eta
             Plato::MatrixTimesVectorPlusVector(t_dP_dx, mEta, t_df_dx);
+            this->scaleByProjectedGradient(mEta);
+            Plato::MatrixTimesVectorPlusVector(t_dR_dx, mEta, t_df_dx);
         }
 
         return t_df_dx;
     }
 
+    /******************************************************************************//**
+     * \brief Multiply each component of a vector by that of the projected pressure gradient
+     * \param [in/out] aVector 1D view of the size of the projected pressure gradient
+    **********************************************************************************/
+    void scaleByProjectedGradient(const Plato::ScalarVector & aVector) const
+    {
+        auto tProjPGrad = mProjPGrad;
+        Kokkos::parallel_for(Kokkos::RangePolicy<>(0, aVector.size()), LAMBDA_EXPRESSION(const Plato::OrdinalType & aOrdinal)
+        {
+            aVector(aOrdinal) *= tProjPGrad(aOrdinal);
+        }, "scale by projected gradient");
+    }
+
 private:
     /******************************************************************************//**
      * \brief Initialize member data
-- 
2.43.0

