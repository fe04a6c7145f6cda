From acb53abff7f8b2d83a8e1d83bcfa458675c87a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 01/49] fix: make tasks of the form x[I] = b usable

ConstraintsIB referred to getATb()/addATb(), which do not exist for
non-zero right-hand sides, so that no such task could be instantiated.
---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From 8f218dbbc603fe27e57b504ad0fe4303e7c22c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 02/49] fix: let TaskZeroVariables follow changes of its gain

The gains were only updated when the location of the variables changed, a
new gain was ignored and the task was reported as unmodified.
---
 core/include/humoto/task_generic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..66d26e9 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -91,7 +91,8 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_)
+                     || (getIGains().array() != getGain()).any() )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
-- 
2.43.0


From 6bf4bd516da96844a8008a3a2108a8f7d9be8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 03/49] fix: discard outdated active set guess when guessing is
 disabled

Forming a hierarchy without a guess after forming it with a guess failed
with 'Wrong size of the active set guess' if the number of constraints in
a task had changed.
---
 core/include/humoto/hierarchy_level.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/hierarchy_level.h b/core/include/humoto/hierarchy_level.h
index e950d26..935626d 100644
--- a/core/include/humoto/hierarchy_level.h
+++ b/core/include/humoto/hierarchy_level.h
@@ -71,6 +71,11 @@ namespace humoto
                     {
                        it->ptr_->guessActiveSet(sol_structure, model, control_problem);
                     }
+                    else
+                    {
+                       // a guess left from an earlier iteration is outdated
+                       it->ptr_->active_set_guess_.reset();
+                    }
                     it->ptr_->postForm();
 
 
-- 
2.43.0


From cb520561ac57eee554c286bad75ac535cedf188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 04/49] fix: drop outdated constraints of single level QP
 problems

---
 core/include/humoto/hierarchy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..2bbfa40 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,12 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // No constraints: make sure that the constraints left from
+                    // an earlier problem are dropped.
+                    qp_problem.initializeConstraints(HierarchyLevel(), sol_structure);
+                }
             }
     };
 }
-- 
2.43.0


From aea989de11d9ec3697f78ca02585c33fde34b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 05/49] fix: put the first feedthrough block of condensed
 outputs in the first block row

---
 core/include/humoto/control_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..a4a9aa6 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,7 +167,7 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
+                    Ou[i](0, 0) = E[0].block( 0,
                                                   control_offsets[i],
                                                   t_num_outputs,
                                                   Uu[i].getBlockColsNum());
-- 
2.43.0


From d30e8e027bccade48f27841be267cfee114edcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 06/49] fix: avoid dangling references to temporaries in blocks
 of mapped matrices

---
 core/include/eigentools/blockmatrix_base.h | 29 +++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_base.h b/core/include/eigentools/blockmatrix_base.h
index 9ef7792..900ba35 100644
--- a/core/include/eigentools/blockmatrix_base.h
+++ b/core/include/eigentools/blockmatrix_base.h
@@ -64,6 +64,27 @@ namespace etools
     };
 
 
+    /**
+     * @brief Type of the Eigen expression whose blocks are accessed
+     *
+     * @tparam T raw matrix type
+     */
+    template<class T>   struct BlockExpression
+    {
+        typedef T Type;
+    };
+
+    /**
+     * @brief Type of the Eigen expression whose blocks are accessed
+     *
+     * @tparam t_Derived    derived matrix type
+     */
+    template<class t_Derived>   struct BlockExpression< Eigen::PlainObjectBase<t_Derived> >
+    {
+        typedef t_Derived Type;
+    };
+
+
 
     /**
      * @brief Matrix block size type
@@ -114,10 +135,10 @@ namespace etools
             typedef typename DecayedRawMatrix::Scalar           Scalar;
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block< EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > DynamicMatrixBlock;
+            typedef Eigen::Block< typename BlockExpression<DecayedRawMatrix>::Type > DynamicMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > ConstDynamicMatrixBlock;
+            typedef const Eigen::Block< const typename BlockExpression<DecayedRawMatrix>::Type > ConstDynamicMatrixBlock;
 
 
         public:
@@ -550,12 +571,12 @@ namespace etools
 
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block<   EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef Eigen::Block<   typename BlockExpression<DecayedRawMatrix>::Type,
                                     t_block_rows_num,
                                     t_block_cols_num> StaticMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef const Eigen::Block< const typename BlockExpression<DecayedRawMatrix>::Type,
                                         t_block_rows_num,
                                         t_block_cols_num> ConstStaticMatrixBlock;
 
-- 
2.43.0


From d7fe946ee84dcfb670405d3a6f67f85baccd4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 07/49] fix: take the width of blocks from columns when a row
 of each block is selected

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From bbfbd62fc7a661c8a7b44e4ba23090ad6d0a2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 08/49] fix: multiply scalar Kronecker products by block
 diagonal matrices with dynamic blocks

---
 .../eigentools/blockmatrix_kronecker.h        | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..1ed7e1d 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,12 +613,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -831,12 +834,15 @@ namespace etools
 
 
 
+                result.setZero(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -882,12 +888,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.setZero(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                    MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                ((t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum()),
+                                ((t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum()));
 
                 if (num_blocks_hor_ != 0)
                 {
-- 
2.43.0


From 0fefb4c4f8042a4962a2b9e4f2807ef5c0a03683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 09/49] fix: skip consecutive empty matrices in vertical
 concatenation

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..574ef82 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices; )
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 17aff43833abdcf1b8a4222fddd03fac2f06c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 10/49] fix: check bounds of removed rows and columns

---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 574ef82..800905a 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 3f86c9290a433ed23fe9e1468d5c6397a811ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 11/49] fix: size of Matrix1x2

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 800905a..aaeb801 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 53a3b68c556e4b20d3bc619d9d10cc1d324651e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:12 +0000
Subject: [PATCH 12/49] fix: write matrices to configuration files in the
 row-major order expected by readers

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 7 +++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..a30f030 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,12 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..cd1dd40 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,11 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From 2ebe5e28c7dbd66793e442d2bafc158f96a559e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:12 +0000
Subject: [PATCH 13/49] fix: search all entries of the root maps in msgpack
 configuration files

---
 .../config_msgpack/interface/config_msgpack/reader.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..943fc0b 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -122,12 +122,15 @@ namespace humoto
                             {
                                 if (::msgpack::type::MAP == handles_[i]->get().type)
                                 {
-                                    if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
+                                    for (std::size_t j = 0; j < handles_[i]->get().via.map.size; ++j)
                                     {
-                                        if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[0].val.type)
+                                        if (child_name == handles_[i]->get().via.map.ptr[j].key.as<std::string>())
                                         {
-                                            node_stack_.push( &(handles_[i]->get().via.map.ptr[0].val) );
-                                            return(true);
+                                            if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[j].val.type)
+                                            {
+                                                node_stack_.push( &(handles_[i]->get().via.map.ptr[j].val) );
+                                                return(true);
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 89cf49e48e8ab2f2fae0d26caa900271f8ede377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 14/49] fix: reject matrices of wrong size in configuration
 files

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 7 ++++++-
 bridges/config_yaml/interface/config_yaml/reader.h       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 943fc0b..9c09825 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -247,7 +247,12 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  num_rows >= 0 && num_cols >= 0
+                                            && (Eigen::Dynamic == t_rows || t_rows == num_rows)
+                                            && (Eigen::Dynamic == t_cols || t_cols == num_cols),
+                                            std::string("Wrong size of configuration file entry: ") + entry_name);
+                            HUMOTO_ASSERT(  (0 == num_cols) ? (0 == v.rows())
+                                                            : (v.rows() % num_cols == 0 && v.rows() / num_cols == num_rows),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ef54f35..32f7cc8 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -207,7 +207,12 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  num_rows >= 0 && num_cols >= 0
+                                            && (Eigen::Dynamic == t_rows || t_rows == num_rows)
+                                            && (Eigen::Dynamic == t_cols || t_cols == num_cols),
+                                            std::string("Wrong size of configuration file entry: ") + entry_name);
+                            HUMOTO_ASSERT(  (0 == num_cols) ? (0 == v.rows())
+                                                            : (v.rows() % num_cols == 0 && v.rows() / num_cols == num_rows),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
-- 
2.43.0


From e34e840731c79443a5d6867897398d0ac135a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 15/49] fix: leave nodes of configuration files when reading of
 their entries fails

---
 .../interface/config_msgpack/reader.h         | 33 ++++++++++++++-----
 .../interface/config_yaml/reader.h            | 32 +++++++++++++-----
 core/include/config.h                         | 10 +++++-
 3 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 9c09825..d9dc759 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -86,6 +86,25 @@ namespace humoto
                     }
 
 
+
+                    /// Leaves the current node when destroyed, i.e., even if reading fails
+                    class NodeGuard
+                    {
+                        private:
+                            Reader & reader_;
+
+                        public:
+                            explicit NodeGuard(Reader & reader) : reader_(reader)
+                            {
+                            }
+
+                            ~NodeGuard()
+                            {
+                                reader_.ascend();
+                            }
+                    };
+
+
                 public:
                     /**
                      * @brief Constructor
@@ -184,6 +203,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -201,8 +221,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -237,6 +255,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -262,8 +281,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -291,6 +308,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -300,8 +318,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -330,8 +346,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -360,12 +376,11 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-
-                            ascend();
                         }
                         else
                         {
diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index 32f7cc8..ce29b2d 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -71,6 +71,25 @@ namespace humoto
                     }
 
 
+
+                    /// Leaves the current node when destroyed, i.e., even if reading fails
+                    class NodeGuard
+                    {
+                        private:
+                            Reader & reader_;
+
+                        public:
+                            explicit NodeGuard(Reader & reader) : reader_(reader)
+                            {
+                            }
+
+                            ~NodeGuard()
+                            {
+                                reader_.ascend();
+                            }
+                    };
+
+
                 public:
                     /**
                      * @brief Constructor
@@ -144,6 +163,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -161,8 +181,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry(i);
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -197,6 +215,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -222,8 +241,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -251,6 +268,7 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -260,8 +278,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -290,8 +306,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -320,11 +336,11 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard guard(*this);
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-                            ascend();
                         }
                         else
                         {
diff --git a/core/include/config.h b/core/include/config.h
index 6672d75..f6b71df 100644
--- a/core/include/config.h
+++ b/core/include/config.h
@@ -138,7 +138,15 @@ namespace humoto
                             setDefaults();
                             if (reader.descend(node_name))
                             {
-                                readConfigEntries(reader, crash_on_missing_entry);
+                                try
+                                {
+                                    readConfigEntries(reader, crash_on_missing_entry);
+                                }
+                                catch(...)
+                                {
+                                    reader.ascend();
+                                    throw;
+                                }
                                 reader.ascend();
                             }
                             else
-- 
2.43.0


From 561619df23a61a00215546e31431e0cba98f6d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 16/49] fix: reset inherited parameters of kktsolver to their
 defaults

---
 core/include/kktsolver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..4555b1c 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From 45f4346cb7ae47974a85ca7b809ac649aad3e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:24 +0000
Subject: [PATCH 17/49] fix: report unknown tasks in configuration files
 instead of dereferencing a null pointer

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..08bde1d 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From f09ff428e4a3b0d9580312ed835434c5c8447c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:12 +0000
Subject: [PATCH 18/49] fix: reject zero subsampling time instead of dividing
 by it

---
 modules/wpg04/include/wpg04/common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/wpg04/include/wpg04/common.h b/modules/wpg04/include/wpg04/common.h
index f38829a..dd76774 100644
--- a/modules/wpg04/include/wpg04/common.h
+++ b/modules/wpg04/include/wpg04/common.h
@@ -113,6 +113,9 @@ namespace humoto
                  */
                 void finalize()
                 {
+                    HUMOTO_ASSERT(  subsampling_time_ms_ > 0,
+                                    "Subsampling time must be positive.");
+
                     if (sampling_time_ms_ % subsampling_time_ms_ == 0)
                     {
                         subsamples_num_ = sampling_time_ms_ / subsampling_time_ms_;
-- 
2.43.0


From d79c25a7ba71c5ac59684afe360653b9d3733c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 19/49] fix: discard identifiers of tasks before reading a new
 hierarchy

---
 core/include/humoto/configurable_optimization_problem.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 08bde1d..e28a02a 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -84,6 +84,7 @@ namespace humoto
             void setDefaults()
             {
                 task_class_names_.clear();
+                task_ids_.clear();
             }
 
 
-- 
2.43.0


From e742fbf354aa4cc1bca37b1186452fcfdbe5d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:29 +0000
Subject: [PATCH 20/49] fix: let loggers switch from one log file to another

---
 core/include/humoto/logger.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..8e4f054 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -424,6 +424,11 @@ namespace humoto
             {
                 file_stream_is_open_ = true;
 
+                if (output_file_stream_.is_open())
+                {
+                    // logger has been writing to another file
+                    output_file_stream_.close();
+                }
                 output_file_stream_.open(output_filename.c_str());
                 if (output_file_stream_.fail())
                 {
-- 
2.43.0


From a69ff3646b9931a8dfeed0f6de20a88c7f584dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:12 +0000
Subject: [PATCH 21/49] fix: coefficients of cubic polynomials with given
 derivatives

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From ad55cc1f835ccc44203ceaff23ae2ae4a0598aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:50 +0000
Subject: [PATCH 22/49] fix: do not plan steps when the first single support is
 undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..89c0237 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From cd091bc24e13a41e8cd58c27d528e189391dc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:50 +0000
Subject: [PATCH 23/49] fix: empty preview of stances

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 89c0237..5570be2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -357,7 +357,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From 4b4c5e61ab3d0d881e8bb74635b41d5b6558a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 24/49] fix: time derivatives of vertical motion in foot
 trajectories

---
 core/include/walking/foot_trajectory.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..905d072 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,       b(2),               bdot(2)/2);
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2, a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,              b.position_(2),               b.velocity_(2)/2);
                 }
 
 
@@ -127,13 +127,27 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each part of the vertical motion takes half of the time
+                    double scale = 1.;
+                    switch (trajectory_type)
+                    {
+                        case rigidbody::TrajectoryEvaluationType::VELOCITY:
+                            scale = 2.;
+                            break;
+                        case rigidbody::TrajectoryEvaluationType::ACCELERATION:
+                            scale = 4.;
+                            break;
+                        default:
+                            break;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From a11a7583d4330131dfe0a7163db479515ee045dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:08 +0000
Subject: [PATCH 25/49] fix: ignore stances after the end of the preview
 horizon in rotation matrices

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..d34948a 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,7 +35,9 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    for(std::size_t i=0;
+                        (i < (preview_horizon_.walk_states_.size() - 1)) && (index < preview_horizon_.getNumberOfVariableSteps());
+                        ++i)
                     {
                         if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
                         {
-- 
2.43.0


From ad88af844262d6e41665dc2742188ea87cd27839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:08 +0000
Subject: [PATCH 26/49] fix: report an error when a landing foot is not covered
 by the preview horizon

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index d34948a..1ff6e5a 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -184,6 +184,7 @@ namespace humoto
                                             const humoto::wpg04::Model &model,
                                             const humoto::LeftOrRight::Type landing_foot) const
                 {
+                    HUMOTO_ASSERT(preview_horizon_.getNumberOfVariableSteps() > 0, "There are no steps in the preview horizon.");
                     std::size_t interval_index = preview_horizon_.variable_steps_indices_[0];
                     const WalkState & walk_state = preview_horizon_.getWalkState(interval_index);
 
-- 
2.43.0


From e8d0a6a34aa92d08d02084c00b21a44e5e74a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:53 +0000
Subject: [PATCH 27/49] fix: allow updates of the model within transitional
 double supports

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..3ebe663 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -189,6 +189,7 @@ namespace humoto
                                     break;
 
                                 case humoto::walking::StanceType::DS:
+                                case humoto::walking::StanceType::TDS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
-- 
2.43.0


From dfba7e61648f110900b6afb9e31361c3f9600989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 28/49] fix: order of heights in the constructor of the state
 of pepper

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From be652cbc510e48fc77a07f76b45e528803ea5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 29/49] fix: preserve masses in the next state of pepper

---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..39b814b 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = getBaseMass();
+                    model_state.body_mass_ = getBodyMass();
                 }
 
 
-- 
2.43.0


From dd35f3f004776081c57588a5a8595b01253605ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 30/49] fix: use controls of the requested interval in
 predicted states of pepper

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 94ade2533741818fca14cf80f66169eeaf7b0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:52 +0000
Subject: [PATCH 31/49] fix: sign of the reference in the body position task of
 pepper

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From a47e831ed699c05c2b7e3247ef990ec9a2b0b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 32/49] fix: allow shifts of an active set by its whole length

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From ceacc27f55f82031391a675cbf8e531e152c558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:16 +0000
Subject: [PATCH 33/49] fix: qpmad: use the configured solver options

The tolerance and the iteration limit that can be configured in
qpmad::SolverParameters::options_ were never given to the solver.
---
 bridges/qpmad/interface/qpmad/solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..846e015 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -114,7 +114,8 @@ namespace humoto
                                         qp_problem_.getSolutionUpperBounds(),
                                         qp_problem_.getGeneralConstraints().getA(),
                                         qp_problem_.getGeneralConstraints().getLowerBounds(),
-                                        qp_problem_.getGeneralConstraints().getUpperBounds());
+                                        qp_problem_.getGeneralConstraints().getUpperBounds(),
+                                        parameters_.options_);
 
 
                     switch (qp_status)
-- 
2.43.0


From c1fb801d8d10d4e8e7e7064bedcd618442de4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:30 +0000
Subject: [PATCH 34/49] fix: QP solver bridges: reset all parameters to their
 defaults

setDefaults() of the solver parameters left the parameters of the base
class and the options of the solver library unchanged, so that a relaxed
read of an incomplete configuration kept earlier values.
---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 1 +
 bridges/qpOASES/interface/qpoases/solver.h       | 2 ++
 bridges/qpmad/interface/qpmad/solver.h           | 6 ++++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..b374a76 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..7d43e27 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,8 +104,10 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
+                    options_.setDefaults();
                 }
 
 
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index 846e015..9660355 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -38,12 +38,12 @@ namespace humoto
                         HUMOTO_CONFIG_SCALAR_(max_iter)
                     #include HUMOTO_CONFIG_DEFINE_ACCESSORS
 
-                    protected:
+                    public:
                         void setDefaults()
                         {
+                            ::qpmad::SolverParameters::operator=(::qpmad::SolverParameters());
                         }
 
-                    public:
                         QPmadParameters()
                         {
                         }
@@ -59,7 +59,9 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
+                    options_.setDefaults();
                 }
 
                 /**
-- 
2.43.0


From 246cfc4bae07c8749da953cde03d228f304d4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 35/49] fix: reject unknown links in the RBDL bridge

GetBodyId() returns the maximal unsigned integer for an unknown name, tags
with such an id led to out of bounds accesses.
---
 bridges/rbdl/interface/rbdl/model.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..11c34f6 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -741,7 +741,14 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    const unsigned int link_id = rbdl_model_.GetBodyId(string_id.c_str());
+
+                    if (std::numeric_limits<unsigned int>::max() == link_id)
+                    {
+                        HUMOTO_THROW_MSG(std::string("Unknown link: ") + string_id);
+                    }
+
+                    return (link_id);
                 }
 
 
-- 
2.43.0


From 60425a767640a5ab1493ff12e4260829773e338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:29 +0000
Subject: [PATCH 36/49] fix: masses and centres of mass of fixed links in the
 RBDL bridge

Ids of fixed links are not indices of mBodies, their masses were read out of
bounds.
---
 bridges/rbdl/interface/rbdl/model.h | 56 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 11c34f6..329867c 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -190,7 +190,7 @@ namespace humoto
                 {
                     LinkId id = getLinkId(link_string_id);
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
-                                                                    rbdl_model_.mBodies[id].mCenterOfMass));
+                                                                    getLinkCoM(id)));
                     return(ptr);
                 }
 
@@ -213,7 +213,7 @@ namespace humoto
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
 
-                        total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
+                        total_mass += getLinkMass(link_ids[i]);
                     }
 
                     boost::shared_ptr<TagPartialCoM> ptr(new  TagPartialCoM(link_ids, total_mass));
@@ -252,8 +252,8 @@ namespace humoto
                         LinkId  id = tag->link_ids_[i];
 
                         com_position.noalias() +=
-                            rbdl_model_.mBodies[id].mMass
-                            * getPointTagPosition(id, rbdl_model_.mBodies[id].mCenterOfMass);
+                            getLinkMass(id)
+                            * getPointTagPosition(id, getLinkCoM(id));
 
                         /*
                         com_position.noalias() +=
@@ -426,7 +426,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
-                    return (rbdl_model_.mBodies[tag->link_id_].mMass);
+                    return (getLinkMass(tag->link_id_));
                 }
 
 
@@ -448,15 +448,15 @@ namespace humoto
                     {
                         LinkId id = tag->link_ids_[i];
 
-                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, rbdl_model_.mBodies[id].mCenterOfMass);
+                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, getLinkCoM(id));
 
                         if (i == 0)
                         {
-                            jacobian.noalias() = jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() = jacobian_i * getLinkMass(id);
                         }
                         else
                         {
-                            jacobian.noalias() += jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() += jacobian_i * getLinkMass(id);
                         }
                     }
 
@@ -752,6 +752,46 @@ namespace humoto
                 }
 
 
+                /**
+                 * @brief Get mass of a link.
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return mass
+                 */
+                double getLinkMass(const LinkId link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mMass);
+                    }
+                    else
+                    {
+                        return (rbdl_model_.mBodies[link_id].mMass);
+                    }
+                }
+
+
+                /**
+                 * @brief Get position of the CoM of a link in the frame of this link.
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return 3d vector
+                 */
+                etools::Vector3 getLinkCoM(const LinkId link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mCenterOfMass);
+                    }
+                    else
+                    {
+                        return (rbdl_model_.mBodies[link_id].mCenterOfMass);
+                    }
+                }
+
+
 
                 /**
                  * @brief Express local position in root frame
-- 
2.43.0


From 2951d7723943723bd6c408f770362030aa853af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:13 +0000
Subject: [PATCH 37/49] fix: pepper_ik: check the root position when checking
 state transitions

checkStateTransition() passed joint angles instead of the pose of the root, and
hence could not be instantiated.
---
 modules/pepper_ik/include/pepper_ik/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..b880f3e 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    generalized_coordinates_from.getRootPosition(root_from);
+                    generalized_coordinates_to.getRootPosition(root_to);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
-- 
2.43.0


From 0fb77cbfc3717af04a527a9253b523bad1042d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 38/49] fix: pepper_ik: global velocity of a tag is the
 velocity of the tag itself

The translational part was the velocity of the point of the link which
coincides with the origin of the world, which depends on the location of the
robot and agrees neither with the Jacobian of the tag nor with the integration
of the position of the tag in computeTagsDesiredPoseInGlobal().
---
 .../include/pepper_ik/whole_body_controller.h        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..2f2fd3e 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -129,20 +129,16 @@ namespace humoto
                             break;
                         
                         case rbdl::SpatialType::TRANSLATION:
-                            velocity_in_global.tail(part_size) = model.getTagPosition(tag).cross(model.getTagOrientation(tag)
-                                                    * tag_velocity_local.tail(part_size))
-                                                    + model.getTagOrientation(tag) *
-                                                      tag_velocity_local.head(part_size);
+                            velocity_in_global.tail(part_size) = model.getTagOrientation(tag) *
+                                                    tag_velocity_local.head(part_size);
                             break;
 
                         case rbdl::SpatialType::COMPLETE:
                             velocity_in_global.head(part_size) = model.getTagOrientation(tag) *
                                                     tag_velocity_local.tail(part_size);
                         
-                            velocity_in_global.tail(part_size) = model.getTagPosition(tag).cross(model.getTagOrientation(tag)
-                                                    * tag_velocity_local.tail(part_size))
-                                                    + model.getTagOrientation(tag) *
-                                                      tag_velocity_local.head(part_size);
+                            velocity_in_global.tail(part_size) = model.getTagOrientation(tag) *
+                                                    tag_velocity_local.head(part_size);
                             break;
                         
                         default:
-- 
2.43.0


From 944f0fd5c598f85e6da9ef89f8cc343f2d770b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 39/49] fix: pepper_ik: find the tag of a task each time the
 task is formed

The tag was found only once, so a task which was configured again or was formed
with another model controlled a wrong link.
---
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 5 +----
 5 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..642c6a4 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..18f26f8 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..16efd4c 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -83,10 +83,7 @@ namespace humoto
                     const Model<t_features>  &model   =
                         dynamic_cast <const Model<t_features> &>(model_base);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..768bff8 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..f20d12b 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -83,10 +83,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
-- 
2.43.0


From f3c59cedef545e962e052ba66befa064dddf8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 40/49] fix: pepper_ik: reset all parameters of tasks to their
 defaults

---
 modules/pepper_ik/include/pepper_ik/task_bodycom.h        | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 2 ++
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 1 +
 6 files changed, 7 insertions(+)

diff --git a/modules/pepper_ik/include/pepper_ik/task_bodycom.h b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
index c35485d..890db1d 100644
--- a/modules/pepper_ik/include/pepper_ik/task_bodycom.h
+++ b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
@@ -36,6 +36,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_position_gain_ = 0.0;
+                    axis_flag_ = AxisIndex::FLAG_X | AxisIndex::FLAG_Y | AxisIndex::FLAG_Z;
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index 642c6a4..47cbc11 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -38,6 +38,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_angular_velocity_gain_ = 0.0;
+                    tag_string_id_ = "";
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18f26f8..6015da3 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -38,6 +38,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_complete_velocity_gain_ = 0.0;
+                    tag_string_id_ = "";
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 16efd4c..57f1088 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -40,6 +40,8 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_orientation_gain_ = 0.0;
+                    tag_string_id_ = "";
+                    reference_rpy_.setZero();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 768bff8..6411009 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -38,6 +38,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_ = "";
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index f20d12b..efdab78 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -40,6 +40,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_ = "";
                 }
 
 
-- 
2.43.0


From ee7a42c5d928cbfa6cbbf0cdf6b1da79fe078d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 41/49] fix: report configuration files that cannot be written
 in the YAML bridge

---
 bridges/config_yaml/interface/config_yaml/writer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index cd1dd40..1d18f0f 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -65,6 +65,11 @@ namespace humoto
                     explicit Writer(const std::string& file_name) :
                         config_ofs_(file_name.c_str())
                     {
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG(std::string("Could not open configuration file for writing: ") +  file_name.c_str());
+                        }
+
                         initEmitter();
                     }
 
-- 
2.43.0


From 505a9d630753bf6018ad1880acb60eb663791e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 42/49] fix: let default constructed YAML readers report
 missing entries

---
 bridges/config_yaml/interface/config_yaml/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ce29b2d..3586d5e 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -107,6 +107,7 @@ namespace humoto
                      */
                     Reader()
                     {
+                        node_stack_.push(&root_node_);
                     }
 
 
-- 
2.43.0


From 701185b676950163e4e135e3e5db4320857847bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:25 +0000
Subject: [PATCH 43/49] fix: do not add empty maps to YAML files when there is
 nothing to flush

---
 bridges/config_yaml/interface/config_yaml/writer.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 1d18f0f..637919c 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -28,6 +28,9 @@ namespace humoto
                     /// instance of YAML emitter, is destroyed and reinitialized by flush()
                     YAML::Emitter   *emitter_;
 
+                    /// size of the output of an emitter, which was not used yet
+                    std::size_t     empty_emitter_size_;
+
 
                 private:
                     /**
@@ -42,6 +45,7 @@ namespace humoto
                             *emitter_ << YAML::Newline;
                         }
                         *emitter_ << YAML::BeginMap;
+                        empty_emitter_size_ = emitter_->size();
                     }
 
 
@@ -275,8 +279,12 @@ namespace humoto
                      */
                     void flush()
                     {
-                        destroyEmitter();
-                        initEmitter();
+                        // an empty map must not be added to the file
+                        if (emitter_->size() != empty_emitter_size_)
+                        {
+                            destroyEmitter();
+                            initEmitter();
+                        }
                     }
             };
         }
-- 
2.43.0


From 5d9e5e7be2987b920ca2e9279ab5ee79511c8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 44/49] fix: keep the structure of nested vectors written by
 the YAML bridge

---
 bridges/config_yaml/interface/config_yaml/writer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 637919c..0b2a456 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -207,10 +207,14 @@ namespace humoto
 
                         for(std::size_t i = 0; i < entry.size(); ++i)
                         {
+                            *emitter_ << YAML::BeginSeq;
+
                             for(std::size_t j = 0; j < entry[i].size(); ++j)
                             {
                                 *emitter_ << entry[i][j];
                             }
+
+                            *emitter_ << YAML::EndSeq;
                         }
 
                         *emitter_ << YAML::EndSeq;
-- 
2.43.0


From 2473ab3ab1096c2aba268a6531d788e0abd6de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 45/49] fix: let the mobile-base controller be reused with
 another preview horizon length

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..62226e7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -162,6 +162,8 @@ namespace humoto
 
                     std::size_t number_of_state_variables = model.Ns_ * mpc_parameters_.preview_horizon_length_;
 
+                    // the size may differ from the previous one
+                    S_.resize(number_of_state_variables, sol_structure_.getNumberOfVariables());
                     etools::BlockMatrixInterface<   etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixSparsityType::NONE> S_bmi( S_,
-- 
2.43.0


From 73027f6fb5d7c7824e8e9c5f91846834d16de28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 46/49] fix: forget the previous model when the rigid-body
 bridge loads another one

---
 bridges/rbdl/interface/rbdl/model.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 329867c..a008816 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -100,6 +100,8 @@ namespace humoto
                 {
                     setDefaults();
 
+                    // the reader adds bodies to the given model
+                    rbdl_model_ = RigidBodyDynamics::Model();
                     bool rbdl_status = RigidBodyDynamics::Addons::URDFReadFromFile(
                                             urdf_filename.c_str(),
                                             &rbdl_model_,
-- 
2.43.0


From cce5ebd2031662c1393ffdb120ebece1c8232987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 47/49] fix: guesses of the walking controller from solutions
 of other horizons

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1ff6e5a..c53d2b9 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -513,12 +513,16 @@ namespace humoto
                         Location old_part = old_solution.getSolutionPartLocation(COP_VARIABLES_ID);
                         Location guess_part = solution_guess.getSolutionPartLocation(COP_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
+                        // the old solution may correspond to another preview horizon
+                        if (old_part.length_ > 2)
+                        {
+                            guess_part.length_ = std::min(guess_part.length_, old_part.length_ - 2);
 
-                        old_part.offset_ +=2;
-                        old_part.length_ -=2;
+                            old_part.offset_ +=2;
+                            old_part.length_ = guess_part.length_;
 
-                        solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                            solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                        }
 
 
 
@@ -534,12 +538,12 @@ namespace humoto
                             if (old_part.length_ > guess_part.length_)
                             {
                                 old_part.offset_ +=2;
-                                old_part.length_ -=2;
+                                old_part.length_ = guess_part.length_;
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                             else
                             {
-                                guess_part.length_ -= 2;
+                                guess_part.length_ = old_part.length_;
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                         }
-- 
2.43.0


From 6f4f7363bbeafce9dcf4d2316fcf82e58f741cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 48/49] fix: guesses of the mobile-base controller from
 solutions of other horizons

---
 .../pepper_mpc/include/pepper_mpc/mpc_mg.h    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 62226e7..313baef 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -627,24 +627,30 @@ namespace humoto
                         old_part = old_solution.getSolutionPartLocation(BASE_VEL_VARIABLES_ID);
                         guess_part = solution_guess.getSolutionPartLocation(BASE_VEL_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
+                        if (old_part.length_ > 2)
+                        {
+                            guess_part.length_ = std::min(guess_part.length_, old_part.length_ - 2);
 
-                        old_part.offset_ +=2;
-                        old_part.length_ -=2;
+                            old_part.offset_ +=2;
+                            old_part.length_ = guess_part.length_;
 
-                        solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                            solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                        }
 
 
                         // body
                         old_part = old_solution.getSolutionPartLocation(BODY_JERK_VARIABLES_ID);
                         guess_part = solution_guess.getSolutionPartLocation(BODY_JERK_VARIABLES_ID);
 
-                        guess_part.length_ -= 2;
+                        if (old_part.length_ > 2)
+                        {
+                            guess_part.length_ = std::min(guess_part.length_, old_part.length_ - 2);
 
-                        old_part.offset_ +=2;
-                        old_part.length_ -=2;
+                            old_part.offset_ +=2;
+                            old_part.length_ = guess_part.length_;
 
-                        solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                            solution_guess.getData(guess_part) = old_solution.getData(old_part);
+                        }
                     }
                 }
 
-- 
2.43.0


From 65755dfe43105207f55f3fc1625ded1e260282c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:40 +0000
Subject: [PATCH 49/49] fix: guess of the active footstep bounds after another
 walk

---
 modules/wpg04/include/wpg04/task_footstepbounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/task_footstepbounds.h b/modules/wpg04/include/wpg04/task_footstepbounds.h
index 555dbf2..3951b16 100644
--- a/modules/wpg04/include/wpg04/task_footstepbounds.h
+++ b/modules/wpg04/include/wpg04/task_footstepbounds.h
@@ -120,7 +120,7 @@ namespace humoto
                             {
                                 if (size_of_the_old_active_set > loc_var.length_)
                                 {
-                                    Location loc_act_set(2, size_of_the_old_active_set - 2);
+                                    Location loc_act_set(2, loc_var.length_);
 
                                     getActiveSetGuess().initialize(getActualActiveSet(), loc_act_set);
                                 }
-- 
2.43.0

