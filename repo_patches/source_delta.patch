From caf2e16842280b4dd561b08b01275adb88b9552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 01/30] fix: size the row-offset buffer by the number of rows
 when reading a sparse matrix

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..7a57e14 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -374,7 +374,7 @@ SparseMatrix* ReadSparseMatrixFromHDF(const std::string filename)
    hdfIO.getIntegerArray("size", &size[0], 2);
 
    const int n_entry = hdfIO.getDoubleArraySize("data");
-   Array<int> i_read(n_entry), j_read(n_entry);
+   Array<int> i_read(size[0]+1), j_read(n_entry);
    Vector data_read(n_entry);
    hdfIO.getIntegerArray("I", i_read.Write(), size[0]+1);
    hdfIO.getIntegerArray("J", j_read.Write(), i_read[size[0]]);
-- 
2.43.0


From ed5d398b5dbb2a771b22fd1ecf8d817f7304187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 02/30] fix: set up a block smoother when its operator is given
 or replaced

---
 src/block_smoother.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..745ab10 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -16,22 +16,9 @@ namespace mfem
 */
 
 BlockSmoother::BlockSmoother(const BlockMatrix &a)
-   : MatrixInverse(a),
-     oper(&a),
-     num_row_blocks(a.NumRowBlocks()),
-     num_col_blocks(a.NumColBlocks()),
-     row_offsets(a.RowOffsets()),
-     col_offsets(a.ColOffsets())
+   : MatrixInverse(a)
 {
-   assert(num_row_blocks == num_col_blocks);
-
-   diag_inv.SetSize(num_row_blocks);
-   diag_inv = NULL;
-   for (int b = 0; b < num_row_blocks; b++)
-   {
-      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
-      diag_inv[b]->Invert();
-   }
+   BlockSmoother::SetOperator(a);
 }
 
 BlockSmoother::~BlockSmoother()
@@ -48,6 +35,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   row_offsets = oper->RowOffsets();
+   col_offsets = oper->ColOffsets();
+   assert(num_row_blocks == num_col_blocks);
+
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   diag_inv = NULL;
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From 73beb5163e975251b9b59e0b2866e0fcb8b7488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 03/30] fix: advance the vector when contracting the middle
 axis of a tensor

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 7a57e14..099478d 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From 7a31eb8ee2cba38a61b7f4790633e0ed6eb8ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 04/30] fix: copy the blocks when a MatrixBlocks is
 copy-constructed

---
 include/linalg_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg_utils.hpp b/include/linalg_utils.hpp
index 9957631..c43c350 100644
--- a/include/linalg_utils.hpp
+++ b/include/linalg_utils.hpp
@@ -58,6 +58,8 @@ struct MatrixBlocks
    { blocks = NULL; }
    MatrixBlocks(const Array2D<SparseMatrix *> &mats)
    { *this = mats; }
+   MatrixBlocks(const MatrixBlocks &matblock) : nrows(0), ncols(0), blocks(0, 0)
+   { *this = matblock; }
 
    ~MatrixBlocks() { DeletePointers(blocks); }
 
-- 
2.43.0


From cdbebad869868bdf89e7ad45b28aae46389ceaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:52 +0000
Subject: [PATCH 05/30] fix: close the configuration and port files on every
 path that reads them

---
 src/component_topology_handler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
@@ -455,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From 1e423790598ff87cb2a0f7d53c0115303b806d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:44 +0000
Subject: [PATCH 06/30] fix: gradient of the Lax-Friedrichs flux is zero, not
 NaN, where both velocities are zero

---
 src/interfaceinteg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..55dcd8f 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1379,6 +1379,10 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    if (!ndofs2 && !u1_lg_u2)
       return;
 
+   /* both velocities are zero: the gradient of max(|u1|, |u2|) * [u] is zero, too. */
+   if (un == 0.0)
+      return;
+
    // [ u ] = u1 - u2
    Vector du(u1);
    du.Add(-1.0, u2);
-- 
2.43.0


From bb4759368d85783c2990c6ce4d680e7496c7e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 07/30] fix: Lax-Friedrichs flux evaluates its coefficient at
 the integration point of element 1

The face transformation of an interface may run through the face in the direction opposite
to the (corrected) local transformation of element 1, so Q was sampled at the mirrored point.
---
 src/interfaceinteg.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 55dcd8f..d8a2b54 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1459,7 +1459,7 @@ void DGLaxFriedrichsFluxIntegrator::AssembleQuadVectorBase(
    timer.Start("fomvec_interface/assemble");
 
    w = iw;
-   if (Q) { w *= Q->Eval(*Tr1, ip); }
+   if (Q) { w *= Q->Eval(*(Tr1->Elem1), eip1); }
 
    AddMult_a_VWt(-w, shape1, flux, elvect1);
    if (ndofs2)
@@ -1532,7 +1532,7 @@ void DGLaxFriedrichsFluxIntegrator::AssembleQuadGradBase(
    }
 
    w = iw;
-   if (Q) { w *= Q->Eval(*Tr1, ip); }
+   if (Q) { w *= Q->Eval(*(Tr1->Elem1), eip1); }
 }
 
 void DGLaxFriedrichsFluxIntegrator::AssembleFaceVector(
@@ -1777,7 +1777,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleVector_Fast(
    timer.Start("eqpvec_Fast_interior/assemble");
 
    w = qw;
-   if (Q) { w *= Q->Eval(T, ip); }
+   if (Q) { w *= Q->Eval(*(T.Elem1), eip1); }
 
    assert(y.Size() == x.Size());
    shapes1->AddMultTranspose(flux, y, -w);
@@ -1834,7 +1834,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
 
    double w = qw;
    if (Q) 
-      w *= Q->Eval(T, ip);
+      w *= Q->Eval(*(T.Elem1), eip1);
 
    AddwRtAP(*shapes1, gradu1, *shapes1, jac, -w);
    if (el2)
@@ -2121,7 +2121,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleVector_Fast(
    timer.Start("eqpvec_Fast_interior/assemble");
 
    w = qw;
-   if (Q) { w *= Q->Eval(Tr1, ip); }
+   if (Q) { w *= Q->Eval(*(Tr1.Elem1), eip1); }
 
    assert(y1.Size() == x1.Size());
    assert(y2.Size() == x2.Size());
@@ -2180,7 +2180,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
 
    double w = qw;
    if (Q) 
-      w *= Q->Eval(Tr1, ip);
+      w *= Q->Eval(*(Tr1.Elem1), eip1);
 
    timer.Stop("eqpgrad_Fast_interface/eval");
 // {
-- 
2.43.0


From 2c41c2f083e21339d0c5cb4e76f28b74cfee6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:58 +0000
Subject: [PATCH 08/30] fix: gradient of the convection integrator with a given
 convecting velocity

AssembleElementGrad, AssembleQuadratureGrad and the fast EQP variants used the solution itself
as convecting velocity and added the derivative with respect to it, unlike the vector assembly.
---
 src/hyperreduction_integ.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..2ad2bec 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // the given convecting velocity does not depend on the solution.
+      if (vQ) { continue; }
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +440,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +456,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // the given convecting velocity does not depend on the solution.
+   if (vQ) { return; }
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +490,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +521,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +533,11 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   // the given convecting velocity does not depend on the solution.
+   if (vQ)
+      ELV = 0.0;
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From dffe77c6dda58653b745733436285ff3980ceca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 09/30] fix: precomputed convection gradient wrote into the
 data of a vector assembled before

---
 src/hyperreduction_integ.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 2ad2bec..ad0bcb2 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -532,16 +532,17 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
       gradEF.Add(x(k), *((*gradEFs)[k]));
    gradEF *= w;
 
-   ELV.SetSize(dim, nbasis);
+   // ELV may still refer to the data of a vector assembled before.
+   DenseMatrix Jphi(dim, nbasis);
    // the given convecting velocity does not depend on the solution.
    if (vQ)
-      ELV = 0.0;
+      Jphi = 0.0;
    else
-      Mult(gradEF, *shape1, ELV);
+      Mult(gradEF, *shape1, Jphi);
 
    for (int k = 0; k < nbasis; k++)
    {
-      ELV.GetColumnReference(k, vec2);
+      Jphi.GetColumnReference(k, vec2);
       (*gradEFs)[k]->AddMult(vec1, vec2, w);
    }
 
@@ -549,7 +550,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    for (int k = 0; k < nbasis; k++)
    {
       jac.GetColumnReference(k, jac_col);
-      ELV.GetColumnReference(k, vec2);
+      Jphi.GetColumnReference(k, vec2);
       shape1->AddMultTranspose(vec2, jac_col);
    }
 }
-- 
2.43.0


From 05304830525af932d4cbb1d14a54e8be83f58263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:45 +0000
Subject: [PATCH 10/30] fix: the Lax-Friedrichs integrator dropped the
 integration rule given to its constructor

---
 include/interfaceinteg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/interfaceinteg.hpp b/include/interfaceinteg.hpp
index 4f25137..b7fa833 100644
--- a/include/interfaceinteg.hpp
+++ b/include/interfaceinteg.hpp
@@ -303,7 +303,8 @@ private:
 
 public:
    DGLaxFriedrichsFluxIntegrator(Coefficient &q, VectorCoefficient *ud = NULL, const IntegrationRule *ir = NULL)
-      : InterfaceNonlinearFormIntegrator(ir), Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator") {}
+      : InterfaceNonlinearFormIntegrator(ir), Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator")
+   { SetIntRule(ir); } // the virtual base NonlinearFormIntegrator is not initialized by InterfaceNonlinearFormIntegrator.
 
    virtual ~DGLaxFriedrichsFluxIntegrator() {};
 
-- 
2.43.0


From d0e61fba42bfc5545d7316d765fdac86c3b7b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 11/30] fix: precomputed Lax-Friedrichs gradient took the
 presence of element 2 from a previous assembly

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index d8a2b54..06c30f4 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1830,7 +1830,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From d90471570f1b0ec304b18199015958929260de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 12/30] fix: component-wise training loads are zero in the
 components that are switched off

The boundary and body force functions left a component of their result unset
when its switch was below 0.5.
---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..c6338df 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From aa34bd641ea490a7cd256f0c8cb1d3da5b1c6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 13/30] fix: the fifth boundary of the frame problem is
 boundary 5

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index c6338df..8e28650 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1242,7 +1242,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From b89533856db23b0dde94a60fea5ec16156508c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:50 +0000
Subject: [PATCH 14/30] fix: elasticity problems set their number of parameters

---
 src/parameterized_problem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 8e28650..83f0ee0 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1052,7 +1052,8 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1091,7 +1092,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1147,7 +1149,8 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1204,7 +1207,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1264,7 +1268,8 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
-   param_ptr.SetSize(5);
+   param_num = 5;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
    param_ptr[2] = &(function_factory::linelast_frame_wind::qwind_f);
@@ -1457,7 +1462,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
-   param_ptr.SetSize(40);
+   param_num = 40;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
    param_ptr[2] = &(function_factory::linelast_cwtrain::r_fx);
-- 
2.43.0


From c338db2ce0864b2b61314b0f29a8529bec147456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:11 +0000
Subject: [PATCH 15/30] fix: mesh tools keep the default name of the output
 file

The name was read from a string that no longer existed.
---
 utils/1d_mesh.cpp        | 7 ++++---
 utils/cubic_mesh.cpp     | 7 ++++---
 utils/rectangle_mesh.cpp | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/utils/1d_mesh.cpp b/utils/1d_mesh.cpp
index 9938eee..3d92d69 100644
--- a/utils/1d_mesh.cpp
+++ b/utils/1d_mesh.cpp
@@ -75,7 +75,8 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       oss << "1d";
       if (ser_ref_levels > 0)
@@ -88,9 +89,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/cubic_mesh.cpp b/utils/cubic_mesh.cpp
index 2fcac5c..2800995 100644
--- a/utils/cubic_mesh.cpp
+++ b/utils/cubic_mesh.cpp
@@ -182,7 +182,8 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       if (el_type_ == Element::HEXAHEDRON)
       {
@@ -221,9 +222,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/rectangle_mesh.cpp b/utils/rectangle_mesh.cpp
index 862c8a8..f40acb1 100644
--- a/utils/rectangle_mesh.cpp
+++ b/utils/rectangle_mesh.cpp
@@ -165,7 +165,8 @@ printf("%s\n", meshFileString);
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       if (el_type_ == Element::QUADRILATERAL)
       {
@@ -204,9 +205,9 @@ printf("%s\n", meshFileString);
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
-- 
2.43.0


From f93850f8a267f4b567655c7f08db787afa00988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:02 +0000
Subject: [PATCH 16/30] fix: gmsh2mfem keeps the third coordinate of a
 three-dimensional mesh

---
 utils/gmsh2mfem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/gmsh2mfem.cpp b/utils/gmsh2mfem.cpp
index 4012253..98e1eff 100644
--- a/utils/gmsh2mfem.cpp
+++ b/utils/gmsh2mfem.cpp
@@ -39,18 +39,18 @@ int main(int argc, char *argv[])
 
    // Promote to high order mesh
    if (order_ >1)
-      mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+      mesh.SetCurvature(order_, true, mesh.Dimension(), Ordering::byVDIM);
    
    // Force mesh to be nonconforming
    if (force_nc_)
    {
       if (mesh.GetNodalFESpace())
       {
-         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, mesh.Dimension(), Ordering::byVDIM);
       }
       else
       {
-         mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(order_, true, mesh.Dimension(), Ordering::byVDIM);
       }
    }
    
-- 
2.43.0


From bbc24d227b4204c5d7af1d1fe828c1d0776325e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 17/30] fix: elasticity imposes Dirichlet conditions in
 continuous spaces too

---
 src/linelast_solver.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..bd699f6 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,20 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From 081697f0536d42fc027c243b46d50d5164dbaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:17 +0000
Subject: [PATCH 18/30] fix: unsteady restart files hold the solution of their
 own time step

---
 src/unsteady_ns_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..93be1ad 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -123,6 +123,9 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
       if (save_sol && restart_interval &&
           (((step+1) % restart_interval) == 0))
       {
+         /* copy to original solution variable */
+         SortBySubdomains(*U_step, *U);
+
          restart_file = string_format(file_fmt, sol_dir.c_str(), sol_prefix.c_str(), step+1);
          SaveSolutionWithTime(restart_file, step+1, time);
       }
-- 
2.43.0


From 7b925be963ff4689dc653ec79f9780d76c3251fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 19/30] fix: EQP reduced steady flow honours the ordering of
 blocks by variable

---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..e8cef0d 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k] + 1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From c05a03ff6d9e09d450bf4d041f447051e18f1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 20/30] fix: saving a visualization in time skips subdomains
 that are not shown

---
 src/multiblock_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..c9a30cf 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -485,6 +485,9 @@ void MultiBlockSolver::SaveVisualization(const int step, const double time)
 
    for (int m = 0; m < paraviewColls.Size(); m++)
    {
+      /* subdomains that are not chosen for visualization have no collection */
+      if (!paraviewColls[m]) continue;
+
       paraviewColls[m]->SetCycle(step);
       paraviewColls[m]->SetTime(time);
    }
-- 
2.43.0


From a6ca86e4e4274f3dfabb7770e8ebdfa90c2894d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 21/30] fix: precomputed interface samples honour the offset of
 the component basis

---
 include/rom_interfaceform.hpp |  3 ++-
 src/rom_interfaceform.cpp     | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/rom_interfaceform.hpp b/include/rom_interfaceform.hpp
index 4193c71..180dca0 100644
--- a/include/rom_interfaceform.hpp
+++ b/include/rom_interfaceform.hpp
@@ -141,7 +141,8 @@ private:
    void PrecomputeEQPSample(const IntegrationRule &ir,
                             FaceElementTransformations *tr1, FaceElementTransformations *tr2,
                             FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-                            const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample);
+                            const DenseMatrix &basis1, const DenseMatrix &basis2,
+                            const int basis1_offset, const int basis2_offset, EQPSample &eqp_sample);
 };
 
 } // namespace mfem
diff --git a/src/rom_interfaceform.cpp b/src/rom_interfaceform.cpp
index 13e5dca..ddd060b 100644
--- a/src/rom_interfaceform.cpp
+++ b/src/rom_interfaceform.cpp
@@ -813,8 +813,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
             const int itf = sample->info.el;
             topol_handler->GetInterfaceTransformations(mesh1, mesh2, &(*interface_infos)[itf], tr1, tr2);
 
-            PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2,
-                                *basis1, *basis2, *sample);
+            PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2, *basis1, *basis2,
+                                comp_basis_dof_offsets[c1], comp_basis_dof_offsets[c2], *sample);
          }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
          if (c1 == c2)
@@ -826,7 +826,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
 void ROMInterfaceForm::PrecomputeEQPSample(
    const IntegrationRule &ir, FaceElementTransformations *tr1, FaceElementTransformations *tr2,
    FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-   const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample)
+   const DenseMatrix &basis1, const DenseMatrix &basis2,
+   const int basis1_offset, const int basis2_offset, EQPSample &eqp_sample)
 {
    const int nbasis1 = basis1.NumCols();
    const int nbasis2 = basis2.NumCols();
@@ -837,7 +838,11 @@ void ROMInterfaceForm::PrecomputeEQPSample(
    Array<int> vdofs1, vdofs2;
    fes1->GetElementVDofs(tr1->Elem1No, vdofs1);
    fes2->GetElementVDofs(tr2->Elem1No, vdofs2);
-   
+   for (int v = 0; v < vdofs1.Size(); v++)
+      vdofs1[v] += basis1_offset;
+   for (int v = 0; v < vdofs2.Size(); v++)
+      vdofs2[v] += basis2_offset;
+
    int dim = fe1->GetDim();
    int ndofs1 = fe1->GetDof();
    int ndofs2 = fe2->GetDof();
-- 
2.43.0


From 38a9be146b91dbf260a09a03597df7a2ce5cab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 22/30] fix: minimising from a solution returned nonsense,
 success of an earlier call was reported

---
 src/linalg_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 099478d..16193d3 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -895,6 +895,10 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    double res0 = sqrt(Jmin);
    printf("Initial iteration: ||r|| = %.4E\n", res0);
 
+   /* the initial guess may already be the solution, where there is no direction to go. */
+   converged = (res0 <= abs_tol);
+   if (converged) return;
+
    Gradient(rhs, sol, g);
 
    g *= -1.0; xi = g; h = g;
-- 
2.43.0


From 3c195567fc733b3d339607c19542bf6d2a0adf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 23/30] fix: the residual minimiser aborted when a conjugate
 direction led upwards

---
 src/linalg_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 16193d3..81bf634 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -943,6 +943,8 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
       
       g.Set(-1.0, xi);
       add(g, gamma, h, xi);
+      // the line search is inexact, the conjugate direction may lead upwards.
+      if ((xi * g) <= 0.0) xi = g;
       h = xi;
    }
 
-- 
2.43.0


From 42800a9ccff106a332eea35beece399080e911dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 24/30] fix: hdf5_utils: take the data type from the type, not
 from an entry that empty objects do not have

---
 include/hdf5_utils.hpp |  6 +++---
 src/hdf5_utils.cpp     | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index 1a31d9b..b5119ba 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -142,7 +142,7 @@ void ReadDataset(hid_t &source, std::string dataset, Array<T> &value)
    value.SetSize(dims[0]);
    if (dims[0] > 0)
    {
-      hid_t dataType = hdf5_utils::GetType(value[0]);
+      hid_t dataType = hdf5_utils::GetType(T());
       H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
    }
 
@@ -175,7 +175,7 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
       return;
    }
 
-   hid_t dataType = hdf5_utils::GetType(value(0, 0));
+   hid_t dataType = hdf5_utils::GetType(T());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
 
    errf = H5Dclose(dset_id);
@@ -216,7 +216,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Array2D<T> &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0));
+   hid_t dataType = hdf5_utils::GetType(T());
    hsize_t dims[2];
    dims[0] = value.NumRows();
    dims[1] = value.NumCols();
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..bd87169 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -112,7 +112,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
 
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we load the transpose.
    value.SetSize(dims[1], dims[0]);
-   hid_t dataType = hdf5_utils::GetType(value(0, 0));
+   hid_t dataType = hdf5_utils::GetType(double());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
    errf = H5Dclose(dset_id);
@@ -123,7 +123,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseMatrix &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0));
+   hid_t dataType = hdf5_utils::GetType(double());
    hsize_t dims[2];
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we save the transpose.
    dims[0] = value.NumCols();
@@ -353,7 +353,7 @@ void ReadDataset(hid_t &source, std::string dataset, Vector &value)
    assert(errf >= 0);
 
    value.SetSize(dims[0]);
-   hid_t dataType = hdf5_utils::GetType(value[0]);
+   hid_t dataType = hdf5_utils::GetType(double());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
    errf = H5Dclose(dset_id);
@@ -365,7 +365,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Vector &value)
    herr_t errf = 0;
    assert(value.Size() > 0);
 
-   hid_t dataType = hdf5_utils::GetType(value[0]);
+   hid_t dataType = hdf5_utils::GetType(double());
    hsize_t dims[1];
    dims[0] = value.Size();
 
@@ -399,7 +399,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
 
    // hdf5 is row-major, while mfem::DenseTensor is column major. we load the transpose.
    value.SetSize(dims[2], dims[1], dims[0]);
-   hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
+   hid_t dataType = hdf5_utils::GetType(double());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
    errf = H5Dclose(dset_id);
@@ -410,7 +410,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseTensor &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0,0));
+   hid_t dataType = hdf5_utils::GetType(double());
    hsize_t dims[3];
    // hdf5 is row-major, while mfem::DenseTensor is column major. we save the transpose.
    dims[0] = value.SizeK();
-- 
2.43.0


From cdd3df9f059f202f75365c9cf27a5dbb4bcea399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 25/30] fix: StokesSolver: find boundaries without data by
 their attribute when balancing the velocity data

---
 src/stokes_solver.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..edfaaea 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1127,21 +1127,23 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
    // Ensure incompressibility.
    function_factory::flow_problem::del_u = 0.0;
    function_factory::flow_problem::x0.SetSize(dim);
+   function_factory::flow_problem::x0 = 0.0;
    if (!pres_dbc)
    {
       Array<bool> nz_dbcs(numBdr);
       nz_dbcs = true;
       for (int b = 0; b < problem->battr.Size(); b++)
       {
-         if (problem->bdr_type[b] == BoundaryType::ZERO)
-         {
-            if (problem->battr[b] == -1)
-            { nz_dbcs = false; break; }
-            else
-               nz_dbcs[b] = false;
-         }
+         const bool nonzero = (problem->bdr_type[b] != BoundaryType::ZERO);
+         if (problem->battr[b] <= 0)
+         { nz_dbcs = nonzero; continue; }
+
+         int idx = global_bdr_attributes.Find(problem->battr[b]);
+         if (idx >= 0) nz_dbcs[idx] = nonzero;
       }
-      SetComplementaryFlux(nz_dbcs);
+      // there is no flux to balance when all boundaries are no-slip.
+      if (nz_dbcs.Find(true) >= 0)
+         SetComplementaryFlux(nz_dbcs);
    }
 }
 
-- 
2.43.0


From 1c0846614af81390a85b1f61084ce978e0e27d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 26/30] fix: StokesSolver: judge the balance of the velocity
 data relative to its size

---
 src/stokes_solver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index edfaaea..e6cdf1e 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1234,7 +1234,7 @@ void StokesSolver::SetComplementaryFlux(const Array<bool> nz_dbcs)
    (*x0) = x1;
 
    // Evaluate boundary flux \int u_d \dot n dA.
-   double bflux = 0.0, dirflux = 0.0;
+   double bflux = 0.0, dirflux = 0.0, absflux = 0.0;
    for (int m = 0; m < numSub; m++)
    {
       mesh = meshes[m];
@@ -1250,7 +1250,9 @@ void StokesSolver::SetComplementaryFlux(const Array<bool> nz_dbcs)
          {
             ud = ud_coeffs[global_idx];
             eltrans = ufesm -> GetBdrElementTransformation (i);
-            bflux += ComputeBEFlux(*ufesm->GetBE(i), *eltrans, *ud);
+            const double bflux_i = ComputeBEFlux(*ufesm->GetBE(i), *eltrans, *ud);
+            bflux += bflux_i;
+            absflux += abs(bflux_i);
             dirflux += ComputeBEFlux(*ufesm->GetBE(i), *eltrans, dir_coeff);
          }
       }  // for (int i = 0; i < ufesm -> GetNBE(); i++)
@@ -1259,8 +1261,8 @@ void StokesSolver::SetComplementaryFlux(const Array<bool> nz_dbcs)
    // Set the flux to ensure incompressibility.
    function_factory::flow_problem::del_u = bflux / dirflux;
 
-   // Make sure the resulting flux is zero.
-   double threshold = 1.0e-12;
+   // Make sure the resulting flux is zero, up to the round-off of the sum.
+   double threshold = 1.0e-12 * max(1.0, absflux);
    bflux = 0.0;
    for (int m = 0; m < numSub; m++)
    {
-- 
2.43.0


From b3ef3aa36321b11189ae6f6d6c74377f3f0e6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 27/30] fix: InputParser: refuse a forced option without a key,
 which replaced the whole configuration

---
 src/input_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..ffd2060 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -81,7 +81,7 @@ void InputParser::OverwriteOption(const std::string &forced_input)
    {
       std::stringstream kvss(kv);
       success = true;
-      success = success && (std::getline(kvss, key, '='));
+      success = success && (std::getline(kvss, key, '=')) && (!key.empty());
       success = success && (std::getline(kvss, val, '='));
       success = success && (!std::getline(kvss, dummy, '='));
       if (!success)
-- 
2.43.0


From 0c9a07a451657c26019b687c912e5fc441532809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 28/30] fix: skip samples of other processes instead of waiting
 on them forever

GenerateSamples did not advance past a sample that belongs to another
process, so a run on several processes never finished.
---
 src/main_workflow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..bba3ce5 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -154,7 +154,11 @@ void GenerateSamples(MPI_Comm comm)
    int s = 0;
    while (s < sample_generator->GetTotalSampleSize())
    {
-      if (!sample_generator->IsMyJob(s)) continue;
+      if (!sample_generator->IsMyJob(s))
+      {
+         s++;
+         continue;
+      }
 
       // NOTE: this will change config.dict_
       sample_generator->SetSampleParams(s);
-- 
2.43.0


From 67f791d20e64453f8553d18c22c4435f9dd1e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:42 +0000
Subject: [PATCH 29/30] fix: visualize reduced bases of separate variables

SaveBasisVisualization indexed components by basis block and took every
block to hold all variables, which aborts, or reads past the basis, when
variables have bases of their own.
---
 src/rom_handler.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..bb155db 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -971,30 +971,35 @@ void MFEMROMHandler::SaveBasisVisualization(
       std::string file_prefix = visual_prefix;
       file_prefix += "_" + std::to_string(c);
 
+      /* with separate variable basis, each block has only one variable of a component. */
+      const int comp_idx = (separate_variable) ? c / num_var : c;
+      const int var0 = (separate_variable) ? c % num_var : 0;
+      const int num_block_var = (separate_variable) ? 1 : num_var;
+
       int midx = -1;
       for (int m = 0; m < numSub; m++)
-         if (topol_handler->GetMeshType(m) == c) { midx = m; break; }
+         if (topol_handler->GetMeshType(m) == comp_idx) { midx = m; break; }
       assert(midx >= 0);
 
-      Mesh *mesh = fes[midx * num_var]->GetMesh();
-      const int order = fes[midx * num_var]->FEColl()->GetOrder();
+      Mesh *mesh = fes[midx * num_var + var0]->GetMesh();
+      const int order = fes[midx * num_var + var0]->FEColl()->GetOrder();
       ParaViewDataCollection coll = ParaViewDataCollection(file_prefix.c_str(), mesh);
 
-      Array<int> var_offsets(num_ref_basis[c] * num_var + 1);
+      Array<int> var_offsets(num_ref_basis[c] * num_block_var + 1);
       var_offsets[0] = 0;
       for (int k = 0, vidx = 1; k < num_ref_basis[c]; k++)
-         for (int v = 0, idx = midx * num_var; v < num_var; v++, idx++, vidx++)
+         for (int v = 0, idx = midx * num_var + var0; v < num_block_var; v++, idx++, vidx++)
             var_offsets[vidx] = fes[idx]->GetVSize();
       var_offsets.PartialSum();
       BlockVector basis_view(ref_basis[c]->GetData(), var_offsets);
 
-      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_var);
+      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_block_var);
       basis_gf = NULL;
       for (int k = 0, idx = 0; k < num_ref_basis[c]; k++)
       {
-         for (int v = 0, fidx = midx * num_var; v < num_var; v++, idx++, fidx++)
+         for (int v = 0, fidx = midx * num_var + var0; v < num_block_var; v++, idx++, fidx++)
          {
-            std::string field_name = var_names[v] + "_basis_" + std::to_string(k);
+            std::string field_name = var_names[var0 + v] + "_basis_" + std::to_string(k);
             basis_gf[idx] = new GridFunction(fes[fidx], basis_view.GetBlock(idx), 0);
             coll.RegisterField(field_name.c_str(), basis_gf[idx]);   
          }
-- 
2.43.0


From af19c6260a7c875abeded55ed1681d424eb28d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:45 +0000
Subject: [PATCH 30/30] fix: project every variable when saving the reduced
 full-order solution

---
 include/multiblock_solver.hpp | 3 ++-
 src/main_workflow.cpp         | 2 +-
 src/multiblock_solver.cpp     | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/multiblock_solver.hpp b/include/multiblock_solver.hpp
index ea327e0..33089dd 100644
--- a/include/multiblock_solver.hpp
+++ b/include/multiblock_solver.hpp
@@ -249,7 +249,8 @@ public:
 
    virtual void LoadReducedBasis() { rom_handler->LoadReducedBasis(); }
    virtual void ProjectOperatorOnReducedBasis() = 0;
-   virtual void ProjectRHSOnReducedBasis();
+   virtual void ProjectRHSOnReducedBasis() { ProjectRHSOnReducedBasis(RHS); }
+   void ProjectRHSOnReducedBasis(BlockVector *vec);
    virtual void SolveROM();
    virtual void SaveBasisVisualization()
    { rom_handler->SaveBasisVisualization(fes, var_names); }
diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index bba3ce5..abcffe8 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -668,7 +668,7 @@ double SingleRun(MPI_Comm comm, const std::string output_file)
          rom->SaveReducedSolution("rom_reduced_sol.txt");
 
          // use ROMHandler::reduced_rhs as a temporary variable.
-         rom->ProjectRHSOnReducedBasis(test->GetSolution());
+         test->ProjectRHSOnReducedBasis(test->GetSolution());
          rom->SaveReducedRHS("fom_reduced_sol.txt");
       }
 
diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index c9a30cf..ed36995 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -669,14 +669,14 @@ void MultiBlockSolver::SaveSnapshots(SampleGenerator *sample_generator)
    return;
 }
 
-void MultiBlockSolver::ProjectRHSOnReducedBasis()
+void MultiBlockSolver::ProjectRHSOnReducedBasis(BlockVector *vec)
 {
    // View vector for RHS.
    BlockVector *RHS_domain = NULL;
    if (separate_variable_basis)
-      RHS_domain = new BlockVector(RHS->GetData(), var_offsets); 
+      RHS_domain = new BlockVector(vec->GetData(), var_offsets); 
    else
-      RHS_domain = new BlockVector(RHS->GetData(), domain_offsets);
+      RHS_domain = new BlockVector(vec->GetData(), domain_offsets);
       
    rom_handler->ProjectRHSOnReducedBasis(RHS_domain);
 
-- 
2.43.0

