From f1cab981bdda56bcbf07bfa3bb5d2b69cf458b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 01/43] fix: copying a mesh no longer leaks its kernel, and
 self-assignment keeps the mesh

---
 src/Mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..d1a9f63 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -20,7 +20,7 @@ Mesh::Mesh()
 	_iColor = -1;
 }
 
-Mesh::Mesh(const Mesh& m)
+Mesh::Mesh(const Mesh& m) : Mesh()
 {
 	this->operator=(m);
 }
@@ -109,7 +109,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
-- 
2.43.0


From 31afc6f2d9ff007ab28f581adc03628777d3fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 02/43] fix: appending a mesh to itself terminates

---
 src/Mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index d1a9f63..cd7f424 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -126,7 +126,9 @@ void Mesh::add_mesh(const Mesh& f)
 	_iColor = f.get_color();
 
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices(); // f may be this mesh
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -134,7 +136,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 781eff0c50dad2e1839d82aa875a044199ff634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 03/43] fix: assigning or appending a smooth mesh to itself
 keeps it and terminates

---
 src/SmoothMesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..1fa9ffc 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,7 +54,8 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTrianglesToAdd = vst.nb_triangles(); // vst may be this mesh
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		_vst.push_back(vst.triangle(i));
 	}
-- 
2.43.0


From a56c64462721279af2a779b230caef1e542c67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 04/43] fix: assigning a face copies the source into the target

---
 src/Face.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
-- 
2.43.0


From ecefdecf9cef6a11182ff2d18699070a667356b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 05/43] fix: copying or assigning a solid copies its mesh and
 faces

---
 src/Solid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From 5d8f624316f46d4b7c51fdc28bb1e96200a40c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 06/43] fix: converting a mesh to NURBS skips removed triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..733d6e9 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From e2a4c8e4c0a6aa4088ba4992e3eec261ed08c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 07/43] fix: splitting an edge keeps the orientation and
 boundary of the second triangle

---
 src/Mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index cd7f424..6e31842 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -278,14 +278,14 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 676dbfca17148f94e3c2e7af145d76e095021cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 08/43] fix: cylinder caps no longer contain degenerate
 triangles

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From ac50be2ac0a48016bc23e87eb86c72bef24655de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 09/43] fix: meshing a curved patch covers the whole patch with
 one orientation

---
 src/QuadBezierTriangle.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..2b91069 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -93,14 +93,14 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 		int lineSize = iNbSegments - is + 1;
 
 		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
+		m.add_triangle(pos, pos + lineSize, pos + 1);
 
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 1; iu <= lineSize - 2; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize - 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);
 		}
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 23854b7f7ca8ac1060b80723152d21e801679a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 10/43] fix: all octants of the smooth sphere face outward

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..dd1f680 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(0, d, 0), Point3(-d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(-d, d, 0), Point3(0, d, d), Point3(-d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(0, -d, 0), Point3(d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(d, -d, 0), Point3(0, -d, d), Point3(d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(0, d, 0), Point3(d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(d, d, 0), Point3(0, d, -d), Point3(d, 0, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(0, -d, 0), Point3(-d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(-d, -d, 0), Point3(0, -d, -d), Point3(-d, 0, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From 30ce837f4a301afd4f64186a44a53e723a742f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 11/43] fix: evaluating a NURBS no longer writes shared scratch
 buffers (wrong size after degree elevation, data race)

---
 src/NurbsCurve.cpp   | 15 ++++++++-------
 src/NurbsCurve.h     |  3 ---
 src/NurbsSurface.cpp | 26 ++++++++++++--------------
 src/NurbsSurface.h   |  5 -----
 4 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..bb94cb6 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -26,8 +26,6 @@ void NurbsCurve::clear()
 void NurbsCurve::set_degree(int degree)
 {
 	_degree = degree;
-	_tempPoints.resize(degree + 1);
-	_tempWeights.resize(degree + 1);
 }
 
 int NurbsCurve::degree() const
@@ -238,6 +236,9 @@ void NurbsCurve::evaluate(double u, Point3& p) const
 
 	int knotIndex = find_knot_span(_knots, u);
 
+	vector<Point3> tempPoints(_degree + 1);
+	vector<double> tempWeights(_degree + 1);
+
 	for (int j = 0; j < _degree + 1; j++)
 	{
 		int idx = j + knotIndex - _degree;
@@ -245,19 +246,19 @@ void NurbsCurve::evaluate(double u, Point3& p) const
 		assert(idx < _iNbPoints);
 
 		double w = _weights[idx];
-		_tempWeights[j] = w;
-		_tempPoints[j] = _points[idx] * w;
+		tempWeights[j] = w;
+		tempPoints[j] = _points[idx] * w;
 	}
 
 	for (int r = 1; r < _degree + 1; r++)
 		for (int j = _degree; j > r - 1; j--)
 		{
 			double alpha = (u - _knots[j + knotIndex - _degree]) / (_knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree]);
-			_tempPoints[j] = _tempPoints[j - 1] * (1. - alpha) + _tempPoints[j] * alpha;
-			_tempWeights[j] = _tempWeights[j - 1] * (1. - alpha) + _tempWeights[j] * alpha;
+			tempPoints[j] = tempPoints[j - 1] * (1. - alpha) + tempPoints[j] * alpha;
+			tempWeights[j] = tempWeights[j - 1] * (1. - alpha) + tempWeights[j] * alpha;
 		}
 
-	p = _tempPoints[_degree] / _tempWeights[_degree];
+	p = tempPoints[_degree] / tempWeights[_degree];
 }
 
 ///////////////////////////////////////////////////////////////////////////
diff --git a/src/NurbsCurve.h b/src/NurbsCurve.h
index fc77947..8b36d97 100644
--- a/src/NurbsCurve.h
+++ b/src/NurbsCurve.h
@@ -50,9 +50,6 @@ private:
 	vector <double> _weights;
 	vector <Point3> _points;
 	int _iNbPoints;
-
-	mutable vector<Point3> _tempPoints;
-	mutable vector<double> _tempWeights;
 };
 ///////////////////////////////////////////////////////////////////////////
 
diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..98ac7dd 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -34,11 +34,6 @@ void NurbsSurface::set_degree(int degreeU, int degreeV)
 {
 	_degreeU = degreeU;
 	_degreeV = degreeV;
-
-	_tempPointsU.resize(degreeU + 1);
-	_tempPointsV.resize(degreeV + 1);
-	_tempWeightsU.resize(degreeU + 1);
-	_tempWeightsV.resize(degreeV + 1);
 }
 
 int NurbsSurface::degree_u() const
@@ -395,6 +390,9 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 	assert(iNbCtrlPointsV == _knotsV.size() - _degreeV - 1);
 	assert(iNbCtrlPointsU * iNbCtrlPointsV == _points.size());
 
+	vector<Point3> tempPointsU(_degreeU + 1), tempPointsV(_degreeV + 1);
+	vector<double> tempWeightsU(_degreeU + 1), tempWeightsV(_degreeV + 1);
+
 	//tensor product
 	for (int vi = 0; vi < _degreeV + 1; vi++)
 	{
@@ -410,20 +408,20 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 			assert(idxU < iNbCtrlPointsU);
 
 			double w = _weights[idxU + iNbCtrlPointsU * idxV];
-			_tempWeightsU[ui] = w;
-			_tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;
+			tempWeightsU[ui] = w;
+			tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;
 		}
 
 		for (int ru = 1; ru < _degreeU + 1; ru++)
 			for (int ju = _degreeU; ju > ru - 1; ju--)
 			{
 				double alpha = (u - _knotsU[ju + knotIndexU - _degreeU]) / (_knotsU[ju + 1 + knotIndexU - ru] - _knotsU[ju + knotIndexU - _degreeU]);
-				_tempPointsU[ju] = _tempPointsU[ju - 1] * (1. - alpha) + _tempPointsU[ju] * alpha;
-				_tempWeightsU[ju] = _tempWeightsU[ju - 1] * (1. - alpha) + _tempWeightsU[ju] * alpha;
+				tempPointsU[ju] = tempPointsU[ju - 1] * (1. - alpha) + tempPointsU[ju] * alpha;
+				tempWeightsU[ju] = tempWeightsU[ju - 1] * (1. - alpha) + tempWeightsU[ju] * alpha;
 			}
 
-		_tempPointsV[vi] = _tempPointsU[_degreeU];
-		_tempWeightsV[vi] = _tempWeightsU[_degreeU];
+		tempPointsV[vi] = tempPointsU[_degreeU];
+		tempWeightsV[vi] = tempWeightsU[_degreeU];
 	}
 
 	//evaluate on v direction
@@ -431,9 +429,9 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 		for (int jv = _degreeV; jv > rv - 1; jv--)
 		{
 			double alpha = (v - _knotsV[jv + knotIndexV - _degreeV]) / (_knotsV[jv + 1 + knotIndexV - rv] - _knotsV[jv + knotIndexV - _degreeV]);
-			_tempPointsV[jv] = _tempPointsV[jv - 1] * (1. - alpha) + _tempPointsV[jv] * alpha;
-			_tempWeightsV[jv] = _tempWeightsV[jv - 1] * (1. - alpha) + _tempWeightsV[jv] * alpha;
+			tempPointsV[jv] = tempPointsV[jv - 1] * (1. - alpha) + tempPointsV[jv] * alpha;
+			tempWeightsV[jv] = tempWeightsV[jv - 1] * (1. - alpha) + tempWeightsV[jv] * alpha;
 		}
 
-	p = _tempPointsV[_degreeV] / _tempWeightsV[_degreeV];
+	p = tempPointsV[_degreeV] / tempWeightsV[_degreeV];
 }
\ No newline at end of file
diff --git a/src/NurbsSurface.h b/src/NurbsSurface.h
index c735cde..6a2cafe 100644
--- a/src/NurbsSurface.h
+++ b/src/NurbsSurface.h
@@ -72,11 +72,6 @@ private:
 	vector <double> _knotsU, _knotsV;
 	vector <double> _weights;
 	vector <Point3> _points;
-
-	mutable vector<Point3> _tempPointsU;
-	mutable vector<Point3> _tempPointsV;
-	mutable vector<double> _tempWeightsU;
-	mutable vector<double> _tempWeightsV;
 };
 ///////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 4d6a9bd5d9eca48aa07f198be5aceade3b73267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 12/43] fix: a reused NURBS surface forgets its former closed
 flags and weights

---
 src/NurbsSurface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 98ac7dd..21b3b0b 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
@@ -125,7 +127,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From 82fdffbff90e54593251dece2d79f049f321b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 13/43] fix: meshing a NURBS surface without points in v does
 nothing

---
 src/NurbsUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 733d6e9..b0d235d 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -89,7 +89,7 @@ void NurbsUtil::to_mesh(const NurbsSurface& n, Mesh& m, int iNbSegments, bool bC
 	int iNbPointsU = iNbSegments * n.nb_points_u();
 	int iNbPointsV = iNbSegments * n.nb_points_v();
 
-	if (iNbPointsU * iNbPointsU == 0)
+	if (iNbPointsU * iNbPointsV == 0)
 		return;
 
 	// add vertices, for now we keep all vertices, even if not used because closed
-- 
2.43.0


From c495705dada558f95c504f05d17b3048c194d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 14/43] fix: converting a non square image to double keeps each
 pixel at its place

---
 src/Image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..0fabb38 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -106,9 +106,9 @@ public:
     void to_double(vector<double>& img)
     {
         img.resize(size());
-        for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
-            for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+        for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
+            for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
+                img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
     }
 
 private:
-- 
2.43.0


From c86a90278e1f138a382f1322459b2ab521dc51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 15/43] fix: converting a grey image to grey does not read
 planes it does not have

---
 src/ImageUtil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..cdbdeaf 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -18,7 +18,10 @@ void ImageUtil::convert_to_bw(const Image& im, Image& imBW)
 	for (int i=0; i< im.width();i++)
 		for (int j = 0; j < im.height(); j++)
 		{
-			imBW(i, j, 0) = (im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) / 3;
+			if (im.planes() >= 3)
+				imBW(i, j, 0) = (im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) / 3;
+			else
+				imBW(i, j, 0) = im(i, j, 0);
 		}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 30b7dfa6a7ac9797ab311ddda26a851f1b478998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 16/43] fix: a span cut by the left border keeps its depth

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..4e941a8 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -273,7 +273,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 	// cut the line if out of screen
 	if (ax < 0)
 	{
-		double t = (double)(bx-0) / (bx - ax);
+		double t = (double)(0-ax) / (bx - ax);
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-- 
2.43.0


From c0f54d63e26601e444097dc6edef402613a1aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 17/43] fix: lighting clamps negative colour channels

---
 src/Renderer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 4e941a8..f010d35 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -69,14 +69,20 @@ int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 	int iRed = (int)(dRTotal * 256.+0.5);
 	if (iRed > 255)
 		iRed = 255;
+	if (iRed < 0)
+		iRed = 0;
 
 	int iGreen = (int)(dGTotal * 256.+0.5);
 	if (iGreen > 255)
 		iGreen = 255;
+	if (iGreen < 0)
+		iGreen = 0;
 
 	int iBlue = (int)(dBTotal * 256.+0.5);
 	if (iBlue > 255)
 		iBlue = 255;
+	if (iBlue < 0)
+		iBlue = 0;
 
 	return (iRed << 16) + (iGreen << 8) + iBlue;
 }
-- 
2.43.0


From d2c44b147cee948427dbf25b94ac815824c5a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 18/43] fix: the renderer cannot be copied and deletes its
 lights through a virtual destructor

---
 src/Renderer.h      | 3 +++
 src/RendererLight.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/Renderer.h b/src/Renderer.h
index a3f4122..a7ce74d 100644
--- a/src/Renderer.h
+++ b/src/Renderer.h
@@ -15,6 +15,9 @@ public:
 	Renderer(int* pBuffer, int width, int height);
 	~Renderer();
 
+	Renderer(const Renderer&) = delete; // owns its buffers and lights
+	Renderer& operator=(const Renderer&) = delete;
+
 	void clear();
 	void set_background(int iBackgroundColor);
 	void set_camera(double ox, double oy, double oz, double ahead, double yaw, double pitch, double roll, double zoom);
diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..00a492d 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() = default;
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 7386827c795790d483dbf6454018f6a82ec9a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 19/43] fix: projecting a point near the camera plane does not
 overflow the screen coordinates

---
 src/RendererCamera.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..3c7b55e 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -3,6 +3,18 @@ using namespace std;
 
 #include "RendererCamera.h"
 
+#define MAXSCREEN (1<<28)
+
+// points near the camera plane may project anywhere: keep the coordinate convertible to int
+static int to_screen(double d)
+{
+	if (!(d > -MAXSCREEN)) // also not a number
+		return -MAXSCREEN;
+	if (d > MAXSCREEN)
+		return MAXSCREEN;
+	return (int)d;
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 RendererCamera::RendererCamera() :
 	_rot()
@@ -51,8 +63,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = to_screen(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = to_screen(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From e14ed75bdf81d2514bc8b2e61ad88be451f883e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 20/43] fix: STEP control points and weights are listed u
 first, as their degrees and knots

---
 src/StepFile.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..ba8b3cd 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -88,18 +88,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write control points
 	_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << "#" << iPointIndex;
-			iPointIndex++;
-			if (i + 1 != n.nb_points_u())
+			_f << "#" << iPointIndex + n.nb_points_u() * j + i;
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 
@@ -148,17 +147,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write weights
 	_f << endl << "RATIONAL_B_SPLINE_SURFACE((" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
 			_f << n.weights()[n.nb_points_u() * j + i];
-			if (i + 1 != n.nb_points_u())
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 	_f << endl << "))";
-- 
2.43.0


From 64df5a55a5efc32b9cb46d901b05d6e009a9b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 21/43] fix: OBJ polylines refer to their own vertices,
 1-based, on a line of their own

---
 src/OBJFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..390afcf 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -141,8 +141,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From eacdbb8180138bbe44e44d67b3b36676e89cfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 22/43] fix: saving an OBJ file reports write errors

---
 src/OBJFile.cpp | 6 +++---
 src/OBJFile.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 390afcf..231ddbb 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -16,8 +16,7 @@ namespace OBJFile
 			return false;
 
 		ow.write(to_mesh);
-		ow.close();
-		return true;
+		return ow.close();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -83,9 +82,10 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
-void OBJWriter::close()
+bool OBJWriter::close()
 {
 	_f.close();
+	return !_f.fail();
 }
 
 void OBJWriter::write(const Mesh& to_mesh)
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..131280e 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,7 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); //return true if everything was written
 
 	void write(const Mesh& to_mesh);
 	void write(const vector<Point3>& polyline);
-- 
2.43.0


From 616b105e825694f05dbd607936cfa887212a16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 23/43] fix: saving a STL file reports write errors

---
 src/STLFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..1b51c10 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,8 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+		f.close();
+		return !f.fail();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From 6ff04c450d4f3cc3763416e30f2fc7290cad5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 24/43] fix: saving a BMP file reports write errors

---
 src/ImageIoBmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..6e07b53 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -252,6 +252,6 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 	}
 
 	fbmp.close();
-	return true;
+	return !fbmp.fail();
 }
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 310049bc45b6f527ddea000d8b5273369cbdfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 25/43] fix: loading a truncated STL file fails instead of
 inventing facets

---
 src/STLFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 1b51c10..da9df81 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -76,6 +76,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || nbFacet < 0)
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -103,6 +105,9 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f)
+				return false; // truncated file
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From ec8754199012d9e21a90f08f5f068823015220b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 26/43] fix: loading a malformed OBJ file fails instead of
 storing garbage or never ending

---
 src/OBJFile.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 231ddbb..996d173 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -27,11 +27,10 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		string sLine;
+		while (getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
-
+			string sType;
 			if (sLine.size() == 0)
 				continue;
 
@@ -42,7 +41,8 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
+				if (!(ss >> x >> y >> z))
+					return false;
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
@@ -50,13 +50,18 @@ namespace OBJFile
 			if (sType == "f")
 			{
 				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
+				if (!(ss >> i1 >> i2 >> i3))
+					return false;
+
+				int iNbVertices = to_mesh.nb_vertices();
+				if (i1 < 1 || i2 < 1 || i3 < 1 || i1 > iNbVertices || i2 > iNbVertices || i3 > iNbVertices)
+					return false;
 
 				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
 			}
 		}
 
-		return true;
+		return !f.bad();
 	}
 	///////////////////////////////////////////////////////////////////////////
 }
-- 
2.43.0


From fe0f45b0cf2939d69fb4d82a3aeaca556f3adcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 27/43] fix: reading a BMP skips the row padding of every width

---
 src/ImageIoBmp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 6e07b53..13d7527 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -74,8 +74,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
-		int iPack = iLineWidth - iLineWidthPerfect;
+		int iPack = (4 - iLineWidthPerfect % 4) % 4;
 
 		// read data buffer
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
@@ -99,8 +98,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
-		int iPack = iLineWidth - iWidth;
+		int iPack = (4 - iWidth % 4) % 4;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
 		//read lut, but do not use:
-- 
2.43.0


From d6c2ad44d65a89ed7dac4f01a63a176a43751135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:02 +0000
Subject: [PATCH 28/43] fix: reading a malformed or truncated BMP fails before
 allocating or using what is not in the file

---
 src/ImageIoBmp.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 13d7527..e05ddcb 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -46,7 +46,21 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	if (!fbmp || (iWidth <= 0) || (iHeight <= 0))
+		return false;
+	if ((sBPP != 8) && (sBPP != 24) && (sBPP != 32))
+		return false;
+
 	int iNbByte = sBPP >> 3;
+
+	// the pixels must be in the file, before allocating them
+	const std::streamoff pos = fbmp.tellg();
+	fbmp.seekg(0, std::ios::end);
+	const std::streamoff end = fbmp.tellg();
+	fbmp.seekg(pos);
+	if (!fbmp || ((end - pos) / iHeight / iNbByte < iWidth))
+		return false;
+
 	pImage->resize(iWidth, iHeight, iNbByte);
 
 	if (sBPP == 32)
@@ -68,7 +82,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 				pLineY[4 * iC] = cTmpR;
 			}
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	if (sBPP == 24)
@@ -93,7 +107,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	if (sBPP == 8)
@@ -111,7 +125,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 			fbmp.read((char*)pLineY, iWidth);
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	//format not handled for now
-- 
2.43.0


From 572b2c83ae0fe402ac48603415b1cf8726bff181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 29/43] fix: saving an image with an unsupported number of
 planes as BMP fails instead of writing no pixel

---
 src/ImageIoBmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index e05ddcb..bf731df 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -136,6 +136,9 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 {
 	assert(pImage != 0);
 
+	if ((pImage->planes() != 1) && (pImage->planes() != 3) && (pImage->planes() != 4))
+		return false;
+
 	//create file
 	std::fstream fbmp(sFilename.data(), std::ios::binary | std::ios::out);
 	if (!fbmp)
-- 
2.43.0


From cc05e9722133095771f758014ab0bb7a5a7542ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 30/43] fix: a point on the line of an edge but outside the
 triangle is not contained

---
 src/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..eb8f783 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -369,6 +369,10 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	// u is null when p is on the line p2p3
+	if (v.dot_product(w) < 0.)
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From 47b02f422958e6ed8fd569eb5d217be97395371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 31/43] fix: converting an image to double gives one value per
 pixel

---
 src/Image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image.h b/src/Image.h
index 0fabb38..bf0edad 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,7 +105,7 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
+        img.resize((size_t)width() * height()); // one value per pixel, from the first plane
         for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
             for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
                 img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
-- 
2.43.0


From 1e316de360334b1864fad77a9c84e90b744ee69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:41 +0000
Subject: [PATCH 32/43] fix: splitting two meshes uses the triangle indexes of
 the meshes it splits, and splits each triangle once

---
 src/Mesh.cpp        |  3 +++
 src/MeshBoolean.cpp | 16 ++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 6e31842..a038a0c 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -355,6 +355,9 @@ void Mesh::apply_transform(const Transform& t)
 //////////////////////////////////////////////////////////////////////////////////
 void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 {
+	if (is_triangle_unlinked(iTriangle)) // already split
+		return;
+
 	Triangle3 tA; get_triangle(iTriangle, tA);
 	Point3 pIntersection;
 
diff --git a/src/MeshBoolean.cpp b/src/MeshBoolean.cpp
index b3f8ab0..deac4c3 100644
--- a/src/MeshBoolean.cpp
+++ b/src/MeshBoolean.cpp
@@ -9,23 +9,27 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 	Aoutside = A;
 	Boutside = B;
 
+	// a copy does not keep the removed triangles: use the indexes of the copies, not those of A and B
+	const Mesh mA = Aoutside;
+	const Mesh mB = Boutside;
+
 	//slow, for now
-	for (int i = 0; i < A.nb_triangles(); i++)
+	for (int i = 0; i < mA.nb_triangles(); i++)
 	{
-		if (A.is_triangle_unlinked(i))
+		if (mA.is_triangle_unlinked(i))
 			continue;
 
 		Triangle3 tA;
-		A.get_triangle(i, tA);
+		mA.get_triangle(i, tA);
 		BoundingBox3 bboxA(tA);
 
-		for (int j = 0; j < B.nb_triangles(); j++)
+		for (int j = 0; j < mB.nb_triangles(); j++)
 		{
-			if (B.is_triangle_unlinked(j))
+			if (mB.is_triangle_unlinked(j))
 				continue;
 
 			Triangle3 tB;
-			B.get_triangle(j, tB);
+			mB.get_triangle(j, tB);
 			BoundingBox3 bboxB(tB); // slow: we recompute the bbox each time
 
 			if (bboxA.intersect_with(bboxB) == false)
-- 
2.43.0


From 0bb1592c34a6d5502e443719d0ab72fa877f5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:18 +0000
Subject: [PATCH 33/43] fix: splitting an edge that is not the first edge of
 its triangle keeps the third corner

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index a038a0c..20cffd3 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
-- 
2.43.0


From f22af48400d4fe2c0218a059b2070679e89e780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:57 +0000
Subject: [PATCH 34/43] fix: strong lights overflow the colour conversion

---
 src/Renderer.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index f010d35..7346b5c 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -50,6 +50,20 @@ void Renderer::add_diffuse_light(int iDiffuseColor,double dDiffuseFactor, const
 	_lights.push_back(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
 }
 ////////////////////////////////////////////////////////////////////////////////
+// lights may be of any strength: limit the channel before converting it
+static int to_channel(double d)
+{
+	if (!(d > 0.)) // also not a number
+		return 0;
+	if (d >= 1.)
+		return 255;
+
+	int i = (int)(d * 256.+0.5);
+	if (i > 255)
+		i = 255;
+	return i;
+}
+////////////////////////////////////////////////////////////////////////////////
 int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 {
 	double dRed = ((iColor >> 16) & 0xff)/256.;
@@ -66,23 +80,9 @@ int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 		dBTotal += dB;
 	}
 
-	int iRed = (int)(dRTotal * 256.+0.5);
-	if (iRed > 255)
-		iRed = 255;
-	if (iRed < 0)
-		iRed = 0;
-
-	int iGreen = (int)(dGTotal * 256.+0.5);
-	if (iGreen > 255)
-		iGreen = 255;
-	if (iGreen < 0)
-		iGreen = 0;
-
-	int iBlue = (int)(dBTotal * 256.+0.5);
-	if (iBlue > 255)
-		iBlue = 255;
-	if (iBlue < 0)
-		iBlue = 0;
+	int iRed = to_channel(dRTotal);
+	int iGreen = to_channel(dGTotal);
+	int iBlue = to_channel(dBTotal);
 
 	return (iRed << 16) + (iGreen << 8) + iBlue;
 }
-- 
2.43.0


From d16a0233ed705ece734152b2232a069f0b87121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:13 +0000
Subject: [PATCH 35/43] fix: OBJ vertex indices restart when the writer opens
 another file

---
 src/OBJFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 996d173..f95326f 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -79,6 +79,7 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	_verticesCount = 0; // indices restart in every file
 	_f.open(filename);
 }
 
-- 
2.43.0


From aa23ab51da0baa3ee91a62feec867dd44a77a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 36/43] fix: opening another STEP file finishes the one in
 progress

---
 src/StepFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index ba8b3cd..18b71f2 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -49,6 +49,7 @@ StepWriter::~StepWriter()
 
 void StepWriter::open(const string& filename)
 {
+	close(); // finish the file in progress, if any
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
-- 
2.43.0


From 841643e698dfd97796195f9b8ebfe903ba57ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 37/43] fix: NurbsUtil::create_from_z orders the control points
 u first, as NurbsSurface and the height map do

---
 src/NurbsUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index b0d235d..511057d 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -19,8 +19,8 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 	vector < Point3> points;
 
 	int idx = 0;
-	for (int x = 0; x < iSizeX; x++)
-		for (int y = 0; y < iSizeY; y++)
+	for (int y = 0; y < iSizeY; y++)
+		for (int x = 0; x < iSizeX; x++)
 		{
 			Point3 p;
 			p.x() = x;
-- 
2.43.0


From d2218812f5dcf450a2cfb6bad66f6ca56a69fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 38/43] fix: NurbsCurve::insert_knot leaves the curve unchanged
 for a knot outside ]0,1[ or already of full multiplicity, sizes and knot
 order stay consistent

---
 src/NurbsCurve.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index bb94cb6..01a8a4e 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -189,7 +189,19 @@ int NurbsCurve::find_knot_span(const vector <double>& knots, double t)
 
 void NurbsCurve::insert_knot(double u)
 {
-	// no test for multiplicity for now
+	//a knot outside of the curve or already of full multiplicity cannot be inserted
+	if (!(u > 0.) || !(u < 1.))
+		return;
+
+	int iMultiplicity = 0;
+	for (int i = 0; i < _knots.size(); i++)
+	{
+		if (_knots[i] == u)
+			iMultiplicity++;
+	}
+	if (iMultiplicity >= _degree)
+		return;
+
 	int indexU = find_knot_span(_knots, u);
 
 	vector<double> k = _knots;
-- 
2.43.0


From ba1065e784395b446ed98b2244c5155fb3bda61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:28 +0000
Subject: [PATCH 39/43] fix: rasterise triangles that reach above the screen
 with the right split row (rounding of negative rows)

---
 src/Renderer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 7346b5c..79a8a59 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -174,7 +174,7 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t <= 1.);
 
 	int dx = (int)(cx * t + (1. - t)*ax+0.5);
-	int dy = (int)(cy * t + (1. - t)*ay+0.5);
+	// D is on the row of B
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -182,7 +182,6 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	{
 		//exchange D and B
 		int tmpx = bx; bx = dx; dx = tmpx;
-		int tmpy = by; by = dy; //dy = tmpy;
 		double tmpw = bw; bw = dw; dw = tmpw;
 	}
 
-- 
2.43.0


From 4dd16c85de0cad2dec423db005c0752ff350b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:28 +0000
Subject: [PATCH 40/43] fix: draw the last row of triangles cut by the bottom
 border

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 79a8a59..98f42e1 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -224,13 +224,13 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		bx = dx * t + (1. - t)*bx;
 		bw = dw * t + (1. - t)*bw;
 	}
-	if (cy >= _Ymax )
+	if (cy > _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax;
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -239,7 +239,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From 163e5a987e66412cab22518f2d0e091ef14ed937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:28 +0000
Subject: [PATCH 41/43] fix: do not discard triangles that touch the left
 column only

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 98f42e1..a518824 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -129,7 +129,7 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	}
 
 	//exit if triangle is trivially out of screen
-	if ((ax <= 0.) && (bx <= 0.) && (cx <= 0.))
+	if ((ax < 0.) && (bx < 0.) && (cx < 0.))
 		return false;
 	if ((ay <= 0.) && (by <= 0.) && (cy <= 0.))
 		return false;
-- 
2.43.0


From 80edfe4da8bc6528f56e84497f4ef64039074157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 42/43] fix: segments do not intersect beyond the ends of the
 second one

---
 src/Geometry.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index eb8f783..e47af32 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -281,13 +281,14 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	if ((mua < 0.) || (mua > 1.))
 		return false;
 
+	double mub = (d1343 + d4321 * mua) / d4343;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
+
 	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
 
 	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
 	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
 
 	return true;
 }
-- 
2.43.0


From 8e0b66271d024733dd303a2b6cb9844bf50520fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:50 +0000
Subject: [PATCH 43/43] fix: NurbsCurve::to_polyline reaches the end of the
 curve for every number of points

---
 src/NurbsCurve.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index 01a8a4e..ee66d6e 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -280,13 +280,13 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
-	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
-	{
-		evaluate(t, p);
-		polyline.push_back(p);
-	}
+	int iNbSteps = (int)_points.size() * 10; //todo set 10 dynamic
+	Point3 p;
+	for (int i = 0; i <= iNbSteps; i++)
+	{
+		evaluate(i / (double)iNbSteps, p);
+		polyline.push_back(p);
+	}
 }
 ///////////////////////////////////////////////////////////////////////////
 bool NurbsCurve::degree_elevation()
-- 
2.43.0

