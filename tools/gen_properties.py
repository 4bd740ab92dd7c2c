#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=n,where="src/"+w) for n,w in mech],
        observe_at=observe or [],state=[dict(name=a,meaning=b,where="src/"+c) for a,b,c in (state or [])],hook_needed=None)))

prop("C01","Copies of meshes, faces, solids and smooth meshes are equal and independent",
 "Copy construction and assignment of a mesh, smooth mesh, face or solid make the target hold exactly the source's content (live triangles with their vertices and orientation, colour, faces, patches) and nothing of its own former content. The copy shares no mutable state with the source, assignment returns the target itself, and assigning or appending an object to itself terminates and loses nothing.",
 ["inputs","histories"],"every source and target object, whatever their earlier history, including source == target",
 "the copy tests copy one small object; self-assignment, re-assignment over non-empty targets and later mutation of the source are never exercised",
 ["Mesh.cpp","SmoothMesh.cpp","Face.cpp","Solid.cpp"],[("assignment and append of a mesh","Mesh.cpp"),("assignment and append of a smooth mesh","SmoothMesh.cpp"),("assignment of a face / solid","Face.cpp")])
prop("C02","Every owned heap object is released exactly once with the matching operator",
 "Every heap object the library allocates for a mesh, renderer or light list is freed exactly once, with the form of delete that matches its allocation and through its full destructor, whatever sequence of construction, copying, assignment and destruction is performed. An object whose copy would free memory twice cannot be copied.",
 ["histories","programs"],"all sequences of construct / copy / assign / mutate / destroy a client program can compile",
 "leaks and double frees do not change the values tests compare and the tests run without sanitizers",
 ["Mesh.cpp","Renderer.cpp","Renderer.h","RendererLight.h","MeshKernel.h"],[("owner of the mesh kernel","Mesh.cpp"),("owner of depth buffer and lights","Renderer.cpp")])
prop("C03","Removed triangles are invisible to every consumer",
 "A triangle that was removed from a mesh never reappears in any output or computation: exporting to STL or OBJ, measuring, rendering, copying or appending, merging vertices, tessellating, converting to NURBS and the boolean operations all see exactly the triangles still linked. The facet count written in an STL file equals the number of facets written.",
 ["inputs","histories"],"every mesh after any history of triangle removals, splits and flips",
 "tests rarely remove triangles before exporting or measuring; which triangles are removed depends on the edit history",
 ["Mesh.cpp","MeshMeasurements.cpp","MeshUtil.cpp","MeshTessellate.cpp","MeshBoolean.cpp","Renderer.cpp","STLFile.cpp","OBJFile.cpp","NurbsUtil.cpp"],
 [("loops over triangles skip removed ones","MeshMeasurements.cpp"),("live-facet count before the STL body","STLFile.cpp")])
prop("C04","Mesh edits preserve the oriented boundary",
 "Splitting a triangle at a vertex, splitting an edge shared by two triangles, and adding a quad (along either diagonal) or a pentagon produce triangles whose oriented boundary is exactly that of the polygon they replace or fill; flipping a triangle reverses its boundary. Every split or flip removes exactly the triangles it replaces.",
 ["inputs"],"every triangle, every choice of vertices and every starting corner of the edited triangles",
 "tests check counts of triangles on one or two meshes; the orientation of each new triangle and all corner rotations are not compared",
 ["Mesh.cpp"],[("triangle and edge split, quad, pentagon, flip","Mesh.cpp")])
prop("C05","Fixed polyhedra are closed, outward oriented and regular",
 "Every tetrahedron, box, octahedron, dodecahedron, icosahedron and sphere built from a fixed set of faces (plain or smooth) is a closed, consistently oriented surface: each directed edge is matched by exactly one opposite edge, and faces point outward for positive sizes. Box corners are the eight corners of a centred box with the requested edge lengths, and the corners of every other solid lie on one sphere centred at the origin whose radius scales with the requested size.",
 ["inputs"],"every size parameter",
 "tests only check vertex/triangle counts for one size; orientation and edge pairing are not checked (the closed test is unimplemented)",
 ["MeshFactory.cpp","SmoothMeshFactory.cpp","Mesh.cpp","SmoothMesh.cpp"],[("vertex and face tables","MeshFactory.cpp"),("smooth face tables","SmoothMeshFactory.cpp")])
prop("C06","Generated cylinders, spheres and tori are closed for every segment count",
 "For every admissible number of segments, the generated triangle meshes of the cylinder, the latitude/longitude sphere and the torus only use existing vertices, contain no triangle that uses the same vertex twice, and form a closed consistently oriented surface in which each directed edge is matched by exactly one opposite edge.",
 ["inputs","configurations"],"every segment count and every size",
 "tests build one or two segment counts and count triangles; closing seams and caps for all counts are not checked",
 ["MeshFactory.cpp","MeshUtil.cpp"],[("seam and cap loops","MeshFactory.cpp")])
prop("C07","Subdividing triangles and patches leaves no crack, overlap or flipped piece",
 "Tessellating a mesh into n segments per edge replaces each live triangle by triangles that exactly cover it: their oriented boundary is the subdivided boundary of the original, so neighbours share the same edge points and no interior edge is left unmatched. Meshing a curved patch with n segments likewise yields n*n triangles covering the whole parameter triangle with one orientation; meshing a smooth mesh meshes each of its patches exactly once, all with the number of segments asked for.",
 ["inputs","configurations"],"every n >= 1 and every input mesh or patch",
 "tests compare a triangle count for one n; holes, overlaps and orientation for all n are not checked",
 ["MeshTessellate.cpp","QuadBezierTriangle.cpp","SmoothMesh.cpp"],[("stripe loops","MeshTessellate.cpp"),("patch meshing","QuadBezierTriangle.cpp")])
prop("C08","Grid surfaces are complete, consistently oriented and index-safe",
 "Building a mesh from a height map, a point grid or a NURBS surface produces exactly one quad per grid cell, all with the same orientation, including the wrap-around cells for closed directions and no others, and refers only to vertices that exist, for every grid size and every combination of closed directions. A NURBS surface built from a height map has control point number u + nu*v at (u, v, height there), and the mesh of a solid contains every one of its surfaces.",
 ["inputs","configurations"],"every grid width and height, every closed/open combination",
 "tests use one or two grid sizes and mostly check that nothing crashes",
 ["MeshUtil.cpp","NurbsUtil.cpp"],[("cell loops","MeshUtil.cpp"),("NURBS sampling and wrap","NurbsUtil.cpp")])
prop("C09","A save reports success only when the whole file was written",
 "Saving an STL, OBJ or BMP file returns success only if the file was opened and every byte, including what is still buffered, was accepted by the file system; any failure to open or write is reported as failure. Loading one of these files returns success only if it was opened and everything needed was actually read.",
 ["fault_sequences","crash_points"],"every point at which opening, writing, flushing or reading can fail",
 "tests run on a healthy disk with complete files; a full disk or truncated input is never exercised",
 ["STLFile.cpp","OBJFile.cpp","ImageIoBmp.cpp"],[("return value of save/load","STLFile.cpp")])
prop("C10","Loading a malformed file never breaks the mesh or image",
 "Whatever bytes a file contains, loading it never stores a triangle that refers to a vertex that does not exist, never uses a value that could not be read from the file, never does work or allocates memory without bound beyond the file's real content because of a count in its header, and never writes outside a buffer.",
 ["inputs"],"every byte content of an STL, OBJ or BMP file, including truncated and hostile ones",
 "tests load only files the library wrote itself",
 ["STLFile.cpp","OBJFile.cpp","ImageIoBmp.cpp"],[("STL facet loop","STLFile.cpp"),("OBJ face parser","OBJFile.cpp"),("BMP header","ImageIoBmp.cpp")])
prop("C11","BMP reading and writing agree on layout for every image width",
 "The BMP writer and reader use the same header fields, bottom-up row order, channel order and a row padding that makes every row a multiple of four bytes, for every width, height and both supported depths; so a written image reads back with every pixel at its place. The file and image sizes in the header match the bytes written.",
 ["inputs"],"every image size and content at 8 and 24 bits per pixel",
 "tests write a few sizes and do not read them all back; padding depends on width modulo 4",
 ["ImageIoBmp.cpp"],[("row padding and header","ImageIoBmp.cpp")])
prop("C12","STL and OBJ files have the prescribed layout",
 "A saved STL file is an 80 byte header, a 32 bit count and, per facet, 50 bytes: normal, three corners in mesh order, attribute, as little-endian 32 bit floats; loading reads the same layout. A saved OBJ file lists every vertex once in order and refers to vertices 1-based, shifted by all vertices written before, and gives each vertex of a coloured mesh its red, green and blue as fractions of 255; loading undoes the shift, so orientation and connectivity survive.",
 ["inputs","histories"],"every mesh, and every sequence of meshes and polylines appended to one OBJ file",
 "tests check files exist or reload one shape; multi-object offsets and field order are not compared",
 ["STLFile.cpp","OBJFile.cpp","MeshFactory.cpp"],[("facet record","STLFile.cpp"),("index offset","OBJFile.cpp")])
prop("C13","STEP output is well formed",
 "In every STEP file written, each instance name is defined exactly once, every reference names an instance that is defined in the file and is of the kind the referring entity needs, header, data section and trailer appear exactly once and in order even when a second file is opened before the first was closed, list brackets balance, and the control point, weight, degree, multiplicity and knot lists of a surface are written in one consistent u/v order with the lengths the standard requires.",
 ["inputs","histories"],"every sequence of surfaces and solids written to one file, every surface size",
 "tests only check that writing does not crash; nothing parses the output",
 ["StepFile.cpp"],[("id counter and entity writers","StepFile.cpp")])
prop("C14","The renderer never writes outside its buffers and clips spans correctly",
 "Whatever points, triangles, cameras and meshes are drawn, every pixel and depth access falls inside the width x height buffers. A triangle is drawn as the rows between its projected edges, with the depth interpolated along the edges and between them: rows and spans cut by a border of the window keep exactly the extent and depth they would have had at each remaining pixel, no triangle is left out unless it is seen from behind or lies beyond a border, and a pixel is replaced only by something at least as near (lines may overdraw within a fixed tiny depth tolerance).",
 ["inputs"],"every geometry, including off-screen, degenerate and non-finite coordinates",
 "tests draw a few on-screen objects; border cases depend on exact coordinates",
 ["Renderer.cpp","RendererCamera.cpp"],[("span clipping and depth test","Renderer.cpp")])
prop("C15","Lighting keeps every colour channel in range and separate",
 "For every light setup, colour and normal, each of the red, green and blue results of lighting lies in 0..255 and is placed back in its own channel without spilling into another one; each channel depends only on the same channel of surface and light colours. An ambient light gives a channel the surface's value times its factor and its own channel over 256; a directed one that times the product of normal and direction, and nothing where this is negative. Every light contributes exactly once; with no light the result is black.",
 ["inputs","configurations"],"every colour, normal, number and kind of lights, negative and large factors included",
 "tests do not inspect lit colours",
 ["Renderer.cpp","RendererLight.cpp"],[("light accumulation and clamping","Renderer.cpp")])
prop("C16","Rotations are rigid and all rotation forms agree",
 "Rotation by an angle in degrees about a unit axis gives the same result through the matrix, quaternion and angle-axis forms for every angle and axis, preserves all lengths, fixes the axis, and follows the right-hand rule; a unit quaternion q sends p to q p q*, a matrix is applied row by row, and a default rotation changes nothing. The Euler-angle rotation preserves all lengths, and translation and scaling act per coordinate with their parameter.",
 ["inputs"],"every angle, unit axis, unit quaternion and point (exact real arithmetic)",
 "tests sample a few right angles",
 ["Transform.cpp"],[("rotation formulas","Transform.cpp")])
prop("C17","Transforming an object moves each of its points exactly once and nothing else",
 "Applying a transform to a mesh, smooth mesh, curved patch, NURBS surface or NURBS solid, or to a list of points, replaces every one of its points by its image under the transform exactly once and changes nothing else: not the connectivity, the weights, the knots or the number of points.",
 ["inputs"],"every object and every transform, user-defined ones included",
 "tests transform one object and look at a point or two",
 ["Mesh.cpp","SmoothMesh.cpp","QuadBezierTriangle.cpp","NurbsSurface.cpp","NurbsSolid.cpp","Transform.cpp"],[("point loops","Mesh.cpp")])
prop("C18","Vector, triangle, plane and box formulas satisfy their defining identities",
 "For all real coordinates: the vector operators are component-wise, cross and dot products satisfy their definitions, a triangle's area is half the length of its edge cross product and its normal is the normalised one, a plane through three points contains them with a unit normal oriented like the triangle, projection lands on the plane along the normal, and a plane cuts a segment exactly if it strictly separates its end points, in a point that lies on both. A bounding box contains exactly the min/max of the points added to it and two boxes intersect exactly if they share a point; a triangle is cut by a plane exactly if it has corners strictly on both sides, and contains a point of its plane exactly if the point is a convex combination of its corners.",
 ["inputs"],"all real coordinates and all orderings of coordinates",
 "tests check a handful of numeric instances",
 ["Geometry.cpp","GeometryUtil.cpp"],[("formulas","Geometry.cpp")])
prop("C19","Curved-patch formulas satisfy the Bezier identities",
 "Bernstein weights sum to one for every parameter and are reproduced by their definitions; a quadratic triangular patch interpolates its corners, equals the rational weighted sum of its control points (so it stays inside their affine hull), is the flat triangle when its control points are the edge midpoints, and a mesh of a patch has its points at the regular parameter lattice. A cubic patch built from corner normals has its edge control points in the tangent planes of their corners and is the flat triangle when the normals are perpendicular to the edges.",
 ["inputs"],"all parameters and control points (exact real arithmetic)",
 "tests sample few parameters",
 ["BezierUtil.cpp","QuadBezierTriangle.cpp","CubicBezierTriangles.cpp"],[("polynomials","BezierUtil.cpp")])
prop("C20","NURBS algorithms treat points and weights in lockstep",
 "Evaluating a rational curve or surface, inserting a knot and elevating a degree apply to each weighted coordinate exactly the linear combination they apply to the weights, so the results are affine invariant: if all control points coincide, the result is that point, and moving every control point by the same affine map moves every result by that map.",
 ["inputs"],"every control point and positive weight, clamped knot vector and parameter (exact real arithmetic)",
 "tests sample one or two curves with unit weights",
 ["NurbsCurve.cpp","NurbsSurface.cpp"],[("de Boor, knot insertion, elevation","NurbsCurve.cpp")])
prop("C21","NURBS objects produced by the library have consistent sizes",
 "Every NURBS curve or surface the library's factories, extrusion, ruling, revolution and image builders produce has one weight per control point, exactly (points u) x (points v) control points, and in each direction exactly points + degree + 1 knots in non-decreasing order; knot insertion and degree elevation of a consistent, clamped curve or surface with 1 <= degree < number of points keep these relations. (Ruled surfaces: for two curves of equal degree and size.)",
 ["inputs","histories"],"every parameter of every builder and every sequence of refinements",
 "tests check that building does not crash",
 ["NurbsFactory.cpp","NurbsExtrude.cpp","NurbsRuled.cpp","NurbsRevolve.cpp","NurbsUtil.cpp","NurbsCurve.cpp","NurbsSurface.cpp"],[("builders","NurbsFactory.cpp")])
prop("C22","Builders do not depend on the former content of their output",
 "Every function that builds a mesh, smooth mesh, NURBS object, image or point list into an output argument, and every successful load, leaves it in a state determined by its inputs alone: building into a used object gives the same result as building into a fresh one (the display colour of a mesh excepted).",
 ["histories","inputs"],"every former content of the output object",
 "tests always build into fresh objects",
 ["MeshFactory.cpp","MeshUtil.cpp","MeshTessellate.cpp","SmoothMeshFactory.cpp","NurbsFactory.cpp","NurbsExtrude.cpp","NurbsRuled.cpp","NurbsRevolve.cpp","NurbsUtil.cpp","STLFile.cpp","OBJFile.cpp","ImageIoBmp.cpp","ImageGenerator.cpp","ImageUtil.cpp","NurbsSurface.cpp","NurbsCurve.cpp"],[("clear before fill","MeshFactory.cpp")])
prop("C23","Read-only operations do not modify anything and results are reproducible",
 "Queries, measurements, evaluations, exports and builders never modify an object they only take for reading, nor any global state, and depend on nothing but their arguments (no clock, random source, environment or leftover static); so two threads may query one object at the same time.",
 ["schedules","histories","inputs"],"every interleaving of queries on a shared object and every earlier call history",
 "tests are single-threaded and do not compare objects before and after queries",
 ["Mesh.cpp","MeshMeasurements.cpp","NurbsCurve.cpp","NurbsSurface.cpp","Geometry.cpp"],[("const interfaces","Mesh.h")])
prop("C24","Image pixels are addressed consistently and in range",
 "Every way of accessing a pixel of an image (read or write, pointer or value) designates the same byte for the same (x, y, plane); distinct triples in range designate distinct bytes, all inside the image's storage, for every size. Converting an image to numbers, to grey or generating one visits exactly the pixels of the image, each stored at its own place. The grey of a pixel is the mean of its first three planes (its only plane if it has one), the number read from it is its first plane, and scaling stores the nearest whole number of factor times value as long as that fits a byte.",
 ["inputs"],"every width, height, plane count and coordinate",
 "tests use square or single-plane images",
 ["Image.h","ImageUtil.cpp","ImageGenerator.cpp"],[("address polynomial","Image.h")])
prop("C25","Mesh measurements cover every live triangle and combine correctly",
 "Surface and volume of a mesh are the sums over all live triangles of the triangle area and of one sixth of the determinant of its corners; a mesh is reported free of degenerate triangles exactly if no live triangle has the area zero, closed exactly if every side of every live triangle has a neighbour, and clean exactly if all the individual checks hold. Merging vertices maps every vertex to exactly one representative at the same position and keeps every live triangle's orientation.",
 ["inputs"],"every mesh",
 "tests compare one or two meshes numerically",
 ["MeshMeasurements.cpp","MeshUtil.cpp"],[("sums over triangles","MeshMeasurements.cpp")])
prop("C26","NURBS evaluation and refinement represent exactly the rational B-spline",
 "For every control point, positive weight, clamped knot vector and parameter in [0, 1]: evaluating a curve or surface yields the point the rational B-spline definition (Cox-de Boor basis) gives; inserting a knot or elevating the degree leaves that point set and parametrisation unchanged, adds exactly the knot asked for (unless it lies outside the open interval or has full multiplicity already), respectively raises the degree and every multiplicity by one; neither changes whether the surface counts as closed; a polyline of a curve holds the curve's points at evenly spaced parameters from 0 to 1, both ends included whatever the number of control points.",
 ["inputs","histories"],"every control point, weight, knot vector and parameter (exact real arithmetic)",
 "tests compare a few parameters of one curve",
 ["NurbsCurve.cpp","NurbsSurface.cpp"],[("evaluate, insert_knot, degree_elevation","NurbsCurve.cpp")])
prop("C27","NURBS shapes built by the library are exactly the shapes they stand for",
 "For every radius, height and position: the NURBS circle and disk lie on or in the circle, the sphere, torus and cylinder on their implicit surface (up to the rounding of constants), covering it completely and oriented outward; a triangle, quad, box, extrusion, ruled surface and revolution consist of exactly the points their definition gives, an interpolating curve passes through its points, and the NURBS form of a mesh is the mesh's triangles. Every surface built is marked closed exactly in the directions in which its first and last control points coincide.",
 ["inputs"],"every size, position and parameter (exact real arithmetic, constants to 1e-9)",
 "tests measure one size with a loose tolerance",
 ["NurbsFactory.cpp","NurbsExtrude.cpp","NurbsRuled.cpp","NurbsRevolve.cpp","NurbsUtil.cpp"],[("control nets","NurbsFactory.cpp")])
prop("C28","Intersection queries of segments and triangles answer their definition",
 "Two coplanar, non-parallel segments are reported as intersecting exactly if they share a point, and that point is reported. A triangle and a segment are reported as intersecting exactly if the plane of the triangle strictly cuts the segment in a point of the triangle, and that point is reported. Two triangles in general position intersect exactly if an edge of one passes through the other. Splitting a triangle of a mesh by another one only splits the given, still live triangle, at a point lying in it, and changes nothing else.",
 ["inputs"],"all segments and triangles in general position (exact real arithmetic)",
 "tests use a few axis-aligned cases",
 ["Geometry.cpp","Mesh.cpp"],[("intersect / intersect_with","Geometry.cpp"),("split_triangle","Mesh.cpp")])
prop("C29","Objects hold exactly what was put into them",
 "A mesh (on every finished kernel), smooth mesh, NURBS curve, surface or solid, face, solid, image and geometric object (point, segment, line, triangle) holds exactly what was put into it: adding appends and returns the new index; reading an element returns what was stored; setting or unlinking one element changes that element only; clearing leaves it empty; each setter sets the attributes it names to the values given (knots scaled linearly onto [0, 1], uniform knots clamped and evenly spaced, equal weights one per point) and no other attribute; a new object is empty; a mesh is reported empty exactly if it has no triangles; a curve is reported closed exactly if its first and last point are closer than the tolerance; flat polygons added to a smooth mesh cover that polygon with its orientation.",
 ["inputs","histories"],"every former content, index and value",
 "tests read back a few elements they just stored, one at a time",
 ["Mesh.cpp","MeshKernelLinkedTriangles.cpp","MeshKernelTIN.cpp","SmoothMesh.cpp","NurbsCurve.cpp","NurbsSurface.cpp","NurbsSolid.cpp","Face.cpp","Solid.cpp","Image.h","Geometry.cpp"],[("kernel interface","MeshKernel.h"),("setters","NurbsSurface.cpp")])
prop("C30","The closed-surface test recognises closed meshes",
 "A mesh is reported closed exactly if each edge of every live triangle is shared with exactly one other live triangle.",
 ["inputs","histories"],"every mesh","a baseline test pins the unimplemented answer for a closed sphere",
 ["MeshMeasurements.cpp","MeshKernelLinkedTriangles.cpp"],[("triangle adjacency (unimplemented)","MeshKernelLinkedTriangles.cpp")])
prop("C31","Sampled shapes converge to the exact shape",
 "Volume and surface of generated spheres, tori, cylinders and of tessellated NURBS and smooth meshes converge to the exact values as the number of segments grows.",
 ["inputs","configurations"],"every size and segment count","numerical limit over all counts; tests compare one count with a loose tolerance",
 ["MeshFactory.cpp","NurbsFactory.cpp","SmoothMeshFactory.cpp"],[("sampling formulas","MeshFactory.cpp")])
prop("C32","Generated cylinders, spheres and tori are exact, evenly spaced, outward oriented samples of their shape",
 "For every size and number of segments, each vertex of the generated cylinder, latitude/longitude sphere and torus meshes lies exactly on the shape asked for (the centres of the cylinder's caps on its axis) and is used by a facet; the samples are evenly spaced all around each circle and from pole to pole; every facet joins neighbouring samples and faces outward; more segments give more samples. For the geodesic sphere every vertex of the tessellated icosahedron is moved along its own direction to the radius asked for, and only coinciding vertices are merged.",
 ["inputs","configurations"],"every size and segment count (exact real arithmetic)",
 "tests compare volume and surface of one size with a loose tolerance; a misplaced, doubled or missing sample hides in it",
 ["MeshFactory.cpp"],[("sampling formulas","MeshFactory.cpp")])
prop("C36","The renderer shows the scene that camera, background, colours and mesh prescribe",
 "For every window size, camera setting and scene: the place of a point on screen is its perspective image (position minus origin, rotated by the Euler angles, moved ahead, zoomed over depth, centred on the window, nearest pixel) and its depth is 1/z; only the camera set last counts, and each setter changes its own part only; clearing gives every pixel the background colour last set (black in a new renderer) and the depth 0; a pixel is drawn at the place and depth of its point in the colour given, a line steps along the straight path between the places of its ends with interpolated depth, in the colour given, wherever that is inside the window; a triangle has the colour the lighting gives for its colour and its unit normal; a polyline draws exactly one line between consecutive points; a mesh draws each live triangle once with its own corners, in the colour asked for or the mesh's own if that is -1, and edges only if asked for, joining corners of the visible triangle.",
 ["inputs","configurations","histories"],"every window, camera, scene (exact real arithmetic)",
 "no test renders a scene; the fixed scenes of the samples cannot show a sign, an offset or a missing row that only other cameras reveal",
 ["Renderer.cpp","RendererCamera.cpp"],[("projection","RendererCamera.cpp"),("drawing","Renderer.cpp")])
prop("C33","Geometric predicates stay consistent under rounding",
 "Point-in-triangle, segment and triangle intersection predicates give mutually consistent answers for nearly degenerate inputs despite floating-point rounding.",
 ["inputs"],"all floating point inputs","tests use well separated inputs",
 ["Geometry.cpp","Mesh.cpp"],[("predicates","Geometry.cpp")])
prop("C34","Boolean operations of solids return the exact combination",
 "Union, intersection and difference of two closed meshes bound exactly the combined point set.",
 ["inputs"],"every pair of closed meshes","work in progress; tests only run it",
 ["MeshBoolean.cpp","Mesh.cpp"],[("intersection splitting (unfinished)","MeshBoolean.cpp")])
prop("C35","Saved meshes and images read back with full numeric precision",
 "Coordinates written to STL and OBJ read back equal up to the precision of the file format.",
 ["inputs"],"all coordinates","tests reload one shape",
 ["STLFile.cpp","OBJFile.cpp"],[("number formatting","OBJFile.cpp")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
