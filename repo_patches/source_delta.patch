From c8bfdaf9931553b6a608a7d01b0199b7570c334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 01/83] fix: FlagComplex and Nerve respect a maximum dimension
 of 0

---
 include/topology/flag.hpp  | 1 +
 include/topology/nerve.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..8d466c3 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -80,6 +80,7 @@ CpxT FlagComplex(
         spx_idxs[0] = k;
         X.add(spx_idxs);
     }
+    if (maxdim == 0) { return X; } // no edges in a 0-dimensional complex
 
     std::vector<std::vector<size_t>> nbrs(n);
 
diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..6468096 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // only the 0-skeleton
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From b3d110859ddbedf8aec173bf3a0e7517ae9f4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 02/83] fix: RipsHom gives every node its Betti number, also
 nodes on no edge

---
 include/multigraph/functors.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..718702f 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -310,6 +310,7 @@ auto RipsHom(
 	// extract dimensions for nodes
 	// we do this by iterating over edges
 	// do this sequentially to avoid race conditions
+	std::vector<bool> on_edge(n, false);
 	for (size_t i = 0; i < m; i++) {
 		auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
@@ -317,6 +318,16 @@ auto RipsHom(
 		auto dt = TD.edata[i].nrow();
 		TD.set_node(s, ds);
 		TD.set_node(t, dt);
+		on_edge[s] = true;
+		on_edge[t] = true;
+	}
+
+	// nodes that are not on any edge
+	#pragma omp parallel for
+	for (size_t i = 0; i < n; i++) {
+		if (on_edge[i]) { continue; }
+		auto Xi = RipsComplex<CpxT>(get_subset(X, D.node[i]), dist, rmax[i], hdim+1);
+		TD.set_node(i, Reduce(Xi, FT()).hdim(hdim));
 	}
 
 	return TD;
-- 
2.43.0


From 69b2e7dbed333839ccb8fd84c404afafba2a8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 03/83] fix: ReducedDGVectorSpace of degree +1 uses its own
 differential when choosing representatives

---
 include/homology/dgbasis.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..00a0276 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -278,7 +278,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[(degree == -1) ? k : k+1], v);
 	}
 
 	/**
@@ -286,7 +286,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[(degree == -1) ? k : k+1] * v;
 	}
 
 
@@ -296,7 +296,8 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		size_t k_ind = (degree == -1) ? k : k + 1;
+		return U[k_ind][I[k_ind][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -307,26 +308,28 @@ public:
 	) const {
 		int dg_offset = (degree == -1) ? 0 : 1;
 		k += dg_offset;
-		if (k == R.size()-1) {
+		if (degree == -1 && k == R.size()-1) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
 
 		// else we need to find the preferred representative
+		// boundaries are the image of differential kb
+		size_t kb = (degree == -1) ? k + 1 : k - 1;
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kb].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			// if (p2c[kb].count(j) > 0) {
+			if (p2c[kb][j] != bats::NO_IND) {
+				auto i = p2c[kb].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kb][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 6ae9212f0fc69ac18dfb2c3b0b8905a45f1cd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 04/83] fix: partial_reduce_parallel handles matrices narrower
 than a block

---
 include/homology/parallel.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..c607df6 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -351,9 +351,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t last = (n > block_size) ? n - block_size : 0; // avoid wrap-around
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) {
 		reduce_block_sequential(M, j, j+block_size);
 	}
 	return;
@@ -372,9 +373,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t last = (n > block_size) ? n - block_size : 0; // avoid wrap-around
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) {
 		reduce_block_sequential(M, U, j, j+block_size);
 	}
 	return;
-- 
2.43.0


From 8de702422757ed546fe34829135b44ed35106440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 05/83] fix: exceptions thrown inside parallel regions reach
 the caller

---
 include/homology/parallel.hpp     |  29 +++++---
 include/multigraph/diagram.hpp    |  12 ++--
 include/multigraph/functors.hpp   | 113 +++++++++++++++++++-----------
 include/quiver/sparse.hpp         |  32 +++++----
 include/topology/levelset.hpp     |  12 ++--
 include/topology/neighborhood.hpp |  13 ++--
 include/util/parallel.hpp         |  49 +++++++++++++
 7 files changed, 185 insertions(+), 75 deletions(-)
 create mode 100644 include/util/parallel.hpp

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index c607df6..a2684a2 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -5,6 +5,7 @@
 #include <linalg/sparse_vector.hpp>
 #include <linalg/col_matrix.hpp>
 #include "reduction.hpp"
+#include <util/parallel.hpp>
 
 #include <omp.h> // openMP header
 
@@ -289,13 +290,15 @@ std::tuple<std::unordered_map<size_t,size_t>, std::vector<size_t>> reduce_block_
 
 	// left half
 	// std::cout << "dq: " << j0 << " -- " << j2 << std::endl;
-	#pragma omp task shared(M) shared(p2c, nzcol1) firstprivate(j0, j2, max_block_size, level, max_depth)
-	std::tie(p2c, nzcol1) = reduce_block_dq(M, j0, j2, max_block_size, level+1, max_depth);
+	util::ParallelExceptions ex;
+	#pragma omp task shared(M) shared(p2c, nzcol1, ex) firstprivate(j0, j2, max_block_size, level, max_depth)
+	ex.run([&]() { std::tie(p2c, nzcol1) = reduce_block_dq(M, j0, j2, max_block_size, level+1, max_depth); });
 	// right half
 	// std::cout << "dq: " << j2 << " -- " << j1 << std::endl;
-	#pragma omp task shared(M) shared(nzcol2, p2c_ignore) firstprivate(j2, j1, max_block_size, level, max_depth)
-	std::tie(p2c_ignore, nzcol2) = reduce_block_dq(M, j2, j1, max_block_size, level+1, max_depth);
+	#pragma omp task shared(M) shared(nzcol2, p2c_ignore, ex) firstprivate(j2, j1, max_block_size, level, max_depth)
+	ex.run([&]() { std::tie(p2c_ignore, nzcol2) = reduce_block_dq(M, j2, j1, max_block_size, level+1, max_depth); });
 	#pragma omp taskwait
+	ex.rethrow();
 
 	// now we combine
 	// can simply iterate over the right block adding to the data for the
@@ -323,13 +326,15 @@ inline p2c_type reduce_matrix(
 	std::unordered_map<size_t, size_t> p2c;
 	std::vector<size_t> nz_ignore;
 	// begin parallel region
-    #pragma omp parallel default(none) shared(p2c, nz_ignore, M, n, max_block_size, max_depth)
+    util::ParallelExceptions ex;
+    #pragma omp parallel default(none) shared(p2c, nz_ignore, M, n, max_block_size, max_depth, ex)
     {
         #pragma omp single nowait
         {
-			std::tie(p2c, nz_ignore) = reduce_block_dq(M, 0, n, max_block_size, 0, max_depth);
+			ex.run([&]() { std::tie(p2c, nz_ignore) = reduce_block_dq(M, 0, n, max_block_size, 0, max_depth); });
 		}
 	}
+	ex.rethrow();
 
 	// fill in return vector
 	p2c_type pivot_to_col(M.nrow(), bats::NO_IND);
@@ -353,10 +358,12 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 	size_t last = (n > block_size) ? n - block_size : 0; // avoid wrap-around
 
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t j = 0; j < last; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) { ex.run([&]() {
 		reduce_block_sequential(M, j, j+block_size);
-	}
+	}); }
+	ex.rethrow();
 	return;
 }
 /**
@@ -375,10 +382,12 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 	size_t last = (n > block_size) ? n - block_size : 0; // avoid wrap-around
 
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t j = 0; j < last; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) { ex.run([&]() {
 		reduce_block_sequential(M, U, j, j+block_size);
-	}
+	}); }
+	ex.rethrow();
 	return;
 }
 
diff --git a/include/multigraph/diagram.hpp b/include/multigraph/diagram.hpp
index 995c9ea..239624b 100755
--- a/include/multigraph/diagram.hpp
+++ b/include/multigraph/diagram.hpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <fstream>
 #include <sys/stat.h>
+#include <util/parallel.hpp>
 
 namespace bats {
 
@@ -112,16 +113,19 @@ public:
         std::string mdname = dname + "/metadata";
         save_metadata(mdname);
 
+        util::ParallelExceptions ex;
         #pragma omp parallel for
-        for (size_t i = 0; i < nnode(); i++) {
+        for (size_t i = 0; i < nnode(); i++) { ex.run([&]() {
             std::string fname = dname + "/node" + std::to_string(i);
             node[i].save(fname);
-        }
+        }); }
+        ex.rethrow();
         #pragma omp parallel for
-        for (size_t i = 0; i < nedge(); i++) {
+        for (size_t i = 0; i < nedge(); i++) { ex.run([&]() {
             std::string fname = dname + "/edge" + std::to_string(i);
             edata[i].save(fname);
-        }
+        }); }
+        ex.rethrow();
     }
 };
 
diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 718702f..586700c 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -16,6 +16,7 @@ Functors from one type of diagram to another
 #include <dgvs/dgvs.hpp>
 #include <dgvs/dgmap.hpp>
 #include <homology/dgbasis.hpp>
+#include <util/parallel.hpp>
 
 #include <stdexcept>
 
@@ -31,20 +32,23 @@ Diagram<SimplicialComplex, CellularMap> Nerve(
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
 	// apply functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		TD.set_node(i, Nerve(D.node[i], dmax));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply functor to edges
 	#pragma omp parallel for
-	for (size_t i = 0; i < m; i++) {
+	for (size_t i = 0; i < m; i++) { ex.run([&]() {
 		auto s = D.elist[i].src;
 		auto t = D.elist[i].targ;
 		TD.set_edge(i, s, t,
 						SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 					   );
-	}
+	}); }
+	ex.rethrow();
 
 	return TD;
 
@@ -68,21 +72,24 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
 	// apply functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 	    auto XI = get_subset(X, D.node[i]);
 	    TD.set_node(i, RipsComplex<SimplicialComplex>(XI, dist, rmax, dmax));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply functor to edges
 	#pragma omp parallel for
-	for (size_t i = 0; i < m; i++) {
+	for (size_t i = 0; i < m; i++) { ex.run([&]() {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
-	}
+	}); }
+	ex.rethrow();
 
 	return TD;
 }
@@ -105,15 +112,17 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
 	// apply functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 	    auto XI = get_subset(X, D.node[i]);
 	    TD.set_node(i, RipsComplex<SimplicialComplex>(XI, dist, rmax[i], dmax));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply functor to edges
 	#pragma omp parallel for
-	for (size_t i = 0; i < m; i++) {
+	for (size_t i = 0; i < m; i++) { ex.run([&]() {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
 		if (rmax[t] < rmax[s]) {
@@ -122,7 +131,8 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
-	}
+	}); }
+	ex.rethrow();
 
 	return TD;
 }
@@ -138,18 +148,21 @@ Diagram<ChainComplex<TM>, ChainMap<TM>> ChainFunctor(const DT &D) {
 	Diagram<ChainComplex<TM>, ChainMap<TM>> CD(n, m);
 
 	// apply chain functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		CD.set_node(i, ChainComplex<TM>(D.node[i]));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply chain functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = D.elist[j].src;
 	    auto t = D.elist[j].targ;
 	    CD.set_edge(j, s, t, ChainMap<TM>(D.edata[j]));
-	}
+	}); }
+	ex.rethrow();
 
 	return CD;
 }
@@ -194,20 +207,23 @@ Diagram<ReducedChainComplex<TM>, TM> Hom(
 	Diagram<ReducedChainComplex<TM>, TM> HD(n, m);
 
 	// apply hom functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		HD.set_node(i, ReducedChainComplex<TM>(D.node[i]));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply hom functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = D.elist[j].src;
 		auto t = D.elist[j].targ;
 		HD.set_edge(j, s, t,
 			induced_map(D.edata[j], HD.node[s], HD.node[t], k)
 		);
-	}
+	}); }
+	ex.rethrow();
 
 	return HD;
 }
@@ -239,14 +255,16 @@ Diagram<ReducedChainComplex<TM>, std::vector<TM>> Hom(
 	if (maxdim == 0) { throw std::runtime_error("No homology to compute!");}
 
 	// apply hom functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		HD.set_node(i, ReducedChainComplex<TM>(D.node[i]));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply hom functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = D.elist[j].src;
 		auto t = D.elist[j].targ;
 		std::vector<TM> F(maxdim);
@@ -254,7 +272,8 @@ Diagram<ReducedChainComplex<TM>, std::vector<TM>> Hom(
 			F[k] = induced_map(D.edata[j], HD.node[s], HD.node[t], k);
 		}
 		HD.set_edge(j, s, t, F);
-	}
+	}); }
+	ex.rethrow();
 
 	return HD;
 }
@@ -283,8 +302,9 @@ auto RipsHom(
 	// apply functor to edges
 	// note this will do every node computation twice
 	// but the parallelization is trivial
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < m; i++) {
+	for (size_t i = 0; i < m; i++) { ex.run([&]() {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
 		if (rmax[t] < rmax[s]) {
@@ -305,7 +325,8 @@ auto RipsHom(
 		auto HF = induced_map(CF, Rs, Rt, hdim);
 
 	    TD.set_edge(i, s, t, HF);
-	}
+	}); }
+	ex.rethrow();
 
 	// extract dimensions for nodes
 	// we do this by iterating over edges
@@ -324,11 +345,12 @@ auto RipsHom(
 
 	// nodes that are not on any edge
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
-		if (on_edge[i]) { continue; }
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
+		if (on_edge[i]) { return; }
 		auto Xi = RipsComplex<CpxT>(get_subset(X, D.node[i]), dist, rmax[i], hdim+1);
 		TD.set_node(i, Reduce(Xi, FT()).hdim(hdim));
-	}
+	}); }
+	ex.rethrow();
 
 	return TD;
 }
@@ -352,18 +374,21 @@ Diagram<DGVectorSpace<TM>, DGLinearMap<TM>> DGLinearFunctor(
 	Diagram<DGVectorSpace<TM>, DGLinearMap<TM>> DGD(n, m);
 
 	// apply chain functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		DGD.set_node(i, DGVectorSpace<TM>(D.node[i], degree));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply chain functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = (degree == -1) ? D.elist[j].src : D.elist[j].targ;
 	    auto t = (degree == -1) ? D.elist[j].targ : D.elist[j].src;
 	    DGD.set_edge(j, s, t, DGLinearMap<TM>(D.edata[j], degree));
-	}
+	}); }
+	ex.rethrow();
 
 	return DGD;
 }
@@ -384,20 +409,23 @@ Diagram<ReducedDGVectorSpace<TM>, TM> Hom(
 	Diagram<ReducedDGVectorSpace<TM>, TM> HD(n, m);
 
 	// apply hom functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		HD.set_node(i, ReducedDGVectorSpace<TM>(D.node[i]));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply hom functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = D.elist[j].src;
 		auto t = D.elist[j].targ;
 		HD.set_edge(j, s, t,
 			induced_map(D.edata[j], HD.node[s], HD.node[t], k)
 		);
-	}
+	}); }
+	ex.rethrow();
 
 	return HD;
 
@@ -430,14 +458,16 @@ Diagram<ReducedDGVectorSpace<TM>, std::vector<TM>> Hom(
 	if (maxdim == 0) { throw std::runtime_error("No homology to compute!");}
 
 	// apply hom functor to nodes
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < n; i++) {
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
 		HD.set_node(i, ReducedDGVectorSpace<TM>(D.node[i]));
-	}
+	}); }
+	ex.rethrow();
 
 	// apply hom functor to edges
 	#pragma omp parallel for
-	for (size_t j = 0; j < m; j++) {
+	for (size_t j = 0; j < m; j++) { ex.run([&]() {
 		auto s = D.elist[j].src;
 		auto t = D.elist[j].targ;
 		std::vector<TM> F(maxdim);
@@ -445,7 +475,8 @@ Diagram<ReducedDGVectorSpace<TM>, std::vector<TM>> Hom(
 			F[k] = induced_map(D.edata[j], HD.node[s], HD.node[t], k);
 		}
 		HD.set_edge(j, s, t, F);
-	}
+	}); }
+	ex.rethrow();
 
 	return HD;
 }
diff --git a/include/quiver/sparse.hpp b/include/quiver/sparse.hpp
index 8775039..972e61e 100755
--- a/include/quiver/sparse.hpp
+++ b/include/quiver/sparse.hpp
@@ -7,6 +7,7 @@
 #include <linalg/col_matrix.hpp>
 #include <linalg/sparse_fact.hpp>
 #include <persistence/barcode.hpp>
+#include <util/parallel.hpp>
 
 #include <omp.h> // openMP header
 
@@ -334,11 +335,13 @@ ssize_t type_A_dq_common(
 
 
     // left side will be EL-type, right-side will be EU-type
-    #pragma omp task shared(dgm, facts, mats) firstprivate(j0, j0b)
-    (void) type_A_dq_EL(dgm, facts, mats, j0, j0b);
-    #pragma omp task shared(dgm, facts, mats) firstprivate(j1a, j1)
-    (void) type_A_dq_EU(dgm, facts, mats, j1a, j1);
+    util::ParallelExceptions ex;
+    #pragma omp task shared(dgm, facts, mats, ex) firstprivate(j0, j0b)
+    ex.run([&]() { (void) type_A_dq_EL(dgm, facts, mats, j0, j0b); });
+    #pragma omp task shared(dgm, facts, mats, ex) firstprivate(j1a, j1)
+    ex.run([&]() { (void) type_A_dq_EU(dgm, facts, mats, j1a, j1); });
     #pragma omp taskwait
+    ex.rethrow();
 
     // now do the LQU factorization in the middle
     // first pass the UP and PL terms from left and right
@@ -354,11 +357,12 @@ ssize_t type_A_dq_common(
 
     // commute L and U factors out
     // TODO: could specialize for identity
-    #pragma omp task shared(dgm, facts) firstprivate(j0, j0b)
-    (void) type_A_leftright_sweep2(dgm, facts, j0, j0b);
-    #pragma omp task shared(dgm, facts) firstprivate(j1a, j1)
-    (void) type_A_rightleft_sweep2(dgm, facts, j1a, j1);
+    #pragma omp task shared(dgm, facts, ex) firstprivate(j0, j0b)
+    ex.run([&]() { (void) type_A_leftright_sweep2(dgm, facts, j0, j0b); });
+    #pragma omp task shared(dgm, facts, ex) firstprivate(j1a, j1)
+    ex.run([&]() { (void) type_A_rightleft_sweep2(dgm, facts, j1a, j1); });
     #pragma omp taskwait
+    ex.rethrow();
 
     // quiver now has pivot matrices everywhere
     // there is a dangling L on the left and a dangling U on the right.
@@ -463,13 +467,15 @@ auto barcode_form_divide_conquer(const Diagram<NT, TM> &dgm) {
     std::vector<TM> mats = dgm.edata;
 
     // begin parallel region
-    #pragma omp parallel default(none) shared(dgm, facts, mats, m, nlevels)
+    util::ParallelExceptions ex;
+    #pragma omp parallel default(none) shared(dgm, facts, mats, m, nlevels, ex)
     {
         #pragma omp single nowait
         {
-            (void) type_A_dq_common(dgm, facts, mats, 0, m-1);
+            ex.run([&]() { (void) type_A_dq_common(dgm, facts, mats, 0, m-1); });
         }
     }
+    ex.rethrow();
 
     // we don't do second sweep if we only want barcode form
 
@@ -663,12 +669,14 @@ auto extract_dimension(const Diagram<NT, std::vector<TM>>& D, size_t k) {
 	size_t m = D.nedge();
 
     Diagram<void*, TM> TD(n, m);
+    util::ParallelExceptions ex;
     #pragma omp parallel for
-    for (size_t i = 0; i < m; ++i) {
+    for (size_t i = 0; i < m; ++i) { ex.run([&]() {
         auto s = D.elist[i].src;
 		auto t = D.elist[i].targ;
         TD.set_edge(i, s, t, D.edata[i][k]);
-    }
+    }); }
+    ex.rethrow();
 
     return TD;
 
diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..46fbb4e 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -5,6 +5,7 @@ A variety of levelset constructions
 #include <limits>
 #include <zigzag/zigzag_filtration.hpp>
 #include "grid.hpp"
+#include <util/parallel.hpp>
 
 namespace bats {
 
@@ -265,20 +266,23 @@ auto zigzag_levelsets(
     Diagram<CpxT, CellularMap> D(n, n-1);
 
     // fill in sets
+    util::ParallelExceptions ex;
     #pragma omp parallel for
-    for (size_t i = 0; i < n; ++i) {
+    for (size_t i = 0; i < n; ++i) { ex.run([&]() {
         D.set_node(i, X.levelset(sets[i].first, sets[i].second));
-    }
+    }); }
+    ex.rethrow();
 
     // fill in inclusion maps
     #pragma omp parallel for
-    for (size_t i = 0; i < n-1; ++i) {
+    for (size_t i = 0; i < n-1; ++i) { ex.run([&]() {
         size_t src = (i % 2 == 0) ? i : i+1;
         size_t targ = (i % 2 == 0) ? i+1 : i;
         D.set_edge(i, src, targ,
             CellularMap(D.node_data(src), D.node_data(targ))
         );
-    }
+    }); }
+    ex.rethrow();
 
     return D;
 
diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..eb3b3cd 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -4,6 +4,7 @@ points for neighborhoods
 */
 #include <vector>
 #include <util/permutation.hpp>
+#include <util/parallel.hpp>
 #include "data.hpp"
 
 namespace bats {
@@ -57,10 +58,12 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	std::vector<std::vector<size_t>> nbrs(X.size());
 
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < X.size(); i++) {
+	for (size_t i = 0; i < X.size(); i++) { ex.run([&]() {
 		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
-	}
+	}); }
+	ex.rethrow();
 
 	return nbrs;
 }
@@ -78,11 +81,13 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	std::vector<std::vector<size_t>> nbrs(X.size());
 
+	util::ParallelExceptions ex;
 	#pragma omp parallel for
-	for (size_t i = 0; i < X.size(); i++) {
+	for (size_t i = 0; i < X.size(); i++) { ex.run([&]() {
 		// k nearest neighbors of X[i] in L
 		nbrs[i] = neighborhood(X[i], Y, dist, k);
-	}
+	}); }
+	ex.rethrow();
 
 	return nbrs;
 }
diff --git a/include/util/parallel.hpp b/include/util/parallel.hpp
new file mode 100644
index 0000000..460747b
--- /dev/null
+++ b/include/util/parallel.hpp
@@ -0,0 +1,49 @@
+#pragma once
+/*
+utilities for parallel regions
+*/
+#include <exception>
+
+namespace bats {
+namespace util {
+
+/**
+An exception must not leave an OpenMP region, task or loop iteration.
+This class keeps the first exception that is thrown in one,
+so it can be rethrown by the thread that started the work.
+
+usage:
+	ParallelExceptions ex;
+	#pragma omp parallel for
+	for (size_t i = 0; i < n; i++) { ex.run([&]() {
+		// body
+	}); }
+	ex.rethrow();
+*/
+class ParallelExceptions {
+private:
+	std::exception_ptr ptr;
+
+public:
+
+	template <typename Function>
+	void run(Function&& f) noexcept {
+		try {
+			f();
+		} catch (...) {
+			std::exception_ptr e = std::current_exception();
+			#pragma omp critical (bats_parallel_exceptions)
+			{
+				if (!ptr) { ptr = e; }
+			}
+		}
+	}
+
+	// call once the parallel work has been joined
+	void rethrow() const {
+		if (ptr) { std::rethrow_exception(ptr); }
+	}
+};
+
+} // namespace util
+} // namespace bats
-- 
2.43.0


From dba8826c758c77ee79de2312275cf82c77ee599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 06/83] fix: radius neighborhoods writes each point's neighbors
 to its own entry

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index eb3b3cd..8dc7484 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -61,7 +61,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 	util::ParallelExceptions ex;
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) { ex.run([&]() {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}); }
 	ex.rethrow();
 
-- 
2.43.0


From b19a130d0dac1b53e80e08faab1fdd5e8c0ac877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 07/83] fix: nearest-neighbor queries for more neighbors than
 there are points

---
 include/topology/dowker.hpp  | 2 +-
 include/util/permutation.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..292ec67 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -185,7 +185,7 @@ SimplicialComplex WitnessComplex(
 ) {
 
 
-    size_t k = dmax + 1; // number of neighbors to find
+    size_t k = std::min(dmax + 1, L.size()); // number of neighbors to find
     // find the k closest neighbors in
     auto nbrs = neighborhoods(X, L, dist, k);
 
diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..a2b1698 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -139,10 +139,11 @@ template <typename TI>
 std::vector<size_t> firstk(
     const TI& begin,
     const TI& end,
-    const size_t k
+    size_t k
 ) {
     std::vector<size_t> perm(end - begin);
     std::iota(perm.begin(), perm.end(), 0);
+    k = std::min(k, perm.size()); // range may have fewer than k elements
     std::partial_sort(
         perm.begin(),
         perm.begin() + k,
-- 
2.43.0


From f21a4d6b0cdca9f1a816909f7a1f713158456b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 08/83] fix: zigzag_toplex computes the exit value of edges
 from all adjacent voxels

---
 include/topology/levelset.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 46fbb4e..3961b6c 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -86,19 +86,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -112,19 +112,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -138,19 +138,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
-- 
2.43.0


From a71977ca59688d95214f172edfccd09968425390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 09/83] fix: levelset contains every cell whose interval meets
 the window, as documented

---
 include/zigzag/zigzag_filtration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..a3116d5 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -156,7 +156,7 @@ public:
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
 				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
+				if (val[k][i][0].first <= s1 && s0 <= val[k][i][0].second) {
 					Y.add(X.get_cell(k, i));
 				}
 			}
-- 
2.43.0


From 802db867829bd97983b716552e0cc1510e1027f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 10/83] fix: linear_cover_intersection_diagram joins each
 intersection to the next cover set

---
 include/topology/inclusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..d4d5ccd 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
-- 
2.43.0


From f303c06490cf5ed92a3409709f956a7ce2a23dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 11/83] fix: DiscreteMorozovZigzagSets on data sets with
 duplicate points

---
 include/topology/zigzag_zoo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/zigzag_zoo.hpp b/include/topology/zigzag_zoo.hpp
index 7e1a81e..d2d0697 100755
--- a/include/topology/zigzag_zoo.hpp
+++ b/include/topology/zigzag_zoo.hpp
@@ -82,7 +82,8 @@ std::tuple<Diagram<std::set<size_t>, std::vector<size_t>>, std::vector<T>> Discr
 		// std::cout << j << std::endl;
 
 		// fill in sets up to level specified by inds2[i]
-		while (s.size() <= *indit2) {
+		// (s may hold fewer points, since inds repeats indices if D has duplicate points)
+		while (size_t(indit - inds.cbegin()) <= *indit2) {
 			s.emplace(*indit++);
 		}
 
-- 
2.43.0


From 3e276283c8170179d3a4ee0360f1da2847e7cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 12/83] fix: LightSimplicialComplex boundaries do not read
 before the offset table

---
 include/complex/light_simplicial_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..36b735d 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); } // no face follows vertex 0
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); } // no face follows vertex 0
 
 			c = -c;
 			i--;
-- 
2.43.0


From f7d920a7df404c3021dbb4710fe26427e086d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 13/83] fix: filtered chain complexes whose cells all have
 dimension 0

---
 include/chain/chain_complex.hpp | 4 ++--
 include/homology/basis.hpp      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..03c50f2 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -124,7 +124,7 @@ struct ChainComplex {
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -146,7 +146,7 @@ struct ChainComplex {
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..cacc3e3 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -293,7 +293,7 @@ public:
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
 			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
-- 
2.43.0


From d81dee7e1bbad2ee410635308e6eabaeb28fb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 14/83] fix: loading a CellularMap does not read a matrix past
 the end of the file

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..54f2630 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -39,7 +39,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
-- 
2.43.0


From 9421d0ea66a355e5f5eba1199e9d63ddf96daf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 15/83] fix: reading a truncated or damaged matrix throws
 instead of making a malformed one

---
 include/linalg/abstract_vector.hpp |  5 +++-
 include/linalg/col_matrix.hpp      | 38 +++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 5d8345a..a90089d 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <string>
 #include <sstream>
+#include <stdexcept>
 
 /*
 struct that holds index value pairs
@@ -21,7 +22,9 @@ struct nzpair {
   		std::istringstream iss(str);
   		getline(iss, token, ':');
   		ind = TI(std::stoi(token));
-  		getline(iss, token);
+  		if (!getline(iss, token)) {
+  			throw std::invalid_argument("nzpair: missing value");
+  		}
   		val = TV(std::stoi(token));
     }
 
diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..d4fe9e1 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -8,6 +8,7 @@
 #include <string>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #include <random>
 #include <chrono>
 #include "abstract_matrix.hpp"
@@ -90,18 +91,39 @@ public:
 	void read(std::istream &io) {
 		std::string line, token;
 		getline(io, line); // TODO: should be "Sparse Matrix"
-		getline(io, line); // get first line
+		if (!getline(io, line)) { // get first line
+			throw std::runtime_error("ColumnMatrix: missing dimensions");
+		}
 		// get dimensions from first line
 		std::istringstream iss(line);
 		getline(iss, token, ',');
-		m = std::stoi(token);
-		getline(iss, token);
-		n = std::stoi(token);
-		col.resize(n);
-		for (size_t j = 0; j < n; j++) {
-			getline(io, line);
-			col[j] = TC(line);
+		int nr = std::stoi(token);
+		if (!getline(iss, token)) {
+			throw std::runtime_error("ColumnMatrix: missing dimensions");
+		}
+		int nc = std::stoi(token);
+		if (nr < 0 || nc < 0) {
+			throw std::runtime_error("ColumnMatrix: negative dimensions");
+		}
+		std::vector<TC> newcol;
+		for (size_t j = 0; j < (size_t) nc; j++) {
+			if (!getline(io, line)) {
+				throw std::runtime_error("ColumnMatrix: missing columns");
+			}
+			newcol.emplace_back(TC(line));
+			// check that indices are sorted and inside the matrix
+			long long last = -1;
+			for (auto it = newcol.back().nzbegin(); it != newcol.back().nzend(); ++it) {
+				long long ind = (long long) it->ind;
+				if (ind <= last || ind >= nr) {
+					throw std::runtime_error("ColumnMatrix: invalid row index");
+				}
+				last = ind;
+			}
 		}
+		m = nr;
+		n = nc;
+		col = std::move(newcol);
 	}
 
     ColumnMatrix(std::istream& io) {
-- 
2.43.0


From 210dea1577b9e36f101a44a4401a2b3eb3365c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 16/83] fix: reading a simplicial complex accepts every vertex
 that can be written

---
 include/util/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 15d5733..28bcb20 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -109,7 +109,7 @@ void read_simplex(std::string &line, std::vector<T> &s) {
     while (getline(iss, token, ',')) {
         // std::cout << token << ',' << std::endl;
         if (token.size() > 0) {
-            s.emplace_back(std::stoi(token));
+            s.emplace_back(T(std::stoull(token)));
         }
     }
 }
-- 
2.43.0


From 3c4f599114fcc77abcf1d21ef9272a97cb2e9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 17/83] fix: reading a simplicial complex skips lines without a
 simplex

---
 include/complex/simplicial_complex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..8354b05 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -314,6 +314,7 @@ public:
             std::vector<size_t> spx;
             while (getline(file, line)) {
                 bats::util::read_simplex(line, spx);
+                if (spx.empty()) { continue; } // no simplex on this line
                 this->add_safe(spx);
             }
             file.close();
-- 
2.43.0


From f4a1ca72298783a5679b734e55f41f122cdf3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 18/83] fix: save functions report write errors

---
 include/complex/cell_map.hpp           | 3 +++
 include/complex/simplicial_complex.hpp | 3 +++
 include/linalg/col_matrix.hpp          | 3 +++
 include/multigraph/diagram.hpp         | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 54f2630..dc911ee 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -110,6 +110,9 @@ public:
 				M.write(file);
 			}
             file.close();
+            if (file.fail()) {
+                std::cerr << "failed to write CellularMap to " << fname << std::endl;
+            }
         } else {
             std::cerr << "unable to write CellularMap to " << fname << std::endl;
         }
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 8354b05..fb4f79c 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -603,6 +603,9 @@ public:
                 }
             }
             file.close();
+            if (file.fail()) {
+                std::cerr << "failed to write simplicial complex to " << fname << std::endl;
+            }
         } else {
             std::cerr << "unable to write simplicial complex to " << fname << std::endl;
         }
diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index d4fe9e1..a78dba0 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1063,6 +1063,9 @@ public:
         if (file.is_open()) {
             write(file);
             file.close();
+            if (file.fail()) {
+                std::cerr << "failed to write ColumnMatrix to " << fname << std::endl;
+            }
         } else {
             std::cerr << "unable to write ColumnMatrix to " << fname << std::endl;
         }
diff --git a/include/multigraph/diagram.hpp b/include/multigraph/diagram.hpp
index 239624b..779dfa4 100755
--- a/include/multigraph/diagram.hpp
+++ b/include/multigraph/diagram.hpp
@@ -102,6 +102,9 @@ public:
                 file << e.src << ',' << e.targ << '\n';
             }
             file.close();
+            if (file.fail()) {
+                std::cerr << "failed to write metadata at " << fname << std::endl;
+            }
         } else {
             std::cerr << "unable to write metadata at " << fname << std::endl;
         }
-- 
2.43.0


From 09318d665d7113812cbcd587eacf5a375eb548f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 19/83] fix: read_point_cloud returns one row per line of the
 file

---
 include/topology/data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..54b7177 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -55,7 +55,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // one row per line
 }
 
 
-- 
2.43.0


From 0951cbf8390d9a444c3be6096f26e03a1bbb2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 20/83] fix: read_point_cloud rejects inconsistent rows and
 reports read errors

---
 include/topology/data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 54b7177..671ac1f 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 
 #include <linalg/naive_dense.hpp>
 
@@ -28,7 +29,6 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 		std::string line;
 		if (header) {getline(file, line);} // TODO: check validity of header?
 		while (getline(file, line)) {
-			m++;
 			std::string token;
 		    std::istringstream iss(line);
 			size_t ncol = 0;
@@ -39,13 +39,19 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 					data.emplace_back(T(std::stod(token)));
 				}
 			}
+			if (ncol == 0) { continue; } // no entries on this line
+			m++;
 			if ( n== 0 ) {
 				n = ncol;
 			} else if (n != ncol) {
 				std::cerr << "inconsistent number of columns at line " << m << std::endl;
 				std::cerr << "saw " << ncol << " entries, expected " << n << std::endl;
+				throw std::runtime_error("read_point_cloud: inconsistent number of columns");
 			}
 		}
+		if (file.bad()) {
+			std::cerr << "error while reading " << fname << std::endl;
+		}
 		file.close();
 	} else {
 		std::cerr << "unable to open " << fname << std::endl;
-- 
2.43.0


From a72cd9286453f3fbe21d28ec92089f431d475f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 21/83] fix: load_cubes reports files it can not read

---
 include/complex/cubical_complex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..4e6d782 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -466,6 +466,10 @@ public:
 	void load_cubes(std::string &fname) {
 		std::fstream fin;
 		fin.open(fname, std::ios::in);
+		if (!fin.is_open()) {
+			std::cerr << "unable to read cubes from " << fname << std::endl;
+			return;
+		}
 
 		std::vector<size_t> cube;
 
@@ -482,6 +486,9 @@ public:
 			}
 			add(cube);
 		}
+		if (fin.bad()) {
+			std::cerr << "error while reading " << fname << std::endl;
+		}
 		return;
 	}
 
-- 
2.43.0


From 1d971aa51f39aa84ca241cc4fdb492691a6018b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 22/83] fix: integer entries that are zero in the coefficient
 field are not stored

---
 include/linalg/sparse_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..7d02432 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -110,7 +110,9 @@ public:
 	SparseVector(const SparseVector<int, TI2> &other) {
 		indval.reserve(other.nnz());
 		for (auto it = other.nzbegin(); it < other.nzend(); ++it) {
-			indval.emplace_back(key_type((*it).ind, (*it).val));
+			TV v((*it).val);
+			if (v == TV(0)) { continue; } // an integer can be zero in a field
+			indval.emplace_back(key_type((*it).ind, v));
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -121,10 +123,9 @@ public:
 	SparseVector(const std::vector<std::tuple<size_t, int>>& ival) {
 		indval.reserve(ival.size());
 		for (auto& tup : ival) {
-			indval.emplace_back(key_type(
-				std::get<0>(tup),
-				std::get<1>(tup)
-			));
+			TV v(std::get<1>(tup));
+			if (v == TV(0)) { continue; }
+			indval.emplace_back(key_type(std::get<0>(tup), v));
 		}
 		sort();
 	}
@@ -135,7 +136,10 @@ public:
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			TI ind(*indit++);
+			TV v(*valit++);
+			if (v == TV(0)) { continue; }
+			indval.emplace_back(key_type(ind, v));
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
-- 
2.43.0


From 779a95e05533f9aac02f14a5ad97fd443189b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 23/83] fix: extra reduction handles pivots in the first stored
 entry

---
 include/homology/parallel.hpp  | 2 +-
 include/homology/reduction.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index a2684a2..1b90f39 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -209,7 +209,7 @@ void reduce_column_extra(
 ) {
 	size_t end_offset = 1;
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(end_offset <= M[j].nnz()) {
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..dd804ce 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -96,7 +96,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(end_offset <= M[j].nnz()) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -194,7 +194,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(end_offset <= M[j].nnz()) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -259,7 +259,7 @@ void reduce_column_sparsify(
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (end_offset <= M[j].nnz()) {
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
-- 
2.43.0


From 345e5955345dba11da26be0cce8dfd217617cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 24/83] fix: ModP represents and compares any integer, and
 assignment from int takes effect

---
 include/linalg/field.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..99cb84e 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -93,7 +93,8 @@ public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  // representative in [0, P) of any integer
+  ModP(IntT v) : val(v % IntT(P)) { if (val < 0) { val += P; } }
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +159,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == ModP(b).val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != ModP(b).val;
   }
 
   inline bool operator<( const ModP &b) const {
@@ -331,11 +332,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From 13d1a939fb0b5579edd5bc9eec985d7b2c707a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 25/83] fix: union-find pairs use the filtration order of the
 cells

---
 include/persistence/union_find.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..7b509cd 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -56,6 +56,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	// assumed to be sorted in filtration order
 	auto& B = F.complex()[1];
 	auto& vals = F.vals();
+	auto& perm = F.perm; // filtration order to original order
 
 	size_t N = B.nrow();
 	size_t M = B.ncol();
@@ -70,9 +71,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -93,14 +94,12 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// if parents are same, H1 created.  Nothing to do here.
 		if (pi == pj) { continue; }
 
-		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
-		if (bi < bj) {
+		// indices are in filtration order, so the smaller one is born first
+		if (pi < pj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -108,8 +107,8 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From 0ba63af86792c13cebf5b92938370ab01aba82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 26/83] fix: sparsifying a basis keeps the reduced matrix
 reduced

---
 include/homology/reduction.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index dd804ce..9b9b1d1 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -290,7 +290,7 @@ void reduce_column_sparsify(
 				M[j].axpy(-a, M[k], tmp);
 			}
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (end_offset <= M[j].nnz() && piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
@@ -332,7 +332,7 @@ void sparsify_basis(
 	while (piv - U[j].nzbegin() > 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -351,7 +351,7 @@ void sparsify_basis(
 				R[j].axpy(-a, R[k], tmp);
 			}
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (end_offset <= U[j].nnz() && piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
 			--piv;
-- 
2.43.0


From f3e5720680ca79a1b58fe04322fd88301f588d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 27/83] fix: general update appends a unit column for each
 added vertex

The first appended column of the basis repeated the index of the last
existing one, so the updated basis was singular (and out of range when
there was no vertex before).
---
 include/homology/basis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index cacc3e3..6b09bf1 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -403,8 +403,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// find the index of the first column appended to U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
-- 
2.43.0


From 2387ad5cdd8f1c8e23c5ad78fccf988adc5c850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 28/83] fix: value update of a filtered chain complex moves the
 boundary to the new order

It did not compile (the scratch vector for indices had the value type) and
applied the inverse of the update permutation.
---
 include/chain/filtered_chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..ac58442 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,13 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 92e00c692e6ef3a08a01d0af3467ad4b24601b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 29/83] fix: row insertion into sparse vectors checks the end
 before reading

insert_rows and insert_sparse_rows dereferenced the list of row indices
before comparing the iterator with the end.
---
 include/linalg/sparse_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 7d02432..8e93752 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -690,7 +690,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -728,7 +728,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From 2bd8ecf1b3a4c68a24ecb1c05a1692eef698eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 30/83] fix: assignment and failed copies of a SparseTrie
 release its nodes

Assigning over a trie leaked its old nodes, left a dangling child table when
the source had none, and an exception while copying or inserting leaked.
---
 include/util/trie.hpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..767f67b 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
-// #include <unordered_map>
+#include <memory>
+#include <unordered_map>
+#include <utility>
 #include <vector>
 // #include "tsl/hopscotch_map.h"
 // #include "tsl/robin_map.h"
@@ -21,13 +23,15 @@ public:
     child_container *children = nullptr;
 
 	// Copy constructor - deep copy
-    SparseTrie(const SparseTrie &t) {
+    // delegates, so that the destructor releases what was copied if a copy throws
+    SparseTrie(const SparseTrie &t) : SparseTrie(t.val) {
         //std::cout << "trie is being copied to " << this << std::endl;
-        val = t.val;
         if (t.children != nullptr) {
             children = new child_container;
             for (auto& [k, v] : *(t.children)) {
-                children->emplace(k, new child_type(*v));
+                auto child = std::make_unique<child_type>(*v);
+                children->emplace(k, child.get());
+                child.release();
             }
         }
     }
@@ -60,18 +64,8 @@ public:
 
 		if (&t == this) {return *this;}
 
-		// release children
-		if (children != nullptr) { delete children; }
-
-		val = t.val;
-        if (t.children != nullptr) {
-            children = new child_container;
-            for (auto& [k, v] : *(t.children)) {
-                children->emplace(k, new child_type(*v));
-            }
-        }
-
-		return *this;
+		// copy first, so that this trie is unchanged if the copy throws
+		return *this = SparseTrie(t);
 	}
 
 	// Move assignment
@@ -82,8 +76,8 @@ public:
 		if (&t == this)
 			return *this;
 
-		// release children
-		if (children != nullptr) { delete children; }
+		// hand over old children to be released
+		SparseTrie old(std::move(*this));
 
 		val = t.val;
 		// Transfer ownership of children
@@ -98,7 +92,11 @@ public:
         SparseTrie* current = this;
         while (stptr < endptr) {
             if (current->children == nullptr) { current->children = new child_container; }
-            if (current->children->count(*stptr) == 0) { current->children->emplace(*stptr, new child_type); }
+            if (current->children->count(*stptr) == 0) {
+                auto child = std::make_unique<child_type>();
+                current->children->emplace(*stptr, child.get());
+                child.release();
+            }
             current = current->children->at(*stptr++);
         }
         current->val = v;
-- 
2.43.0


From 33fedfeda7e3e572fc582bb642a1a755243e1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 31/83] fix: update information does not ask for the boundary
 of a vertex

UpdateInfo2 called boundary(0, j) for every added vertex, which reads
outside the stored faces.
---
 include/filtration/update_information.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index e4d5bf0..7c19e82 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -173,11 +173,11 @@ struct UpdateInfo2{
 				} else {
 					// this simplex is not in X1 - must be inserted
 					insertion_indices[dim].emplace_back(fj2); // this is insertion index
-					auto [ind, val] = X2.boundary(dim, j2);
 
 					// put indices  of boundary in permutation order
 					bdry.clear();
-					if (dim > 0) {
+					if (dim > 0) { // vertices have no boundary
+						auto [ind, val] = X2.boundary(dim, j2);
 						for (size_t ii = 0; ii < ind.size(); ++ii) {
 							bdry.emplace_back(nzpair(
 								iperms2[dim-1][ind[ii]], // where index gets mapped in filtration order
-- 
2.43.0


From b0f137617642ae91a6bc4f524084e7b70540db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 32/83] fix: inserting several sparse rows puts each at its
 index

insert_rows compared the insertion index with the number of old rows placed
rather than the position reached; insert_sparse_rows read past the end of
the index list.
---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index a78dba0..81a32a3 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -333,7 +333,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
@@ -410,7 +410,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From d2e9cdfb7b0bb0bddc1fba04884e0f9aeeaaf470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 33/83] fix: value update of a filtered graded space follows
 its degree

It did not compile, applied the inverse of the update permutation, and
ignored that orders are reversed for cohomology.
---
 include/dgvs/filtered_dgvs.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..1aa56f8 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,25 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 75d83cee2979daa9bdebb5ae6c20e50534fbad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 34/83] fix: updates of reduced graded spaces keep every
 dimension consistent

Added vertices got a repeated unit column; the zero differential beyond the
maximum dimension and its pivots were not resized; the clearing variant did
not reduce the maximum dimension.
---
 include/homology/dgbasis.hpp | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 00a0276..f1eda25 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -482,6 +482,25 @@ public:
 		return v;
 	}
 
+	/**
+	fit the zero differential beyond the maximum dimension
+	to the current number of cells of maximum dimension
+	*/
+	void _resize_top_differential() {
+		size_t k = maxdim() + 1;
+		if (degree == -1) {
+			size_t n = R[k-1].ncol();
+			R[k] = MT(n, 0);
+			U[k] = MT::identity(0);
+			p2c[k].assign(n, bats::NO_IND);
+		} else { // degree == +1
+			size_t n = R[k-1].nrow();
+			R[k] = MT(0, n);
+			U[k] = MT::identity(n);
+			p2c[k].clear();
+		}
+	}
+
 	/**
 	delete cells in dimension k
 	*/
@@ -655,6 +674,7 @@ public:
 					p2c[k] = reduce_matrix(R[k], U[k]);
 				}
 			}
+			_resize_top_differential();
 		} else { // degree == +1
 			p2c[0] = reduce_matrix(R[0], U[0]);
 			for (size_t k = 1; k < UI.perm.size() + 1; ++k) {
@@ -854,8 +874,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the first column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -975,14 +995,8 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
-		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
-		}
+		// add/remove simplices at the highest dimension to the zero differential beyond
+		_resize_top_differential();
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
@@ -1223,8 +1237,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the first column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -1338,14 +1352,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = (ssize_t) max_dim - 1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k < max_dim + 1; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1358,12 +1372,8 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add zero columns
-		if(degree == +1){
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-		}
+		// add/remove simplices at the highest dimension to the zero differential beyond
+		_resize_top_differential();
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
-- 
2.43.0


From c868da92af9cec15e1e4598026a71d7ec73d7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 35/83] fix: iterate over vertices, not faces, of light
 simplices; empty light complexes and absent dimensions can be queried

---
 include/complex/light_simplicial_complex.hpp | 39 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 36b735d..e9a4f78 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -19,6 +19,7 @@ e.g. for simplex (x_0, ... x_k), we use sum x_i n^i
 */
 
 #include <iostream>
+#include <iterator>
 #include <unordered_map>
 #include <vector>
 #include <linalg/csc_matrix.hpp>
@@ -64,6 +65,35 @@ public:
 
 private:
 
+	// iterates over the vertices of a simplex
+	struct simplex_vertex_iterator {
+		using iterator_category = std::bidirectional_iterator_tag;
+		using value_type = index_type;
+		using difference_type = std::ptrdiff_t;
+		using pointer = const index_type*;
+		using reference = index_type;
+
+		const LightSimplicialComplex* p; // parent complex
+		index_type key; // simplex
+		size_t i; // position in simplex
+
+		simplex_vertex_iterator(
+			const LightSimplicialComplex* p,
+			index_type key,
+			size_t i
+		) : p(p), key(key), i(i) {}
+
+		index_type operator*() const { return (key / p->offset(i)) % p->_n; }
+
+		simplex_vertex_iterator& operator++() { ++i; return *this; }
+		simplex_vertex_iterator& operator--() { --i; return *this; }
+		simplex_vertex_iterator operator++(int) { auto tmp = *this; ++i; return tmp; }
+		simplex_vertex_iterator operator--(int) { auto tmp = *this; --i; return tmp; }
+
+		bool operator!=(const simplex_vertex_iterator& other) const { return i != other.i; }
+		bool operator==(const simplex_vertex_iterator& other) const { return i == other.i; }
+	};
+
 	struct simplex_boundary_iterator {
 		const LightSimplicialComplex* p; // parent complex
 		size_t dim;
@@ -153,7 +183,7 @@ private:
 	};
 
 public:
-    LightSimplicialComplex() : _n(0), _k(0) {}
+    LightSimplicialComplex() : LightSimplicialComplex(0, 0) {}
 
     LightSimplicialComplex(
         const index_type n,
@@ -268,6 +298,7 @@ public:
 	// find index of simplex s
 	// returns bats::NO_IND if s can not be found
 	size_t find_idx(const std::vector<index_type> &s) const {
+		if (s.empty() || s.size() > key_to_index.size()) { return bats::NO_IND; } // no simplices of this dimension
 		auto key = simplex_key(s);
 		size_t dim = s.size() - 1;
 		return find_idx(dim, key);
@@ -372,12 +403,12 @@ public:
 		return add_recursive(dim, k);
 	}
 
+	// iterate over the vertices of simplex i in dimension dim
 	auto simplex_begin(const size_t dim, const size_t i) const {
-		auto k = index_to_key[dim][i];
-		return simplex_boundary_iterator(k, dim, this);
+		return simplex_vertex_iterator(this, index_to_key[dim][i], 0);
 	}
 	auto simplex_end(const size_t dim, const size_t i) const {
-		return simplex_boundary_iterator(-1);
+		return simplex_vertex_iterator(this, index_to_key[dim][i], dim + 1);
 	}
 
 	// return inds, vals in boundary of simplex i in dimension dim
-- 
2.43.0


From dcd3ecc65f352eb764732a130f649b0815377e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 36/83] fix: adding a simplex whose faces are missing to a
 filtration wrote outside its values

---
 include/filtration/filtration.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..06e1ca7 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -139,6 +139,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { reserve(ret.dim); return ret; } // not added: a face is missing
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -153,6 +154,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
+		if (ret.ind == bats::NO_IND) { reserve(ret.dim); return ret; } // not added: a face is missing
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
-- 
2.43.0


From 7e198898ec1b5dd125fcb5ba6ae9c6a66f57df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 37/83] fix: sublevelset of a light complex keeps its vertex
 set

---
 include/complex/light_simplicial_complex.hpp | 5 +++++
 include/filtration/filtration.hpp            | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index e9a4f78..4f665ff 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -195,6 +195,11 @@ public:
     }
 
 
+    // empty complex on the same vertex set and with the same maximum dimension as X
+    friend LightSimplicialComplex empty_copy(const LightSimplicialComplex& X) {
+        return LightSimplicialComplex(X._n, X._k);
+    }
+
     // // copy constructor
     // LightSimplicialComplex(
     //     const LightSimplicialComplex& other
diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 06e1ca7..659a119 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -37,6 +37,10 @@ std::vector<std::vector<size_t>> filtration_iperm(
 }
 
 
+// initialize an empty complex which can hold any subcomplex of X
+template <class CpxT>
+inline CpxT empty_copy(const CpxT& X) { return CpxT(X.ncells(0), X.maxdim()); }
+
 /**
 @brief A filtration which can be used to wrap a simplicial/cubical/cell complex
 
@@ -208,7 +212,7 @@ public:
 	@param a upper bound of levelset
 	*/
 	CpxT sublevelset(const TF a) const {
-		CpxT Y(X.ncells(0), X.maxdim()); // initialize new complex
+		CpxT Y = empty_copy(X); // initialize new complex
 		for (size_t k = 0; k < maxdim() + 1; ++k) {
 			for (size_t i = 0; i < ncells(k); ++i) {
 				if (val[k][i] <= a) {
-- 
2.43.0


From 514eacbf7f6df6b3cc598cee00b424564cf4ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 38/83] fix: cellular maps grow to hold the dimension asked
 for; repeated entries of a cell's boundary are summed

---
 include/complex/cell_complex.hpp | 12 +++++++++++-
 include/complex/cell_map.hpp     |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/complex/cell_complex.hpp b/include/complex/cell_complex.hpp
index f0a715c..340e842 100755
--- a/include/complex/cell_complex.hpp
+++ b/include/complex/cell_complex.hpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <algorithm>
 #include <iterator>
+#include <map>
 #include "abstract_complex.hpp"
 #include <linalg/csc_matrix.hpp>
 #include <linalg/sparse_vector.hpp>
@@ -88,8 +89,17 @@ private:
         // now check that we have reserved memory for dimension k
         reserve(k);
 
+        // a cell may appear several times in a boundary - sum the coefficients
+        std::map<size_t, int> sum;
+        for (size_t i = 0; i < b.size(); i++) { sum[b[i]] += c[i]; }
+        std::vector<size_t> ind;
+        std::vector<int> val;
+        for (auto& [i, v] : sum) {
+            if (v != 0) { ind.emplace_back(i); val.emplace_back(v); }
+        }
+
         // we're clear to add
-        return add_unsafe(b, c, k);
+        return add_unsafe(ind, val, k);
     }
 
 
diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index dc911ee..4b5ba60 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From 6edfbceb6f5b7480fea2619e3c76647c14c53224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 39/83] fix: absent dimensions have no cells; set_dimension can
 lower the dimension; only cubes of the complex's dimension are found

---
 include/complex/cubical_complex.hpp          | 5 ++++-
 include/complex/light_simplicial_complex.hpp | 2 +-
 include/complex/simplicial_complex.hpp       | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 4e6d782..d8a5be6 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -276,17 +276,19 @@ public:
     // returns index of simplex
     // TODO: find a way to do this with a single traversal of spx_to_idx
     size_t find_idx(const std::vector<size_t> &s) {
+        if (s.size() != 2*__maxdim) { return bats::NO_IND; } // not a cube of this complex
         return spx_to_idx.get(s, bats::NO_IND);
     }
 
     size_t find_idx(const std::vector<size_t> &s) const {
+        if (s.size() != 2*__maxdim) { return bats::NO_IND; } // not a cube of this complex
         return spx_to_idx.get(s, bats::NO_IND);
     }
 
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k <= maxdim() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
@@ -302,6 +304,7 @@ public:
 			throw std::runtime_error("can not set dimension - cubes already added!");
 			return;
 		}
+		__maxdim = maxdim;
 		reserve(maxdim);
 	}
 
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 4f665ff..ac82151 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -218,7 +218,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index fb4f79c..d359397 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -346,7 +346,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k <= maxdim() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From d610c94ce161c7533f701dda725210940a10deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 40/83] fix: tensor products of sparse vectors and matrices

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 81a32a3..1c97bf1 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1104,7 +1104,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].tensor(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 8e93752..95e76ca 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1242,5 +1242,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 5f02c71909f020f5450a9520571ff76cb40ecfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 41/83] fix: sum and product of compressed matrices with empty
 columns

---
 include/util/sorted.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..9945200 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -155,6 +155,8 @@ void sort_sum_reduce(
     std::vector<TI> &tmpind,
     std::vector<TV> &tmpval
 ) {
+    if (ind.size() <= offset) { return; } // nothing to reduce
+
     // sort ind and val simultaneously
     fill_sortperm(ind.cbegin() + offset, ind.cend(), perm);
     apply_perm(ind.data() + offset, tmpind, perm);
-- 
2.43.0


From 71869584cf52e7d6f80952f253ab6d92764fbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 42/83] fix: scaling by zero and constant zero vectors do not
 store zeros

---
 include/linalg/sparse_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 95e76ca..7721a85 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -157,6 +157,7 @@ public:
 	*/
 	static SparseVector dense(const TV a, const TI m) {
 		std::vector<key_type> vindval;
+		if (a == TV(0)) { return SparseVector(); } // do not store zeros
 		vindval.reserve(m);
 		for (size_t i = 0; i < m; ++i) {
 			vindval.emplace_back(key_type(i,a));
@@ -1151,6 +1152,7 @@ public:
 
 	// scale vector by c
 	void scale_inplace(const TV c) {
+		if (c == TV(0)) { clear(); return; } // do not store zeros
 		auto it = nzbegin();
 		while (it != nzend()) {
 			it->val = it->val * c;
-- 
2.43.0


From 435b50b87f308288a9d161f9963f27a40c7db3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 43/83] fix: setting a block keeps the row after it

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 7721a85..e7b1df3 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -473,7 +473,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From 3daa72a56ae27d01d8eb5b4da391f4e0c414257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 44/83] fix: mixing rows inserts the new entry at its place

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index e7b1df3..e74f6b7 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -657,7 +657,8 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			// modification may have moved the location for i
+			if (b*vj != 0) indval.insert(lower_bound(i), key_type(i, b*vj));
 
 		}
 	}
-- 
2.43.0


From e99fc69f529bdb7ef5f1e8a0c5df08441786bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 45/83] fix: difference of column matrices has the right sign

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1c97bf1..9f66ed5 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -781,9 +781,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From de7ae1ce541f828d804a5fff69d5ee73f141061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 46/83] fix: zero column is inserted at its index

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 9f66ed5..40b3348 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -225,7 +225,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
-- 
2.43.0


From fb13ba1b94458de10cf286532554efb0786cec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 47/83] fix: rows given by indices and values are inserted

---
 include/linalg/col_matrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 40b3348..7c41dd2 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -355,11 +355,12 @@ public:
 		const std::vector<std::vector<size_t>>& r_col_inds,
 		const std::vector<std::vector<val_type>>& r_col_vals
 	) {
+		std::vector<col_type> new_rows;
+		new_rows.reserve(r_inds.size());
 		for (size_t i = 0; i < r_inds.size(); i++){
-			for (size_t j= 0; j < r_col_inds.size(); j++){
-				col[j].insert_rows({r_col_inds[i][j]}, {r_col_vals[i][j]});
-			}
+			new_rows.emplace_back(col_type(r_col_inds[i], r_col_vals[i]));
 		}
+		insert_sparse_rows(r_inds, new_rows);
 	}
 
 	// insert a zero row
-- 
2.43.0


From 2de0531a2dc38a303c0c2e4329220177ad8c0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 48/83] fix: singular matrices are not upper invertible

---
 include/linalg/col_matrix.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 7c41dd2..c95edbd 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -940,13 +940,13 @@ public:
 
 	// tests to see if matrix is invertible and upper-triangular
 	bool is_upper_invert() const {
+		if (m != n) { return false; } // must be square
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
+			if (iv == col[j].nzbegin()) { return false; } // zero column
+			--iv;
+			if (iv->ind != j) {
+				return false;
 			}
 		}
 		return true;
-- 
2.43.0


From 7018735cfdd8bd242a64c1db2275781edb411af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 49/83] fix: selections of compressed matrices take the right
 columns and stay sorted

---
 include/linalg/csc_matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..ea1d0c3 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -165,6 +165,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // row indices may be out of order
         return A;
 
     }
@@ -193,7 +194,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
@@ -203,6 +204,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort();
     }
 
     /*
-- 
2.43.0


From 93a6a7659e5dbdd7c627ae6cca04d8796f01c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 50/83] fix: inverse permutation of rows is the inverse

---
 include/chain/chain_complex.hpp  | 2 +-
 include/linalg/col_matrix.hpp    | 5 +----
 include/linalg/sparse_vector.hpp | 6 ++----
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 03c50f2..d2f3a12 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].ipermute_rows(PI_row);
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index c95edbd..841a296 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -161,10 +161,7 @@ public:
 
 	// permute rows in-place
     void ipermute_rows(const std::vector<size_t> &rowperm) {
-        // // TODO: this is trivially parallelizable
-        for (size_t i = 0; i < col.size(); i++) {
-            col[i].ipermute(rowperm);
-        }
+        permute_rows(bats::util::inv_perm(rowperm));
     }
 
     // inline size_t width() {
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index e74f6b7..4d7175f 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -18,6 +18,7 @@ maintains indices in sorted order
 #include <map>
 #include "field.hpp"
 #include "abstract_vector.hpp"
+#include <util/permutation.hpp>
 
 
 // template over type of values
@@ -424,10 +425,7 @@ public:
 	// apply inverse permutation in-place
 	// O(nz log nz) where nz is #non-zeros
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
-		}
-		sort();
+		permute(bats::util::inv_perm(perm));
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From 76071fe6d2c1f131d348bb267b70603437ad8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 51/83] fix: level-set extensions of functions with negative
 values

numeric_limits<T>::min() is the smallest positive value of a floating
point type, so a function that is negative on a cell had the wrong
maximum.  extend_levelset declared a return type that its result does
not have, so that it could not be instantiated.
---
 include/zigzag/extension.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..e18277d 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
@@ -130,7 +130,7 @@ complex.  The filtration progresses from low to high values.
 @return val vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From d1712722c1e8f1ca22c1169f0e8cb767f0adf102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 52/83] fix: zigzag chain complex attaches each copy of a cell
 to the copies of its faces present with it

The boundary of the first copy of a cell was never corrected, so a cell
whose first interval lies in a later interval of a face was attached to a
copy of the face that had already left; and a cell that enters just when
a later copy of its face leaves kept the wrong copy.
---
 include/zigzag/zigzag_filtration.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index a3116d5..2aa2503 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -191,16 +191,19 @@ struct ZigzagChainComplex
 	void _correct_indices(
 		size_t k,
 		size_t j,
-		const std::vector<std::vector<size_t>> extra_cells
+		const std::vector<std::vector<size_t>>& extra_cells
 	) {
 		auto it = C[k][j].nzbegin();
 		while (it != C[k][j].nzend()) {
 			auto i = it->ind;
-			// if this column enters after the original boundary exits, we need
-			// to search for copy of boundary
-			if (val[k][j].first > val[k-1][i].second) {
+			// if the original boundary is not present when this column enters,
+			// we need to search for the copy of the boundary that is.
+			auto present = [&](const std::pair<T, T>& v) {
+				return v.first <= val[k][j].first && val[k][j].first <= v.second;
+			};
+			if (!present(val[k-1][i])) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (present(val[k-1][i2])) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -259,6 +262,8 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the first interval may also lie in a later interval of a face
+				if (k > 0) { _correct_indices(k, i, extra_cells); }
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From 50b9c4f4afe9df90b0bead780c88f84041f356f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 53/83] fix: zigzag barcodes forget the pivots of removed cells
 above the requested dimension

Columns more than one dimension above maxdim are reduced too, but when
they were removed they stayed in the table of pivots, and a later column
with the same pivot was reduced by an empty column.  Also do not read past
the end of the list of cycles before reporting a missing one.
---
 include/zigzag/reduction.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..283520c 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -468,7 +468,7 @@ auto zigzag_barcode_reduction(
 				size_t i = piv.ind;
 				// delete from HRB basis in dimension k-1
 				auto it = std::lower_bound(F.I[k-1].begin(), F.I[k-1].end(), i);
-				if (i != *it) {throw std::runtime_error("pivot is not cycle!"); }
+				if (it == F.I[k-1].end() || i != *it) {throw std::runtime_error("pivot is not cycle!"); }
 				F.I[k-1].erase(it);
 				// determine induced map
 				VecT v(i); // chain in HRB basis
@@ -542,9 +542,6 @@ auto zigzag_barcode_reduction(
 				// need to transform indices using fact.E
 				// add bar to active_bars and transform initial indices of active_bars
 				detail::update_bars(bars[k-1], fval, k-1, fact.E, piv_to_ind[k-1], piv_to_ind2[k-1]);
-
-				// remove i from list of pivots
-				F.p2c[k][i] = bats::NO_IND;
 			} else if (k < maxdim + 1) {
 				// homology will be destroyed in this dimension since we remove zero column
 				// induced map of insertion <--
@@ -566,6 +563,10 @@ auto zigzag_barcode_reduction(
 
 				// this column should not have been recorded in p2c
 			}
+			// a removed column no longer owns its pivot, in any dimension
+			if (F.R[fval.dim][fval.ind].nnz() > 0) {
+				F.p2c[fval.dim][F.R[fval.dim][fval.ind].lastnz().ind] = bats::NO_IND;
+			}
 			F.R[fval.dim][fval.ind].clear_dealloc();
 			F.U[fval.dim][fval.ind].clear_dealloc();
 		}
-- 
2.43.0


From b12e80021e09fbe69659d11ec684d69220de279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 54/83] fix: extra reduction of zigzag columns handles pivots
 in the first stored entry

The first entry of a column was never looked at, so a column with a single
entry took over a pivot that a column to its left owned.
---
 include/zigzag/reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index 283520c..f88f54c 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -111,7 +111,7 @@ void extra_col_reduction(
 
 	size_t end_offset = 1; // difference from end
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
-- 
2.43.0


From c43fbad8c859c23ad702c5b760114b2f2fdabf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 55/83] fix: Kendall-tau distance releases its buffers when
 memory runs out

---
 include/util/permutation.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index a2b1698..09590e3 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -521,8 +521,7 @@ size_t Kendall_tau_merge(TI array[], int const left, int const mid, int const ri
     auto const subArrayTwo = right - mid;
 
     // Create temp arrays
-    auto *leftArray = new int[subArrayOne],
-         *rightArray = new int[subArrayTwo];
+    std::vector<int> leftArray(subArrayOne), rightArray(subArrayTwo);
 
     // Copy data to temp arrays leftArray[] and rightArray[]
     for (auto i = 0; i < subArrayOne; i++)
@@ -561,8 +560,6 @@ size_t Kendall_tau_merge(TI array[], int const left, int const mid, int const ri
         indexOfSubArrayTwo++;
         indexOfMergedArray++;
     }
-    delete [] rightArray;
-    delete [] leftArray;
     return num_inv;
 }
 
@@ -591,13 +588,11 @@ size_t Kendall_tau(const std::vector<T>& perm)
 {
     // Create temp array
     size_t len = perm.size();
-    auto *arr = new int[len];
+    std::vector<int> arr(len);
     // Copy data to temp array
     for (size_t i = 0; i < len; i++)
         arr[i] = perm[i];
-    size_t num_inv = Kendall_tau_inplace(arr, 0, len - 1);
-
-    delete[] arr;
+    size_t num_inv = Kendall_tau_inplace(arr.data(), 0, len - 1);
 
     return num_inv;
 }
-- 
2.43.0


From f868670ac9051f2e2e97a80c58b806a69aa194cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 56/83] fix: clear_compress_apparent_pairs compressed columns
 that are not negative

A column is certain not to reduce to zero only when no earlier column meets
the row of its pivot; being the first column with that pivot is not enough,
and homology computed after the preprocessing came out wrong.
---
 include/chain/chain_complex.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index d2f3a12..2d0d66d 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -344,12 +344,15 @@ template <typename Information_type>
 
 		std::vector<bool> comp_inds;
 		std::vector<bool> clear_inds;
+		std::vector<bool> row_seen; // rows met by the columns so far
 		for (size_t dim = 1; dim < maxdim() + 1; ++dim) {
 			// prepare clearing and compression indices
 			clear_inds.resize(boundary[dim].nrow());
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
+			row_seen.resize(boundary[dim].nrow());
+			std::fill(row_seen.begin(), row_seen.end(), false);
 			// look at pivots to determine clearing/compression inds
 			for (size_t j = 0; j < boundary[dim].ncol(); ++j) {
 				auto it = boundary[dim][j].nzend();
@@ -359,10 +362,15 @@ template <typename Information_type>
 					size_t i = it->ind; // pivot index
 					if (!clear_inds[i]) {
 						// this is the first time we have seen this pivot
-						// mark j as a compression ind
-						comp_inds[j] = true;
 						// mark i as a clearing ind
 						clear_inds[i] = true;
+						// mark j as a compression ind if no earlier column meets row i.
+						// Otherwise an earlier column may reduce to pivot i,
+						// and column j may reduce to zero
+						comp_inds[j] = !row_seen[i];
+					}
+					for (auto nz = boundary[dim][j].nzbegin(); nz != boundary[dim][j].nzend(); ++nz) {
+						row_seen[nz->ind] = true;
 					}
 				}
 			}
-- 
2.43.0


From 1119ed74f851094b27975c373694f25cf24a1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 57/83] fix: general update of a chain complex deletes the
 cells it was told to

The order that lists the deleted cells last was applied as its inverse, so
other rows and columns were removed.
---
 include/chain/chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 2d0d66d..b3f4e13 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -207,7 +207,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // column perm[i] moves to i
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -224,7 +224,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].ipermute_rows(perm); // row perm[i] moves to i
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
-- 
2.43.0


From 76b86aa03175d85ed47c8b864c08a428f7647e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 58/83] fix: general update of a 0-dimensional chain complex
 updates its vertices

---
 include/chain/chain_complex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index b3f4e13..5e49ea7 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -293,6 +293,13 @@ template <typename Information_type>
 		for (size_t k = 0; k < UI_fast.max_dim; k++) {
 			update_basis_general(k, UI_fast);
 		}
+		if (UI_fast.max_dim == 0) {
+			// no boundary above dimension 0: only the number of vertices changes
+			boundary[0] = MT(
+				boundary[0].nrow(),
+				boundary[0].ncol() - UI_fast.deletion_indices[0].size() + UI_fast.addition_indices[0].size()
+			);
+		}
 	}
 
 	// tensor product of chain complexes A\otimes B
-- 
2.43.0


From eca9fdac1a11421874ce3deab61ef793dae9da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 59/83] fix: witness_edges and the lazy witness complex compile

---
 include/topology/dowker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 292ec67..ae1c620 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -164,7 +164,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
@@ -226,7 +226,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From aa5af7acfa1bf80d5e65edb54d5899cfb1e86351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:47 +0000
Subject: [PATCH 60/83] fix: flag filtrations respect a maximum dimension of 0
 or 1; CompleteFlagFiltration returns its complex

---
 include/filtration/flag.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..005a91a 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -301,6 +301,7 @@ Filtration<T, CpxT> FlagFiltration(
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return F; } // no edges in a 0-dimensional filtration
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -366,6 +367,7 @@ auto FlagFiltration_extension(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
         inds[0].emplace_back(k);
     }
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // no edges in a 0-dimensional filtration
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -448,6 +450,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); } // no edges in a 0-dimensional filtration
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -471,10 +474,12 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
-- 
2.43.0


From 97405d8f97335795c6f156ca087a9c841814b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:47 +0000
Subject: [PATCH 61/83] fix: witness parameters read and write only the rows of
 the distance matrix

---
 include/topology/dowker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index ae1c620..b08a56f 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -105,10 +105,11 @@ Matrix<T> witness_edge_param(
     // get m
     auto m = get_m(pdist, nu);
     auto nX = pdist.ncol();
+    auto nL = pdist.nrow();
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < nL; i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
-- 
2.43.0


From cf952392a30db913e20439562c340831849dbd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 62/83] fix: FlagComplex adds each edge with its vertices in
 order

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 8d466c3..72983bb 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -93,6 +93,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From d0ba74a185ca852f9ae10b01198a92638640b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 63/83] fix: the nu-th smallest entry of a column counts zeros
 and repeated entries

---
 include/topology/dowker.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index b08a56f..324c52a 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -41,12 +41,19 @@ std::vector<T> get_m(
     size_t nu
 ) {
     size_t N = pdist.ncol();
+    size_t n = pdist.nrow();
     std::vector<T> m(N, T(0));
+    if (nu == 0 || n == 0) { return m; }
+    nu = std::min(nu, n);
 
-    while (nu > 0) {
-        // update m with next largest entry
-        increment_m(pdist, m);
-        nu--;
+    std::vector<T> column(n);
+    for (size_t j = 0; j < N; j++) {
+        for (size_t i = 0; i < n; i++) {
+            column[i] = pdist(i,j);
+        }
+        // entries that occur several times, and zeros, count as often as they occur
+        std::nth_element(column.begin(), column.begin() + (nu - 1), column.end());
+        m[j] = column[nu - 1];
     }
 
     return m;
-- 
2.43.0


From 76cb837e7a7e197143a588116648f07ee6f80c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 64/83] fix: the strict witness complex covers the points, not
 the landmarks

---
 include/topology/dowker.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 324c52a..7d4d985 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -96,10 +96,10 @@ Matrix<T> dowker_edge_param(
     return R;
 }
 
-// get witness edge parameters
-// for witness filtration
+// get distances from landmarks (rows) to points (columns),
+// each reduced by the distance of the point to its nu-th nearest landmark
 template <typename T, typename M>
-Matrix<T> witness_edge_param(
+Matrix<T> witness_distances(
     const DataSet<T> &X,
     const DataSet<T> &L,
     const M &dist,
@@ -122,7 +122,19 @@ Matrix<T> witness_edge_param(
         }
     }
 
-    return dowker_edge_param(pdist);
+    return pdist;
+}
+
+// get witness edge parameters
+// for witness filtration
+template <typename T, typename M>
+Matrix<T> witness_edge_param(
+    const DataSet<T> &X,
+    const DataSet<T> &L,
+    const M &dist,
+    const size_t nu
+) {
+    return dowker_edge_param(witness_distances(X, L, dist, nu));
 }
 
 
@@ -245,7 +257,7 @@ inline auto witness_neighborhoods(
     const size_t nu,
     const T rmax
 ) {
-    auto pdist = witness_edge_param(X, L, dist, nu);
+    auto pdist = witness_distances(X, L, dist, nu);
     // get cover
     return neighborhoods(pdist, rmax);
 }
-- 
2.43.0


From ddd42a4b3d687294f040befb54274064c9f52821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:27 +0000
Subject: [PATCH 65/83] fix: RPCosineDist computes its own distance

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..97cefbb 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
-- 
2.43.0


From 99b725d8a24e9025a15455afd6f9ec8818cb8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 66/83] fix: angular distances of (anti)parallel points are not
 NaN

---
 include/topology/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index 97cefbb..e7d103a 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From 82d0b16f71d49ba484ca39f690985e7fbc7a81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 67/83] fix: SetVector axpy over a range of indices adds the
 entries in the range

---
 include/linalg/set_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index 3602098..c8d73ca 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -178,7 +178,7 @@ public:
 
 		// set i2 to find first ind >= firstind
 		auto i2 = x.lower_bound(firstind);
-		if (!((*i2).ind < lastind) || i2 == x.nzend()) { return; } // nothing to do
+		if (i2 == x.nzend() || !((*i2).ind < lastind)) { return; } // nothing to do
 		while (i1 != indval.end() && i2 != x.nzend()) {
 			if ((*i1).ind == (*i2).ind) {
 				TV val = (a * (*i2).val) + (*i1).val;
@@ -190,7 +190,7 @@ public:
 					++i1;
 				}
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
+				if (i2 == x.nzend() || !((*i2).ind < lastind)) { return; }
 			} else if (*i1 < *i2) {
 				// need to catch up i1
 				++i1;
@@ -198,11 +198,11 @@ public:
 				// i2 has lower index
 				i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
+				if (i2 == x.nzend() || !((*i2).ind < lastind)) { return; }
 			}
 		}
 		// run through rest of entries in i2
-		while (i2 != x.nzend() && !((*i2).ind < lastind)) {
+		while (i2 != x.nzend() && (*i2).ind < lastind) {
 			i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 			++i2;
 		}
-- 
2.43.0


From 4b0b76ad5e2a84e3dc0ca1685b79fca6cd58a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 68/83] fix: find_last_nz finds the last entry of a vector and
 no entry before the first

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 4d7175f..e976373 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -396,7 +396,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
-- 
2.43.0


From 124c3f20b39186e0c76f3dd797bae31152c444ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 69/83] fix: find_sorted_lt does not look before the first
 element

---
 include/util/sorted.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 9945200..77ef775 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -201,12 +201,9 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    if (it == begin) { return bats::NO_IND; }
     it--;
-    if (*it < v) {
-        return it - begin;
-    }
-    return bats::NO_IND;
-    //return it--;
+    return it - begin;
 }
 
 // return complement of sorted vector in range [0,n)
-- 
2.43.0


From 3cddf6486594a448d552c7c6ed5aff44525f4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 70/83] fix: SetVector axpy with a zero coefficient stores no
 zeros

---
 include/linalg/set_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index c8d73ca..5d60880 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -131,6 +131,7 @@ public:
         const TV &a,
         const SVT &x
     ) {
+        if (a == 0) { return; } // nothing to add
 
         auto i1 = indval.begin();
         auto i2 = x.nzbegin();
@@ -172,6 +173,7 @@ public:
 		const TI &firstind,
 		const TI &lastind
 	) {
+		if (a == 0) { return; } // nothing to add
 
 		// set i1 to find first ind >= firstind
 		auto i1 = indval.lower_bound(key_type(firstind, TV(0)));
-- 
2.43.0


From 7427daafd4fe4ab1f704d6ce929cbd8553e4bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 71/83] fix: intersections below a bound respect the bound in
 their first elements

---
 include/util/sorted.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 77ef775..ae26417 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,7 +87,7 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
             if (ia == a.cend() || !(*ia < maxval)) {break;}
@@ -110,7 +110,7 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
             if (ia == a.cend() || !(*ia < maxval)) {break;}
-- 
2.43.0


From e0795d5914ef215d1a7250093bcce904f19a6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 72/83] fix: the Eilenberg-Zilber product has every vertex, in
 the order of the tensor product

---
 include/topology/eilenberg_zilber.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..a19c878 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -31,7 +31,7 @@ auto EilenbergZilber(
 	using MT = ColumnMatrix<VT>;
 
 	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n*n, maxdim); // product simplicial complex
+	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
@@ -52,6 +52,14 @@ auto EilenbergZilber(
 			ind_shift[0][0] = 0;
 			CXCY[0] = MT(1, X.ncells(0) * Y.ncells(0));
 			F[0] = MT::identity(X.ncells(0) * Y.ncells(0));
+			// vertices of the product are added in the order of the tensor product
+			for (size_t iX = 0; iX < X.ncells(0); iX++) {
+				for (size_t iY = 0; iY < Y.ncells(0); iY++) {
+					s = { prod_ind(X.get_simplex(0, iX)[0], Y.get_simplex(0, iY)[0], n) };
+					XY.add(s);
+				}
+			}
+			s.clear();
 			continue;
 		}
 		CXCY[dim] = MT(CXCY[dim-1].ncol(), 0);
-- 
2.43.0


From eb351467e005cb9350e8280d52e4e4dc34aefb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 73/83] fix: the boundary of a tensor product does not read
 index shifts before the first

---
 include/topology/eilenberg_zilber.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index a19c878..53c4bbf 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -91,8 +91,13 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					VT dxy;
+					if (dX > 0) {
+						dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY]);
+					}
+					if (dY > 0) {
+						dxy = dxy + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					}
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
-- 
2.43.0


From 1853f3287765be74f87a77117579df0f935083e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 74/83] fix: the Eilenberg-Zilber map has the signs of shuffles
 and sorted columns

---
 include/complex/simplicial_complex.hpp | 10 ++++---
 include/topology/eilenberg_zilber.hpp  | 37 ++++++++++++++++++++------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index d359397..1ad299e 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -687,24 +687,28 @@ void product_paths(
 	const itT yend,
 	std::vector<size_t> &s,
 	const size_t n,
-	std::vector<cell_ind> &ci // holds all top-level simplices added
+	std::vector<cell_ind> &ci, // holds all top-level simplices added
+	std::vector<int> &sgn, // holds sign of the shuffle of each simplex in ci
+	const int c = 1, // sign of the path so far
+	const int cy = 1 // parity of steps in y direction so far
 ) {
 	// put on vertex
 	s.emplace_back(prod_ind(*xit, *yit, n));
 	++xit; ++yit;
 	if (xit == xend && yit == yend) {
 		ci.emplace_back((XY.add_recursive(s)).back());
+		sgn.emplace_back(c);
 		s.pop_back();
 		return;
 	}
 	if (xit != xend) {
 		// increment in x direction
-		product_paths(XY, xit, xend, --yit, yend, s, n, ci);
+		product_paths(XY, xit, xend, --yit, yend, s, n, ci, sgn, c * cy, cy);
 		++yit;
 	}
 	if (yit != yend) {
 		// increment in y direction
-		product_paths(XY, --xit, xend, yit, yend, s, n, ci);
+		product_paths(XY, --xit, xend, yit, yend, s, n, ci, sgn, c, -cy);
 	}
 	// pop off vertex
 	s.pop_back();
diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 53c4bbf..ac3fd55 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -12,6 +12,23 @@ Input is 2 simplicial complexes, X, Y
 
 namespace bats {
 
+/*
+sign of boundaries in dimension k, relative to the convention
+in which the face that omits the first vertex has coefficient 1
+*/
+template <typename CpxT>
+int boundary_sign(const CpxT& X, const size_t k) {
+	if (k == 0 || X.ncells(k) == 0) { return 1; }
+	auto s = X.get_simplex(k, 0);
+	s.erase(s.begin());
+	const size_t f = X.find_idx(s);
+	auto [ind, val] = X.boundary(k, 0);
+	for (size_t i = 0; i < ind.size(); i++) {
+		if (ind[i] == f) { return val[i] < 0 ? -1 : 1; }
+	}
+	return 1;
+}
+
 /*
 Eilenberg-Zilberg map
 returns:
@@ -42,6 +59,8 @@ auto EilenbergZilber(
 
 	std::vector<size_t> s; // placeholder simplex
 	std::vector<cell_ind> ci; // list of added simplices
+	std::vector<int> sgn; // signs of shuffles
+	std::vector<int> bsgn(maxdim + 1, 1); // product of boundary signs up to each dimension
 
 	size_t ind_shift[maxdim+1][maxdim+1]; // keep track of index shifts in direct sum
 
@@ -78,6 +97,7 @@ auto EilenbergZilber(
 				for (size_t iY = 0; iY < Y.ncells(dY); iY++) {
 					auto sY = Y.get_simplex(dY, iY);
 					ci.clear();
+					sgn.clear();
 					// create target simplices
 					product_paths(
 						XY,
@@ -87,8 +107,10 @@ auto EilenbergZilber(
 						sY.end(), //Y.simplex_end(dY, iY),
 						s,
 						n,
-						ci
+						ci,
+						sgn
 					);
+					bsgn[dim] = bsgn[dim-1] * boundary_sign(XY, dim);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
 					VT dxy;
@@ -103,15 +125,14 @@ auto EilenbergZilber(
 					// create column in map
 					// map this basis vector in tensor product
 					// to linear combination of simplices in XY
-					// TODO: dump inds in ci to column vector
-					std::vector<size_t> ind;
-					std::vector<T> val;
+					// sign of each simplex is the sign of its shuffle
+					std::vector<std::tuple<size_t, int>> ival;
 
-					for (auto& c: ci) {
-						ind.emplace_back(c.ind);
-						val.emplace_back(T(1));
+					const int c = bsgn[dX] * bsgn[dY] * bsgn[dim];
+					for (size_t i = 0; i < ci.size(); i++) {
+						ival.emplace_back(ci[i].ind, c * sgn[i]);
 					}
-					F[dim].append_column(ind, val);
+					F[dim].append_column(VT(ival));
 				}
 			}
 		}
-- 
2.43.0


From 3ee08b784313cd904451b025105d26b574a40990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 75/83] fix: kron_homology reads coefficients in the
 homology-revealing basis

---
 include/topology/eilenberg_zilber.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index ac3fd55..738f739 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -212,8 +212,9 @@ auto kron_homology(
 			// form kronecker product of chains
 			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);
 			// find preferred representative in RXRY
-			RXRY.find_preferred_representative(cxcy, dim);
-			col.emplace_back(cxcy[RXRY.I[dim]]);
+			auto y = RXRY.to_hom_basis(cxcy, dim);
+			RXRY.find_preferred_representative(y, dim);
+			col.emplace_back(y[RXRY.I[dim]]);
 		}
 	}
 
-- 
2.43.0


From f818fa25ec29a0a15e0a483697e42fc881bee1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 76/83] fix: Kronecker product indices of subcomplexes with
 cells in another order

---
 include/topology/eilenberg_zilber.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 738f739..ddbd10f 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -231,6 +231,9 @@ std::vector<std::vector<size_t>> kron_index(
 	size_t maxdim
 ) {
 	std::vector<std::vector<size_t>> ABinds(maxdim+1);
+	// complements below are taken of sorted indices
+	for (auto& inds : Ainds) { std::sort(inds.begin(), inds.end()); }
+	for (auto& inds : Binds) { std::sort(inds.begin(), inds.end()); }
 
 	// loop over simplex dimension of product
 	for (size_t dim = 0; dim <=maxdim; dim++) {
-- 
2.43.0


From 1dd1df2bee2a2b9ba5fec6e1c5d71be881034fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 77/83] fix: columns of the Mayer-Vietoris boundary are sorted

---
 include/topology/mayer_vietoris.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..a7fd599 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <complex/simplicial_complex.hpp>
+#include <tuple>
 #include <vector>
 
 namespace bats {
@@ -29,8 +30,7 @@ auto mayer_vietoris_boundary(
     col.reserve(n);
     std::vector<size_t> face;
     face.reserve(k+1);
-    std::vector<size_t> inds;
-    std::vector<int> vals;
+    std::vector<std::tuple<size_t, int>> ival;
 
     for (auto& s : X.get_simplices(k+1)) {
         if (A.find_idx(s) != bats::NO_IND) {
@@ -39,8 +39,7 @@ auto mayer_vietoris_boundary(
             // loop over faces in lexicographical order
             size_t dim = k+1;
             size_t spx_len = dim + 1;
-            inds.clear();
-            vals.clear();
+            ival.clear();
             for (size_t i = 0; i < spx_len; i++) {
 
                 size_t i2 = dim-i; // index to skip
@@ -55,12 +54,11 @@ auto mayer_vietoris_boundary(
                 size_t ind = Y.find_idx(face);
                 // if face is in Y, add it to boundary
                 if (ind != bats::NO_IND) {
-                    inds.emplace_back(ind);
-                    vals.emplace_back(c);
+                    ival.emplace_back(ind, c);
                 }
                 c = -c;
             }
-            col.emplace_back(TC(inds, vals));
+            col.emplace_back(TC(ival)); // sorts by index
 
         } else {
             // boundary is 0
-- 
2.43.0


From 56fc5eb6924ae5293bf98280c8832a37c045f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:37 +0000
Subject: [PATCH 78/83] fix: Smith forms do not read the pivot from a freed
 column

---
 include/linalg/pid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..bcb4159 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -99,6 +99,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
+                    p = A[j].nzbegin(); // column j was rewritten
                 }
             }
 
@@ -115,6 +116,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
                     continue_reduction = true;
                     A.mix_rows(p->ind, rp->ind, x, y, -z, w);
                 }
+                p = A[j].nzbegin();
                 rp = A[j].nzend() - 1;
             }
 
@@ -221,6 +223,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                     C.mix_rows(j, j2, w, z, -y, x);
+                    p = S[j].nzbegin(); // column j was rewritten
                 }
             }
 
@@ -239,6 +242,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
                     S.mix_rows(p->ind, rp->ind, x, y, -z, w);
                     R.mix_cols(p->ind, rp->ind, w, -y, z, x);
                 }
+                p = S[j].nzbegin();
                 rp = S[j].nzend() - 1;
             }
             // if continue_reduction is true, we mixed a row with the pivot row
@@ -327,6 +331,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
+                    p = S[j].nzbegin(); // column j was rewritten
                 }
             }
 
@@ -345,6 +350,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
                     S.mix_rows(p->ind, rp->ind, x, y, -z, w);
                     R.mix_cols(p->ind, rp->ind, w, -y, z, x);
                 }
+                p = S[j].nzbegin();
                 rp = S[j].nzend() - 1;
             }
             // if continue_reduction is true, we mixed a row with the pivot row
-- 
2.43.0


From 88e0209ae1985909f001889f4d054048cb141e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:29 +0000
Subject: [PATCH 79/83] fix: extended Euclidean algorithm keeps a divisor
 unchanged, so Smith forms end and are diagonal

---
 include/linalg/pid.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index bcb4159..8fcb7dc 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -25,6 +25,15 @@ std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID&
     //
     // }
 
+    // if a divides b, keep a: 1*a + 0*b = a
+    if (a != 0) {
+        PID q = b / a;
+        if (b - q * a == 0) {
+            PID x(1), y(0), g(a), w(1);
+            return std::tie(x, y, g, w, q);
+        }
+    }
+
     PID s(0), old_s(1);
     PID t(1), old_t(0);
     PID r(b), old_r(a);
-- 
2.43.0


From ccfded5bc3efbdbe3f75a8e238102d1ce1709c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:07 +0000
Subject: [PATCH 80/83] fix: basis of the rational canonical form has one
 vector per dimension

---
 include/linalg/rcf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..284b523 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,8 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            // v, A*v, ..., A^(d-1)*v
+            for (size_t k = 1; k < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From 74c237b9d59bfa44eb7539556bdf7cead40a991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:49 +0000
Subject: [PATCH 81/83] fix: elements of the two-element field can be negated
 when const, as polynomials need

---
 include/linalg/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 99cb84e..9f2f138 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -278,7 +278,7 @@ public:
     return *this;
   }
 
-  inline ModP& operator-() {
+  inline ModP operator-() const {
     return *this; // no-op
   }
 
-- 
2.43.0


From 6584b4056ef7793d349b72a17e236feaa1e79458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:20 +0000
Subject: [PATCH 82/83] fix: companion matrices store no zeros, and exist for
 the constant polynomial 1

---
 include/linalg/polynomial.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index 892e56e..ed81cff 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -275,14 +275,16 @@ public:
 		if (!is_monic()) {throw std::runtime_error("Companion matrix requires monic polynomial!");}
 		size_t n = dim(); // size of companion matrix
 		std::vector<SparseVector<T>> cols(n);
+		if (n == 0) { return ColumnMatrix<SparseVector<T>>(n,n,cols); }
 		for (size_t j = 0; j < n-1; j++) {
 			cols[j] = SparseVector<T>({j+1}, {T(1)});
 		}
-		std::vector<size_t> ind(n);
-		std::vector<T> val(n);
+		std::vector<size_t> ind;
+		std::vector<T> val;
 		for (size_t i = 0; i < n; i++) {
-			ind[i] = i;
-			val[i] = -c[i];
+			if (c[i] == 0) { continue; }
+			ind.emplace_back(i);
+			val.emplace_back(-c[i]);
 		}
 		cols[n-1] = SparseVector<T>(ind, val);
 
-- 
2.43.0


From a61c8ea41fcd46559c7612cc73d3476f285e4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:01 +0000
Subject: [PATCH 83/83] fix: clearing a Morse pairing separates its merged
 vertices again

---
 include/morse/pairing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/morse/pairing.hpp b/include/morse/pairing.hpp
index 6744e66..dd14f62 100755
--- a/include/morse/pairing.hpp
+++ b/include/morse/pairing.hpp
@@ -232,6 +232,10 @@ public:
 		for (size_t i = 0; i < down.size(); i++) {
 			down[i].clear();
 		}
+		// every 0-cell is its own component again
+		for (size_t i = 0; i < parent.size(); i++) {
+			parent[i] = i;
+		}
 	}
 
 	inline size_t maxdim() const { return _maxdim; }
-- 
2.43.0

