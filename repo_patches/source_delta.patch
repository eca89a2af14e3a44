From a35c46e6e8edd6aa4814f19a90e5254bc0f68080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:09 +0000
Subject: [PATCH 001/109] fix: validity predicates of DOF indices test the
 entity number and the symmetry label

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..0aadc5a 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..b5be6d5 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -33,7 +33,8 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = !(m & DofSymmetries::MASK_UNDEF) && dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && (m & (1 << dof_id.stype))
+            && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From 9461f82839840620af4bc30a185da3cac122a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:09 +0000
Subject: [PATCH 002/109] fix: VectorDofMap translates an entity-local index by
 the count per entity, not per tetrahedron

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..101efa0 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index b5be6d5..4e22b12 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -403,14 +403,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From 1729842660ff57258613f850b8489801b513ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:09 +0000
Subject: [PATCH 003/109] fix: UniteDofMap equality compares the symmetry
 structure

---
 anifem++/fem/tetdofmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 101efa0..27d7ae8 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -415,7 +415,7 @@ void DofT::UniteDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Local
 bool DofT::UniteDofMap::operator==(const BaseDofMap& o) const {
     if (o.ActualType() != ActualType()) return false;
     auto& a = static_cast<const UniteDofMap&>(o);
-    return m_shiftDof == a.m_shiftDof; //&& m_shiftTetDof == a.m_shiftTetDof
+    return m_shiftDof == a.m_shiftDof && m_symmetries.m_sym == a.m_symmetries.m_sym; //&& m_shiftTetDof == a.m_shiftTetDof
 }
 
 std::array<uint, DofT::NGEOM_TYPES> DofT::VectorDofMap::NumDofs() const  { 
-- 
2.43.0


From aad690437bc0a9637384083ba8e6cee54b404cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:09 +0000
Subject: [PATCH 004/109] fix: compile-time DOF maps check the type before
 comparing

---
 anifem++/fem/tetdofmap.inl | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 4e22b12..79dde41 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -441,10 +441,9 @@ namespace FemComDetails{
 
     template<typename DofMapT>
     bool VectorDofMapCImpl<true, DofMapT>::operator==(const BaseDofMap& o) const{
-        if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const VectorDofMapCImpl<true, DofMapT>&>(o);
-        if (m_dim != a.m_dim) return false;
-        return m_base == a.m_base;
+        auto a = dynamic_cast<const VectorDofMapCImpl<true, DofMapT>*>(&o);
+        if (!a || m_dim != a->m_dim) return false;
+        return m_base == a->m_base;
     }
 
     template<typename DofMapT>
@@ -729,9 +728,8 @@ namespace FemComDetails{
     }
     template<typename... DofMapT>
     bool ComplexDofMapCImpl<true, DofMapT...>::operator==(const BaseDofMap& o) const {
-        if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const ComplexDofMapCImpl<true, DofMapT...>&>(o);
-        return Getter<0, Size::value>::isSame(*this, a);
+        auto a = dynamic_cast<const ComplexDofMapCImpl<true, DofMapT...>*>(&o);
+        return a && Getter<0, Size::value>::isSame(*this, *a);
     }
     template<typename... DofMapT>
     void ComplexDofMapCImpl<true, DofMapT...>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
-- 
2.43.0


From 2bba9f87d362a538e108b0ca0fee045d97595b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:43 +0000
Subject: [PATCH 005/109] fix: iteration over selected DOFs visits every
 component of vector and complex maps

---
 anifem++/fem/tetdofmap.cpp | 144 ++++++++++++----------------------
 anifem++/fem/tetdofmap.h   |   7 ++
 anifem++/fem/tetdofmap.inl | 153 ++++++++++++++-----------------------
 3 files changed, 113 insertions(+), 191 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 27d7ae8..c08653c 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -470,6 +470,12 @@ std::shared_ptr<DofT::BaseDofMap> DofT::VectorDofMap::GetSubDofMap(const int* ex
     } else 
         return nullptr;
 }
+void DofT::VectorDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+    if (m_dim > 0)
+        base->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+    else 
+        EndByGeomSparsity(lo);
+}
 void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
     int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(lo.etype);
@@ -513,23 +519,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
@@ -692,34 +684,31 @@ std::shared_ptr<DofT::BaseDofMap> DofT::ComplexDofMap::GetSubDofMap(const int* e
         return nullptr;
     return ndims == 1 ? m_spaces[ext_dims[0]] : m_spaces[ext_dims[0]]->GetSubDofMap(ext_dims+1, ndims-1);
 }
-void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
-    if (!preferGeomOrdering){
-        for (uint dim = 0; dim < m_spaces.size(); ++dim){
-            LocalOrder ll, lend;
-            m_spaces[dim]->EndByGeomSparsity(lend);
-            m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
-            if (ll != lend){
-                lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
-                return;
-            } 
-        }
-        EndByGeomSparsity(lo);
-        return;
-    } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
-            }
+bool DofT::ComplexDofMap::BeginFromComponent(uint first_dim, const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
+    for (uint dim = first_dim; dim < m_spaces.size(); ++dim){
+        LocalOrder ll, lend;
+        m_spaces[dim]->EndByGeomSparsity(lend);
+        m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
+        if (ll != lend){
+            lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+            return true;
         }
-        EndByGeomSparsity(lo);
-        return;
     }
+    return false;
+}
+void DofT::ComplexDofMap::BeginFromPos(TetGeomSparsity::Pos pos, const TetGeomSparsity& sp, LocalOrder& lo) const {
+    for (; pos.isValid(); pos = sp.nextPos(pos)){
+        TetGeomSparsity ss;
+        ss.set(pos.elem_dim, pos.elem_num);
+        if (BeginFromComponent(0, ss, lo, true)) return;
+    }
+    EndByGeomSparsity(lo);
+}
+void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
+    if (preferGeomOrdering)
+        BeginFromPos(sp.beginPos(), sp, lo);
+    else if (!BeginFromComponent(0, sp, lo, false))
+        EndByGeomSparsity(lo);
 }
 void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
@@ -728,60 +717,23 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
     LocalOrder ll(lo.gid - m_spaceNumDofsTet[dim], lo.etype, lo.nelem, lo.leid - m_spaceNumDof[num][dim], lo.stype, lo.lsid); 
     LocalOrder lend;
     m_spaces[dim]->EndByGeomSparsity(lend);
-    if (!preferGeomOrdering){
-        m_spaces[dim]->IncrementByGeomSparsity(sp, ll, preferGeomOrdering);
-        if (ll != lend){
-            if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-            lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-            return;
-        } else {
-            ++dim;
-            if (dim != m_spaces.size()){
-                m_spaces[dim]->EndByGeomSparsity(lend);
-                m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
-                if (ll != lend){
-                    if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                }
-            }
-            EndByGeomSparsity(lo);
-            return;
-        }
-    } else {
-        TetGeomSparsity ss;
-        auto gdim = GeomTypeDim(lo.etype);
-        ss.set(gdim, lo.nelem);
-        LocalOrder lgo = ll;
-        m_spaces[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-        // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-        if (lgo != lend){
-            if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-            lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
-            return;
-        } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
-                }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
-            }
-        }
+    TetGeomSparsity ss;
+    TetGeomSparsity::Pos pos(GeomTypeDim(lo.etype), lo.nelem);
+    if (preferGeomOrdering) 
+        ss.set(pos.elem_dim, pos.elem_num);
+    else 
+        ss = sp;
+    m_spaces[dim]->IncrementByGeomSparsity(ss, ll, preferGeomOrdering);
+    if (ll != lend){
+        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+        return;
     }
+    if (BeginFromComponent(dim + 1, ss, lo, preferGeomOrdering)) 
+        return;
+    if (preferGeomOrdering)
+        BeginFromPos(sp.nextPos(pos), sp, lo);
+    else 
+        EndByGeomSparsity(lo);
 }
 
 DofT::ComponentTetOrder DofT::ComplexDofMap::ComponentID(TetOrder dof_id) const{
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 0aadc5a..4e53bd1 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
@@ -701,6 +702,12 @@ namespace Ani{
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const;
             ComponentElemOrder ComponentID(ElemOrder dof_id) const;
+        protected:
+            /// Set lo to the first selected d.o.f. among the components with numbers >= first_dim
+            /// @return false if these components have no selected d.o.f.s
+            bool BeginFromComponent(uint first_dim, const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const;
+            /// Set lo to the first d.o.f. on the first geometrical element, starting from pos, that carries d.o.f.s
+            void BeginFromPos(TetGeomSparsity::Pos pos, const TetGeomSparsity& sp, LocalOrder& lo) const;
         };
 
     };
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 79dde41..08b86ad 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -386,6 +386,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -446,6 +447,14 @@ namespace FemComDetails{
         return m_base == a->m_base;
     }
 
+    template<typename DofMapT>
+    void VectorDofMapCImpl<true, DofMapT>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+        if (m_dim > 0)
+            m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+        else 
+            EndByGeomSparsity(lo);
+    }
+
     template<typename DofMapT>
     void VectorDofMapCImpl<true, DofMapT>::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
         assert(isValidIndex(lo) && "Wrong index");
@@ -490,23 +499,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
@@ -565,6 +560,11 @@ namespace FemComDetails{
         
         void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
+        /// Set lo to the first selected d.o.f. among the components with numbers >= first_dim
+        /// @return false if these components have no selected d.o.f.s
+        bool BeginFromComponent(uint first_dim, const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const;
+        /// Set lo to the first d.o.f. on the first geometrical element, starting from pos, that carries d.o.f.s
+        void BeginFromPos(TetGeomSparsity::Pos pos, const TetGeomSparsity& sp, LocalOrder& lo) const;
 
         template<std::size_t I, std::size_t N>
         struct Getter{
@@ -732,35 +732,34 @@ namespace FemComDetails{
         return a && Getter<0, Size::value>::isSame(*this, *a);
     }
     template<typename... DofMapT>
-    void ComplexDofMapCImpl<true, DofMapT...>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
+    bool ComplexDofMapCImpl<true, DofMapT...>::BeginFromComponent(uint first_dim, const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
         auto s = content();
-        if (!preferGeomOrdering){
-            for (uint dim = 0; dim < s.size(); ++dim){
-                LocalOrder ll, lend;
-                s[dim]->EndByGeomSparsity(lend);
-                s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
-                if (ll != lend){
-                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
-                    return;
-                } 
-            }
-            EndByGeomSparsity(lo);
-            return;
-        } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
-                }
+        for (uint dim = first_dim; dim < s.size(); ++dim){
+            LocalOrder ll, lend;
+            s[dim]->EndByGeomSparsity(lend);
+            s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
+            if (ll != lend){
+                lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                return true;
             }
-            EndByGeomSparsity(lo);
-            return;
         }
+        return false;
+    }
+    template<typename... DofMapT>
+    void ComplexDofMapCImpl<true, DofMapT...>::BeginFromPos(TetGeomSparsity::Pos pos, const TetGeomSparsity& sp, LocalOrder& lo) const {
+        for (; pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            if (BeginFromComponent(0, ss, lo, true)) return;
+        }
+        EndByGeomSparsity(lo);
+    }
+    template<typename... DofMapT>
+    void ComplexDofMapCImpl<true, DofMapT...>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
+        if (preferGeomOrdering)
+            BeginFromPos(sp.beginPos(), sp, lo);
+        else if (!BeginFromComponent(0, sp, lo, false))
+            EndByGeomSparsity(lo);
     }
     template<typename... DofMapT>
     void ComplexDofMapCImpl<true, DofMapT...>::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
@@ -771,59 +770,23 @@ namespace FemComDetails{
         LocalOrder ll(lo.gid - m_spaceNumDofsTet[dim], lo.etype, lo.nelem, lo.leid - m_spaceNumDof[num][dim], lo.stype, lo.lsid); 
         LocalOrder lend;
         s[dim]->EndByGeomSparsity(lend);
-        if (!preferGeomOrdering){
-            s[dim]->IncrementByGeomSparsity(sp, ll, preferGeomOrdering);
-            if (ll != lend){
-                if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-                lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                return;
-            } else {
-                ++dim;
-                if (dim != s.size()){
-                    s[dim]->EndByGeomSparsity(lend);
-                    s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
-                    if (ll != lend){
-                        if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                        return;
-                    }
-                }
-                EndByGeomSparsity(lo);
-                return;
-            }
-        } else {
-            TetGeomSparsity ss;
-            auto gdim = GeomTypeDim(lo.etype);
-            ss.set(gdim, lo.nelem);
-            LocalOrder lgo = ll;
-            s[dim]->IncrementByGeomSparsity(ss, lgo, preferGeomOrdering);
-            // if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
-            if (lgo != lend){
-                if (lgo.etype != lo.etype) num = GeomTypeToNum(lgo.etype);
-                lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
-                return;
-            } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
-                    }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
-                }
-            }
+        TetGeomSparsity ss;
+        TetGeomSparsity::Pos pos(GeomTypeDim(lo.etype), lo.nelem);
+        if (preferGeomOrdering) 
+            ss.set(pos.elem_dim, pos.elem_num);
+        else 
+            ss = sp;
+        s[dim]->IncrementByGeomSparsity(ss, ll, preferGeomOrdering);
+        if (ll != lend){
+            lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+            return;
         }
+        if (BeginFromComponent(dim + 1, ss, lo, preferGeomOrdering)) 
+            return;
+        if (preferGeomOrdering)
+            BeginFromPos(sp.nextPos(pos), sp, lo);
+        else 
+            EndByGeomSparsity(lo);
     }
 
 };
-- 
2.43.0


From dcb7f40279406932b47e172c47b04db0f4a38ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:43 +0000
Subject: [PATCH 006/109] fix: complement of a geometric selection stays within
 the existing entities

---
 anifem++/fem/tetdofmap.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 08b86ad..b173c28 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -23,9 +23,10 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
     return res;
 }
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
-    TetGeomSparsity res; 
+    TetGeomSparsity res, full; 
+    full.setCell(true);
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] = a.elems[d] ^ full.elems[d];
     return res;
 }
 
-- 
2.43.0


From d96a70a80fdc6b78be47c07a12b9bcbb32e8ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 007/109] fix: S4 action on DOF maps distinguishes repeated
 symmetry groups and uses the image face's local order

---
 anifem++/fem/tetdofmap.inl | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index b173c28..a2cff65 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -228,17 +228,27 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
         uchar a = face_vertex(lo.nelem, 0), b = face_vertex(lo.nelem, 1), c = face_vertex(lo.nelem, 2);
         r.nelem = find_face_elem(sigma[a], sigma[b], sigma[c]);
     }
-    if (r.stype != uchar(-1))
+    if (r.stype != uchar(-1)){
+        // index in the group with respect to ascending order of the image vertices
         r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+        if (dim == 2){
+            // local vertex order of a face is not ascending in general, return to the order of the image face
+            const auto id = identity_perm();
+            const uchar vol = DofSymmetries::symmetry_volume(lo.etype, lo.stype);
+            uchar l = 0;
+            while (l < vol && DofSymmetries::index_on_reorderd_elem(lo.etype, r.nelem, lo.stype, l, id.data()) != r.lsid) ++l;
+            r.lsid = l;
+        }
+        if (lo.leid != uint(-1)) r.leid = lo.leid - lo.lsid + r.lsid;
+    }
     r.gid = uint(-1);
-    r.leid = uint(-1);
     return r;
 }
 inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target){
     const int n = static_cast<int>(map.NumDofOnTet());
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
-        if (same_geom_sym(lo, target)) return j;
+        if (same_geom_sym(lo, target) && (target.leid == uint(-1) || lo.leid == target.leid)) return j;
     }
     return -1;
 }
@@ -328,6 +338,7 @@ inline StabilizerData stabilizer_data(const LocalOrder& repr){
     } else {
         sd.generators.push_back({1, 0, 2, 3});
         sd.generators.push_back({0, 2, 1, 3});
+        sd.generators.push_back({0, 1, 3, 2});
     }
     return sd;
 }
-- 
2.43.0


From 6108584455a48c513cdeabcf0396b50a065603d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:23 +0000
Subject: [PATCH 008/109] fix: default DIV operator declares one row per point,
 not three

---
 anifem++/fem/fem_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..446f452 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -263,7 +263,7 @@ namespace Ani{
         mem.busy_mtx_parts = st_busy + 1;
         Vx.nparts = 1;
         Vx.data[0] = lU;
-        Vx.stRow[1] = 3;
+        Vx.stRow[1] = 1;
         Vx.stCol[1] = nfa;
         return Vx;
     }
-- 
2.43.0


From 66ed57d87d9897dc0ea3d347049cb37a5fee2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 009/109] fix: default directional derivative overwrote the
 bounds of blocks it had yet to read

---
 anifem++/fem/fem_space.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 446f452..26f3a2c 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -339,13 +339,16 @@ namespace Ani{
             }
         };
         int upart = 0, ushift = 0;
+        int row_st = Vx.stRow[0], row_end = row_st, col_st = Vx.stCol[0], col_end = col_st; // the bounds of blocks are overwritten below
         for (std::size_t p = 0; p < Vx.nparts; ++p){
-            int dst = align_to_3(Vx.stRow[p], true), dend = align_to_3(Vx.stRow[p+1]-1, false);
+            row_st = row_end, col_st = col_end;
+            row_end = Vx.stRow[p+1], col_end = Vx.stCol[p+1];
+            int dst = align_to_3(row_st, true), dend = align_to_3(row_end-1, false);
             int nd = ( (dend >= dst) ? (dend - dst) / 3 + 1 : 0);
-            int nCol = Vx.stCol[p+1] - Vx.stCol[p], nRow = (Vx.stRow[p+1] - Vx.stRow[p]);
-            int rowShift = (dst - Vx.stRow[p]);
+            int nCol = col_end - col_st, nRow = row_end - row_st;
+            int rowShift = (dst - row_st);
             if (nd > 0){
-                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*(Vx.stCol[p+1] - Vx.stCol[p]));
+                DenseMatrix<> lU(U.data + ushift, mem.q * nd, mem.f*nCol);
                 for (std::size_t r = 0; r < mem.f; ++r)
                 for (int i = 0; i < nCol; ++i)
                 for (std::size_t n = 0; n < mem.q; ++n)
-- 
2.43.0


From 5d74c299e0ab3cd0820e5e663a6742ce1ec3e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 010/109] fix: polynomial order of a compile-time product space
 took dimensions for orders

---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From f037750ed1bab1d3a41fd6c674d62a8b962c9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:13 +0000
Subject: [PATCH 011/109] fix: equality of vector spaces ignored the power

---
 anifem++/fem/fem_space.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 26f3a2c..c5ae06b 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -408,6 +408,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
+        if (vec_dim() != o.vec_dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-- 
2.43.0


From 18c5c2539b2475bfff97c0cf8155d533899d16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 012/109] fix: div and curl of products of scalar spaces
 reported polynomial order 0

---
 anifem++/fem/fem_space.cpp | 4 ++--
 anifem++/fem/fem_space.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index c5ae06b..bb613d3 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -903,8 +903,8 @@ namespace Ani{
         for(uint i = 0; i < m_spaces.size(); ++i) {
             m_dim += m_spaces[i]->dim();
             m_poly_order = std::max(m_poly_order, m_spaces[i]->order());
-            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->orderDIV());
-            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->orderCURL());
+            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->dim() == 3 ? m_spaces[i]->orderDIV() : m_spaces[i]->orderGRAD());
+            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->dim() == 3 ? m_spaces[i]->orderCURL() : m_spaces[i]->orderGRAD());
             for (int k = 0; k < 3; ++k)
                 m_poly_order_DUDX[k] = std::max(m_poly_order_DUDX[k], m_spaces[i]->orderDUDX(k));
         }
diff --git a/anifem++/fem/fem_space.h b/anifem++/fem/fem_space.h
index cc92f77..fef84b7 100644
--- a/anifem++/fem/fem_space.h
+++ b/anifem++/fem/fem_space.h
@@ -294,10 +294,10 @@ namespace Ani{
         OpMemoryRequirements memGRAD(uint nquadpoints, uint fusion = 1) const override;
         BandDenseMatrixX<> applyDIV(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memDIV(uint nquadpoints, uint fusion = 1) const override;
-        uint orderDIV() const override{ return m_base->orderDIV(); }
+        uint orderDIV() const override{ return m_base->dim() == 3 ? m_base->orderDIV() : m_base->orderGRAD(); }
         BandDenseMatrixX<> applyCURL(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memCURL(uint nquadpoints, uint fusion = 1) const override;
-        uint orderCURL() const override{ return m_base->orderCURL(); }
+        uint orderCURL() const override{ return m_base->dim() == 3 ? m_base->orderCURL() : m_base->orderGRAD(); }
         BandDenseMatrixX<> applyDUDX(AniMemoryX<> &mem, ArrayView<> &U, uchar k) const override;
         OpMemoryRequirements memDUDX(uint nquadpoints, uint fusion, uchar k) const override;
         uint orderDUDX(uchar k) const override { return m_base->orderDUDX(k); }
-- 
2.43.0


From 7e5b1d6276b535cdd199fa54db12c1d54529f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 013/109] fix: symbolic basis of RT0 and ND0 read columns of
 the 4x3 gradient matrix as rows and overran the edge table

---
 anifem++/fem/spaces/nedelec_0.h        | 12 ++++++------
 anifem++/fem/spaces/raviant_thomas_0.h | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..c5df076 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
+                auto l0 = grad_lmb.row(IPR[4*i+0]).T();
+                auto l1 = grad_lmb.row(IPR[4*i+1]).T();
+                auto l2 = grad_lmb.row(IPR[4*i+2]).T();
+                auto l3 = grad_lmb.row(IPR[4*i+3]).T();
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                phi[i] = 6*e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..bb82967 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,12 +236,12 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
+            auto V = abs(det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)})));
             for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
+                phi[i] = norm(grad_lmb.row((i+3)%4))/V * (
+                        lmb((i+0)%4, 0)*cross( grad_lmb.row((i+1)%4).T(), grad_lmb.row((i+2)%4).T() ) + 
+                        lmb((i+1)%4, 0)*cross( grad_lmb.row((i+2)%4).T(), grad_lmb.row((i+0)%4).T() ) +
+                        lmb((i+2)%4, 0)*cross( grad_lmb.row((i+0)%4).T(), grad_lmb.row((i+1)%4).T() )
                         ); 
         }
     };
-- 
2.43.0


From 15bf3252cde3cbeea919c192c4ae7ec7922d153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 014/109] fix: symbolic basis of P3 numbered face functions
 differently from the numerical one

---
 anifem++/fem/spaces/poly_3.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..193a418 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -185,12 +185,8 @@ namespace Ani{
                     *phi = 4.5 * lmb(j, 0) * lmb(k, 0) * (3*lmb(id, 0) - 1);
                     ++phi;
                 }   
-            for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+            for (int f = 0; f < 4; ++f) // f-th face is formed by nodes f, f+1, f+2 (mod 4)
+                phi[f] = 27 * lmb(f, 0) * lmb((f+1)%4, 0) * lmb((f+2)%4, 0); 
         }
     };
 
-- 
2.43.0


From ddc9c22e3e50e66aaf2712d40ee1f16c20ff48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 015/109] fix: symbolic basis of vector and product spaces
 dropped the components

---
 anifem++/fem/fem_space.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index bb613d3..59e0710 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -411,12 +411,24 @@ namespace Ani{
         if (vec_dim() != o.vec_dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
+    /// Place the components of phi on positions [shift, shift + phi.nrows()) of otherwise zero column of size dim
+    static Expr embed_basis_function(const Expr& phi, uint shift, uint dim){
+        uint sz = phi.nrows();
+        std::vector<Expr> parts;
+        if (shift > 0) parts.push_back(phi.zeroes(shift, 1));
+        parts.push_back(phi);
+        if (shift + sz < dim) parts.push_back(phi.zeroes(dim - shift - sz, 1));
+        return FT::vertcat(parts.data(), parts.data() + parts.size());
+    }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
         uint lnfa = m_base->m_order.NumDofOnTet();
         uint ldim = m_order.target<DofT::VectorDofMap>()->m_dim;
         m_base->evalBasisFunctions(lmb, grad_lmb, phi);
-        for (uint d = 1; d < ldim; ++d)
-            std::copy(phi, phi + lnfa, phi + lnfa*d);
+        if (ldim <= 1) return;
+        uint bdim = m_base->dim();
+        for (uint i = 0; i < lnfa; ++i)
+            for (uint d = ldim; d-- > 0; )
+                phi[i + lnfa*d] = embed_basis_function(phi[i], d*bdim, ldim*bdim);
     }    
     PlainMemoryX<> VectorFemSpace::interpolateOnDOF_mem_req(int idof_on_tet, int fusion, uint max_quad_order) const{
         auto vdim = m_order.target<DofT::VectorDofMap>()->m_dim;
@@ -706,9 +718,13 @@ namespace Ani{
         return true; 
     }
     void ComplexFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-        for (uint i = 0, shift = 0; i < m_spaces.size(); ++i){
+        for (uint i = 0, shift = 0, dim_shift = 0; i < m_spaces.size(); ++i){
             m_spaces[i]->evalBasisFunctions(lmb, grad_lmb, phi + shift);
-            shift += m_spaces[i]->m_order.NumDofOnTet();
+            uint lnfa = m_spaces[i]->m_order.NumDofOnTet();
+            if (m_spaces.size() > 1)
+                for (uint k = 0; k < lnfa; ++k)
+                    phi[shift + k] = embed_basis_function(phi[shift + k], dim_shift, m_dim);
+            shift += lnfa, dim_shift += m_spaces[i]->dim();
         }
     } 
     PlainMemoryX<> ComplexFemSpace::interpolateOnDOF_mem_req(int idof_on_tet, int fusion, uint max_quad_order) const{
-- 
2.43.0


From 6e4afb9418a0e9a4b7667fd2871e5e71b8e32f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 016/109] fix: symbolic basis of RT0 and ND0 had wrong sign and
 scale

---
 anifem++/fem/spaces/nedelec_0.h        | 2 +-
 anifem++/fem/spaces/raviant_thomas_0.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index c5df076..bd1147e 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -237,7 +237,7 @@ namespace Ani{
                 auto l2 = grad_lmb.row(IPR[4*i+2]).T();
                 auto l3 = grad_lmb.row(IPR[4*i+3]).T();
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index bb82967..fbd8747 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,9 +236,9 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)})));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.row((i+3)%4))/V * (
+                phi[i] = (i%2 == 0 ? 1. : -1.) * norm(grad_lmb.row((i+3)%4))/V * (
                         lmb((i+0)%4, 0)*cross( grad_lmb.row((i+1)%4).T(), grad_lmb.row((i+2)%4).T() ) + 
                         lmb((i+1)%4, 0)*cross( grad_lmb.row((i+2)%4).T(), grad_lmb.row((i+0)%4).T() ) +
                         lmb((i+2)%4, 0)*cross( grad_lmb.row((i+0)%4).T(), grad_lmb.row((i+1)%4).T() )
-- 
2.43.0


From 78a61fbd8f91e12dbbf215657015cfb55855cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 017/109] fix: position of a dof of a compile-time product or
 sum space does not compile

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7429522..7ff095e 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -843,7 +843,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
@@ -873,7 +873,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
-- 
2.43.0


From 958d5336f32cf6e688e0f7cd788d2f1f16f34b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 018/109] fix: region interpolation at compile time did not
 compile; edge and face quadrature points were left uninitialised

---
 anifem++/fem/fem_space.cpp              | 16 ++++------------
 anifem++/fem/operations/interpolate.inl | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 59e0710..41e482c 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
@@ -158,6 +148,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -171,6 +162,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 3d14e76..9502623 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -36,8 +36,8 @@ namespace Ani{
         res.iSize += 0;
         auto pnt_mem0 = fem3DpntL_memory_requirements<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
         auto pnt_mem1 = fem3DpntL_memory_requirements<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
-        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<IndexType>(NFA*(NFA+1)/2)});
-        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<IndexType>(NFA)});
+        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<std::size_t>(NFA*(NFA+1)/2)});
+        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<std::size_t>(NFA)});
 
         return res;
     }
@@ -47,13 +47,13 @@ namespace Ani{
         DofT::TetGeomSparsity sp;
         if (elem_type == DofT::NODE){
             sp.setNode(ielem);
-            interpolateByDOFs(XYZ, func, udofs, sp, user_data, max_quad_order);
+            interpolateByDOFs<FEMTYPE>(XYZ, func, udofs, sp, user_data, max_quad_order);
             return;
         }
 
         constexpr auto NFA = Operator<IDEN, FEMTYPE>::Nfa::value;
         auto d_alloc = [&plainMemory](auto sz)->ScalarType*{ 
-            if (plainMemory.dSize > sz){
+            if (plainMemory.dSize >= static_cast<decltype(plainMemory.dSize)>(sz)){
                 plainMemory.dSize -= sz;
                 auto res = plainMemory.ddata;
                 plainMemory.ddata += sz;
@@ -63,7 +63,7 @@ namespace Ani{
             return nullptr;    
         };
         auto i_alloc = [&plainMemory](auto sz)->IndexType*{ 
-            if (plainMemory.iSize > sz){
+            if (plainMemory.iSize >= static_cast<decltype(plainMemory.iSize)>(sz)){
                 plainMemory.iSize -= sz;
                 auto res = plainMemory.idata;
                 plainMemory.idata += sz;
@@ -74,7 +74,7 @@ namespace Ani{
         };
         ScalarType* am = d_alloc(NFA*NFA);
         ScalarType* fm = d_alloc(NFA);
-        ScalarType* xyl = nullptr, wg = nullptr;
+        ScalarType *xyl = nullptr, *wg = nullptr;
         IndexType nquads = 0;
         switch(DofT::DimToGeomType(DofT::GeomTypeDim(elem_type))) {
             case DofT::EDGE:{
@@ -83,6 +83,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -96,6 +97,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
@@ -122,8 +124,8 @@ namespace Ani{
 
         DenseMatrix<ScalarType> A(am, NFA, NFA), F(fm, NFA, 1);
         ArrayView<ScalarType> XYL(xyl, nquads*4), WG(wg, nquads);
-        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
-        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG,
+        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>, ScalarType, IndexType>(XYZ, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
+        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, DfuncTraits<>, ScalarType, IndexType>(XYZ, XYL, WG,
             [&func](const std::array<ScalarType, 3>& x, ScalarType* Dmem, TensorDims Ddims, void* user_data, int iTet)->TensorType{
                 (void) iTet;
                 func(x, Dmem, Ddims.first, user_data);
-- 
2.43.0


From 55abeef43418030bc9ef9964fdc8a3ec1ec599c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 019/109] fix: region interpolation used an operator of a
 destroyed temporary space

---
 anifem++/fem/fem_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 41e482c..e3b715e 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -104,7 +104,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -124,7 +125,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
-- 
2.43.0


From 32487ad1adc3b278dfe8ff03f76e96ce88a06301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 020/109] fix: positions of P0, P3 face and CR1 dofs

---
 anifem++/fem/operators.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7ff095e..0f2a966 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -732,10 +732,8 @@ namespace Ani{
         static inline void at(int odf, const ScalarType *nodes, ScalarType *coord){
             assert(odf == 0 && "FEM_P0 have only 1 odf");
             (void) odf;
-            for (int i = 0; i < 4; ++i)
-                for (int k = 0; k < 3; ++k)
-                    coord[k] += nodes[3 * i + k];
-            for (int k = 0; k < 3; ++k) coord[k] /= 4;
+            for (int k = 0; k < 3; ++k)
+                coord[k] = (nodes[k] + nodes[3 + k] + nodes[6 + k] + nodes[9 + k]) / 4;
         }
     };
 
@@ -773,8 +771,7 @@ namespace Ani{
             if (odf < 4)
                 std::copy(nodes + 3 * odf, nodes + 3 * odf + 3, coord);
             else if (odf >= 16) {
-                odf -= 15;
-                int i1 = (odf == 4), i2 = 1 + (odf > 2), i3 = 3 - (odf == 1);
+                int i1 = (odf - 16) % 4, i2 = (odf - 15) % 4, i3 = (odf - 14) % 4;
                 for (int i = 0; i < 3; ++i)
                     coord[i] = (nodes[3 * i1 + i] + nodes[3 * i2 + i] + nodes[3 * i3 + i]) / 3;
             } else {
@@ -797,7 +794,7 @@ namespace Ani{
         template<typename ScalarType = double>
         static inline void at(int odf, const ScalarType  *nodes, ScalarType  *coord){
             for (int i = 0; i < 3; ++i)
-                coord[i] = (nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)] + nodes[i + 3*((odf + 3) % 4)]) / 3;
+                coord[i] = (nodes[i + 3*(odf % 4)] + nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)]) / 3;
         }
     };
 
-- 
2.43.0


From 9e90ee89555fe1a39a86a197ac43539c0b6a7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 021/109] fix: compile-time sums with RT0 or ND0 read the
 determinant through a null pointer

---
 anifem++/fem/operators.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 0647c90..cbb6d15 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -351,7 +351,8 @@ namespace Ani{
                 mem.XYP.Init(XYZa, 3 * 4);
                 mem.PSI.Init(XYZa + 3, 3 * 3);
                 mem.XYG.Init(nullptr, 3);
-                mem.DET.Init(nullptr, 0);
+                double one = 1;
+                mem.DET.Init(&one, 1);
                 mem.XYL.Init(xyl.data(), 4);
                 mem.WG.Init(nullptr, 0);
                 mem.U.Init(dmem.data(), reqUsz);
-- 
2.43.0


From 0be9e5cebcd09ea87be2e98d80fc4f1f09a5d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 022/109] fix: divergence of a product space did not reserve
 its result block

---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index e3b715e..8451597 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -779,8 +779,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -836,8 +837,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From ee7231e1e629d0d8f1be90100dce7840db9f1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 023/109] fix: LU_solve undid the column reordering with the
 inverse permutation

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..4e38b6f 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -353,7 +353,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From 77e71d68aa7ad1f8b74e3a9aeff1cc5e534aa71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 024/109] fix: fullPivLU used row -1 as a pivot of a singular
 matrix

---
 anifem++/fem/geometry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4e38b6f..1d63ecc 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,9 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            //the remaining submatrix is zero, no pivots left
+            if (pi < 0)
+                break;
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
-- 
2.43.0


From 96e8ef02bffb801919fa8d3d26ef0d3a52c186d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 025/109] fix: fullPivLU kept small multipliers without
 dividing them by the pivot

---
 anifem++/fem/geometry.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 1d63ecc..303ebca 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -297,20 +297,15 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            //decompose
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
-- 
2.43.0


From 4a5e91c38bc89c501f75112e58a9dc88afbceb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 026/109] fix: fullPivLU_inverse destroyed the matrix when the
 result is placed over it

---
 anifem++/fem/geometry.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 303ebca..b05747e 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -396,10 +396,16 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
+        //A may coincide with Inv, so it should be saved before Inv is overwritten
+        Scalar *Am = mem, *Bm = mem + N*N;
+        int *p = imem, *q = imem + N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
         for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+            Bm[i+i*N] = 1;
+        for (int i = 0; i < N; ++i) p[i] = q[i] = i;
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 16cd646772d74dfb5f971c49cab1ab0f3998c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:13 +0000
Subject: [PATCH 027/109] fix: a union of dependent spaces was accepted when
 the inverse is not a number

---
 anifem++/fem/fem_space.cpp | 3 ++-
 anifem++/fem/operators.inl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8451597..df383f6 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -1160,7 +1160,8 @@ namespace Ani{
                 for (uint j = 0; j < nf; ++j)
                     s += A(i, j) * B(j, k);
                 double target = (i == k) ? 1.0 : 0.0;
-                max_err = std::max(max_err, std::abs(s - target));
+                // s may be not a number if B is singular
+                max_err = std::max(max_err, std::isfinite(s) ? std::abs(s - target) : std::numeric_limits<double>::infinity());
                 max_g = std::max(max_g, std::abs(B(i, k)));
             }
             const double tol = 1e-8;
diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index cbb6d15..a30db47 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -381,7 +381,8 @@ namespace Ani{
                         for (int j = 0; j < NF; ++j)
                             s += A(i, j) * B(j, k);
                         double target = (i == k) ? 1.0 : 0.0;
-                        max_err = std::max(max_err, std::abs(s - target));
+                        // s may be not a number if B is singular
+                        max_err = std::max(max_err, std::isfinite(s) ? std::abs(s - target) : std::numeric_limits<double>::infinity());
                         max_g = std::max(max_g, std::abs(B(i, k)));
                     }
                     const double tol = 1e-8;
-- 
2.43.0


From 120af19d7a6273ca28dc5e3681a44792274b9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:13 +0000
Subject: [PATCH 028/109] fix: householderQR left columns with small norm not
 triangular

---
 anifem++/fem/geometry.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index b05747e..aac5de8 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -435,11 +435,14 @@ namespace Ani{
         std::copy(A, A + N*M, mem);
 
         for (int k = 0; k < M; ++k){
-            Scalar norm = 0;
+            Scalar scale = 0, norm = 0;
             for (int i = k; i < N; ++i)
-                norm += W(i, k) * W(i, k);
-            norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+                scale = std::max(scale, std::fabs(W(i, k)));
+            if (scale > 0)
+                for (int i = k; i < N; ++i)
+                    norm += (W(i, k) / scale) * (W(i, k) / scale);
+            norm = scale * std::sqrt(norm);
+            if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From 2286997db6e26a884f340001856c7681ae4e92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:20 +0000
Subject: [PATCH 029/109] fix: built-in jacobiSVD lost small singular values
 and orthogonality of singular vectors

---
 anifem++/fem/geometry.h | 203 +++++++++++++++++++---------------------
 1 file changed, 97 insertions(+), 106 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index aac5de8..4ed7890 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -13,6 +13,7 @@
 #include <stdexcept>
 #include <cmath>
 #include <limits>
+#include <vector>
 
 #include "fem_memory.h"
 
@@ -562,41 +563,24 @@ namespace Ani{
             return 0;
         }
 
-        template<typename Scalar>
-        inline void sort_eigen_desc(Scalar* eval, Scalar* evecs, int n){
-            for (int i = 0; i < n; ++i){
-                int best = i;
-                for (int j = i + 1; j < n; ++j)
-                    if (eval[j] > eval[best])
-                        best = j;
-                if (best == i)
-                    continue;
-                std::swap(eval[i], eval[best]);
-                for (int k = 0; k < n; ++k)
-                    std::swap(evecs[k + i*n], evecs[k + best*n]);
-            }
-        }
-
         template<typename Scalar>
         inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
             for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
-                for (int c = 0; c < j; ++c){
-                    Scalar dot = 0;
-                    for (int i = 0; i < n; ++i)
-                        dot += q[i + c*n] * q[i + j*n];
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] -= dot * q[i + c*n];
+                // coordinate vector with the greatest residual after projection to the ready columns
+                int best = 0;
+                Scalar best_res = -1;
+                for (int i = 0; i < n; ++i){
+                    Scalar res = 1;
+                    for (int c = 0; c < j; ++c)
+                        res -= q[i + c*n] * q[i + c*n];
+                    if (res > best_res){
+                        best_res = res;
+                        best = i;
+                    }
                 }
-                Scalar norm = 0;
                 for (int i = 0; i < n; ++i)
-                    norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
+                    q[i + j*n] = (i == best) ? 1 : 0;
+                for (int rep = 0; rep < 2; ++rep){
                     for (int c = 0; c < j; ++c){
                         Scalar dot = 0;
                         for (int i = 0; i < n; ++i)
@@ -604,39 +588,58 @@ namespace Ani{
                         for (int i = 0; i < n; ++i)
                             q[i + j*n] -= dot * q[i + c*n];
                     }
-                    norm = 0;
+                    Scalar norm = 0;
                     for (int i = 0; i < n; ++i)
                         norm += q[i + j*n] * q[i + j*n];
                     norm = std::sqrt(norm);
-                }
-                if (norm > eps)
                     for (int i = 0; i < n; ++i)
                         q[i + j*n] /= norm;
-            }
-        }
-
-        template<typename Scalar>
-        inline void gram_ata(const Scalar* a, int n, int m, Scalar* g){
-            for (int j = 0; j < m; ++j){
-                for (int k = j; k < m; ++k){
-                    Scalar s = 0;
-                    for (int i = 0; i < n; ++i)
-                        s += a[i + j*n] * a[i + k*n];
-                    g[j + k*m] = g[k + j*m] = s;
                 }
             }
         }
 
+        /// One-sided Jacobi method: makes columns of the n x m matrix w, n >= m, orthogonal by rotations w = w * r, r is m x m orthogonal matrix
         template<typename Scalar>
-        inline void gram_aat(const Scalar* a, int n, int m, Scalar* g){
-            for (int j = 0; j < n; ++j){
-                for (int k = j; k < n; ++k){
-                    Scalar s = 0;
-                    for (int i = 0; i < m; ++i)
-                        s += a[j + i*n] * a[k + i*n];
-                    g[j + k*n] = g[k + j*n] = s;
-                }
+        inline int jacobi_orthogonalize_cols(Scalar* w, int n, int m, Scalar* r){
+            for (int j = 0; j < m; ++j)
+                for (int i = 0; i < m; ++i)
+                    r[i + j*m] = (i == j) ? 1 : 0;
+            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+            Scalar nrm2 = 0;
+            for (int i = 0; i < n*m; ++i)
+                nrm2 += w[i] * w[i];
+            const Scalar negligible = eps * eps * nrm2;
+            for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
+                bool rotated = false;
+                for (int p = 0; p < m; ++p)
+                    for (int q = p + 1; q < m; ++q){
+                        Scalar app = 0, aqq = 0, apq = 0;
+                        for (int i = 0; i < n; ++i){
+                            app += w[i + p*n] * w[i + p*n];
+                            aqq += w[i + q*n] * w[i + q*n];
+                            apq += w[i + p*n] * w[i + q*n];
+                        }
+                        if (app <= negligible || aqq <= negligible || std::fabs(apq) <= n * eps * std::sqrt(app) * std::sqrt(aqq))
+                            continue;
+                        rotated = true;
+                        Scalar zeta = (aqq - app) / (2 * apq);
+                        Scalar t = ((zeta >= 0) ? 1 : -1) / (std::fabs(zeta) + std::sqrt(1 + zeta * zeta));
+                        Scalar c = 1 / std::sqrt(1 + t * t), s = c * t;
+                        for (int i = 0; i < n; ++i){
+                            Scalar wp = w[i + p*n], wq = w[i + q*n];
+                            w[i + p*n] = c * wp - s * wq;
+                            w[i + q*n] = s * wp + c * wq;
+                        }
+                        for (int i = 0; i < m; ++i){
+                            Scalar rp = r[i + p*m], rq = r[i + q*m];
+                            r[i + p*m] = c * rp - s * rq;
+                            r[i + q*m] = s * rp + c * rq;
+                        }
+                    }
+                if (!rotated)
+                    return 0;
             }
+            return 1;
         }
     }
 #endif
@@ -676,60 +679,48 @@ namespace Ani{
         return 0;
 #else
         const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-        Scalar* gram = mem;
-        Scalar* evecs_buf = mem + K*K;
-        Scalar* eval = mem + 2*K*K;
-
-        if (N >= M){
-            detail::gram_ata(A, N, M, gram);
-            Scalar* evecs = (V != nullptr) ? V : evecs_buf;
-            if (detail::jacobi_symmetric_eigen(gram, M, eval, evecs))
-                return 1;
-            detail::sort_eigen_desc(eval, evecs, M);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (U != nullptr){
-                for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < N; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < M; ++t)
-                                sum += A[i + t*N] * evecs[t + j*M];
-                            U[i + j*N] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < N; ++i)
-                            U[i + j*N] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(U, N, M);
-            }
-        } else {
-            detail::gram_aat(A, N, M, gram);
-            Scalar* evecs = (U != nullptr) ? U : evecs_buf;
-            if (detail::jacobi_symmetric_eigen(gram, N, eval, evecs))
-                return 1;
-            detail::sort_eigen_desc(eval, evecs, N);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (V != nullptr){
-                for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < M; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < N; ++t)
-                                sum += A[t + i*N] * evecs[t + j*N];
-                            V[i + j*M] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < M; ++i)
-                            V[i + j*M] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(V, M, N);
-            }
+        // orthogonalize columns of W = A if N >= M and W = A^T otherwise
+        const int L = std::max(N, M);
+        Scalar* left = (N >= M) ? U : V;
+        Scalar* right = (N >= M) ? V : U;
+        Scalar* rot = mem;
+        Scalar* norms = mem + 2*K*K;
+        Scalar scale = 0;
+        for (int i = 0; i < N*M; ++i)
+            scale = std::max(scale, std::fabs(A[i]));
+        if (scale == 0)
+            scale = 1;
+        std::vector<Scalar> w(L*K);
+        for (int j = 0; j < M; ++j)
+            for (int i = 0; i < N; ++i)
+                w[(N >= M) ? i + j*L : j + i*L] = A[i + j*N] / scale;
+
+        if (detail::jacobi_orthogonalize_cols(w.data(), L, K, rot))
+            return 1;
+        for (int j = 0; j < K; ++j){
+            norms[j] = 0;
+            for (int i = 0; i < L; ++i)
+                norms[j] += w[i + j*L] * w[i + j*L];
+            norms[j] = std::sqrt(norms[j]);
+        }
+        for (int j = 0; j < K; ++j){
+            int best = std::max_element(norms + j, norms + K) - norms;
+            if (best == j)
+                continue;
+            std::swap(norms[j], norms[best]);
+            std::swap_ranges(w.begin() + j*L, w.begin() + (j + 1)*L, w.begin() + best*L);
+            std::swap_ranges(rot + j*K, rot + (j + 1)*K, rot + best*K);
+        }
+        for (int j = 0; j < K; ++j)
+            S[j] = scale * norms[j];
+        if (right != nullptr)
+            std::copy(rot, rot + K*K, right);
+        if (left != nullptr){
+            int rank = 0;
+            for (; rank < K && norms[rank] > 4 * L * eps * norms[0]; ++rank)
+                for (int i = 0; i < L; ++i)
+                    left[i + rank*L] = w[i + rank*L] / norms[rank];
+            detail::complete_orthonormal_cols(left, L, rank);
         }
         return 0;
 #endif
-- 
2.43.0


From fb9a3843ba873ca2af0c7767d7eed38b92123980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:56 +0000
Subject: [PATCH 030/109] fix: general tensor of PerSelection kind was
 evaluated with number of the first tetrahedron for all tetrahedra

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From 5d7d3ae62ef979e02fcc0e28f09503025ecb6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:23 +0000
Subject: [PATCH 031/109] fix: fusive_A_mul_B clears the result of every
 tetrahedron of the batch

---
 anifem++/fem/operations/core.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..b3adc25 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
-- 
2.43.0


From 630a8bec20ab14abdc092ad1c4ef6ae38deb7d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:38 +0000
Subject: [PATCH 032/109] fix: evaluation of a field of a composite space on a
 batch of tetrahedra

---
 anifem++/fem/operations/core.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index b3adc25..1b3475b 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -385,18 +385,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
+                    auto VmCol = Vm.stCol[db+1] - Vm.stCol[db];
                     double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
                     double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
+                    double* from = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + dim*(n + mem.q*r) + Vm.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
@@ -494,18 +495,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + dimA*(n + mem.q*r) + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }     
@@ -540,18 +542,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = mem.V.data + dimA*(n + mem.q*r) + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
-- 
2.43.0


From cc30d1d9a0f64729f65b6cc8db315aff14ad071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:38 +0000
Subject: [PATCH 033/109] fix: work memory for the evaluation of a field of a
 composite space at several points

---
 anifem++/fem/operations/core.inl | 4 ++++
 anifem++/fem/operations/eval.inl | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 1b3475b..f0fab4b 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -718,6 +718,8 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         auto r = applyOpU.getMemoryRequirements(pnt_per_tetra, fusion);
         csz = r.Usz; res.U.Init(pr, csz); pr += csz;
         csz = applyOpU.Dim()*q*f; res.V.Init(pr, csz); pr += csz;
+        if (r.mtx_parts > 1 && q > 1)
+            r.extraRsz = std::max(r.extraRsz, static_cast<std::size_t>(applyOpU.Dim()*q*f));
         csz = r.extraRsz; res.extraR.Init(pr, csz); pr += csz;
         csz = r.extraIsz; res.extraI.Init(pi, csz); pi += csz;
         res.q = q; res.f = f;
@@ -776,6 +778,8 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         auto r = applyOpU.getMemoryRequirements(pnt_per_tetra, fusion);
         csz = r.Usz; res.U.Init(pr, csz); pr += csz;
         res.V.Init(nullptr, 0);
+        if (r.mtx_parts > 1 && q > 1)
+            r.extraRsz = std::max(r.extraRsz, static_cast<std::size_t>(applyOpU.Dim()*q*f));
         csz = r.extraRsz; res.extraR.Init(pr, csz); pr += csz;
         csz = r.extraIsz; res.extraI.Init(pi, csz); pi += csz;
         res.q = q; res.f = f;
diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..68c0bc0 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -6,6 +6,7 @@ namespace Ani{
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
         extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        if (q > 1) extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value*q*f));
         IndexType DU = 0, DIFF = 0;
         IndexType XYG = 3*q*f, XYP = 3*4*f, PSI = 3*3*f, DET = f, MES = f, NRM = 0, XYL = 0, WG = 0;
         pm.dSize = Usz + DU + DIFF + XYG + XYP + PSI + DET + MES + NRM + extraR + XYL + WG;
@@ -55,10 +56,10 @@ namespace Ani{
 
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
-        (void) dim;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
         extraR = std::max(extraR, static_cast<std::size_t>(1*nfa*f));
+        if (q > 1) extraR = std::max(extraR, static_cast<std::size_t>(dim*q*f));
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
         ScalarType* p = plainMemory.ddata;
-- 
2.43.0


From f5be042bd3fab9660665448a8e906f995f09668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:11 +0000
Subject: [PATCH 034/109] fix: static versions of fem3D* checked the size of
 the output for one tetrahedron only

---
 anifem++/fem/operations/int_edge.inl | 1 +
 anifem++/fem/operations/int_face.inl | 2 ++
 anifem++/fem/operations/int_pnt.inl  | 3 +++
 anifem++/fem/operations/int_tet.inl  | 1 +
 4 files changed, 7 insertions(+)

diff --git a/anifem++/fem/operations/int_edge.inl b/anifem++/fem/operations/int_edge.inl
index 463e571..af5855c 100644
--- a/anifem++/fem/operations/int_edge.inl
+++ b/anifem++/fem/operations/int_edge.inl
@@ -5,6 +5,7 @@ namespace Ani{
               int edge_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index a3ebf4c..98fafb3 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -15,6 +15,7 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
@@ -53,6 +54,7 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index b7f8773..720b1ff 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -10,6 +10,7 @@ namespace Ani{
               int node_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
@@ -60,6 +61,7 @@ namespace Ani{
               ArrayView<ScalarType> XYL, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
@@ -111,6 +113,7 @@ namespace Ani{
               const ArrayView<const ScalarType> X, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, 1, 24> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = 1;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
diff --git a/anifem++/fem/operations/int_tet.inl b/anifem++/fem/operations/int_tet.inl
index 334fc00..62f9151 100644
--- a/anifem++/fem/operations/int_tet.inl
+++ b/anifem++/fem/operations/int_tet.inl
@@ -94,6 +94,7 @@ namespace Ani{
                   const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        mem.f = XYZ.fusion;
         if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
             throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
                                      ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
-- 
2.43.0


From 8370ad758561d601c89d9e7dbe080e293ff53200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 035/109] fix: static versions of fem3D* overflowed their work
 arrays for large spaces

---
 anifem++/fem/operations/core.inl     | 23 +++++++++++++++++++++++
 anifem++/fem/operations/eval.inl     | 12 ++++++++++++
 anifem++/fem/operations/int_edge.inl |  1 +
 anifem++/fem/operations/int_face.inl |  2 ++
 anifem++/fem/operations/int_pnt.inl  |  3 +++
 anifem++/fem/operations/int_tet.inl  |  2 ++
 6 files changed, 43 insertions(+)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index f0fab4b..4c8a12a 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -183,6 +183,29 @@ namespace Ani{
         return mem;
     }
 
+    ///Check that the fixed-size work arrays of a stack memory version are enough for the operators on q points of f tetrahedra
+    template<typename OpA, typename OpB, bool DotWithNormal, typename ScalarType, typename IndexType>
+    void checkStaticMemory(const AniMemory<ScalarType, IndexType>& mem, std::size_t q, std::size_t f){
+        std::size_t Usz = 0, Vsz = 0, extraR = 0, extraI = 0;
+        OpA::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
+        if (!std::is_same<OpA, OpB>::value){
+            std::size_t extraRV = 0, extraIV = 0;
+            OpB::template memoryRequirements<ScalarType, IndexType>(f, q, Vsz, extraRV, extraIV);
+            extraR = std::max(extraR, extraRV); extraI = std::max(extraI, extraIV);
+        }
+        const std::size_t dimA = OpA::Dim::value, nfA = OpA::Nfa::value, dimB = OpB::Dim::value, nfB = OpB::Nfa::value;
+        const std::size_t nD = DotWithNormalHelper<DotWithNormal>::nD::value;
+        std::size_t DIFF = dimB * nD * dimA * q * f;
+        using VType = decltype(convToBendMx(OpB::apply(std::declval<AniMemory<ScalarType, IndexType>&>(), std::declval<AniMemory<ScalarType, IndexType>&>().V), IndexType(), IndexType()));
+        if (VType::Nparts::value > 1){
+            extraR = std::max(extraR, nfA * nfB * f);
+            DIFF = std::max(DIFF, dimB * nfA * q * f);
+        }
+        if (Usz > mem.U.size || Vsz > mem.V.size || extraR > mem.extraR.size || extraI > mem.extraI.size ||
+            dimB * nD * q * nfA * f > mem.DU.size || DIFF > mem.DIFF.size)
+            throw std::runtime_error("Too big spaces or too many points are not supported for stack memory version of the function");
+    }
+
     template<typename OpA, typename OpB, typename ScalarType, typename IndexType, bool CopyQuadVals, bool DotWithNormal>
     PlainMemory <ScalarType, IndexType> fem3D_memory_requirements_base(int pnt_per_tetra, int fusion){
         auto f = fusion;
diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index 68c0bc0..184d6f4 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -54,6 +54,16 @@ namespace Ani{
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
+    ///Check that the fixed-size work arrays of a stack memory version are enough to apply the operator on q points of f tetrahedra
+    template<typename Op, typename ScalarType, typename IndexType>
+    inline void __internal_check_fem3Dapply_static_memory(const AniMemory<ScalarType, IndexType>& mem, std::size_t q, std::size_t f){
+        std::size_t Usz = 0, extraR = 0, extraI = 0;
+        Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
+        if (q > 1) extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value*q*f));
+        if (Usz > mem.U.size || extraR > mem.extraR.size || extraI > mem.extraI.size)
+            throw std::runtime_error("Too big spaces or too many points are not supported for stack memory version of the function");
+    }
+
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
         std::size_t Usz = 0, extraR = 0, extraI = 0;
@@ -95,6 +105,7 @@ namespace Ani{
         MemoryLegacy<ScalarType, FUSION, MAXPNTNUM> ml;
         auto mem = ml.template getAniMemory<IndexType>();
         
+        __internal_check_fem3Dapply_static_memory<Op>(mem, q, f);
         mem.XYL = XYL; mem.f = f; mem.q = q;
         internalFem3DtetGeomInit(XYZ, mem);
         internalFem3DApply<Op, ScalarType, IndexType>(dofs, opU, mem);
@@ -117,6 +128,7 @@ namespace Ani{
         opU.nRow = dim * q, opU.nCol = f;
         MemoryLegacy<ScalarType, 1, MAXPNTNUM> ml;
         auto mem = ml.template getAniMemory<IndexType>();
+        __internal_check_fem3Dapply_static_memory<Op>(mem, q, f);
         mem.f = f; mem.q = q;
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
         getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, XYL, mem.PSI);
diff --git a/anifem++/fem/operations/int_edge.inl b/anifem++/fem/operations/int_edge.inl
index af5855c..4333fdb 100644
--- a/anifem++/fem/operations/int_edge.inl
+++ b/anifem++/fem/operations/int_edge.inl
@@ -30,6 +30,7 @@ namespace Ani{
         std::copy(formula.w, formula.w + q, mem.WG.data);
         mem.f = f;
         mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         internalFem3DtetGeomInit(XYZ, mem);
         auto sq = [](auto x) { return x*x; };
         for (int r = 0; r < f; ++r) {
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index 98fafb3..fdf628f 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -40,6 +40,7 @@ namespace Ani{
         std::copy(formula.w, formula.w + q, mem.WG.data);
         mem.f = f;
         mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         internalFem3DtetGeomInit(XYZ, mem);
         for (int r = 0; r < f; ++r) {
             auto x = mem.XYP.data + 12 * r;
@@ -79,6 +80,7 @@ namespace Ani{
         std::copy(formula.w, formula.w + q, mem.WG.data);
         mem.f = f;
         mem.q = q;
+        checkStaticMemory<OpA, OpB, true>(mem, q, f);
         internalFem3DtetGeomInit(XYZ, mem);
         for (int r = 0; r < f; ++r) {
             auto x = mem.XYP.data + 12 * r;
diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index 720b1ff..543f4f5 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -24,6 +24,7 @@ namespace Ani{
         std::fill(mem.XYL.data, mem.XYL.data + 4, 0);
         mem.XYL.data[node_num] = 1., mem.WG.data[0] = 1.;
         mem.f = f, mem.q = 1;
+        checkStaticMemory<OpA, OpB, false>(mem, 1, f);
         internalFem3DtetGeomInit(XYZ, mem);
         std::fill(mem.MES.data, mem.MES.data+f, 1);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
@@ -76,6 +77,7 @@ namespace Ani{
         mem.XYL.Init(XYL.data, 4*q);
         mem.WG.Init(WG.data, q);
         mem.f = f, mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         internalFem3DtetGeomInit(XYZ, mem);
         std::fill(mem.MES.data, mem.MES.data+f, 1);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
@@ -125,6 +127,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, ScalarType, IndexType, OpA::Dim::value * OpB::Dim::value> func(Dfnc);
         mem.WG.Init(WG.data, q);
         mem.f = f, mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         ScalarType XYLp[4*24];
         ArrayView<ScalarType> XYL(XYLp, 4*q);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
diff --git a/anifem++/fem/operations/int_tet.inl b/anifem++/fem/operations/int_tet.inl
index 62f9151..6be730b 100644
--- a/anifem++/fem/operations/int_tet.inl
+++ b/anifem++/fem/operations/int_tet.inl
@@ -81,6 +81,7 @@ namespace Ani{
         mem.XYL.Init(const_cast<double*>(formula.p), 4*q);
         mem.f = f;
         mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         internalFem3DtetGeomInit(XY0, XY1, XY2, XY3, mem);
         internalFem3Dtet<OpA, OpB, false>(func, Am, mem, user_data);
         Eigen::Map<Eigen::MatrixXd, sizeof(double)> Amap(Amem, Am.nRow, Am.nCol);
@@ -118,6 +119,7 @@ namespace Ani{
         }
         mem.f = f;
         mem.q = q;
+        checkStaticMemory<OpA, OpB, false>(mem, q, f);
         internalFem3DtetGeomInit(XYZ, mem);
         internalFem3Dtet<OpA, OpB>(func, A, mem, user_data);
     }
-- 
2.43.0


From 734e9b80c08f1dd7216bf63fd68f55275a6f3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 036/109] fix: static fem3Dapply* accepted four times more
 points than their work arrays hold

---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index 184d6f4..a819483 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -50,7 +50,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From 1674d25597e56d9ed2d932ba0345290a35bebbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 037/109] fix: compile-time fem3Dapply* did not check the size
 of the passed plain memory

---
 anifem++/fem/operations/eval.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index a819483..a358fde 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -72,6 +72,9 @@ namespace Ani{
         if (q > 1) extraR = std::max(extraR, static_cast<std::size_t>(dim*q*f));
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
+        if (plainMemory.ddata == nullptr || plainMemory.dSize < Usz + extraR + XYG_sz + XYP_sz + PSI_sz + DET_sz + MES_sz ||
+            (extraI > 0 && (plainMemory.idata == nullptr || plainMemory.iSize < extraI)))
+            throw std::runtime_error("Not enough of plain memory");
         ScalarType* p = plainMemory.ddata;
         mem.XYG.Init(p, XYG_sz); p += XYG_sz;
         mem.XYP.Init(p, XYP_sz); p += XYP_sz;
@@ -145,6 +148,8 @@ namespace Ani{
                   ArrayView<ScalarType> _opU,
                   PlainMemory<ScalarType, IndexType> plainMemory){
         DenseMatrix<ScalarType> dofs(_dofs.data, _dofs.size, 1), opU(_opU.data, _opU.size, 1);
+        if (plainMemory.ddata == nullptr || plainMemory.dSize < 4 * (X.size/3))
+            throw std::runtime_error("Not enough of plain memory");
         ScalarType* XYLp = plainMemory.ddata;
         plainMemory.ddata += 4 * (X.size/3), plainMemory.dSize -= 4 * (X.size/3);
         ArrayView<ScalarType> XYL(XYLp, 4*X.size/3);
-- 
2.43.0


From e843717ca2bca0b3248e5353c2ee740fb72f0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 038/109] fix: fem3DpntX/fem3DpntL with fewer weights than
 points read and wrote out of bounds

---
 anifem++/fem/operations/int_pnt.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index 543f4f5..a68950c 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -92,7 +92,7 @@ namespace Ani{
         assert(f > 0 && "Coordinate arrays shouldn't be free");
         assert(A.size >= static_cast<std::size_t>(OpB::Nfa::value * OpA::Nfa::value * f) && "Not enough memory to save A matrix");
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
-        int q = XYL.size/4;
+        int q = std::min(XYL.size/4, WG.size);
 #ifndef	NDEBUG
         auto t = fem3DpntL_memory_requirements<OpA, OpB, ScalarType, IndexType>(q, f);
         assert(plainMemory.ddata && plainMemory.dSize >= t.dSize && "Not enough of plain memory");
@@ -131,7 +131,7 @@ namespace Ani{
         ScalarType XYLp[4*24];
         ArrayView<ScalarType> XYL(XYLp, 4*q);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, XYL, mem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const ScalarType>(X.data, 3*q), XYL, mem.PSI);
         mem.XYL = XYL;
         internalFem3DtetGeomInit_XYG(XYZ.XY0, mem);
 
@@ -156,7 +156,7 @@ namespace Ani{
             fem3Dtet_init_animem_from_plain_memory<OpA, OpB, ScalarType, IndexType, true, false>(q, f, plainMemory);
         
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, mem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, mem.XYL, mem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const ScalarType>(X.data, 3*q), mem.XYL, mem.PSI);
         mem.WG.Init(WG.data, q);
         internalFem3DtetGeomInit_XYG(XYZ.XY0, mem);
 
@@ -224,7 +224,7 @@ namespace Ani{
         DFunc<decltype(Dfnc), FuncTraits, double, int, -1> func(Dfnc);
         auto amem = fem3D_init_animem_from_plain_memory(applyOpU, applyOpV, func, q, f, mem, dotWithNormal, copyQuadVals);
         internalFem3DtetGeomInit_Tet(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, amem);
-        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, X, amem.XYL, amem.PSI);
+        getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const double>(X.data, 3*q), amem.XYL, amem.PSI);
         amem.WG.Init(WG.data, q);
         internalFem3DtetGeomInit_XYG(XYZ.XY0, amem);
         std::fill(amem.MES.data, amem.MES.data+f, 1);
-- 
2.43.0


From e92fc330f345819827ad89ecd800391cc0a42095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 039/109] fix: DynMem gave out memory of a live part after
 parts were released out of order

---
 anifem++/fem/fem_memory.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..048b26f 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t nids = 0;   //number of part ids in use, the part with id = nids-1 lies on the top of busy memory
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->nids++;
             chunk->nparts++;
             return res;
         }
@@ -509,10 +510,10 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
-                chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
+            if (chunk.nids == part_id + 1)
+                chunk.nids--, chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
             if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.nids = chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
         }
     public:    
     //protected:
-- 
2.43.0


From 552f70b354ee7de66d6173a9f1e8cf4db240e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 040/109] fix: DynMemParallel::get raced with allocation of
 memory by other threads

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..d7bf44e 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From acda733630e46ca55c000ef8a7b82babb2e3340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 041/109] fix: ParallelFor for std::thread did not compile

---
 anifem++/fem/mutex_type.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..9a772e4 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,10 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
+#include <cassert>
 #include <thread>
 #include <mutex>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -120,13 +122,13 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
-            for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
-                                beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
+            for (int i = 0; i < nthreads - 1; ++i) {
+                auto lbeg = beg + batch_size*i + (i < batch_remainder ? i : batch_remainder);
+                auto lend = beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder);
+                work_threads[i] = std::thread([&, i, lbeg, lend](){ perform_for_on_thread(i+1, f, lbeg, lend, args...); });
+            }
             perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
-            std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
+            for (auto& t: work_threads) t.join();
         }
     };
 
-- 
2.43.0


From f131a9c40f95d9c02635277735e85273fbd783f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 042/109] fix: parallel_for over std::thread did not accept int
 indices

The offsets were unsigned, so the bounds of the last batch had different types.
---
 anifem++/fem/mutex_type.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index 9a772e4..712b260 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -118,8 +118,8 @@ namespace ThreadPar{
             }
             nthreads = get_num_threads<Type::STD>(nthreads);
             auto niters = end - beg;
-            unsigned batch_size = niters / nthreads;
-            unsigned batch_remainder = niters % nthreads;
+            decltype(niters) batch_size = niters / nthreads;
+            decltype(niters) batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
             for (int i = 0; i < nthreads - 1; ++i) {
-- 
2.43.0


From 314c61070a45abf96c551c5d1ea95473f5beeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 043/109] fix: vector Dirichlet condition wrote behind the work
 memory

The column of products was addressed by column 1 of a one-column matrix, beyond
the documented work memory for a one-component unknown.
---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From ac09097204dfd078a0c16143518f0f674c026c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 044/109] fix: several vector Dirichlet conditions on one
 unknown gave wrong values

The value set for a direction was changed again while the next direction was
moved to the right-hand side.
---
 anifem++/fem/operations/dc_on_dof.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index e760006..d396095 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k];
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From 6a46b0eef77ef74081b8a813d90e915191b69756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 045/109] fix: Tetra::normal_direction did not compile

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4ed7890..8fe8d68 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -175,7 +175,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From a11d992cf15ecfe8bfd7c00d6004da466a523aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 046/109] fix: Tetras and Tetra could not be constructed from
 matrices of coordinates

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 8fe8d68..7837ee8 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -135,7 +135,7 @@ namespace Ani{
         using BaseT = TetrasCommon<MatType, MatType, MatType, MatType>;
 
         Tetras(const MatType& XY0, const MatType& XY1, const MatType& XY2, const MatType& XY3, int fusion = 1): 
-            BaseT(XY0, XY1, XY2, XY3, fusion) {}
+            BaseT(XY0, XY1, XY2, XY3) { BaseT::fusion = fusion; }
         Tetras(ScalarType* XY0, ScalarType* XY1, ScalarType* XY2, ScalarType* XY3, int count = 1): 
             BaseT(XY0, XY1, XY2, XY3, count) {}  
         Tetras(): Tetras(nullptr, nullptr, nullptr, nullptr, 0) {}    
-- 
2.43.0


From a9ab4c96467f95abcd8ee738c4f2ea1790128118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 047/109] fix: iterators of compressed tensors computed offsets
 in type char

---
 anifem++/autodiff/physical_tensors.h      | 12 ++++++------
 anifem++/autodiff/physical_tensors_3d.inl |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..78478a4 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -471,8 +471,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..8424d95 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -68,8 +68,8 @@ struct SymMtx<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -491,8 +491,8 @@ struct BiSymTensor4Rank<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From bfb35e4574c69637330b9aa6da5722a48c84357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 048/109] fix: bisymmetric tensors in dimensions other than
 three: wrong index of a place, some operations did not compile

---
 anifem++/autodiff/physical_tensors.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 78478a4..432308a 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
@@ -442,11 +442,10 @@ struct BiSymTensor4Rank{
 
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
-    constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+    std::size_t index_duplication(std::size_t continuous_index) const { 
+        auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
+        auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
+        return (q.i != q.j ? 2 : 1) * (ti.i != ti.j ? 2 : 1) * (tj.i != tj.j ? 2 : 1);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From 7c307b394560850f0cb7b128c144c66732eb14f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 049/109] fix: determinants of matrices of dimension other than
 three were wrong when rows were exchanged or values not close to one

---
 anifem++/autodiff/physical_tensors.inl | 64 ++++++--------------------
 1 file changed, 14 insertions(+), 50 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..0948749 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -329,66 +329,30 @@ namespace Ani{
     template<std::size_t N, typename FT>
     FT PhysMtx<N, FT>::Det() const {
         using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
         PhysMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
         FT ret(1);
         for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
+            // choose row with the largest value in column d
+            std::size_t r = d;
+            for (std::size_t i = d + 1; i < N; ++i)
+                if (abs(A(i, d)) > abs(A(r, d))) r = i;
+            if (A(r, d) == FT(0)) return FT();
+            if (r != d) {
+                for (std::size_t j = d; j < N; ++j) std::swap(A(r, j), A(d, j));
+                ret = -ret;
             }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = 0; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
+            ret *= A(d, d);
+            for (std::size_t i = d + 1; i < N; ++i) {
+                FT coef = A(i, d) / A(d, d);
+                for (std::size_t j = d; j < N; ++j)
+                    A(i, j) = A(i, j) - coef * A(d, j);
             }
         }
         return ret;
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From 7b3740004f8ffdd10f1152ffcbce6fc2d89d4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 050/109] fix: interval_map::lower_bound and upper_bound did
 not compile

---
 anifem++/interval/interval_map.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..fa3c8df 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -159,7 +159,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it->first.m_start)) return it;
             it_ed = it;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
@@ -173,7 +173,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it->first.m_start)) return it;
             it_ed = it;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-- 
2.43.0


From 7002bf9963cc8c5fced41fd7b991e47c6e0965eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:10 +0000
Subject: [PATCH 051/109] fix: keys below zero were not found in an
 interval_map of one interval infinite at both ends

---
 anifem++/interval/interval_map.inl | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index fa3c8df..8edad05 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -57,14 +57,7 @@ namespace Ani{
 
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const key_type& key) const {
-        if (m_map_list.empty()) return false;
-        auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return true;
-        }
-        auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
+        return internal_find(key) != m_map_list.end();
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
@@ -128,28 +121,16 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
-        if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
-            return !m_comp(key, it->first.m_start);
-        if ((boundary_status & 1) && it == &(*m_map_list.begin()))
-            return m_comp(key, it->first.m_end);
-        return !m_comp(key, it->first.m_start) && m_comp(key, it->first.m_end);
+        bool left_infinite = (boundary_status & 1) && it == &m_map_list.front();
+        bool right_infinite = (boundary_status & 2) && it == &m_map_list.back();
+        return (left_infinite || !m_comp(key, it->first.m_start)) && (right_infinite || m_comp(key, it->first.m_end));
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
     typename interval_map<Key, T, Compare, Allocator>::const_vec_iterator 
         interval_map<Key, T, Compare, Allocator>::internal_find(const key_type& key) const {
-        if (m_map_list.empty()) return m_map_list.end();
-        auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
-        }
-        auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
-        if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
-            return it;
-        return m_map_list.end();
+        auto it = internal_lower_bound(key);
+        return (it != m_map_list.end() && contains(&(*it), key)) ? it : m_map_list.end();
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
-- 
2.43.0


From 28c2b2addec77537b71274a884a14cd445ca8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:40 +0000
Subject: [PATCH 052/109] fix: insertion of infinite intervals into
 interval_map accepted conflicts or corrupted the map

---
 anifem++/interval/interval_map.inl | 50 ++++++++++--------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 8edad05..7576875 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -111,9 +111,8 @@ namespace Ani{
             return {iterator{it, this}, false};
         m_map_list.resize(1);
         m_map_list[0].second = std::move(value);
-        m_map_list[0].first.m_start = key_type(0);
-        // m_map_list[0].first.m_end = key_type(0) + 1;
-        m_map_list[0].first.m_end = key_type(0);
+        m_map_list[0].first.m_start = key_type();
+        m_map_list[0].first.m_end = key_type();
         boundary_status = 1|2;
         return {iterator{m_map_list.begin(), this}, true};
     }
@@ -176,43 +175,26 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, key_type end_interval, const mapped_type& value, unsigned char bnd_type){
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
-        // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
-        
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
-        if (it_st != m_map_list.begin()){
+        const bool left_infinite = bnd_type & 1, right_infinite = bnd_type & 2;
+        // intervals from range [it_st, it_end) have common points with the new interval
+        auto it_st = m_map_list.begin(), it_end = m_map_list.end();
+        if (!left_infinite)
+            it_st = std::upper_bound(m_map_list.begin(), (boundary_status & 2) ? std::prev(m_map_list.end()) : m_map_list.end(), start_interval, 
+                        [&cmp = m_comp](const auto& a, const auto& b){ return cmp(a, b.first.m_end); });
+        if (!right_infinite)
+            it_end = std::lower_bound((boundary_status & 1) ? std::next(m_map_list.begin()) : m_map_list.begin(), m_map_list.end(), end_interval, 
+                        [&cmp = m_comp](const auto& a, const auto& b){ return cmp(a.first.m_start, b); });
+        for (auto it = it_st; it != it_end; ++it) if (it->second != value)
+            return {it, false};
+        // join with adjacent intervals of the same value
+        if (!left_infinite && it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
                 it_st = it_prev;     
         }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
-        }
-        auto it_end0 = it_end;
-        if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
+        if (!right_infinite && it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
         
-        for (auto it = it_st0; it != it_end0; ++it) if (it->second != value)
-            return {it, false};
-        
         auto it = it_st;
         if (std::distance(it_st, it_end) == 0){
             it = m_map_list.emplace(it_end, interval<key_type>{start_interval, end_interval}, std::move(value));
-- 
2.43.0


From ef806e50673445b750cba4d9d54a97f32a57f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 053/109] fix: parse_interval_map accepted numbers out of range
 and lone signs

---
 anifem++/interval/interval_map.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 7576875..5a11874 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -211,7 +211,7 @@ namespace Ani{
         std::istringstream oss(input);
         T res;
         oss >> res;
-        if (!oss.eof())
+        if (oss.fail() || !oss.eof())
             throw std::runtime_error("Wrong value");
         return res;
     }
-- 
2.43.0


From b83583147cda23f10e0f09bc9bba98ed9d3eb84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 054/109] fix: parse_interval_map misread delimiters of other
 lengths, ignored a last single symbol and the bounds of the text

---
 anifem++/interval/interval_map.inl | 58 ++++++++++++------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 5a11874..39e17bb 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -219,49 +219,35 @@ namespace Ani{
     template<typename T1, typename T2, typename ParseT1, typename ParseT2>
     interval_map<T1, T2> parse_interval_map(const std::string& input, std::size_t pos, std::size_t count, const ParseT1& parse_interval_num, const ParseT2& parse_value, const ParseIvlMapTraits& traits){ 
         // ( ((+|-)?\d+)?\s*:((+|-)?\d+)?\s*->((+|-)?\d+) ;)*
-        if (traits.interval_delimiter.empty() || traits.map_delimiter.empty())
+        if (traits.interval_delimiter.empty() || traits.map_delimiter.empty() || traits.elem_delimiter.empty())
             throw std::runtime_error("Wrong parser traits");
         Ani::interval_map<T1, T2> m;
-        if (count == 0) 
+        if (pos >= input.size()) 
             return m;
-        
+        const std::string text = input.substr(pos, count);
         auto& spaces = traits.ignore_symbols;
-        auto end = input.find_last_not_of(spaces, count - 1);
-        if (end == std::string::npos || end < pos) 
-            return m;
-        auto st = input.find_first_not_of(spaces, pos);
-        pos = st;
-        while (pos < end){
-            auto lend = input.find(traits.elem_delimiter, pos);
-            auto colon_pos = input.find(traits.interval_delimiter, pos);
-            if (colon_pos == std::string::npos || colon_pos > lend)
+        // get part [st, ed) of text without surrounding ignored symbols
+        auto trim = [&text, &spaces](std::size_t st, std::size_t ed) -> std::string{
+            st = text.find_first_not_of(spaces, st);
+            if (st >= ed) return std::string();
+            return text.substr(st, text.find_last_not_of(spaces, ed - 1) - st + 1);
+        };
+        pos = text.find_first_not_of(spaces);
+        while (pos != std::string::npos){
+            auto lend = std::min(text.find(traits.elem_delimiter, pos), text.size());
+            auto colon_pos = text.find(traits.interval_delimiter, pos);
+            if (colon_pos == std::string::npos || colon_pos >= lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
-            if (arrow_pos == std::string::npos || arrow_pos > lend)
+            auto right_pos = colon_pos + traits.interval_delimiter.size();
+            auto arrow_pos = text.find(traits.map_delimiter, right_pos);
+            if (arrow_pos == std::string::npos || arrow_pos >= lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
+            auto value_pos = arrow_pos + traits.map_delimiter.size();
             
-            auto left_st = pos, left_ed = pos;
-            left_st = input.find_first_not_of(spaces, pos);
-            if (left_st < colon_pos)
-                left_ed = input.find_last_not_of(spaces, colon_pos - 1);
-            else
-                left_st = std::max(colon_pos, left_ed+1);
-    
-            auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
-            if (right_st < arrow_pos)
-                right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
-            
-            auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
-            if (value_st == std::string::npos || value_st >= lend)
+            std::string left = trim(pos, colon_pos), right = trim(right_pos, arrow_pos), value = trim(value_pos, lend);
+            if (value.empty())
                 throw std::invalid_argument("Missing mapping value");
-            value_ed = input.find_last_not_of(spaces, lend - 1);
-            
-            unsigned char status = (left_st > left_ed ? 1 : 0) | (right_st > right_ed ? 2 : 0);
-            std::string left = left_st > left_ed ? std::string() : input.substr(left_st, left_ed - left_st + 1);
-            std::string right = right_st > right_ed ? std::string() : input.substr(right_st, right_ed - right_st + 1);
-            std::string value = input.substr(value_st, value_ed - value_st + 1);
+            unsigned char status = (left.empty() ? 1 : 0) | (right.empty() ? 2 : 0);
             switch (status){
                 case 0: m.insert(parse_interval_num(left), parse_interval_num(right), parse_value(value)); break;
                 case 1: m.insert(decltype(m)::tag_inf, parse_interval_num(right), parse_value(value)); break;
@@ -270,7 +256,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == text.size()) ? std::string::npos : text.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From 0925cba77e2347ce67950ccf85d184a88d738c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 055/109] fix: parse_interval_map silently dropped
 contradictory and empty intervals

---
 anifem++/interval/interval_map.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 39e17bb..67f1e2e 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -248,14 +248,17 @@ namespace Ani{
             if (value.empty())
                 throw std::invalid_argument("Missing mapping value");
             unsigned char status = (left.empty() ? 1 : 0) | (right.empty() ? 2 : 0);
+            bool inserted = false;
             switch (status){
-                case 0: m.insert(parse_interval_num(left), parse_interval_num(right), parse_value(value)); break;
-                case 1: m.insert(decltype(m)::tag_inf, parse_interval_num(right), parse_value(value)); break;
-                case 2: m.insert(parse_interval_num(left), decltype(m)::tag_inf, parse_value(value)); break;
-                case 3: m.insert(decltype(m)::tag_inf, decltype(m)::tag_inf, parse_value(value)); break;
+                case 0: inserted = m.insert(parse_interval_num(left), parse_interval_num(right), parse_value(value)).second; break;
+                case 1: inserted = m.insert(decltype(m)::tag_inf, parse_interval_num(right), parse_value(value)).second; break;
+                case 2: inserted = m.insert(parse_interval_num(left), decltype(m)::tag_inf, parse_value(value)).second; break;
+                case 3: inserted = m.insert(decltype(m)::tag_inf, decltype(m)::tag_inf, parse_value(value)).second; break;
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
+            if (!inserted)
+                throw std::invalid_argument("Interval is empty or overlaps with interval of other value");
             pos = (lend == text.size()) ? std::string::npos : text.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
-- 
2.43.0


From 92d1abadc8867f0971bd0836e1900e818078c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 056/109] fix: printing of interval_map lost digits of the
 first and the last key

---
 anifem++/interval/interval_map.inl | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 67f1e2e..5960b19 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -22,22 +22,17 @@ namespace Ani{
         if (traits.ignore_symbols.find(" ") != std::string::npos)
             space = " ";
         auto &colon = traits.interval_delimiter, &arrow = traits.map_delimiter, &semicolon = traits.elem_delimiter;
-        if (r.m_map_list.size() == 1){
-            auto v = r.m_map_list.front();
-            if ((r.boundary_status & 1) && (r.boundary_status & 2) && r.m_comp(v.first.m_end, v.first.m_start))
-                return out << v.first.m_start << space << colon << space << v.first.m_end << space << arrow << space << v.second;
-            return out  
-                << ((r.boundary_status & 1) ? std::string() : std::to_string(v.first.m_start)) << space << colon << space 
-                << ((r.boundary_status & 2) ? std::string() : std::to_string(v.first.m_end)) << space << arrow << space << v.second;
+        auto it_st = r.m_map_list.begin(), it_end = r.m_map_list.end();
+        for (auto it = it_st; it != it_end; ++it){
+            if (it != it_st) 
+                out << semicolon << space;
+            if (it != it_st || !(r.boundary_status & 1))
+                out << it->first.m_start;
+            out << space << colon << space;
+            if (std::next(it) != it_end || !(r.boundary_status & 2))
+                out << it->first.m_end;
+            out << space << arrow << space << it->second;
         }
-        auto it_st = r.m_map_list.begin();
-        auto it_end = std::prev(r.m_map_list.end());
-        auto it = it_st;
-        out << ((r.boundary_status & 1) ? std::string() : std::to_string(it->first.m_start)) << space << colon << space << it->first.m_end << space << arrow << space << it->second;
-        for (auto it = std::next(it_st); it < it_end; ++it)
-            out << semicolon << space << it->first.m_start << space << colon << space << it->first.m_end << space << arrow << space << it->second;
-        it = it_end;
-        out << semicolon << space << it->first.m_start << space << colon << space << ((r.boundary_status & 2) ? std::string() : std::to_string(it->first.m_end)) << space << arrow << space << it->second;
         return out;
     }
 
-- 
2.43.0


From 17c41bf12214e497283433a72527ce125a30e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 057/109] fix: comparison and arithmetic of iterators of
 externally stored intervals

---
 anifem++/interval/interval_enum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..898b04a 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -68,19 +68,19 @@ struct interval_external_memory{
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
         const_iterator& operator+=(difference_type n) { m_p += 2*n; return *this; }
         const_iterator& operator-=(difference_type n) { m_p -= 2*n; return *this; }
-        difference_type operator- (const const_iterator& b) { return (m_p - b.m_p)/2; }
+        difference_type operator- (const const_iterator& b) const { return (m_p - b.m_p)/2; }
         bool operator==(const const_iterator & other) const { return m_p == other.m_p; }
         bool operator!=(const const_iterator & other) const { return !operator==(other); }
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-        friend const_iterator operator+(const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
-        friend const_iterator operator+(difference_type n, const_iterator& a) { return a + n; }
-        friend const_iterator operator-(const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
+        friend const_iterator operator+(const const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
+        friend const_iterator operator+(difference_type n, const const_iterator& a) { return a + n; }
+        friend const_iterator operator-(const const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
 
         friend class interval_external_memory<Int>;
     };
@@ -120,7 +120,7 @@ struct interval_enum{
         const_iterator& operator--();
         const_iterator  operator++(int) {const_iterator ret(*this); operator++(); return ret;}
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
-        difference_type operator- (const const_iterator& b) { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
+        difference_type operator- (const const_iterator& b) const { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
         reference operator*() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return m_val; }
         pointer operator ->() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return &m_val; }
         bool operator==(const const_iterator & other) const { return m_it == other.m_it && m_shift == other.m_shift; }
-- 
2.43.0


From 785ff888d7d5ac8c6522c18d7e71ca202d988544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 058/109] fix: iterators of extended array enumerations: >=, -=
 and steps from the end

---
 anifem++/interval/ext_array_enum.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..d241ffd 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -62,7 +62,7 @@ public:
         union hq_iter{ h_iter h; q_iter q; hq_iter(): h() {} };
         
         std::pair<GInt, std::array<UInt, N+1>> id;
-        const ext_range_array_enum* ptr;
+        const ext_range_array_enum* ptr = nullptr;
 
         h_iter kst; 
         h_iter ked;
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +113,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
-- 
2.43.0


From 0703451d8603914c537e5066bf23f316b2c74987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 059/109] fix: ext_array_enum::contains used an uninitialized
 array, clear did not compile

---
 anifem++/interval/ext_array_enum.h   | 2 +-
 anifem++/interval/ext_array_enum.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index d241ffd..7fee124 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -205,7 +205,7 @@ public:
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
-    void clear() { m_arr_enum.clear(); m_int_enum.clear(); }
+    void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..9f6df4c 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -914,7 +914,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
-- 
2.43.0


From 2ba7f051ff48635d9a3e287b1d30d484036a7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 060/109] fix: iterators of ext_array_enum read behind the data
 at the end

---
 anifem++/interval/ext_array_enum.inl | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 9f6df4c..e0f8d25 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -872,13 +872,15 @@ template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, ty
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator& ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator::operator --(){
     auto n = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
-    auto x = (it2 != ptr->m_arr_enum.end()) ? it2->second[m] : UInt(-1);
+    bool is_end = (it2 == ptr->m_arr_enum.end());
+    auto x = !is_end ? it2->second[m] : UInt(-1);
     --it2;
     auto v2 = *it2;
-    auto v1 = *it1;
-    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(v1.first))
+    if (is_end || v2.second[m] != x)
+        it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
+    else if (v2.second[n] + 1 == static_cast<UInt>(it1->first))
         --it1;
-    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(v1.first))
+    else if (v2.second[n] != static_cast<UInt>(it1->first))
         it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
     val = std::move(v2);
     val.second[n] = it1->second;
@@ -889,6 +891,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 += n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -900,6 +904,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 -= n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -920,7 +926,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::begin(GInt i) const {
-    if (empty()) return end();
+    if (!(i < size())) return end();
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
 
-- 
2.43.0


From c15dde6120b72a6ef7a57d7c0856416da8505626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 061/109] fix: difference of interval_enum iterators with
 unsigned numbers

---
 anifem++/interval/interval_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index 898b04a..0ec4218 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -120,7 +120,7 @@ struct interval_enum{
         const_iterator& operator--();
         const_iterator  operator++(int) {const_iterator ret(*this); operator++(); return ret;}
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
-        difference_type operator- (const const_iterator& b) const { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
+        difference_type operator- (const const_iterator& b) const { return difference_type(m_it->first + m_shift) - difference_type(b.m_it->first + b.m_shift); }
         reference operator*() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return m_val; }
         pointer operator ->() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return &m_val; }
         bool operator==(const const_iterator & other) const { return m_it == other.m_it && m_shift == other.m_shift; }
-- 
2.43.0


From 3c6968065c7ffa6d2f9380ef02d7bbe2cb3f0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 062/109] fix: ext_range_array_enum with an empty base set or
 empty ranges

---
 anifem++/interval/ext_array_enum.h   |  6 ++++--
 anifem++/interval/ext_array_enum.inl | 10 +++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 7fee124..42bc312 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -42,7 +42,9 @@ struct arr_range_func{
 template<unsigned N = 4, typename RangeFunc = vec_range_func<std::size_t, std::size_t>, typename UInt = std::size_t, typename GInt = std::size_t>
 class ext_range_array_enum{
 public:
-    /// Enumerator of initial array set
+    /// Ordered initial array set
+    std::vector<std::array<UInt, N>> m_base;
+    /// Enumerator of those initial arrays that are extended, i.e. have not empty range
     std::vector<std::array<UInt, N>> m_ord;
     /// Inserted rangable value
     RangeFunc m_range_func;
@@ -125,7 +127,7 @@ public:
     ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
     void debug_print_state(std::ostream& out = std::cout) const;
-    void clear() { m_ord.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
+    void clear() { m_base.clear(); m_ord.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
 private:
     void _setBaseSet(std::vector<std::array<UInt, N>> from_set);
     GInt rg_size(UInt v) const { return m_range_func(v); }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index e0f8d25..2905ea3 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -71,6 +71,13 @@ ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFun
     };
     auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
     UInt n = insert_pos, m = depends_on;
+
+    // base arrays with an empty range give no elements of the extended set
+    m_ord.clear();
+    std::copy_if(m_base.begin(), m_base.end(), std::back_inserter(m_ord), [this, m](const auto& a) { return rg_size(a[m]) > 0; });
+    m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear();
+    m_size = 0;
+    if (m_ord.empty()) return *this;
     
     std::map<std::array<UInt, N>, GInt> _r, _w, _p, _q;
     std::map<std::array<UInt, N>, std::map<GInt, GInt>> _qr; 
@@ -717,7 +724,8 @@ template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 void ext_range_array_enum<N, RangeFunc, UInt, GInt>::_setBaseSet(std::vector<std::array<UInt, N>> from_set){
     std::sort(from_set.begin(), from_set.end(), [](const auto& a, const auto& b){ return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); });
     from_set.erase( std::unique( from_set.begin(), from_set.end() ), from_set.end() );
-    m_ord = std::move(from_set);  
+    m_base = std::move(from_set);
+    m_ord = m_base;
 }
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
-- 
2.43.0


From 5642af0d02af894d76fe049f6b68ee83706730d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 063/109] fix: ext_range_array_enum::lower_bound and
 upper_bound missed the next element

---
 anifem++/interval/ext_array_enum.h   |   7 +-
 anifem++/interval/ext_array_enum.inl | 124 +++------------------------
 2 files changed, 17 insertions(+), 114 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 42bc312..82a3937 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -119,9 +119,9 @@ public:
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
-    iterator lower_bound(const std::array<UInt, N+1>& i) const;
+    iterator lower_bound(const std::array<UInt, N+1>& i) const { return begin(partition_point([&i](const std::array<UInt, N+1>& a) { return a < i; })); }
     /// Returns an iterator to the first element greater than the given key
-    iterator upper_bound(const std::array<UInt, N+1>& i) const { auto j = i; ++j[N]; return lower_bound(j); }
+    iterator upper_bound(const std::array<UInt, N+1>& i) const { return begin(partition_point([&i](const std::array<UInt, N+1>& a) { return !(i < a); })); }
     ///Straight mapping
     GInt operator[](const std::array<UInt, N+1>& i) const;
     ///Reverse mapping
@@ -131,6 +131,9 @@ public:
 private:
     void _setBaseSet(std::vector<std::array<UInt, N>> from_set);
     GInt rg_size(UInt v) const { return m_range_func(v); }
+    /// Number of the first element that is not `before`
+    template<typename Before>
+    GInt partition_point(const Before& before) const;
     iterator next_it(iterator a) const;
     iterator prev_it(iterator a) const { return begin(a.id.first-1); }
 };
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 2905ea3..1aa2a57 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -742,119 +742,19 @@ bool ext_range_array_enum<N, RangeFunc, UInt, GInt>::contains(const std::array<U
 }
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
-typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_array_enum<N, RangeFunc, UInt, GInt>::lower_bound(const std::array<UInt, N+1>& i) const{
-    auto make_check = [](UInt t){
-        return [t](const std::array<UInt, N>& a, const std::array<UInt, N>& b){
-            for (unsigned i = 0; i < t; ++i)
-                if (a[i] != b[i]) return false;
-            return true;    
-        };
-    };
-    auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
-    auto compare_arr_key = [compare_arr](const auto& a, const auto& b) { return compare_arr(a.first, b); };
-
-    auto res = i;
-    auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
-    auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
-    UInt n = insert_pos, m = depends_on;
-    std::array<UInt, N> id;
-    std::copy(i.data(), i.data() + insert_pos, id.data());
-    std::copy(i.data() + insert_pos+1, i.data() + i.size(), id.data()+insert_pos);
-    
-    auto jt = m_ord.begin();
-    if (n > 0){
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        jt = std::lower_bound(m_ord.begin(), m_ord.end(), jd, compare_arr);
-        if (jt == m_ord.end())
-            return end(); 
-        if (!make_check(n)(id, *jt)){  
-            std::copy(jt->begin(), jt->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(jt->begin()+n, jt->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }      
-    }
-    if (n > m){
-        if (beta() >= rg_size(id[m])){
-            auto jd = id;
-            std::fill(jd.begin() + n, jd.end(), 0);
-            jd[n-1]++;
-            jt = std::lower_bound(jt, m_ord.end(), jd, compare_arr);
-            if (jt == m_ord.end())
-                return end();
-            beta() = 0;
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*jt)[k];
-            return begin(this->operator[](res));
-        }
-        auto it = std::lower_bound(jt, m_ord.end(), id, compare_arr);
-        if (it != m_ord.end() && make_check(n)(id, *it)){
-            std::copy(it->begin() + n, it->end(), res.begin() + n + 1);
-            return begin(this->operator[](res));
-        } else if (beta()+1 < rg_size(id[m])){
-            std::copy(jt->begin() + n, jt->end(), res.begin() + n + 1);
-            ++beta();
-            return begin(this->operator[](res));
-        } else {
-            if (it == m_ord.end()) return end();
-            std::copy(it->begin(), it->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(it->begin()+n, it->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }
-    } else {
-        auto set_next_start = [&](){
-            if (n == 0) return end();
-            auto iid = id;
-            std::fill(iid.begin() + n, iid.end(), 0);
-            iid[n-1]++;
-            auto iit = std::lower_bound(jt, m_ord.end(), iid, compare_arr);
-            if (iit == m_ord.end())
-                return end();
-            beta() = 0;  
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*iit)[k];
-            return begin(this->operator[](res));  
-        };
-
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        auto it_qr = std::lower_bound(m_qr.begin(), m_qr.end(), jd, compare_arr_key);
-        auto b = m_qrb[it_qr->second.second - 1].first;
-        
-        if (beta() >= b)
-            return set_next_start();
-
-        auto it_r = std::lower_bound(m_r.begin(), m_r.end(), jd, compare_arr_key);
-        auto check_st = make_check(n);
-        auto check_ed = make_check(m+1);
-        auto it_add = m_r.end();
-        jd = id; 
-        std::fill(jd.begin() + m+1, jd.end(), 0);
-        for (auto it = it_r; it != m_r.end() && check_st(it->first, jd); ++it){
-            if (beta() >= rg_size(it->first[m])) continue;
-            if (!compare_arr(it->first, jd)){
-                auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
-                    for (unsigned k = 0; k < N; ++k)
-                        alpha(k) = (*kt)[k];
-                    return begin(this->operator[](res));    
-                }
-            }
-            if (it_add == m_r.end() && beta()+1 < rg_size(it->first[m]))
-                it_add = it;
-        }
-        if (it_add != m_r.end()){
-            beta()++;
-            auto kt = std::lower_bound(jt, m_ord.end(), it_add->first, compare_arr);
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*kt)[k];
-            return begin(this->operator[](res));
-        }
-
-        return set_next_start();
+template<typename Before>
+GInt ext_range_array_enum<N, RangeFunc, UInt, GInt>::partition_point(const Before& before) const{
+    // the elements are enumerated in ascending order
+    GInt lo = 0, len = m_size;
+    while (len > 0){
+        GInt half = len / 2;
+        if (before(this->operator[](lo + half))){
+            lo += half + 1;
+            len -= half + 1;
+        } else
+            len = half;
     }
+    return lo;
 }
 
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
-- 
2.43.0


From c29f2c4affdd99ac1eec90d9142f6e3c8252db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 064/109] fix: ext_array_enum::lower_bound did not compile,
 upper_bound missed the next element

---
 anifem++/interval/ext_array_enum.h   |  6 ++++--
 anifem++/interval/ext_array_enum.inl | 27 +++++++++++----------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 82a3937..05ffc37 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -204,13 +204,15 @@ public:
     iterator end() const { return iterator(this, m_int_enum[0].end(), m_arr_enum.end()); }
     iterator find(GInt i) const;
     iterator find(const std::array<UInt, N+1>& i) const ;
-    iterator lower_bound(const std::array<UInt, N+1>& i) const;
-    iterator upper_bound(const std::array<UInt, N+1>& i) const { auto j = i; ++j[N]; return lower_bound(j); }
+    iterator lower_bound(const std::array<UInt, N+1>& i) const { return bound(i, false); }
+    iterator upper_bound(const std::array<UInt, N+1>& i) const { return bound(i, true); }
     // ///Straight mapping
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
     void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
+private:
+    iterator bound(const std::array<UInt, N+1>& i, bool upper) const;
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 1aa2a57..34db964 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -869,26 +869,21 @@ typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, N
     return iterator(this, it1, m_arr_enum.find(j));
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
-typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::lower_bound(const std::array<UInt, N+1>& i) const{
+typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::bound(const std::array<UInt, N+1>& i, bool upper) const{
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
+    if (i[m] >= NV) return end();
+    const auto& values = m_int_enum[i[m]];
+    auto it1 = values.lower_bound_right(i[n]);
     auto j = i;
-    if (m < n){
-        auto it1 = m_int_enum[i[m]].lower_bound_right(i[n]);
-        j[n] = (it1 == m_int_enum.end()) ? std::numeric_limits<UInt>::max() : UInt(it1->first);
-    } else {
-        int l = std::numeric_limits<int>::max();
-        typename IntervalEnum::const_iterator it1;
-        for (unsigned r = 0; r < NV; ++r){
-            auto lit = m_int_enum[r].lower_bound_right(i[n]);
-            if (lit != m_int_enum[r].end() && m_int_enum[r]->first < l){
-                l = m_int_enum[r]->first;
-                it1 = lit;
-            }
-        }
-        j[n] = (l != std::numeric_limits<int>::max()) ? l : std::numeric_limits<UInt>::max();
+    bool is_value = false;
+    if (it1 == values.end())
+        j[n] = std::numeric_limits<UInt>::max();
+    else {
+        j[n] = it1->first;
+        is_value = static_cast<UInt>(it1->second) == i[n];
     }
-    auto it2 = m_arr_enum.lower_bound(j);
+    auto it2 = (upper && is_value) ? m_arr_enum.upper_bound(j) : m_arr_enum.lower_bound(j);
     if (it2 == m_arr_enum.end()) return end();
     auto _it1 = m_int_enum[it2->second[m]].find_left(it2->second[n]);
     return iterator(this, _it1, it2);
-- 
2.43.0


From 2ad4c3561016bac02ef1b76e9c6f17710d6c1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 065/109] fix: pow of a number and an expression without
 derivatives did not compile

---
 anifem++/autodiff/autodiff.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..e3345a1 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -283,7 +283,7 @@ namespace internal{
     };
     template<typename EX1, typename EX2>
     struct EvalPow<EX1, EX2, 3>{
-        static auto eval(EX1 a, EX2 b){ return _EXParam<EX1>(EX1::Storage::MathOps::pow(a(), b())); }
+        static ADVal<ADState<true, false, false>, typename EX1::Storage> eval(EX1 a, EX2 b){ return make_ADVal(_EXParam<EX1>(EX1::Storage::MathOps::pow(a(), b()))); }
     };
     template<typename EX1, typename EX2>
     struct EvalPow<EX1, EX2, 2>{
-- 
2.43.0


From e176fc093e1afbbf59ec16a49b587b527aad3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 066/109] fix: second derivative of a quotient missed the term
 of the squared denominator derivative

---
 anifem++/autodiff/autodiff.h   | 12 ++++++++++--
 anifem++/autodiff/autodiff.inl | 17 ++++++++---------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..5fc356e 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,14 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+/// Quotient depends on its denominator nonlinearly
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +184,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +203,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+FuncVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index e3345a1..1761576 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,17 +154,16 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv) 
         && dif >= 2){
-        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
+        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
-            auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
-        }
+        auto c = av / (bv * bv);
+        CONSTIF (EX2::State::NotTrivialDeriv )
+            r += (2 * c / bv) * HT::TensorSquare(bm);
+        CONSTIF (EX2::State::NotTrivialSecondDeriv )
+            r -= c * b.DD();
     }
     return {dif, v, m, r};
 }
-- 
2.43.0


From ed5e684b48b28706be83ecf63eeb8683a5b3c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 067/109] fix: derivatives of pow with real exponent at zero
 base

---
 anifem++/autodiff/autodiff.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 1761576..7d310c2 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -181,13 +181,14 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            m = (av != VT(0) ? q * v / av : q * EX1::Storage::MathOps::pow(av, q - 1)) * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        if (q != 1)
+            r += (av != VT(0) ? q * (q - 1) * v / (av*av) : q * (q - 1) * EX1::Storage::MathOps::pow(av, q - 2)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += (av != VT(0) ? q * v / av : q * EX1::Storage::MathOps::pow(av, q - 1)) * a.DD();    
     } 
     return {dif, v, m, r};
 }
-- 
2.43.0


From ae21cd145434e27de9a1bcc11cf1e08db6a8a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 068/109] fix: hypot of one negative value

---
 anifem++/autodiff/autodiff.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 7d310c2..fadbd59 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -342,7 +342,10 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) {
+        auto a = abs(vec[0]);
+        return FuncVal<EX1>(a.m_dif, a(), a.D(), a.DD());
+    }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
-- 
2.43.0


From 1c17db3fbd5c39ff0fdcaa8e7fc6b7835051784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 069/109] fix: hypot dropped derivatives if its first value is
 constant

---
 anifem++/autodiff/autodiff.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index fadbd59..15f6ee2 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -353,6 +353,8 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = vec[0].m_dif;
+    for (::std::size_t i = 1; i < nvec; ++i)
+        dif = std::max(dif, static_cast<unsigned char>(vec[i].m_dif));
     GT m;
     HT r;
     CONSTIF (EX1::State::NotTrivialDeriv){
-- 
2.43.0


From e65430b2c65d799caf0cb2507cde1cf4e1038ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 070/109] fix: hypot of three and more values was accumulated
 in double

---
 anifem++/autodiff/autodiff.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 15f6ee2..9a70c46 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -349,7 +349,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
-        v2 = std::accumulate(vec, vec+nvec, 0.0, [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
+        v2 = std::accumulate(vec, vec+nvec, VT(0), [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = vec[0].m_dif;
-- 
2.43.0


From 352d9fea730c5513bd90e79c89a97808e34b9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 071/109] fix: second derivatives of strain invariants did not
 compile for other scalar types

---
 anifem++/autodiff/cauchy_strain_invariants.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 34c7483..1bfb0aa 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -51,7 +51,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I1_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE<FT>(); }
 
         /// @return I2(C) = (tr(C)^2 - tr(C^2)) / 2
         template<typename FT = double>
@@ -63,7 +63,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I2_ddE();
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE<FT>(); }
 
         /// @return I3(C) = det(C)
         template<typename FT = double>
@@ -97,9 +97,9 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I4fs_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE<FT>(); }
     
         /// @return I5fs(C) = f^T*C^2*s
         template<typename FT = double>
-- 
2.43.0


From 41eac340df01a7feec249845068c1a35aabb157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 072/109] fix: invariant J was computed in double for other
 scalar types

---
 anifem++/autodiff/cauchy_strain_invariants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 1bfb0aa..9610e1f 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -77,7 +77,7 @@ namespace Ani{
 
         /// @return J(C) = sqrt(det(C)) = det(F)
         template<typename FT = double>
-        inline FT C_J(const SymMtx3D<FT>& E) { return sqrt(C_I3(E)); }
+        inline FT C_J(const SymMtx3D<FT>& E) { using std::sqrt; return sqrt(C_I3(E)); }
         /// @return S_J = d (J(C)) / d E_{ij}
         template<typename FT = double>
         inline SymMtx3D<FT> C_J_dE(const SymMtx3D<FT>& E) { return (SymMtx3D<FT>::Identity()+2*E).Adj() / C_J(E); }
-- 
2.43.0


From c5f29d79d51643821d02d913328db011cf94c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 073/109] fix: setting a component of a compile-time DOF map
 again added its sizes to the old ones

---
 anifem++/fem/tetdofmap.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index a2cff65..45749be 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -612,16 +612,17 @@ namespace FemComDetails{
     template<typename... DofMapT> 
     template<std::size_t I>
     ComplexDofMapCImpl<true, DofMapT...>& ComplexDofMapCImpl<true, DofMapT...>::set(const typename std::tuple_element<I, Base>::type& v){ 
+        const auto& old = std::get<I>(static_cast<const Base&>(*this));
         for (uint t = 0; t < NGEOM_TYPES; ++t) {
             auto etype = NumToGeomType(t);
-            uint nd = v.NumDof(etype);
-            uint ndt = v.NumDofOnTet(etype);
+            uint nd = v.NumDof(etype) - old.NumDof(etype);
+            uint ndt = v.NumDofOnTet(etype) - old.NumDofOnTet(etype);
             for (uint i = I; i < Size::value; ++i){
                 m_spaceNumDofTet[t][i+1] += ndt;
                 m_spaceNumDof[t][i+1] += nd;
             }
         }
-        uint ndts = v.NumDofOnTet();
+        uint ndts = v.NumDofOnTet() - old.NumDofOnTet();
         for (uint i = I; i < Size::value; ++i)
             m_spaceNumDofsTet[i+1] += ndts;
         std::get<I>(static_cast<Base&>(*this)) = v;
-- 
2.43.0


From 6c3960ec0cfce66a9f77dbe7953bd6576a4c0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:25 +0000
Subject: [PATCH 074/109] fix: SimpleEnumerator numbers the unknowns of one
 element consecutively in the MINIBLOCKS order

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 3bbc4b4..995d600 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -827,7 +827,7 @@ PGE::EnumerateIndex SimpleEnumerator::operator()(const NaturalIndex& physIndex)
         auto iodf = getFullIndex(physIndex).GetElemDofId();
         switch (m_t){
             case ANITYPE: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim]) + iodf * NumElem[edim]; break;
-            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf * NumElem[edim]; break;
+            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf; break;
         }
     }
 
-- 
2.43.0


From e7d02b17a5ac0c46d66882b82df0d3355cd96d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 075/109] fix: OrderedEnumerator accepts the first index of the
 process in the inverse map

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 995d600..fd489c3 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -777,7 +777,7 @@ PGE::EnumerateIndex OrderedEnumerator::index_byMap(const NaturalIndex& physIndex
 }
     
 PGE::NaturalIndex OrderedEnumerator::operator()(EnumerateIndex vi) const {
-    assert(vi.id > BegInd && "Element is GHOST");
+    assert(vi.id >= BegInd && "Element is GHOST");
     auto id = loc_emap[reverse ? (loc_emap.size() - 1 - (vi.id - BegInd)) : (vi.id - BegInd)];
     NaturalIndex res;
     res.var_id = id[perm[0]];
-- 
2.43.0


From 4f3ca7736bc66fda87fd7b6d968630de17b777b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 076/109] fix: the first oriented degree of freedom of an edge
 or face gets its full index

---
 anifem++/inmost_interface/global_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index fd489c3..05d703f 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -231,7 +231,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, int elem_dof_id) co
     uint tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < elem_dof_id){
+        if (static_cast<int>(lnumdofs) <= elem_dof_id){
             tshift = lnumdofs;
             ++elem_num; 
         }
@@ -281,7 +281,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, uint var_id, int vl
     uint tshift = 0, tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.m_spaces[var_id]->NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < vledi){
+        if (static_cast<int>(lnumdofs) <= vledi){
             tvshift = lnumdofs;
             vledi -= lnumdofs;
             tshift = vars.NumDof(DofT::NumToGeomType(elem_num));
-- 
2.43.0


From 9cb2959bfe5c07b9eeb4d27d6427173075ea6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 077/109] fix: iteratorByVector compared >= as <

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 70c291e..d6186bb 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -120,7 +120,7 @@ public:
         bool operator < (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
         bool operator > (const iteratorByVector & other) const { return m_val.eid.id > other.m_val.eid.id; }
         bool operator <= (const iteratorByVector & other) const { return m_val.eid.id <= other.m_val.eid.id; }
-        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
+        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id >= other.m_val.eid.id; }
         iteratorByVector& operator += (difference_type n) { m_val.eid.id += n; m_val.nid.clear(); return *this; }
         iteratorByVector& operator -= (difference_type n) { m_val.eid.id -= n; m_val.nid.clear(); return *this; }
         friend iteratorByVector operator+(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
-- 
2.43.0


From e82a11d24bcb3f62ac69b8ba29ea8994bd0af5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 078/109] fix: iteratorByGeom restricted to oriented types does
 not visit unoriented ones

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 05d703f..d5e01d7 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -352,7 +352,7 @@ bool PGE::iteratorByGeom::_choose_element(const IGlobEnumeration* p, const Slice
         j.elem = elem;
         auto next_var = (sid.var_id == ANY) ? 0 : sid.var_id;
         auto last_var = (sid.var_id == ANY) ? p->vars.m_spaces.size() : sid.var_id+1;
-        if (_choose_var(p, j, next_var, last_var))
+        if ((sid.etype & j.elem_type) && _choose_var(p, j, next_var, last_var))
             return true;
         if ((j.elem_type == DofT::EDGE_UNORIENT && (sid.etype & DofT::EDGE_ORIENT) )
                 || (j.elem_type == DofT::FACE_UNORIENT && (sid.etype & DofT::FACE_ORIENT) )){
-- 
2.43.0


From a97bf1cfbb570322de959b90570f8a32f935ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 079/109] fix: the lower bound of a key below the elements of
 the process is the first index of its block

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index d5e01d7..fc97bc7 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -657,6 +657,8 @@ PGE::iteratorByVector OrderedEnumerator::getLowerOrderIndex(long global_elem_id,
     id[perm[2]] = etnum;
     id[perm[3]] = global_elem_id >= BegElemID[dim] ? (global_elem_id - BegElemID[dim]) : 0;
     id[perm[4]] = iei.dim_elem_dof_id;
+    if (global_elem_id < BegElemID[dim])
+        std::fill(id.begin() + perm[3], id.end(), 0); // all elements of the process are greater, regardless of the rest of the key
     auto it = loc_emap.lower_bound(id);
     if (it == loc_emap.end())
         return endByVector();
-- 
2.43.0


From d77d7ce1fa5e0767761d8e5773b61758d75943e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 080/109] fix: numbering of a process which owns no elements of
 some dimension

---
 anifem++/inmost_interface/global_enumerator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index fc97bc7..61f5939 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -588,8 +588,18 @@ void PGE::setupIGlobEnumeration(){
     std::array<long, 4> total_geom_elements = {0, 0, 0, 0};
     for (int d = 0; d < 4; ++d) if (et & INMOST::ElementTypeFromDim(d))
         total_geom_elements[d] = mesh->TotalNumberOf(INMOST::ElementTypeFromDim(d));
+    // the empty range of a process without own elements starts after the elements of the previous processes
+    std::array<INMOST::Storage::real, 4> num_prev = {0, 0, 0, 0};
+    if (mesh->GetProcessorsNumber() > 1){
+        std::vector<INMOST::Storage::real> cnt(4*mesh->GetProcessorsNumber(), 0);
+        std::copy(NumElem.begin(), NumElem.end(), cnt.begin() + 4*mesh->GetProcessorRank());
+        mesh->Integrate(cnt.data(), cnt.size());
+        for (int r = 0; r < static_cast<int>(mesh->GetProcessorRank()); ++r)
+            for (int d = 0; d < 4; ++d)
+                num_prev[d] += cnt[4*r + d];
+    }
     for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d) && BegElemID[d] == LONG_MAX){
-        BegElemID[d] = EndElemID[d] = total_geom_elements[d];
+        BegElemID[d] = EndElemID[d] = static_cast<long>(num_prev[d]);
     }
     MatrSize = 0, BegInd = 0, EndInd = 0;
     for (int i = 0; i < DofT::NGEOM_TYPES; ++i) if (NumDof[i] > 0){
-- 
2.43.0


From 31863a44f1edabe9270fb19282166c21114c7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 081/109] fix: sums of iteratorByVector and a number accept
 constant iterators

---
 anifem++/inmost_interface/global_enumerator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index d6186bb..c64508b 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -123,10 +123,10 @@ public:
         bool operator >= (const iteratorByVector & other) const { return m_val.eid.id >= other.m_val.eid.id; }
         iteratorByVector& operator += (difference_type n) { m_val.eid.id += n; m_val.nid.clear(); return *this; }
         iteratorByVector& operator -= (difference_type n) { m_val.eid.id -= n; m_val.nid.clear(); return *this; }
-        friend iteratorByVector operator+(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
-        friend iteratorByVector operator+(difference_type n, iteratorByVector& a) { return a + n; }
-        friend iteratorByVector operator-(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
-        difference_type operator-(const iteratorByVector& b) { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
+        friend iteratorByVector operator+(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
+        friend iteratorByVector operator+(difference_type n, const iteratorByVector& a) { return a + n; }
+        friend iteratorByVector operator-(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
+        difference_type operator-(const iteratorByVector& b) const { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
         reference operator*() const { return m_val; }
         pointer operator ->() const { return &m_val; }
         value_type operator[](difference_type n) const {  value_type res(m_val); if (n != 0) { res.eid.id += n; res.nid.clear(); } return res; }
-- 
2.43.0


From 02758c05c5a24d02c8ac8665a623d2d3716fc9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 082/109] fix: PlainMemoryX::allocateFromRaw dropped the memory
 of the parts which were not requested anew

---
 anifem++/fem/fem_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 048b26f..83eec9b 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -372,9 +372,9 @@ namespace Ani{
                     p = static_cast<char*>(mem_out[i]) + szof[i]*sz[i];
                 }
             }
-            mdata = static_cast<DenseMatrix<ScalarType>*>(mem_out[0]);
-            ddata = static_cast<ScalarType*>(mem_out[1]);
-            idata = static_cast<IndexType*>(mem_out[2]);
+            if (msize > 0) mdata = static_cast<DenseMatrix<ScalarType>*>(mem_out[0]);
+            if (dsize > 0) ddata = static_cast<ScalarType*>(mem_out[1]);
+            if (isize > 0) idata = static_cast<IndexType*>(mem_out[2]);
             mSize = msize > 0 ? msize : std::max(mSize, std::size_t(0));
             dSize = dsize > 0 ? dsize : std::max(dSize, std::size_t(0));
             iSize = isize > 0 ? isize : std::max(iSize, std::size_t(0));
-- 
2.43.0


From bc4f876946bc997c749cb46a4d29ae9b6b9d3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:45 +0000
Subject: [PATCH 083/109] fix: generators of elemental functions with IOData or
 with a single vector compile

---
 anifem++/inmost_interface/func_wrap.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6b6a076..b87b936 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -125,7 +125,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMatRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol)), MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -157,7 +157,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMat(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol))},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -189,14 +189,14 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F)> f, size_t nRow){
         return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ (void) w; (void) iw; (void) user_data; (void) dyn_mem; return f(args, res[0]), 0; },
-                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow))}, 0, 0, false, false };
+                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)}, 0, 0, false, false };
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F, void* user_data)> f, size_t nRow){
-- 
2.43.0


From a0f43bf849cb93165c567cca0a8c0f49524d4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:45 +0000
Subject: [PATCH 084/109] fix: in-place sparsify took a pointer to constant
 data and did not compile

---
 anifem++/inmost_interface/func_wrap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 8d46bee..d6f32fb 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -38,7 +38,7 @@ namespace Ani{
         template<typename Real>
         void sparsify(const Real* from, Real* to) const;
         template<typename Real>
-        void sparsify(const Real* inplace) const { sparsify<Real>(inplace, inplace); }
+        void sparsify(Real* inplace) const { sparsify<Real>(inplace, inplace); }
         //Copy colind and row arrays of CSC format
         template<typename IntTo>
         void copyCSC(IntTo* colind, IntTo* row) const;
@@ -68,7 +68,7 @@ namespace Ani{
             { return getView().template densify<Real>(inplace); }
         template<typename Real> void sparsify(const Real* from, Real* to) const 
             { return getView().template sparsify<Real>(from, to); }
-        template<typename Real> void sparsify(const Real* inplace) const 
+        template<typename Real> void sparsify(Real* inplace) const 
             { return getView().template sparsify<Real>(inplace); }
         template<typename IntTo> void copyCSC(IntTo* colind, IntTo* row) const 
             { return getView().template copyCSC<IntTo>(colind, row); }
-- 
2.43.0


From 6c6b90a272de7a977960dbc59c687dca138b3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 085/109] fix: assignment of MatFuncWrapDynamic lost the size
 of the integer work array

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index b87b936..5097ff6 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -118,7 +118,7 @@ namespace Ani{
         if (this == &a) return *this;
         m_sp_in = a.m_sp_in, m_sp_out = a.m_sp_out;
         m_f = a.m_f; 
-        m_sz_w = a.m_sz_w, m_sz_w = a.m_sz_iw; 
+        m_sz_w = a.m_sz_w, m_sz_iw = a.m_sz_iw; 
         m_user_data_required = a.m_user_data_required, m_dyn_mem_required = a.m_dyn_mem_required;
         return *this;
     }
-- 
2.43.0


From d8f308b4cfee98b94ed7c445a8d1a0daa1013076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 086/109] fix: MatSparsityView::make_as_sparse kept the size of
 the dense matrix instead of the number of entries

---
 anifem++/inmost_interface/func_wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index d6f32fb..511ac91 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -45,7 +45,7 @@ namespace Ani{
         template<typename RandAccBoolIter, typename TVal = bool>
         void fillTemplate(RandAccBoolIter beg) const;
         static MatSparsityView<Int> make_as_dense(Int sz1, Int sz2) { return MatSparsityView<Int>(DENSE, sz1*sz2, sz1, sz2, nullptr, nullptr); }
-        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, sz1*sz2, sz1, sz2, colind, row); }
+        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, nnz, sz1, sz2, colind, row); }
     };
 
     template <typename TInt = long>
-- 
2.43.0


From 0d2271aebe6b62233a332a76e88448489a66a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 087/109] fix: conversion of cell connectivity to elements
 copied four edges of six

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 8b4f432..0fc6425 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -123,7 +123,7 @@ namespace Ani{
         INMOST::Mesh * m = cell.GetMeshLink();
         std::transform(hnodes, hnodes + 4, nodes, [m](INMOST::HandleType h)->INMOST::Node{ return INMOST::Node(m, h); });
         if (prepare_edges_and_faces){
-            std::transform(hedges, hedges + 4, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
+            std::transform(hedges, hedges + 6, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
             std::transform(hfaces, hfaces + 4, faces, [m](INMOST::HandleType h)->INMOST::Face{ return INMOST::Face(m, h); });
         }
     }
-- 
2.43.0


From 6f933eb35ce8f451811e7758eeec656903bb8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 088/109] fix: orientation of a face compared a node of the
 face with the opposite node and did not alternate between the faces

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 0fc6425..b8e83ce 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -157,8 +157,9 @@ namespace Ani{
         } else if (etype & DofT::FACE){
             char change = 0;
             for (int k = 0; k < 3; ++k)
-                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+k+1) % 4]) ++change;
-            return change == 1;    
+                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+(k+1)%3) % 4]) ++change;
+            // on a positive tetrahedron nodes (k, k+1, k+2) of the k-th face go counterclockwise around the outward normal only if k is even
+            return (change == 1) == (elid % 2 == 0);    
         } else if (etype & DofT::NODE)
             return true;
         else if (etype & DofT::CELL){
-- 
2.43.0


From 2cc54d1b40508cf0fa24db537605b41b59e61396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 089/109] fix: gathering a component from a vector of tags
 wrote at the position of the component in the whole vector

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index b8e83ce..e9abd67 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -338,7 +338,7 @@ namespace Ani{
             int ext_dim = v;
             auto view = dmap.GetNestedDofMapView(&ext_dim, 1);
             GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tags[v], *view.m_base, mlink, cell, faces, edges, nodes, canonical_node_indexes, 
-                                    out + view.m_shiftOnTet, next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
+                                    out + (ncomp == 0 ? view.m_shiftOnTet : 0), next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
         }
     }
     template<bool OnlyIfDataAvailable, class RandomIt>
-- 
2.43.0


From 2b2b1415ecccf2dc5de1d01fe1c121bbbf1abca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 090/109] fix: the patterns of local matrix and vector are
 taken from the function which is evaluated

---
 anifem++/inmost_interface/assembler.h   |  6 ++++++
 anifem++/inmost_interface/assembler.inl | 25 +++++--------------------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 163aa11..54237b3 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -276,6 +276,12 @@ class AssemblerT{
     struct CommonFuncData{
         std::vector<Int> colindA, colindF, rowA, rowF;
         void Clear() { colindA.clear(); colindF.clear(); rowA.clear(); rowF.clear();}
+        template<typename MatFuncT1>
+        static void fill(const MatFuncT1& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row){
+            if (func.out_nnz(res_id) == func.out_size1(res_id) * func.out_size2(res_id)) return;
+            colind.resize(func.out_size2(res_id) + 1), row.resize(func.out_nnz(res_id));
+            func.out_csc(res_id, colind.data(), row.data());
+        }
     };
     struct OrderTempl{
         DofT::uint var_id;   ///< contiguous number of variable 
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index f4ad1fb..67a443b 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -219,26 +219,6 @@ void AssemblerT<Traits>::PrepareProblem(){
     extend_memory_for_fem_func(mat_func);
     extend_memory_for_fem_func(rhs_func);
     extend_memory_for_fem_func(mat_rhs_func);
-    if (mat_func && !mat_rhs_func){
-        if (mat_func.out_nnz(0) != mat_func.out_size1(0) * mat_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_func.out_size2(0) + 1), m_fd.rowA.resize(mat_func.out_nnz(0));
-            mat_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-        }
-    }
-    if (rhs_func && !mat_rhs_func){
-        if (rhs_func.out_nnz(0) != rhs_func.out_size1(0) * rhs_func.out_size2(0)) {
-            m_fd.colindF.resize(rhs_func.out_size2(0) + 1), m_fd.rowF.resize(rhs_func.out_nnz(0));
-            rhs_func.out_csc(0, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
-    if (mat_rhs_func){
-        if (mat_rhs_func.out_nnz(0) != mat_rhs_func.out_size1(0) * mat_rhs_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_rhs_func.out_size2(0) + 1), m_fd.rowA.resize(mat_rhs_func.out_nnz(0));
-            mat_rhs_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-            m_fd.colindF.resize(mat_rhs_func.out_size2(1) + 1), m_fd.rowF.resize(mat_rhs_func.out_nnz(1));
-            mat_rhs_func.out_csc(1, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
     if (!rhs_func && !mat_func && !mat_rhs_func) throw std::runtime_error("Fem expression evaluator is not set");
     orderR.resize(0); orderC.resize(0);
     orderR.reserve(nRows); orderC.reserve(nRows);
@@ -316,6 +296,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     if (!mat_rhs_func && (!mat_func || !rhs_func))
         throw std::runtime_error("System local evaluator is not specified");
     auto func = generate_mat_rhs_func();
+    CommonFuncData::fill(func, 0, m_fd.colindA, m_fd.rowA);
+    CommonFuncData::fill(func, 1, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -504,6 +486,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
             throw std::runtime_error("Right-hand side local evaluator is not specified");
     }
     auto func = generate_rhs_func();
+    CommonFuncData::fill(func, 0, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -592,6 +575,7 @@ int AssemblerT<Traits>::AssembleTemplate(INMOST::Sparse::Matrix &matrix){
     if (!mat_func && !mat_rhs_func)
         throw std::runtime_error("Matrix local evaluator is not specified");
     auto func = generate_mat_func();
+    CommonFuncData::fill(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -711,6 +695,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
             throw std::runtime_error("Matrix local evaluator is not specified");
     }
     auto func = generate_mat_func();
+    CommonFuncData::fill(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
-- 
2.43.0


From 48845ac8280bc2a36f96e54d77ab30a10913da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:49 +0000
Subject: [PATCH 091/109] fix: matrix or vector evaluated by a function of the
 whole system

---
 anifem++/inmost_interface/assembler.h   | 10 +++++-----
 anifem++/inmost_interface/assembler.inl | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 54237b3..449505f 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -94,8 +94,8 @@ namespace internals{
         bool is_mat_func = true;
         MatFuncT* m_f = nullptr;
 
-        int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const{ return m_f->operator()(args, res, w, iw, user_data, mem_id); }
-        int operator()(Memory mem) const { return m_f->operator()(std::move(mem));}
+        int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const;
+        int operator()(Memory mem) const { return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id); }
         Int setup_and_alloc_memory(){ return m_f->setup_and_alloc_memory(); }
         void release_memory(Int mem_id) { return m_f->release_memory(mem_id); }
         void defragment_memory(Int mem_id){ return m_f->defragment_memory(mem_id); }
@@ -103,7 +103,7 @@ namespace internals{
         void release_memory_range(std::pair<Int, Int> id_range){ return m_f->release_memory_range(id_range); }
         void release_all_memory(){ return m_f->release_all_memory(); }
         void clear_memory(){ return m_f->clear_memory(); }
-        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ return m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); }
+        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); if (!is_mat_func) sz_w += m_f->out_nnz(1); }
         bool is_user_data_required() const{ return m_f->is_user_data_required(); }
         size_t n_in() const{ return m_f->n_in(); }
         size_t n_out() const{ return 1; }
@@ -135,7 +135,7 @@ namespace internals{
         MatFuncT* m_f = nullptr;
 
         int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const;
-        int operator()(Memory mem) const;
+        int operator()(Memory mem) const { return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id); }
         Int setup_and_alloc_memory(){ return m_f->setup_and_alloc_memory(); }
         void release_memory(Int mem_id) { return m_f->release_memory(mem_id); }
         void defragment_memory(Int mem_id){ return m_f->defragment_memory(mem_id); }
@@ -143,7 +143,7 @@ namespace internals{
         void release_memory_range(std::pair<Int, Int> id_range){ return m_f->release_memory_range(id_range); }
         void release_all_memory(){ return m_f->release_all_memory(); }
         void clear_memory(){ return m_f->clear_memory(); }
-        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ return m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); }
+        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); if (!is_rhs_func) sz_w += m_f->out_nnz(0); }
         bool is_user_data_required() const{ return m_f->is_user_data_required(); }
         size_t n_in() const{ return m_f->n_in(); }
         size_t n_out() const{ return 1; }
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 67a443b..eadfbf9 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -1058,15 +1058,25 @@ std::ostream& SystemFromMatRhsFWrap<MatFuncT>::print_signature(std::ostream& out
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
-    auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id); 
-    if (!is_rhs_func) std::swap(res[0], res[1]);
+    if (is_rhs_func) 
+        return m_f->operator()(args, res, w, iw, user_data, mem_id);
+    // the matrix is not needed, so it is stored at the beginning of the work memory    
+    Real* rhs = res[0];
+    res[0] = w, res[1] = rhs;
+    auto ret = m_f->operator()(args, res, w + m_f->out_nnz(0), iw, user_data, mem_id); 
+    res[0] = rhs;
     return ret;
 }
 template<typename MatFuncT>
-int RhsFromSystemFWrap<MatFuncT>::operator()(Memory mem) const { 
-    auto res = m_f->operator()(mem);
-    if (!is_rhs_func) std::swap(mem.m_res[0], mem.m_res[1]);
-    return res;
+int MatFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
+    if (is_mat_func)
+        return m_f->operator()(args, res, w, iw, user_data, mem_id);
+    // the right-hand side is not needed, so it is stored at the beginning of the work memory 
+    Real* mat = res[0];
+    res[1] = w;
+    auto ret = m_f->operator()(args, res, w + m_f->out_nnz(1), iw, user_data, mem_id); 
+    res[0] = mat;
+    return ret;
 }
 
 } //end namespace internals
-- 
2.43.0


From 64c2c563421b58cc7f9c6c7b6b37b1b43b1f022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 092/109] fix: the permuted index of a symmetric degree of
 freedom addresses the global unknown, not the place in the local matrix

---
 anifem++/inmost_interface/assembler.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index eadfbf9..37c31a6 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -160,8 +160,8 @@ bool AssemblerT<Traits>::fill_assemble_templates(
             auto reordered_lsid = DofT::DofSymmetries::index_on_reorderd_elem(tl.etype, tl.nelem, tl.stype, tl.lsid, canonical_node_indexes); 
             auto elem = INMOST::Element(m, h[edim][tl.nelem]);
             bool is_active = (elem.GetStatus() != INMOST::Element::Ghost);
-            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id);
-            indexes[i - tl.lsid + reordered_lsid] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
+            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id - tl.lsid + reordered_lsid);
+            indexes[i] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
             if (is_active) has_active = true;
         }
         return has_active;
-- 
2.43.0


From 9f18baaf6f52a9b3eb25a77be98dcc7031dde387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 093/109] fix: rows of ghost elements are skipped when test and
 trial spaces differ

---
 anifem++/inmost_interface/assembler.inl | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 37c31a6..680ba5a 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -168,17 +168,16 @@ bool AssemblerT<Traits>::fill_assemble_templates(
     };
     bool has_active = set_indexes(orderC, indexesC, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ return m_enum.OrderC(ind); });
     if (!is_same_template){
-        auto has_active1 = set_indexes(orderR, indexesR, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ return m_enum.OrderR(ind); });
+        auto has_active1 = set_indexes(orderR, indexesR, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ return m_enum.OrderC(ind); });
         has_active = has_active || has_active1;
-    } else {
+    } else
         std::copy(indexesC.begin(), indexesC.end(), indexesR.begin());
-        for (std::size_t i = 0; i < orderC.size(); ++i){
-            OrderTempl tl = orderC[i];
-            auto edim = DofT::GeomTypeDim(tl.etype);
-            auto elem = INMOST::Element(cell.GetMeshLink(), h[edim][tl.nelem]);
-            if (elem.GetStatus() == INMOST::Element::Ghost)
-                indexesR[i] = internals::CODE_UNDEF;
-        }
+    for (std::size_t i = 0; i < orderR.size(); ++i){
+        OrderTempl tl = orderR[i];
+        auto edim = DofT::GeomTypeDim(tl.etype);
+        auto elem = INMOST::Element(cell.GetMeshLink(), h[edim][tl.nelem]);
+        if (elem.GetStatus() == INMOST::Element::Ghost)
+            indexesR[i] = internals::CODE_UNDEF;
     }
     return has_active;
 }
-- 
2.43.0


From 0788ac6ea890abbe82600e701ad5122754270b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 094/109] fix: memory of separate functions of matrix and
 right-hand side

---
 anifem++/inmost_interface/assembler.inl | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 680ba5a..4bb508d 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -997,23 +997,20 @@ void SystemFromMatRhsFWrap<MatFuncT>::release_memory(Int mem_id) {
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::defragment_memory(Int mem_id){ 
-    auto ids = decode_id(mem_id);
-    m_mat->defragment_memory(m_rhs ? ids.first : mem_id);
+    // both functions are called with the same mem_id, see operator()
+    m_mat->defragment_memory(mem_id);
     if (m_rhs)
-        m_rhs->defragment_memory(ids.second);
+        m_rhs->defragment_memory(mem_id);
 }
 template<typename MatFuncT>
 std::pair<typename SystemFromMatRhsFWrap<MatFuncT>::Int, typename SystemFromMatRhsFWrap<MatFuncT>::Int> SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory_range(Int num_threads){ 
     auto id1 = m_mat->setup_and_alloc_memory_range(num_threads); 
-    std::pair<Int, Int> id2{0, 0};
-    if (id1.first >= 0 && id1.second >= 0 && m_rhs){
-        id2 = m_rhs->setup_and_alloc_memory_range(num_threads);
-        if (id2.first < 0 || id2.second < 0){
-            m_mat->release_memory_range(id1);
-            return id2;
-        }
-    }
-    return {encode_id(id1.first, id2.first), encode_id(id1.second, id2.second)};
+    if (!m_rhs) 
+        return id1;
+    auto id2 = m_rhs->setup_and_alloc_memory_range(num_threads);
+    // a function without internal memory returns a negative identificator
+    auto encode = [](Int i1, Int i2){ return encode_id(std::max(i1, Int(0)), std::max(i2, Int(0))); };
+    return {encode(id1.first, id2.first), encode(id1.second, id2.second)};
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::release_memory_range(std::pair<Int, Int> id_range){ 
-- 
2.43.0


From b9a572fdc1b0e60531d893461db0d8e48834bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 095/109] fix: the assembler gathers data of the trial
 functions

---
 anifem++/inmost_interface/assembler.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 4bb508d..608e357 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -858,9 +858,9 @@ void AssemblerT<Traits>::GatherDataOnElement(const INMOST::Tag* var_tag, const s
     INMOST::ElementArray<INMOST::Node> nds(m, 4); 
     INMOST::ElementArray<INMOST::Edge> eds(m, 6); 
     INMOST::ElementArray<INMOST::Face> fcs(m, 4);
-    const bool prep_ef = m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
+    const bool prep_ef = m_info.TrialFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
     collectConnectivityInfo(cell, nds, eds, fcs, true, prep_ef);
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TrialFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
     if (comp_node_perm){
         std::array<long, 4> gni;
@@ -868,7 +868,7 @@ void AssemblerT<Traits>::GatherDataOnElement(const INMOST::Tag* var_tag, const s
             gni[i] = m_enum.GNodeIndex(nds[i]);
         canonical_node_indexes = createOrderPermutation(gni.data());    
     }
-    Ani::GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tag, ntags, m_info.TestFuncs(), cell, fcs, eds, nds, canonical_node_indexes.data(), out, component, ncomp);
+    Ani::GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tag, ntags, m_info.TrialFuncs(), cell, fcs, eds, nds, canonical_node_indexes.data(), out, component, ncomp);
 }
 template <typename Traits>
 template<bool OnlyIfDataAvailable, class RandomIt>
@@ -877,9 +877,9 @@ void AssemblerT<Traits>::GatherDataOnElement(INMOST::Tag from, const INMOST::Cel
     INMOST::ElementArray<INMOST::Node> nds(m, 4); 
     INMOST::ElementArray<INMOST::Edge> eds(m, 6); 
     INMOST::ElementArray<INMOST::Face> fcs(m, 4);
-    const bool prep_ef = m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
+    const bool prep_ef = m_info.TrialFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE);
     collectConnectivityInfo(cell, nds, eds, fcs, true, prep_ef);
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TrialFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
     if (comp_node_perm){
         std::array<long, 4> gni;
@@ -887,7 +887,7 @@ void AssemblerT<Traits>::GatherDataOnElement(INMOST::Tag from, const INMOST::Cel
             gni[i] = m_enum.GNodeIndex(nds[i]);
         canonical_node_indexes = createOrderPermutation(gni.data());    
     }
-    Ani::GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(from, m_info.TestFuncs(), cell, fcs, eds, nds, canonical_node_indexes.data(), out, component, ncomp);
+    Ani::GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(from, m_info.TrialFuncs(), cell, fcs, eds, nds, canonical_node_indexes.data(), out, component, ncomp);
 }
 
 #ifndef NO_ASSEMBLER_TIMERS
-- 
2.43.0


From de953b3c5e34d8b7dfa7923b2f90d79cae2dfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 096/109] fix: a cell skipped by the problem handler adds
 nothing

---
 anifem++/inmost_interface/elemental_assembler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/elemental_assembler.cpp b/anifem++/inmost_interface/elemental_assembler.cpp
index 87e5740..2e90e2d 100644
--- a/anifem++/inmost_interface/elemental_assembler.cpp
+++ b/anifem++/inmost_interface/elemental_assembler.cpp
@@ -111,9 +111,9 @@ void ElementalAssembler::update() {
         }
     }
     if (loc_m.m_dat)
-        std::fill(loc_m.m_dat, loc_m.m_dat + loc_m.m_sp.m_nnz, 0);
+        std::fill(loc_m.m_dat, loc_m.m_dat + loc_m.m_sp.m_sz1*loc_m.m_sp.m_sz2, 0);
     if (loc_rhs.m_dat)
-        std::fill(loc_rhs.m_dat, loc_rhs.m_dat + loc_rhs.m_sp.m_nnz, 0);
+        std::fill(loc_rhs.m_dat, loc_rhs.m_dat + loc_rhs.m_sp.m_sz1*loc_rhs.m_sp.m_sz2, 0);
 }
 double* ElementalAssembler::get_nodes() { return &_nn_p[0][0]; }
 const double* ElementalAssembler::get_nodes() const { return &_nn_p[0][0]; }
-- 
2.43.0


From 482d91e86be58174e34aa7ff23b85c1a0d0862df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:28 +0000
Subject: [PATCH 097/109] fix: order of the nodes is computed if only the test
 functions have symmetric degrees of freedom

---
 anifem++/inmost_interface/assembler.h   |  1 +
 anifem++/inmost_interface/assembler.inl | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 449505f..0165835 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -440,6 +440,7 @@ private:
     void resize_work_memory(int size);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes, bool is_same_template);
+    bool is_node_permutation_required() const;
     int _return_assembled_status(int nthreads);
     internals::SystemFromMatRhsFWrap<typename Traits::MatFuncT> generate_mat_rhs_func();
     internals::MatFromSystemFWrap<typename Traits::MatFuncT> generate_mat_func();
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 608e357..7b22073 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -189,6 +189,20 @@ bool AssemblerT<Traits>::fill_assemble_templates(
     return fill_assemble_templates(nodes, edges, faces, cell, indexesC, indexesR, canonical_node_indexes, m_helpers[0].same_template);
 }
 
+template <typename Traits>
+bool AssemblerT<Traits>::is_node_permutation_required() const {
+    if (!m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT)))
+        return true;
+    for (unsigned etnum = 0; etnum < DofT::NGEOM_TYPES; ++etnum) {
+        auto etype = DofT::NumToGeomType(etnum);
+        if (!(m_info.TestFuncs().GetGeomMask() & etype)) continue;
+        auto smask = m_info.TestFuncs().SymComponents(etype);
+        if (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1))
+            return true;
+    }
+    return false;
+}
+
 template <typename Traits>
 void AssemblerT<Traits>::PrepareProblem(){
     if (!m_mesh) throw std::runtime_error("Mesh was not specified");
@@ -198,6 +212,7 @@ void AssemblerT<Traits>::PrepareProblem(){
         m_enum.setVars(m_info.TrialFuncs());
         m_enum.setup();
     }
+    if (is_node_permutation_required() && !m_mesh->HaveGlobalID(INMOST::NODE)) m_mesh->AssignGlobalID(INMOST::NODE);
     if (!m_init_value_setter) TryZeroInit<typename Traits::InitValueSetter>{}(m_init_value_setter);
 
     int nRows = m_info.TrialFuncs().NumDofOnTet(); //4*nd[0] + 6*nd[1] + 4*nd[2] + nd[3];
@@ -322,7 +337,7 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     auto func_internal_mem_ids = func.setup_and_alloc_memory_range(nthreads);
     const bool reord_nds = m_assm_traits.reorder_nodes;
     const bool prep_ef = (m_assm_traits.prepare_edges || m_assm_traits.prepare_faces) || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE));
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = is_node_permutation_required();
     for (int i = 0; i < nthreads; ++i) m_wm[i].status = 0;
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
@@ -496,7 +511,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
     auto func_internal_mem_ids = func.setup_and_alloc_memory_range(nthreads);
     const bool reord_nds = m_assm_traits.reorder_nodes;
     const bool prep_ef = (m_assm_traits.prepare_edges || m_assm_traits.prepare_faces) || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE));
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = is_node_permutation_required();
     for (int i = 0; i < nthreads; ++i) m_wm[i].status = 0;
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
@@ -594,7 +609,7 @@ int AssemblerT<Traits>::AssembleTemplate(INMOST::Sparse::Matrix &matrix){
     auto func_internal_mem_ids = func.setup_and_alloc_memory_range(nthreads);
     const bool reord_nds = m_assm_traits.reorder_nodes;
     const bool prep_ef = (m_assm_traits.prepare_edges || m_assm_traits.prepare_faces) || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE));
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = is_node_permutation_required();
     for (int i = 0; i < nthreads; ++i) m_wm[i].status = 0;
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
@@ -718,7 +733,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
     auto func_internal_mem_ids = func.setup_and_alloc_memory_range(nthreads);
     const bool reord_nds = m_assm_traits.reorder_nodes;
     const bool prep_ef = (m_assm_traits.prepare_edges || m_assm_traits.prepare_faces) || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE|DofT::FACE));
-    const bool comp_node_perm = !m_enum.areVarsTriviallySymmetric() || (m_info.TestFuncs().GetGeomMask() & (DofT::EDGE_ORIENT|DofT::FACE_ORIENT));
+    const bool comp_node_perm = is_node_permutation_required();
     for (int i = 0; i < nthreads; ++i) m_wm[i].status = 0;
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
-- 
2.43.0


From 936209992f9ee7193dcc580627bf3ca07ea7aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 098/109] fix: reordering of mesh function data left oriented
 degrees of freedom without change of sign

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index e9abd67..3012a66 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -358,7 +358,8 @@ namespace Ani{
         Mesh* m = ts[0].GetMeshLink();
         uint nontrivial_symmetry_geom_mask = DofT::UNDEF;
         for (uint geom_num = 0; geom_num < DofT::NGEOM_TYPES; ++geom_num)
-            if (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+            if ((dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)))
+                || ((DofT::NumToGeomType(geom_num) & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT)) && dmap.NumDof(DofT::NumToGeomType(geom_num)) > 0))
                 nontrivial_symmetry_geom_mask |= DofT::NumToGeomType(geom_num);
         if (nontrivial_symmetry_geom_mask == DofT::UNDEF) return; 
         auto gmask = GeomMaskToInmostElementType(nontrivial_symmetry_geom_mask);
@@ -395,7 +396,7 @@ namespace Ani{
                 auto st_data = tv.data() + elem_data_shift[ielem_type_num];
                 for (std::size_t i = 0; i < inum_dofs[ielem_type_num]; ++i){
                     std::copy(st_data + block_sz*(abs(reord[i])-1), st_data + block_sz*abs(reord[i]), r.data() + block_sz*i);
-                    if (reord[i] < 0) std::for_each(r.data() + block_sz*i, r.data() + block_sz*(i+1), std::negate<double>());
+                    if (reord[i] < 0) std::transform(r.data() + block_sz*i, r.data() + block_sz*(i+1), r.data() + block_sz*i, std::negate<double>());
                 }
                 std::copy(r.data(), r.data() + block_sz*inum_dofs[ielem_type_num], st_data);
             }
-- 
2.43.0


From 582b7656003b6877f61e0c8ec489b6f62c99b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 099/109] fix: assembling type NOSPECIFIED was accepted and the
 current type was refused instead

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index c64508b..b425504 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -407,7 +407,7 @@ struct GlobEnumeration: public IGlobEnumeration{
     T* base(){ return reinterpret_cast<T*>(m_invoker.get()); }
     template<typename T = IGlobEnumeration>
     const T* base() const { return reinterpret_cast<T*>(m_invoker.get()); }
-    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (m_t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
+    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
     ASSEMBLING_TYPE getAssemblingType() const { return m_t; }
     GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ return m_invoker = std::move(base), *this; }
     template<typename GlobEnumerationT>
-- 
2.43.0


From 362e769bb990004bef85edbb41699160df824172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 100/109] fix: copies by enumeration lost values behind more
 than 255 degrees of freedom on an entity

---
 anifem++/inmost_interface/global_enumerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 61f5939..cd6142f 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -97,7 +97,7 @@ void PGE::CopyByEnumeration(INMOST::Tag from, std::vector<INMOST::Tag> to) const
                      k_shft = vars.m_spaceNumDof[etnum][v],
                      k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                         k < k_sz; ++k){
-                    unsigned char tshift = 0, tvshift = 0;
+                    uint tshift = 0, tvshift = 0;
                     for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                         tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                         tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -128,7 +128,7 @@ void PGE::CopyByEnumeration(const std::vector<INMOST::Tag>& from, INMOST::Tag to
                      k_shft = vars.m_spaceNumDof[etnum][v],
                      k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                         k < k_sz; ++k){
-                    unsigned char tshift = 0, tvshift = 0;
+                    uint tshift = 0, tvshift = 0;
                     for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                         tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                         tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -172,7 +172,7 @@ void PGE::CopyVarByEnumeration(INMOST::Tag from, INMOST::Tag to, int v) const {
                     k_shft = vars.m_spaceNumDof[etnum][v],
                     k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                     k < k_sz; ++k){
-                unsigned char tshift = 0, tvshift = 0;
+                uint tshift = 0, tvshift = 0;
                 for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                     tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                     tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
@@ -199,7 +199,7 @@ void PGE::CopyVarByEnumeration(const INMOST::Tag from, int v, INMOST::Tag to) co
                     k_shft = vars.m_spaceNumDof[etnum][v],
                     k_sz = vars.m_spaceNumDof[etnum][v+1] - vars.m_spaceNumDof[etnum][v]; 
                     k < k_sz; ++k){
-                unsigned char tshift = 0, tvshift = 0;
+                uint tshift = 0, tvshift = 0;
                 for (int lt = etnum_lookup_prt[dim]; lt < etnum; ++lt){
                     tshift += vars.m_spaceNumDof[lt][vars.NumVars()];
                     tvshift += vars.m_spaceNumDof[lt][v+1] - vars.m_spaceNumDof[lt][v];
-- 
2.43.0


From cdf3b657e5e8caf218229db4863030238073199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 101/109] fix: a cleared GlobEnumeration kept its mesh, so that
 a cleared assembler used a numbering which did not exist

---
 anifem++/inmost_interface/global_enumerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index b425504..92fc13c 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -416,7 +416,7 @@ struct GlobEnumeration: public IGlobEnumeration{
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
     INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return m_invoker->GNodeIndex(n); }
-    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); }
+    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); IGlobEnumeration::Clear(); }
     EnumerateIndex OrderC (const NaturalIndex& physIndex) const override { return m_invoker->OrderC(physIndex); }
     EnumerateIndex operator()(const NaturalIndex& physIndex) const override { return m_invoker->operator()(physIndex); }
     NaturalIndex operator()(EnumerateIndex vi) const override { return m_invoker->operator()(vi); }
-- 
2.43.0


From 6e0ef3a4bd0dbcae60eafbb61e33e481ee76f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:47 +0000
Subject: [PATCH 102/109] fix: eval_op_var_by_barycentric_points orders
 symmetric degrees of freedom by the global numbers of nodes

---
 anifem++/utils/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 6ed79ec..a1eaea8 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -137,7 +137,9 @@ void eval_op_var_by_barycentric_points(Ani::DenseMatrix<> out/*Dim x N*/, Ani::D
     collectConnectivityInfo(c, nds.data(), eds.data(), fcs.data(), true, prep_ef);
 
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
-    const bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned i = 0; i < DofT::NGEOM_TYPES && !comp_node_perm; ++i) // nontrivially symmetric dofs depend on the order of nodes too
+        comp_node_perm = (dmap.GetGeomMask() & DofT::NumToGeomType(i)) && (dmap.SymComponents(DofT::NumToGeomType(i)) >> 1);
     if (comp_node_perm){
         std::array<long, 4> gni;
         for (int i = 0; i < 4; ++i)
-- 
2.43.0


From 192bc7e91359d76e23d75c904e4e61110156e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:48 +0000
Subject: [PATCH 103/109] fix: construct_metrics orders symmetric degrees of
 freedom by the global numbers of nodes

---
 anifem++/utils/adapt_mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 21326d3..4a20ea9 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -593,7 +593,9 @@ void construct_metrics(FemSpace fem, Tag var, Tag& metrics, MetricsConstructTrai
     const auto grad_op = fem.getOP(GRAD);
     const int quad_order = std::max(1, traits.max_quad_order);
     const bool prep_ef = dmap.GetGeomMask() & (DofT::EDGE | DofT::FACE);
-    const bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned i = 0; i < DofT::NGEOM_TYPES && !need_node_perm; ++i) // nontrivially symmetric dofs depend on the order of nodes too
+        need_node_perm = (dmap.GetGeomMask() & DofT::NumToGeomType(i)) && (dmap.SymComponents(DofT::NumToGeomType(i)) >> 1);
 
     {
         const char* tmp_name = "___tmp_cell_absH_svals";
-- 
2.43.0


From 4df899d4b91506872a7a92d8c79e44829b44d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:48 +0000
Subject: [PATCH 104/109] fix: print_linear_solver_status wrote before its
 buffer for 1000 and more iterations

---
 anifem++/utils/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index a1eaea8..c7a757a 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -89,8 +89,10 @@ void print_linear_solver_status(INMOST::Solver& s, const std::string& prob_name,
     else{
         if(pRank == 0) {
             std::cout << prob_name << ":\n";
-            std::string _s_its = std::to_string(s.Iterations()), s_its = "    ";
-            std::copy(_s_its.begin(), _s_its.end(), s_its.begin() + 3 - _s_its.size());
+            std::string s_its = std::to_string(s.Iterations());
+            if (s_its.size() < 3)
+                s_its.insert(0, 3 - s_its.size(), ' ');
+            s_its += ' ';
 
             std::cout << "\tsolved_succesful: #lits " << s_its << " residual " << s.Residual() << ", "
                       << "preconding = " << s.PreconditionerTime() << "s, solving = " << s.IterationsTime() << "s" << std::endl;
-- 
2.43.0


From e67071ead43b89554e178a9a4a3973f9070394e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:48 +0000
Subject: [PATCH 105/109] fix: solve_stationary_diffusion applies the Neumann
 condition for spaces without degrees of freedom on faces

---
 anifem++/utils/utils.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index c7a757a..72606c8 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -403,13 +403,16 @@ void solve_stationary_diffusion(
         if (geom_mask & DofT::EDGE)
             for (unsigned i = 0; i < 6U; ++i) if (is_dirichlet((*p.edges)[i]))
                 data.sp.setEdge(i);
-        if (geom_mask & DofT::FACE)
-            for (unsigned i = 0; i < 4U; ++i) {
-                if (is_dirichlet((*p.faces)[i]))
+        for (unsigned i = 0; i < 4U; ++i) {
+            const bool is_boundary = (*p.faces)[i].GetMarker(bmrk);
+            if (!is_boundary && !(geom_mask & DofT::FACE))
+                continue;
+            if (is_dirichlet((*p.faces)[i])) {
+                if (geom_mask & DofT::FACE)
                     data.sp.setFace(i);
-                else if ((*p.faces)[i].GetMarker(bmrk))
-                    data.is_neumann |= (1 << i);
-            }
+            } else if (is_boundary)
+                data.is_neumann |= (1 << i);
+        }
         if ((geom_mask & DofT::CELL) && is_dirichlet(*p.cell) )
             data.sp.setCell();
         data.node_permutation = p.node_permutation;
-- 
2.43.0


From f86fee4f5d4b8276f3fe29d982ba8a8fe8e67361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:48 +0000
Subject: [PATCH 106/109] fix: GenerateParallelepiped split the cells so that
 processes left the box

---
 anifem++/utils/mesh_utils.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/anifem++/utils/mesh_utils.cpp b/anifem++/utils/mesh_utils.cpp
index f21a92a..fe020b2 100644
--- a/anifem++/utils/mesh_utils.cpp
+++ b/anifem++/utils/mesh_utils.cpp
@@ -91,20 +91,11 @@ std::unique_ptr<Mesh> GenerateParallelepiped(INMOST_MPI_Comm comm, std::array<un
     unsigned proc_coords[3] = {rank % procs_per_axis[0] , rank / procs_per_axis[0] % procs_per_axis[1], rank / (procs_per_axis[0] *procs_per_axis[1]) };
 
     unsigned localsize[3], localstart[3], localend[3];
-    unsigned avgsize[3] =
-            {
-                    (unsigned)ceil((double)sizes[0]/procs_per_axis[0]),
-                    (unsigned)ceil((double)sizes[1]/procs_per_axis[1]),
-                    (unsigned)ceil((double)sizes[2]/procs_per_axis[2])
-            };
-
     for(int j = 0; j < 3; j++)
     {
-        localstart[j] = avgsize[j] * proc_coords[j];
-        if( proc_coords[j] == procs_per_axis[j] - 1 )
-            localsize[j] = sizes[j] - avgsize[j] * (procs_per_axis[j]-1);
-        else localsize[j] = avgsize[j];
-        localend[j] = localstart[j] + localsize[j];
+        localstart[j] = (unsigned)((unsigned long long)sizes[j] * proc_coords[j] / procs_per_axis[j]);
+        localend[j] = (unsigned)((unsigned long long)sizes[j] * (proc_coords[j] + 1) / procs_per_axis[j]);
+        localsize[j] = localend[j] - localstart[j];
     }
 
     // Create i-j-k structure of nodes
-- 
2.43.0


From e9c90f17ad9541299a51685c33d1953fe5046beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 107/109] fix: construct_metrics bounded the anisotropy of a
 bounded metric again depending on rounding

---
 anifem++/utils/adapt_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 4a20ea9..e8ad791 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -184,7 +184,8 @@ inline bool clamp_evals(SpectrumInfo& s, const MetricsConstructTraits& tr) {
     sort_eigen_asc(s.eval, s.Q);
 
     const double R = std::max(tr.M_lambda_max_rel, 1.0);
-    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R) {
+    // a spectrum compressed before has the ratio R up to rounding and must not be compressed again
+    if (s.eval[0] > kEigenEps && s.eval[2] / s.eval[0] > R * (1.0 + 1e-10)) {
         const double g = std::cbrt(s.eval[0] * s.eval[1] * s.eval[2]);
         const double lo = 1.0 / std::sqrt(R);
         const double hi = std::sqrt(R);
-- 
2.43.0


From 486d82ca3a6d689b19e6401a0e2196f8d8d543b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:58 +0000
Subject: [PATCH 108/109] fix: jacobi_symmetric_eigen took small matrices for
 diagonal ones and did not converge if no element exceeded the tolerance alone

---
 anifem++/fem/geometry.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 7837ee8..48127c0 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -510,7 +510,10 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            Scalar norm = 0;
+            for (int i = 0; i < n*n; ++i)
+                norm = std::max(norm, Scalar(std::fabs(sym[i])));
+            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon() * norm;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
@@ -525,13 +528,14 @@ namespace Ani{
                 for (int p = 0; p < n; ++p){
                     for (int q = p + 1; q < n; ++q){
                         Scalar apq = sym[p + q*n];
-                        if (std::fabs(apq) <= tol)
+                        if (apq == 0)
                             continue;
                         Scalar app = sym[p + p*n];
                         Scalar aqq = sym[q + q*n];
-                        Scalar theta = Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app);
-                        Scalar c = std::cos(theta);
-                        Scalar s = std::sin(theta);
+                        Scalar tau = (aqq - app) / (Scalar(2) * apq);
+                        Scalar t = ((tau >= 0) ? 1 : -1) / (std::fabs(tau) + std::sqrt(1 + tau * tau));
+                        Scalar c = 1 / std::sqrt(1 + t * t);
+                        Scalar s = c * t;
 
                         for (int k = 0; k < n; ++k){
                             if (k == p || k == q)
-- 
2.43.0


From 2ca018edaa8454f029d9d4da887ae0dffc8a8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:45 +0000
Subject: [PATCH 109/109] fix: GenerateParallelepiped creates no nodes on a
 process without cells

---
 anifem++/utils/mesh_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/mesh_utils.cpp b/anifem++/utils/mesh_utils.cpp
index fe020b2..53748e8 100644
--- a/anifem++/utils/mesh_utils.cpp
+++ b/anifem++/utils/mesh_utils.cpp
@@ -102,7 +102,8 @@ std::unique_ptr<Mesh> GenerateParallelepiped(INMOST_MPI_Comm comm, std::array<un
     ElementArray<Node> newverts(m);
     newverts.reserve(localsize[0]*localsize[1]*localsize[2]);
 
-    for(unsigned i = localstart[0]; i <= localend[0]; i++)
+    const bool has_cells = localsize[0] > 0 && localsize[1] > 0 && localsize[2] > 0;
+    for(unsigned i = localstart[0]; has_cells && i <= localend[0]; i++)
         for(unsigned j = localstart[1]; j <= localend[1]; j++)
             for(unsigned k = localstart[2]; k <= localend[2]; k++)
             {
-- 
2.43.0

