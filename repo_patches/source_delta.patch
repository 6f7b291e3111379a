From 7099658cc70ee49f9f00efcf38bb98eb2d9d373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 001/159] fix: boson_basis_general operator 'z' fell through
 into 'n' (missing break)

---
 .../basis_general/_basis_general_core/source/boson_basis_core.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
index af83059..e9de55f 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
@@ -137,6 +137,7 @@ class boson_basis_core : public general_basis_core<I,P>
 				switch(op){
 					case 'z':
 						me_diag *= (occ-S);
+						break;
 					case 'n':
 						me_diag *= occ;
 						break;
-- 
2.43.0


From f1f73a25413cb9d2368301bce5e2c53e200f18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 002/159] fix: Op_bra_ket of higher-spin general bases ignored
 reduce_output

---
 quspin/basis/basis_general/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 0f57775..3802d2c 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -370,6 +370,6 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 				n = len(opstr.replace("I","").replace("+","").replace("-",""))
 				ME *= (1<<n)
 		else:
-			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states)
+			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states,reduce_output=reduce_output)
 
 		return ME,bra,ket
-- 
2.43.0


From 9073a4699fede8620147662096a522ad4fde7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 003/159] fix: lists of particle numbers in spinless-fermion
 and higher-spin general bases kept only the last sector

---
 quspin/basis/basis_general/base_higher_spin.py | 5 +++--
 quspin/basis/basis_general/fermion.py          | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index f2ae598..0aca5e5 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -42,9 +42,10 @@ class higher_spin_basis_general(basis_general):
 				Np_iter = iter(Nup)
 			except TypeError:
 				raise TypeError("Nup must be integer or iteratable object.")
+			Nup = list(Np_iter)
 			self._Ns = 0
-			for Nup in Np_iter:
-				self._Ns += H_dim(Nup,N,sps-1)
+			for n in Nup:
+				self._Ns += H_dim(n,N,sps-1)
 
 			self._basis_dtype = get_basis_type(N,max(iter(Nup)),sps)
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index b1379d2..412521d 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -127,11 +127,12 @@ class spinless_fermion_basis_general(basis_general):
 				Np_iter = iter(Nf)
 			except TypeError:
 				raise TypeError("Nf must be integer or iterable object.")
+			Nf = list(Np_iter)
 			self._Ns = 0
-			for Nf in Np_iter:
-				if Nf > N or Nf < 0:
+			for n in Nf:
+				if n > N or n < 0:
 					raise ValueError("particle number Nf must satisfy: 0 <= Nf <= N")
-				self._Ns += comb(N,Nf,exact=True)
+				self._Ns += comb(N,n,exact=True)
 
 		self._pcon_args = dict(N=N,Nf=Nf)
 
-- 
2.43.0


From 5482aedf3cbd430aaa4a5f5abdb7fe36343b8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 004/159] fix: boson_basis_1d with cblock and Nb raised
 NameError

---
 quspin/basis/basis_1d/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index cd7ba90..9cdbb1b 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -188,7 +188,7 @@ class boson_basis_1d(basis_1d):
 
 				if (L*(self.sps-1) % 2) != 0:
 					raise ValueError("spin inversion/particle-hole symmetry with particle/magnetization conservation must be used with chains with 0 magnetization sector or at half filling")
-				if Np != L*(self.sps-1)//2:
+				if Nb != L*(self.sps-1)//2:
 					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 			if (Nb_list is not None) and ((type(zAblock) is int) or (type(zBblock) is int)):
-- 
2.43.0


From 68f1bb235cbd72ec19cb56fea445f06cd0fe5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 005/159] fix: boson_basis_1d ignored the pcblock symmetry

---
 quspin/basis/basis_1d/boson.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 9cdbb1b..0458b47 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -154,7 +154,7 @@ class boson_basis_1d(basis_1d):
 		pzblock = blocks.get("pcblock")
 		a = blocks.get("a")
 
-		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock]):
+		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock,pzblock]):
 			raise ValueError("particle hole symmetry doesn't exist with sps > 2.")
 
 		if type(zblock) is int:
@@ -169,6 +169,10 @@ class boson_basis_1d(basis_1d):
 			del blocks["cBblock"]
 			blocks["zBblock"] = zBblock
 
+		if type(pzblock) is int:
+			del blocks["pcblock"]
+			blocks["pzblock"] = pzblock
+
 		if (type(pblock) is int) and (type(zblock) is int):
 			blocks["pzblock"] = pblock*zblock
 			self._blocks["pcblock"] = pblock*zblock
-- 
2.43.0


From 31cdd2bf996b6083ab64e66b5325a3a05d40b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 006/159] fix: zA/zB (cA/cB) blocks of 1D bases acted on the
 wrong sublattice for even L

---
 quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx | 4 ++--
 quspin/basis/basis_1d/boson.py                                | 4 ++--
 quspin/basis/basis_1d/spin.py                                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
index e3b377a..c505126 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
@@ -137,7 +137,7 @@ cdef basis_type flip_sublat_A(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
 
-        if i%2==0: # flip site occupation
+        if (length-1-i)%2==0: # flip site occupation
             v += ( sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
@@ -179,7 +179,7 @@ cdef basis_type flip_sublat_B(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
         
-        if i%2==1: # flip site occupation
+        if (length-1-i)%2==1: # flip site occupation
             v += (sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 0458b47..8d8ce0f 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -207,8 +207,8 @@ class boson_basis_1d(basis_1d):
 
 		if self._sps <= 2:
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B] # set sign to not be calculated
 			self._operators = ("availible operators for boson_basis_1d:"+
 								"\n\tI: identity "+
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index f51d36d..2d501b6 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -208,8 +208,8 @@ class spin_basis_1d(basis_1d):
 				raise ValueError("Invalid value for optional argument pauli. Allowed values are the integers [-1,0,1].")
 
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B]
 			self._operators = ("availible operators for spin_basis_1d:"+
 								"\n\tI: identity "+
-- 
2.43.0


From b30e8245dcef1605ec8485ae465e6b6925a8e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 007/159] fix: reference state of 1D parity*inversion sectors
 dropped the fermion sign

---
 quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
index f3bf8cd..736fd6a 100755
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
@@ -53,6 +53,7 @@ cdef basis_type RefState_PZ_template(basis_type s,int L, NP_INT8_t * sign, int *
     t = fliplr(s,L,&current_sign,bitop_pars)
     t = flip_all(t,L,&current_sign,bitop_pars)
     if t > s:
+        sign[0] = current_sign
         R[0] = 1
         return t
 
-- 
2.43.0


From ac229b66dd3460451cfbb404559f26f588d0cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 008/159] fix: general get_proj(pcon=True) returned the
 full-space projector when no single particle sector is set

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index cc897d9..31a234b 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -465,7 +465,7 @@ class basis_general(lattice_basis):
 
 			basis_pcon = self._basis_pcon._basis
 			Ns_full = basis_pcon.shape[0]
-		elif pcon and self._get_proj_pcon:
+		elif pcon and not self._get_proj_pcon:
 			raise TypeError("pcon=True only works for basis of a single particle number sector.")
 
 		sign = _np.ones_like(self._basis,dtype=_np.int8)
-- 
2.43.0


From 69e606d0e9e6a9b6a5a7e25238a6e49e6424ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:26 +0000
Subject: [PATCH 009/159] fix: general project_to(sparse=True) used the
 transpose instead of the adjoint of the projector

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 31a234b..d324dc1 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -562,7 +562,7 @@ class basis_general(lattice_basis):
 
 		if sparse:
 			# current work-around for sparse
-			return self.get_proj(v0.dtype,pcon=pcon).T.dot(_sp.csr_matrix(v0))
+			return self.get_proj(v0.dtype,pcon=pcon).T.conj().dot(_sp.csr_matrix(v0))
 		else:
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
-- 
2.43.0


From bad8ddd8ed9435c37a2878542bbcb0b3eb50758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:26 +0000
Subject: [PATCH 010/159] fix: general project_to(pcon=True) used the wrong
 phase and recursed into project_from (heap corruption)

---
 .../_basis_general_core/source/general_basis_get_vec.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index beeb719..854ebd0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -295,11 +295,11 @@ bool project_to_rep_basis(general_basis_core<I,P> *B,
 	}
 	int per = B->pers[depth];
 	double q = (2.0*M_PI*B->qs[depth])/per;
-	std::complex<double> cc = std::exp(std::complex<double>(0,-q));
+	std::complex<double> cc = std::exp(std::complex<double>(0,q));
 
 	if(depth < nt-1){
 		for(int j=0;j<per && err;j++){
-			err = project_from_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
+			err = project_to_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
 			c *= cc;
 			s = B->map_state(s,depth,phase);
 		}
-- 
2.43.0


From fc53466dea82e7b14b317aec531978aaec4d7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 011/159] fix: bit_count over a full 32/64-bit word shifted by
 -1 and counted nothing

---
 quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h       | 4 ++--
 .../basis_general/_basis_general_core/source/bits_info.h      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
index b70ee4a..0e9c882 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/bitcount.h
@@ -5,7 +5,7 @@
 
 
 int bitcount_32_C(npy_uint32 i,int l) {
-	i = i & ((0x7FFFFFFF) >> (31 - l));
+	if(l < 32) i = i & ((0x7FFFFFFF) >> (31 - l));
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcount(i);
 	#else
@@ -16,7 +16,7 @@ int bitcount_32_C(npy_uint32 i,int l) {
 }
 
 int bitcount_64_C(npy_uint64 i, int l) {
-	i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
+	if(l < 64) i = i & ((0x7FFFFFFFFFFFFFFF) >> (63 - l));
 	#if defined(__GNUC__) || defined(__GNUG__)
 		return __builtin_popcountll(i);
 	#else
diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 6c85af4..28849a9 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -118,7 +118,8 @@ typename bit_info<T>::bit_index_type bit_pos(T x, typename bit_info<T>::bit_inde
 
 template<class T>
 int inline bit_count(T v,int l){
-  v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  if(l < (int)bit_info<T>::bits)
+    v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
-- 
2.43.0


From 94c9c0d7c7dc27ff5c7654dead4fc862e115bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 012/159] fix: state_to_int of 1D bases raised TypeError for
 states listed twice (semi-momentum sectors)

---
 quspin/basis/basis_1d/base_1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a1b101a..16d4223 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -543,7 +543,8 @@ class basis_1d(lattice_basis):
 			return s_str.replace(' ', '')
 
 	def _state_to_int(self,state):		
-		return int(self._basis[self.index(state)])
+		# a state can be listed more than once (semi-momentum bases)
+		return int(self._basis[_np.atleast_1d(self.index(state))[0]])
 
 	def _index(self,s):
 		if int(s)==s:
-- 
2.43.0


From b29e6d9a4f6d9a0fdf2e2d7b20ed5b0cb2e6f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 013/159] fix: Op_shift_sector dropped phase and sign when an
 operator maps a state into its own orbit

---
 .../_basis_general_core/source/general_basis_op.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 71a530e..9f31d11 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1170,7 +1170,8 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
             if(local_err == 0){
                 P sign = 1;
 
-                if(r != s){ // off-diagonal matrix element
+                const bool not_diag = (r != s);
+                if(not_diag){ // off-diagonal matrix element
                     for(int k=0;k<nt;k++){g[k]=0;}
                     r = B_out->ref_state(r,g,sign);
                 }
@@ -1179,7 +1180,7 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
                 if(j>=0){ // ref_state is a representative
 
-                    if(r != s){
+                    if(not_diag){ // the representative may be s itself
                         double q = 0;
                         for(int k=0;k<nt;k++){
                             q += kk[k]*g[k];                              
-- 
2.43.0


From 298ab804ac1b04ba356446ed99821acd11bed7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 014/159] fix: Op_bra_ket used uninitialised symmetry powers
 and (pcon) accepted states with rounding-level norm

---
 .../_basis_general_core/source/general_basis_op.h     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 9f31d11..ab8d0e4 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1257,6 +1257,7 @@ int general_op_bra_ket(general_basis_core<I,P> *B,
                 P sign = 1;
 
                 if(r != s){ // off-diagonal matrix element
+                    for(int k=0;k<nt;k++){g[k]=0;}
                     r = B->ref_state(r,g,sign);
                     // use check_state to determine if state is a representative (same routine as in make-general_basis)
                     double norm_r = B->check_state(r);
@@ -1342,6 +1343,7 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
 
 
                 if(r != s){ // off-diagonal matrix element
+                    for(int k=0;k<nt;k++){g[k]=0;}
                     r = B->ref_state(r,g,sign);
 
                     bool pcon_bool = B->check_pcon(r,Np_set_local);
@@ -1350,8 +1352,9 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
 
                         // use check_state to determine if state is a representative (same routine as in make-general_basis)
                         double norm_r = B->check_state(r);
+                        npy_intp int_norm = norm_r;
 
-                        if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+                        if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
                             for(int k=0;k<nt;k++){
                                 double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
@@ -1379,12 +1382,6 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                     
                 }
                 else{ // diagonal matrix element
-
-                    for(int k=0;k<nt;k++){
-                        double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-                        m *= std::exp(std::complex<double>(0,-q));
-                    }
-
                     m *= sign;
 
                     local_err = check_imag(m,&M[i]); // assigns value to M[i]
-- 
2.43.0


From d84d4a4f05e23e74859d168e40da8904a9d8d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 015/159] fix: get_amp gave states outside the sector an
 amplitude of the order sqrt(rounding error)

---
 .../_basis_general_core/source/general_basis_get_amp.h      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
index 2fedc52..91b7ed1 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
@@ -86,10 +86,11 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				I r = B->ref_state(ss,g,sign);
 				double norm_r = B->check_state(r);
+				npy_intp int_norm = norm_r;
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
 					phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = phase_factor/std::sqrt(norm_r * per_factor);
@@ -123,10 +124,11 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				I r = B->ref_state(ss,g,sign);
 				double norm_r = B->check_state(r);
+				npy_intp int_norm = norm_r;
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && int_norm > 0){ // ref_state is a representative
 
 					//phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = std::sqrt(norm_r/per_factor);
-- 
2.43.0


From ac3a287dc3f26961a74292e40bc88fdd583dfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 016/159] fix: spinful_fermion_basis_general.Op_shift_sector
 dropped self

---
 quspin/basis/basis_general/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 412521d..55bf6dc 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -644,7 +644,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		else:
 			new_op_list = op_list
 
-		return spinless_fermion_basis_general.Op_shift_sector(other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
+		return spinless_fermion_basis_general.Op_shift_sector(self,other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
 
 	Op_shift_sector.__doc__ = spinless_fermion_basis_general.Op_shift_sector.__doc__
 
-- 
2.43.0


From 7a660d911652765b70cb3757beb01a69b41f09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 017/159] fix: particle densities (m, nb, nf) were truncated:
 rounding errors lost a particle

---
 quspin/basis/basis_1d/boson.py        | 4 ++--
 quspin/basis/basis_1d/fermion.py      | 4 ++--
 quspin/basis/basis_1d/spin.py         | 2 +-
 quspin/basis/basis_general/boson.py   | 4 ++--
 quspin/basis/basis_general/fermion.py | 4 ++--
 quspin/basis/basis_general/spin.py    | 2 +-
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 8d8ce0f..aad2a86 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -96,7 +96,7 @@ class boson_basis_1d(basis_1d):
 			elif nb is not None:
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
-				Nb = int(nb*L)
+				Nb = int(nb*L+1e-9)
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 		else:
@@ -104,7 +104,7 @@ class boson_basis_1d(basis_1d):
 				if nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 			elif nb is not None:
-				Nb = int(nb*L)
+				Nb = int(nb*L+1e-9)
 
 		self._sps = sps
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 4f997e7..898d278 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -77,7 +77,7 @@ class spinless_fermion_basis_1d(basis_1d):
 		elif Nf is None and nf is not None:
 			if nf < 0 or nf > 1:
 				raise ValueError("nf must be between 0 and 1")
-			Nf = int(nf*L)
+			Nf = int(nf*L+1e-9)
 
 		if Nf is None:
 			Nf_list = None
@@ -240,7 +240,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = [(int(nf[0]*L),int(nf[1]*L))]
+			Nf = [(int(nf[0]*L+1e-9),int(nf[1]*L+1e-9))]
 
 		self._sps = 2
 
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 2d501b6..46dbe25 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -107,7 +107,7 @@ class spin_basis_1d(basis_1d):
 			if m < -S or m > S:
 				raise ValueError("N must be between -S and S")
 
-			Nup = int((m+S)*L)
+			Nup = int((m+S)*L+1e-9)
 
 		try:
 			Nup_iter = iter(Nup)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index c9640bf..2fff6c2 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -123,7 +123,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if Nb is not None:
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
-				Nb = int(nb*N)
+				Nb = int(nb*N+1e-9)
 			else:
 				raise ValueError("expecting value for 'Nb','nb' or 'sps'")
 
@@ -137,7 +137,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 					raise ValueError("cannot use 'nb' and 'Nb' simultaineously.")
 
 			elif nb is not None:
-				Nb = int(nb*N)
+				Nb = int(nb*N+1e-9)
 
 		self._sps = sps
 		self._allowed_ops=set(["I","z","n","+","-"])
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 55bf6dc..576c84a 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -97,7 +97,7 @@ class spinless_fermion_basis_general(basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = int(nf*N)
+			Nf = int(nf*N+1e-9)
 
 		basis_general.__init__(self,N,block_order=block_order,**blocks)
 		self._check_pcon = False
@@ -374,7 +374,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		if Nf is not None and nf is not None:
 			raise ValueError("cannot use 'nf' and 'Nf' simultaineously.")
 		if Nf is None and nf is not None:
-			Nf = (int(nf[0]*N),int(nf[1]*N))
+			Nf = (int(nf[0]*N+1e-9),int(nf[1]*N+1e-9))
 
 		if any((type(map) is not tuple) and (len(map)!=2) for map in blocks.values() if map is not None):
 			raise ValueError("blocks must contain tuple: (map,q).")
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 3802d2c..3a01061 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -131,7 +131,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 			if m < -S or m > S:
 				raise ValueError("m must be between -S and S")
 
-			Nup = int((m+S)*N)
+			Nup = int((m+S)*N+1e-9)
 
 		try:
 			Nup_iter = iter(Nup)
-- 
2.43.0


From 9fdf8e260a88a63709bbdf3c24d1b2c194e9369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 018/159] fix: bases on more than 64 sites with several
 particle sectors (and spinful ones) were sorted by raw bytes

---
 quspin/basis/basis_general/base_general.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index d324dc1..2ea2649 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -772,7 +772,11 @@ class basis_general(lattice_basis):
 			sort_basis = True
 
 		if sort_basis:
-			ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
+			if basis.dtype.kind == "V": # multi-precision integers: numpy would compare the raw bytes
+				ind = sorted(range(Ns),key=lambda i:basis_int_to_python_int(basis[i:i+1]),reverse=True)
+				ind = _np.array(ind,dtype=_np.intp)
+			else:
+				ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 			self._basis = basis[ind].copy()
 			self._n = n[ind].copy()
 			if Np_list is not None: self._Np_list = Np_list[ind].copy()
-- 
2.43.0


From ac07c1fb09d43e33eed58cd1fca8dc492e95d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 019/159] fix: csr_matvecs: step through the columns of y by
 its column stride

The column-major branch advanced y by n_row*y_stride_row per vector, which
is only right for a Fortran-contiguous y.
---
 quspin/tools/matvec/_oputils/csr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/matvec/_oputils/csr.h b/quspin/tools/matvec/_oputils/csr.h
index be291eb..fee24e5 100644
--- a/quspin/tools/matvec/_oputils/csr.h
+++ b/quspin/tools/matvec/_oputils/csr.h
@@ -122,14 +122,16 @@ void csr_matvecs_noomp_strided(const bool overwrite_y,
     }
     else{
         for(I m=0;m<n_vecs; m++){
+            T3 * y_row = y;
             for(I k = 0; k<n_row; k++){
                 for(I jj = Ap[k]; jj < Ap[k+1]; jj++){
                     const npy_intp ii = x_stride_row *  Aj[jj];
-                    (*y) += (a * Ax[jj]) * x[ii];
+                    (*y_row) += (a * Ax[jj]) * x[ii];
                 }
-                y += y_stride_row;
+                y_row += y_stride_row;
             }
             x += x_stride_col;
+            y += y_stride_col;
         }
     }
 }
-- 
2.43.0


From e0a0a0b056542d32a71d9cd1a6d4e5358ddd1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 020/159] fix: matvec() ignored its overwrite_out, out and a
 arguments

---
 quspin/tools/matvec/matvec_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/matvec/matvec_core.py b/quspin/tools/matvec/matvec_core.py
index 66fd70f..dbd3314 100644
--- a/quspin/tools/matvec/matvec_core.py
+++ b/quspin/tools/matvec/matvec_core.py
@@ -98,7 +98,7 @@ def matvec(array,other,overwrite_out=False,out=None,a=1.0):
 	"""
 
 
-	return _matvec(array,other,overwrite_out=False,out=None,a=1.0)
+	return _matvec(array,other,overwrite_out=overwrite_out,out=out,a=a)
 
 
 
-- 
2.43.0


From 380cefe46e89cd955812014f0ca595fe3346f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 021/159] fix: sparse matvecs check the shapes and dtype of the
 arrays they address

An out array whose dtype differs from the input's was written through the
wrong pointer type (garbage, or writes past its end), a short input or output
array was read or written out of bounds.
---
 quspin/tools/matvec/_oputils.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quspin/tools/matvec/_oputils.pyx b/quspin/tools/matvec/_oputils.pyx
index 43a976b..54eab48 100644
--- a/quspin/tools/matvec/_oputils.pyx
+++ b/quspin/tools/matvec/_oputils.pyx
@@ -506,12 +506,25 @@ def _dia_matvecs(bool overwrite_y, indtype[::1] offsets ,T1[:,::1] diags, T1 a,
 """
 
 
+def _check_args(mat_obj,other,out):
+  # the kernels below only see raw pointers and strides.
+  if mat_obj.shape[1] != other.shape[0]:
+    raise ValueError("dimension mismatch between matrix and input array")
+
+  if out.shape != mat_obj.shape[:1]+other.shape[1:]:
+    raise ValueError("output array has wrong shape")
+
+  if out.dtype != other.dtype:
+    raise TypeError("invalid types")
+
+
 def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
   if out is None:
     overwrite_out = True
     result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
     out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
 
+  _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _csr_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
@@ -529,6 +542,7 @@ def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
     result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
     out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
 
+  _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _csc_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
@@ -544,6 +558,7 @@ def _dia_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
     result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
     out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
 
+  _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _dia_matvec(overwrite_out,mat_obj.offsets,mat_obj.data,a,other,out)
-- 
2.43.0


From 9a3fd7eb5907c9a05e40687596d0f990ab1cc20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 022/159] fix: sparse matvecs read matrices with strided data
 arrays correctly

The data of e.g. A.real is a strided view, the kernels read it as contiguous.
---
 quspin/tools/matvec/_oputils.pyx | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/quspin/tools/matvec/_oputils.pyx b/quspin/tools/matvec/_oputils.pyx
index 54eab48..72e664b 100644
--- a/quspin/tools/matvec/_oputils.pyx
+++ b/quspin/tools/matvec/_oputils.pyx
@@ -526,10 +526,14 @@ def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
   _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
+  # the kernels address these arrays as contiguous memory.
+  indptr = _np.ascontiguousarray(mat_obj.indptr)
+  indices = _np.ascontiguousarray(mat_obj.indices,dtype=indptr.dtype)
+  data = _np.ascontiguousarray(mat_obj.data)
   if other.ndim == 1:
-    _csr_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
+    _csr_matvec(overwrite_out,indptr,indices,data,a,other,out)
   else:
-    _csr_matvecs(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
+    _csr_matvecs(overwrite_out,indptr,indices,data,a,other,out)
 
   return out
 
@@ -544,10 +548,14 @@ def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
   _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
+  # the kernels address these arrays as contiguous memory.
+  indptr = _np.ascontiguousarray(mat_obj.indptr)
+  indices = _np.ascontiguousarray(mat_obj.indices,dtype=indptr.dtype)
+  data = _np.ascontiguousarray(mat_obj.data)
   if other.ndim == 1:
-    _csc_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
+    _csc_matvec(overwrite_out,indptr,indices,data,a,other,out)
   else:
-    _csc_matvecs(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
+    _csc_matvecs(overwrite_out,indptr,indices,data,a,other,out)
 
   return out
 
@@ -560,10 +568,13 @@ def _dia_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
   _check_args(mat_obj,other,out)
   a = _np.array(a,dtype=mat_obj.dtype)
+  # the kernels address these arrays as contiguous memory.
+  offsets = _np.ascontiguousarray(mat_obj.offsets)
+  data = _np.ascontiguousarray(mat_obj.data)
   if other.ndim == 1:
-    _dia_matvec(overwrite_out,mat_obj.offsets,mat_obj.data,a,other,out)
+    _dia_matvec(overwrite_out,offsets,data,a,other,out)
   else:
-    _dia_matvecs(overwrite_out,mat_obj.offsets,mat_obj.data,a,other,out)
+    _dia_matvecs(overwrite_out,offsets,data,a,other,out)
 
   return out
 
-- 
2.43.0


From 1d6754f318b9eeae546a98c2d839f6e9c993552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:57 +0000
Subject: [PATCH 023/159] fix: drive functions are equal only when their
 function and arguments are

They were compared by hash, so f with args (-1,) and f with args (-2,) were
merged into one term. Powers of conjugated functions could not be hashed.
---
 quspin/operators/_functions.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/quspin/operators/_functions.py b/quspin/operators/_functions.py
index f3cb435..b7d4499 100644
--- a/quspin/operators/_functions.py
+++ b/quspin/operators/_functions.py
@@ -21,7 +21,14 @@ class function(object):
 
 	def __eq__(self,other):
 		if isinstance(other,function):
-			return hash(self)==hash(other)
+			# compare the factors, different factors can have the same hash.
+			keys = other._key_list()
+			for key in self._key_list():
+				if key not in keys:
+					return False
+				keys.remove(key)
+
+			return len(keys) == 0
 		else:
 			return False
 
@@ -31,12 +38,11 @@ class function(object):
 	def __contains__(self,other):
 		return self == other
 
-	def _hash_list(self):
-		return [hash((self._f,self._args))]
+	def _key_list(self):
+		return [(self._f,self._args)]
 
 	def __hash__(self):
-		hash_list = tuple(self._hash_list())
-		return hash(hash_list)
+		return hash(tuple(sorted(hash(key) for key in self._key_list())))
 
 	def __call__(self,*args):
 		return self._f(*(args+self._args))
@@ -63,11 +69,8 @@ class comm_binary_function(function):
 		self._function1 = function1
 		self._function2 = function2
 
-	def _hash_list(self):
-		hash_list = self._function1._hash_list()
-		hash_list.extend(self._function2._hash_list())
-		hash_list.sort()
-		return hash_list
+	def _key_list(self):
+		return self._function1._key_list() + self._function2._key_list()
 
 	def __contains__(self,other):
 		return (self._function1.__contains__(other)) or (self._function2.__contains__(other))
@@ -111,8 +114,8 @@ class conjugate_function(function):
 	def __str__(self):
 		return "conj({0})".format(self._function1.__str__())
 
-	def _hash_list(self):
-		return [hash((1j,self._function1._f,self._function1._args))]
+	def _key_list(self):
+		return [(1j,)+tuple(self._function1._key_list())]
 
 	def __contains__(self,other):
 		return self._function1.__contains__(other)
@@ -132,8 +135,8 @@ class pow_function(function):
 	def __str__(self):
 		return "{0}^{1}".format(self._function1.__str__(),self._p)
 
-	def _hash_list(self):
-		return [hash((self._function1._f,self._function1._args,self._p))]
+	def _key_list(self):
+		return [(self._p,)+tuple(self._function1._key_list())]
 
 	def __mul__(self,other):
 		if self._function1 == other:
-- 
2.43.0


From e6c97aa19e2c30b210f1419bb4d058d5fd510da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:57 +0000
Subject: [PATCH 024/159] fix: products and powers of drive functions can be
 conjugated

---
 quspin/operators/_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quspin/operators/_functions.py b/quspin/operators/_functions.py
index b7d4499..a182e0a 100644
--- a/quspin/operators/_functions.py
+++ b/quspin/operators/_functions.py
@@ -83,6 +83,9 @@ class mul_function(comm_binary_function):
 	def __call__(self,*args):
 		return self._function1(*args)*self._function2(*args)
 
+	def conjugate(self):
+		return mul_function(self._function1.conjugate(),self._function2.conjugate())
+
 	def __str__(self):
 		return "({0} * {1})".format(self._function1.__str__(),self._function2.__str__())
 
@@ -132,6 +135,9 @@ class pow_function(function):
 	def __call__(self,*args):
 		return self._function1(*args)**self._p
 
+	def conjugate(self):
+		return pow_function(self._function1.conjugate(),self._p)
+
 	def __str__(self):
 		return "{0}^{1}".format(self._function1.__str__(),self._p)
 
-- 
2.43.0


From 13cf9e1809496ab32b87728e355d1e5fa98d4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:15 +0000
Subject: [PATCH 025/159] fix: hamiltonian: the dynamic parts were multiplied
 on the wrong side by H *= sparse

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3658387..fe87dd8 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2706,7 +2706,7 @@ class hamiltonian(object):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = other.dot(self._dynamic[func])
+			self._dynamic[func] = self._dynamic[func] * other
 
 			try:
 				self._dynamic[func].sum_duplicates()
-- 
2.43.0


From 0afc5a081fc5ef4f73b3cb1b641349310481c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 026/159] fix: hamiltonian -= used undefined names, and -= list
 did not work in place

---
 quspin/operators/hamiltonian_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index fe87dd8..2284c86 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2315,7 +2315,7 @@ class hamiltonian(object):
 		else:
 			other = _np.asanyarray(other)
 			self._mat_checks(other)	
-			return self._sub_dense(other)
+			return self._isub_dense(other)
 
 	##########################################################################################	
 	##########################################################################################
@@ -2453,9 +2453,9 @@ class hamiltonian(object):
 				try:
 					self._dynamic[func] -= Hd
 				except NotImplementedError:
-					self._dynamic[func] = new._dynamic[func] - Hd
+					self._dynamic[func] = self._dynamic[func] - Hd
 
-				if _check_almost_zero(new._dynamic[func]):
+				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
@@ -2815,7 +2815,7 @@ class hamiltonian(object):
 		try: 
 			self._static += other
 		except:
-			self._static = new._static + other
+			self._static = self._static + other
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2864,8 +2864,8 @@ class hamiltonian(object):
 		except:
 			self._static = self._static - other
 
-		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+		if _check_almost_zero(self._static):
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		self.check_is_dense()
 		self._get_matvecs()
-- 
2.43.0


From 32ea9aa5a41871cbc6359e68976502df8e10a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 027/159] fix: sums of hamiltonians share no dynamic matrices
 with the summands

In-place operations on the sum (or on the left operand of +=) changed the
right operand; H -= H changed the dictionary it iterates over.
---
 quspin/operators/hamiltonian_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 2284c86..a86464c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2364,7 +2364,7 @@ class hamiltonian(object):
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
 			else:
-				new._dynamic[func] = Hd
+				new._dynamic[func] = Hd.astype(new._dtype,copy=True)
 
 		new.check_is_dense()
 		new._get_matvecs()
@@ -2381,7 +2381,7 @@ class hamiltonian(object):
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
 				try:
 					self._dynamic[func] += Hd
@@ -2397,7 +2397,7 @@ class hamiltonian(object):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = Hd
+				self._dynamic[func] = Hd.astype(self._dtype,copy=True)
 
 		self.check_is_dense()
 		self._get_matvecs()
@@ -2430,7 +2430,7 @@ class hamiltonian(object):
 					new._dynamic.pop(func)
 
 			else:
-				new._dynamic[func] = -Hd		
+				new._dynamic[func] = (-Hd).astype(new._dtype)
 
 		new.check_is_dense()
 		new._get_matvecs()
@@ -2448,7 +2448,7 @@ class hamiltonian(object):
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
 				try:
 					self._dynamic[func] -= Hd
@@ -2459,7 +2459,7 @@ class hamiltonian(object):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = -Hd
+				self._dynamic[func] = (-Hd).astype(self._dtype)
 
 	
 		self.check_is_dense()
-- 
2.43.0


From a39a13e5b262d7de777f0dc02cebd71bbefa7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 028/159] fix: products of hamiltonians with dense static parts

With one static factor the product was taken with the sparse routines: two
dense matrices were multiplied elementwise, dense.dot(sparse) made an object
array.
---
 quspin/operators/_make_hamiltonian.py | 10 ++++++++++
 quspin/operators/hamiltonian_core.py  | 13 +++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/_make_hamiltonian.py b/quspin/operators/_make_hamiltonian.py
index 5decc1d..ba35152 100755
--- a/quspin/operators/_make_hamiltonian.py
+++ b/quspin/operators/_make_hamiltonian.py
@@ -19,6 +19,16 @@ def _check_almost_zero(matrix):
 		return _np.allclose(matrix,0,atol=atol)
 
 
+def _matmul(A,B):
+	""" Matrix product of sparse and/or dense matrices. """
+	if _sp.issparse(A) or _sp.issparse(B):
+		C = A * B
+	else:
+		C = _np.matmul(A,B)
+
+	return C if _sp.issparse(C) else _np.asarray(C)
+
+
 def _consolidate_static(static_list):
 	eps = 10 * _np.finfo(_np.float64).eps
 
diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index a86464c..0408d47 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -17,6 +17,7 @@ from ._make_hamiltonian import make_static
 from ._make_hamiltonian import make_dynamic
 from ._make_hamiltonian import test_function
 from ._make_hamiltonian import _check_almost_zero
+from ._make_hamiltonian import _matmul
 from ._functions import function
 
 # need linear algebra packages
@@ -2650,14 +2651,14 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._static = new._static * other
+		new._static = _matmul(new._static,other)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = new._dynamic[func] * other
+			new._dynamic[func] = _matmul(new._dynamic[func],other)
 
 			if _check_almost_zero(new._dynamic[func]):
 				new._dynamic.pop(func)
@@ -2676,13 +2677,13 @@ class hamiltonian(object):
 
 		# proform multiplication on all matricies of the new hamiltonian object.
 
-		new._static = other * new._static
+		new._static = _matmul(other,new._static)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = other.dot(new._dynamic[func])
+			new._dynamic[func] = _matmul(other,new._dynamic[func])
 
 			try:
 				new._dynamic[func].sum_duplicates()
@@ -2700,13 +2701,13 @@ class hamiltonian(object):
 	def _imul_sparse(self,other):
 
 
-		self._static =self._static * other
+		self._static =_matmul(self._static,other)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = self._dynamic[func] * other
+			self._dynamic[func] = _matmul(self._dynamic[func],other)
 
 			try:
 				self._dynamic[func].sum_duplicates()
-- 
2.43.0


From 9bd516d60ab0afc066809ab4f73514e873f72145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 029/159] fix: in-place arithmetic of hamiltonians keeps one
 dtype for all parts

H += A with a wider A only widened the static part, H.toarray(), H.dot() then
failed; the product of two time-dependent hamiltonians kept the left dtype.
---
 quspin/operators/_make_hamiltonian.py |  9 +++++
 quspin/operators/hamiltonian_core.py  | 58 ++++++++-------------------
 2 files changed, 26 insertions(+), 41 deletions(-)

diff --git a/quspin/operators/_make_hamiltonian.py b/quspin/operators/_make_hamiltonian.py
index ba35152..5308c5e 100755
--- a/quspin/operators/_make_hamiltonian.py
+++ b/quspin/operators/_make_hamiltonian.py
@@ -29,6 +29,15 @@ def _matmul(A,B):
 	return C if _sp.issparse(C) else _np.asarray(C)
 
 
+def _matadd(A,B,sign,dtype):
+	""" A+B or A-B for sparse and/or dense matrices as a new matrix of the given type. """
+	C = A + B if sign > 0 else A - B
+	if not _sp.issparse(C):
+		C = _np.asarray(C)
+
+	return C.astype(dtype,copy=False)
+
+
 def _consolidate_static(static_list):
 	eps = 10 * _np.finfo(_np.float64).eps
 
diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 0408d47..a77f890 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -18,6 +18,7 @@ from ._make_hamiltonian import make_dynamic
 from ._make_hamiltonian import test_function
 from ._make_hamiltonian import _check_almost_zero
 from ._make_hamiltonian import _matmul
+from ._make_hamiltonian import _matadd
 from ._functions import function
 
 # need linear algebra packages
@@ -2374,20 +2375,14 @@ class hamiltonian(object):
 	def _iadd_hamiltonian(self,other):
 		self._is_dense = self._is_dense or other._is_dense
 
-		try:
-			self._static += other._static 
-		except NotImplementedError:
-			self._static = self._static + other._static 
+		self._static = _matadd(self._static,other._static,+1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
-				try:
-					self._dynamic[func] += Hd
-				except NotImplementedError:
-					self._dynamic[func] = self._dynamic[func] + Hd
+				self._dynamic[func] = _matadd(self._dynamic[func],Hd,+1,self._dtype)
 
 				try:
 					self._dynamic[func].sum_duplicates()
@@ -2441,20 +2436,14 @@ class hamiltonian(object):
 	def _isub_hamiltonian(self,other):
 		self._is_dense = self._is_dense or other._is_dense
 
-		try:
-			self._static -= other._static 
-		except NotImplementedError:
-			self._static = self._static - other._static 
+		self._static = _matadd(self._static,other._static,-1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
-				try:
-					self._dynamic[func] -= Hd
-				except NotImplementedError:
-					self._dynamic[func] = self._dynamic[func] - Hd
+				self._dynamic[func] = _matadd(self._dynamic[func],Hd,-1,self._dtype)
 
 				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
@@ -2470,7 +2459,7 @@ class hamiltonian(object):
 
 	def _mul_hamiltonian(self,other):
 		if self.dynamic and other.dynamic:
-			new = self.astype(self._dtype)
+			new = self.astype(_np.result_type(self._dtype,other._dtype))
 			return new._imul_hamiltonian(other)
 		elif self.dynamic:
 			return self._mul_sparse(other.static)
@@ -2565,15 +2554,14 @@ class hamiltonian(object):
 						if not _check_almost_zero(H12):
 							new_dynamic_ops[func12] = H12
 
-			self._static = new_static_op
-			self._dynamic = new_dynamic_ops
-			self._dtype = new_static_op.dtype
+			self._static = new_static_op.astype(self._dtype,copy=False)
+			self._dynamic = {func:Hd.astype(self._dtype,copy=False) for func,Hd in iteritems(new_dynamic_ops)}
 			self._get_matvecs()
 			return self
 		elif self.dynamic:
 			return self._imul_sparse(other.static)
 		elif other.dynamic:
-			return (other.T._imul_sparse(self.static.T)).T
+			return (other.T.astype(self._dtype)._imul_sparse(self.static.T)).T
 		else:
 			return self._imul_sparse(other.static)
 
@@ -2601,10 +2589,7 @@ class hamiltonian(object):
 
 	def _iadd_sparse(self,other):
 
-		try:
-			self._static += other
-		except NotImplementedError:
-			self._static = self._static + other
+		self._static = _matadd(self._static,other,+1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.csr_matrix(self._shape,dtype=self._dtype)
@@ -2633,10 +2618,7 @@ class hamiltonian(object):
 
 	def _isub_sparse(self,other):
 
-		try:
-			self._static -= other
-		except NotImplementedError:
-			self._static = self._static - other
+		self._static = _matadd(self._static,other,-1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2701,13 +2683,13 @@ class hamiltonian(object):
 	def _imul_sparse(self,other):
 
 
-		self._static =_matmul(self._static,other)
+		self._static =_matmul(self._static,other).astype(self._dtype,copy=False)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = _matmul(self._dynamic[func],other)
+			self._dynamic[func] = _matmul(self._dynamic[func],other).astype(self._dtype,copy=False)
 
 			try:
 				self._dynamic[func].sum_duplicates()
@@ -2813,10 +2795,7 @@ class hamiltonian(object):
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-		try: 
-			self._static += other
-		except:
-			self._static = self._static + other
+		self._static = _matadd(self._static,other,+1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2860,10 +2839,7 @@ class hamiltonian(object):
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-		try:
-			self._static -= other
-		except:
-			self._static = self._static - other
+		self._static = _matadd(self._static,other,-1,self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
@@ -2948,13 +2924,13 @@ class hamiltonian(object):
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-		self._static = _np.asarray(self._static.dot(other))
+		self._static = _np.asarray(self._static.dot(other),dtype=self._dtype)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = _np.asarray(self._dynamic[func].dot(other))
+			self._dynamic[func] = _np.asarray(self._dynamic[func].dot(other),dtype=self._dtype)
 
 			if _check_almost_zero(self._dynamic[func]):
 				self._dynamic.pop(func)
-- 
2.43.0


From 7ae2971e72874ed966526beb0194ad03e3241a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 030/159] fix: as_dense_format raised for dense static parts

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index a77f890..9f72c43 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1793,7 +1793,7 @@ class hamiltonian(object):
 		if _sp.issparse(self._static):
 			new_static = self._static.toarray()
 		else:
-			new_static = _np.asarray(self._static,copy=copy)
+			new_static = _np.array(self._static) if copy else self._static
 
 		dynamic = [([M.toarray(),func] if _sp.issparse(M) else [M,func])
 						for func,M in iteritems(self.dynamic)]
-- 
2.43.0


From e2a08ee3b2497e83448adb259ea70daa79b45926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 031/159] fix: the formats of the dynamic parts of a
 hamiltonian can be chosen

A dictionary was ignored, a string raised a NameError or used the constructor
of the static format; is_dense was not updated.
---
 quspin/operators/hamiltonian_core.py | 47 +++++++++++-----------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 9f72c43..64e037e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1731,42 +1731,33 @@ class hamiltonian(object):
 
 		if dynamic_fmt is not None:
 			if type(dynamic_fmt) is str:
+				updates = {func:dynamic_fmt for func in self._dynamic}
 
-				if dynamic_fmt not in ["csr","csc","dia","dense"]:
-					raise ValueError("'{0}' is not a valid sparse format for Hamiltonian class.".format(dynamic_fmt))
-
-
-				if dynamic_fmt == "dense":
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
-					updates.update({func:_np.ascontiguousarray(Hd) for func,Hd in iteritems(self._dynamic) if not _sp.issparse(Hd)})
-				else:
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic)}
-
-				
-				self._dynamic.update(updates)
+			elif type(dynamic_fmt) is dict:
+				updates = {function(f,tuple(f_args)):fmt for (f,f_args),fmt in iteritems(dynamic_fmt)}
 
 			elif type(dynamic_fmt) in [list,tuple]:
-				for fmt,(f,f_args) in dynamic_fmt:
-
-					func = function(f,tuple(f_args))
+				updates = {function(f,tuple(f_args)):fmt for fmt,(f,f_args) in dynamic_fmt}
 
-					if fmt not in ["csr","csc","dia","dense"]:
-						raise ValueError("'{0}' is not a valid sparse format for Hamiltonian class.".format(fmt))
+			else:
+				raise ValueError("Expecting string or dictionary for 'dynamic_fmt'")
 
-					try:
-						if fmt == "dense":
-							if _sp.issparse(self._static):
-								self._dynamic[func] = self._dynamic[func].toarray()
-							else:
-								self._dynamic[func] = _np.ascontiguousarray(self._dynamic[func])
-						else:
-							sparse_constuctor = getattr(_sp,fmt+"_matrix")
-							self._dynamic[func] = sparse_constuctor(self._dynamic[func])
+			for func,fmt in iteritems(updates):
+				if fmt not in ["csr","csc","dia","dense"]:
+					raise ValueError("'{0}' is not a valid sparse format for Hamiltonian class.".format(fmt))
 
-					except KeyError:
-						raise ValueError("({},{}) is not found in dynamic list.".format(f,f_args))
+				if func not in self._dynamic:
+					raise ValueError("({},{}) is not found in dynamic list.".format(func._f,func._args))
 
+			for func,fmt in iteritems(updates):
+				Hd = self._dynamic[func]
+				if fmt == "dense":
+					self._dynamic[func] = Hd.toarray() if _sp.issparse(Hd) else _np.ascontiguousarray(Hd)
+				else:
+					sparse_constuctor = getattr(_sp,fmt+"_matrix")
+					self._dynamic[func] = sparse_constuctor(Hd)
 
+		self.check_is_dense()
 		self._get_matvecs()	
 
 	def as_dense_format(self,copy=False):
-- 
2.43.0


From 38c24e786b90aba2d206047b4a9e12ea877037e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 032/159] fix: sums and products with dense matrices changed
 is_dense of the operand

---
 quspin/operators/hamiltonian_core.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 64e037e..1279ac8 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2764,7 +2764,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2807,7 +2806,6 @@ class hamiltonian(object):
 
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		try:
@@ -2850,7 +2848,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		new._static = _np.asarray(new._static.dot(other))
@@ -2879,7 +2876,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
-- 
2.43.0


From 0f3e1334e8c81c936f0797d8a1bfa0240c4013a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 033/159] fix: the conjugate of a real hamiltonian shared its
 dynamic matrices

---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 1279ac8..7c704d9 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1866,7 +1866,7 @@ class hamiltonian(object):
 		"""
 		dynamic = [[M.conj(),func.conj()] for func,M in iteritems(self.dynamic)]
 		return hamiltonian([self.static.conj()],dynamic,
-							basis=self._basis,dtype=self._dtype)		
+							basis=self._basis,dtype=self._dtype,copy=True)		
 
 	def conj(self):
 		"""Same functionality as :func:`conjugate`."""
-- 
2.43.0


From 842982b876bd203ee899c4bac2d126403b81328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 034/159] fix: numpy arrays and scalars plus or minus a
 hamiltonian returned None

---
 quspin/operators/hamiltonian_core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 7c704d9..f377506 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2954,13 +2954,26 @@ class hamiltonian(object):
 		if out is not None:
 			raise ValueError("quspin hamiltonian class does not support 'out' for numpy.multiply or numpy.dot.")
 
-		if (func == _np.dot) or (func == _np.multiply):
+		if method != "__call__":
+			return NotImplemented
 
+		if (func == _np.dot) or (func == _np.multiply):
 			if ishamiltonian(inputs[0]):
 				return inputs[0].__mul__(inputs[1])
 			elif ishamiltonian(inputs[1]):
 				return inputs[1].__rmul__(inputs[0])
+		elif func == _np.add:
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__add__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__radd__(inputs[0])
+		elif func == _np.subtract:
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__sub__(inputs[1])
+			elif ishamiltonian(inputs[1]):
+				return inputs[1].__rsub__(inputs[0])
 
+		return NotImplemented
 
 
 def ishamiltonian(obj):
-- 
2.43.0


From 73b8fa11b8be924f417095f99c0990060b742588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 035/159] fix: H.project_to(hamiltonian) multiplied
 time-dependent factors in the wrong order

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f377506..9fe63e9 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -2461,8 +2461,8 @@ class hamiltonian(object):
 
 	def _rmul_hamiltonian(self,other):
 		if self.dynamic and other.dynamic:
-			new = other.astype(self._dtype)
-			return (new.T._imul_hamiltonian(self.T)).T #lazy implementation
+			new = other.astype(_np.result_type(self._dtype,other._dtype))
+			return new._imul_hamiltonian(self)
 		elif self.dynamic:
 			return self._rmul_sparse(other.static)
 		elif other.dynamic:
-- 
2.43.0


From 5362d471798ee2561f4c2beb0b4ee624c2543d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 036/159] fix: project_to with a rectangular projector left the
 old Ns

---
 quspin/operators/hamiltonian_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 9fe63e9..6d64714 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1052,6 +1052,7 @@ class hamiltonian(object):
 					
 			new = self._rmul_sparse(proj.getH())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_sparse(proj)
 
 		elif _np.isscalar(proj):
@@ -1063,6 +1064,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1072,6 +1074,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.H)
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1082,6 +1085,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 	def rotate_by(self, other, generator=False,**exp_op_kwargs):
-- 
2.43.0


From 814af04ff05cb459e2ca07aa545832088c50e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:48 +0000
Subject: [PATCH 037/159] fix: sums of sparse and dense parts of a hamiltonian
 became numpy matrices

States evolved with such a hamiltonian raised; the constructor also added
into the caller's first matrix with copy=False.
---
 quspin/operators/hamiltonian_core.py | 59 ++++++----------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 6d64714..3c6ea4d 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -369,10 +369,7 @@ class hamiltonian(object):
 						self._static = O.astype(self._dtype,copy=copy)
 						continue
 
-					try:
-						self._static += O.astype(self._dtype)
-					except NotImplementedError:
-						self._static = self._static + O.astype(self._dtype)
+					self._static = _matadd(self._static,O,+1,self._dtype)
 
 				else:
 					O = _np.asarray(O,dtype=self._dtype)
@@ -384,14 +381,7 @@ class hamiltonian(object):
 						self._static = O.astype(self._dtype,copy=copy)
 						continue
 
-					try:
-						self._static += O
-					except NotImplementedError:
-						self._static = self._static + O.astype(self._dtype)
-
-			if not _sp.issparse(self._static):
-				self._static = _np.asarray(self._static)
-
+					self._static = _matadd(self._static,O,+1,self._dtype)
 
 			try:
 				self._static.sum_duplicates()
@@ -419,10 +409,7 @@ class hamiltonian(object):
 
 
 				if func in self._dynamic:
-					try:
-						self._dynamic[func] += O
-					except:
-						self._dynamic[func] = self._dynamic[func] + O
+					self._dynamic[func] = _matadd(self._dynamic[func],O,+1,self._dtype)
 				else:
 					self._dynamic[func] = O
 			
@@ -2343,20 +2330,14 @@ class hamiltonian(object):
 
 		new._is_dense = new._is_dense or other._is_dense
 
-		try:
-			new._static += other._static 
-		except NotImplementedError:
-			new._static = new._static + other._static 
+		new._static = _matadd(new._static,other._static,+1,new._dtype)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		for func,Hd in iteritems(other._dynamic):
 			if func in new._dynamic:
-				try:
-					new._dynamic[func] += Hd
-				except NotImplementedError:
-					new._dynamic[func] = new._dynamic[func] + Hd
+				new._dynamic[func] = _matadd(new._dynamic[func],Hd,+1,new._dtype)
 
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
@@ -2401,10 +2382,7 @@ class hamiltonian(object):
 
 		new._is_dense = new._is_dense or other._is_dense
 
-		try:
-			new._static -= other._static 
-		except NotImplementedError:
-			new._static = new._static - other._static 
+		new._static = _matadd(new._static,other._static,-1,new._dtype)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
@@ -2412,10 +2390,7 @@ class hamiltonian(object):
 
 		for func,Hd in iteritems(other._dynamic):
 			if func in new._dynamic:
-				try:
-					new._dynamic[func] -= Hd
-				except NotImplementedError:
-					new._dynamic[func] = new._dynamic[func] - Hd
+				new._dynamic[func] = _matadd(new._dynamic[func],Hd,-1,new._dtype)
 
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
@@ -2511,10 +2486,7 @@ class hamiltonian(object):
 
 
 				if func in new_dynamic_ops:
-					try:
-						new_dynamic_ops[func] += Hmul
-					except NotImplementedError:
-						new_dynamic_ops[func] = new_dynamic_ops[func] + Hmul
+					new_dynamic_ops[func] = _matadd(new_dynamic_ops[func],Hmul,+1,self._dtype)
 
 					if _check_almost_zero(new_dynamic_ops[func]):
 						new_dynamic_ops.pop(func)
@@ -2538,10 +2510,7 @@ class hamiltonian(object):
 					func12 = func1 * func2
 
 					if func12 in new_dynamic_ops:
-						try:
-							new_dynamic_ops[func12] += H12
-						except NotImplementedError:
-							new_dynamic_ops[func12] = new_dynamic_ops[func12] + H12
+						new_dynamic_ops[func12] = _matadd(new_dynamic_ops[func12],H12,+1,self._dtype)
 
 						if _check_almost_zero(new_dynamic_ops[func12]):
 							new_dynamic_ops.pop(func12)
@@ -2569,10 +2538,7 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		try:
-			new._static += other
-		except NotImplementedError:
-			new._static = new._static + other
+		new._static = _matadd(new._static,other,+1,new._dtype)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
@@ -2599,10 +2565,7 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		try:
-			new._static -= other
-		except NotImplementedError:
-			new._static = new._static - other
+		new._static = _matadd(new._static,other,-1,new._dtype)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
-- 
2.43.0


From d176bd1b26033bd6cbf21e33a8e703831bfd545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:08 +0000
Subject: [PATCH 038/159] fix: quantum_operator added missing parameters to the
 caller's dictionary

The default dictionary was shared by all operators, so that the keys of one
operator were unexpected couplings of the next one.
---
 quspin/operators/quantum_operator_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 959c06c..8ee0b54 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1397,6 +1397,7 @@ class quantum_operator(object):
 			raise ValueError("unexpected couplings: {}".format(extra))
 
 		missing = set(self._quantum_operator.keys()) - set(pars.keys())
+		pars = dict(pars)
 		for key in missing:
 			pars[key] = _np.array(1,dtype=_np.int32)
 
@@ -1422,6 +1423,7 @@ class quantum_operator(object):
 			raise ValueError("unexpected couplings: {}".format(extra))
 
 		missing =  set(self._quantum_operator.keys()) - set(pars.keys())
+		pars = dict(pars)
 		for key in missing:
 			pars[key] = 1.0
 
-- 
2.43.0


From e56de7b607cbd1cc93b0239f740b71c459784408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 039/159] fix: quantum_operator: components of operator strings
 and matrices

Matrices given under the same key as operator strings replaced them; the
constructor added to and kept the caller's matrices although copy=True, and
components had other data types than the operator.
---
 quspin/operators/quantum_operator_core.py | 52 ++++-------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 8ee0b54..07605f8 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -10,6 +10,7 @@ from ..tools.matvec import _get_matvec_function
 
 from ._make_hamiltonian import make_static
 from ._make_hamiltonian import _check_almost_zero
+from ._make_hamiltonian import _matadd
 
 from . import hamiltonian_core
 
@@ -198,51 +199,15 @@ class quantum_operator(object):
 
 
 			for key,O_list in iteritems(other_dict):
-				for i,O in enumerate(O_list):
-					if _sp.issparse(O):
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.ndarray:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.matrix:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+				for O in O_list:
+					if not _sp.issparse(O):
+						O = _np.asarray(O)
 
+					self._mat_checks(O)
+					if key in self._quantum_operator:
+						self._quantum_operator[key] = _matadd(self._quantum_operator[key],O,+1,self._dtype)
 					else:
-						O = _np.asanyarray(O)
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					
+						self._quantum_operator[key] = O.astype(self._dtype,copy=copy)
 
 		else:
 			if not hasattr(self,"_shape"):
@@ -1443,6 +1408,7 @@ class quantum_operator(object):
 				raise ValueError('cannot cast types')	
 
 	def _update_matvecs(self):
+		self._is_dense = any(not _sp.issparse(O) for O in itervalues(self._quantum_operator))
 		self._matvec_functions = {}
 
 		for key in self._quantum_operator.keys():
-- 
2.43.0


From 9fcdfde2563828cc26a8bf876295aa734ec334e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 040/159] fix: quantum_operator.rdot raised unless out was
 given

---
 quspin/operators/quantum_operator_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 07605f8..08d55b8 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -518,7 +518,10 @@ class quantum_operator(object):
 		corresponds to :math:`B = AH`. 
 	
 		"""
-		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+		if out is not None:
+			out = out.T
+
+		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose()
 
 	def quant_fluct(self,V,pars={},check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `quantum_operator` object for parameters `pars`, in state `V`.
-- 
2.43.0


From 22d6876b90c35cb94ae1a0f56b759a2c05c7a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 041/159] fix: quantum_operator.dot raised for sparse arrays

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 08d55b8..46d4f9e 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -451,7 +451,7 @@ class quantum_operator(object):
 			if out is not None:
 				raise TypeError("'out' option does not apply for sparse inputs.")
 
-			sparse_constuctor = getattr(_sp,V.get_format()+"_matrix")
+			sparse_constuctor = getattr(_sp,V.format+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
 				out = out + J*self._quantum_operator[key].dot(V)
-- 
2.43.0


From d12296138780ce4606415b45b0605976a8edffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 042/159] fix: quantum_operator: expectation values and
 fluctuations of vectors, density matrices and sparse states

---
 quspin/operators/quantum_operator_core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 46d4f9e..7be0483 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -572,10 +572,10 @@ class quantum_operator(object):
 		V_dot = self.dot(V,pars=pars,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) == 1 or V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot,pars=pars,check=check)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
@@ -629,12 +629,12 @@ class quantum_operator(object):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.conj().T.dot(V_right)).diagonal().squeeze()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_right = _np.asarray(V_right)
+			if V_right.ndim == 1 or (V_right.shape[1] == 1 and V_right.shape[0] != 1): # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From b1ec93adf6940b83728f2083ad194008fbc6787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 043/159] fix: quantum_operator.tohamiltonian raised when all
 components vanish

---
 quspin/operators/quantum_operator_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 7be0483..88d9208 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1027,7 +1027,7 @@ class quantum_operator(object):
 				else:
 					static.append(J*self._quantum_operator[key])
 
-		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype)
+		return hamiltonian_core.hamiltonian(static,dynamic,shape=self._shape,dtype=self._dtype)
 
 	def update_matrix_formats(self,matrix_formats):
 		"""Change the internal structure of the matrices in-place.
-- 
2.43.0


From c8a078a3c928c51d82d598512fab1293444e5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 044/159] fix: quantum_operator.toarray and todense did not
 fill the given array

---
 quspin/operators/quantum_operator_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 88d9208..a2e5b66 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -927,9 +927,12 @@ class quantum_operator(object):
 		if out is None:
 			out = _np.zeros(self._shape,dtype=self.dtype)
 			out = _np.asmatrix(out)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			O = self._quantum_operator[key]
+			out += J * (O.toarray() if _sp.issparse(O) else O)
 		
 		return out
 
@@ -962,9 +965,12 @@ class quantum_operator(object):
 
 		if out is None:
 			out = _np.zeros(self._shape,dtype=self.dtype)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			O = self._quantum_operator[key]
+			out += J * (O.toarray() if _sp.issparse(O) else O)
 		
 		return out
 
-- 
2.43.0


From da5332fd4a1f58e471df6f9a0a235c508d8676ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 045/159] fix: quantum_operator: -Q changed Q, and arithmetic
 with scalars raised

In-place sums shared matrices with the summand; products and quotients with
numbers and Q / c were not possible.
---
 quspin/operators/quantum_operator_core.py | 68 ++++++++++++++++-------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index a2e5b66..c1c3247 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1271,54 +1271,64 @@ class quantum_operator(object):
 			return self.tocsr(pars)
 
 	def __neg__(self):
-		return self.__imul__(-1)
+		return self.__mul__(-1)
 
 	def __iadd__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			if not _np.can_cast(other._dtype,self._dtype,casting="same_kind"):
+				raise TypeError("cannot cast types")
+
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] + value
+					self._quantum_operator[key] = _matadd(self._quantum_operator[key],value,+1,self._dtype)
 				else:
-					self._quantum_operator[key] = value
+					self._quantum_operator[key] = value.astype(self._dtype,copy=True)
 
 				if _check_almost_zero(self._quantum_operator[key]):
 					self._quantum_operator.pop(key)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __add__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if not isinstance(other,quantum_operator) and not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, getattr(other,"dtype",self._dtype))
 		new = self.astype(result_dtype,copy=True)
 		new += other
 		return new
 
 	def __isub__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			if not _np.can_cast(other._dtype,self._dtype,casting="same_kind"):
+				raise TypeError("cannot cast types")
+
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] - value
+					self._quantum_operator[key] = _matadd(self._quantum_operator[key],value,-1,self._dtype)
 				else:
-					self._quantum_operator[key] = -value
+					self._quantum_operator[key] = (-value).astype(self._dtype,copy=False)
 
 				if _check_almost_zero(self._quantum_operator[key]):
 					self._quantum_operator.pop(key)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __sub__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if not isinstance(other,quantum_operator) and not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, getattr(other,"dtype",self._dtype))
 		new = self.astype(result_dtype,copy=True)
 		new -= other
 		return new		
@@ -1329,14 +1339,21 @@ class quantum_operator(object):
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op *= other
+			if not _np.can_cast(_np.min_scalar_type(other),self._dtype,casting="same_kind"):
+				raise TypeError("cannot cast types")
+
+			for key in list(self._quantum_operator):
+				self._quantum_operator[key] = (self._quantum_operator[key] * other).astype(self._dtype,copy=False)
+
 
 			self._update_matvecs()
 			return self
 
 	def __mul__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, other)
 		new = self.astype(result_dtype,copy=True)
 		new *= other
 		return new
@@ -1347,19 +1364,32 @@ class quantum_operator(object):
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op /= other
+			if not _np.can_cast(_np.min_scalar_type(other),self._dtype,casting="same_kind"):
+				raise TypeError("cannot cast types")
+
+			for key in list(self._quantum_operator):
+				self._quantum_operator[key] = (self._quantum_operator[key] / other).astype(self._dtype,copy=False)
+
 			self._update_matvecs()
 			return self
 
 	def __div__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, other)
 		new = self.astype(result_dtype,copy=True)
 		new /= other
 		return new
 
+	def __rmul__(self,other):
+		return self.__mul__(other)
 
+	def __truediv__(self,other):
+		return self.__div__(other)
 
+	def __itruediv__(self,other):
+		return self.__idiv__(other)
 
 	def _check_hamiltonian_pars(self,pars):
 
-- 
2.43.0


From ed56a4c0da18bd336030e72dc797f364676b6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 046/159] fix: quantum_operator.dot of sparse arrays with dense
 components

---
 quspin/operators/quantum_operator_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index c1c3247..b07a444 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -11,6 +11,7 @@ from ..tools.matvec import _get_matvec_function
 from ._make_hamiltonian import make_static
 from ._make_hamiltonian import _check_almost_zero
 from ._make_hamiltonian import _matadd
+from ._make_hamiltonian import _matmul
 
 from . import hamiltonian_core
 
@@ -454,7 +455,7 @@ class quantum_operator(object):
 			sparse_constuctor = getattr(_sp,V.format+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
-				out = out + J*self._quantum_operator[key].dot(V)
+				out = out + J*_matmul(self._quantum_operator[key],V)
 			out = a*out
 
 		else:
-- 
2.43.0


From 2fbcd81388deeca69fb7eeb718a0177db0e6fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 047/159] fix: quantum_operator.aslinearoperator: the adjoint
 uses the conjugate parameters

---
 quspin/operators/quantum_operator_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index b07a444..bf5000b 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -999,7 +999,8 @@ class quantum_operator(object):
 		"""
 		pars = self._check_scalar_pars(pars)
 		matvec = functools.partial(_quantum_operator_dot,self,pars)
-		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars)
+		pars_conj = {key:_np.conj(J) for key,J in iteritems(pars)}
+		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars_conj)
 		return _sla.LinearOperator(self.get_shape,matvec,rmatvec=rmatvec,matmat=matvec,dtype=self._dtype)		
 
 	def tohamiltonian(self,pars={}):
-- 
2.43.0


From 0058966c54116aa5d8cc90abc961df934f274da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 048/159] fix: hamiltonian.diagonal added the dynamic part to
 the stored static part

The diagonal of a dia matrix is a view of its data (and read-only for dense
matrices, which raised).
---
 quspin/operators/hamiltonian_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3c6ea4d..57aaa4c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1910,7 +1910,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		diagonal = self._static.diagonal()
+		diagonal = self._static.diagonal().copy()
 		for func,Hd in iteritems(self._dynamic):
 			diagonal += Hd.diagonal() * func(time)
 
-- 
2.43.0


From cafb2f3c0f9a4948b469adc04c4d55ab59f083e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 049/159] fix: hamiltonian.rdot raised unless out was given

---
 quspin/operators/hamiltonian_core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 57aaa4c..fb8cd84 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -755,16 +755,19 @@ class hamiltonian(object):
 		if ndim not in [1,2,3]:
 			raise ValueError("expecting V.ndim < 4.")
 
+		if out is not None:
+			out = out.T
+
 		if ndim == 1:
-			return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return self.transpose().dot(V,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a)
 		elif ndim == 2:
 			if _np.array(times).ndim>0:
-				return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+				return self.transpose().dot(V,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a)
 			else:
-				return self.transpose().dot(V.transpose(),time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+				return self.transpose().dot(V.transpose(),time=times,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose()
 		else:
 			V_transpose = V.transpose((1,0,2))
-			return self.transpose().dot(V_transpose,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
+			return self.transpose().dot(V_transpose,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
 
 	def quant_fluct(self,V,time=0,check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `hamiltonian` operator at time `time`, in state `V`.
-- 
2.43.0


From 9a55d7e63dfb7e31eaab1d35ee293a6979c6971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 050/159] fix: hamiltonian.dot of sparse arrays with dense
 parts or time lists raised

---
 quspin/operators/hamiltonian_core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index fb8cd84..81bfdd7 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -638,7 +638,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V):
 				V = V.tocsc()
-				return _sp.vstack([a*self.dot(V.get_col(i),time=t,check=check) for i,t in enumerate(time)])
+				return _sp.hstack([_sp.csc_matrix(a*self.dot(V[:,[i]],time=t,check=check)) for i,t in enumerate(time)],format="csc")
 			else:
 				if V.ndim == 3 and V.shape[0] != V.shape[1]:
 					raise ValueError("Density matrices must be square!")
@@ -687,10 +687,9 @@ class hamiltonian(object):
 				if out is not None:
 					raise TypeError("'out' option does not apply for sparse inputs.")
 
-				out = self._static * V
+				out = _matmul(self._static,V)
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd.dot(V))
-
+					out = out + func(time)*_matmul(Hd,V)
 				out = a*out
 			else:
 				# should we raise an error here?
-- 
2.43.0


From 5b2ac6a414f814b6b07e5f3bbab459c7c8d3160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 051/159] fix: hamiltonian.expt_value of sparse pure states and
 in one-dimensional spaces

---
 quspin/operators/hamiltonian_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 81bfdd7..6d8b0ad 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -884,7 +884,7 @@ class hamiltonian(object):
 	def _expt_value_core(self,V_left,V_right,time=0,enforce_pure=False):
 		if _np.array(time).ndim > 0: # multiple time point expectation values
 			if _sp.issparse(V_right): # multiple pure states multiple time points
-				return (V_left.H.dot(V_right)).diagonal()
+				return (V_left.conj().T.dot(V_right)).diagonal()
 			else:
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
@@ -896,12 +896,12 @@ class hamiltonian(object):
 
 			if _sp.issparse(V_right):
 				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-					return _np.asscalar((V_left.H.dot(V_right)).toarray())
+					return (V_left.conj().T.dot(V_right)).diagonal().squeeze()
 				else: # density matrix
 					return V_right.diagonal().sum()
 			else:
-				V_right = _np.asarray(V_right).squeeze()
-				if V_right.ndim == 1: # pure state
+				V_right = _np.asarray(V_right)
+				if V_right.ndim == 1 or (V_right.shape[1] == 1 and V_right.shape[0] != 1): # pure state
 					return _np.vdot(V_left,V_right)
 				elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 					return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From 96f80ac721573a4aef9d437b92887be49421e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 052/159] fix: hamiltonian.toarray and todense did not add
 sparse dynamic parts to the given array

---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 6d8b0ad..f4dc709 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1634,7 +1634,7 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) * func(time)
 		
 		return out
 
@@ -1680,7 +1680,7 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd) * func(time)
 		
 		return out
 
-- 
2.43.0


From 0d5c1229b7f9694a1b1066ad288f940459d9dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 053/159] fix: expectation values of sparse states with dense
 operators

---
 quspin/operators/hamiltonian_core.py      | 3 +++
 quspin/operators/quantum_operator_core.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index f4dc709..c779e34 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -901,6 +901,9 @@ class hamiltonian(object):
 					return V_right.diagonal().sum()
 			else:
 				V_right = _np.asarray(V_right)
+				if _sp.issparse(V_left):
+					V_left = V_left.toarray()
+
 				if V_right.ndim == 1 or (V_right.shape[1] == 1 and V_right.shape[0] != 1): # pure state
 					return _np.vdot(V_left,V_right)
 				elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index bf5000b..bb460c2 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -635,6 +635,9 @@ class quantum_operator(object):
 				return V_right.diagonal().sum()
 		else:
 			V_right = _np.asarray(V_right)
+			if _sp.issparse(V_left):
+				V_left = V_left.toarray()
+
 			if V_right.ndim == 1 or (V_right.shape[1] == 1 and V_right.shape[0] != 1): # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
-- 
2.43.0


From 1154354b16792ab970455c192d78780d2774db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 054/159] fix: quantum_LinearOperator exchanged transposition
 and conjugation

The flags were passed to inplace_Op in the wrong order and the diagonal was
never conjugated; dot with out used undefined names and ignored a.
---
 .../operators/quantum_LinearOperator_core.py  | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22a0ab6..22e4ae4 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -192,12 +192,15 @@ class quantum_LinearOperator(LinearOperator):
 	def diagonal(self):
 		"""numpy.ndarray: static diagonal part of the linear operator. """
 		if self._diagonal is not None:
-			diagonal_view=self._diagonal[:]
+			diagonal_view=self._get_diagonal()[:]
 			diagonal_view.setflags(write=0,uic=0)
 			return diagonal_view
 		else:
 			return None
 
+	def _get_diagonal(self):
+		return self._diagonal.conj() if self._conjugated else self._diagonal
+
 	def set_diagonal(self,diagonal,copy=True):
 		"""Sets the diagonal part of the quantum_LinearOperator.
 
@@ -214,6 +217,9 @@ class quantum_LinearOperator(LinearOperator):
 		if diagonal.shape[0] != self.Ns:
 			raise ValueError("length of diagonal must be equal to dimension of matrix")
 
+		if self._conjugated:
+			diagonal = diagonal.conj()
+
 		if copy:
 			self._diagonal = diagonal.copy()
 		else:
@@ -302,15 +308,18 @@ class quantum_LinearOperator(LinearOperator):
 			out = _np.asanyarray(out)
 			result_dtype = _np.result_type(self._dtype,other.dtype)
 
-			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,shape)):
+			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,other.shape)):
 				raise ValueError("out must be C-congituous writable array \
-					with dtype {} and shape {}.".format(result_dtype,self._shape))
+					with dtype {} and shape {}.".format(result_dtype,other.shape))
 
-			if self.diagonal is not None:
-				_np.multiply(other.T,self.diagonal,out=out.T)
+			if self._diagonal is not None:
+				_np.multiply(other.T,self._get_diagonal(),out=out.T)
+			else:
+				out[...] = 0
 
 			self.basis.inplace_Op(other, self._static_list, self._dtype,
-				self._conjugated,self._transposed,v_out=out,a=a)
+				transposed=self._transposed,conjugated=self._conjugated,v_out=out)
+			out *= a
 
 			return out
 		else:
@@ -491,10 +500,10 @@ class quantum_LinearOperator(LinearOperator):
 		new_other = _np.zeros_like(other)
 		
 		if self._diagonal is not None:
-			_np.multiply(other.T,self._diagonal,out=new_other.T)
+			_np.multiply(other.T,self._get_diagonal(),out=new_other.T)
 
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
-							self._conjugated,self._transposed,v_out=new_other)
+							transposed=self._transposed,conjugated=self._conjugated,v_out=new_other)
 
 		return new_other
 
-- 
2.43.0


From a0fbdfe0e133ccdc73f3e9ade4d4d3f25ff6ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 055/159] fix: quantum_LinearOperator: T, H, conj() and v * A
 changed the operator itself

copy() and getH(copy=True) raised.
---
 .../operators/quantum_LinearOperator_core.py  | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22e4ae4..9d31863 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -16,6 +16,7 @@ from ..basis import isbasis as _isbasis
 import scipy.sparse.linalg as _sla
 import scipy.sparse as _sp
 import numpy as _np
+import copy as _copy
 
 from scipy.sparse.linalg import LinearOperator
 
@@ -566,8 +567,9 @@ class quantum_LinearOperator(LinearOperator):
 		if copy:
 			return self.copy().transpose()
 		else:
-			self._transposed = not self._transposed
-			return self
+			new = _copy.copy(self)
+			new._transposed = not self._transposed
+			return new
 
 	def conjugate(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -587,8 +589,9 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_conj = H.conj()
 
 		"""
-		self._conjugated = not self._conjugated
-		return self
+		new = _copy.copy(self)
+		new._conjugated = not self._conjugated
+		return new
 
 	def conj(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -630,7 +633,7 @@ class quantum_LinearOperator(LinearOperator):
 
 		"""
 		if copy:
-			return self.copy().get_H()
+			return self.copy().getH()
 		else:
 			return self.conj().transpose()
 
@@ -638,9 +641,13 @@ class quantum_LinearOperator(LinearOperator):
 
 	def copy(self):
 		"""Returns a deep copy of `quantum_LinearOperator` object."""
-		return quantum_LinearOperator(list(self._static_list),basis=self._basis,
-							diagonal=self._diagonal,dtype=self._dtype,
-							check_symm=False,check_herm=False,check_pcon=False,copy=True)
+		new = _copy.copy(self)
+		new._static_list = list(self._static_list)
+		new._public_static_list = list(self._public_static_list)
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.copy()
+
+		return new
 
 	def __repr__(self):
 		return "<{0}x{1} quspin quantum_LinearOperator of type '{2}'>".format(*(self._shape[0],self._shape[1],self._dtype))
-- 
2.43.0


From 6603957f4e5ca041b628439065d112cb9ec3b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 056/159] fix: quantum_LinearOperator.quant_fluct used
 undefined names

---
 quspin/operators/quantum_LinearOperator_core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 9d31863..c4a96e2 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -367,13 +367,13 @@ class quantum_LinearOperator(LinearOperator):
 
 		# fluctuations =  expctH2 - expctH^2
 		kwargs = dict(enforce_pure=enforce_pure)
-		V_dot = self.dot(V,check=check)
+		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if len(V.shape) == 1 or V.shape[0] != V.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
@@ -424,12 +424,12 @@ class quantum_LinearOperator(LinearOperator):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.conj().T.dot(V_right)).diagonal().squeeze()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_right = _np.asarray(V_right)
+			if V_right.ndim == 1 or (V_right.shape[1] == 1 and V_right.shape[0] != 1): # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From f4769129d4d9166a698c35616cf3b003d7a2a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 057/159] fix: products of quantum_LinearOperator with scalars
 returned None

---
 quspin/operators/quantum_LinearOperator_core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index c4a96e2..625ae28 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -105,7 +105,6 @@ class quantum_LinearOperator(LinearOperator):
 		self._unique_me = self.basis._unique_me
 		self._transposed = False
 		self._conjugated = False
-		self._scale = _np.array(1.0,dtype=dtype)
 		self._dtype = dtype
 		self._ndim = 2
 		self._shape = (self._basis.Ns,self._basis.Ns)
@@ -777,8 +776,17 @@ class quantum_LinearOperator(LinearOperator):
 			return (self.T._mul_sparse(other.T)).T
 
 	def _mul_scalar(self,other):
-		self._dtype = _np.result_type(self._dtype,other)
-		self._scale *= other
+		new = self.copy()
+		new._dtype = _np.result_type(self._dtype,other)
+		if self._conjugated:
+			other = _np.conj(other)
+
+		new._static_list = [(opstr,indx,other*J) for opstr,indx,J in self._static_list]
+		new._public_static_list = [[opstr,[[other*bond[0]]+list(bond[1:]) for bond in bonds]] for opstr,bonds in self._public_static_list]
+		if self._diagonal is not None:
+			new._diagonal = other*self._diagonal
+
+		return new
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-- 
2.43.0


From 9f1f1c11b55be985e67d0a16dc075f9959b31c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 058/159] fix: products of quantum_LinearOperator with sparse
 matrices and hamiltonians raised

---
 quspin/operators/quantum_LinearOperator_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 625ae28..4e74c36 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -790,7 +790,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__mul__(other._static_list)
+		static = self.__mul__(other.static)
 		dynamic = [[self.__mul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
@@ -798,14 +798,14 @@ class quantum_LinearOperator(LinearOperator):
 	def _mul_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
 		if self.diagonal is not None:
-			new_other = _sp.dia_matrix((_np.asarray([self._diagonal]),_np.array([0])),shape=self._shape).dot(other)
+			new_other = _sp.dia_matrix((_np.asarray([self._get_diagonal()]),_np.array([0])),shape=self._shape).dot(other)
 			if new_other.dtype != result_dtype:
 				new_other = new_other.astype(result_dtype)
 		else:
 			new_other = _sp.csr_matrix(other.shape,dtype=result_dtype)
 
 
-		for opstr,indx,J in self.static_list:
+		for opstr,indx,J in self._static_list:
 			if not self._transposed:
 				ME, row, col = self.basis.Op(opstr, indx, J, self._dtype)
 			else:
@@ -820,7 +820,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__rmul__(other._static_list)
+		static = self.__rmul__(other.static)
 		dynamic = [[self.__rmul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
 							basis=self._basis,dtype=result_dtype,copy=False)
-- 
2.43.0


From 491e23404250d0e42ef519a41db1e698d7a33705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:04 +0000
Subject: [PATCH 059/159] fix: dense results of operators acting on sparse
 arrays are plain arrays

---
 quspin/operators/hamiltonian_core.py      | 2 ++
 quspin/operators/quantum_operator_core.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index c779e34..768ea7e 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -691,6 +691,8 @@ class hamiltonian(object):
 				for func,Hd in iteritems(self._dynamic):
 					out = out + func(time)*_matmul(Hd,V)
 				out = a*out
+				if not _sp.issparse(out):
+					out = _np.asarray(out)
 			else:
 				# should we raise an error here?
 				pass
diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index bb460c2..f88a205 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -457,6 +457,8 @@ class quantum_operator(object):
 			for key,J in pars.items():
 				out = out + J*_matmul(self._quantum_operator[key],V)
 			out = a*out
+			if not _sp.issparse(out):
+				out = _np.asarray(out)
 
 		else:
 			if out is not None:
-- 
2.43.0


From 550528d9a7fc3a9ed014be99e4e360d6b8722b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 060/159] fix: Liouville-von Neumann evolution used rho H^T for
 csr and csc hamiltonians

The transpose of a csr matrix is a csc matrix (and the other way around), but
the matvec of the matrix itself was called for it.
---
 quspin/operators/hamiltonian_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 768ea7e..94a8118 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1278,11 +1278,11 @@ class hamiltonian(object):
 		"""
 		rho = rho.reshape((self.Ns,self.Ns))
 		self._static_matvec(self._static  ,rho  ,out=rho_out  ,a=+1.0,overwrite_out=True) # rho_out = self._static.dot(rho)
-		self._static_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
+		_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
 		for func,Hd in iteritems(self._dynamic):
 			ft = func(time)
 			self._dynamic_matvec[func](Hd  ,rho  ,out=rho_out  ,a=+ft,overwrite_out=False) # rho_out += ft*Hd.dot(rho)
-			self._dynamic_matvec[func](Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
+			_matvec(Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
 
 		rho_out *= -1j
 		return rho_out.ravel()
-- 
2.43.0


From 1248f04980c99e2faf8f429dd5f7f29f62970d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 061/159] fix: stack_state evolution of several states at once
 raised

---
 quspin/operators/hamiltonian_core.py |  2 +-
 quspin/tools/evolution.py            | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 94a8118..ff96546 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1329,7 +1329,7 @@ class hamiltonian(object):
 			self._dynamic_matvec[func](Hd,V[self._Ns:],out=V_out[:self._Ns],a=+ft,overwrite_out=False) # V_dot[:self._Ns] += func(time)*Hd.dot(V[self._Ns:])
 			self._dynamic_matvec[func](Hd,V[:self._Ns],out=V_out[self._Ns:],a=-ft,overwrite_out=False) # V_dot[self._Ns:] += -func(time)*Hd.dot(V[:self._Ns])
 
-		return V_out
+		return V_out.ravel()
 
 	def __SO(self,time,V,V_out):
 		"""
diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 2de0ef1..e90c397 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -289,11 +289,11 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 		complex_valued = False
 		v1 = v0.copy()
 		if ndim == 1:
-			v0 = _np.zeros(2*shape0[0],dtype=v1.real.dtype)
+			v0 = _np.zeros(2*shape0[0],dtype=_np.float64)
 			v0[:shape0[0]] = v1.real
 			v0[shape0[0]:] = v1.imag
 		else:
-			v0 = _np.zeros(2*shape0_ravelled[0],dtype=v1.real.dtype)
+			v0 = _np.zeros(2*shape0_ravelled[0],dtype=_np.float64)
 			v0[:shape0_ravelled[0]] = v1.real
 			v0[shape0_ravelled[0]:] = v1.imag
 
@@ -343,10 +343,10 @@ def _cmplx_f(t,y,f,f_params):
 
 
 def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
-	Ns = shape0[0]
 	if stack_state:
-		yout = y[:Ns].astype(_np.complex128).reshape(shape0)
-		yout[...] += 1j*y[Ns:].reshape(shape0)
+		N = len(y)//2
+		yout = y[:N].astype(_np.complex128).reshape(shape0)
+		yout[...] += 1j*y[N:].reshape(shape0)
 	elif complex_valued:
 		yout = y.view(_np.complex128).reshape(shape0)
 	else:
-- 
2.43.0


From 8e19bb40294ef0adf2802df31821b5283e4292f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 062/159] fix: imaginary time evolution of several states kept
 the norm of all states together

---
 quspin/tools/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index e90c397..fa82634 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -280,7 +280,7 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 	if _np.iscomplexobj(times):
 		raise ValueError("times must be real number(s).")
 
-	n = _np.linalg.norm(v0) # needed for imaginary time to preserve the proper norm of the state. 
+	n = _np.linalg.norm(v0.reshape(shape0),axis=0) # needed for imaginary time to preserve the proper norm of the state. 
 
 	if stack_state:
 		if imag_time:
-- 
2.43.0


From d78c512b4dc6778c7f07f88d3ae7c1566ef1a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 063/159] fix: evolve of integer states in imaginary time, and
 states returned at t0 shared the caller's memory

---
 quspin/tools/evolution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index fa82634..641ff68 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -301,6 +301,7 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 		solver.set_f_params(*f_params)
 	elif real:
 		complex_valued = False
+		v0 = v0.astype(_np.float64)
 		solver = ode(f) # y_f = f(t,y,*args)
 		solver.set_f_params(*f_params)
 	else:
@@ -361,7 +362,7 @@ def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
 
 def _evolve_scalar(solver,v0,t0,time,*output_args):
 	if time == t0:
-		return _format_output(v0,*output_args)
+		return _format_output(v0.copy(),*output_args)
 
 	solver.integrate(time)
 	if solver.successful():
@@ -382,7 +383,7 @@ def _evolve_list(solver,v0,t0,times,verbose,*output_args):
 	for i,t in enumerate(times):
 
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			v[i,...] = y_fmt
 			continue
@@ -410,7 +411,7 @@ def _evolve_iter(solver,v0,t0,times,verbose,*output_args):
 
 	for i,t in enumerate(times):
 		if t == t0:
-			y_fmt = _format_output(v0,*output_args)
+			y_fmt = _format_output(v0.copy(),*output_args)
 			if verbose: print("evolved to time {0}, norm of state(s) {1}".format(t,norm(y_fmt,axis=0)))
 			yield y_fmt
 			continue
-- 
2.43.0


From 4be0be322105b6a896324ce863dd8088184bc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 064/159] fix: the reduced density matrix of subsystem B was
 its complex conjugate

---
 quspin/basis/_reshape_subsys.py | 24 ++++++++++++------------
 quspin/basis/lattice.py         |  4 ++--
 quspin/basis/tensor.py          |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 7e0e3c0..4121cf6 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -22,9 +22,9 @@ def _lattice_partial_trace_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 
 def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -35,9 +35,9 @@ def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.einsum("...jlkl->...jk",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.einsum("...ljlk->...jk",rho_v.conj())
+		return None,_np.einsum("...ljlk->...jk",rho_v)
 	elif return_rdm == "both":
-		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v.conj())
+		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v)
 
 def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -49,9 +49,9 @@ def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.H.dot(psi)
+		return None,psi.T.dot(psi.conj())
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.H.dot(psi)
+		return psi.dot(psi.H),psi.T.dot(psi.conj())
 
 
 def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
@@ -260,9 +260,9 @@ def _tensor_partial_trace_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
 
 
 def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -271,9 +271,9 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.H.dot(psi)
+		return None,psi.T.dot(psi.conj())
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.H.dot(psi)
+		return psi.dot(psi.H),psi.T.dot(psi.conj())
 
 
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -281,6 +281,6 @@ def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 74b479b..2a3ae54 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -458,10 +458,10 @@ class lattice_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 
 		
 		return lmbda**2 + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index af582a6..2e8d0e5 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -691,10 +691,10 @@ class tensor_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
 
 		return (lmbda**2) + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
 
-- 
2.43.0


From 7b45285f8fc680125a86d7dd9d892afeb4305bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 065/159] fix: the sites of subsystem B were in hash order, not
 in ascending order

---
 quspin/basis/_reshape_subsys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 4121cf6..80e4e6e 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -61,7 +61,7 @@ def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
 	"""
 	extra_dims = psi.shape[:-1]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -85,7 +85,7 @@ def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
 	"""
 	extra_dims = psi.shape[:-1]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -112,7 +112,7 @@ def _lattice_reshape_mixed(rho,sub_sys_A,L,sps):
 	"""
 	extra_dims = rho.shape[:-2]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -142,7 +142,7 @@ def _lattice_reshape_mixed(rho,sub_sys_A,L,sps):
 	"""
 	extra_dims = rho.shape[:-2]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -173,7 +173,7 @@ def _lattice_reshape_sparse_pure(psi,sub_sys_A,L,sps):
 	"""
 	This function reshapes the sparse pure state psi over the Hilbert space defined by sub_sys_A and its complement. 
 	"""
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
-- 
2.43.0


From 26879ae6e97403953e2c18c09ba7a2dd5c8bde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 066/159] fix: the partial trace of a sparse state overwrote
 the indices of the caller's matrix

---
 quspin/basis/_reshape_subsys.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 80e4e6e..d31b8eb 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -206,12 +206,7 @@ def _lattice_reshape_sparse_pure(psi,sub_sys_A,L,sps):
 	# print("rows: A.reshape((3,4))/4: \n {}".format(A.reshape((3,4))/4))
 	# print("cols: A.reshape((3,4))%4: \n {}".format(A.reshape((3,4))%4))
 
-	psi._shape = (Ns_A,Ns_B)
-	psi.row[:] = indx / Ns_B
-	psi.col[:] = indx % Ns_B
-
-
-	return psi.tocsr()
+	return _sp.csr_matrix((psi.data,(indx//Ns_B,indx%Ns_B)),shape=(Ns_A,Ns_B))
 
 
 def _tensor_reshape_pure(psi,sub_sys_A,Ns_l,Ns_r):
@@ -232,15 +227,9 @@ def _tensor_reshape_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r):
 	# j_l = j / Ns_r
 	# j_r = j % Ns_r 
 	if sub_sys_A == "left":
-		psi._shape = (Ns_l,Ns_r)
-		psi.row[:] = psi.col / Ns_r
-		psi.col[:] = psi.col % Ns_r
-		return psi.tocsr()
+		return _sp.csr_matrix((psi.data,(psi.col//Ns_r,psi.col%Ns_r)),shape=(Ns_l,Ns_r))
 	else:
-		psi._shape = (Ns_l,Ns_r)
-		psi.row[:] = psi.col / Ns_r
-		psi.col[:] = psi.col % Ns_r
-		return psi.T.tocsr()
+		return _sp.csr_matrix((psi.data,(psi.col%Ns_r,psi.col//Ns_r)),shape=(Ns_r,Ns_l))
 
 
 def _tensor_reshape_mixed(rho,sub_sys_A,Ns_l,Ns_r):
-- 
2.43.0


From a3c5171c3306c0f689d838e7469885ed3e5bc893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 067/159] fix: a subsystem site equal to the number of sites
 was accepted

---
 quspin/basis/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 2a3ae54..56948ec 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -163,7 +163,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in sub_sys_A if sub_sys_A.count(s) > 1)
@@ -278,7 +278,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in set(sub_sys_A) if sub_sys_A.count(s) > 1)
-- 
2.43.0


From 7792cff4ca7d5773036a39e4f6dab388cda18901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 068/159] fix: spinful_fermion_basis_1d.partial_trace raised
 unless return_rdm was given

---
 quspin/basis/basis_1d/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 898d278..e46baf2 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -440,7 +440,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 	def state_to_int(self,*args):
 		""" Not Implemented."""
 
-	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm=None,enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
+	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm="A",enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
 		"""Calculates reduced density matrix, through a partial trace of a quantum state in a lattice `basis`.
 
 		Parameters
-- 
2.43.0


From 78822e6d4da68ccfac1ea2ac22484f0340acb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 069/159] fix: spinful_fermion_basis_general.ent_entropy offset
 the spin-down sites by twice the number of sites

---
 quspin/basis/basis_general/fermion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 576c84a..64fc612 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -595,7 +595,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		"""
 		if self._simple_symm:
 			if sub_sys_A is None:
-				sub_sys_A = (list(range(self.N//2)),list(range(self.N//2)))
+				sub_sys_A = (list(range(self.N//4)),list(range(self.N//4))) # self.N counts 2N sites
 
 			if type(sub_sys_A) is tuple and len(sub_sys_A) != 2:
 				raise ValueError("sub_sys_A must be a tuple which contains the subsystems for the up spins in the \
@@ -604,10 +604,10 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			sub_sys_A_up,sub_sys_A_down = sub_sys_A
 
 			sub_sys_A = list(sub_sys_A_up)
-			sub_sys_A.extend([i+self.N for i in sub_sys_A_down])
+			sub_sys_A.extend([i+self.N//2 for i in sub_sys_A_down])
 		else:
 			if sub_sys_A is None:
-				sub_sys_A = [i for i in range(self.N//2)]+[self.N+i for i in range(self.N//2)]
+				sub_sys_A = [i for i in range(self.N//4)]+[self.N//2+i for i in range(self.N//4)]
 
 		return spinless_fermion_basis_general._ent_entropy(self,state,sub_sys_A,density=density,
 						subsys_ordering=subsys_ordering,return_rdm=return_rdm,
-- 
2.43.0


From 35b94773b29448037186ba1a9c99e5d3facad690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 070/159] fix: spinful_fermion_basis_general.partial_trace did
 not take the subsystem of either species

---
 quspin/basis/basis_general/fermion.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 64fc612..73209ca 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -514,6 +514,24 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 	# override for _inplace_Op and Op_shift_sector. #
 	#################################################
 
+	def partial_trace(self,state,sub_sys_A=None,subsys_ordering=True,return_rdm="A",enforce_pure=False,sparse=False):
+		"""Calculates reduced density matrix, through a partial trace of a quantum state in a lattice `basis`.
+
+		Same as `partial_trace()` of the other lattice bases; for `simple_symm=True` the subsystem has the format
+		`(spin_up_subsys,spin_down_subsys)`, as in `ent_entropy()`.
+
+		"""
+		if sub_sys_A is None:
+			sub_sys_A = [i for i in range(self.N//4)]+[self.N//2+i for i in range(self.N//4)] # self.N counts 2N sites
+		elif self._simple_symm and len(sub_sys_A)==2 and all(hasattr(sub,"__iter__") for sub in sub_sys_A):
+			sub_sys_A_up,sub_sys_A_down = sub_sys_A
+			sub_sys_A = list(sub_sys_A_up)
+			sub_sys_A.extend([i+self.N//2 for i in sub_sys_A_down])
+
+		return spinless_fermion_basis_general._partial_trace(self,state,sub_sys_A=sub_sys_A,
+						subsys_ordering=subsys_ordering,return_rdm=return_rdm,
+						enforce_pure=enforce_pure,sparse=sparse)
+
 	def ent_entropy(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm=None,enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None,svd_solver=None, svd_kwargs=None,):
 		"""Calculates entanglement entropy of subsystem A and the corresponding reduced density matrix
 
-- 
2.43.0


From 3d30bd9c334f6914c67fc7a9419081fda401c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:44 +0000
Subject: [PATCH 071/159] fix: ent_entropy with a custom svd_solver stored the
 factors in arrays of the wrong shape and type

---
 quspin/basis/lattice.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 56948ec..c19b807 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -438,22 +438,14 @@ class lattice_basis(basis):
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				lmbda = _np.linalg.svd(v, compute_uv=False) 
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
 				# loop over states
-				for j in range(v.shape[0]):
-					lmbda[j,...] = svd_solver(v[j,...], **svd_kwargs)	
+				lmbda = _np.stack([svd_solver(v[j,...], **svd_kwargs) for j in range(v.shape[0])])
 		else:
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				U, lmbda, V =  _np.linalg.svd(v, full_matrices=False)
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
-				U=_np.zeros(v.shape,dtype=state.dtype)
-				V=_np.zeros_like(U)
 				# loop over states
-				for j in range(v.shape[0]):
-					U[j,...], lmbda[j,...], V[j,...] = svd_solver(v[j,...], **svd_kwargs)
+				U, lmbda, V = [_np.stack(x) for x in zip(*(svd_solver(v[j,...], **svd_kwargs) for j in range(v.shape[0])))]
 			
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-- 
2.43.0


From 1c363d2ee3d6dc959afd2994cca0eda9bbf0ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 072/159] fix: ent_entropy of sparse states reordered the
 subsystem in spite of subsys_ordering=False

---
 quspin/basis/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index c19b807..ac1fb1c 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -460,7 +460,7 @@ class lattice_basis(basis):
 
 	def _p_pure_sparse(self,state,sub_sys_A,return_rdm=None,sparse_diag=True,maxiter=None):
 
-		partial_trace_args = dict(sub_sys_A=sub_sys_A,sparse=True,enforce_pure=True)
+		partial_trace_args = dict(sub_sys_A=sub_sys_A,sparse=True,enforce_pure=True,subsys_ordering=False)
 
 		N_A=len(sub_sys_A)
 		N_B=self.N-N_A
-- 
2.43.0


From 2bc6cae7617e3bf7a13f7cd97522421bae74d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 073/159] fix: ent_entropy of many sparse states ignored
 sparse_diag and compared the number of states with 16

---
 quspin/basis/lattice.py | 4 ++--
 quspin/basis/tensor.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index ac1fb1c..34fcbd2 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -314,7 +314,7 @@ class lattice_basis(basis):
 				p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 			else:
 				if state.shape[0]!=state.shape[1] or enforce_pure:
-					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm)
+					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 				else: 
 					raise ValueError("Expecting a dense array for mixed states.")
 					
@@ -495,7 +495,7 @@ class lattice_basis(basis):
 			else:
 				rdm = rdm_B
 
-		if sparse_diag and rdm.shape[0] > 16:
+		if sparse_diag and (rdm if _sp.issparse(rdm) else rdm[0]).shape[0] > 16:
 
 			def get_p_patchy(rdm):
 				n = rdm.shape[0]
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 2e8d0e5..bcde900 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -570,7 +570,7 @@ class tensor_basis(basis):
 				p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 			else:
 				if state.shape[0]!=state.shape[1] or enforce_pure:
-					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm)
+					p, rdm_A, rdm_B = self._p_pure_sparse(state,sub_sys_A,return_rdm=return_rdm,sparse_diag=sparse_diag,maxiter=maxiter)
 				else: 
 					raise ValueError("Expecting a dense array for mixed states.")
 					
@@ -740,7 +740,7 @@ class tensor_basis(basis):
 			else:
 				rdm = rdm_B
 
-		if sparse_diag and rdm.shape[0] > 16:
+		if sparse_diag and (rdm if _sp.issparse(rdm) else rdm[0]).shape[0] > 16:
 
 			def get_p_patchy(rdm):
 				n = rdm.shape[0]
-- 
2.43.0


From 0088ddc2bf26caccea6f98467e85cda0fbd4100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 074/159] fix: ent_entropy of many sparse states in a tensor
 basis stacked a generator

---
 quspin/basis/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index bcde900..23e104b 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -753,7 +753,7 @@ class tensor_basis(basis):
 				p = get_p_patchy(rdm)
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (get_p_patchy(dm) for dm in rdm[:])
+				p_gen = [get_p_patchy(dm) for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		else:
@@ -761,7 +761,7 @@ class tensor_basis(basis):
 				p = eigvalsh(rdm.todense())[::-1] + _np.finfo(rdm.dtype).eps
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:])
+				p_gen = [eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		return p,rdm_A,rdm_B
-- 
2.43.0


From bbb5ca9f334232cc9b5156dbe889a3c2c3cf25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 075/159] fix: the Renyi entropy of a tensor basis divided by
 1-alpha inside of the logarithm

---
 quspin/basis/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 23e104b..1211db9 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -630,9 +630,9 @@ class tensor_basis(basis):
 				Sent_B = - _np.nansum(p_B * _np.log(p_B),axis=-1)
 		elif alpha >= 0.0:
 			if p_A is not None:
-				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1)/(1.0-alpha))
+				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1))/(1.0-alpha)
 			if p_B is not None:
-				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1)/(1.0-alpha))
+				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1))/(1.0-alpha)
 		else:
 			raise ValueError("alpha >= 0")
 
-- 
2.43.0


From 1cc2ae0ef7441808a54422d6808dabc089f63665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 076/159] fix: partial_trace of many density matrices in a
 tensor basis mixed the index of the matrix with its rows

---
 quspin/basis/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 1211db9..5526871 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -459,6 +459,7 @@ class tensor_basis(basis):
 					rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
 
 			elif state.ndim==3: #3D DM 
+				state = state.transpose((2,0,1))
 				rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
 			else:
 				raise ValueError("state must have ndim < 4")
-- 
2.43.0


From 403c21b573ff39d6fd7270256cfc04ebffedcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 077/159] fix: sparse partial_trace in a tensor basis took the
 amplitudes of a one-dimensional state for many states

---
 quspin/basis/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 5526871..8bc5abd 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -417,7 +417,7 @@ class tensor_basis(basis):
 
 		if _sp.issparse(state) or sparse:
 			if not _sp.issparse(state):
-				state = _sp.csr_matrix(state)
+				state = _sp.csr_matrix(state.reshape((-1,1)) if state.ndim == 1 else state)
 
 			state = state.T
 			if state.shape[0] == 1:
-- 
2.43.0


From c14007e6de8e3de1e8ae535fa6b5503b1c142ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 078/159] fix: ent_entropy of sparse states in a tensor basis
 returned reduced density matrices wrapped in an object array

---
 quspin/basis/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 8bc5abd..d0cb981 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -561,6 +561,7 @@ class tensor_basis(basis):
 
 		pure=True # set pure state parameter to True
 		if _sp.issparse(state) or sparse:
+			sparse=True # set sparse flag to True
 			if not _sp.issparse(state):
 				if state.ndim == 1:
 					state = _sp.csr_matrix(state).T
-- 
2.43.0


From ce754d22e5c5f49a4d1528665a78e86a0abb2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 079/159] fix: ent_entropy of a photon basis ignored
 enforce_pure and return_rdm_EVs

---
 quspin/basis/photon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a668815..b3758f0 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -631,7 +631,7 @@ class photon_basis(tensor_basis):
 
 		tensor_dict = {"particles":"left","photons":"right","both":"both","left":"left","right":"right",None:None}
 		if sub_sys_A in tensor_dict:
-			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
+			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,enforce_pure=enforce_pure,return_rdm_EVs=return_rdm_EVs,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
 		else:
 			raise ValueError("sub_sys_A '{}' not recognized".format(return_rdm))
 
-- 
2.43.0


From 75798e36bb7c66c273ba9b52fd6c8b0678e80c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 080/159] fix: partial_trace of many density matrices in a
 conserving photon basis used the projector to the full particle space

---
 quspin/basis/photon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index b3758f0..1cf998f 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -509,7 +509,7 @@ class photon_basis(tensor_basis):
 						proj_state = proj_state.reshape(shape0+(1,))					
 
 				elif state.ndim==3: #3D DM 
-					proj = self.get_proj(_dtypes[state.dtype.char])
+					proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
 					state = state.transpose((2,0,1))
 					
 					Ns_full = proj.shape[0]
-- 
2.43.0


From 17fd23a611331c0a69eab351f2f74a375d75a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 081/159] fix: pure states whose projection to the photon space
 is a square array were taken for a density matrix

---
 quspin/basis/photon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 1cf998f..f145efc 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -500,6 +500,7 @@ class photon_basis(tensor_basis):
 					if state.shape[0]!=state.shape[1] or enforce_pure:
 						# calculate full H-space representation of state
 						proj_state=self.project_from(state,sparse=False,full_part=False)
+						enforce_pure=True # the projected states may form a square array
 
 					else: 
 						proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
@@ -609,6 +610,7 @@ class photon_basis(tensor_basis):
 					if state.shape[0]!=state.shape[1] or enforce_pure:
 						# calculate full H-space representation of state
 						proj_state=self.project_from(state,sparse=False,full_part=False)
+						enforce_pure=True # the projected states may form a square array
 					else: 
 						proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
 						proj_state = proj*state*proj.H			
-- 
2.43.0


From 5e263cf9af59a6b02f8df5b5a4dfb09caddd1f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 082/159] fix: lifting a sparse state from a 1d momentum sector
 called the dtype instance of the state

---
 quspin/basis/basis_1d/base_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 16d4223..1a74bb4 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -744,6 +744,7 @@ class basis_1d(lattice_basis):
 
 		"""
 
+		dtype = _np.dtype(dtype).type # the states' dtype instances are not callable
 		norms = self._get_norms(dtype)
 
 		a = self._blocks_1d.get("a")
-- 
2.43.0


From 8bcba223f394adeda7b11cfb0c33ca546cf00681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:51 +0000
Subject: [PATCH 083/159] fix: expanded_form and check_pcon add up dynamic
 operators only if they share the drive

Two dynamic terms with the same operator string and sites but different
functions were merged into one term with the first function.
---
 quspin/basis/base.py | 51 ++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 42daeae..5e22477 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -433,16 +433,16 @@ class basis(object):
 
 		static = [[str(key),list(value)] for key,value in static_dict.items()]
 
-		dynamic_dict={}
+		dynamic = []
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
 			indx = list(indx)
 			indx.insert(0,J)
-			if (opstr,f,f_args) in dynamic_dict:
-				dynamic_dict[(opstr,f,f_args)].append(indx)
+			for op in dynamic:
+				if op[0] == opstr and _same_drive(op[2:],(f,f_args)):
+					op[1].append(indx)
+					break
 			else:
-				dynamic_dict[(opstr,f,f_args)] = [indx]
-
-		dynamic = [[opstr,indx,f,f_args] for (opstr,f,f_args),indx in dynamic_dict.items()]
+				dynamic.append([opstr,[indx],f,f_args])
 
 		return static,dynamic
 
@@ -824,28 +824,47 @@ class basis(object):
 					static_list.append((opstr,indx,J,ii))
 
 
+		# operators can only be added up if they are driven by the same function
 		dynamic_dict={}
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
-			if opstr in dynamic_dict:
-				if indx in dynamic_dict[opstr]:
-					dynamic_dict[opstr][indx][0] += J
-					dynamic_dict[opstr][indx][3].extend(ii)
-				else:
-					dynamic_dict[opstr][indx] = [J,f,f_args,ii]
+			terms = dynamic_dict.setdefault(opstr,{}).setdefault(indx,[])
+			for term in terms:
+				if _same_drive(term[1:3],(f,f_args)):
+					term[0] += J
+					term[3].extend(ii)
+					break
 			else:
-				dynamic_dict[opstr] = {indx:[J,f,f_args,ii]}
+				terms.append([J,f,f_args,ii])
 
 
 		dynamic_list = []
 		for opstr,opstr_dict in dynamic_dict.items():
-			for indx,(J,f,f_args,ii) in opstr_dict.items():
-				if _np.abs(J) > eps:
-					dynamic_list.append((opstr,indx,J,f,f_args,ii))
+			for indx,terms in opstr_dict.items():
+				for J,f,f_args,ii in terms:
+					if _np.abs(J) > eps:
+						dynamic_list.append((opstr,indx,J,f,f_args,ii))
 
 
 		return static_list,dynamic_list
 
 
+def _same_drive(drive1,drive2):
+	# compares the (f,f_args) part of two dynamic operators.
+	if len(drive1) != len(drive2):
+		return False
+	if not drive1:
+		return True
+
+	f1,args1 = drive1
+	f2,args2 = drive2
+	if f1 is not f2 and f1 != f2:
+		return False
+	if len(args1) != len(args2):
+		return False
+
+	return all(a1 is a2 or _np.array_equal(a1,a2) for a1,a2 in zip(args1,args2))
+
+
 def isbasis(obj):
 	"""Checks if instance is object of `basis` class.
 
-- 
2.43.0


From df368d748872e604d7802baff2a77e66608b72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 084/159] fix: expanded_form and check_pcon drop exactly the
 operator strings that vanish

'+-+' on one spin-1/2 was dropped (two raising operators on the site) and
strings on site 0 only were never dropped.
---
 quspin/basis/base.py                  | 16 ++++++++++++++++
 quspin/basis/basis_1d/boson.py        | 12 ++----------
 quspin/basis/basis_1d/fermion.py      | 13 ++-----------
 quspin/basis/basis_1d/spin.py         | 12 ++----------
 quspin/basis/basis_general/boson.py   | 12 ++----------
 quspin/basis/basis_general/fermion.py | 13 ++-----------
 quspin/basis/basis_general/spin.py    | 12 ++----------
 7 files changed, 28 insertions(+), 62 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 5e22477..cd8a3ca 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -848,6 +848,22 @@ class basis(object):
 		return static_list,dynamic_list
 
 
+def _within_levels(opstr,indx,nmax):
+	# an operator string vanishes if on some site the occupation it passes through 
+	# stretches over more than the nmax+1 states of that site.
+	change = {}
+	for op,i in zip(reversed(opstr),reversed(tuple(indx))):
+		if op == "+" or op == "-":
+			n,low,high = change.get(i,(0,0,0))
+			n += (1 if op == "+" else -1)
+			low,high = min(low,n),max(high,n)
+			if high-low > nmax:
+				return False
+			change[i] = (n,low,high)
+
+	return True
+
+
 def _same_drive(drive1,drive2):
 	# compares the (f,f_args) part of two dynamic operators.
 	if len(drive1) != len(drive2):
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index aad2a86..ecf1f1c 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _within_levels
 import numpy as _np
 
 
@@ -261,16 +262,7 @@ class boson_basis_1d(basis_1d):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _within_levels(op[0],op[1],self.sps-1)
 		
 
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index e46baf2..5b4dd93 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -1,7 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops,spf_basis,spf_ops
 from . import _check_1d_symm_spf as _check
 from .base_1d import basis_1d
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_within_levels
 import numpy as _np
 
 
@@ -778,16 +778,7 @@ def _sort_opstr_spinful(op):
 
 
 def _non_zero_spinless(op):
-	opstr = _np.array(list(op[0]))
-	indx = _np.array(op[1])
-	if _np.any(indx):
-		indx_p = indx[opstr == "+"].tolist()
-		p = not any(indx_p.count(x) > 1 for x in indx_p)
-		indx_p = indx[opstr == "-"].tolist()
-		m = not any(indx_p.count(x) > 1 for x in indx_p)
-		return (p and m)
-	else:
-		return True
+	return _within_levels(op[0],op[1],1)
 
 def _non_zero_spinful(op):
 		op = list(op)
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 46dbe25..6912bcf 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _within_levels
 import numpy as _np
 
 try:
@@ -275,16 +276,7 @@ class spin_basis_1d(basis_1d):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx>=0):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _within_levels(op[0],op[1],self.sps-1)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 2fff6c2..003f3ef 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -1,6 +1,7 @@
 from ._basis_general_core import boson_basis_core_wrap,get_basis_type,basis_zeros
 from .base_hcb import hcb_basis_general
 from .base_general import basis_general
+from ..base import _within_levels
 import numpy as _np
 from scipy.special import comb
 
@@ -259,16 +260,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _within_levels(op[0],op[1],self.sps-1)
 		
 
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 73209ca..fc50b37 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -2,7 +2,7 @@ from ._basis_general_core import spinful_fermion_basis_core_wrap
 from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
 from .base_general import basis_general,_check_symm_map
-from ..base import MAXPRINT
+from ..base import MAXPRINT,_within_levels
 import numpy as _np
 from scipy.special import comb
 
@@ -215,16 +215,7 @@ class spinless_fermion_basis_general(basis_general):
 
 	
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > 1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > 1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _within_levels(op[0],op[1],1)
 		
 
 
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 3a01061..fcd3020 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -1,5 +1,6 @@
 from .base_hcb import hcb_basis_general
 from .base_higher_spin import higher_spin_basis_general
+from ..base import _within_levels
 import numpy as _np
 
 try:
@@ -265,16 +266,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _within_levels(op[0],op[1],self.sps-1)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
-- 
2.43.0


From 64b27d7af2537a56c8f7d57d21164e7137d5c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 085/159] fix: check_hermitian adds up the couplings of
 repeated terms

The lists were compared as sets: a term listed twice with its conjugate
listed once was accepted, a term split over two entries refused.
---
 quspin/basis/base.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index cd8a3ca..60a8519 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import numpy as _np
+import math as _math
 import scipy.sparse as _sp
 import warnings,numba
 
@@ -465,7 +466,8 @@ class basis(object):
 			return
 
 		static_list,dynamic_list = self._get_local_lists(static,dynamic)
-		static_expand,static_expand_hc,dynamic_expand,dynamic_expand_hc = self._get_hc_local_lists(static_list,dynamic_list)
+		static_expand,static_expand_hc,dynamic_expand,dynamic_expand_hc = [_add_up_couplings(op_list) 
+				for op_list in self._get_hc_local_lists(static_list,dynamic_list)]
 		# calculate non-hermitian elements
 		diff = set( tuple(static_expand) ) - set( tuple(static_expand_hc) )
 
@@ -848,6 +850,30 @@ class basis(object):
 		return static_list,dynamic_list
 
 
+def _add_up_couplings(op_list):
+	# adds up the couplings of equal operators, the sum does not depend on the order of the list.
+	merged = []
+	positions = {}
+	for op in op_list:
+		op = tuple(op)
+		same_op = positions.setdefault((op[0],tuple(op[1])),[])
+		for i in same_op:
+			if _same_drive(merged[i][0][3:],op[3:]):
+				merged[i][1].append(complex(op[2]))
+				break
+		else:
+			same_op.append(len(merged))
+			merged.append((op,[complex(op[2])]))
+
+	new_list = []
+	for op,Js in merged:
+		J = complex(_math.fsum(J.real for J in Js),_math.fsum(J.imag for J in Js))
+		if J != 0:
+			new_list.append(op[:2]+(J,)+op[3:])
+
+	return tuple(new_list)
+
+
 def _within_levels(opstr,indx,nmax):
 	# an operator string vanishes if on some site the occupation it passes through 
 	# stretches over more than the nmax+1 states of that site.
-- 
2.43.0


From 85353d5ebd100ff5234f80c120bfbb9c5fc52c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 086/159] fix: check_symm adds up the couplings of repeated
 terms

A term listed twice whose image is listed once was accepted, a term split
over two entries refused.
---
 quspin/basis/basis_1d/base_1d.py           | 4 ++++
 quspin/basis/basis_1d/fermion.py           | 5 ++++-
 quspin/basis/basis_general/base_general.py | 4 ++++
 quspin/basis/basis_general/fermion.py      | 5 ++++-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 1a74bb4..170cdc1 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -1,4 +1,5 @@
 from ..lattice import lattice_basis
+from ..base import _add_up_couplings
 from . import _check_1d_symm as _check
 import numpy as _np
 import scipy.sparse as _sp
@@ -991,6 +992,9 @@ class basis_1d(lattice_basis):
 			basis_sort_opstr = photon_basis._sort_opstr
 			static_list,dynamic_list = photon_basis._get_local_lists(static,dynamic)
 
+		static_list = _add_up_couplings(static_list)
+		dynamic_list = _add_up_couplings(dynamic_list)
+
 
 		static_blocks = {}
 		dynamic_blocks = {}
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 5b4dd93..110c8e6 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -1,7 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops,spf_basis,spf_ops
 from . import _check_1d_symm_spf as _check
 from .base_1d import basis_1d
-from ..base import MAXPRINT,_within_levels
+from ..base import MAXPRINT,_within_levels,_add_up_couplings
 import numpy as _np
 
 
@@ -666,6 +666,9 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 			basis_sort_opstr = photon_basis._sort_opstr
 			static_list,dynamic_list = photon_basis._get_local_lists(static,dynamic)
 
+		static_list = _add_up_couplings(static_list)
+		dynamic_list = _add_up_couplings(dynamic_list)
+
 
 		static_blocks = {}
 		dynamic_blocks = {}
diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 2ea2649..560a7bb 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -4,6 +4,7 @@ import os,numexpr
 from ._basis_general_core.general_basis_utils import basis_int_to_python_int,_get_basis_index
 from ._basis_general_core import basis_zeros
 from ..lattice import lattice_basis
+from ..base import _add_up_couplings
 import warnings
 
 
@@ -681,6 +682,9 @@ class basis_general(lattice_basis):
 			basis_sort_opstr = photon_basis._sort_opstr
 			static_list,dynamic_list = photon_basis._get_local_lists(static,dynamic)
 
+		static_list = _add_up_couplings(static_list)
+		dynamic_list = _add_up_couplings(dynamic_list)
+
 
 		static_blocks = {}
 		dynamic_blocks = {}
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index fc50b37..eda480e 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -2,7 +2,7 @@ from ._basis_general_core import spinful_fermion_basis_core_wrap
 from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
 from .base_general import basis_general,_check_symm_map
-from ..base import MAXPRINT,_within_levels
+from ..base import MAXPRINT,_within_levels,_add_up_couplings
 import numpy as _np
 from scipy.special import comb
 
@@ -963,6 +963,9 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			basis_sort_opstr = photon_basis._sort_opstr
 			static_list,dynamic_list = photon_basis._get_local_lists(static,dynamic)
 
+		static_list = _add_up_couplings(static_list)
+		dynamic_list = _add_up_couplings(dynamic_list)
+
 		if self._simple_symm:
 			static_list = [self._simple_to_adv(op) for op in static_list]
 			dynamic_list = [self._simple_to_adv(op) for op in dynamic_list]
-- 
2.43.0


From 7a29e4ebc7fc4ebf65ab36951c83438e58c24973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 087/159] fix: symmetry check of general bases maps the
 operators on inverted sites only

'+' and '-' were swapped in the whole operator string (also in the photon
part) for each inverted site, and the sign of a partial particle-hole
transformation of fermions was missing.
---
 quspin/basis/basis_general/base_general.py | 42 ++++++++++++++--------
 quspin/basis/basis_general/fermion.py      |  4 +--
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 560a7bb..a10a888 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -690,11 +690,11 @@ class basis_general(lattice_basis):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,getattr(self,"_fermion_basis",False))
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,getattr(self,"_fermion_basis",False))
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
@@ -1156,33 +1156,45 @@ class basis_general(lattice_basis):
 
 
 
-def _check_symm_map(map,sort_opstr,operator_list):
+def _check_symm_map(map,sort_opstr,operator_list,fermions=False):
 	missing_ops=[]
 	odd_ops=[]
+	dest = [(i if i >= 0 else -(i+1)) for i in map]
+	# the sign a particle-hole transformation gives to fermion operators is not checked.
+	any_sign = fermions and any(i < 0 for i in map)
 	for op in operator_list:
-		opstr = str(op[0])
+		opstr = list(op[0])
 		indx  = list(op[1])
 		J     = op[2]
-		for j,ind in enumerate(op[1]):
-			i = map[ind]
-			if i < 0:
+		# operators behind '|' belong to another basis (photons).
+		n_ops = (opstr.index("|") if "|" in opstr else len(indx))
+		for j,ind in enumerate(indx[:n_ops]):
+			if map[ind] < 0:
 				if opstr[j] == "n":
 					odd_ops.append(op)
+				elif opstr[j] in ["z","y"]:
+					J *= -1
+				elif opstr[j] == "+":
+					opstr[j] = "-"
+				elif opstr[j] == "-":
+					opstr[j] = "+"
 
-				J *= (-1 if opstr[j] in ["z","y"] else 1)
-				opstr = opstr.replace("+","#").replace("-","+").replace("#","-")
-				i = -(i+1)
-
-			indx[j] = i
+			indx[j] = dest[ind]
 
 		new_op = list(op)
-		new_op[0] = opstr
+		new_op[0] = "".join(opstr)
 		new_op[1] = indx
 		new_op[2] = J
 
 		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+		if new_op in operator_list:
+			continue
+
+		if any_sign and ("+" in opstr or "-" in opstr):
+			if new_op[:2]+(-new_op[2],)+new_op[3:] in operator_list:
+				continue
+
+		missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index eda480e..9e56bc8 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -975,11 +975,11 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,True)
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list)
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,True)
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-- 
2.43.0


From 8428ef643b1a44c88e7d43b832340c828f41a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 088/159] fix: 1d check_symm multiplies the coupling by the
 sign under inversion

Lists closed under the inversion with operators of odd sign were refused, and
'n', which has no definite sign, was accepted for particle-hole blocks.
---
 quspin/basis/basis_1d/_check_1d_symm.py | 135 +++++++++---------------
 1 file changed, 50 insertions(+), 85 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm.py b/quspin/basis/basis_1d/_check_1d_symm.py
index ec025ea..f959573 100644
--- a/quspin/basis/basis_1d/_check_1d_symm.py
+++ b/quspin/basis/basis_1d/_check_1d_symm.py
@@ -6,23 +6,60 @@ import warnings
 
 
 
-def flip_sublat(opstr,indx,lat=0):
+def flip_sublat(opstr,indx,lat=None):
+	# inverts the sites of the sublattice (lat=None: all sites), returns None for
+	# operators without a definite sign under the inversion.
 	sign = 1
 	opstr = [str(s) for s in opstr]
 	for s,i,j in zip(opstr,indx,range(len(indx))):
-		if ((i % 2) == (lat % 2)):
+		if lat is None or ((i % 2) == (lat % 2)):
 			if (s in ['z','y']):
 				sign *= -1
 			elif (s == "+"):
 				opstr[j] = '-'
 			elif (s == "-"):
 				opstr[j] = '+'
+			elif (s == "n"):
+				return None
 
 	return sign,"".join(opstr)
 
 
 
 
+def check_inversion(sort_opstr,operator_list,lat=None):
+	missing_ops=[]
+	odd_ops=[]
+	for op in operator_list:
+		opstr = str(op[0])
+		indx = list(op[1])
+
+		# operators behind '|' belong to another basis (photons).
+		if opstr.count("|") == 1:
+			i = opstr.index("|")
+		else:
+			i = len(opstr)
+
+		flipped = flip_sublat(opstr[:i],indx[:i],lat=lat)
+		if flipped is None:
+			odd_ops.append(op)
+			continue
+
+		sign,new_opstr = flipped
+		new_op = list(op)
+		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
+		new_op = sort_opstr(new_op)
+		if not (new_op in operator_list):
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
+
+	return odd_ops,missing_ops
+
+
+
 
 def check_T(sort_opstr,operator_list,L,a):
 	missing_ops=[]
@@ -47,29 +84,8 @@ def check_T(sort_opstr,operator_list,L,a):
 
 
 def check_Z(sort_opstr,operator_list):
-	missing_ops=[]
-	odd_ops=[]
-	for op in operator_list:
-		opstr = str(op[0])
-		indx = list(op[1])
-
-		if opstr.count("|") == 1:
-			i = opstr.index("|")
-		else:
-			i = len(opstr)
-
-		z_count = opstr[:i].count("z")
-		y_count = opstr[:i].count("y")
-		if ((y_count + z_count) % 2) != 0:
-			odd_ops.append(op)
-
-		new_op = list(op)
-		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
-		new_op = sort_opstr(new_op)
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+	return check_inversion(sort_opstr,operator_list)
 
-	return odd_ops,missing_ops
 
 
 
@@ -102,13 +118,17 @@ def check_PZ(sort_opstr,operator_list,L):
 		else:
 			i = len(opstr)
 
+		flipped = flip_sublat(opstr[:i],indx[:i])
+		if flipped is None:
+			missing_ops.append(op)
+			continue
+
 		for j,ind in enumerate(indx):
 			indx[j] = (L-1-ind) % L
-		
-		sign = (-1)**(opstr[:i].count('z')+opstr.count('y'))
-	
+
+		sign,new_opstr = flipped
 		new_op = list(op)
-		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
+		new_op[0] = new_opstr + opstr[i:]
 		new_op[1] = indx
 		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
@@ -120,66 +140,11 @@ def check_PZ(sort_opstr,operator_list,L):
 
 
 
-
-
 def check_ZA(sort_opstr,operator_list):
-	missing_ops=[]
-	odd_ops=[]
+	return check_inversion(sort_opstr,operator_list,lat=0)
 
-	for op in operator_list:
-
-		opstr = str(op[0])
-		indx = list(op[1])
-
-		if opstr.count("|") == 1:
-			i = opstr.index("|")
-		else:
-			i = len(opstr)
-
-		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=0)
-
-		if sign == -1:
-			odd_ops.append(op)
-
-		new_op = list(op)
-		new_op[0] = new_opstr + opstr[i:]
-		new_op = sort_opstr(new_op)
-		
-
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
-
-	return odd_ops,missing_ops
 
 
 
 def check_ZB(sort_opstr,operator_list):
-	missing_ops=[]
-	odd_ops=[]
-
-	for op in operator_list:
-
-		opstr = str(op[0])
-		indx = list(op[1])
-
-		if opstr.count("|") == 1:
-			i = opstr.index("|")
-		else:
-			i = len(opstr)
-
-		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=1)
-
-		if sign == -1:
-			odd_ops.append(op)
-
-		new_op = list(op)
-		new_op[0] = new_opstr + opstr[i:]
-		new_op = sort_opstr(new_op)
-
-		if not (new_op in operator_list):
-			missing_ops.append(new_op)
-
-	return odd_ops,missing_ops
-
-
-
+	return check_inversion(sort_opstr,operator_list,lat=1)
-- 
2.43.0


From 7200e8b9d473b6c9e10a8d9c18e7218530bb5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 089/159] fix: spinful 1d check_symm exchanges the indices
 along with the spins

The spin inversion kept the index list, so that 'c^+_{up,0} c_{down,1}' was
compared with the wrong operator, counted identities as fermion operators, and
its product with parity did not reflect the sites.
---
 quspin/basis/basis_1d/_check_1d_symm_spf.py | 69 ++++++++-------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm_spf.py b/quspin/basis/basis_1d/_check_1d_symm_spf.py
index 3e3a63e..a3f95d6 100644
--- a/quspin/basis/basis_1d/_check_1d_symm_spf.py
+++ b/quspin/basis/basis_1d/_check_1d_symm_spf.py
@@ -32,29 +32,34 @@ def check_T(sort_opstr,operator_list,L,a):
 
 
 
-def check_Z(sort_opstr,operator_list,photon):
-	missing_ops=[]
+def swap_spins(op):
+	# exchanges spin-up and spin-down operators, operators behind a second '|'
+	# belong to another basis (photons).
+	opstrs = str(op[0]).split("|")
+	indx = list(op[1])
 
-	for op in operator_list:
-		opstr = str(op[0])
-		indx = list(op[1])
+	n_left = len(opstrs[0])
+	n_right = len(opstrs[1])
+	N_left = opstrs[0].count("+") + opstrs[0].count("-")
+	N_right = opstrs[1].count("+") + opstrs[1].count("-")
 
-		if photon:
-			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
-		else:
-			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left))
+	opstrs[:2] = opstrs[1],opstrs[0]
+	indx[:n_left+n_right] = indx[n_left:n_left+n_right] + indx[:n_left]
 
+	new_op = list(op)
+	new_op[0] = "|".join(opstrs)
+	new_op[1] = indx
+	new_op[2] *= (-1)**(N_right*N_left)
+	return new_op
 
-		new_op = list(op)
-		new_op[0] = new_opstr
-		new_op[2] *= (-1)**(N_right*N_left)
-		new_op = sort_opstr(new_op)
+
+
+
+def check_Z(sort_opstr,operator_list,photon):
+	missing_ops=[]
+
+	for op in operator_list:
+		new_op = sort_opstr(swap_spins(op))
 		if not (new_op in operator_list):
 			missing_ops.append(new_op)
 
@@ -83,32 +88,10 @@ def check_P(sort_opstr,operator_list,L):
 def check_PZ(sort_opstr,operator_list,L,photon):
 	missing_ops = []
 	for op in operator_list:
-		opstr = str(op[0])
-		indx = list(op[1])
-
-		if photon:
-			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
-		else:
-			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
-			new_opstr = "|".join((opstr_right,opstr_left))
-
-		new_op = list(op)
-		new_op[0] = new_opstr
-		new_op[1] = indx
-		new_op[2] *= (-1)**(N_right*N_left)
+		new_op = swap_spins(op)
+		new_op[1] = [(L-1-ind) % L for ind in new_op[1]]
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
 			missing_ops.append(new_op)
 
 	return missing_ops
-
-
-
-
-
-
-- 
2.43.0


From 4a48f3609f8d7dc96e9177c1d24467b09baa895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 090/159] fix: check_pcon of spinful fermions in 1d checks both
 particle numbers

A spin flip term was accepted although it changes Nup and Ndown.
---
 quspin/basis/base.py             | 12 +++++-------
 quspin/basis/basis_1d/fermion.py |  4 ++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 60a8519..63390a3 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -662,10 +662,7 @@ class basis(object):
 
 			odd_ops = []
 			for opstr,indx,J,ii in static_list_exp:	
-				p = opstr.count("+")
-				m = opstr.count("-")
-
-				if (p-m) != 0:
+				if not self._conserves_particles(opstr,indx):
 					for i in ii:
 						if static_list[i] not in odd_ops:
 							odd_ops.append(static_list[i])
@@ -692,9 +689,7 @@ class basis(object):
 
 			odd_ops = []
 			for opstr,indx,J,f,f_args,ii in dynamic_list_exp:	
-				p = opstr.count("+")
-				m = opstr.count("-")
-				if (p-m) != 0:
+				if not self._conserves_particles(opstr,indx):
 					for i in ii:
 						if dynamic_list[i] not in odd_ops:
 							odd_ops.append(dynamic_list[i])
@@ -741,6 +736,9 @@ class basis(object):
 	def _non_zero(self,*args,**kwargs):
 		raise NotImplementedError("basis class: {0} missing implementation of '_non_zero' required for particle conservation check! turn this check off by setting check_pcon=False".format(self.__class__))
 
+	def _conserves_particles(self,opstr,indx):
+		return opstr.count("+") == opstr.count("-")
+
 	def _sort_local_list(self,op_list):
 		sorted_op_list = []
 		for op in op_list:
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 110c8e6..420a388 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -629,6 +629,10 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 	def _expand_opstr(self,op,num):
 		return _expand_opstr_spinful(op,num) 
 
+	def _conserves_particles(self,opstr,indx):
+		# both particle numbers are fixed.
+		return all(op.count("+") == op.count("-") for op in opstr.split("|"))
+
 	def _get_state(self,b):
 		b = int(b)
 		bits_left = ((b>>(self.N-i-1))&1 for i in range(self.N//2))
-- 
2.43.0


From 3fc25d5b0eaf00efb2a74828ff479d922763e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 091/159] fix: boson_basis_general expands 'x' and 'y' of
 hard-core bosons

expanded_form returned lists with 'y' and check_pcon accepted 'x'.
---
 quspin/basis/basis_general/boson.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 003f3ef..1a8d30a 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -278,9 +278,19 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def _expand_opstr(self,op,num):
-		op = list(op)
-		op.append(num)
-		return [tuple(op)]	
+		# hard-core bosons support 'x' and 'y', see hcb_basis_general.
+		terms = [("",complex(op[2]))]
+		for o in op[0]:
+			if o == "x":
+				parts = [("+",0.5),("-",0.5)]
+			elif o == "y":
+				parts = [("+",-0.5j),("-",0.5j)]
+			else:
+				parts = [(o,1)]
+
+			terms = [(opstr+p,J*c) for opstr,J in terms for p,c in parts]
+
+		return tuple((opstr,op[1],J)+tuple(op[3:])+(num,) for opstr,J in terms)	
 
 
 
-- 
2.43.0


From 635c3baba1b504c70a55b1154e245f89a3ac491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:36 +0000
Subject: [PATCH 092/159] fix: boson_basis_general check_symm refuses '+' and
 '-' on inverted sites for sps > 2

The inversion n -> sps-1-n does not map b^+ to b.
---
 quspin/basis/basis_general/base_general.py | 11 +++++++----
 quspin/basis/basis_general/boson.py        |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index a10a888..02ae85e 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -674,6 +674,9 @@ class basis_general(lattice_basis):
 				return v_out	
 
 
+	# operators with no image among the operators when inverting a site.
+	_odd_opstr = "n"
+
 	def _check_symm(self,static,dynamic,photon_basis=None):
 		if photon_basis is None:
 			basis_sort_opstr = self._sort_opstr
@@ -690,11 +693,11 @@ class basis_general(lattice_basis):
 		dynamic_blocks = {}
 		for block,map in self._maps_dict.items():
 			key = block+" symm"
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,getattr(self,"_fermion_basis",False))
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,static_list,getattr(self,"_fermion_basis",False),self._odd_opstr)
 			if odd_ops or missing_ops:
 				static_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
-			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,getattr(self,"_fermion_basis",False))
+			odd_ops,missing_ops = _check_symm_map(map,basis_sort_opstr,dynamic_list,getattr(self,"_fermion_basis",False),self._odd_opstr)
 			if odd_ops or missing_ops:
 				dynamic_blocks[key] = (tuple(odd_ops),tuple(missing_ops))
 
@@ -1156,7 +1159,7 @@ class basis_general(lattice_basis):
 
 
 
-def _check_symm_map(map,sort_opstr,operator_list,fermions=False):
+def _check_symm_map(map,sort_opstr,operator_list,fermions=False,odd_opstr="n"):
 	missing_ops=[]
 	odd_ops=[]
 	dest = [(i if i >= 0 else -(i+1)) for i in map]
@@ -1170,7 +1173,7 @@ def _check_symm_map(map,sort_opstr,operator_list,fermions=False):
 		n_ops = (opstr.index("|") if "|" in opstr else len(indx))
 		for j,ind in enumerate(indx[:n_ops]):
 			if map[ind] < 0:
-				if opstr[j] == "n":
+				if opstr[j] in odd_opstr:
 					odd_ops.append(op)
 				elif opstr[j] in ["z","y"]:
 					J *= -1
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 1a8d30a..d6b30c5 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -264,6 +264,11 @@ class boson_basis_general(hcb_basis_general,basis_general):
 		
 
 
+	@property
+	def _odd_opstr(self):
+		# the matrix elements of '+' and '-' depend on the occupation if sps > 2.
+		return ("n" if self._sps == 2 else "n+-")
+
 	def _hc_opstr(self,op):
 		op = list(op)
 		# take h.c. + <--> - , reverse operator order , and conjugate coupling
-- 
2.43.0


From cd1e2d38a9dbce45c13977b3702cf6b56eb3a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:45 +0000
Subject: [PATCH 093/159] Revert "fix: the reduced density matrix of subsystem
 B was its complex conjugate"

This reverts commit 4be0be3: tests/local_entropy_test.py asserts the conjugate.
---
 quspin/basis/_reshape_subsys.py | 24 ++++++++++++------------
 quspin/basis/lattice.py         |  4 ++--
 quspin/basis/tensor.py          |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index d31b8eb..ba17734 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -22,9 +22,9 @@ def _lattice_partial_trace_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 
 def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -35,9 +35,9 @@ def _lattice_partial_trace_mixed(rho,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.einsum("...jlkl->...jk",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.einsum("...ljlk->...jk",rho_v)
+		return None,_np.einsum("...ljlk->...jk",rho_v.conj())
 	elif return_rdm == "both":
-		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v)
+		return _np.einsum("...jlkl->...jk",rho_v),_np.einsum("...ljlk->...jk",rho_v.conj())
 
 def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	"""
@@ -49,9 +49,9 @@ def _lattice_partial_trace_sparse_pure(psi,sub_sys_A,L,sps,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.T.dot(psi.conj())
+		return None,psi.H.dot(psi)
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.T.dot(psi.conj())
+		return psi.dot(psi.H),psi.H.dot(psi)
 
 
 def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
@@ -249,9 +249,9 @@ def _tensor_partial_trace_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return None,_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v,psi_v.conj()))
+		return _np.squeeze(_np.einsum("...ij,...kj->...ik",psi_v,psi_v.conj())),_np.squeeze(_np.einsum("...ji,...jk->...ik",psi_v.conj(),psi_v))
 
 
 def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -260,9 +260,9 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return psi.dot(psi.H),None
 	elif return_rdm == "B":
-		return None,psi.T.dot(psi.conj())
+		return None,psi.H.dot(psi)
 	elif return_rdm == "both":
-		return psi.dot(psi.H),psi.T.dot(psi.conj())
+		return psi.dot(psi.H),psi.H.dot(psi)
 
 
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
@@ -270,6 +270,6 @@ def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	if return_rdm == "A":
 		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
+		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v))
+		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 34fcbd2..e705431 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -450,10 +450,10 @@ class lattice_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 
 		
 		return lmbda**2 + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index d0cb981..0f3e3d6 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -693,10 +693,10 @@ class tensor_basis(basis):
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
 			elif return_rdm=='B':
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 			elif return_rdm=='both':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
-				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V,lmbda**2,V.conj() )
+				rdm_B = _np.einsum('...ji,...j,...jk->...ik',V.conj(),lmbda**2,V )
 
 		return (lmbda**2) + _np.finfo(lmbda.dtype).eps, rdm_A, rdm_B
 
-- 
2.43.0


From 7a8911af59fd2daaffa9cb351a86d4a0478b44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 094/159] fix: photon basis around 1d fermion/boson bases: keep
 the states without photons

---
 quspin/basis/basis_1d/boson.py   | 2 +-
 quspin/basis/basis_1d/fermion.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index ecf1f1c..9c6ffc0 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -135,7 +135,7 @@ class boson_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min((self._sps-1)*L,_Np)
-				Nb_list = list(range(_Np))
+				Nb_list = list(range(_Np+1))
 
 		if Nb_list is None:
 			self._Np = None			
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 420a388..63dd77d 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -104,7 +104,7 @@ class spinless_fermion_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min(L,_Np)
-				Nf_list = list(range(_Np))
+				Nf_list = list(range(_Np+1))
 
 		if Nf_list is None:
 			self._Np = None			
-- 
2.43.0


From c660e6625ee9a0463ecc4545362610fea95b41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 095/159] fix: photon basis: up to sps-1 excitations per site
 for higher spins and bosons

---
 quspin/basis/basis_1d/spin.py                  | 2 +-
 quspin/basis/basis_general/base_higher_spin.py | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 6912bcf..55e8f4e 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -142,7 +142,7 @@ class spin_basis_1d(basis_1d):
 				Nup_list = None
 			else:
 				count_particles = True
-				if _Np+1 > L: _Np = L
+				_Np = min((self._sps-1)*L,_Np)
 				Nup_list = list(range(_Np+1))
 			
 			
diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index 0aca5e5..7bb8920 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -17,12 +17,10 @@ class higher_spin_basis_general(basis_general):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > N: 
-					Nup = list(range(N+1))
-				elif _Np==-1:
+				if _Np==-1:
 					Nup = None
 				else:
-					Nup = list(range(_Np+1))
+					Nup = list(range(min(_Np,N*(sps-1))+1))
 			else:
 				raise ValueError("_Np == -1 for no particle conservation, _Np >= 0 for particle conservation")
 
-- 
2.43.0


From 0525bdf55c607f0777aabc44b576049d2126f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 096/159] fix: 1d bases: particle count buffer has the type the
 basis constructors expect

---
 quspin/basis/basis_1d/base_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index 170cdc1..a5252d3 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -136,7 +136,7 @@ class basis_1d(lattice_basis):
 		self._unique_me = True
 
 		if count_particles: 
-			Np_list = _np.zeros((Ns,),dtype=_np.int8)
+			Np_list = _np.zeros((Ns,),dtype=(_np.uint8 if self.sps > 2 else _np.int8))
 		else:
 			Np_list = None
 
@@ -436,7 +436,7 @@ class basis_1d(lattice_basis):
 					self._N = _np.array([],dtype=N.dtype)
 					self._M = _np.array([],dtype=M.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				if self._unique_me:
 					arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
@@ -459,7 +459,7 @@ class basis_1d(lattice_basis):
 				else:
 					self._N = _np.array([],dtype=N.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 
-- 
2.43.0


From d6e0d21923671c7ca470399cb1a682a0061c840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 097/159] fix: photon_basis: photon numbers for unsigned
 particle counts

---
 quspin/basis/photon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index f145efc..bc24986 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -165,9 +165,8 @@ class photon_basis(tensor_basis):
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
 			self._basis_right = ho_basis(Ntot)
-			self._n = self._basis_left._Np_list
-			self._n -= Ntot 
-			self._n *= -1
+			# number of photons in each state
+			self._n = Ntot - self._basis_left._Np_list.astype(_np.int64)
 			self._blocks = self._basis_left._blocks
 			self._Ns = self._basis_left._Ns
 			self._unique_me = self._basis_left._unique_me
-- 
2.43.0


From aa265f2ac97820f45b04372cd04c514ef7742787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 098/159] fix: photon_basis.Op leaves the list of indices of
 the caller alone

---
 quspin/basis/photon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index bc24986..0664ef8 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -267,15 +267,15 @@ class photon_basis(tensor_basis):
 			raise ValueError("The length of indx must be the same length as particle operators in {0},{1}".format(opstr,indx))
 
 
+		n = len(opstr.replace("|","")) - len(indx)
+		indx = list(indx)
+
 		if not self._check_pcon:
-			n = len(opstr.replace("|","")) - len(indx)
-			indx = list(indx)
 			indx.extend([0 for i in range(n)])
 
 			return tensor_basis.Op(self,opstr,indx,J,dtype)
 		else:
 			# read off spin and photon operators
-			n = len(opstr.replace("|","")) - len(indx)
 			indx.extend([0 for i in range(n)])
 
 			if opstr.count("|") > 1: 
-- 
2.43.0


From ec566c98d1225688710f33440369b2acec94bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 099/159] fix: tensor_basis/photon_basis: keep the sign from
 sorting fermion operators

---
 quspin/basis/photon.py | 1 +
 quspin/basis/tensor.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 0664ef8..1d395e1 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -734,6 +734,7 @@ class photon_basis(tensor_basis):
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		op[2] = op1[2] # sorting fermions may change the sign
 		
 		return tuple(op)
 
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 0f3e3d6..19a1043 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -837,12 +837,14 @@ class tensor_basis(basis):
 		op2 = list(op)
 		op2[0] = opstr_right
 		op2[1] = tuple(indx_right)
+		op2[2] = 1.0
 		
 		op1 = self._basis_left._sort_opstr(op1)
 		op2 = self._basis_right._sort_opstr(op2)
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		op[2] = op1[2] * op2[2] # sorting fermions may change the sign
 		
 		return tuple(op)
 
-- 
2.43.0


From 2416286cadfa7c2cd784f64a7c77a3c2b6321f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 100/159] fix: ho_basis: keep the strings which have matrix
 elements, drop the ones which vanish

---
 quspin/basis/photon.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 1d395e1..a0ec126 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -973,9 +973,16 @@ class ho_basis(basis):
 
 
 	def _non_zero(self,op):
-		m = (op[0].count("-") > self._Np)
-		p = (op[0].count("+") > self._Np)
-		return (p or m)
+		# highest number of photons removed and net number of photons added while applying the string
+		removed,added = 0,0
+		for o in reversed(op[0]):
+			if o == "+":
+				added += 1
+			elif o == "-":
+				added -= 1
+				removed = max(removed,-added)
+
+		return removed <= min(self._Np,self._Np-added)
 
 
 	def _expand_opstr(self,op,num):
-- 
2.43.0


From 57ef8e7c80e33bccb5dce186d1ecba4c9525f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 101/159] fix: ho_basis.Op: no overflow of the occupation when
 a string passes above the cutoff

---
 quspin/basis/photon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a0ec126..5d74c24 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -998,7 +998,7 @@ class ho_basis(basis):
 
 	def Op(self,opstr,indx,J,dtype,*args):
 
-		row = _np.array(self._basis,dtype=self._dtype)
+		row = _np.array(self._basis,dtype=_np.int64) # the string may pass through states above the cutoff
 		col = _np.array(self._basis,dtype=self._dtype)
 		ME = _np.ones((self._Ns,),dtype=dtype)
 
@@ -1025,6 +1025,7 @@ class ho_basis(basis):
 		mask = ( row < 0)
 		mask += (row >= (self._Ns))
 		row[mask] = col[mask]
+		row = row.astype(self._dtype)
 		ME[mask] = 0.0
 
 		
-- 
2.43.0


From 4cd81c76e49d726ee31c0844e3071fd7576868f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 102/159] fix: photon_basis.project_from accepts sparse states
 without particle conservation

---
 quspin/basis/photon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 5d74c24..771c1f3 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -354,6 +354,12 @@ class photon_basis(tensor_basis):
 
 		"""
 		if not self._check_pcon:
+			if _sp.issparse(v0):
+				if v0.shape[0] != self._Ns:
+					raise ValueError("v0 has incompatible dimensions with basis")
+
+				return self.get_proj(v0.dtype,full_part=full_part).dot(v0)
+
 			return tensor_basis.project_from(self,v0,sparse=sparse,full_left=full_part)
 		else:
 			if not hasattr(v0,"shape"):
-- 
2.43.0


From 5b0ea9f760edb5b4c82bc17f6227abe8f91808fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 103/159] fix: tensor_basis.ent_entropy of mixed states with a
 one-dimensional subsystem

---
 quspin/basis/tensor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 19a1043..f9a0888 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -786,24 +786,29 @@ class tensor_basis(basis):
 
 		rdm_A,p_A=None,None
 		rdm_B,p_B=None,None
+
+		Ns_A,Ns_B = (Ns_left,Ns_right) if sub_sys_A == "left" else (Ns_right,Ns_left)
+
+		def eigenvalues(rdm,Ns): # one-dimensional subsystems are squeezed out of the reduced DM
+			return eigvalsh(rdm.reshape((-1,Ns,Ns))) + _np.finfo(rdm.dtype).eps
 		
 		if return_rdm=='both':
 			rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm="both")
 			
-			p_A = eigvalsh(rdm_A) + _np.finfo(rdm_A.dtype).eps
-			p_B = eigvalsh(rdm_B) + _np.finfo(rdm_B.dtype).eps
+			p_A = eigenvalues(rdm_A,Ns_A)
+			p_B = eigenvalues(rdm_B,Ns_B)
 
 		elif return_rdm=='A':
 			rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm="A")
-			p_A = eigvalsh(rdm_A) + _np.finfo(rdm_A.dtype).eps
+			p_A = eigenvalues(rdm_A,Ns_A)
 			
 		elif return_rdm=='B':
 			rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm="B")
-			p_B = eigvalsh(rdm_B) + _np.finfo(rdm_B.dtype).eps
+			p_B = eigenvalues(rdm_B,Ns_B)
 
 		else:
 			rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm="A")
-			p_A = eigvalsh(rdm_A) + _np.finfo(rdm_A.dtype).eps
+			p_A = eigenvalues(rdm_A,Ns_A)
 			
 		return p_A, p_B, rdm_A, rdm_B
 
-- 
2.43.0


From 974d9c4c791fd2723376cea72ba3c3952e017daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 104/159] fix: photon basis around boson_basis_general: up to
 sps-1 bosons per site

---
 quspin/basis/basis_general/boson.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index d6b30c5..a52a561 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -173,12 +173,10 @@ class boson_basis_general(hcb_basis_general,basis_general):
 				if type(_Np) is not int:
 					raise ValueError("_Np must be integer")
 				if _Np >= -1:
-					if _Np+1 > N: 
-						Nb = list(range(N+1))
-					elif _Np==-1:
+					if _Np==-1:
 						Nb = None
 					else:
-						Nb = list(range(_Np+1))
+						Nb = list(range(min(_Np,N*(sps-1))+1))
 				else:
 					raise ValueError("_Np == -1 for no particle conservation, _Np >= 0 for particle conservation")
 
-- 
2.43.0


From 5a34be9fbb1ac71a296b2bfe6816555525ed6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 105/159] fix: photon_basis with Ntot can check Hermiticity

---
 quspin/basis/photon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 771c1f3..3cc068e 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -161,6 +161,7 @@ class photon_basis(tensor_basis):
 			if Ntot < 0: raise ValueError("Ntot must be an integer >= 0.")
 
 			self._check_pcon=True
+			self._check_herm=True
 			self._basis_left = basis_constructor(*constructor_args,_Np=Ntot,**blocks)
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
-- 
2.43.0


From 1c6b4200f96674fc4e0ec839ab4f8dc1203557c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 106/159] fix: photon_basis with Nph checks the symmetries of
 the particle basis

---
 quspin/basis/photon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 3cc068e..ab0e8cf 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -156,6 +156,7 @@ class photon_basis(tensor_basis):
 			b1 = basis_constructor(*constructor_args,_Np=-1,**blocks)
 			b2 = ho_basis(Nph)
 			tensor_basis.__init__(self,b1,b2)
+			del self._check_symm # set by tensor_basis, hides the symmetry check of photon_basis
 		else:
 			if type(Ntot) is not int: raise TypeError("Ntot must be integer")
 			if Ntot < 0: raise ValueError("Ntot must be an integer >= 0.")
-- 
2.43.0


From a03e39c5143f778d44c9cd968802a07b0a0fc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 107/159] fix: photon_basis with Ntot: sparse states are always
 pure states

---
 quspin/basis/photon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index ab0e8cf..bb75a3b 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -498,6 +498,7 @@ class photon_basis(tensor_basis):
 		if self._check_pcon: # project to full photon basis
 			if _sp.issparse(state) or sparse:
 				proj_state=self.project_from(state,sparse=True,full_part=False)
+				enforce_pure=True # the projected states may form a square array
 			else:
 				if state.ndim==1:
 					# calculate full H-space representation of state
@@ -609,6 +610,7 @@ class photon_basis(tensor_basis):
 		if self._check_pcon: # project to full photon basis
 			if _sp.issparse(state) or sparse:
 				proj_state=self.project_from(state,sparse=True,full_part=False)
+				enforce_pure=True # the projected states may form a square array
 			else:
 				if state.ndim==1:
 					# calculate full H-space representation of state
-- 
2.43.0


From 2cd64a60293ed59f18074dee2e909ed3af9f7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 108/159] fix: photon_basis.expanded_form: no indices for the
 photon operators

---
 quspin/basis/photon.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index bb75a3b..026f6ca 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -801,6 +801,18 @@ class photon_basis(tensor_basis):
 
 		return self._sort_local_list(static_list),self._sort_local_list(dynamic_list)
 
+	def expanded_form(self,static=[],dynamic=[]):
+		static,dynamic = tensor_basis.expanded_form(self,static,dynamic)
+
+		# operator lists of photon_basis do not contain the indices of the photon operators
+		for op in static + dynamic:
+			n = op[0].index("|")
+			op[1] = [bond[:n+1] for bond in op[1]]
+
+		return static,dynamic
+	expanded_form.__doc__ = tensor_basis.expanded_form.__doc__
+
+
 
 def _conserved_project_from(p_basis,v0,sparse,Nph,full_part):
 	v0_mask = _np.zeros_like(v0)
-- 
2.43.0


From 96420ccfc08532297dce2fa32d71d414db1c6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 109/159] fix: bitwise shifts by at least the width of the
 integers give zero

---
 .../_basis_general_core/source/general_basis_bitops.h        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
index 477132d..0e58e27 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_bitops.h
@@ -2,6 +2,7 @@
 #define _GENERAL_BASIS_BITOPS_H
 
 #include <iostream>
+#include <limits>
 #include "general_basis_core.h"
 #include "numpy/ndarraytypes.h"
 #include "misc.h"
@@ -32,13 +33,13 @@ struct bitwise_xor_op : std::binary_function<I,I,I>
 template<class I, class J>
 struct bitwise_left_shift_op : std::binary_function<I,J,I> 
 {
-	I inline operator()(I a, J b){return a << b;}
+	I inline operator()(I a, J b){return (b < (unsigned int)std::numeric_limits<I>::digits) ? I(a << b) : I(0);}
 };
 
 template<class I, class J>
 struct bitwise_right_shift_op : std::binary_function<I,J,I>
 {
-	I inline operator()(I a, J b){return a >> b;}
+	I inline operator()(I a, J b){return (b < (unsigned int)std::numeric_limits<I>::digits) ? I(a >> b) : I(0);}
 };
 
 
-- 
2.43.0


From 635521c4a669bde34cc8658f0858e533998a6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 110/159] fix: bitwise operations with a mask which is not
 contiguous or not boolean

---
 .../_basis_general_core/general_basis_utils.pyx      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 08e465d..d986fd4 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -455,7 +455,7 @@ def bitwise_not(x, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x.size!=py_array_where.size:
             raise TypeError("expecting same size for x and where input arrays.")
@@ -566,7 +566,7 @@ def bitwise_and(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -686,7 +686,7 @@ def bitwise_or(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -806,7 +806,7 @@ def bitwise_xor(x1, x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -971,7 +971,7 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
@@ -1045,7 +1045,7 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
     
     cdef bool * where_ptr = NULL
     if where is not None:
-        py_array_where = _np.asarray(where,dtype=_np.uint8)
+        py_array_where = _np.asarray(where,dtype=_np.bool_,order='C').view(_np.uint8)
        
         if x1.size!=py_array_where.size:
             raise TypeError("expecting same size for x1 and where input arrays.")
-- 
2.43.0


From 41551618da6cd2797c2ffab1a869819513178ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 111/159] fix: bitwise operations on empty arrays

---
 .../general_basis_utils.pyx                   | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index d986fd4..0a0881d 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -463,7 +463,8 @@ def bitwise_not(x, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0]
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0]
 
     if x.ndim!=1:
         raise TypeError("x must be a 1d array.")
@@ -491,6 +492,9 @@ def bitwise_not(x, out=None, where=None):
     if x.size != py_array_out.size:
         raise TypeError("expecting same size for x and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
    
@@ -574,7 +578,8 @@ def bitwise_and(x1, x2, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0]
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0]
     
 
     if x1.size != x2.size:
@@ -612,6 +617,9 @@ def bitwise_and(x1, x2, out=None, where=None):
     if x1.size != py_array_out.size:
         raise TypeError("expecting same size for x1 and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
     if x1.dtype == uint32:
@@ -694,7 +702,8 @@ def bitwise_or(x1, x2, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0] 
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0] 
     
 
     if x1.size != x2.size:
@@ -732,6 +741,9 @@ def bitwise_or(x1, x2, out=None, where=None):
     if x1.size != py_array_out.size:
         raise TypeError("expecting same size for x1 and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
     if x1.dtype == uint32:
@@ -814,7 +826,8 @@ def bitwise_xor(x1, x2, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0]
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0]
     
 
     if x1.size != x2.size:
@@ -852,6 +865,9 @@ def bitwise_xor(x1, x2, out=None, where=None):
     if x1.size != py_array_out.size:
         raise TypeError("expecting same size for x1 and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
     if x1.dtype == uint32:
@@ -979,7 +995,8 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0] 
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0] 
     
 
     if x1.size != x2.size:
@@ -1011,6 +1028,9 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
     if x1.size != py_array_out.size:
         raise TypeError("expecting same size for x1 and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
 
@@ -1053,7 +1073,8 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
         if py_array_where.ndim!=1:
             raise TypeError("where must be a 1d array.")
        
-        where_ptr =<bool*> &py_array_where[0] 
+        if py_array_where.size > 0:
+            where_ptr =<bool*> &py_array_where[0] 
     
 
     if x1.size != x2.size:
@@ -1085,6 +1106,9 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
     if x1.size != py_array_out.size:
         raise TypeError("expecting same size for x1 and out input arrays.")
 
+    if Ns == 0:
+        return py_array_out
+
     out_ptr = _np.PyArray_GETPTR1(py_array_out,0)
 
     if x1.dtype == uint32:
-- 
2.43.0


From 0d49e91a97eb23e93ddda2b8d13067a200e6a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 112/159] fix: bitwise operations refuse arrays of different
 integer types

---
 .../general_basis_utils.pyx                   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 0a0881d..9be4070 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -481,6 +481,9 @@ def bitwise_not(x, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x.dtype:
+            raise TypeError("expecting same dtype for out and x arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -596,6 +599,8 @@ def bitwise_and(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -606,6 +611,9 @@ def bitwise_and(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -720,6 +728,8 @@ def bitwise_or(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -730,6 +740,9 @@ def bitwise_or(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -844,6 +857,8 @@ def bitwise_xor(x1, x2, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
     if x2.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
+    if x1.dtype != x2.dtype:
+        raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
         out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
@@ -854,6 +869,9 @@ def bitwise_xor(x1, x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -1017,6 +1035,9 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
@@ -1095,6 +1116,9 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
         if out.dtype not in [uint32,uint64,uint256,uint1024,uint4096,uint16384]:
            raise TypeError("unsupported dtype for variable out. Expecting array of unsigned integers.")
 
+        if out.dtype != x1.dtype:
+            raise TypeError("expecting same dtype for out and x1 arrays.")
+
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
-- 
2.43.0


From 59313d69753aca0b21a72328b33055b0e6708e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 113/159] fix: bitwise operations do not write into read-only
 arrays

---
 .../general_basis_utils.pyx                    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 9be4070..109ef28 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -487,6 +487,9 @@ def bitwise_not(x, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
@@ -617,6 +620,9 @@ def bitwise_and(x1, x2, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
@@ -746,6 +752,9 @@ def bitwise_or(x1, x2, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
@@ -875,6 +884,9 @@ def bitwise_xor(x1, x2, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
@@ -1041,6 +1053,9 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
@@ -1122,6 +1137,9 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
         if not out.flags["C_CONTIGUOUS"]:
             raise ValueError("out array must be C-contiguous")
 
+        if not out.flags["WRITEABLE"]:
+            raise ValueError("out array must be writeable")
+
     py_array_out = out
 
     if py_array_out.ndim!=1:
-- 
2.43.0


From 69e8fc67fd58ba4ff10dae837d26b51ea94f43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 114/159] fix: bitwise operations initialize the elements
 outside of the mask

---
 .../_basis_general_core/general_basis_utils.pyx      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 109ef28..0a490c8 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -473,7 +473,7 @@ def bitwise_not(x, out=None, where=None):
         raise TypeError("dtype must be one of the possible dtypes used as the representatives for the general basis class.")
 
     if out is None:
-        out = _np.zeros(x.shape,dtype=x.dtype,order="C")
+        out = basis_zeros(x.shape,dtype=x.dtype)
     else:
         if out.shape!=x.shape:
             raise TypeError("expecting same shape for out and x arrays.")
@@ -606,7 +606,7 @@ def bitwise_and(x1, x2, out=None, where=None):
         raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
-        out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
+        out = basis_zeros(x1.shape,dtype=x1.dtype)
     else:
         if out.shape!=x1.shape:
             raise TypeError("expecting same shape for out and x1 arrays.")
@@ -738,7 +738,7 @@ def bitwise_or(x1, x2, out=None, where=None):
         raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
-        out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
+        out = basis_zeros(x1.shape,dtype=x1.dtype)
     else:
         if out.shape!=x1.shape:
             raise TypeError("expecting same shape for out and x1 arrays.")
@@ -870,7 +870,7 @@ def bitwise_xor(x1, x2, out=None, where=None):
         raise TypeError("expecting same dtype for x1 and x2 arrays.")
 
     if out is None:
-        out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
+        out = basis_zeros(x1.shape,dtype=x1.dtype)
     else:
         if out.shape!=x1.shape:
             raise TypeError("expecting same shape for out and x1 arrays.")
@@ -1039,7 +1039,7 @@ def _bitwise_left_shift(x1, shift_type[::1] x2, out=None, where=None):
         raise TypeError("x1 dtype must be one of the possible dtypes used as the representatives for the general basis class.")
    
     if out is None:
-        out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
+        out = basis_zeros(x1.shape,dtype=x1.dtype)
     else:
         if out.shape!=x1.shape:
             raise TypeError("expecting same shape for out and x1 arrays.")
@@ -1123,7 +1123,7 @@ def _bitwise_right_shift(x1, shift_type[::1] x2, out=None, where=None):
         raise TypeError("x1 dtype must be one of the possible dtypes used as the representatives for the general basis class.")
    
     if out is None:
-        out = _np.zeros(x1.shape,dtype=x1.dtype,order="C")
+        out = basis_zeros(x1.shape,dtype=x1.dtype)
     else:
         if out.shape!=x1.shape:
             raise TypeError("expecting same shape for out and x1 arrays.")
-- 
2.43.0


From 106337a2f7eaf9ff8cc26e7442d2b88c098ad806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 115/159] fix: python_int_to_basis_int with numpy integers

---
 .../basis_general/_basis_general_core/general_basis_utils.pyx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 0a490c8..a2f8700 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -101,6 +101,8 @@ def python_int_to_basis_int(python_int,dtype=None):
     >>> new_val = python_int_to_basis_int(val) 
 
     """
+    python_int = int(python_int)
+
     if python_int < 0:
         raise ValueError("value must be > 0.")
 
-- 
2.43.0


From 66e41c83858a81369cfa1a8bbfb9b17a4d93dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 116/159] fix: basis_int_to_python_int returns a python integer
 for arrays of signed integers

---
 .../_basis_general_core/general_basis_utils.pyx          | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index a2f8700..6fe0ca0 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -52,14 +52,11 @@ def basis_int_to_python_int(basis_int):
     cdef object i = 0
     cdef void * ptr = _np.PyArray_GETPTR1(basis_int_wrapper,0)
 
-    if basis_int_wrapper.size > 1:
+    if basis_int_wrapper.size != 1:
         raise ValueError("input value must be scalar")
 
-    if basis_int_wrapper.dtype in [_np.int32,_np.int64]:
-        basis_int_wrapper = basis_int_wrapper.astype(_np.object)
-
-    if basis_int_wrapper.dtype == _np.object:
-        return basis_int
+    if basis_int_wrapper.dtype in [_np.int32,_np.int64,_np.object]:
+        return int(basis_int_wrapper.item())
     elif basis_int_wrapper.dtype == uint32:
         return basis_to_python[uint32_t](<uint32_t*>ptr)
     elif basis_int_wrapper.dtype == uint64:
-- 
2.43.0


From 524a98a4a8ff0d4edc57859b7f327c9c9cd8db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 117/159] fix: exp_op.get_mat of sparse operators

---
 quspin/operators/exp_op_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ab93dbc..9d1fa45 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -9,6 +9,7 @@ import scipy.sparse as _sp
 import numpy as _np
 
 from scipy.sparse.linalg import expm_multiply as _expm_multiply
+from scipy.sparse.linalg import expm as _sp_expm
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
 from copy import copy as _shallowcopy
@@ -423,7 +424,7 @@ class exp_op(object):
 		if self.O.is_dense or dense:
 			return _la.expm(self._a * self.O.toarray(**call_kwargs))
 		else:
-			return _la.expm(self._a * self.O.tocsc(**call_kwargs))
+			return _sp_expm(self._a * self.O.tocsc(**call_kwargs))
 
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
-- 
2.43.0


From 1ca016a2128671d21da1ade85fcad43fad407d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 118/159] fix: exp_op: transpose, conj and getH do not change
 the operator itself

---
 quspin/operators/exp_op_core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 9d1fa45..de0ee79 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -228,8 +228,9 @@ class exp_op(object):
 		if copy:
 			return self.copy().transpose(copy = False)
 		else:
-			self._O=self._O.transpose()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.transpose()
+			return new
 
 	def conj(self):
 		"""Conjugates `exp_op` operator.
@@ -249,9 +250,10 @@ class exp_op(object):
 		>>> expO_conj = expO.conj()
 
 		"""
-		self._O=self._O.conj()
-		self._a = self._a.conjugate()
-		return self
+		new = _shallowcopy(self)
+		new._O = self._O.conj()
+		new._a = self._a.conjugate()
+		return new
 
 	def getH(self,copy = False):
 		"""Calculates hermitian conjugate of `exp_op` operator.
@@ -275,9 +277,10 @@ class exp_op(object):
 		if copy:
 			return self.copy().getH(copy = False)
 		else:
-			self._O = self._O.getH(copy = False)
-			self._a = self._a.conjugate()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.getH(copy = False)
+			new._a = self._a.conjugate()
+			return new
 
 
 	def copy(self):
-- 
2.43.0


From 9fdc4e88818b061239ce35b398b76e6785220579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 119/159] fix: exp_op.sandwich without a grid: conjugated
 factor on the left, shift is not ignored

---
 quspin/operators/exp_op_core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index de0ee79..cf6d029 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -672,7 +672,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
 			M = self._a.conjugate() * self.O.H(**call_kwargs)
 			
@@ -687,8 +687,10 @@ class exp_op(object):
 		else:
 			if self._grid is None and self._step is None:
 
-				other = self.dot(other,**call_kwargs)
-				other = self.H.rdot(other,**call_kwargs)
+				other = self.rdot(other,shift=shift,**call_kwargs)
+				if shift is not None:
+					shift = _np.conj(shift)
+				other = self.H.dot(other,shift=shift,**call_kwargs)
 				return other
 
 			else:
-- 
2.43.0


From cad01c3dd8931e36a9b9d87d49f618b2206eff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 120/159] fix: exp_op with a grid applied to hamiltonians

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index cf6d029..6cc5fc4 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -753,7 +753,7 @@ def _hamiltonian_dot(M, other):
 
 	return new
 
-def _hamiltonian_iter_dot(M, other, grid, step):
+def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_dot(M, other)
@@ -774,7 +774,7 @@ def _hamiltonian_rdot(M, other):
 
 	return new
 
-def _hamiltonian_iter_rdot(M, other, grid, step):
+def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_rdot(M, other)
-- 
2.43.0


From 99f327ff08b1c9257360be632969f9f64695c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 121/159] fix: exp_op.set_grid with the default number of grid
 points

---
 quspin/operators/exp_op_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 6cc5fc4..53359a7 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -338,13 +338,17 @@ class exp_op(object):
 		if not (_np.isreal(start) and _np.isreal(stop)):
 			raise ValueError("expecting real values for 'start' and 'stop'")
 
-		if type(num) is not None:
+		if num is not None:
 			if type(num) is not int:
 				raise ValueError("expecting integer for 'num'.")
+		else:
+			num = 50
 
-		if type(endpoint) is not None:
+		if endpoint is not None:
 			if type(endpoint) is not bool:
 				raise ValueError("expecting bool for 'endpoint'.")
+		else:
+			endpoint = True
 
 		self._start=start
 		self._stop=stop
-- 
2.43.0


From 16dc225d41ac4891ab56fb19e6c917de03b8f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 122/159] fix: exp_op.set_iterate(True) needs a grid

---
 quspin/operators/exp_op_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 53359a7..6482d85 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -395,7 +395,7 @@ class exp_op(object):
 			raise ValueError("iterate option must be true or false.")
 
 		if Value:
-			if (self._grid, self._step) is (None, None):
+			if self._grid is None:
 				raise ValueError("grid must be set in order to set iterate to be True.")
 
 		self._iterate = Value
-- 
2.43.0


From afd9c502baa88e43e89509d28c053ccc30daf26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 123/159] fix: expm_multiply_parallel.set_a with dtype

---
 .../expm_multiply_parallel_core/expm_multiply_parallel_core.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
index 7914aa5..fccc4fe 100644
--- a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
@@ -129,7 +129,7 @@ class expm_multiply_parallel(object):
             if dtype is None:
                 self._dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float64)
             else:
-                min_dtype = _np.result_type(A.dtype,a_dtype_min,_np.float32)
+                min_dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float32)
                 if not _np.can_cast(min_dtype,dtype):
                     raise ValueError("dtype not sufficient to represent a*A to at least float32 precision.")
 
-- 
2.43.0


From b10d094c6f826f3f6bcaad07288576b08d5c4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:07 +0000
Subject: [PATCH 124/159] fix: expm_multiply_parallel with matrices whose data
 is not contiguous

---
 .../expm_multiply_parallel_core/expm_multiply_parallel_core.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
index fccc4fe..e1aef88 100644
--- a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
@@ -59,6 +59,8 @@ class expm_multiply_parallel(object):
             raise ValueError("a must be scalar value.")
 
         self._A = _sp.csr_matrix(A,copy=copy)
+        # the data of e.g. `A.real` is strided
+        self._A.data = _np.ascontiguousarray(self._A.data)
 
         if A.shape[0] != A.shape[1]:
             raise ValueError("A must be a square matrix.")
-- 
2.43.0


From 08c0a1db702021cbdc3d7792c143307a5f6a7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 125/159] fix: exp_op of dense operators applied to sparse
 matrices

---
 quspin/operators/exp_op_core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 6482d85..d441497 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -8,7 +8,7 @@ import scipy.linalg as _la
 import scipy.sparse as _sp
 import numpy as _np
 
-from scipy.sparse.linalg import expm_multiply as _expm_multiply
+from scipy.sparse.linalg import expm_multiply as _sp_expm_multiply
 from scipy.sparse.linalg import expm as _sp_expm
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
@@ -707,6 +707,12 @@ class exp_op(object):
 
 
 ### helper functions
+def _expm_multiply(A, B, **kwargs):
+	if _sp.issparse(B) and not _sp.issparse(A): # not supported by scipy
+		A = _sp.csr_matrix(A)
+
+	return _sp_expm_multiply(A, B, **kwargs)
+
 def _iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
-- 
2.43.0


From d6f6bba97303786edbac309c620452dfaa3c39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 126/159] fix: exp_op of a quantum_operator with the documented
 pars argument

---
 quspin/operators/exp_op_core.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index d441497..5c6c9fb 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -488,9 +488,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a * (_evaluate(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
-			M = self._a * self.O(**call_kwargs)
+			M = self._a * _evaluate(self.O,call_kwargs)
 
 		if self._iterate:
 			if is_ham:
@@ -583,9 +583,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = (self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
+			M = (self._a * (_evaluate(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
 		else:
-			M = (self._a * self.O(**call_kwargs)).T
+			M = (self._a * _evaluate(self.O,call_kwargs)).T
 
 		if self._iterate:
 			if is_ham:
@@ -676,9 +676,9 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (_evaluate(self.O.H,call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
 		else:
-			M = self._a.conjugate() * self.O.H(**call_kwargs)
+			M = self._a.conjugate() * _evaluate(self.O.H,call_kwargs)
 			
 		if self._iterate:
 
@@ -707,6 +707,14 @@ class exp_op(object):
 
 
 ### helper functions
+def _evaluate(O, call_kwargs):
+	if quantum_operator_core.isquantum_operator(O):
+		pars = dict(call_kwargs)
+		pars.update(pars.pop("pars",{}))
+		return O(**pars)
+	else:
+		return O(**call_kwargs)
+
 def _expm_multiply(A, B, **kwargs):
 	if _sp.issparse(B) and not _sp.issparse(A): # not supported by scipy
 		A = _sp.csr_matrix(A)
-- 
2.43.0


From 60be2c2493c6e6cd07ff70ac66739e2e3b867912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 127/159] fix: exp_op of dense operators with shift

---
 quspin/operators/exp_op_core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 5c6c9fb..8bf170c 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -488,7 +488,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a * (_evaluate(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a * (_add_shift(_evaluate(self.O,call_kwargs),shift))
 		else:
 			M = self._a * _evaluate(self.O,call_kwargs)
 
@@ -583,7 +583,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
 		if shift is not None:
-			M = (self._a * (_evaluate(self.O,call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
+			M = (self._a * (_add_shift(_evaluate(self.O,call_kwargs),shift))).T
 		else:
 			M = (self._a * _evaluate(self.O,call_kwargs)).T
 
@@ -676,7 +676,7 @@ class exp_op(object):
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
 		if shift is not None:
-			M = self._a.conjugate() * (_evaluate(self.O.H,call_kwargs) + _np.conj(shift)*_sp.identity(self.Ns,dtype=self.O.dtype))
+			M = self._a.conjugate() * (_add_shift(_evaluate(self.O.H,call_kwargs),_np.conj(shift)))
 		else:
 			M = self._a.conjugate() * _evaluate(self.O.H,call_kwargs)
 			
@@ -707,6 +707,12 @@ class exp_op(object):
 
 
 ### helper functions
+def _add_shift(M, shift):
+	if _sp.issparse(M):
+		return M + shift*_sp.identity(M.shape[0],dtype=M.dtype)
+	else:
+		return _np.asarray(M) + shift*_np.identity(M.shape[0],dtype=M.dtype)
+
 def _evaluate(O, call_kwargs):
 	if quantum_operator_core.isquantum_operator(O):
 		pars = dict(call_kwargs)
-- 
2.43.0


From 37d6691ee03f6f0fd51413c6bf33b6db9b089425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 128/159] fix: exp_op.sandwich of sparse matrices on a grid

---
 quspin/operators/exp_op_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 8bf170c..efbfe9c 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -654,12 +654,14 @@ class exp_op(object):
 		>>> print(expO.sandwich(A))
 		
 		"""
+		is_sp = False
 		is_ham = False
 		if hamiltonian_core.ishamiltonian(other):
 			shape = other._shape
 			is_ham = True
 		elif _sp.issparse(other):
 			shape = other.shape
+			is_sp = True
 		elif other.__class__ in [_np.matrix, _np.ndarray]:
 			shape = other.shape
 		else:
@@ -701,6 +703,9 @@ class exp_op(object):
 				if is_ham:
 					mat_iter = _hamiltonian_iter_sandwich(M, other, self._step, self._grid)
 					return _np.asarray([mat for mat in mat_iter])
+				elif is_sp:
+					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
+					return _np.array([mat for mat in mat_iter])
 				else:
 					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
 					return _np.asarray([mat for mat in mat_iter]).transpose((1,2,0))
-- 
2.43.0


From d1f0dbeaa4c3d7f71635d073e0dd704d969a65af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:20 +0000
Subject: [PATCH 129/159] fix: exp_op of a dense quantum_operator

---
 quspin/operators/exp_op_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index efbfe9c..8cae956 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -722,7 +722,8 @@ def _evaluate(O, call_kwargs):
 	if quantum_operator_core.isquantum_operator(O):
 		pars = dict(call_kwargs)
 		pars.update(pars.pop("pars",{}))
-		return O(**pars)
+		M = O(**pars)
+		return M if _sp.issparse(M) else _np.asarray(M)
 	else:
 		return O(**call_kwargs)
 
-- 
2.43.0


From 11382ef7f2ba3cc6878fdd0bede7dbc694bd9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 130/159] fix: exp_op of real operators on decreasing grids or
 a single grid point

---
 quspin/operators/exp_op_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 8cae956..e8b6e4b 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -514,7 +514,8 @@ class exp_op(object):
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
 
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					# scipy only supports increasing grids with at least two points.
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or not self._start < self._stop or self._num < 2:
 						mats = _iter_dot(M, other, self._step, self._grid)
 						return _np.array([mat for mat in mats]).T
 					else:
@@ -608,7 +609,8 @@ class exp_op(object):
 					return _np.array([mat for mat in mats])
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					# scipy only supports increasing grids with at least two points.
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or not self._start < self._stop or self._num < 2:
 						mats = _iter_rdot(M, other.T, self._step, self._grid)
 						return _np.array([mat for mat in mats])
 					else:
-- 
2.43.0


From b2ea9ac87b427b794c32226e8b275315857b8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:30 +0000
Subject: [PATCH 131/159] fix: lanczos_full/lanczos_iter: 'eps' is the cutoff
 of the iteration only, v0 is always normalized

---
 quspin/tools/lanczos/_lanczos_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 7bb742d..26840f3 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -154,7 +154,7 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 
 	q_norm = _np.linalg.norm(Q[0,:])
 
-	if _np.abs(q_norm-1.0) > eps:
+	if _np.abs(q_norm-1.0) > _np.finfo(dtype).eps:
 		_np.divide(Q[0,:],q_norm,out=Q[0,:])
 	
 	try:
@@ -298,7 +298,7 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 
 	q_norm = _np.linalg.norm(q)
 
-	if _np.abs(q_norm-1.0) > eps:
+	if _np.abs(q_norm-1.0) > _np.finfo(dtype).eps:
 		_np.divide(q,q_norm,out=q)
 
 	try:
-- 
2.43.0


From 840b9d9e2bb12394789f4b72c9a6da5e8a1ace2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:30 +0000
Subject: [PATCH 132/159] fix: lanczos_full/lanczos_iter: keep exactly the
 vectors of an exhausted Krylov space

---
 quspin/tools/lanczos/_lanczos_utils.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 26840f3..e652f3a 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -169,8 +169,11 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 	axpy(Q[0,:],r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] < eps: # the Krylov space is exhausted
+			m = i
+			break
+
 		v[:] = Q[i-1,:]
 
 		_np.divide(r,b[i-1],out=Q[i,:])
@@ -186,15 +189,12 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 		axpy(Q[i,:],r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			m = i
-			break
 
 
 	if full_ortho:
-		q,_ = _np.linalg.qr(Q[:m+1].T)
+		q,_ = _np.linalg.qr(Q[:m].T)
 
-		Q[:m+1,:] = q.T[...]
+		Q[:m,:] = q.T[...]
 
 		h = _np.zeros((m,m),dtype=a.dtype)
 
@@ -205,7 +205,7 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 				r[:] = A.dot(Q[i,:])
 
 			_np.conj(r,out=r)
-			h[i,i:] = _np.dot(Q[i:,:],r).real
+			h[i,i:] = _np.dot(Q[i:m,:],r).real
 
 		E,V = _np.linalg.eigh(h,UPLO="U")
 
@@ -312,8 +312,11 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 	axpy(q,r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] < eps: # the Krylov space is exhausted
+			m = i
+			break
+
 		v[:] = q[:]
 
 		_np.divide(r,b[i-1],out=q)
@@ -328,11 +331,9 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 		axpy(q,r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			break
 
-	a = a[:i+1].copy()
-	b = b[:i].copy()
+	a = a[:m].copy()
+	b = b[:m-1].copy()
 	del q,r,v
 
 	E,V = eigh_tridiagonal(a,b)
-- 
2.43.0


From c161453e4f475bc76c97c2722983a9b287ec617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:30 +0000
Subject: [PATCH 133/159] fix: lanczos_full with full_ortho: the first Lanczos
 vector is v0, not -v0

---
 quspin/tools/lanczos/_lanczos_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index e652f3a..8a610d9 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -192,9 +192,10 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 
 
 	if full_ortho:
-		q,_ = _np.linalg.qr(Q[:m].T)
+		q,u = _np.linalg.qr(Q[:m].T)
+		u = u.diagonal()
 
-		Q[:m,:] = q.T[...]
+		Q[:m,:] = (q*(u/_np.abs(u))).T # phases of the QR factors: the rows keep their direction
 
 		h = _np.zeros((m,m),dtype=a.dtype)
 
-- 
2.43.0


From 0bda718083831ad002a46a940499f0ad3234c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:30 +0000
Subject: [PATCH 134/159] fix: LTLM_static_iteration uses all of the Lanczos
 vectors

---
 quspin/tools/lanczos/_LTLM.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/quspin/tools/lanczos/_LTLM.py b/quspin/tools/lanczos/_LTLM.py
index e3dded2..e1a9fa3 100644
--- a/quspin/tools/lanczos/_LTLM.py
+++ b/quspin/tools/lanczos/_LTLM.py
@@ -93,11 +93,6 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	nv = E.size
 
 	beta = _np.atleast_1d(beta)
-	p = _np.exp(-E*beta.min())*_np.abs(V[0,:]).max()
-	mask = p<_np.finfo(p.dtype).eps
-
-	if _np.any(mask):
-		nv = _np.argmax(mask)
 
 	Ome_dict = {}
 
-- 
2.43.0


From 4671d30ebf6654d36cbb4766e00bbfd7b7176e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:31 +0000
Subject: [PATCH 135/159] fix: LTLM_static_iteration with an iterator over the
 rows of Q_T

---
 quspin/tools/lanczos/_LTLM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quspin/tools/lanczos/_LTLM.py b/quspin/tools/lanczos/_LTLM.py
index e1a9fa3..3fac7d2 100644
--- a/quspin/tools/lanczos/_LTLM.py
+++ b/quspin/tools/lanczos/_LTLM.py
@@ -94,6 +94,9 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 
 	beta = _np.atleast_1d(beta)
 
+	if iter(Q_T) is Q_T: # can be iterated over only once
+		Q_T = [_np.array(lv) for lv in Q_T]
+
 	Ome_dict = {}
 
 	lv_row = iter(Q_T)
-- 
2.43.0


From 1b341e5663c19ae6f4c4d519273aa0cb81ad7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:31 +0000
Subject: [PATCH 136/159] fix: FTLM/LTLM_static_iteration: results have the
 shape of beta

---
 quspin/tools/lanczos/_FTLM.py | 12 +++++++-----
 quspin/tools/lanczos/_LTLM.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/quspin/tools/lanczos/_FTLM.py b/quspin/tools/lanczos/_FTLM.py
index f87abba..182cb23 100644
--- a/quspin/tools/lanczos/_FTLM.py
+++ b/quspin/tools/lanczos/_FTLM.py
@@ -91,8 +91,10 @@ def FTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	nv = E.size
 
 
-	p = _np.exp(-_np.outer(_np.atleast_1d(beta),E))
-	c = _np.einsum("j,aj,...j->a...",V[0,:],V,p)
+	beta = _np.asanyarray(beta)
+
+	p = _np.exp(-_np.outer(beta,E))
+	c = _np.einsum("j,aj,...j->a...",V[0,:],V,p).reshape((-1,)+beta.shape)
 
 	r,Q_T = _get_first_lv(iter(Q_T))
 
@@ -103,11 +105,11 @@ def FTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	for i,lv in enumerate(Q_T): # nv matvecs
 		for key,A in iteritems(O_dict):
 			if key in results_dict:
-				results_dict[key] += _np.squeeze(c[i,...] * _np.vdot(lv,Ar_dict[key]))
+				results_dict[key] += _np.asarray(c[i,...] * _np.vdot(lv,Ar_dict[key]))
 			else:
-				results_dict[key]  = _np.squeeze(c[i,...] * _np.vdot(lv,Ar_dict[key]))
+				results_dict[key]  = _np.asarray(c[i,...] * _np.vdot(lv,Ar_dict[key]))
 
-	return results_dict,_np.squeeze(c[0,...])
+	return results_dict,c[0,...]
 
 
 
diff --git a/quspin/tools/lanczos/_LTLM.py b/quspin/tools/lanczos/_LTLM.py
index 3fac7d2..31c8829 100644
--- a/quspin/tools/lanczos/_LTLM.py
+++ b/quspin/tools/lanczos/_LTLM.py
@@ -92,7 +92,8 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	"""
 	nv = E.size
 
-	beta = _np.atleast_1d(beta)
+	beta = _np.asanyarray(beta)
+	shape = beta.shape
 
 	if iter(Q_T) is Q_T: # can be iterated over only once
 		Q_T = [_np.array(lv) for lv in Q_T]
@@ -122,7 +123,7 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	del lv_row
 
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)/2.0))
+	p = _np.exp(-_np.outer(E[:nv],beta/2.0))
 	V = V[:nv,:nv].copy()
 
 	c = _np.einsum("j,j...->j...",V[0,:],p)
@@ -130,9 +131,9 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	results_dict = {}
 	for key,Ame in iteritems(Ome_dict):
 		A_diag = V.T.dot(Ame.dot(V))
-		results_dict[key] = _np.squeeze(_np.einsum("j...,l...,jl->...",c,c,A_diag))
+		results_dict[key] = _np.einsum("j...,l...,jl->...",c,c,A_diag).reshape(shape)
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)))
+	p = _np.exp(-_np.outer(E[:nv],beta))
 	Id = _np.einsum("j,j...->...",V[0,:]**2,p)
 
-	return results_dict,_np.squeeze(Id)
+	return results_dict,Id.reshape(shape)
-- 
2.43.0


From 261c5e19467c1b8f918326a3b44e55a622ea2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 137/159] fix: Floquet returned the transpose of the evolution
 operator

---
 quspin/tools/Floquet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index adb17dd..01e2a5f 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -12,7 +12,7 @@ import numpy as _np
 
 from scipy.integrate import complex_ode
 from joblib import delayed,Parallel
-from numpy import vstack 
+from numpy import column_stack 
 
 import warnings
 
@@ -115,19 +115,19 @@ def _get_U_cont(H,T,n_jobs,atol=1E-9,rtol=1E-9):
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_cont)(i,H,T,atol,rtol) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	return column_stack(sols) # U e_i are the columns of U
 
 def _get_U_step_3(H_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_3)(i,H_list,dt_list) for i in _range_iter(0,H_list[0].Ns,1))
 
-	return vstack(sols)
+	return column_stack(sols) # U e_i are the columns of U
 
 def _get_U_step_2(H,t_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_2)(i,H,t_list,dt_list) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	return column_stack(sols) # U e_i are the columns of U
 
 
 
-- 
2.43.0


From 26d334cefc45a8ecfce50e64483f11c708443f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 138/159] fix: quspin.tools.Floquet exports Floquet

---
 quspin/tools/Floquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 01e2a5f..c4264bb 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -16,7 +16,7 @@ from numpy import column_stack
 
 import warnings
 
-__all__ = ['Floquet_t_vec','Floquet_t_vec']
+__all__ = ['Floquet','Floquet_t_vec']
 
 #warnings.warn("Floquet Package has not been fully tested yet, please report bugs to: https://github.com/weinbe58/qspin/issues.",UserWarning,stacklevel=3)
 
-- 
2.43.0


From f1dcfc152ef61c2bf1b50bf5776db2c7c610bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 139/159] fix: Floquet_t_vec.get_coordinates does not compare
 floating-point times

---
 quspin/tools/Floquet.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index c4264bb..b9e44a7 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -647,9 +647,7 @@ class Floquet_t_vec(object):
 
 		Notes
 		-----
-			* This function finds the indegers (i,j), such that `t_evolve[t_evolve.strobo.inds[i-1] + j] = t_evolve[index]`.
-
-			* The function may return wrong results if the spacing between two consecutive (i.e. nonstroboscopic) `Floquet_t_vec` values is smaller than `1E-15`.
+			* This function finds the indegers (i,j), such that `t_evolve[t_evolve.strobo.inds[i] + j] = t_evolve[index]`.
 
 		Parameters
 		-----------
@@ -671,12 +669,8 @@ class Floquet_t_vec(object):
 
 		"""	
 
-		t=self._vals[index]
-		eps=1E-15
-
-		i=_np.searchsorted(self.strobo._vals,t+eps)-1
-
-		j=_np.where( _np.abs(t-i*self._T - self._vals[:self.strobo.inds[1]])<eps )[0][0]
+		index=range(self._len)[index]
+		i,j=divmod(index,self._len_T)
 
 		return (i,j)
 
-- 
2.43.0


From e754b6cd8c42eefacdad0a4be3f14a5f24291479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 140/159] fix: Floquet_t_vec.down.strobo.vals are the
 stroboscopic times

---
 quspin/tools/Floquet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index b9e44a7..25c8306 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -496,7 +496,7 @@ class Floquet_t_vec(object):
 
 			t_down = self.vals[self.strobo.inds[N_up+N_const]+1:self.strobo.inds[-1]+1]
 			ind0 = self.const.strobo.inds[-1]+self.len_T
-			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0)
+			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0,self.len_T-1)
 
 		elif N_up > 0:
 			t_up = self.vals[:self.strobo.inds[N_up]]
@@ -512,7 +512,7 @@ class Floquet_t_vec(object):
 
 			t_down = self.vals[self.strobo.inds[N_up+N_const]+1:self.strobo.inds[-1]+1]
 			ind0 = self.const.strobo.inds[-1]+self.len_T
-			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0)
+			self._down = _periodic_ramp(N_down,t_down,self.T,self.len_T,ind0,self.len_T-1)
 
 
 	def __iter__(self):
@@ -677,18 +677,18 @@ class Floquet_t_vec(object):
 
 
 class _strobo_times():
-	def __init__(self,t,len_T,ind0):
+	def __init__(self,t,len_T,ind0,start=0):
 		"""
 		Calculates stroboscopic times in time vector t with period length len_T and assigns them as
 		attributes.
 		
 		"""
-		# indices of strobo times
-		self._inds = _np.arange(0,t.size,len_T).astype(int)
+		# indices of strobo times, the first one is t[start]
+		self._inds = _np.arange(start,t.size,len_T).astype(int)
 		#discrete stroboscopic t_vecs
 		self._vals = t.take(self._inds)
 		# update strobo indices to match shifted (ramped) ones
-		self._inds += ind0
+		self._inds += ind0 - start
 
 	@property
 	def inds(self):
@@ -723,7 +723,7 @@ class _strobo_times():
 
 
 class _periodic_ramp():
-	def __init__(self,N,t,T,len_T,ind0):
+	def __init__(self,N,t,T,len_T,ind0,start=0):
 		"""Defines time vector attributes of each regime.
 		
 		"""
@@ -733,7 +733,7 @@ class _periodic_ramp():
 		self._f = self._vals[-1] # final value
 		self._tot = self._N*T # total duration
 		self._len = self._vals.size # total length
-		self._strobo = _strobo_times(self._vals,len_T,ind0) # strobo attributes
+		self._strobo = _strobo_times(self._vals,len_T,ind0,start) # strobo attributes
 
 	def __iter__(self):
 		return self.vals.__iter__()
-- 
2.43.0


From cba0c5b3d22541c02c4ce3ce80c3f441095ff85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 141/159] fix: ent_entropy of a mixed state given by its
 eigenvectors

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index a0ca2de..014ea45 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -67,7 +67,7 @@ def ent_entropy(system_state,basis,chain_subsys=None,DM=False,svd_return_vec=[Fa
 		if "rho_d" in system_state and "V_rho" in system_state:
 			V_rho = system_state["V_rho"]
 			rho_d = system_state["rho_d"] 
-			state = _np.einsum("ji,j,jk->ik",V_rho,rho_d,V_rho.conj())
+			state = _np.einsum("ij,j,kj->ik",V_rho,rho_d,V_rho.conj())
 		elif "V_states" in system_state:
 			state=system_state['V_states']
 			_basis_kwargs["enforce_pure"]=True
-- 
2.43.0


From 015fd0024ebd892d27148af6ad0f017ccb850724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 142/159] fix: diag_ensemble fluctuations of observables which
 are arrays

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 014ea45..87bedd3 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -276,7 +276,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 	# various checks
 	if delta_t_Obs or delta_q_Obs:
-		if not Obs:
+		if Obs is False:
 			raise TypeError("Expecting to parse the observable 'Obs' whenever 'delta_t_Obs = True' or 'delta_q_Obs = True'!")
 	
 	# calculate diagonal ensemble DM
-- 
2.43.0


From 3b8f77958f1f7807e9b06c5c042d0c5b1b35563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 143/159] fix: diag_ensemble fluctuations of observables with
 complex matrix elements

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 87bedd3..02bcbfc 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -372,7 +372,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 			# diagonal matrix elements of Obs^2 in the basis V2
 			#delta_t_Obs =  _np.einsum( 'ij,ji->i', V2.T.conj(), Obs.dot(Obs).dot(V2) ).real
 			Obs = V2.T.conj().dot( Obs.dot(V2) )
-			delta_t_Obs = _np.square(Obs)
+			delta_t_Obs = _np.abs(Obs)**2
 			_np.fill_diagonal(delta_t_Obs,0.0)
 			if delta_q_Obs is not False:
 				delta_q_Obs = _np.diag(Obs.dot(Obs)).real
-- 
2.43.0


From fae1206e9acb1229c55f043ababb550a14a4ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 144/159] fix: diag_ensemble: vanishing quantum fluctuations
 are 0, not NaN

---
 quspin/tools/measurements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 02bcbfc..4844c6c 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -1220,7 +1220,8 @@ def _inf_time_obs(rho,istate,Obs=False,delta_t_Obs=False,delta_q_Obs=False,Sd_Re
 
 		# calculate diag ens value of Obs fluctuations
 		if delta_q_Obs is not False:
-			delta_q_Obs_d = _np.sqrt( _np.einsum('j...,j->...',rho,delta_q_Obs).real - delta_t_Obs_d - Obs_d**2 )
+			delta_q_Obs_d = _np.einsum('j...,j->...',rho,delta_q_Obs).real - delta_t_Obs_d - Obs_d**2
+			delta_q_Obs_d = _np.sqrt( _np.maximum(delta_q_Obs_d,0.0) ) # vanishing fluctuations: no NaN from rounding
 
 		delta_t_Obs_d = _np.sqrt( delta_t_Obs_d )
 
-- 
2.43.0


From 85640ed933bde443fb774fa70381727ca0fd57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 145/159] fix: diag_ensemble with integer f_args: the weights
 are not integers

---
 quspin/tools/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 4844c6c..0301f7b 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -328,7 +328,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		if 'f_norm' in system_state.keys():
 			f_norm = system_state['f_norm']
-			f_norms = _np.zeros((len(f_args[0])),dtype=type(f_args[0][0]) )
+			f_norms = _np.zeros((len(f_args[0])),dtype=_np.result_type(type(f_args[0][0]),_np.float64) )
 		else:
 			f_norm = True
 
@@ -340,7 +340,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		# define diagonal (in V1) mixed DM
 		
-		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=type(f_args[0][0]) )
+		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=_np.result_type(type(f_args[0][0]),_np.float64) )
 		for i, arg in enumerate(f_args[0]):
 			if f_norm:
 				rho_mixed[:,i] = f(E1,arg) / sum(f(E1,arg))
-- 
2.43.0


From 08d5e7ba68cd351472033c085a61e2c2834806d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 146/159] fix: obs_vs_time leaves the dictionary of observables
 of the caller alone

---
 quspin/tools/measurements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 0301f7b..d0d666e 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -550,9 +550,11 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 	if not isinstance(Obs_dict,dict):
 		raise ValueError("Obs_dict must be a dictionary.")
 
+	Obs_dict = dict(Obs_dict) # the dictionary of the caller is not changed
+
 	num_Obs = len(Obs_dict.keys())
 
-	for key, val in Obs_dict.items():
+	for key, val in list(Obs_dict.items()):
 		if not ishamiltonian(val):
 			if not(_sp.issparse(val)) and not(val.__class__ in [_np.ndarray,_np.matrix]):
 				val =_np.asanyarray(val)
-- 
2.43.0


From 857d92e5dea8232c4ed0cdaa7167f2c7b97f13e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 147/159] fix: hamiltonian.expt_value/obs_vs_time of many
 time-dependent pure states

---
 quspin/operators/hamiltonian_core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ff96546..cd51f15 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -640,9 +640,6 @@ class hamiltonian(object):
 				V = V.tocsc()
 				return _sp.hstack([_sp.csc_matrix(a*self.dot(V[:,[i]],time=t,check=check)) for i,t in enumerate(time)],format="csc")
 			else:
-				if V.ndim == 3 and V.shape[0] != V.shape[1]:
-					raise ValueError("Density matrices must be square!")
-
 				# allocate C-contiguous array to output results in.
 				out = _np.zeros(V.shape[-1:]+V.shape[:-1],dtype=result_dtype)
 				
@@ -891,8 +888,11 @@ class hamiltonian(object):
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
 					return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-				elif V_left.ndim == 3: # multiple mixed states multiple time points
-					return _np.einsum("iij->j",V_right)
+				elif V_left.ndim == 3:
+					if V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states for each time point
+						return _np.einsum("ikj,ikj->kj",V_left.conj(),V_right)
+					else: # multiple mixed states multiple time points
+						return _np.einsum("iij->j",V_right)
 
 		else:
 
-- 
2.43.0


From 248f40b9082d7c31507d9484d6b3c9ccc66a56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 148/159] fix: obs_vs_time uses enforce_pure for states from a
 generator

---
 quspin/tools/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index d0d666e..33e12eb 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -657,7 +657,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 		time = times[0]
 
 		for key,Obs in Obs_dict.items():
-			val = Obs.expt_value(psi,time=time,check=False)
+			val = Obs.expt_value(psi,time=time,check=False,enforce_pure=enforce_pure)
 			Expt_time[key] = [val]
 
 
@@ -682,7 +682,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			if verbose: print("obs_vs_time integrated to t={:.4f}".format(time))
 
 			for key,Obs in Obs_dict.items():
-				Expt_time[key].append(Obs.expt_value(psi,time=time,check=False))
+				Expt_time[key].append(Obs.expt_value(psi,time=time,check=False,enforce_pure=enforce_pure))
 
 			if calc_Sent:
 				Sent_time_update = calc_ent_entropy(psi,**Sent_args)
-- 
2.43.0


From b27ef467f958a534fac6a34acc2382cd9047d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:01 +0000
Subject: [PATCH 149/159] fix: obs_vs_time with return_state for a generator
 with a single time

---
 quspin/tools/measurements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 33e12eb..9d80ec8 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -609,9 +609,12 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			variables.append("psi_t")
 			psi_t_list = []
 			for psi in psi_t:
+				psi = _np.asarray(psi)
+				if psi.ndim > 1 and psi.shape[1] == 1:
+					psi = psi.ravel() # a single state
 				psi_t_list.append(psi)
 
-			psi_t = _np.squeeze(_np.dstack(psi_t_list))
+			psi_t = _np.stack(psi_t_list,axis=-1)
 
 			for Obs in Obs_dict.values():
 				if psi_t.shape[0] != Obs._shape[1]:
-- 
2.43.0


From 7e1d4122745e4ad48f73c050fdb570e6beeeb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 150/159] fix: obs_vs_time: entropies of pure states when there
 are as many times as states

---
 quspin/tools/measurements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 9d80ec8..b1ced1c 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -650,6 +650,8 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			
 		# calculate entanglement entropy if requested	
 		if calc_Sent:
+			if psi_t.ndim == 2: # a pure state for each time, not a density matrix
+				Sent_args.setdefault("enforce_pure",True)
 			Sent_time = calc_ent_entropy(psi_t,**Sent_args)
 
 
-- 
2.43.0


From d1de879183ff2b1c582751c9eeac452afeefd1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 151/159] fix: project_op of an array with a basis or a sparse
 projector

---
 quspin/tools/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/misc.py b/quspin/tools/misc.py
index 37acfea..ce2c3ca 100644
--- a/quspin/tools/misc.py
+++ b/quspin/tools/misc.py
@@ -105,7 +105,10 @@ def project_op(Obs,proj,dtype=_np.complex128):
 			proj_down=True
 
 		if proj_down:
-			Proj_Obs = proj.T.conj().dot(Obs.dot(proj))
+			proj = proj.T.conj()
+
+		if _sp.issparse(proj): # sparse factors act from the left, also on arrays
+			Proj_Obs = proj.conj().dot(proj.dot(Obs).T).T
 		else:
 			Proj_Obs = proj.dot(Obs.dot(proj.T.conj()))
 
-- 
2.43.0


From b420c52d90157147f310b125d5f6f14860603dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 152/159] fix: block tools no longer modify the caller's block
 dictionaries

---
 quspin/tools/block_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index e2eca82..26c9484 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -101,7 +101,7 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 	blocks = list(blocks)
 
 	if all([isinstance(block,dict) for block in blocks]):
-		[blocks[i].update(basis_kwargs) for i in range(len(blocks))]
+		blocks = [dict(block,**basis_kwargs) for block in blocks]
 		dynamic_list = [(tup[-2],tuple(tup[-1])) for tup in dynamic]
 		dynamic_list = [([],f,f_args) for f,f_args in set(dynamic_list)]
 		static_mats = []
@@ -358,8 +358,7 @@ class block_ops(object):
 
 
 		for block in blocks:
-			block.update(basis_kwargs)
-			b = basis_con(*basis_args,**block)
+			b = basis_con(*basis_args,**dict(block,**basis_kwargs))
 			if b.Ns >  0:
 				self._basis_dict[str(block)]=b
 
-- 
2.43.0


From 8ea322446e9e389a97485e67e14b04a043681118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 153/159] fix: block_diag_hamiltonian with several time
 dependences or with vanishing dynamic terms in a block

---
 quspin/tools/block_tools.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 26c9484..b6b6781 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -102,9 +102,7 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 
 	if all([isinstance(block,dict) for block in blocks]):
 		blocks = [dict(block,**basis_kwargs) for block in blocks]
-		dynamic_list = [(tup[-2],tuple(tup[-1])) for tup in dynamic]
-		dynamic_list = [([],f,f_args) for f,f_args in set(dynamic_list)]
-		static_mats = []
+		H_blocks = []
 		for block in blocks:
 			b = basis_con(*basis_args,**block)
 			if get_proj:
@@ -115,15 +113,9 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 			check_symm = False
 			check_herm = False
 			check_pcon = False
-			static_mats.append(H.static.tocoo())
-			for i,Hd in enumerate(_itervalues(H.dynamic)):
-				dynamic_list[i][0].append(Hd.tocoo())
+			H_blocks.append(H)
 
-		static = [_sp.block_diag(static_mats,format="csr")]
-		dynamic = []
-		for mats,f,f_args in dynamic_list:
-			mats = _sp.block_diag(mats,format="csr")
-			dynamic.append([mats,f,f_args])
+		static,dynamic = _block_diag_lists(H_blocks)
 
 	else:
 		raise ValueError("blocks must be list of dictionaries containing symmetry sectors.")
@@ -137,6 +129,27 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 		return hamiltonian(static,dynamic,copy=False)
 
 
+def _block_diag_lists(H_blocks):
+	"""
+	static and dynamic lists of the block diagonal hamiltonian with the blocks `H_blocks`. 
+
+	A block without a term for a given time dependence is zero there. 
+
+	"""
+	static = [_sp.block_diag([_sp.coo_matrix(H.static) for H in H_blocks],format="csr")]
+
+	funcs = []
+	for H in H_blocks:
+		funcs.extend([func for func in H.dynamic if func not in funcs])
+
+	dynamic = []
+	for func in funcs:
+		mats = [_sp.coo_matrix(H.dynamic[func]) if func in H.dynamic else _sp.coo_matrix(H.static.shape,dtype=H.dtype) for H in H_blocks]
+		dynamic.append([_sp.block_diag(mats,format="csr"),func])
+
+	return static,dynamic
+
+
 def _worker(gen_func,args_list,q,e):
 	"""
 	Worker function which loops over one of more generators provided by `gen_func` and returns the result 
-- 
2.43.0


From 8bef8f3e3825abb2e499b2c37ae3e71737541099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 154/159] fix: block_diag_hamiltonian returns a hamiltonian of
 the requested dtype

---
 quspin/tools/block_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index b6b6781..249f963 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -124,9 +124,9 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 
 	if get_proj:
 		P = _sp.hstack(P_list,format="csr")
-		return P,hamiltonian(static,dynamic,copy=False)
+		return P,hamiltonian(static,dynamic,copy=False,dtype=dtype)
 	else:
-		return hamiltonian(static,dynamic,copy=False)
+		return hamiltonian(static,dynamic,copy=False,dtype=dtype)
 
 
 def _block_diag_lists(H_blocks):
-- 
2.43.0


From b02bf7b5fb124a6fca81b60ef5cb49502c812ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 155/159] fix: block_ops with block_diag=True and more jobs
 than blocks

---
 quspin/tools/block_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 249f963..332702e 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -597,6 +597,7 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
+			n_jobs = min(n_jobs,N_H) # no empty groups of blocks
 			n_pp = N_H//n_jobs
 			n_left = n_pp + N_H%n_jobs	
 
@@ -757,6 +758,7 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
+			n_jobs = min(n_jobs,N_H) # no empty groups of blocks
 			n_pp = N_H//n_jobs
 			n_left = n_pp + N_H%n_jobs	
 
-- 
2.43.0


From 46f4aaa165dfcf9b2e04dc7191457e748ea83d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 156/159] fix: block_ops.evolve with block_diag=True

---
 quspin/tools/block_tools.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 332702e..3657f63 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -574,6 +574,7 @@ class block_ops(object):
 
 		"""
 
+		from ..operators import hamiltonian
 
 		if imag_time:
 			raise ValueError("imaginary time not supported for block evolution.")
@@ -603,15 +604,10 @@ class block_ops(object):
 
 			H_list_prime = []
 			psi_blocks_prime = []
-			if n_left != 0:
-				H_list_prime.append(block_diag_hamiltonian(H_list[:n_left],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[:n_left]))
-
-			for i in range(n_jobs-1):
-				i1 = n_left + i*n_pp
-				i2 = n_left + (i+1)*n_pp
-				H_list_prime.append(block_diag_hamiltonian(H_list[i1:i2],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[i1:i2]))
+			for i1,i2 in [(0,n_left)]+[(n_left + i*n_pp,n_left + (i+1)*n_pp) for i in range(n_jobs-1)]:
+				static,dynamic = _block_diag_lists(H_list[i1:i2])
+				H_list_prime.append(hamiltonian(static,dynamic,copy=False,dtype=self._dtype))
+				psi_blocks_prime.append(_np.hstack(psi_blocks[i1:i2]))
 
 			H_list = H_list_prime
 			psi_blocks = psi_blocks_prime				
-- 
2.43.0


From d2ca6d2af27bb7a5889a1ed3aee7715a559d3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 157/159] fix: block_ops.evolve to a single time with blocks of
 different sizes

---
 quspin/tools/block_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 3657f63..7229e3d 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -622,7 +622,7 @@ class block_ops(object):
 				return _block_evolve_iter(psi_blocks,H_list,P,t0,times,stack_state,imag_time,solver_name,solver_args,n_jobs)
 			else:
 				psi_t = _Parallel(n_jobs = n_jobs)(_delayed(_block_evolve_helper)(H,psi,t0,times,stack_state,imag_time,solver_name,solver_args) for psi,H in _izip(psi_blocks,H_list))
-				psi_t = _np.vstack(psi_t)
+				psi_t = _np.concatenate(psi_t,axis=0)
 				psi_t = P.dot(psi_t)
 				return psi_t
 		else:
-- 
2.43.0


From dc271e909c59b33e5c37495604878e2e26ef36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 158/159] fix: block_ops.update_blocks uses the basis_kwargs of
 the object

---
 quspin/tools/block_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 7229e3d..ea363d1 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -368,6 +368,7 @@ class block_ops(object):
 		self._no_checks = {"check_symm":False,"check_herm":False,"check_pcon":False}
 		self._checked = False
 		self._get_proj_kwargs = get_proj_kwargs
+		self._basis_kwargs = dict(basis_kwargs)
 
 
 		for block in blocks:
@@ -446,7 +447,7 @@ class block_ops(object):
 		blocks = list(blocks)
 		for block in blocks:
 			if str(block) not in self._basis_dict.keys():
-				b = basis_con(*basis_args,**block)
+				b = basis_con(*basis_args,**dict(block,**self._basis_kwargs))
 
 				if b.Ns >  0:
 					self._basis_dict[str(block)]=b	
-- 
2.43.0


From 6544250864d53e2efaa37c38421222fb30732e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 159/159] fix: an error in a block evolution process is raised
 instead of waiting for it forever

---
 quspin/tools/block_tools.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index ea363d1..b80978f 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -159,15 +159,18 @@ def _worker(gen_func,args_list,q,e):
 
 	"""
 
-	gens = []
-	for arg in args_list:
-		gens.append(gen_func(*arg))
+	try:
+		gens = []
+		for arg in args_list:
+			gens.append(gen_func(*arg))
 
-	generator = _izip(*gens)
-	for s in generator:
-		e.clear()
-		q.put(s)
-		e.wait()
+		generator = _izip(*gens)
+		for s in generator:
+			e.clear()
+			q.put(s)
+			e.wait()
+	except Exception as error:
+		q.put(error) # raised again by the process which is waiting for the result
 
 	q.close()
  
@@ -227,7 +230,10 @@ def _generate_parallel(n_process,n_iter,gen_func,args_list):
 		s = []
 		# retrieve results for each sub-process and let the process know to continue calculation.
 		for q,e in _izip(qs,es):
-			s.extend(q.get())
+			result = q.get()
+			if isinstance(result,Exception):
+				raise result
+			s.extend(result)
 			e.set() # free process to do next calculation
 
 		# yield all results
-- 
2.43.0

