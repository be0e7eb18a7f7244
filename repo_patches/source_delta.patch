From bdf8f98123a4e6a6d65a54b1a7d056cfbb5ff45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 01/26] fix: ZZ division by a zero divisor with a
 multi-precision dividend, and INT64_MIN fdiv_r -1

---
 clpoly/number/ZZ.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..040acf3 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -480,6 +480,7 @@ public:
             }
             return ZZ(a._val / b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -506,6 +507,7 @@ public:
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: modulo by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -747,6 +749,7 @@ public:
             q._val = quot;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
@@ -787,6 +790,7 @@ public:
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         r._ensure_mpz();
         if (a._is_small()) {
@@ -810,13 +814,15 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (a._is_small() && b._is_small()) {
             if (b._val == 0) throw std::domain_error("ZZ: division by zero");
-            int64_t rem = a._val % b._val;
+            // INT64_MIN % -1 overflows; the remainder by -1 is always 0
+            int64_t rem = b._val == -1 ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         r._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
-- 
2.43.0


From cc46011d911a179a648911fb7bc61dc52f964d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 02/26] fix: term list normalization keeps a zero term when
 equal monomials cancel

---
 clpoly/basic.hh | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..399f90c 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -98,30 +98,25 @@ namespace clpoly{
         auto e=v.end();
         if (!std::is_sorted(b,e,comp))
             std::sort(b,e,comp);
-        auto t2=b;
-        while (t2!=e && zore_check<T2>()(t2->second))
-            ++t2;
-        if (t2==e)
-            return 0;
-        auto t1=b;
-        //std::cout<<t2->first<<":"<<t2->second<<std::endl;
-        if (t1!=t2)
-            *t1=std::move(*t2);
-        ++t2;
-        std::size_t tmp_size=1;
-        for(;t2!=e;++t2)
+        auto t1=b; // end of the terms kept so far
+        for(auto t2=b;t2!=e;++t2)
             //std::cout<<t2->first<<":"<<t2->second<<std::endl;
             if (!zore_check<T2>()(t2->second))
-                if (t1->first==t2->first) //equal_to
-                    t1->second+=t2->second;//add_assignment
+            {
+                if (t1!=b && (t1-1)->first==t2->first) //equal_to
+                {
+                    (t1-1)->second+=t2->second;//add_assignment
+                    if (zore_check<T2>()((t1-1)->second))
+                        --t1;
+                }
                 else
                 {
-                    ++t1;
-                    ++tmp_size;
                     if (t1!=t2)
                         *t1=std::move(*t2);
+                    ++t1;
                 }
-        return tmp_size;
+            }
+        return t1-b;
     }
     template <class T,class Tv,class compare>
     inline T pair_vec_find_first(const T & b,const T & e,const Tv & value,const compare & comp )
-- 
2.43.0


From 9dc8abde34c6bae6282cd188c924a315f5ea293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 03/26] fix: normal form test crashes on empty polynomials and
 skips the monomials

---
 clpoly/basic.hh    | 2 ++
 clpoly/monomial.hh | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 399f90c..a731706 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..44ce9c6 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -42,10 +42,10 @@ namespace clpoly
     }
     
     template <class T,class compare>
-    inline bool pair_vec_first_normal_check(std::vector<std::pair<basic_monomial<compare>,T>> & v,const  compare & comp)
+    inline bool pair_vec_first_normal_check(const std::vector<std::pair<basic_monomial<compare>,T>> & v,const  compare & comp)
     {
         for(auto &i:v)
-            if (i.first.comp_ptr()!=&comp || i.is_normal())
+            if (!(i.first.comp_ptr()==&comp || i.first.comp()==comp) || !i.first.is_normal())
             {
                 return false;
             }
-- 
2.43.0


From eaaac8052dd4574ea9f12ccf6bfc3f65b7dc3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 04/26] fix: division with remainder pushes the dividend
 coefficient, monomial division keeps zero quotients

---
 clpoly/basic.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index a731706..96a78ec 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -600,7 +600,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
@@ -819,7 +820,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From d9d87babc306e0157780640a09d21d3ab9180a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 05/26] fix: packed exponents are used although the product
 overflows their fields

---
 clpoly/monomial_order.hh | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..b6ba165 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,10 +221,20 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
-        else
-            if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
+        if (vars.size()>1)
+        {
+            unsigned int l=64/(vars.size()+1);
+            if (l==0) return false;
+            uint64_t deg1=v1_.begin()->first.deg(),deg2=v2_.begin()->first.deg();
+            if (delta)
+            {
+                if (std::max(deg1,deg2)>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (deg1+deg2>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_comp>
@@ -285,6 +295,8 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size<=1) // a single field that takes the whole word
+            return uint64_t(1)<<63;
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
@@ -443,10 +455,19 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
-        else    
-            if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
+        if (vars.size()>1)
+        {
+            unsigned int l=64/vars.size();
+            if (l==0) return false;
+            if (delta)
+            {
+                if (std::max(deg1,deg2)>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (deg1+deg2>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_order>
-- 
2.43.0


From 0d9ba43ecaacc03eea33602afd79fd354958c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 06/26] fix: packed division under lex overflows when the
 remainder's exponents grow

---
 clpoly/monomial.hh | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index 44ce9c6..c4b6a5f 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -363,6 +363,7 @@ namespace clpoly
         }
         std::size_t heap_size=0;
         std::size_t v_size=0;
+        bool overflow=false;
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
@@ -377,6 +378,11 @@ namespace clpoly
             {
                 m=heap[0]->mono;
                 set_zero(k);
+                if (m & mold) // the next exponents may not fit into their fields
+                {
+                    overflow=true;
+                    break;
+                }
             }
             // __monomial_decompression(m,m1,vars,comp_ptr);
             // std::cout<<m1<<" "<<k<<std::endl;
@@ -428,6 +434,11 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
@@ -487,6 +498,7 @@ namespace clpoly
         }
         std::size_t heap_size=0;
         std::size_t v_size=0;
+        bool overflow=false;
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
@@ -502,6 +514,11 @@ namespace clpoly
             {
                 m=heap[0]->mono;
                 set_zero(k);
+                if (m & mold) // the next exponents may not fit into their fields
+                {
+                    overflow=true;
+                    break;
+                }
             }
             // __monomial_decompression(m,m1,vars,comp_ptr);
             // std::cout<<m1<<" "<<k<<std::endl;
@@ -561,6 +578,12 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            R.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
-- 
2.43.0


From 6f6050540f21f65b496dc13f064746b60629087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 07/26] fix: adding a constant to a polynomial keeps zero terms
 and crashes on the empty polynomial

---
 clpoly/polynomial_.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..0488b6b 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -105,7 +105,7 @@ namespace clpoly{
     
     inline polynomial_ZZ operator-(monomial  m,int64_t i)
     {
-        return polynomial_ZZ({{std::move(m),1},{{},-i}});
+        return polynomial_ZZ({{std::move(m),1},{{},-ZZ(i)}});
     }
 
     inline polynomial_ZZ operator+(int64_t i,monomial  m)
@@ -159,7 +159,7 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator- (polynomial_<Tc> p,int64_t m)
     {
-        return p+Tc(-m);
+        return p+(-Tc(m));
     }
     template<class Tc>
     polynomial_<Tc> operator- (int64_t m, const polynomial_<Tc> &  p)
@@ -179,8 +179,14 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (zore_check<Tc>()(m))
+            return O;
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
+            if (zore_check<Tc>()(O.back().second))
+                O.data().pop_back();
+        }
         else
             O.push_back({{},std::move(m)});
         return O;
-- 
2.43.0


From cc20d53ac454d20c91ed72c8384af25b1a5a9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 08/26] fix: derivative over a prime field keeps vanishing
 terms

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..ed7a16a 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From 5b2ed9284a4b1e21de624809046d6306de96a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 09/26] fix: remainder of a division by a single term gets the
 quotient's monomial

---
 clpoly/basic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 96a78ec..bcf1721 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -739,7 +739,7 @@ namespace clpoly{
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
                     if (k1)
-                        R.push_back({m,std::move(k1)});
+                        R.push_back({i.first,std::move(k1)});
                     if (k)
                         new_v.push_back({std::move(m),std::move(k)});
 
-- 
2.43.0


From 435c6655f0ebafa12edce790a68171fb7550ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 10/26] fix: coefficients of a univariate-priority polynomial
 in another variable

---
 clpoly/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index ed7a16a..ec73a0d 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -203,12 +203,12 @@ namespace clpoly{
     {
         univariate_priority_order comp_v(v);
         polynomial_<Tc,univariate_priority_order> F_(&comp_v);
-        F_=F;
+        poly_convert(F,F_);
         auto coeff_l=coeff(F_);
         std::vector<polynomial_<Tc,comp>>  coF(coeff_l.size(),polynomial_<Tc,comp>(F.comp_ptr()));
         for (size_t i=0;i<coeff_l.size();++i)
         {
-            coF[i]=coeff_l[i];
+            poly_convert(coeff_l[i],coF[i]);
         }
         return coF;
     }
-- 
2.43.0


From 091a20acf44e943f0b897b1e76420a3d551f4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 11/26] fix: squarefreebasis: normalise the sign of basis
 elements

A basis polynomial with a negative leading coefficient never compared equal
to the (positive) gcd with a later input, so it was split into the constant
-1 and its negation.
---
 clpoly/polynomial_gcd.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..50cfd42 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -195,6 +195,8 @@ namespace clpoly{
                 }
                 if (!is_number(tmp))
                 {
+                    if (tmp.front().second<0) // gcds have a positive leading coefficient: basis elements need one as well
+                        tmp=-tmp;
                     lst_.push_back(std::move(tmp));
                     I_.push_back({{i,l_ptr->second}});
                 }
-- 
2.43.0


From f2b5ee6cb8b7d0076dc6a3be861863b998dbba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 12/26] fix: keep the subresultant of index 1 in the chain

subresultant() skipped computing the regular subresultant S_1 when the
degree dropped to 1 (a shortcut valid for resultant() only), so the chain
contained 0 (or a stale value) at index 1.
---
 clpoly/resultant.hh | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..8a5c8c9 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -358,16 +358,13 @@ namespace clpoly{
             if (r<j)
             {
                 
-                if (r!=1)
+                leadcoeff(R_,S_j);
+                if (j-r<2)
+                    pair_vec_multiplies(S_r.data(),R_.data(),S_j.data(),comp);
+                else 
                 {
-                    leadcoeff(R_,S_j);
-                    if (j-r<2)
-                        pair_vec_multiplies(S_r.data(),R_.data(),S_j.data(),comp);
-                    else 
-                    {
-                        pair_vec_power(tmp1.data(),R_.data(),j-r,comp);
-                        pair_vec_multiplies(S_r.data(),tmp1.data(),S_j.data(),comp);
-                    }
+                    pair_vec_power(tmp1.data(),R_.data(),j-r,comp);
+                    pair_vec_multiplies(S_r.data(),tmp1.data(),S_j.data(),comp);
                 }
                 
                 //  std::cout<<r<<":"<<S_r<<std::endl;
@@ -426,25 +423,18 @@ namespace clpoly{
                 //std::cout<<"R_j"<<":"<<tmp1<<std::endl;
                 leadcoeff(R_,S_j_1);
                 //std::cout<<"R_j+1"<<":"<<R_<<std::endl;
-                if (r!=1)
+                leadcoeff(tmp1,S_j);
+                if (j-r<2)
                 {
-                    leadcoeff(tmp1,S_j);
-                    if (j-r<2)
-                    {
-                        pair_vec_multiplies(tmp2.data(),tmp1.data(),S_j.data(),comp);
-                        pair_vec_div(S_r.data(),tmp2.data(),R_.data(),comp);
-                    }
-                    else 
-                    {
-                        pair_vec_power(S_r.data(),tmp1.data(),j-r,comp);
-                        pair_vec_multiplies(tmp2.data(),S_r.data(),S_j.data(),comp);
-                        pair_vec_power(tmp1.data(),R_.data(),j-r,comp);
-                        pair_vec_div(S_r.data(),tmp2.data(),tmp1.data(),comp);
-                    }
+                    pair_vec_multiplies(tmp2.data(),tmp1.data(),S_j.data(),comp);
+                    pair_vec_div(S_r.data(),tmp2.data(),R_.data(),comp);
                 }
-                else
+                else 
                 {
+                    pair_vec_power(S_r.data(),tmp1.data(),j-r,comp);
+                    pair_vec_multiplies(tmp2.data(),S_r.data(),S_j.data(),comp);
                     pair_vec_power(tmp1.data(),R_.data(),j-r,comp);
+                    pair_vec_div(S_r.data(),tmp2.data(),tmp1.data(),comp);
                 }
                 
                 //  std::cout<<r<<":"<<S_r<<std::endl;
-- 
2.43.0


From c782fc287923cc2b13639c1f2e9f247134e7727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 13/26] fix: graph_diff_score counts the nodes of both graphs

---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..fae0ad7 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -241,7 +241,7 @@ namespace clpoly{
         std::set<node_type> nodes;
         for (auto &i:g1.nodes())
             nodes.insert(i);
-        for (auto &j:g1.nodes())
+        for (auto &j:g2.nodes())
             nodes.insert(j);
         std::set<node_type> neighbor;
         double union_=0;
-- 
2.43.0


From 0b5c3cc155bc58dfe91b512d5eabaa283cbfb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 14/26] fix: __polynomial_m_d: constant polynomials have no
 main variable

---
 clpoly/associatedgraph.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index fae0ad7..fd0154f 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -410,7 +410,8 @@ namespace clpoly{
                 if (i->second>d)
                     d= i->second;
             }
-            ++md[m];
+            if (m<l.size())
+                ++md[m];
 
         }
         uint64_t m=0;
-- 
2.43.0


From c8a57a0149cc248b3ab0f326a883853910313f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 15/26] fix: connected_branch lists isolated nodes

---
 clpoly/associatedgraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.cc b/clpoly/associatedgraph.cc
index 317ba33..16b92d0 100644
--- a/clpoly/associatedgraph.cc
+++ b/clpoly/associatedgraph.cc
@@ -164,7 +164,8 @@ namespace clpoly{
         for (uint64_t i=0;i<g.size();++i)
             if (l2[i])
             {
-                l1.push_back({});
+                l1.push_back({i});
+                l2[i]=false;
                 _connected_branch_(i,l1.size()-1,g,l1,l2);
             }
         return l1;
-- 
2.43.0


From c3ab2c038117067bde297413d8403b49c4eb7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 16/26] fix: reduction and S-polynomials over the integers
 cancel the leading terms

Truncating coefficient division made normal_form() over ZZ loop forever
(Ideal<ZZ>::contains, ::reduce) and s_polynomial() meaningless whenever the
leading coefficients do not divide each other.
---
 clpoly/groebner.hh | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index a10e36a..7bda0fb 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -34,12 +34,22 @@ namespace clpoly {
         auto m_f = L / LM_f;
         auto m_g = L / LM_g;
 
-        // (1/LC_f) * m_f * f
+        // (1/LC_f) * m_f * f （ZZ 不是域: 用 LC_g/gcd 交叉相乘）
+        [[maybe_unused]] Tc c_f(LC_g), c_g(LC_f);
+        if constexpr (std::is_same_v<Tc, ZZ>)
+        {
+            Tc d = gcd(LC_f, LC_g);
+            c_f = LC_g / d;
+            c_g = LC_f / d;
+        }
         polynomial_<Tc, comp> poly_f(f);
         for (auto& term : poly_f.data())
         {
             term.first = term.first * m_f;
-            term.second = term.second / LC_f;
+            if constexpr (std::is_same_v<Tc, ZZ>)
+                term.second = term.second * c_f;
+            else
+                term.second = term.second / LC_f;
         }
 
         // (1/LC_g) * m_g * g
@@ -47,7 +57,10 @@ namespace clpoly {
         for (auto& term : poly_g.data())
         {
             term.first = term.first * m_g;
-            term.second = term.second / LC_g;
+            if constexpr (std::is_same_v<Tc, ZZ>)
+                term.second = term.second * c_g;
+            else
+                term.second = term.second / LC_g;
         }
 
         // S = poly_f - poly_g
@@ -85,7 +98,22 @@ namespace clpoly {
                 basic_monomial<comp> quot_m;
                 if (is_divexact(quot_m, h.front().first, G[i].front().first))
                 {
-                    Tc c = h.front().second / G[i].front().second;
+                    Tc c(h.front().second);
+                    if constexpr (std::is_same_v<Tc, ZZ>)
+                    {
+                        // ZZ 不是域: 先将 h, r 乘以 LC(G[i])/gcd, 使首项可以消去（结果差一个正整数倍）
+                        Tc d = gcd(c, G[i].front().second);
+                        Tc k = G[i].front().second / d;
+                        c = c / d;
+                        if (k < 0) { k = -k; c = -c; }
+                        if (!(k == 1))
+                        {
+                            for (auto& term : h.data()) term.second = term.second * k;
+                            for (auto& term : r.data()) term.second = term.second * k;
+                        }
+                    }
+                    else
+                        c = c / G[i].front().second;
                     // h <- h - c * quot_m * G[i]
                     polynomial_<Tc, comp> tmp(G[i]);
                     for (auto& term : tmp.data())
-- 
2.43.0


From cd7e81ae893783fcd6f731c6c81da011772af34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 17/26] fix: normal_form ignores zero polynomials among the
 divisors

---
 clpoly/groebner.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index 7bda0fb..f3f1774 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -95,6 +95,7 @@ namespace clpoly {
             bool divided = false;
             for (size_t i = 0; i < G.size(); ++i)
             {
+                if (G[i].empty()) continue;
                 basic_monomial<comp> quot_m;
                 if (is_divexact(quot_m, h.front().first, G[i].front().first))
                 {
-- 
2.43.0


From e984191e73992554888517a39a0e4b1bde3fe30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 18/26] fix: uspensky of a single polynomial reports the root 0

---
 clpoly/realroot.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 538fd7f..00bee4c 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -148,6 +148,8 @@ namespace clpoly{
         l.reserve(l1.size()+l2.size());
         for (auto i=l1.rbegin();i!=l1.rend();++i)
             l.push_back({-i->second,-i->first});
+        if (!assign<QQ,ZZ,QQ>(G,0))
+            l.push_back({0,0});
         for (auto &i:l2)
             l.push_back(i);
         
-- 
2.43.0


From 2674a04bc041a83314320a0ab3353bdee52a37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 19/26] fix: uroot::comp when bisection hits one of the roots
 exactly

With equal isolating intervals, (m,r) against [m,m] compared as less.
---
 clpoly/realroot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 00bee4c..26d7ab1 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -694,7 +694,7 @@ namespace clpoly{
             _uroot_check(r1,(r1->left()+r1->right())/2);
             _uroot_check(r2,(r2->left()+r2->right())/2);
         }
-        if (r1->left()<=r2->left())
+        if (r1->left()<r2->left() || (r1->left()==r2->left() && r1->right()<=r2->right()))
             return status;
         return -status;
     }
-- 
2.43.0


From 72fdf1535b8f8badaef82b0a309a9b686cf195d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 20/26] fix: new_variable() never reuses the name of an
 existing variable

---
 clpoly/variable.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clpoly/variable.hh b/clpoly/variable.hh
index 56cf444..76d6cc7 100644
--- a/clpoly/variable.hh
+++ b/clpoly/variable.hh
@@ -127,6 +127,8 @@ namespace clpoly{
         if (variable::free_serial.empty())
         {
             std::string variable_name="#var_"+ std::to_string(variable::variables.size());
+            while (variable::name_map.find(variable_name)!=variable::name_map.end())
+                variable_name+='_';
             variable::name_map[variable_name]=variable::variables.size();
             variable::variables.push_back(variable_name);
             return variable::variables.size()-1;
@@ -135,6 +137,8 @@ namespace clpoly{
         {
             std::size_t s=variable::free_serial.back();
             std::string variable_name="#var_"+ std::to_string(s);
+            while (variable::name_map.find(variable_name)!=variable::name_map.end())
+                variable_name+='_';
             variable::free_serial.pop_back();
             variable::name_map[variable_name]=s;
             variable::variables[s]=variable_name;
-- 
2.43.0


From b039705ce6d422d277d8a0eb0c98c46fbbed729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 21/26] fix: basset and charset terminate when the input
 contains zero polynomials

---
 clpoly/charset.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..5e21721 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -78,7 +78,10 @@ namespace clpoly{
     (InputIt first,InputIt second)
     {
         if(first==second) return {};
-        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F(first,second),B,Temp;
+        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F,B,Temp;
+        //零多项式不影响零点集
+        for(;first!=second;++first)
+            if(!first->empty()) F.push_back(*first);
         while(!F.empty())
         {
             //找最小秩的多项式b
@@ -107,6 +110,7 @@ namespace clpoly{
         {
             R.clear();
             C=basset<Tc>(F.begin(),F.end());
+            if(C.empty()) return C;
             // std::cout<<"C="<<C<<std::endl;
             // SHOW(C)
             if(is_number(C[0])) return C;
@@ -471,7 +475,7 @@ namespace clpoly{
             //std::cout<<"C="<<i<<std::endl;
         }
         
-        if(is_number(C[0])) return T;
+        if(!C.empty() && is_number(C[0])) return T;
 
         T.push_back(C);
         for(auto f:C)
-- 
2.43.0


From 4b32c2132e2514f3b1712086a7fcdf04e10065ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 22/26] fix: p-adic lifting in multivariate factorisation
 recovers coefficients of any size

---
 clpoly/polynomial_factorize_wang.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 8c28278..d2cf51c 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1101,6 +1101,10 @@ namespace clpoly{
         if (M > ZZ(2) * B)
             return result;   // 单次约化足够
 
+        // 首项系数取 Z 上的精确值: σi 关于 x1 的次数低于 F[i]，p-adic 修正无法恢复首项系数
+        for (int i = 0; i < r; i++)
+            __hensel_lc_correct(result[i], lc_targets[i], main_var);
+
         // C.3: p-adic MDP 使用完整多变量 F（MTSHL-d 结果）作为余因子
         // 注意：不能使用单变量 F_base，因为 p-adic MDP 的余因子 ∏_{j≠i} F[j]
         // 是多变量的。__mtshl_sparse_int 会在 θ-array 点求值 F[i]，每个点得到
@@ -1112,11 +1116,8 @@ namespace clpoly{
             for (const auto& term : F[i])
                 forms[i].push_back(term.first);
 
-        // C.4: p-adic 提升循环
-        // 63-bit 素数: l_max=5 → 可恢复 ~(2^63)^5 ≈ 10^95 范围的系数
-        constexpr int l_max = 5;
-
-        for (int l = 1; l < l_max && M <= ZZ(2) * B; l++)
+        // C.4: p-adic 提升循环（直到 M > 2B，系数大小不设上限）
+        while (M <= ZZ(2) * B)
         {
             // C.4.1: 计算 Z 上精确误差
             Poly product = result[0];
-- 
2.43.0


From 21e70d91d3632868ff605849d47ffa02be85b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 23/26] fix: evaluation points need no pairwise coprime leading
 coefficient values

---
 clpoly/polynomial_factorize_wang.hh | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index d2cf51c..4121dc7 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1188,7 +1188,7 @@ namespace clpoly{
     // ================================================================
 
     // §4.2 选取值点: 返回 α = {x₂→α₂,...,xₙ→αₙ}
-    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值两两互素
+    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值各有独有素因子
     template<class var_order>
     std::map<variable, ZZ>
     __select_eval_point(
@@ -1276,7 +1276,7 @@ namespace clpoly{
                 }
             }
 
-            // 条件 (d): lc 因子求值两两互素
+            // 条件 (d): lc 因子求值各有独有素因子
             if (!lc_irr_factors.empty())
             {
                 std::vector<ZZ> vals;
@@ -1294,13 +1294,21 @@ namespace clpoly{
                 for (auto& v : vals)
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
-                // 两两互素
-                bool pairwise_coprime = true;
-                for (size_t i = 0; i < vals.size() && pairwise_coprime; ++i)
-                    for (size_t j = i + 1; j < vals.size() && pairwise_coprime; ++j)
-                        if (gcd(vals[i], vals[j]) != ZZ(1))
-                            pairwise_coprime = false;
-                if (!pairwise_coprime) continue;
+                // 每个值须有独有素因子（整除该值而不整除其余值）。
+                // 不能要求两两互素: lⱼ(α) 可能有公共的固定素因子（如 y²+y+2 与 y²+y+4 恒为偶数）
+                bool distinguished = true;
+                for (size_t i = 0; i < vals.size() && distinguished; ++i)
+                {
+                    ZZ q = vals[i];
+                    for (size_t j = 0; j < vals.size(); ++j)
+                    {
+                        if (j == i) continue;
+                        for (ZZ g = gcd(q, vals[j]); g != ZZ(1); g = gcd(q, g))
+                            q = q / g;
+                    }
+                    distinguished = q != ZZ(1);
+                }
+                if (!distinguished) continue;
             }
 
             if (skip > 0) { --skip; continue; }
-- 
2.43.0


From 8fe51677cc77c16eef1cc039488816acf9a3c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 24/26] fix: univariate factors of a single term have positive
 leading coefficient

---
 clpoly/polynomial_factorize_univar.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/polynomial_factorize_univar.hh b/clpoly/polynomial_factorize_univar.hh
index 0d4e095..a3cac95 100644
--- a/clpoly/polynomial_factorize_univar.hh
+++ b/clpoly/polynomial_factorize_univar.hh
@@ -715,7 +715,7 @@ namespace clpoly{
     {
         if (f.empty()) return {ZZ(1), std::move(f)};
         ZZ c = cont(f);
-        if (f.front().second < ZZ(0)) c = -c;  // 确保 lc > 0
+        if ((f.front().second < ZZ(0)) != (c < ZZ(0))) c = -c;  // 确保 lc > 0（单项时 cont 带符号）
         for (auto& term : f)
             term.second /= c;
         return {std::move(c), std::move(f)};
-- 
2.43.0


From e98f6d855222f8859e4febe679ea1addabc75bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 25/26] fix: reject a zero denominator when reading a rational
 number

---
 clpoly/number/QQ.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..e532d19 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -166,9 +166,7 @@ public:
             q._num = ZZ(s);
             q._den = ZZ(1);
         } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
+            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));
         }
         return is;
     }
-- 
2.43.0


From 9622bc392ef8798812ed9d106e72d80df498c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 26/26] fix: draw the indices of random_select from the full
 size_t range

---
 clpoly/random.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index e6fa6b1..6441d40 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -100,7 +100,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         size_t tmp=no_repeat?m-n:m-1;
-        std::uniform_int_distribution<> dis(0, tmp);
+        std::uniform_int_distribution<size_t> dis(0, tmp);
         for (size_t i=0;i!=n;++i)
         {
             v.push_back(dis(gen));
-- 
2.43.0

