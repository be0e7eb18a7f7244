# Definitions of the planted bugs (see seed.py).  Written from the property texts and the code alone.
SEEDS = {}
def S(name, property, edits, demo, needs, breaks):
    SEEDS[name] = dict(property=property, edits=edits, demo="#include <clpoly/clpoly.hh>\n#include <cstdio>\n#include <iostream>\n#include <sstream>\nusing namespace clpoly;\n" + demo, needs=needs, breaks=breaks)

S("n02-shift-64", "N02", [("number/ZZ.hh", "            if (n >= 63) { _val = (_val < 0) ? -1 : 0; }", "            if (n > 64) { _val = (_val < 0) ? -1 : 0; }")],
'''int main() { volatile unsigned long n = 64; ZZ a(12345), b(-12345); return (a >> n) == ZZ(0) && (b >> n) == ZZ(-1) ? 0 : 1; }
''', "a right shift of a machine-word integer by exactly 64", "The shift count reaches the machine instruction, which takes it modulo 64: the value is returned unshifted.")

S("u02-sub-zero-tail", "U02", [("dense_upoly_zp.hh", "                C[i] = (B[i] == 0) ? 0 : _p - B[i];", "                C[i] = _p - B[i];")],
'''#include <random>
static upolynomial_<Zp> mk(const std::vector<uint64_t>& c, uint64_t p) { upolynomial_<Zp> f; for (size_t i = c.size(); i-- > 0;) if (c[i] % p) f.push_back({umonomial(i), Zp((int64_t)(c[i] % p), p)}); return f; }
int main() { uint64_t p = 3; std::mt19937_64 g(5); for (int t = 0; t < 12; ++t) { std::vector<uint64_t> a(420 + 40 * t), b(400 + 37 * t), h(30); for (auto &x : a) x = g() % 5 == 0 ? 1 + g() % 2 : 0; for (auto &x : b) x = g() % 5 == 0 ? 1 + g() % 2 : 0; for (auto &x : h) x = g() % 3; a.back() = b.back() = h.back() = 1;
  auto H = mk(h, p), F = mk(a, p) * H, G = mk(b, p) * H; auto d = polynomial_GCD(F, G);
  // reference: plain Euclid on the sparse representation
  upolynomial_<Zp> r0 = F, r1 = G, q, r; while (!r1.empty()) { pair_vec_div(q.data(), r.data(), r0.data(), r1.data(), r0.comp()); r0 = r1; r1 = r; } Zp c = r0.front().second.inv(); for (auto &x : r0) x.second *= c; if (!(d == r0)) return 1; } return 0; }
''', "a gcd large enough for the half-gcd over a small prime, whose subtracted product is longer and has a zero coefficient in its tail", "The difference gets the coefficient p instead of 0, so the length of an intermediate remainder is wrong.")
S("n03-neg-demote", "N03", [("number/ZZ.hh", """        mpz_neg(r._mpz, a._mpz);
        r._demote_if_small();
        return r;""", """        mpz_neg(r._mpz, a._mpz);
        return r;""")],
"""int main() { ZZ a("9223372036854775808"); ZZ b = -a, c(INT64_MIN); if (!(b == c)) return 1; if (b.hash() != c.hash()) return 1; return b.is_small() == c.is_small() ? 0 : 1; }
""", "the negation of 2^63, the only big value whose negative fits a machine word", "The result keeps the big representation: it compares equal to INT64_MIN but hashes differently.")
A = """            if (d==1)
            {
                pair_vec_multiplies(tmp_G,O.data(),tmp_F0,comp);
                std::swap(tmp_G,O.data());
            }
            else
            {
                pair_vec_power(tmp_G1,tmp_F0,d,comp);
                pair_vec_multiplies(tmp_G,O.data(),tmp_G1,comp);
                std::swap(tmp_G,O.data());
            }
            
        }
        
        //L.data()=std::move(tmp_F0);
        // L=pow(L,d);
    }


    template <class Tc,class var_order>
    void pquo("""
S("p05-prem-gap3", "P05", [("polynomial.hh", A, A.replace("pair_vec_power(tmp_G1,tmp_F0,d,comp);", "pair_vec_multiplies(tmp_G1,tmp_F0,tmp_F0,comp);"))],
"""int main() { variable x("x"), y("y"); typedef polynomial_<ZZ, lex> P; P g, f; poly_convert(polynomial_ZZ(pow(x, 4) + y), g); poly_convert(polynomial_ZZ(y * x + 1), f);
  // G = x^3 + y, F = y x: the first step already leaves degree 0
  poly_convert(polynomial_ZZ(pow(x, 4) + y), g); poly_convert(polynomial_ZZ(x * y * 2), f); P r = prem(g, f, x); P e; poly_convert(polynomial_ZZ(16 * pow(y, 5)), e); return r == e ? 0 : 1; }
""", "a pseudo-division whose degree falls by three or more missing steps at once (sparse operands)", "The leading coefficient power used to complete the pseudo-remainder is always the square.")

S("a01-height-later-child", "A01", [("associatedgraph.hh", """                if (height[i1]>=height[minc])
                    height[minc]=height[i1]+1;""", """                height[minc]=height[i1]+1;""")],
"""int main() { variable a("a"), b("b"), c("c"), d("d"); graph<variable> g; g.add_edge(a, b); g.add_edge(b, d); g.add_edge(c, d); // chain a-b-d and leaf c-d; eliminating a, b, c, d
  return elimination_height(g, std::vector<variable>{a, b, c, d}) == 2 ? 0 : 1; }
""", "a node of the elimination tree with two children of different height, the lower one eliminated last", "The height of a node is overwritten by the child eliminated last.")
S("a01-mcsm-relax", "A01", [("associatedgraph.cc", "if (tmp_1[j]==-1 || tmp_5<tmp_1[j])", "if (tmp_1[j]==-1)")],
"""static bool chordal(const graph<variable>& G, const std::vector<variable>& l) { std::vector<char> done(G.size(), 0); for (auto &v : l) { auto i = G.index(v); done[i] = 1; for (auto j : G.adjacency_list()[i]) if (!done[j]) for (auto k : G.adjacency_list()[i]) if (!done[k] && j < k && !G.is_edge(j, k)) return false; } return true; }
int main() { std::vector<variable> v; for (int i = 0; i < 8; ++i) v.push_back(variable(std::string("v") + char('a' + i))); uint64_t s = 12345; for (int t = 0; t < 30000; ++t) { graph<variable> g; for (auto &x : v) g.add_node(x); for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) { s = s * 6364136223846793005ull + 1442695040888963407ull; if ((s >> 60) < 5) g.add_edge(v[i], v[j]); } graph<variable> o; auto l = chordal_completion(o, g); if (!chordal(o, l)) return 1; 
    for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) if (o.is_edge(v[i], v[j]) && !g.is_edge(v[i], v[j])) { // every fill edge is needed: its ends have two non-adjacent common neighbours
      bool need = false; for (int p = 0; p < 8 && !need; ++p) for (int q = 0; q < p; ++q) if (o.is_edge(v[i], v[p]) && o.is_edge(v[j], v[p]) && o.is_edge(v[i], v[q]) && o.is_edge(v[j], v[q]) && !o.is_edge(v[p], v[q]) && p != i && p != j && q != i && q != j) need = true; if (!need) return 1; } } return 0; }
""", "a graph in which the fill path to a vertex with the smallest labels is longer than another one", "A vertex reached first along a path with large labels keeps that label, so fill edges are missing.")
S("x01-mid-root", "X01", [("realroot.cc", """                if (v[i]==1)
                {
                    v[i]=0;
                }""", """                if (v[i]<=2)
                {
                    v[i]=0;
                }""")],
"""int main() { // roots 2 and 1 of the first polynomial lie in (0,4): 2 is its midpoint; x^2-3 forces the bisection
  upolynomial_<ZZ> f = {{2, 1}, {1, -3}, {0, 2}}, g = {{2, 1}, {0, -3}}; auto r = uspensky({f, g}); return r.first.size() == 4 && r.second.size() == 4 ? 0 : 1; }
""", "several polynomials isolated together, one with a root exactly at a bisection point and one more root in the interval", "The polynomial is dropped from the search although it has one more root there.")
S("x02-overlap-right", "X02", [("realroot.cc", "            _uroot_check(r1,r2->right());\n            _uroot_check(r2,r1->right());", "            _uroot_check(r1,r2->right());")],
"""int main() { // sqrt(2) in (0,3/2), 9/7 in (1,2): the intervals overlap partially and the larger root has the interval that starts earlier
  upolynomial_<ZZ> f = {{2, 1}, {0, -2}}, g = {{1, 7}, {0, -9}}; uroot a(f, 0, QQ(3, 2)), b(g, 1, 2); return uroot::comp(&a, &b) == -1 ? 0 : 1; }
""", "two partially overlapping isolating intervals where the one reaching further right holds the smaller root", "The second interval is not refined at the right end of the first one, and the order of the left ends is taken for the order of the roots.")
S("t01-qq-read-den", "T01", [("number/QQ.hh", "            q._num = ZZ(s);\n            q._den = ZZ(1);", "            q._num = ZZ(s);")],
"""int main() { QQ q(1, 3); std::istringstream i("5"); i >> q; return q == QQ(5) ? 0 : 1; }
""", "reading an integer into a variable that held a proper fraction", "The old denominator survives.")
S("t02-const-first", "T02", [("random.hh", "            for (auto &t : p1)\n                if (t.first.empty()) { has_const = true; break; }", "            if (p1.back().first.empty()) has_const = true;")],
"""int main() { variable x("x"), y("y"); for (int t = 0; t < 3000; ++t) { auto p = random_polynomial<ZZ>({x, y}, 2, 5, {1, 3}, true); for (auto &m : p) if (m.second < 1 || m.second > 3) return 1; } return 0; }
""", "a constant term requested and already drawn among several terms", "The constant is added twice: its coefficient leaves the requested range or it cancels.")
S("r01-gap3", "R01", [("resultant.hh", """                if ((j-r) & 1)
                    pair_vec_negate(S_r_1.data());
                //  std::cout<<r-1<<":"<<S_r_1<<std::endl;
                swap(S_j.data(),S_r_1.data());
                swap(S_j_1.data(),S_r.data());
                j=r-1;
            }
            else
            {
                prem(tmp1,S_j_1,S_j,v);
                // std::cout<<"tmp1:"<<tmp1<<std::endl;
                leadcoeff(R_,S_j_1);
                // std::cout<<"R_:"<<R_<<std::endl;
                pair_vec_multiplies(tmp2.data(),R_.data(),R_.data(),comp);
                // std::cout<<"tmp2:"<<tmp2<<std::endl;
                pair_vec_div(S_j_1.data(),tmp1.data(),tmp2.data(),comp);
                --j;
                //  std::cout<<j<<":"<<S_j_1<<std::endl;
                swap(S_j.data(),S_j_1.data());
            }
            
        }
        O.data()""", """                if (j-r==1)
                    pair_vec_negate(S_r_1.data());
                //  std::cout<<r-1<<":"<<S_r_1<<std::endl;
                swap(S_j.data(),S_r_1.data());
                swap(S_j_1.data(),S_r.data());
                j=r-1;
            }
            else
            {
                prem(tmp1,S_j_1,S_j,v);
                // std::cout<<"tmp1:"<<tmp1<<std::endl;
                leadcoeff(R_,S_j_1);
                // std::cout<<"R_:"<<R_<<std::endl;
                pair_vec_multiplies(tmp2.data(),R_.data(),R_.data(),comp);
                // std::cout<<"tmp2:"<<tmp2<<std::endl;
                pair_vec_div(S_j_1.data(),tmp1.data(),tmp2.data(),comp);
                --j;
                //  std::cout<<j<<":"<<S_j_1<<std::endl;
                swap(S_j.data(),S_j_1.data());
            }
            
        }
        O.data()""")],
"""int main() { variable x("x"); polynomial_ZZ g = pow(x, 5) + x + 1, f = x * g + x + 2; // res(f,g) = -g(-2) = 33
  auto r = resultant(f, g, x); return r == polynomial_ZZ(ZZ(33)) ? 0 : 1; }
""", "a polynomial remainder sequence whose degree drops by four in the middle of the chain", "The sign of the subresultant after an odd gap of three is wrong.")
S("b01-chain-criterion", "B01", [("groebner.hh", "if (L_ih != L_ij && L_hj != L_ij)", "if (L_ih != L_ij || L_hj != L_ij)")],
"""int main() { variable x("x"), y("y"), z("z"); uint64_t s = 7; auto rnd = [&](int n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (int)((s >> 33) % n); };
  for (int t = 0; t < 4000; ++t) { std::vector<polynomial_QQ> F; for (int i = 0; i < 3; ++i) { polynomial_QQ p; for (int k = 0; k < 2; ++k) p = p + polynomial_QQ(pow(x, rnd(3)) * pow(y, rnd(3)) * pow(z, rnd(2))) * QQ(1 + rnd(2)); if (!p.empty()) F.push_back(p); }
    auto G = groebner_basis(F); for (auto &f : F) if (!normal_form(f, G).empty()) return 1; for (auto &a : G) for (auto &b : G) if (!(a == b) && !normal_form(s_polynomial(a, b), G).empty()) return 1; } return 0; }
""", "a pair of generators whose leading monomials' lcm is divisible by a later basis element sharing the lcm with one of them", "The pair is dropped although the chain criterion does not apply, so the result need not be a Groebner basis.")
