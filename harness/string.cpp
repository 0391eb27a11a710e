#include "all_std.hpp"
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include "elem.hpp"
using Str = ptl::string;
using SV = std::string_view;
using Z = std::size_t;
using C = char;
using IL = std::initializer_list<char>;
using TI = ThrowIt<char>;
using II = InIt<char>;
extern "C" {
void s_ctor(void * p) { new(p) Str; }
void s_copy(void * p, const Str & o) { new(p) Str(o); }
void s_move(void * p, Str & o) { new(p) Str(std::move(o)); }
void s_ctor_range(void * p, const C * f, const C * l) { new(p) Str(f, l); }
void s_ctor_throwit(void * p, TI f, TI l) { new(p) Str(f, l); }
void s_ctor_init(void * p, II f, II l) { new(p) Str(f, l); }
void s_ctor_sv(void * p, SV s) { new(p) Str(s); }
void s_ctor_n(void * p, Z n, C c) { new(p) Str(n, c); }
void s_ctor_il(void * p, IL il) { new(p) Str(il); }
void s_literal(void * p, const C * s, Z n) { using namespace ptl::literals; new(p) Str(operator""_s(s, n)); }
void s_dtor(Str & a) { a.~Str(); }
Str * s_assign_copy(Str & a, const Str & b) { return &(a = b); }
Str * s_assign_move(Str & a, Str & b) { return &(a = std::move(b)); }
Str * s_assign_sv(Str & a, SV s) { return &(a = s); }
Str * s_assign_op_il(Str & a, IL il) { return &(a = il); }
void s_assign_range(Str & a, const C * f, const C * l) { a.assign(f, l); }
void s_assign_throwit(Str & a, TI f, TI l) { a.assign(f, l); }
void s_assign_init(Str & a, II f, II l) { a.assign(f, l); }
void s_assign_svf(Str & a, SV s) { a.assign(s); }
void s_assign_il(Str & a, IL il) { a.assign(il); }
void s_assign_n(Str & a, Z n, C c) { a.assign(n, c); }
Str * s_add_sv(Str & a, SV s) { return &(a += s); }
Str * s_add_il(Str & a, IL il) { return &(a += il); }
Str * s_add_c(Str & a, C c) { return &(a += c); }
Str * s_add_s(Str & a, const Str & b) { return &(a += b); }
void s_append_range(Str & a, const C * f, const C * l) { a.append(f, l); }
void s_append_throwit(Str & a, TI f, TI l) { a.append(f, l); }
void s_append_init(Str & a, II f, II l) { a.append(f, l); }
void s_append_sv(Str & a, SV s) { a.append(s); }
void s_append_il(Str & a, IL il) { a.append(il); }
void s_append_n(Str & a, Z n, C c) { a.append(n, c); }
void s_cat_vs(void * p, SV a, const Str & b) { new(p) Str(a + b); }
void s_cat_sv(void * p, const Str & a, SV b) { new(p) Str(a + b); }
void s_cat_cs(void * p, C a, const Str & b) { new(p) Str(a + b); }
void s_cat_sc(void * p, const Str & a, C b) { new(p) Str(a + b); }
void s_cat_ss(void * p, const Str & a, const Str & b) { new(p) Str(a + b); }
const C * s_index_c(const Str & a, Z i) { return &a[i]; }
C * s_index(Str & a, Z i) { return &a[i]; }
const C * s_at_c(const Str & a, Z i) { return &a.at(i); }
C * s_at(Str & a, Z i) { return &a.at(i); }
const C * s_front_c(const Str & a) { return &a.front(); }
C * s_front(Str & a) { return &a.front(); }
const C * s_back_c(const Str & a) { return &a.back(); }
C * s_back(Str & a) { return &a.back(); }
const C * s_data_c(const Str & a) { return a.data(); }
C * s_data(Str & a) { return a.data(); }
const C * s_c_str(const Str & a) { return a.c_str(); }
bool s_empty(const Str & a) { return a.empty(); }
Z s_size(const Str & a) { return a.size(); }
Z s_capacity(const Str & a) { return a.capacity(); }
Z s_max_size() { return Str::max_size(); }
C * s_push_back(Str & a, C c) { return &a.push_back(c); }
void s_pop_back(Str & a) { a.pop_back(); }
void s_reserve(Str & a, Z n) { a.reserve(n); }
void s_resize(Str & a, Z n) { a.resize(n); }
void s_resize_c(Str & a, Z n, C c) { a.resize(n, c); }
void s_shrink(Str & a) { a.shrink_to_fit(); }
void s_clear(Str & a) { a.clear(); }
C * s_erase1(Str & a, Z i) { return &*a.erase(a.cbegin() + i); }
C * s_erase(Str & a, Z i, Z j) { return &*a.erase(a.cbegin() + i, a.cbegin() + j); }
C * s_insert_range(Str & a, Z i, const C * f, const C * l) { return &*a.insert(a.cbegin() + i, f, l); }
C * s_insert_throwit(Str & a, Z i, TI f, TI l) { return &*a.insert(a.cbegin() + i, f, l); }
C * s_insert_init(Str & a, Z i, II f, II l) { return &*a.insert(a.cbegin() + i, f, l); }
C * s_insert_sv(Str & a, Z i, SV s) { return &*a.insert(a.cbegin() + i, s); }
C * s_insert_il(Str & a, Z i, IL il) { return &*a.insert(a.cbegin() + i, il); }
C * s_insert_c(Str & a, Z i, C c) { return &*a.insert(a.cbegin() + i, c); }
C * s_insert_n(Str & a, Z i, Z n, C c) { return &*a.insert(a.cbegin() + i, n, c); }
Str * s_replace_range(Str & a, Z i, Z j, const C * f, const C * l) { return &a.replace(a.cbegin() + i, a.cbegin() + j, f, l); }
Str * s_replace_throwit(Str & a, Z i, Z j, TI f, TI l) { return &a.replace(a.cbegin() + i, a.cbegin() + j, f, l); }
Str * s_replace_init(Str & a, Z i, Z j, II f, II l) { return &a.replace(a.cbegin() + i, a.cbegin() + j, f, l); }
Str * s_replace_sv(Str & a, Z i, Z j, SV s) { return &a.replace(a.cbegin() + i, a.cbegin() + j, s); }
Str * s_replace_il(Str & a, Z i, Z j, IL il) { return &a.replace(a.cbegin() + i, a.cbegin() + j, il); }
Str * s_replace_n(Str & a, Z i, Z j, Z n, C c) { return &a.replace(a.cbegin() + i, a.cbegin() + j, n, c); }
void s_substr(void * p, const Str & a, Z i) { new(p) Str(a.substr(i)); }
void s_substr_r(void * p, Str & a, Z i) { new(p) Str(std::move(a).substr(i)); }
void s_substr2(void * p, const Str & a, Z i, Z n) { new(p) Str(a.substr(i, n)); }
void s_substr2_r(void * p, Str & a, Z i, Z n) { new(p) Str(std::move(a).substr(i, n)); }
void s_view(SV * p, const Str & a) { *p = static_cast<SV>(a); }
const C * s_begin_c(const Str & a) { return &*a.begin(); }
C * s_begin(Str & a) { return &*a.begin(); }
const C * s_cbegin(const Str & a) { return &*a.cbegin(); }
const C * s_end_c(const Str & a) { return &*a.end(); }
C * s_end(Str & a) { return &*a.end(); }
const C * s_cend(const Str & a) { return &*a.cend(); }
C * s_rbegin(Str & a) { return &*a.rbegin().base(); }
const C * s_rbegin_c(const Str & a) { return &*a.rbegin().base(); }
const C * s_crbegin(const Str & a) { return &*a.crbegin().base(); }
C * s_rend(Str & a) { return &*a.rend().base(); }
const C * s_rend_c(const Str & a) { return &*a.rend().base(); }
const C * s_crend(const Str & a) { return &*a.crend().base(); }
void s_swap(Str & a, Str & b) { a.swap(b); }
void s_swap_free(Str & a, Str & b) { swap(a, b); }
void s_std_swap(Str & a, Str & b) { using std::swap; swap(a, b); }
#define CMP(name, op) \
bool s_##name(const Str & a, const Str & b) { return a op b; } \
bool s_##name##_sv(const Str & a, SV b) { return a op b; } \
bool s_##name##_vs(SV a, const Str & b) { return a op b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
bool s_hash_same(const Str & a, const Str & b) { return std::hash<Str>{}(a) == std::hash<Str>{}(b); }
bool s_hash_sv(const Str & a) { return std::hash<Str>{}(a) == std::hash<SV>{}(SV(a)); }
bool s_hash_ref(const Str & a) { return std::hash<Str>{}(a) == std::hash<ptl::string_ref>{}(ptl::string_ref(a)); }
Z s_hash(const Str & a) { return std::hash<Str>{}(a); }
std::ostream * s_print(std::ostream & os, const Str & a) { return &(os << a); }
}
