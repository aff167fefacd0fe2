#pragma once
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <typeinfo>
#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 10
#endif
#define KASSERT_1(c) KASSERT_3(c,"",30)
#define KASSERT_2(c,m) KASSERT_3(c,m,30)
#define KASSERT_3(c,m,l) do { if constexpr ((l) <= KASSERT_ASSERTION_LEVEL) { if (!(c)) { std::ostringstream ks_; ks_ << m; std::fprintf(stderr,"KASSERT %s:%d %s: %s\n",__FILE__,__LINE__,#c,ks_.str().c_str()); std::abort(); } } } while(false)
#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)
#define KASSERT_SEL(_1,_2,_3,N,...) N
#define KASSERT(...) KASSERT_SEL(__VA_ARGS__,KASSERT_3,KASSERT_2,KASSERT_1)(__VA_ARGS__)
