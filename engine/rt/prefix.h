// Forced into every instrumented translation unit: instantiate the library's templates here rather than use its compiled copies
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
// number formatting ends in a facet inside libstdc++; these are modelled instead
namespace std {
template<> template<> ostream& ostream::_M_insert<long> (long);
template<> template<> ostream& ostream::_M_insert<unsigned long> (unsigned long);
template<> template<> ostream& ostream::_M_insert<long long> (long long);
template<> template<> ostream& ostream::_M_insert<unsigned long long> (unsigned long long);
template<> template<> ostream& ostream::_M_insert<bool> (bool);
}
#endif
